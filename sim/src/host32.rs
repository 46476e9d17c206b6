//! A simulated host with 32-bit addresses. The crate under test (no_std) is compiled for the x32 ABI,
//! where pointers and usize have 32 bits, and linked to fixed low addresses. It runs inside the simulated
//! process on a stack and a heap below 4 GiB, under the same scheduler, allocator, writers and row
//! sources as the other flavours. Calls out of it go through trampolines at fixed addresses.
//! Like on most small systems a panic does not unwind there: the machine is abandoned at that point.

use crate::alloc::{Pause, Track};
use crate::sched;
use crate::sys::*;
use crate::world::Global;
use simapi::*;
use std::alloc::{GlobalAlloc, Layout};
use std::any::Any;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

const TRAMPOLINES: usize = 0x1f00_0000;
const STACK: usize = 1 << 20;

static ENTRY: Global<usize> = Global::new(0);

/// Whether the program of the 32-bit host could be built and loaded
pub fn available() -> bool {
    *ENTRY.get() != 0
}

std::arch::global_asm!(
    ".globl jpsim_enter32",
    "jpsim_enter32:", // entry, kind, address, length, stack, save
    "push rbx",
    "push rbp",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [r9], rsp",
    "mov rbx, r9",
    "mov rax, rdi",
    "mov edi, esi",
    "mov esi, edx",
    "mov edx, ecx",
    "mov rsp, r8",
    "call rax",
    "mov rsp, [rbx]",
    "xor eax, eax",
    "2:",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbp",
    "pop rbx",
    "ret",
    ".globl jpsim_escape32",
    "jpsim_escape32:", // save
    "mov rsp, [rdi]",
    "mov eax, 1",
    "jmp 2b",
);

extern "sysv64" {
    fn jpsim_enter32(entry: usize, kind: u32, p: u32, len: u32, stack: usize, save: *mut usize) -> u32;
    fn jpsim_escape32(save: *mut usize) -> !;
}

struct Ctx<'a, 'b> {
    save: usize,
    sink: Option<&'a mut dyn NsSink>,
    memory: Option<&'a mut Vec<u8>>,
    rows: Option<&'b dyn Rows>,
    error: String,
    panic: Option<Box<dyn Any + Send>>,
    /// Low memory that holds the last row
    row: Low,
    log: Vec<u8>,
    /// What the guest has allocated and not freed
    heap: Vec<(u32, u32, u32)>,
}

thread_local! {
    static CTX: Cell<*mut Ctx<'static, 'static>> = const { Cell::new(std::ptr::null_mut()) };
}

fn ctx() -> &'static mut Ctx<'static, 'static> {
    unsafe { &mut *CTX.with(|c| c.get()) }
}

/// Memory of the simulator below 4 GiB
struct Low {
    at: *mut u8,
    len: usize,
}

impl Low {
    fn new(len: usize) -> Low {
        let len = (len.max(1) + 4095) & !4095;
        Low { at: map_low(len), len }
    }
}

impl Drop for Low {
    fn drop(&mut self) {
        unmap(self.at, self.len);
    }
}

/// Leaves the guest for good
fn escape(p: Box<dyn Any + Send>) -> ! {
    let c = ctx();
    c.panic = Some(p);
    unsafe { jpsim_escape32(&mut c.save) }
}

/// Runs a callback. A panic in it ends the guest and continues behind it.
fn guarded<R>(f: impl FnOnce() -> R) -> R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => escape(p),
    }
}

unsafe fn bytes<'a>(p: u32, n: u32) -> &'a [u8] {
    std::slice::from_raw_parts(p as usize as *const u8, n as usize)
}

unsafe extern "sysv64" fn h_alloc(size: u32, align: u32) -> u32 {
    let p = {
        let _t = Track::low();
        crate::HEAP.alloc(Layout::from_size_align_unchecked(size as usize, align as usize)) as usize as u32
    };
    if p != 0 {
        ctx().heap.push((p, size, align));
    }
    p
}

fn forget(p: u32) {
    let h = &mut ctx().heap;
    match h.iter().rposition(|x| x.0 == p) {
        Some(i) => {
            h.swap_remove(i);
        }
        None => crate::bad!("free-of-unknown-memory", "the code under test damaged the heap"),
    }
}

unsafe extern "sysv64" fn h_free(p: u32, size: u32, align: u32) {
    forget(p);
    let _t = Track::low();
    let l = Layout::from_size_align_unchecked(size as usize, align as usize);
    crate::HEAP.dealloc(p as usize as *mut u8, l)
}

unsafe extern "sysv64" fn h_realloc(p: u32, size: u32, align: u32, new: u32) -> u32 {
    let q = {
        let _t = Track::low();
        let l = Layout::from_size_align_unchecked(size as usize, align as usize);
        crate::HEAP.realloc(p as usize as *mut u8, l, new as usize) as usize as u32
    };
    if q != 0 {
        forget(p);
        ctx().heap.push((q, new, align));
    }
    q
}

unsafe extern "sysv64" fn h_panic(p: u32, n: u32) -> ! {
    let text = String::from_utf8_lossy(bytes(p, n)).into_owned();
    crate::world::put_str(&mut crate::world::shm().panic, &text);
    escape(Box::new(text))
}

fn status(r: Result<(), EncErr>) -> u32 {
    match r {
        Ok(()) => 0,
        Err(EncErr::InvalidAppSegment(n)) => 2 + 256 * n as u32,
        Err(EncErr::Write(s)) => {
            ctx().error = s;
            1
        }
        Err(e) => {
            ctx().error = format!("{:?}", e);
            1
        }
    }
}

unsafe extern "sysv64" fn h_write(p: u32, n: u32) -> u32 {
    guarded(|| status(ctx().sink.as_mut().unwrap().write_all(bytes(p, n))))
}

unsafe extern "sysv64" fn h_flush() -> u32 {
    guarded(|| status(ctx().sink.as_mut().unwrap().flush()))
}

unsafe extern "sysv64" fn h_error(p: u32, n: u32) -> u32 {
    let e = &ctx().error;
    let n = e.len().min(n as usize);
    std::ptr::copy_nonoverlapping(e.as_ptr(), p as usize as *mut u8, n);
    n as u32
}

unsafe extern "sysv64" fn h_row(y: u32) -> u32 {
    guarded(|| {
        let c = ctx();
        let mut b: [Vec<u8>; 4] = Default::default();
        c.rows.unwrap().fill(y as u16, &mut b);
        let n: usize = b.iter().map(|v| v.len()).sum();
        if n + 32 > c.row.len {
            c.row = Low::new(n + 32);
        }
        let at = c.row.at as usize;
        let mut data = at + 32;
        for (i, v) in b.iter().enumerate() {
            std::ptr::copy_nonoverlapping(v.as_ptr(), data as *mut u8, v.len());
            ((at + 8 * i) as *mut u32).write(data as u32);
            ((at + 8 * i + 4) as *mut u32).write(v.len() as u32);
            data += v.len();
        }
        at as u32
    })
}

unsafe extern "sysv64" fn h_done(p: u32, n: u32) {
    ctx().log = bytes(p, n).to_vec();
}

unsafe extern "sysv64" fn h_memory(p: u32, n: u32) {
    if let Some(v) = ctx().memory.as_mut() {
        v.extend_from_slice(bytes(p, n));
    }
}

unsafe extern "sysv64" fn h_guards(start: u32, stop: u32) {
    sched::__sanitizer_cov_trace_pc_guard_init(start as usize as *mut u32, stop as usize as *mut u32)
}

unsafe extern "sysv64" fn h_edge(g: u32) {
    sched::edge(g as usize as *mut u32, 0)
}

/// Memory below 2 GiB with an inaccessible page on either side
fn map_low(len: usize) -> *mut u8 {
    const MAP_32BIT: usize = 0x40;
    map(0, len, PROT_RW, 0x22 | 0x4000 | MAP_32BIT)
}

/// Loads the program of the 32-bit host
pub fn load(path: &std::path::Path) {
    let Ok(f) = std::fs::read(path) else { return };
    let u32_at = |i: usize| u32::from_le_bytes(f[i..i + 4].try_into().unwrap()) as usize;
    let u16_at = |i: usize| u16::from_le_bytes(f[i..i + 2].try_into().unwrap()) as usize;
    // ELF, 32 bit, x86-64
    if f.len() < 52 || f[..5] != [0x7F, b'E', b'L', b'F', 1] || u16_at(18) != 62 {
        return;
    }
    let (phoff, phnum) = (u32_at(28), u16_at(44));
    let fixed = 0x22 | 0x10_0000;
    unsafe {
        let mut protect = Vec::new();
        for i in 0..phnum {
            let h = phoff + 32 * i;
            let (kind, off, at, filesz, memsz, flags) =
                (u32_at(h), u32_at(h + 4), u32_at(h + 8), u32_at(h + 16), u32_at(h + 20), u32_at(h + 24));
            if kind != 1 || memsz == 0 {
                continue;
            }
            let base = at & !4095;
            let len = ((at + memsz + 4095) & !4095) - base;
            if sc6(SYS_MMAP, base, len, PROT_RW, fixed, usize::MAX, 0) != base as isize {
                return;
            }
            std::ptr::copy_nonoverlapping(f[off..].as_ptr(), at as *mut u8, filesz);
            protect.push((base, len, (flags & 4) >> 2 | flags & 2 | (flags & 1) << 2));
        }
        for (base, len, p) in protect {
            sc3(SYS_MPROTECT, base, len, p);
        }
        if sc6(SYS_MMAP, TRAMPOLINES, 4096, PROT_RW, fixed, usize::MAX, 0) != TRAMPOLINES as isize {
            return;
        }
        let host: [usize; 12] = [
            h_alloc as *const () as usize,
            h_free as *const () as usize,
            h_realloc as *const () as usize,
            h_panic as *const () as usize,
            h_write as *const () as usize,
            h_flush as *const () as usize,
            h_error as *const () as usize,
            h_row as *const () as usize,
            h_done as *const () as usize,
            h_memory as *const () as usize,
            h_guards as *const () as usize,
            h_edge as *const () as usize,
        ];
        for (i, a) in host.iter().enumerate() {
            // mov rax, a; jmp rax
            let t = (TRAMPOLINES + 16 * i) as *mut u8;
            t.write(0x48);
            t.add(1).write(0xB8);
            (t.add(2) as *mut usize).write_unaligned(*a);
            t.add(10).write(0xFF);
            t.add(11).write(0xE0);
        }
        sc3(SYS_MPROTECT, TRAMPOLINES, 4096, 5);
    }
    let entry = u32_at(24);
    let mut save = 0;
    let stack = Low::new(STACK);
    unsafe {
        jpsim_enter32(entry, 0, 0, 0, stack.at as usize + STACK, &mut save);
    }
    *ENTRY.get() = entry;
}

// ---- requests ------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Put(pub Vec<u8>);

impl Put {
    pub fn u8(&mut self, v: u8) {
        self.0.push(v);
    }
    pub fn u16(&mut self, v: u16) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    pub fn u32(&mut self, v: usize) {
        self.0.extend_from_slice(&(v as u32).to_le_bytes());
    }
    fn table(&mut self, t: &Qt) {
        match t {
            Qt::Named(n) => self.u8(*n),
            Qt::Custom(t) => {
                self.u8(9);
                for &v in t.iter() {
                    self.u16(v);
                }
            }
        }
    }
}

struct Get<'a>(&'a [u8]);

impl Get<'_> {
    fn u8(&mut self) -> u8 {
        let v = self.0[0];
        self.0 = &self.0[1..];
        v
    }
    fn u16(&mut self) -> u16 {
        self.u8() as u16 | (self.u8() as u16) << 8
    }
    fn u32(&mut self) -> usize {
        self.u16() as usize | (self.u16() as usize) << 16
    }
    fn text(&mut self) -> String {
        let n = self.u32();
        let t = String::from_utf8_lossy(&self.0[..n]).into_owned();
        self.0 = &self.0[n..];
        t
    }
    fn table(&mut self) -> Qt {
        match self.u8() {
            9 => {
                let mut t = [0u16; 64];
                for v in t.iter_mut() {
                    *v = self.u16();
                }
                Qt::Custom(Box::new(t))
            }
            n => Qt::Named(n),
        }
    }
    fn result(&mut self, kind: u8) -> Result<(), EncErr> {
        Err(match kind {
            0 => return Ok(()),
            1 => EncErr::InvalidAppSegment(self.u32() as u8),
            2 => EncErr::AppSegmentTooLarge(self.u32()),
            3 => EncErr::IccTooLarge(self.u32()),
            4 => EncErr::BadImageData { length: self.u32(), required: self.u32() },
            5 => EncErr::ZeroImageDimensions { width: self.u32() as u16, height: self.u32() as u16 },
            6 => EncErr::Write(self.text()),
            _ => EncErr::Other(self.text()),
        })
    }
}

/// Requests as the programs of the simulated hosts read them. `data` says where or what a piece of data is.
pub fn put_ops(p: &mut Put, ops: &[Op], mut data: impl FnMut(&mut Put, &[u8])) {
    // A scan count out of range panics: nothing that can be survived on these hosts
    let ops: Vec<&Op> = ops.iter().filter(|o| !matches!(o, Op::BadScans(_) | Op::Pause)).collect();
    p.u16(ops.len() as u16);
    for o in &ops {
        match o {
            Op::Density(d) => {
                p.u8(0);
                let (k, x, y) = match *d {
                    Dens::None => (0, 0, 0),
                    Dens::Inch(x, y) => (1, x, y),
                    Dens::Cm(x, y) => (2, x, y),
                };
                p.u8(k);
                p.u16(x);
                p.u16(y);
            }
            Op::Sampling(i) => {
                p.u8(1);
                p.u8(*i);
            }
            Op::Qtables(a, b) => {
                p.u8(2);
                p.table(a);
                p.table(b);
            }
            Op::Progressive(v) => {
                p.u8(3);
                p.u8(*v as u8);
            }
            Op::Scans(n) => {
                p.u8(4);
                p.u8(*n);
            }
            Op::BadScans(_) | Op::Pause => unreachable!(),
            Op::Restart(n) => {
                p.u8(5);
                p.u16(*n);
            }
            Op::Optimize(v) => {
                p.u8(6);
                p.u8(*v as u8);
            }
            Op::App(n, d) => {
                p.u8(7);
                p.u8(*n);
                data(p, d);
            }
            Op::Icc(d) => {
                p.u8(8);
                data(p, d);
            }
            Op::Getters => p.u8(9),
        }
    }
}

/// What the program of a simulated host says about a request
pub fn get_log(log: &[u8], ops: &[Op], out: &mut Out) {
    let mut g = Get(log);
    for o in ops {
        match o {
            Op::BadScans(_) => {
                out.ops.push(Err(EncErr::Other("panic".into())));
                continue;
            }
            Op::Pause => {
                out.ops.push(Ok(()));
                continue;
            }
            _ => {}
        }
        let k = g.u8();
        if k == 8 {
            let d = g.u8();
            let (x, y) = (g.u16(), g.u16());
            let density = match d {
                0 => Dens::None,
                1 => Dens::Inch(x, y),
                _ => Dens::Cm(x, y),
            };
            let sampling = g.u8();
            let qtables = [g.table(), g.table()];
            let scans = Some(g.u8()).filter(|&n| n > 0);
            let some = g.u8() != 0;
            let restart = Some(g.u16()).filter(|_| some);
            let optimize = g.u8() != 0;
            out.getters.push(Getters { density, sampling, qtables, scans, restart, optimize });
            out.ops.push(Ok(()));
        } else {
            let r = g.result(k);
            out.ops.push(r);
        }
    }
    let k = g.u8();
    out.fin = if k == 9 { None } else { Some(g.result(k)) };
}

/// Same as `run` of the adaptors of the other flavours
pub fn run(sink: Sink, job: &Job, out: &mut Out) {
    let _off = Pause::new();
    if job.ops.contains(&Op::Pause) {
        // The calls on an encoder cannot be told apart on this host
        pause();
    }
    let mut p = Put::default();
    let mut held = Vec::new();
    let mut hold = |p: &mut Put, d: &[u8]| {
        let f = crate::alloc::Fenced::new_at(d, d.len() % 3 != 0, map_low);
        p.u32(f.slice().as_ptr() as usize);
        p.u32(f.slice().len());
        held.push(f);
    };
    let (jfif, memory) = match sink {
        Sink::Jfif(s) => (Some(s), None),
        Sink::Vec(v) => (None, Some(v)),
        _ => unreachable!(),
    };
    p.u8(job.quality);
    p.u8(memory.is_some() as u8);
    put_ops(&mut p, job.ops, &mut hold);
    let mut rows = None;
    match &job.fin {
        Fin::Slice { w, h, ct, data } => {
            p.u8(0);
            p.u16(*w);
            p.u16(*h);
            p.u8(*ct as u8);
            hold(&mut p, data);
        }
        Fin::Image(r) => {
            p.u8(1);
            p.u16(r.width());
            p.u16(r.height());
            p.u8(r.jct() as u8);
            rows = Some(*r);
        }
        Fin::Drop => p.u8(2),
    }
    let request = Low::new(p.0.len());
    let stack = Low::new(STACK + 4096);
    unsafe { std::ptr::copy_nonoverlapping(p.0.as_ptr(), request.at, p.0.len()) };
    protect_none(stack.at, 4096);
    let mut c = Ctx {
        save: 0,
        sink: jfif,
        memory,
        rows,
        error: String::new(),
        panic: None,
        row: Low::new(1 << 16),
        log: Vec::new(),
        heap: Vec::new(),
    };
    let save: *mut usize = &mut c.save;
    let before = CTX.with(|x| x.replace((&mut c as *mut Ctx<'_, '_>).cast()));
    unsafe {
        jpsim_enter32(
            *ENTRY.get(),
            1,
            request.at as usize as u32,
            p.0.len() as u32,
            stack.at as usize + stack.len,
            save,
        );
    }
    CTX.with(|x| x.set(before));
    // What the machine allocated is gone with it
    for (p, size, align) in std::mem::take(&mut c.heap) {
        let _t = Track::low();
        let l = unsafe { Layout::from_size_align_unchecked(size as usize, align as usize) };
        unsafe { crate::HEAP.dealloc(p as usize as *mut u8, l) };
    }
    if let Some(p) = c.panic.take() {
        drop(c);
        resume_unwind(p);
    }
    get_log(&c.log, job.ops, out);
}
