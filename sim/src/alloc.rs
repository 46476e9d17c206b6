//! The heap of the simulated host. Memory requested by the code under test ("tracked") is accounted,
//! filled with chosen bytes, placed at chosen offsets, surrounded by red zones or, in guard mode, by
//! inaccessible pages, and can be refused. Everything else gets plain memory from the same arena.

use crate::sys::*;
use crate::world::{stat, Global, S};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

const ARENA: usize = 0x2000_0000_0000;
const ARENA_LEN: usize = 64 << 30;
const GUARD: usize = 0x3000_0000_0000;
const GUARD_LEN: usize = 1 << 40;
/// The same for the 32-bit host
const LOW: usize = 0x8000_0000;
const LOW_LEN: usize = 0x6000_0000;
const LOW_GUARD: usize = 0xE000_0000;
const LOW_GUARD_LEN: usize = 0x1F00_0000;
const HEAD: usize = 64;
const TAIL: usize = 32;
const MAGIC: u32 = 0x51A1_10C8;
const FREED: u32 = 0xF4EE_D0F4;
const RED: u8 = 0xB7;
const NCLASS: usize = 200;

#[repr(C)]
struct Head {
    base: usize,
    class: u32,
    magic: u32,
    size: usize,
    tracked: u32,
    align: u32,
    red: [u8; 16],
}

#[derive(Copy, Clone)]
pub struct Mode {
    /// Content of fresh memory: 0 zeros, 1 0xFF, 2 0xAA, 3 pseudo random
    pub fill: u8,
    pub jitter: bool,
    pub guard: bool,
    pub seed: u64,
    /// Tracked bytes that may be live at the same time
    pub budget: usize,
}

pub const PLAIN: Mode = Mode {
    fill: 2,
    jitter: false,
    guard: false,
    seed: 0,
    budget: 3 << 30,
};

pub struct State {
    pub mode: Mode,
    rng: u64,
    // [ordinary, 32-bit host]
    bump: [usize; 2],
    end: [usize; 2],
    free: [[usize; NCLASS]; 2],
    gbump: [usize; 2],
    /// (user pointer, base of the mapping, length of the mapping, requested size)
    guards: [(usize, usize, usize, usize); 4096],
    nguards: usize,
    guarded: usize,
    pub live: usize,
    pub peak: usize,
    pub count: u64,
    pub total: u64,
    pub largest: usize,
    pub refused: u64,
}

pub static ST: Global<State> = Global::new(State {
    mode: PLAIN,
    rng: 1,
    bump: [0; 2],
    end: [0; 2],
    free: [[0; NCLASS]; 2],
    gbump: [GUARD, LOW_GUARD],
    guards: [(0, 0, 0, 0); 4096],
    nguards: 0,
    guarded: 0,
    live: 0,
    peak: 0,
    count: 0,
    total: 0,
    largest: 0,
    refused: 0,
});

static LOCK: AtomicBool = AtomicBool::new(false);

thread_local! {
    static IN_CODE: Cell<bool> = const { Cell::new(false) };
    static IN_LOW: Cell<bool> = const { Cell::new(false) };
}

fn in_code() -> bool {
    IN_CODE.try_with(|c| c.get()).unwrap_or(false)
}

/// While alive, allocations of this thread are those of the simulator
pub struct Pause(bool);
impl Pause {
    pub fn new() -> Pause {
        Pause(IN_CODE.try_with(|c| c.replace(false)).unwrap_or(false))
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        let _ = IN_CODE.try_with(|c| c.set(self.0));
    }
}

/// While alive, allocations of this thread are those of the code under test
pub struct Track(bool);
impl Track {
    pub fn new() -> Track {
        Track(IN_CODE.try_with(|c| c.replace(true)).unwrap_or(false))
    }
}
impl Drop for Track {
    fn drop(&mut self) {
        let _ = IN_CODE.try_with(|c| c.set(self.0));
    }
}

/// A request of the 32-bit host
pub struct TrackLow(#[allow(dead_code)] Track);
impl Track {
    pub fn low() -> TrackLow {
        IN_LOW.with(|c| c.set(true));
        TrackLow(Track::new())
    }
}
impl Drop for TrackLow {
    fn drop(&mut self) {
        IN_LOW.with(|c| c.set(false));
    }
}

pub fn set_mode(m: Mode) {
    let s = ST.get();
    s.mode = m;
    s.rng = mix(m.seed);
    if m.fill != PLAIN.fill {
        stat(S::f_heap_fill);
    }
    if m.guard {
        stat(S::f_heap_guard);
    }
    if m.jitter {
        stat(S::f_heap_jitter);
    }
}

/// Starts a new accounting period
pub fn reset_peak() {
    let s = ST.get();
    s.peak = s.live;
    s.count = 0;
    s.largest = 0;
}

fn class_of(n: usize) -> usize {
    let n = n.max(64);
    let l = (usize::BITS - 1 - n.leading_zeros()) as usize;
    let sub = (n >> (l - 2)) & 3;
    l * 4 + sub - 24 + usize::from(n & ((1 << (l - 2)) - 1) != 0)
}

fn class_size(c: usize) -> usize {
    let c = c + 24;
    (4 + (c & 3)) << (c / 4 - 2)
}

pub struct SimAlloc;

impl SimAlloc {
    unsafe fn get(&self, layout: Layout) -> *mut u8 {
        let s = ST.get();
        let size = layout.size();
        let align = layout.align().max(1);
        let tracked = in_code();
        let r = usize::from(tracked && IN_LOW.try_with(|c| c.get()).unwrap_or(false));
        if tracked {
            if s.live.saturating_add(size) > s.mode.budget {
                s.refused += 1;
                stat(S::f_alloc_refused);
                return std::ptr::null_mut();
            }
            s.live += size;
            s.peak = s.peak.max(s.live);
            s.count += 1;
            s.total += size as u64;
            s.largest = s.largest.max(size);
            // Every one of them costs the process areas of memory, of which the system allows 65530
            if s.mode.guard && s.guarded < 12_000 && s.nguards < 4096 && s.gbump[r] + size + (4 << 12) < [GUARD + GUARD_LEN, LOW_GUARD + LOW_GUARD_LEN][r] {
                return self.get_guarded(r, size, align);
            }
        }
        let (mut slack, mut j) = (0, 0);
        if tracked && s.mode.jitter {
            slack = 64.max(align);
            s.rng = mix(s.rng);
            j = (s.rng as usize % (slack / align + 1)) * align;
        }
        let need = size + HEAD + TAIL + align + slack;
        let class = class_of(need);
        let base;
        if s.free[r][class] != 0 {
            base = s.free[r][class];
            s.free[r][class] = *(base as *const usize);
        } else {
            if s.bump[r] == 0 {
                let (at, len) = [(ARENA, ARENA_LEN), (LOW, LOW_LEN)][r];
                // MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE
                s.bump[r] = map(at, len, PROT_RW, 0x22 | 0x4000 | 0x10_0000) as usize;
                s.end[r] = s.bump[r] + len;
            }
            let len = class_size(class);
            if s.bump[r] + len > s.end[r] {
                if tracked {
                    s.live -= size;
                }
                return std::ptr::null_mut();
            }
            base = s.bump[r];
            s.bump[r] += len;
        }
        let user = ((base + HEAD + align - 1) & !(align - 1)) + j;
        let h = (user - std::mem::size_of::<Head>()) as *mut Head;
        h.write_unaligned(Head {
            base,
            class: class as u32,
            magic: MAGIC,
            size,
            tracked: tracked as u32,
            align: align as u32,
            red: [RED; 16],
        });
        if tracked {
            self.fill(user, size);
            std::ptr::write_bytes((user + size) as *mut u8, RED, TAIL);
        }
        user as *mut u8
    }

    unsafe fn fill(&self, user: usize, size: usize) {
        let s = ST.get();
        match s.mode.fill {
            0 => std::ptr::write_bytes(user as *mut u8, 0, size),
            1 => std::ptr::write_bytes(user as *mut u8, 0xFF, size),
            2 => std::ptr::write_bytes(user as *mut u8, 0xAA, size),
            _ => {
                let mut x = s.rng | 1;
                for i in 0..size {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    *((user + i) as *mut u8) = x as u8;
                }
                s.rng = x;
            }
        }
    }

    unsafe fn get_guarded(&self, r: usize, size: usize, align: usize) -> *mut u8 {
        let s = ST.get();
        let data = (size + 4095) & !4095;
        let len = data + 2 * 4096;
        let base = map(s.gbump[r], len, PROT_RW, 0x22 | 0x4000 | 0x10_0000) as usize;
        s.gbump[r] += len + 4096;
        protect_none(base as *mut u8, 4096);
        protect_none((base + 4096 + data) as *mut u8, 4096);
        // Either the end or the start of the memory touches an inaccessible page
        s.rng = mix(s.rng);
        let user = if s.rng & 3 != 0 {
            (base + 4096 + data - size) & !(align - 1)
        } else {
            base + 4096
        };
        std::ptr::write_bytes((base + 4096) as *mut u8, RED, data);
        self.fill(user, size);
        s.guards[s.nguards] = (user, base, len, size);
        s.nguards += 1;
        s.guarded += 1;
        user as *mut u8
    }

    unsafe fn put(&self, p: *mut u8, layout: Layout) {
        let s = ST.get();
        let user = p as usize;
        if (GUARD..GUARD + GUARD_LEN).contains(&user) || (LOW_GUARD..LOW_GUARD + LOW_GUARD_LEN).contains(&user) {
            let Some(i) = (0..s.nguards).find(|&i| s.guards[i].0 == user) else {
                self.broken("free-of-unknown-memory", user);
            };
            let (_, base, len, size) = s.guards[i];
            if size != layout.size() {
                self.broken("free-with-wrong-size", user);
            }
            for a in (base + 4096)..user {
                if *(a as *const u8) != RED {
                    self.broken("heap-write-before-start", user);
                }
            }
            for a in (user + size)..(base + len - 4096) {
                if *(a as *const u8) != RED {
                    self.broken("heap-write-past-end", user);
                }
            }
            s.nguards -= 1;
            s.guards[i] = s.guards[s.nguards];
            s.live -= size;
            // Keeps the address range inaccessible: a later access faults
            protect_none(base as *mut u8, len);
            return;
        }
        let h = (user - std::mem::size_of::<Head>()) as *mut Head;
        let head = h.read_unaligned();
        if head.magic != MAGIC || head.size != layout.size() {
            self.broken(
                if head.magic == FREED {
                    "double-free"
                } else {
                    "heap-header-overwritten"
                },
                user,
            );
        }
        if head.tracked != 0 {
            s.live -= head.size;
            if head.red != [RED; 16] {
                self.broken("heap-write-before-start", user);
            }
            for i in 0..TAIL {
                if *((user + head.size + i) as *const u8) != RED {
                    self.broken("heap-write-past-end", user);
                }
            }
            std::ptr::write_bytes(p, 0xDD, head.size);
        }
        let c = head.class as usize;
        (*h).magic = FREED;
        let r = usize::from(head.base < LOW + LOW_LEN);
        *(head.base as *mut usize) = s.free[r][c];
        s.free[r][c] = head.base;
    }

    fn broken(&self, what: &str, _user: usize) -> ! {
        crate::world::violation(what, "the code under test damaged the heap")
    }

    fn lock(&self) {
        while LOCK.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
    }

    fn unlock(&self) {
        LOCK.store(false, Ordering::Release);
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        self.lock();
        let r = self.get(layout);
        self.unlock();
        r
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        self.lock();
        self.put(ptr, layout);
        self.unlock();
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = self.alloc(layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, layout.size());
        }
        p
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        // The old and the new memory only count together while both exist, as in a real heap
        let p = self.alloc(Layout::from_size_align_unchecked(new, layout.align()));
        if !p.is_null() {
            std::ptr::copy_nonoverlapping(ptr, p, layout.size().min(new));
            self.dealloc(ptr, layout);
        }
        p
    }
}

/// Memory for input data whose first and last byte touch inaccessible pages (lead bytes before it are
/// kept so that the start is at a chosen alignment).
pub struct Fenced {
    base: *mut u8,
    len: usize,
    at: *mut u8,
    n: usize,
}

impl Fenced {
    /// `end`: the last byte touches the fence, otherwise the first one does
    pub fn new(data: &[u8], end: bool) -> Fenced {
        Fenced::new_at(data, end, map_private)
    }

    pub fn new_at(data: &[u8], end: bool, map: fn(usize) -> *mut u8) -> Fenced {
        let d = ((data.len() + 4095) & !4095).max(4096);
        let len = d + 8192;
        let base = map(len);
        let at = unsafe {
            protect_none(base, 4096);
            protect_none(base.add(4096 + d), 4096);
            let at = if end {
                base.add(4096 + d - data.len())
            } else {
                base.add(4096)
            };
            std::ptr::copy_nonoverlapping(data.as_ptr(), at, data.len());
            at
        };
        Fenced {
            base,
            len,
            at,
            n: data.len(),
        }
    }
    pub fn slice(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.at, self.n) }
    }
}

impl Drop for Fenced {
    fn drop(&mut self) {
        unmap(self.base, self.len);
    }
}

// ---- moved memory --------------------------------------------------------------------------------

/// Bytes the code under test moved within its buffers
pub static MOVED: Global<u64> = Global::new(0);

/// Replaces the function of the C library in this program
///
/// # Safety
/// As in C
#[no_mangle]
pub unsafe extern "C" fn memmove(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    if in_code() {
        *MOVED.get() += n as u64;
    }
    if (to as usize).wrapping_sub(from as usize) >= n {
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
    } else {
        let (a, b) = (to.wrapping_add(n).wrapping_sub(1), from.wrapping_add(n).wrapping_sub(1));
        std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") a => _, inout("rsi") b => _, options(nostack));
    }
    to
}
