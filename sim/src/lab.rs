//! Common parts of the checks: writers and their wrappers, pristine reference executions, tasks.

use crate::bad;
use crate::choices::*;
use crate::host;
use crate::jpeg::*;
use crate::sink::*;
use crate::spec::*;
use crate::sys::*;
use crate::world::*;
use simapi::*;

/// How the simulated writer is given to the encoder
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wrap {
    Direct,
    Boxed,
    Owned,
    Buf(usize),
    BufRef(usize),
    BufBuf(usize, usize),
    Line,
    Vec,
    CursorVec,
    CursorSlice,
    /// An implementation of the crate's own writer trait
    Jfif,
}

pub fn draw_cap() -> usize {
    match weighted(&[3, 2, 1, 1]) {
        0 => range(1, 64) as usize,
        1 => skewed(9000) as usize,
        2 => 8192,
        _ => 0,
    }
}

impl Wrap {
    pub fn draw(flavor: Flavor, memory: bool) -> Wrap {
        if flavor.no_std() {
            return if memory && draw(4) == 3 { Wrap::Vec } else { Wrap::Direct };
        }
        match weighted(&[6, 2, 2, 4, 4, 2, 1, if memory { 1 } else { 0 }, memory as u64, memory as u64, 1]) {
            0 => Wrap::Direct,
            1 => Wrap::Boxed,
            2 => Wrap::Owned,
            3 => Wrap::Buf(draw_cap()),
            4 => Wrap::BufRef(draw_cap()),
            5 => Wrap::BufBuf(draw_cap(), draw_cap()),
            6 => Wrap::Line,
            7 => Wrap::Vec,
            8 => Wrap::CursorVec,
            9 => Wrap::CursorSlice,
            _ => Wrap::Jfif,
        }
    }

    pub fn direct(flavor: Flavor) -> Wrap {
        if flavor.no_std() {
            return Wrap::Direct;
        }
        [Wrap::Direct, Wrap::Boxed, Wrap::Owned, Wrap::Jfif][weighted(&[4, 1, 1, 1])]
    }

    /// The bytes reach the simulated writer (and not just memory)
    pub fn reaches_sink(self) -> bool {
        !matches!(self, Wrap::Vec | Wrap::CursorVec | Wrap::CursorSlice)
    }

    pub fn code(self) -> u64 {
        match self {
            Wrap::Direct => 0,
            Wrap::Boxed => 1,
            Wrap::Owned => 2,
            Wrap::Buf(c) => mix2(3, c as u64),
            Wrap::BufRef(c) => mix2(4, c as u64),
            Wrap::BufBuf(a, b) => mix2(mix2(5, a as u64), b as u64),
            Wrap::Line => 6,
            Wrap::Vec => 7,
            Wrap::CursorVec => 8,
            Wrap::CursorSlice => 9,
            Wrap::Jfif => 10,
        }
    }
}

/// Runs a request with a wrapped writer. The second value is what a buffer that stays with the caller
/// still held when the encode returned. For memory writers the data ends up in `sink.data`.
/// `room`: size of the slice behind Wrap::CursorSlice.
pub fn run_wrapped(s: &Spec, wrap: Wrap, sink: &mut SimSink, src: &SimSource, room: usize) -> (Ran, usize) {
    if s.flavor.no_std() && wrap != Wrap::Vec {
        return (s.run_sim(sink, src), 0);
    }
    let mut left = 0;
    let r = match wrap {
        Wrap::Direct => s.run_with(Sink::Ref(sink), src),
        Wrap::Boxed => s.run_with(Sink::Boxed(Box::new(sink)), src),
        Wrap::Owned => s.run_with(Sink::Owned(Own(sink)), src),
        Wrap::Jfif => s.run_with(Sink::Jfif(&mut NoStd(sink)), src),
        Wrap::Buf(c) => s.run_with(Sink::Buf(c, sink), src),
        Wrap::BufRef(c) => s.run_with(Sink::BufRef(c, sink, &mut left), src),
        Wrap::BufBuf(a, b) => s.run_with(Sink::BufBuf(a, b, sink), src),
        Wrap::Line => s.run_with(Sink::Line(sink), src),
        Wrap::Vec => {
            let mut v = Vec::new();
            let r = s.run_with(Sink::Vec(&mut v), src);
            sink.data.extend_from_slice(&v);
            sink.flushed = Some(sink.data.len());
            r
        }
        Wrap::CursorVec => {
            let mut v = Vec::new();
            let r = s.run_with(Sink::CursorVec(&mut v), src);
            sink.data.extend_from_slice(&v);
            sink.flushed = Some(sink.data.len());
            r
        }
        Wrap::CursorSlice => {
            let mut v = vec![0u8; room];
            let mut pos = 0;
            let r = s.run_with(Sink::CursorSlice(&mut v, &mut pos), src);
            sink.data.extend_from_slice(&v[..pos.min(room)]);
            sink.flushed = Some(sink.data.len());
            if pos == room {
                stat(S::f_memory_full);
            }
            r
        }
    };
    (r, left)
}

/// Offsets of the stream where something changes
pub fn points(j: &Jpeg, d: &[u8]) -> Vec<usize> {
    let mut p = vec![0, 1, 2];
    for s in &j.segs {
        p.extend([s.at, s.at + 1, s.at + 2, s.at + 4, s.at + 4 + s.data.len()]);
    }
    for s in &j.scans {
        p.extend([s.data, s.data + 1, s.end.saturating_sub(1), s.end]);
        for &r in s.rst.iter().take(20) {
            p.extend([r, r + 1, r + 2]);
        }
        for &r in s.row_end.iter().take(10) {
            p.extend([r.saturating_sub(1), r]);
        }
    }
    p.extend([d.len() - 1, d.len() - 2, d.len() - 3]);
    p.retain(|&x| x < d.len());
    p.sort_unstable();
    p.dedup();
    p
}

/// An offset inside the stream, often at a boundary
pub fn draw_offset(points: &[usize], len: usize) -> usize {
    match weighted(&[4, 5, 1]) {
        0 => draw(len as u64) as usize,
        1 => points[draw(points.len() as u64) as usize],
        _ => len - 1 - draw(len.min(16) as u64) as usize,
    }
}

pub fn count_offset(j: &Jpeg, at: usize, len: usize) {
    let first = j.scans[0].at;
    stat(if at < first {
        S::p_error_in_headers
    } else if at + 2 >= len {
        S::p_error_at_eoi
    } else {
        S::p_error_in_scan
    });
}

pub fn parse(spec: &Spec, d: &[u8]) -> Jpeg {
    match Jpeg::full(d) {
        Ok(j) => {
            stat(S::p_decoded);
            if j.stuffed {
                stat(S::p_ff_stuffing);
            }
            if j.zrl {
                stat(S::p_zrl);
            }
            if j.scans.iter().any(|s| s.rst.len() > 8) {
                stat(S::p_rst_wrap);
            }
            if j.w % 8 != 0 || j.h % 8 != 0 {
                stat(S::p_partial_mcu);
            }
            j
        }
        Err(e) => bad!("not-a-jpeg", "{}: {}", spec.text(), e),
    }
}

pub fn first_difference(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!(
            "{} and {} bytes, first difference at {} ({:#04x}, {:#04x})",
            a.len(),
            b.len(),
            i,
            a[i],
            b[i]
        ),
        None => format!("{} and {} bytes, one is a prefix of the other", a.len(), b.len()),
    }
}

/// Computes something in a process that has never encoded anything before
pub fn pristine(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    const LEN: usize = 64 << 20;
    let m = map_shared(LEN);
    let pid = unsafe { fork() };
    if pid == 0 {
        let v = f();
        unsafe {
            if v.len() + 8 > LEN {
                exit_now(95);
            }
            (m as *mut u64).write(v.len() as u64);
            std::ptr::copy_nonoverlapping(v.as_ptr(), m.add(8), v.len());
        }
        exit_now(0);
    }
    let mut st = 0;
    while unsafe { waitpid(pid, &mut st, 0) } != pid {}
    if st != 0 {
        if shm().status == 2 {
            exit_now(10);
        }
        bad!("reference-died", "the reference execution ended with status {:#x}", st);
    }
    let r = unsafe {
        let n = (m as *const u64).read() as usize;
        std::slice::from_raw_parts(m.add(8), n).to_vec()
    };
    unmap(m, LEN);
    r
}

/// One use of an encoder including everything its writer and source do
#[derive(Clone)]
pub struct Task {
    pub spec: Spec,
    pub wrap: Wrap,
    pub plan: SinkPlan,
    pub source_panic: Option<(usize, u64)>,
    /// Another task that runs inside the nth callback, and what has to come out of it
    pub nested: Option<(u64, Box<Task>, std::rc::Rc<Vec<u8>>)>,
    /// Writes to a file of this number on the simulated disk instead of to the writer
    pub file: Option<usize>,
}

/// May only be sent between the threads of a simulated execution, of which one runs at a time
pub struct Carry<T>(pub T);
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    pub fn take(self) -> T {
        self.0
    }
}

/// Instead of a callback: while the encoder is being configured
pub const AT_CONFIG: u64 = u64::MAX;

impl Task {
    pub fn new(spec: Spec) -> Task {
        Task {
            spec,
            wrap: Wrap::Direct,
            plan: SinkPlan::default(),
            source_panic: None,
            nested: None,
            file: None,
        }
    }

    /// A request with or without faults. The length of the stream is guessed.
    pub fn draw(p: &Profile) -> Task {
        let spec = Spec::draw(p);
        let mut t = Task::new(spec);
        t.wrap = Wrap::draw(t.spec.flavor, true);
        t.plan = if draw(3) == 2 { SinkPlan::draw_benign() } else { SinkPlan::default() };
        match weighted(&[5, 2, 1, 1]) {
            0 => {}
            1 => {
                let n = skewed(600 + t.spec.pixels() / 2);
                t.plan.fatal = Some((n as usize, draw(2) == 1, Fail::draw(true), true));
            }
            2 => {
                if t.spec.api == Api::Image {
                    t.source_panic = Some((draw(t.spec.h as u64) as usize, draw(1 << 20)));
                }
            }
            _ => t.plan.flush_fail = Some((0, Fail::draw(true))),
        }
        t
    }

    pub fn text(&self) -> String {
        format!(
            "{} via {}{}{}",
            self.spec.text(),
            match self.file {
                None => format!("{:?} {:?}", self.wrap, self.plan),
                Some(n) => format!("file {}", n),
            },
            match self.source_panic {
                Some((n, _)) => format!(" source panics at request {}", n),
                None => String::new(),
            },
            match &self.nested {
                Some((AT_CONFIG, t, _)) => format!(" {{while configured: {}}}", t.text()),
                Some((n, t, _)) => format!(" {{in callback {}: {}}}", n, t.text()),
                None => String::new(),
            }
        )
    }

    /// Result and bytes as one value
    pub fn exec(&self) -> Vec<u8> {
        let mut sink = SimSink::new(self.plan.clone());
        let src = self.spec.source();
        src.panic_at.set(self.source_panic);
        if let Some((at, t, want)) = &self.nested {
            let (at, t, want) = (*at, t.clone(), want.clone());
            let n = std::rc::Rc::new(std::cell::Cell::new(0u64));
            let go = move |now: u64| {
                // 0 stands for many of the callbacks
                let k = n.get();
                if now == AT_CONFIG || now == 0 && (k == at || at == 0 && k < 24) {
                    stat(S::f_nested_encode);
                    ev("nested", at, 0);
                    let got = t.exec();
                    ev("nested-done", got.len() as u64, 0);
                    if got != **want {
                        bad!(
                            "nested-encode-differs",
                            "{}: {} instead of {}",
                            t.text(),
                            outcome(&got),
                            outcome(&want)
                        );
                    }
                }
                if now == 0 {
                    n.set(n.get() + 1);
                }
            };
            if at == AT_CONFIG {
                let go3 = go.clone();
                AT_PAUSE.with(|p| {
                    *p.borrow_mut() = Some(Box::new(move || {
                        let _off = crate::alloc::Pause::new();
                        stat(S::f_work_while_configured);
                        go3(AT_CONFIG)
                    }))
                });
            }
            let go2 = go.clone();
            sink.hook = Some(Box::new(move |_| go(0)));
            *src.hook.borrow_mut() = Some(Box::new(move |_, _| go2(0)));
        }
        let room = 200 + self.spec.pixels() as usize;
        let ran = match self.file {
            None => run_wrapped(&self.spec, self.wrap, &mut sink, &src, room).0,
            Some(n) => {
                stat(S::cfg_task_file);
                let path = format!("/simfs/task{}.jpg", n);
                let r = self.spec.run_with(Sink::File(std::path::Path::new(&path)), &src);
                sink.data = crate::host::fs().content(&path).cloned().unwrap_or_default();
                r
            }
        };
        AT_PAUSE.with(|p| p.borrow_mut().take());
        let mut v = format!("{:?} {:?}", ran.out.ops, ran.result()).into_bytes();
        v.truncate(4000);
        v.push(0);
        v.extend_from_slice(&sink.data);
        v
    }
}

pub fn outcome(v: &[u8]) -> String {
    let n = v.iter().position(|&b| b == 0).unwrap_or(v.len());
    let t = String::from_utf8_lossy(&v[..n]);
    format!(
        "{} with {} bytes (hash {:x})",
        t.chars().take(200).collect::<String>(),
        v.len() - n,
        hash_bytes(v) & 0xFFFF
    )
}

/// Draws clock, entropy, environment, processors and process number of the simulated host
pub fn draw_host() {
    *host::CLOCK.get() = Some((draw(1 << 62), pick(&[0, 1, 1_000_000, 1 << 40, u64::MAX, 1 << 60])));
    *host::ENTROPY.get() = Some(Rng::new(seed(), 99));
    *host::ENV.get() = Some(seed());
    *host::CPUS.get() = pick(&[1, 2, 3, 8, 64, 200]);
    *host::PID.get() = 1 + draw(4_000_000) as i32;
}
