//! The simulated writer: the network connection, pipe or disk behind an encoder.

use crate::alloc::Pause;
use crate::bad;
use crate::choices::*;
use crate::world::*;
use simapi::*;
use std::io::{Error, ErrorKind, IoSlice, Write};

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::AlreadyExists,
    ErrorKind::ConnectionRefused,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::StorageFull,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::QuotaExceeded,
];

pub const ERRNOS: &[i32] = &[
    5, 28, 32, 11, 104, 122, 27, 110, 9, 22, 30, 1, 12, 13, 103, 113, 103, 116, 121, 6, 19, 71, 105,
];

/// An error the sink can return
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fail {
    /// A kind with a payload that identifies this very error
    Payload(ErrorKind, u64),
    /// Only a kind
    Kind(ErrorKind),
    Errno(i32),
    /// The call takes nothing: `Ok(0)`
    Zero,
    /// The writer panics
    Panic(u64),
}

impl Fail {
    pub fn draw(allow_panic: bool) -> Fail {
        match weighted(&[4, 2, 3, 2, if allow_panic { 1 } else { 0 }]) {
            0 => Fail::Payload(pick(KINDS), draw(1 << 20)),
            1 => Fail::Kind(pick(KINDS)),
            2 => Fail::Errno(pick(ERRNOS)),
            3 => Fail::Zero,
            _ => Fail::Panic(draw(1 << 20)),
        }
    }

    pub fn error(self) -> Error {
        match self {
            Fail::Payload(k, id) => Error::new(k, SimErr(id)),
            Fail::Kind(k) => Error::from(k),
            Fail::Errno(e) => Error::from_raw_os_error(e),
            Fail::Zero => Error::from(ErrorKind::WriteZero),
            Fail::Panic(_) => Error::from(ErrorKind::Other),
        }
    }

    /// Whether an error reported by the encoder is this one
    pub fn matches(self, e: &EncErr) -> bool {
        match (self, e) {
            (Fail::Zero, EncErr::Io { kind, .. }) => *kind == ErrorKind::WriteZero,
            (f, e @ EncErr::Io { .. }) => *e == io_err(&f.error()),
            _ => false,
        }
    }
}

/// Panic payload of a simulated writer or row source
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct SimPanic(pub u64);

#[derive(Clone, Debug, Default)]
pub struct SinkPlan {
    /// Most bytes taken per call, cyclic; 0 takes everything
    pub takes: Vec<usize>,
    /// Interruptions before each call that takes something, cyclic
    pub eintr: Vec<u32>,
    /// (bytes taken before, take the part up to it first, the failure, it lasts)
    pub fatal: Option<(usize, bool, Fail, bool)>,
    /// Flush number (from 0) that fails
    pub flush_fail: Option<(u32, Fail)>,
}

impl SinkPlan {
    pub fn panics(&self) -> bool {
        matches!(self.fatal, Some((_, _, Fail::Panic(_), _))) || matches!(self.flush_fail, Some((_, Fail::Panic(_))))
    }

    /// A pattern of short writes and interruptions without a fatal failure
    pub fn draw_benign() -> SinkPlan {
        let mut p = SinkPlan::default();
        match weighted(&[2, 2, 3, 2]) {
            0 => {}
            1 => p.takes = vec![1],
            2 => {
                for _ in 0..range(1, 5) {
                    p.takes.push(skewed(70) as usize);
                }
            }
            _ => {
                for _ in 0..range(1, 12) {
                    p.takes.push(range(1, 9) as usize);
                }
            }
        }
        match weighted(&[3, 2, 2, 1]) {
            0 => {}
            1 => p.eintr = vec![0, 1],
            2 => {
                for _ in 0..range(1, 6) {
                    p.eintr.push(skewed(3) as u32);
                }
            }
            _ => {
                // A rare but long burst
                let n = range(1, 60);
                p.eintr = vec![0; n as usize];
                p.eintr.push(range(1, 300) as u32);
            }
        }
        p
    }
}

#[derive(Default)]
pub struct SimSink {
    pub plan: SinkPlan,
    /// Everything the writer has accepted
    pub data: Vec<u8>,
    pub calls: u64,
    pub takes: u64,
    pub eintrs: u64,
    pub flushes: u64,
    /// Length of `data` at the last flush that succeeded
    pub flushed: Option<usize>,
    /// The first fatal failure returned
    pub failed: Option<Fail>,
    pub failed_in_flush: bool,
    pub calls_after_failure: u64,
    /// Rows requested when the failure was returned
    pub rows_at_failure: u64,
    eintr_left: Option<u32>,
    pub call_limit: u64,
    /// After a simulated crash nothing arrives any more
    pub crashed: bool,
    /// The machine stops when this many bytes have arrived, in the middle of a call
    pub crash_at: Option<usize>,
    pub hook: Option<Box<dyn FnMut(usize)>>,
    /// Largest number of bytes seen in one call
    pub largest_call: usize,
}

impl SimSink {
    pub fn new(plan: SinkPlan) -> SimSink {
        SimSink {
            plan,
            call_limit: u64::MAX,
            ..Default::default()
        }
    }

    fn enter(&mut self) {
        self.calls += 1;
        stat(S::sink_calls);
        if self.calls > self.call_limit {
            bad!(
                "too-many-writer-calls",
                "the encoder called the writer more than {} times",
                self.call_limit
            );
        }
        if self.failed.is_some() {
            self.calls_after_failure += 1;
        }
        if let Some(mut h) = self.hook.take() {
            h(self.data.len());
            if self.hook.is_none() {
                self.hook = Some(h);
            }
        }
        crate::sched::point("sink");
    }

    fn fail(&mut self, f: Fail) -> Error {
        ev("sink-fail", self.data.len() as u64, self.calls);
        if self.failed.is_none() {
            self.failed = Some(f);
            self.rows_at_failure = *ROWS.get();
        }
        match f {
            Fail::Zero => stat(S::f_sink_zero),
            Fail::Panic(id) => {
                stat(S::f_sink_panic);
                std::panic::panic_any(SimPanic(id));
            }
            _ => stat(S::f_sink_error),
        }
        f.error()
    }

    fn store(&mut self, d: &[u8]) {
        if self.crashed {
            return;
        }
        let mut d = d;
        if let Some(at) = self.crash_at {
            let room = at.saturating_sub(self.data.len());
            if d.len() >= room {
                d = &d[..room];
                self.crashed = true;
                stat(S::f_crash);
                ev("crash-in-write", at as u64, 0);
            }
        }
        self.data.extend_from_slice(d);
    }

    /// How much of the `n` offered bytes is taken now
    fn take(&mut self, n: usize) -> Result<usize, Error> {
        let k = self.takes as usize;
        if !self.plan.eintr.is_empty() {
            let want = self.plan.eintr[k % self.plan.eintr.len()];
            let left = self.eintr_left.get_or_insert(want);
            if *left > 0 {
                *left -= 1;
                self.eintrs += 1;
                stat(S::f_eintr);
                ev("eintr", self.data.len() as u64, self.calls);
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        self.eintr_left = None;
        self.takes += 1;
        let mut take = n;
        if !self.plan.takes.is_empty() {
            let t = self.plan.takes[k % self.plan.takes.len()];
            if t > 0 && t < n {
                take = t;
                stat(S::f_short_write);
            }
        }
        if let Some((at, partial, f, lasting)) = self.plan.fatal {
            let have = self.data.len();
            if have >= at || have + take > at {
                if have < at && partial {
                    take = at - have;
                    stat(S::f_sink_partial_then_error);
                } else {
                    if !lasting {
                        self.plan.fatal = None;
                    }
                    if f == Fail::Zero {
                        let _ = self.fail(f);
                        return Ok(0);
                    }
                    return Err(self.fail(f));
                }
            }
        }
        Ok(take)
    }
}

impl Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let _off = Pause::new();
        self.enter();
        self.largest_call = self.largest_call.max(buf.len());
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.take(buf.len())?;
        self.store(&buf[..n]);
        *DELIVERED.get() += n as u64;
        stat_add(S::bytes_delivered, n as u64);
        ev("write", n as u64, buf.len() as u64);
        Ok(n)
    }

    /// A gathering write, as files and sockets have it: every other one takes from the first
    /// non-empty buffer only
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> std::io::Result<usize> {
        stat(S::sink_gathers);
        let all = {
            let _off = Pause::new();
            match self.takes & 1 {
                1 => bufs.iter().find(|b| !b.is_empty()).map_or(Vec::new(), |b| b.to_vec()),
                _ => bufs.iter().flat_map(|b| b.iter().copied()).collect(),
            }
        };
        let r = self.write(&all);
        let _off = Pause::new();
        drop(all);
        r
    }

    fn flush(&mut self) -> std::io::Result<()> {
        let _off = Pause::new();
        self.enter();
        let k = self.flushes;
        self.flushes += 1;
        ev("flush", self.data.len() as u64, k);
        if let Some((at, f)) = self.plan.flush_fail {
            if k == at as u64 {
                stat(S::f_flush_error);
                self.failed_in_flush = self.failed.is_none();
                return Err(self.fail(f));
            }
        }
        self.flushed = Some(self.data.len());
        Ok(())
    }
}

/// A writer with the crate's own trait: takes everything or fails with a message
pub struct NoStd<'a>(pub &'a mut SimSink);

impl<'a> NoStd<'a> {
    pub fn message(f: Fail) -> String {
        format!("simulated failure {:?}", f)
    }
}

impl<'a> NsSink for NoStd<'a> {
    fn write_all(&mut self, mut buf: &[u8]) -> Result<(), EncErr> {
        let _off = Pause::new();
        let s = &mut *self.0;
        s.enter();
        s.largest_call = s.largest_call.max(buf.len());
        while !buf.is_empty() {
            let n = match s.take(buf.len()) {
                Ok(0) => return Err(EncErr::Write(Self::message(Fail::Zero))),
                Ok(n) => n,
                Err(e) if e.kind() == ErrorKind::Interrupted && s.failed.is_none() => continue,
                Err(_) => {
                    return Err(EncErr::Write(Self::message(
                        s.failed.unwrap_or(Fail::Zero),
                    )))
                }
            };
            s.store(&buf[..n]);
            *DELIVERED.get() += n as u64;
            stat_add(S::bytes_delivered, n as u64);
            ev("write", n as u64, buf.len() as u64);
            buf = &buf[n..];
        }
        Ok(())
    }

    fn flush(&mut self) -> Result<(), EncErr> {
        Write::flush(self.0).map_err(|_| {
            EncErr::Write(Self::message(self.0.failed.unwrap_or(Fail::Zero)))
        })
    }
}
