//! State of one simulated execution. Every execution is a process of its own, forked from a worker;
//! at most one thread of it runs at any time (see sched.rs), so plain statics are enough.

use crate::sys::*;
use std::cell::UnsafeCell;
use std::fmt::Write as _;

pub struct Global<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub const fn new(v: T) -> Self {
        Global(UnsafeCell::new(v))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

macro_rules! stats {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Copy, Clone)]
        #[repr(usize)]
        pub enum S { $($n),* }
        pub const STAT_NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}

stats! {
    // workload
    encodes, encodes_ok, encodes_err, encodes_panicked, dropped_unused, bytes_delivered, sink_calls, sink_gathers,
    rows_pulled, steps, edges,
    cfg_interleaved, cfg_sequential, cfg_progressive, cfg_optimized, cfg_restart, cfg_custom_tables, cfg_longer_data,
    cfg_slice_api, cfg_image_api, cfg_file, cfg_std, cfg_simd, cfg_simd_masked, cfg_nostd, cfg_32bit, cfg_big_endian, cfg_big_endian_no_answer,
    // faults of the writer
    f_short_write, f_eintr, f_sink_error, f_sink_zero, f_sink_partial_then_error, f_sink_panic,
    f_flush_error, f_deferred_error, f_memory_full,
    // file system
    f_fs_open_error, f_fs_short_write, f_fs_eintr, f_fs_write_error, f_fs_disk_full, f_fs_old_content,
    // row source
    f_source_panic, f_source_fickle, f_source_short_row, f_source_long_row,
    // schedule
    f_context_switch, f_preempt_edge, f_nested_encode, f_lock_wait,
    f_work_while_configured, f_encode_while_unwinding,
    // host
    f_heap_fill, f_heap_guard, f_heap_jitter, f_avx2_hidden, f_clock_jump, f_entropy, f_environment,
    f_alloc_refused,
    // crash and transport
    f_crash, f_truncate, f_corrupt, f_lost_bytes, f_inserted_bytes, f_chunk_reorder, f_chunk_loss,
    f_chunk_duplicate, f_residue_op, f_near_request, cfg_source_style, p_twin, p_rejected_file, cfg_task_file, cfg_odd_path, p_gigantic, p_long_life, p_many_mcus, p_many_encodes, p_directed, cfg_large_segment, p_second_stream, f_hand_over, f_rejected_request, f_setter_override,
    // probes: rare situations that were reached
    p_ff_stuffing, p_rst_wrap, p_zrl, p_many_restarts, p_max_scans, p_icc_many_chunks, p_huge_dim,
    p_error_in_headers, p_error_in_scan, p_error_at_eoi, p_error_at_flush, p_partial_mcu,
    p_crash_in_buffer, p_decoded,
    replayed, replay_mismatch, lost_runs,
}

pub const MAX_CHOICES: usize = 1 << 16;
pub const TRACE_LEN: usize = 1 << 18;
pub const MAX_EDGES: usize = 1 << 18;
pub const MAX_SIGS: usize = 1 << 21;

#[repr(C)]
pub struct Shm {
    /// 0 running, 1 finished, 2 violation
    pub status: u32,
    pub nchoices: u32,
    pub nontrivial: u32,
    pub want_trace: u32,
    pub hash: u64,
    pub steps: u64,
    pub sig: u64,
    pub class: [u8; 128],
    pub msg: [u8; 8192],
    pub desc: [u8; 8192],
    pub phase: [u8; 128],
    pub panic: [u8; 512],
    pub trace_len: u32,
    pub trace: [u8; TRACE_LEN],
    pub choices: [u64; MAX_CHOICES],
    // accumulated over the executions of a worker
    pub stats: [u64; 128],
    pub runs: u64,
    pub nontrivial_runs: u64,
    pub nsigs: u64,
    pub sigs: [u64; MAX_SIGS],
    pub edges: [u8; MAX_EDGES],
    /// Symbols decoded from complete streams: (DC, AC) x (sequential, progressive)
    pub symbols: [u8; 1024],
}

/// Rows requested and bytes accepted so far, over all sources and writers of this execution
pub static ROWS: Global<u64> = Global::new(0);
pub static DELIVERED: Global<u64> = Global::new(0);

pub static SHM: Global<*mut Shm> = Global::new(std::ptr::null_mut());

pub fn shm() -> &'static mut Shm {
    unsafe { &mut **SHM.get() }
}

pub fn put_str(dst: &mut [u8], s: &str) {
    let mut n = s.len().min(dst.len() - 1);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}

pub fn get_str(src: &[u8]) -> String {
    let n = src.iter().position(|&c| c == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

pub fn stat(s: S) {
    shm().stats[s as usize] += 1;
}

pub fn stat_add(s: S, n: u64) {
    shm().stats[s as usize] += n;
}

/// Formats without the heap, so that tracing does not change what the allocator does
struct Fixed([u8; 160], usize);
impl std::fmt::Write for Fixed {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = s.len().min(self.0.len() - self.1);
        self.0[self.1..self.1 + n].copy_from_slice(&s.as_bytes()[..n]);
        self.1 += n;
        Ok(())
    }
}

/// Records an event of the simulated history. Never draws a choice and never reads a clock.
pub fn ev(kind: &str, a: u64, b: u64) {
    let s = shm();
    s.steps += 1;
    s.hash = mix2(s.hash ^ hash_bytes(kind.as_bytes()), mix2(a, b));
    if s.want_trace != 0 {
        let mut t = Fixed([0; 160], 0);
        let who = crate::sched::current();
        let _ = writeln!(t, "{:>6} t{} {} {} {}", s.steps, who, kind, a, b);
        let t = &t.0[..t.1];
        let at = s.trace_len as usize;
        if at + t.len() < TRACE_LEN {
            s.trace[at..at + t.len()].copy_from_slice(t);
            s.trace_len += t.len() as u32;
        }
    }
}

/// Mixes a value into the signature that tells executions apart (see evidence)
pub fn sig(v: u64) {
    let s = shm();
    s.sig = mix2(s.sig, v);
}

pub fn nontrivial() {
    shm().nontrivial = 1;
}

pub fn describe(d: &str) {
    let old = get_str(&shm().desc);
    let new = if old.is_empty() {
        d.to_string()
    } else {
        format!("{} | {}", old, d)
    };
    put_str(&mut shm().desc, &new);
}

pub fn phase(p: &str) {
    put_str(&mut shm().phase, p);
}

/// Reports a violation and ends the execution on the spot
pub fn violation(class: &str, msg: &str) -> ! {
    let s = shm();
    if s.status == 0 {
        s.status = 2;
        put_str(&mut s.class, class);
        put_str(&mut s.msg, msg);
    }
    exit_now(10)
}

#[macro_export]
macro_rules! bad {
    ($class:expr, $($arg:tt)*) => { $crate::world::violation($class, &format!($($arg)*)) };
}

/// Installed in every simulated process: keeps the message for the report
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _off = crate::alloc::Pause::new();
        let mut t = String::new();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(payload)".to_string()
        };
        let _ = write!(t, "{}", m);
        if let Some(l) = info.location() {
            let _ = write!(t, " at {}:{}", l.file(), l.line());
        }
        put_str(&mut shm().panic, &t);
    }));
}

pub fn last_panic() -> String {
    get_str(&shm().panic)
}
