//! The scheduler. Threads of a simulated execution are real threads of which exactly one runs at any
//! time; which one is drawn from the choices at every switch point. Switch points are the calls into the
//! writer and the row source, every edge of the control flow of the code under test (a countdown drawn
//! in advance selects which), and every futex operation of the standard library.

use crate::bad;
use crate::choices::*;
use crate::sys::*;
use crate::world::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

const MAXT: usize = 16;

pub struct Sched {
    active: bool,
    n: usize,
    current: usize,
    done: [bool; MAXT],
    /// Futex a thread sleeps on and the value it sleeps on, address 0 if it does not
    wait: [(usize, u32); MAXT],
    /// Probability of a switch at a callback, in 64ths
    p_callback: u64,
    /// 0: never preempt at edges, otherwise the scale of the gaps
    gap: u64,
}

static SCHED: Global<Sched> = Global::new(Sched {
    active: false,
    n: 0,
    current: 0,
    done: [false; MAXT],
    wait: [(0, 0); MAXT],
    p_callback: 0,
    gap: 0,
});

static BATON: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static READY: AtomicU32 = AtomicU32::new(0);
static FINISHED: AtomicU32 = AtomicU32::new(0);

impl Sched {
    fn asleep(&self, t: usize) -> bool {
        let (a, v) = self.wait[t];
        a != 0 && unsafe { std::ptr::read_volatile(a as *const u32) } == v
    }
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// The identity of the calling thread, for a thread that acts for it
pub fn identity() -> usize {
    me()
}

pub fn assume(who: usize) {
    ME.with(|m| m.set(who));
}

fn me() -> usize {
    ME.try_with(|m| m.get()).unwrap_or(usize::MAX)
}

/// Number of the running simulated thread, for traces
pub fn current() -> usize {
    SCHED.get().current
}

// ---- edges ---------------------------------------------------------------------------------------

/// Edges executed so far, and the number at which something has to be done
pub static EDGES: Global<u64> = Global::new(0);
static NEXT: Global<u64> = Global::new(u64::MAX);
static PREEMPT_AT: Global<u64> = Global::new(u64::MAX);
static CRASH_AT: Global<u64> = Global::new(u64::MAX);
static LIMIT: Global<u64> = Global::new(u64::MAX);
static ON_CRASH: Global<Option<Box<dyn FnMut()>>> = Global::new(None);
/// Lowest address of the stack at an edge
pub static LOWEST: Global<usize> = Global::new(usize::MAX);
pub static NGUARDS: Global<u32> = Global::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        unsafe {
            if *p == 0 {
                *NGUARDS.get() += 1;
                *p = *NGUARDS.get();
            }
            p = p.add(1);
        }
    }
}

// Passes on from where it was called
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_pc_guard",
    "__sanitizer_cov_trace_pc_guard:",
    "mov rsi, [rsp]",
    "jmp {edge}",
    edge = sym edge,
);

pub extern "C" fn edge(g: *mut u32, pc: usize) {
    if *crate::isa::HIDDEN.get() {
        crate::isa::edge_on_old_cpu(pc);
    }
    let e = EDGES.get();
    *e += 1;
    let here = &raw const e as usize;
    let low = LOWEST.get();
    if here < *low {
        *low = here;
    }
    unsafe {
        let s = *SHM.get();
        if !s.is_null() {
            (*s).edges[*g as usize & (MAX_EDGES - 1)] = 1;
        }
    }
    if *e >= *NEXT.get() {
        reached();
    }
}

fn set_next() {
    *NEXT.get() = (*PREEMPT_AT.get()).min(*CRASH_AT.get()).min(*LIMIT.get());
}

#[cold]
#[inline(never)]
fn reached() {
    let _off = crate::alloc::Pause::new();
    let e = *EDGES.get();
    if e >= *LIMIT.get() {
        bad!("no-progress", "the code under test did not finish within {} steps", e);
    }
    if e >= *CRASH_AT.get() {
        *CRASH_AT.get() = u64::MAX;
        if let Some(mut f) = ON_CRASH.get().take() {
            stat(S::f_crash);
            ev("crash-at-edge", e, 0);
            f();
        }
    }
    if e >= *PREEMPT_AT.get() {
        *PREEMPT_AT.get() = u64::MAX;
        if SCHED.get().active && me() != usize::MAX {
            stat(S::f_preempt_edge);
            switch("preempt", true);
        }
    }
    set_next();
}

/// The code under test has to be finished after this many further edges
pub fn limit_edges(n: u64) {
    *LIMIT.get() = EDGES.get().saturating_add(n);
    set_next();
}

/// Calls `f` when the given number of further edges has been executed
pub fn crash_after(n: u64, f: Box<dyn FnMut()>) {
    *CRASH_AT.get() = *EDGES.get() + n;
    *ON_CRASH.get() = Some(f);
    set_next();
}

pub fn cancel_crash() -> bool {
    *CRASH_AT.get() = u64::MAX;
    set_next();
    ON_CRASH.get().take().is_some()
}

fn draw_gap() {
    let s = SCHED.get();
    let gap = if exhausted() {
        u64::MAX
    } else {
        match s.gap {
            0 => u64::MAX,
            1 => 1 + skewed(40),
            2 => 1 + skewed(2_000),
            3 => 1 + skewed(60_000),
            _ => match weighted(&[2, 2, 1, 1]) {
                0 => 1 + skewed(100_000),
                1 => 1 + skewed(5_000),
                2 => 1 + skewed(300),
                _ => 1 + draw(12),
            },
        }
    };
    // A thread that spins on something another thread has to do must not run forever
    *PREEMPT_AT.get() = EDGES.get().saturating_add(gap.min(3_000_000));
    set_next();
}

// ---- threads -------------------------------------------------------------------------------------

/// Picks who runs next and hands over. `other` asks for somebody else if there is anybody.
fn switch(why: &str, other: bool) {
    let s = SCHED.get();
    let my = me();
    let mut cand = [0usize; MAXT];
    let mut n = 0;
    if !other && my < s.n && !s.done[my] {
        cand[n] = my;
        n += 1;
    }
    for k in 1..=s.n {
        let t = (my.wrapping_add(k)) % s.n;
        if t != my && !s.done[t] && !s.asleep(t) {
            cand[n] = t;
            n += 1;
        }
    }
    if n == 0 {
        if my < s.n && (s.done[my] || s.asleep(my)) {
            bad!("deadlock", "all live threads wait for each other");
        }
        draw_gap();
        return;
    }
    let next = cand[if exhausted() { 0 } else { draw(n as u64) as usize }];
    draw_gap();
    if next == my {
        return;
    }
    stat(S::f_context_switch);
    ev(why, my as u64, next as u64);
    sig(mix2(*EDGES.get(), (my * 16 + next) as u64));
    s.current = next;
    BATON[next].store(1, Ordering::Release);
    futex_wake(BATON[next].as_ptr(), 1);
    if my < s.n && !s.done[my] {
        wait_baton(my);
    }
}

fn wait_baton(t: usize) {
    while BATON[t].load(Ordering::Acquire) == 0 {
        futex_wait(BATON[t].as_ptr(), 0);
    }
    BATON[t].store(0, Ordering::Release);
}

/// Switch point in a callback of the code under test
pub fn point(why: &str) {
    let s = SCHED.get();
    if !s.active || me() == usize::MAX {
        return;
    }
    if s.p_callback > 0 && !exhausted() && chance(s.p_callback, 64) {
        switch(why, true);
    }
}

/// Called instead of sleeping in the kernel. Returns false if the caller is not a simulated thread.
pub fn blocked(addr: usize, val: u32) -> bool {
    let s = SCHED.get();
    let my = me();
    if !s.active || my == usize::MAX {
        return false;
    }
    let _off = crate::alloc::Pause::new();
    stat(S::f_lock_wait);
    s.wait[my] = (addr, val);
    if (0..s.n).all(|t| s.done[t] || s.asleep(t)) {
        bad!("deadlock", "all live threads wait for each other");
    }
    switch("blocked", true);
    s.wait[my] = (0, 0);
    true
}

/// sched_yield
pub fn yielded() -> bool {
    let s = SCHED.get();
    if !s.active || me() == usize::MAX {
        return false;
    }
    let _off = crate::alloc::Pause::new();
    switch("yield", true);
    true
}

pub fn woke(addr: usize) {
    let s = SCHED.get();
    if s.active {
        for w in &mut s.wait {
            if w.0 == addr {
                *w = (0, 0);
            }
        }
    }
}

/// Runs the jobs concurrently under the scheduler and returns when all of them are done
pub fn run_threads(jobs: Vec<Box<dyn FnOnce() + Send>>) {
    let s = SCHED.get();
    let n = jobs.len();
    assert!(n <= MAXT);
    s.n = n;
    s.done = [false; MAXT];
    s.wait = [(0, 0); MAXT];
    s.p_callback = pick(&[0u64, 1, 4, 16, 32, 64]);
    s.gap = draw(5);
    if s.p_callback == 0 && s.gap == 0 {
        s.gap = 4;
    }
    READY.store(0, Ordering::SeqCst);
    FINISHED.store(0, Ordering::SeqCst);
    let mut handles = Vec::new();
    for (i, job) in jobs.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                ME.with(|m| m.set(i));
                READY.fetch_add(1, Ordering::SeqCst);
                wait_baton(i);
                job();
                let s = SCHED.get();
                s.done[i] = true;
                if s.done[..s.n].iter().all(|&d| d) {
                    s.active = false;
                    FINISHED.store(1, Ordering::Release);
                    futex_wake(FINISHED.as_ptr(), MAXT as u32);
                    *PREEMPT_AT.get() = u64::MAX;
                    set_next();
                } else {
                    switch("exit", true);
                }
                // Thread exit runs destructors: only when nothing is simulated any more
                while FINISHED.load(Ordering::Acquire) == 0 {
                    futex_wait(FINISHED.as_ptr(), 0);
                }
                ME.with(|m| m.set(usize::MAX));
            })
            .expect("spawn");
        // One thread starts at a time
        while READY.load(Ordering::SeqCst) != i as u32 + 1 {
            unsafe {
                sc3(SYS_SCHED_YIELD, 0, 0, 0);
            }
        }
        handles.push(h);
    }
    let first = draw(n as u64) as usize;
    s.current = first;
    s.active = true;
    draw_gap();
    ev("start", first as u64, n as u64);
    BATON[first].store(1, Ordering::Release);
    futex_wake(BATON[first].as_ptr(), 1);
    for h in handles {
        let _ = h.join();
    }
    s.n = 0;
}
