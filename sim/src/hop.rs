//! Hands encoders from one thread to another between the calls made on them. A thread of this pool
//! acts for the simulated thread that waits for it, so at most one thread runs at any time as ever.

use crate::alloc::{Pause, Track};
use crate::choices::*;
use crate::sched;
use crate::sys::*;
use crate::world::*;
use std::any::Any;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};

const MAX: usize = 4;
const STARTING: u32 = 0;
const IDLE: u32 = 1;
const WORK: u32 = 2;
const DONE: u32 = 3;

struct Slot {
    job: Option<*mut dyn FnMut()>,
    who: usize,
    panic: Option<Box<dyn Any + Send>>,
}

static STATE: [AtomicU32; MAX] = [const { AtomicU32::new(STARTING) }; MAX];
static SLOTS: Global<[Slot; MAX]> = Global::new([const { Slot { job: None, who: usize::MAX, panic: None } }; MAX]);
static THREADS: Global<usize> = Global::new(0);

fn until(k: usize, want: u32) {
    loop {
        let now = STATE[k].load(Ordering::Acquire);
        if now == want {
            return;
        }
        futex_wait(STATE[k].as_ptr(), now);
    }
}

fn become_(k: usize, to: u32) {
    STATE[k].store(to, Ordering::Release);
    futex_wake(STATE[k].as_ptr(), 2);
}

fn worker(k: usize) {
    become_(k, IDLE);
    loop {
        until(k, WORK);
        let s = &mut SLOTS.get()[k];
        sched::assume(s.who);
        let f = s.job.take().unwrap();
        let r = {
            let _on = Track::new();
            catch_unwind(AssertUnwindSafe(|| unsafe { (*f)() }))
        };
        s.panic = r.err();
        sched::assume(usize::MAX);
        become_(k, DONE);
    }
}

/// From now on calls on encoders are made from this many further threads, too. They live as long
/// as the process.
pub fn enable(n: usize) {
    let n = n.min(MAX);
    while *THREADS.get() < n {
        let k = *THREADS.get();
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || worker(k))
            .expect("spawn");
        while STATE[k].load(Ordering::Acquire) != IDLE {
            unsafe {
                sc3(SYS_SCHED_YIELD, 0, 0, 0);
            }
        }
        *THREADS.get() += 1;
    }
    let go: fn(&mut dyn FnMut()) = elsewhere;
    simapi::ELSEWHERE.store(if n > 0 { go as usize } else { 0 }, Ordering::Relaxed);
}

fn elsewhere(f: &mut dyn FnMut()) {
    let off = Pause::new();
    let mut idle = [0; MAX];
    let mut n = 0;
    for k in 0..*THREADS.get() {
        if STATE[k].load(Ordering::Acquire) == IDLE {
            idle[n] = k;
            n += 1;
        }
    }
    let d = if exhausted() { 0 } else { draw(n as u64 + 1) as usize };
    if d == 0 {
        drop(off);
        return f();
    }
    let k = idle[d - 1];
    stat(S::f_hand_over);
    ev("hand-over", k as u64, 0);
    let s = &mut SLOTS.get()[k];
    s.who = sched::identity();
    s.job = Some(unsafe { std::mem::transmute::<*mut dyn FnMut(), *mut dyn FnMut()>(f as *mut dyn FnMut()) });
    become_(k, WORK);
    until(k, DONE);
    let p = SLOTS.get()[k].panic.take();
    become_(k, IDLE);
    if let Some(p) = p {
        drop(off);
        resume_unwind(p);
    }
}
