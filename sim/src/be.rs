//! A simulated host with the other byte order: the crate under test (no_std), interpreted by Miri for
//! s390x. Interpreting is slow, so one such host stays in use for many executions and only ever sees
//! small requests. Where it cannot be built, or gives no answer, nothing is concluded.

use crate::host32::{get_log, put_ops, Put};
use crate::sys::*;
use crate::world::Global;
use simapi::*;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::AsRawFd;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};

struct Machine {
    child: Child,
    errors: File,
}

static PROGRAM: Global<Option<PathBuf>> = Global::new(None);
static MACHINE: Global<Option<Machine>> = Global::new(None);
/// Shared with the executions: not 0 while an answer is outstanding
static BUSY: Global<usize> = Global::new(0);

fn busy() -> &'static mut u32 {
    unsafe { &mut *(*BUSY.get() as *mut u32) }
}

/// Says which program starts the machine
pub fn load(p: PathBuf) {
    if p.exists() {
        *PROGRAM.get() = Some(p);
    }
}

pub fn loaded() -> bool {
    PROGRAM.get().is_some()
}

/// Called between executions: there is a machine and it waits for a request
pub fn ready() {
    let Some(p) = PROGRAM.get() else {
        return;
    };
    if *BUSY.get() == 0 {
        *BUSY.get() = map_shared(4096) as usize;
    }
    if let Some(m) = MACHINE.get() {
        if *busy() == 0 && matches!(m.child.try_wait(), Ok(None)) {
            return;
        }
        stop();
    }
    *busy() = 0;
    let e = p.with_file_name(format!("be-errors-{}", std::process::id()));
    let errors = match File::options().create(true).truncate(true).read(true).write(true).open(&e) {
        Ok(f) => f,
        Err(_) => return,
    };
    let _ = std::fs::remove_file(&e);
    let Ok(stderr) = errors.try_clone() else {
        return;
    };
    let c = Command::new(p).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(stderr).spawn();
    *MACHINE.get() = c.ok().map(|child| Machine { child, errors });
}

pub fn stop() {
    if let Some(mut m) = MACHINE.get().take() {
        // Without input the program ends by itself
        drop(m.child.stdin.take());
        drop(m.child.stdout.take());
        for _ in 0..100 {
            if !matches!(m.child.try_wait(), Ok(None)) {
                return;
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        let _ = m.child.kill();
        let _ = m.child.wait();
    }
}

pub enum Answer {
    /// Outcome and the bytes its writer accepted
    Done(Out, Vec<u8>),
    Panic(String),
    Undefined(String),
    None,
}

fn receive(fd: usize, n: usize) -> Option<Vec<u8>> {
    const SYS_POLL: usize = 7;
    let mut v = vec![0u8; n];
    let mut at = 0;
    while at < n {
        let mut p = [fd as u64 | 1 << 32];
        let r = unsafe { sc3(SYS_POLL, p.as_mut_ptr() as usize, 1, 100_000) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return None;
        }
        let r = unsafe { sc3(SYS_READ, fd, v[at..].as_mut_ptr() as usize, n - at) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return None;
        }
        at += r as usize;
    }
    Some(v)
}

/// One use of an encoder there, with a writer that takes `room` bytes
pub fn run(quality: u8, ops: &[Op], api_image: bool, data: &[u8], w: u16, h: u16, ct: Ct, room: usize) -> Answer {
    let Some(m) = MACHINE.get() else {
        return Answer::None;
    };
    let mut p = Put::default();
    let put = |p: &mut Put, d: &[u8]| {
        p.u32(d.len());
        p.0.extend_from_slice(d);
    };
    p.u8(quality);
    p.u32(room);
    put_ops(&mut p, ops, put);
    p.u8(api_image as u8);
    p.u16(w);
    p.u16(h);
    p.u8(if api_image { ct.jct() as u8 } else { ct as u8 });
    put(&mut p, data);
    let mut all = (p.0.len() as u32).to_le_bytes().to_vec();
    all.extend_from_slice(&p.0);
    let (Some(i), Some(o)) = (&m.child.stdin, &m.child.stdout) else {
        return Answer::None;
    };
    let (i, o) = (i.as_raw_fd() as usize, o.as_raw_fd() as usize);
    *busy() = 1;
    let mut d = &all[..];
    while !d.is_empty() {
        let r = unsafe { sc3(SYS_WRITE, i, d.as_ptr() as usize, d.len()) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return Answer::None;
        }
        d = &d[r as usize..];
    }
    let part = || {
        let head = receive(o, 5)?;
        let n = u32::from_le_bytes([head[1], head[2], head[3], head[4]]) as usize;
        Some((head[0], receive(o, n)?))
    };
    match part() {
        Some((0, log)) => match part() {
            Some((1, data)) => {
                *busy() = 0;
                let mut out = Out::default();
                get_log(&log, ops, &mut out);
                Answer::Done(out, data)
            }
            _ => Answer::None,
        },
        Some((_, text)) => Answer::Panic(String::from_utf8_lossy(&text).into_owned()),
        None => {
            let mut t = String::new();
            let _ = m.errors.seek(SeekFrom::Start(0));
            let _ = m.errors.read_to_string(&mut t);
            match t.find("error: Undefined Behavior") {
                Some(at) => Answer::Undefined(t[at..].lines().take(4).collect::<Vec<_>>().join(" ")),
                None => Answer::None,
            }
        }
    }
}
