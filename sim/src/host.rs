//! The simulated operating system: every libc function through which the standard library could reach
//! files, time, entropy or blocking is defined here. Files below /simfs/ only exist in memory and fail
//! as planned; clock and entropy are values of the execution; blocking goes to the scheduler.

use crate::bad;
use crate::choices::Rng;
use crate::sys::*;
use crate::world::*;

const FD0: i32 = 1 << 20;

pub const EINTR: i32 = 4;
pub const ENOSPC: i32 = 28;

#[derive(Clone, Debug, Default)]
pub struct FsPlan {
    pub open_eintr: u32,
    pub open_error: Option<i32>,
    /// Upper bound of bytes taken by the write calls, cyclic; 0 means everything
    pub takes: Vec<usize>,
    /// Before each write call this many interruptions, cyclic
    pub eintr: Vec<u32>,
    /// (bytes that are taken before, errno, permanent)
    pub write_error: Option<(usize, i32, bool)>,
    /// The write calls that would cross the offset of the error take the bytes up to it
    pub partial: bool,
    /// Free bytes on the disk
    pub space: Option<usize>,
    /// Result of writing zero bytes instead of an error
    pub zero: bool,
}

struct Fd {
    inode: usize,
    pos: usize,
    append: bool,
    writable: bool,
}

#[derive(Default)]
pub struct Fs {
    pub names: Vec<(Vec<u8>, usize)>,
    pub inodes: Vec<Vec<u8>>,
    fds: Vec<Option<Fd>>,
    pub plan: FsPlan,
    written: usize,
    calls: usize,
    eintr_left: Option<u32>,
    opens: u32,
    /// errno of the first failure handed to the code (other than EINTR)
    pub failed: Option<i32>,
    pub eintrs: u64,
    pub writes: u64,
    /// After a simulated crash nothing reaches the disk any more
    pub crashed: bool,
}

pub static FS: Global<Option<Fs>> = Global::new(None);

/// Simulated clock in nanoseconds; None passes the real one through (runner only)
pub static CLOCK: Global<Option<(u64, u64)>> = Global::new(None);
pub static ENTROPY: Global<Option<Rng>> = Global::new(None);
/// What else a host tells those who ask: environment, processors, process number
pub static ENV: Global<Option<u64>> = Global::new(None);
pub static CPUS: Global<u32> = Global::new(0);
pub static PID: Global<i32> = Global::new(0);

extern "C" {
    static mut environ: *const *const u8;
}

struct NoEnv([*const u8; 1]);
unsafe impl Sync for NoEnv {}
static NO_ENV: NoEnv = NoEnv([std::ptr::null()]);

/// The host as every execution finds it. No execution sees anything of the real one.
pub fn boot() {
    *CLOCK.get() = Some((1_800_000_000_000_000_000, TICK));
    *ENTROPY.get() = Some(Rng::new(1, 99));
    *ENV.get() = None;
    *CPUS.get() = 4;
    *PID.get() = 1000;
    unsafe { environ = NO_ENV.0.as_ptr() };
}

const TICK: u64 = 1_000;

pub fn fs() -> &'static mut Fs {
    FS.get().get_or_insert_with(Fs::default)
}

impl Fs {
    pub fn content(&self, path: impl AsRef<[u8]>) -> Option<&Vec<u8>> {
        self.names
            .iter()
            .find(|n| n.0 == path.as_ref())
            .map(|n| &self.inodes[n.1])
    }

    pub fn put(&mut self, path: impl AsRef<[u8]>, data: &[u8]) {
        self.inodes.push(data.to_vec());
        let i = self.inodes.len() - 1;
        self.names.push((path.as_ref().to_vec(), i));
    }

    /// Starts a new period of faults and counts
    pub fn begin(&mut self) {
        self.written = 0;
        self.calls = 0;
        self.eintr_left = None;
        self.opens = 0;
        self.failed = None;
        self.eintrs = 0;
        self.writes = 0;
    }

    pub fn open_fds(&self) -> usize {
        self.fds.iter().filter(|f| f.is_some()).count()
    }

    fn open(&mut self, path: &[u8], flags: i32) -> isize {
        let p = &self.plan;
        ev("open", flags as u64 & 0x4C3, self.opens as u64);
        if self.opens < p.open_eintr {
            self.opens += 1;
            self.eintrs += 1;
            stat(S::f_fs_eintr);
            return -(EINTR as isize);
        }
        if let Some(e) = p.open_error {
            self.failed.get_or_insert(e);
            stat(S::f_fs_open_error);
            return -(e as isize);
        }
        let found = self.names.iter().find(|n| n.0 == path).map(|n| n.1);
        let inode = match found {
            Some(_) if flags & 0xC0 == 0xC0 => return -17, // O_CREAT|O_EXCL: EEXIST
            Some(i) => i,
            None if flags & 0x40 == 0 => return -2, // ENOENT
            None => {
                self.inodes.push(Vec::new());
                self.names.push((path.to_vec(), self.inodes.len() - 1));
                self.inodes.len() - 1
            }
        };
        if flags & 0x200 != 0 && !self.crashed {
            self.inodes[inode].clear();
        }
        self.fds.push(Some(Fd {
            inode,
            pos: 0,
            append: flags & 0x400 != 0,
            writable: flags & 3 != 0,
        }));
        (FD0 as usize + self.fds.len() - 1) as isize
    }

    fn fd(&mut self, fd: i32) -> Result<&mut Fd, isize> {
        match self.fds.get_mut((fd - FD0) as usize) {
            Some(Some(f)) => Ok(f),
            _ => Err(-9),
        }
    }

    fn fail(&mut self, e: i32) -> isize {
        self.failed.get_or_insert(e);
        ev("fs-error", e as u64, self.written as u64);
        -(e as isize)
    }

    fn write(&mut self, fd: i32, data: &[u8], at: Option<usize>) -> isize {
        match self.fd(fd) {
            Ok(f) if f.writable => {}
            Ok(_) => return -9,
            Err(e) => return e,
        }
        self.writes += 1;
        let k = self.calls;
        if !self.plan.eintr.is_empty() {
            let n = self.plan.eintr[k % self.plan.eintr.len()];
            let left = self.eintr_left.get_or_insert(n);
            if *left > 0 {
                *left -= 1;
                self.eintrs += 1;
                stat(S::f_fs_eintr);
                ev("fs-eintr", k as u64, 0);
                return -(EINTR as isize);
            }
        }
        self.eintr_left = None;
        self.calls += 1;
        let mut n = data.len();
        if !self.plan.takes.is_empty() {
            let t = self.plan.takes[k % self.plan.takes.len()];
            if t > 0 && t < n {
                n = t;
                stat(S::f_fs_short_write);
            }
        }
        if let Some((off, e, permanent)) = self.plan.write_error {
            if self.written + n > off || (self.written == off && n > 0) {
                if self.written < off && self.plan.partial {
                    n = off - self.written;
                } else {
                    if !permanent {
                        self.plan.write_error = None;
                    }
                    if self.plan.zero {
                        self.failed.get_or_insert(0);
                        stat(S::f_fs_write_error);
                        ev("fs-zero", self.written as u64, 0);
                        return 0;
                    }
                    stat(S::f_fs_write_error);
                    return self.fail(e);
                }
            }
        }
        if let Some(space) = self.plan.space {
            if self.written + n > space {
                if self.written >= space {
                    stat(S::f_fs_disk_full);
                    return self.fail(ENOSPC);
                }
                n = space - self.written;
            }
        }
        self.written += n;
        ev("fs-write", n as u64, self.written as u64);
        if self.crashed {
            return n as isize;
        }
        let f = self.fd(fd).unwrap_or_else(|_| exit_now(96));
        let (inode, pos) = (f.inode, at.unwrap_or(f.pos));
        let pos = if f.append && at.is_none() {
            usize::MAX
        } else {
            pos
        };
        let c = &mut self.inodes[inode];
        let pos = pos.min(if pos == usize::MAX { c.len() } else { pos });
        if c.len() < pos + n {
            c.resize(pos + n, 0);
        }
        c[pos..pos + n].copy_from_slice(&data[..n]);
        if at.is_none() {
            if let Ok(f) = self.fd(fd) {
                f.pos = pos + n;
            }
        }
        n as isize
    }
}

fn cstr(p: *const u8) -> &'static [u8] {
    unsafe {
        let mut n = 0;
        while *p.add(n) != 0 {
            n += 1;
        }
        std::slice::from_raw_parts(p, n)
    }
}

fn is_sim(path: *const u8) -> bool {
    cstr(path).starts_with(b"/simfs/")
}

fn off() -> crate::alloc::Pause {
    crate::alloc::Pause::new()
}

#[no_mangle]
pub extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if is_sim(path) {
        let _o = off();
        crate::sched::point("open");
        return ret(fs().open(cstr(path), flags)) as i32;
    }
    unsafe {
        ret(sc6(
            SYS_OPENAT,
            -100isize as usize,
            path as usize,
            flags as usize,
            mode as usize,
            0,
            0,
        )) as i32
    }
}

#[no_mangle]
pub extern "C" fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    if is_sim(path) {
        return open64(path, flags, mode);
    }
    unsafe {
        ret(sc6(
            SYS_OPENAT,
            dir as usize,
            path as usize,
            flags as usize,
            mode as usize,
            0,
            0,
        )) as i32
    }
}

#[no_mangle]
pub extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd >= FD0 {
        let _o = off();
        crate::sched::point("fs");
        let d = unsafe { std::slice::from_raw_parts(buf, n) };
        return ret(fs().write(fd, d, None));
    }
    unsafe { ret(sc3(SYS_WRITE, fd as usize, buf as usize, n)) }
}

#[no_mangle]
pub extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, at: i64) -> isize {
    if fd >= FD0 {
        let _o = off();
        let d = unsafe { std::slice::from_raw_parts(buf, n) };
        return ret(fs().write(fd, d, Some(at as usize)));
    }
    unsafe {
        ret(sc6(
            SYS_PWRITE64,
            fd as usize,
            buf as usize,
            n,
            at as usize,
            0,
            0,
        ))
    }
}

#[no_mangle]
pub extern "C" fn writev(fd: i32, iov: *const [usize; 2], cnt: i32) -> isize {
    if fd >= FD0 {
        let _o = off();
        crate::sched::point("fs");
        let mut all = Vec::new();
        for i in 0..cnt as usize {
            unsafe {
                let v = *iov.add(i);
                all.extend_from_slice(std::slice::from_raw_parts(v[0] as *const u8, v[1]));
            }
        }
        return ret(fs().write(fd, &all, None));
    }
    unsafe { ret(sc3(SYS_WRITEV, fd as usize, iov as usize, cnt as usize)) }
}

#[no_mangle]
pub extern "C" fn close(fd: i32) -> i32 {
    if fd >= FD0 {
        let _o = off();
        ev("close", fd as u64, 0);
        let f = fs();
        return match f.fds.get_mut((fd - FD0) as usize) {
            Some(x) if x.is_some() => {
                *x = None;
                0
            }
            _ => bad!("bad-close", "close of a descriptor that is not open"),
        };
    }
    unsafe { ret(sc3(SYS_CLOSE, fd as usize, 0, 0)) as i32 }
}

#[no_mangle]
pub extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if fd >= FD0 {
        let f = fs();
        return match f.fd(fd) {
            Ok(_) => 0,
            Err(e) => ret(e) as i32,
        };
    }
    unsafe { ret(sc3(SYS_FCNTL, fd as usize, cmd as usize, arg)) as i32 }
}

#[no_mangle]
pub extern "C" fn fsync(fd: i32) -> i32 {
    if fd >= FD0 {
        return 0;
    }
    unsafe { ret(sc3(SYS_FSYNC, fd as usize, 0, 0)) as i32 }
}

#[no_mangle]
pub extern "C" fn fdatasync(fd: i32) -> i32 {
    if fd >= FD0 {
        return 0;
    }
    unsafe { ret(sc3(SYS_FDATASYNC, fd as usize, 0, 0)) as i32 }
}

#[no_mangle]
pub extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    if fd >= FD0 {
        let _o = off();
        let f = fs();
        let inode = match f.fd(fd) {
            Ok(x) => x.inode,
            Err(e) => return ret(e) as i32,
        };
        if !f.crashed {
            f.inodes[inode].resize(len as usize, 0);
        }
        ev("ftruncate", len as u64, 0);
        return 0;
    }
    unsafe { ret(sc3(SYS_FTRUNCATE, fd as usize, len as usize, 0)) as i32 }
}

#[no_mangle]
pub extern "C" fn lseek64(fd: i32, at: i64, whence: i32) -> i64 {
    if fd >= FD0 {
        let f = fs();
        let (inode, pos) = match f.fd(fd) {
            Ok(x) => (x.inode, x.pos),
            Err(e) => return ret(e) as i64,
        };
        let len = f.inodes[inode].len() as i64;
        let n = match whence {
            0 => at,
            1 => pos as i64 + at,
            _ => len + at,
        };
        if n < 0 {
            return ret(-22) as i64;
        }
        if let Ok(x) = f.fd(fd) {
            x.pos = n as usize;
        }
        return n;
    }
    unsafe {
        ret(sc3(
            SYS_LSEEK,
            fd as usize,
            at as usize,
            whence as usize,
        )) as i64
    }
}

#[no_mangle]
pub extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    if is_sim(a) {
        let _o = off();
        let f = fs();
        let (a, b) = (cstr(a), cstr(b));
        ev("rename", hash_bytes(a), hash_bytes(b));
        let Some(i) = f.names.iter().position(|n| n.0 == a) else {
            return ret(-2) as i32;
        };
        f.names.retain(|n| n.0 != b);
        if let Some(n) = f.names.iter_mut().find(|n| n.0 == a) {
            n.0 = b.to_vec();
        }
        let _ = i;
        return 0;
    }
    unsafe { ret(sc3(SYS_RENAME, a as usize, b as usize, 0)) as i32 }
}

#[no_mangle]
pub extern "C" fn unlink(a: *const u8) -> i32 {
    if is_sim(a) {
        let _o = off();
        let f = fs();
        let a = cstr(a);
        ev("unlink", hash_bytes(a), 0);
        let n = f.names.len();
        f.names.retain(|n| n.0 != a);
        return if f.names.len() < n { 0 } else { ret(-2) as i32 };
    }
    unsafe { ret(sc3(SYS_UNLINK, a as usize, 0, 0)) as i32 }
}

/// Kind, size and identity of what a path or descriptor stands for: None if nothing
fn about(path: Option<&[u8]>, fd: i32) -> Option<(bool, usize, usize)> {
    let f = fs();
    if let Some(p) = path {
        if let Some(n) = f.names.iter().find(|n| n.0 == p) {
            return Some((false, f.inodes[n.1].len(), n.1));
        }
        let p = p.strip_suffix(b"/").unwrap_or(p);
        let dir = p == b"/simfs" || p == b"/simfs/dir" || f.names.iter().any(|n| n.0.starts_with(p) && n.0.get(p.len()) == Some(&b'/'));
        return if dir { Some((true, 4096, 1 << 20)) } else { None };
    }
    let i = f.fd(fd).ok()?.inode;
    Some((false, f.inodes[i].len(), i))
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, to: *mut u8) -> i32 {
    let by_path = !path.is_null() && is_sim(path);
    if by_path || dir >= FD0 {
        let _o = off();
        ev("stat", 0, 0);
        let Some((is_dir, len, inode)) = about(if by_path { Some(cstr(path)) } else { None }, dir) else {
            return ret(-2) as i32;
        };
        std::ptr::write_bytes(to, 0, 256);
        let w32 = |at: usize, v: u32| std::ptr::write_unaligned(to.add(at) as *mut u32, v);
        let w64 = |at: usize, v: u64| std::ptr::write_unaligned(to.add(at) as *mut u64, v);
        w32(0, 0x7FF); // the basic fields
        w32(4, 4096);
        w32(16, 1);
        std::ptr::write_unaligned(to.add(28) as *mut u16, if is_dir { 0o040755 } else { 0o100644 });
        w64(32, 1000 + inode as u64);
        w64(40, len as u64);
        w64(48, len.div_ceil(512) as u64);
        return 0;
    }
    ret(sc6(SYS_STATX, dir as usize, path as usize, flags as usize, mask as usize, to as usize, 0)) as i32
}

#[no_mangle]
pub extern "C" fn access(path: *const u8, mode: i32) -> i32 {
    if is_sim(path) {
        let _o = off();
        return if about(Some(cstr(path)), 0).is_some() { 0 } else { ret(-2) as i32 };
    }
    unsafe { ret(sc3(SYS_ACCESS, path as usize, mode as usize, 0)) as i32 }
}

/// Directories cannot be made on the simulated disk
#[no_mangle]
pub extern "C" fn mkdir(path: *const u8, mode: u32) -> i32 {
    if cstr(path).starts_with(b"/simfs") {
        let _o = off();
        ev("mkdir", 0, 0);
        return ret(if about(Some(cstr(path)), 0).is_some() { -17 } else { -13 }) as i32;
    }
    unsafe { ret(sc3(SYS_MKDIR, path as usize, mode as usize, 0)) as i32 }
}

#[no_mangle]
pub extern "C" fn chmod(path: *const u8, mode: u32) -> i32 {
    if is_sim(path) {
        return 0;
    }
    unsafe { ret(sc3(SYS_CHMOD, path as usize, mode as usize, 0)) as i32 }
}

#[no_mangle]
pub extern "C" fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32 {
    if let Some((now, step)) = CLOCK.get() {
        *now = now.wrapping_add(*step);
        if *step != TICK {
            stat(S::f_clock_jump);
        }
        unsafe {
            *t = [(*now / 1_000_000_000) as i64, (*now % 1_000_000_000) as i64];
        }
        return 0;
    }
    unsafe { ret(sc3(SYS_CLOCK_GETTIME, id as usize, t as usize, 0)) as i32 }
}

fn entropy(buf: *mut u8, n: usize) -> Option<isize> {
    let r = ENTROPY.get().as_mut()?;
    stat(S::f_entropy);
    for i in 0..n {
        unsafe {
            *buf.add(i) = r.next() as u8;
        }
    }
    Some(n as isize)
}

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if let Some(r) = entropy(buf, n) {
        return r;
    }
    unsafe { ret(sc3(SYS_GETRANDOM, buf as usize, n, flags as usize)) }
}

/// Variables are set or not, and their values drawn, per host
#[no_mangle]
pub extern "C" fn getenv(name: *const u8) -> *const u8 {
    const VALUES: &[&[u8]] = &[
        b"1\0", b"0\0", b"\0", b"true\0", b"8\0", b"100\0", b"85\0", b"/simfs/env\0", b"en_US.UTF-8\0",
        b"x y\0", b"\xFF\xFE\0",
    ];
    let name = cstr(name);
    if *CPUS.get() != 0 {
        if let (Some(seed), false) = (*ENV.get(), name.starts_with(b"RUST_")) {
            let r = mix2(seed, hash_bytes(name));
            if r & 3 != 0 {
                stat(S::f_environment);
                return VALUES[(r >> 8) as usize % VALUES.len()].as_ptr();
            }
        }
        return std::ptr::null();
    }
    unsafe {
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let v = cstr(*e);
            if v.len() > name.len() && v[name.len()] == b'=' && &v[..name.len()] == name {
                return (*e).add(name.len() + 1);
            }
            e = e.add(1);
        }
    }
    std::ptr::null()
}

#[no_mangle]
pub extern "C" fn getpid() -> i32 {
    match *PID.get() {
        0 => unsafe { ret(sc3(SYS_GETPID, 0, 0, 0)) as i32 },
        n => n,
    }
}

#[no_mangle]
pub extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    let cpus = *CPUS.get() as usize;
    if cpus == 0 {
        let r = unsafe { sc3(SYS_SCHED_GETAFFINITY, pid as usize, n, set as usize) };
        if r > 0 {
            unsafe { std::ptr::write_bytes(set.add(r as usize), 0, n - r as usize) };
        }
        return ret(r.min(0)) as i32;
    }
    for i in 0..n {
        let left = cpus.saturating_sub(i * 8);
        unsafe { *set.add(i) = if left >= 8 { 255 } else { (1u8 << left) - 1 } };
    }
    0
}

#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if crate::sched::yielded() {
        return 0;
    }
    unsafe { ret(sc3(SYS_SCHED_YIELD, 0, 0, 0)) as i32 }
}

/// The standard library blocks through this function
#[no_mangle]
pub extern "C" fn syscall(
    n: usize,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> isize {
    if n == SYS_FUTEX {
        match b & 0x7F {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET
            0 | 9 => {
                let cur = unsafe { std::ptr::read_volatile(a as *const u32) };
                if cur != c as u32 {
                    return ret(-11);
                }
                if crate::sched::blocked(a, c as u32) {
                    return 0;
                }
            }
            // FUTEX_WAKE
            1 => crate::sched::woke(a),
            _ => {}
        }
    }
    if n == SYS_GETRANDOM {
        if let Some(r) = entropy(a as *mut u8, b) {
            return r;
        }
    }
    unsafe { ret(sc6(n, a, b, c, d, e, f)) }
}
