//! Raw system calls and the few libc symbols the simulator needs (no dependencies).

use std::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub unsafe fn sc3(n: usize, a: usize, b: usize, c: usize) -> isize {
    sc6(n, a, b, c, 0, 0, 0)
}

pub const SYS_READ: usize = 0;
pub const SYS_WRITE: usize = 1;
pub const SYS_CLOSE: usize = 3;
pub const SYS_FSTAT: usize = 5;
pub const SYS_ACCESS: usize = 21;
pub const SYS_MKDIR: usize = 83;
pub const SYS_CHMOD: usize = 90;
pub const SYS_STATX: usize = 332;
pub const SYS_LSEEK: usize = 8;
pub const SYS_MMAP: usize = 9;
pub const SYS_MPROTECT: usize = 10;
pub const SYS_MUNMAP: usize = 11;
pub const SYS_WRITEV: usize = 20;
pub const SYS_SCHED_YIELD: usize = 24;
pub const SYS_SETITIMER: usize = 38;
pub const SYS_FCNTL: usize = 72;
pub const SYS_FSYNC: usize = 74;
pub const SYS_FDATASYNC: usize = 75;
pub const SYS_FTRUNCATE: usize = 77;
pub const SYS_RENAME: usize = 82;
pub const SYS_UNLINK: usize = 87;
pub const SYS_GETPID: usize = 39;
pub const SYS_SCHED_GETAFFINITY: usize = 204;
pub const SYS_KILL: usize = 62;
pub const SYS_FUTEX: usize = 202;
pub const SYS_CLOCK_GETTIME: usize = 228;
pub const SYS_EXIT_GROUP: usize = 231;
pub const SYS_OPENAT: usize = 257;
pub const SYS_GETRANDOM: usize = 318;
pub const SYS_PWRITE64: usize = 18;
pub const SYS_PRCTL: usize = 157;

extern "C" {
    pub fn fork() -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn __errno_location() -> *mut i32;
}

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

/// Turns the result of a raw system call into the convention of libc
pub fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        sc3(SYS_EXIT_GROUP, code as usize, 0, 0);
    }
    loop {}
}

pub const PROT_RW: usize = 3;

pub fn map(addr: usize, len: usize, prot: usize, flags: usize) -> *mut u8 {
    let r = unsafe { sc6(SYS_MMAP, addr, len, prot, flags, usize::MAX, 0) };
    if r < 0 {
        exit_now(97);
    }
    r as *mut u8
}

/// Anonymous memory shared with forked processes
pub fn map_shared(len: usize) -> *mut u8 {
    map(0, len, PROT_RW, 0x21 | 0x4000)
}

pub fn map_private(len: usize) -> *mut u8 {
    map(0, len, PROT_RW, 0x22 | 0x4000)
}

/// Address space for which there need not be memory
pub fn map_sparse(len: usize) -> Option<*mut u8> {
    let r = unsafe { sc6(SYS_MMAP, 0, len, PROT_RW, 0x22 | 0x4000, usize::MAX, 0) };
    (r >= 0).then_some(r as *mut u8)
}

/// The calling process ends with its parent
pub fn die_with_parent() {
    unsafe {
        sc3(SYS_PRCTL, 1, 9, 0);
    }
}

pub fn protect_none(p: *mut u8, len: usize) {
    unsafe {
        if sc3(SYS_MPROTECT, p as usize, len, 0) != 0 {
            exit_now(97);
        }
    }
}

pub fn unmap(p: *mut u8, len: usize) {
    unsafe {
        sc3(SYS_MUNMAP, p as usize, len, 0);
    }
}

/// Kills this process after `cpu` seconds of processor time or `wall` seconds of real time.
/// Only a last resort against hanging code, simulated behaviour never depends on it.
pub fn arm_watchdog(cpu: u64, wall: u64) {
    let set = |which: usize, s: u64| unsafe {
        let v: [u64; 4] = [0, 0, s, 0];
        sc3(SYS_SETITIMER, which, v.as_ptr() as usize, 0);
    };
    set(2, cpu); // ITIMER_PROF -> SIGPROF
    set(0, wall); // ITIMER_REAL -> SIGALRM
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        sc6(SYS_FUTEX, addr as usize, 128, val as usize, 0, 0, 0);
    }
}

pub fn futex_wake(addr: *const u32, n: u32) {
    unsafe {
        sc6(SYS_FUTEX, addr as usize, 129, n as usize, 0, 0, 0);
    }
}

/// Real time, only used by the runner outside of simulated executions
pub fn now() -> f64 {
    let mut t = [0i64; 2];
    unsafe {
        sc3(SYS_CLOCK_GETTIME, 1, t.as_mut_ptr() as usize, 0);
    }
    t[0] as f64 + t[1] as f64 / 1e9
}

/// Fixed hash, used wherever a value has to be derived from others
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93))
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xCBF2_9CE4_8422_2325u64 ^ b.len() as u64;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))
            .wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    for &c in it.remainder() {
        h = (h ^ c as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}
