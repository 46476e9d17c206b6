//! Which functions of this program need a CPU with AVX. A host whose CPU has none would stop there with an
//! illegal instruction; here the CPU has it, so that entering such a function on that host is the violation.

use crate::world::Global;

static RANGES: Global<Vec<(usize, usize)>> = Global::new(Vec::new());
pub static HIDDEN: Global<bool> = Global::new(false);

extern "C" {
    static __ehdr_start: u8;
}

/// Disassembles this program. Without a disassembler nothing is known and nothing is reported.
pub fn load() -> bool {
    let Ok(exe) = std::fs::read_link("/proc/self/exe") else {
        return false;
    };
    let Ok(out) = std::process::Command::new("objdump")
        .args(["-d", "--no-show-raw-insn"])
        .arg(&exe)
        .env("LC_ALL", "C")
        .stderr(std::process::Stdio::null())
        .stdin(std::process::Stdio::null())
        .output()
    else {
        return false;
    };
    let exe = std::fs::read("/proc/self/exe").unwrap_or_default();
    // Position independent programs are linked to address 0
    let pie = exe.get(16) == Some(&3);
    let base = if pie { std::ptr::addr_of!(__ehdr_start) as usize } else { 0 };
    let text = String::from_utf8_lossy(&out.stdout);
    let mut ranges = Vec::new();
    let (mut start, mut last, mut avx, mut ours) = (0usize, 0usize, false, false);
    let mut funcs = 0;
    for l in text.lines() {
        if l.ends_with(">:") {
            if avx && ours {
                ranges.push((base + start, base + last));
            }
            start = l.split(' ').next().and_then(|a| usize::from_str_radix(a, 16).ok()).unwrap_or(0);
            last = start;
            avx = false;
            ours = false;
            funcs += 1;
        } else if let Some((a, i)) = l.split_once(":\t") {
            last = usize::from_str_radix(a.trim(), 16).unwrap_or(last);
            avx |= i.contains("%ymm") || i.starts_with('v');
            ours |= i.contains("__sanitizer_cov_trace_pc_guard");
        }
    }
    if avx && ours {
        ranges.push((base + start, base + last));
    }
    *RANGES.get() = ranges;
    funcs > 100 && text.contains("call")
}

pub fn functions() -> usize {
    RANGES.get().len()
}

#[cold]
#[inline(never)]
pub fn edge_on_old_cpu(pc: usize) {
    if RANGES.get().iter().any(|r| pc >= r.0 && pc <= r.1 + 16) {
        let _off = crate::alloc::Pause::new();
        *HIDDEN.get() = false;
        crate::bad!("illegal-instruction", "code for AVX was entered on a host without AVX2");
    }
}
