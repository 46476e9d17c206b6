#![allow(unknown_lints)]
#![allow(suspicious_runtime_symbol_definitions, dead_code)]
//! Deterministic simulation of the JPEG encoder and everything around it. See ../../DESIGN.md.

mod alloc;
mod be;
mod choices;
mod directed;
mod fidelity;
mod hop;
mod host;
mod host32;
mod image;
mod isa;
mod jpeg;
mod lab;
mod props;
mod runner;
mod sched;
mod sink;
mod spec;
mod sys;
mod tables;
mod world;

#[global_allocator]
static HEAP: alloc::SimAlloc = alloc::SimAlloc;

/// Addresses belong to what a seed decides
fn fixed_addresses() {
    const ADDR_NO_RANDOMIZE: usize = 0x40000;
    unsafe {
        let now = sys::sc3(135, 0xFFFF_FFFF, 0, 0);
        if now >= 0 && now as usize & ADDR_NO_RANDOMIZE == 0 {
            let r = sys::sc3(135, now as usize | ADDR_NO_RANDOMIZE, 0, 0);
            if r >= 0 && std::env::var_os("JPSIM_FIXED").is_none() {
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe")
                    .args(std::env::args_os().skip(1))
                    .env("JPSIM_FIXED", "1")
                    .exec();
            }
        }
    }
}

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|v| !v.is_empty())
}

fn main() {
    fixed_addresses();
    if let Ok(exe) = std::fs::read_link("/proc/self/exe") {
        host32::load(&exe.with_file_name("host32.bin"));
        be::load(exe.with_file_name("be.sh"));
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize, d: u64| arg(i).parse::<u64>().unwrap_or(d);
    let prop = |id: &str| props::PROPS.iter().find(|p| p.id == id);
    let seed = env("VERIF_SEED")
        .and_then(|s| s.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64;
    let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
    if (arg(0) == "replay" || arg(1) == "C09") && !isa::load() {
        println!("this program cannot be disassembled: use of AVX without detection would go unnoticed");
    }
    let code = match arg(0) {
        "check" => match prop(arg(1)) {
            Some(p) => {
                let workers = env("JPSIM_WORKERS")
                    .and_then(|s| s.parse().ok())
                    .unwrap_or_else(|| {
                        std::thread::available_parallelism()
                            .map(|n| n.get())
                            .unwrap_or(4)
                            .clamp(2, 16)
                    });
                let seconds = env("JPSIM_SECONDS")
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(if thorough { 600.0 } else { 40.0 });
                let max_runs = env("JPSIM_RUNS")
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(u64::MAX / 2);
                runner::check(&runner::Config {
                    prop: p,
                    seed,
                    thorough,
                    workers,
                    seconds,
                    max_runs,
                    root: env("JPSIM_ROOT").unwrap_or_else(|| ".".into()),
                })
            }
            None => {
                println!("unknown property");
                2
            }
        },
        "replay" => runner::replay(arg(1)),
        "hashes" => match prop(arg(1)) {
            Some(p) => runner::hashes(p, seed, num(2, 100), num(3, 8) as usize),
            None => 2,
        },
        "one" => match prop(arg(1)) {
            Some(p) => runner::one(p, seed, num(2, 0)),
            None => 2,
        },
        _ => {
            println!("jpsim check ID | replay FILE | hashes ID RUNS WORKERS | one ID INDEX");
            2
        }
    };
    be::stop();
    std::process::exit(code);
}
