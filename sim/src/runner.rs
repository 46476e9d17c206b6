//! Runs executions: every one in a process of its own that is forked from a worker, so that crashes,
//! hangs and leftovers of one cannot reach another. Also minimisation, replay files and evidence.

use crate::be;
use crate::choices;
use crate::directed;
use crate::props;
use crate::sys::*;
use crate::world::*;
use std::fmt::Write as _;

pub struct Config {
    pub prop: &'static props::Prop,
    pub seed: u64,
    pub thorough: bool,
    pub workers: usize,
    pub seconds: f64,
    pub max_runs: u64,
    pub root: String,
}

/// How an execution ended
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Fine,
    /// class, message
    Violation(String, String),
    /// The last resort timer fired
    Slow,
    /// Ended from outside
    Killed,
}

fn new_shm() -> *mut Shm {
    map_shared(std::mem::size_of::<Shm>()) as *mut Shm
}

pub enum Input<'a> {
    Seed(u64),
    Replay(&'a [u64]),
}

pub fn run_seed(base: u64, prop: &str, idx: u64) -> u64 {
    mix2(mix2(base, hash_bytes(prop.as_bytes())), idx)
}

/// One execution. The result is in the shared memory of the caller.
pub fn execute(prop: &props::Prop, input: Input, trace: bool, cpu: u64) -> End {
    if prop.id == "C09" {
        be::ready();
    }
    let s = shm();
    s.status = 0;
    s.nontrivial = 0;
    s.want_trace = trace as u32;
    s.hash = 0;
    s.steps = 0;
    s.sig = 0;
    s.class[0] = 0;
    s.msg[0] = 0;
    s.desc[0] = 0;
    s.phase[0] = 0;
    s.panic[0] = 0;
    s.trace_len = 0;
    s.nchoices = 0;
    let pid = unsafe { fork() };
    if pid < 0 {
        return End::Killed;
    }
    if pid == 0 {
        die_with_parent();
        arm_watchdog(cpu, cpu * 5);
        install_panic_hook();
        crate::host::boot();
        match input {
            Input::Seed(n) => choices::start_seed(n),
            Input::Replay(l) => choices::start_replay(l.to_vec()),
        }
        let r = std::panic::catch_unwind(|| (prop.run)());
        if r.is_err() {
            violation("unexpected-panic", &last_panic());
        }
        shm().status = 1;
        exit_now(0);
    }
    let mut st = 0i32;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    stat_add(S::steps, s.steps);
    let sig = st & 0x7F;
    if s.status == 2 {
        return End::Violation(get_str(&s.class), get_str(&s.msg));
    }
    match sig {
        0 if st == 0 && s.status == 1 => End::Fine,
        9 | 15 => End::Killed,
        14 | 27 => End::Slow,
        0 => End::Violation(
            "unexpected-exit".into(),
            format!(
                "the process exited with status {} in phase '{}'",
                st >> 8,
                get_str(&s.phase)
            ),
        ),
        n => End::Violation(
            format!("signal-{}", n),
            format!(
                "the process died of signal {} in phase '{}'{}",
                n,
                get_str(&s.phase),
                if n == 6 {
                    " (abort: refused allocation or a panic that must not unwind)"
                } else {
                    " (access outside of the memory that belongs to it)"
                }
            ),
        ),
    }
}

/// Hangs have to show twice, the second time with far more time
pub fn execute_sure(prop: &props::Prop, input: Input, trace: bool) -> End {
    let again = match input {
        Input::Seed(n) => Input::Seed(n),
        Input::Replay(l) => Input::Replay(l),
    };
    if let Input::Replay(l) = again {
        if directed::is(l) {
            return match execute(prop, again, trace, 900) {
                End::Slow => End::Violation("hang".into(), "the encoder does not return".into()),
                e => e,
            };
        }
    }
    match execute(prop, input, trace, 30) {
        End::Slow => match execute(prop, again, trace, 90) {
            End::Slow => End::Violation("hang".into(), "the encoder does not return".into()),
            e => e,
        },
        End::Killed => match execute(prop, again, trace, 30) {
            End::Slow => End::Violation("hang".into(), "the encoder does not return".into()),
            e => e,
        },
        e => e,
    }
}

struct Control {
    stop: u32,
    next: u64,
    found: u32,
    /// Workers that make a directed execution
    busy: u64,
}

struct Found {
    idx: u64,
}

/// `open:` lines of KNOWN_FINDINGS.txt: property, class and a part of the message or description
pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
    pub line: String,
}

fn known_findings(root: &str) -> Vec<Known> {
    let mut v = Vec::new();
    for l in std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root))
        .unwrap_or_default()
        .lines()
    {
        // open: property=C01 class=x match="..." what fails
        let Some(r) = l.strip_prefix("open: ") else {
            continue;
        };
        let field = |k: &str| -> String {
            r.split_once(&format!("{}=", k))
                .map(|x| x.1)
                .map(|x| {
                    if let Some(q) = x.strip_prefix('"') {
                        q.split('"').next().unwrap_or("").to_string()
                    } else {
                        x.split(' ').next().unwrap_or("").to_string()
                    }
                })
                .unwrap_or_default()
        };
        v.push(Known {
            property: field("property"),
            class: field("class"),
            text: field("match"),
            line: r.to_string(),
        });
    }
    v
}

const MAX_FOUND: usize = 64;

#[repr(C)]
struct Slot {
    idx: u64,
    used: u64,
}

/// Returns the exit code
pub fn check(cfg: &Config) -> i32 {
    let t0 = now();
    let ctl = map_shared(std::mem::size_of::<Control>()) as *mut Control;
    let ctl: &'static mut Control = unsafe { &mut *ctl };
    let found_mem = map_shared(std::mem::size_of::<Slot>() * MAX_FOUND) as *mut Slot;
    let known = known_findings(&cfg.root);
    let known: Vec<&Known> = known
        .iter()
        .filter(|k| k.property == cfg.prop.id)
        .collect();
    let mut shms = Vec::new();
    for _ in 0..cfg.workers {
        shms.push(new_shm());
    }
    println!(
        "{}: seed {}, {} workers, up to {} runs or {:.0} s",
        cfg.prop.id, cfg.seed, cfg.workers, cfg.max_runs, cfg.seconds
    );
    if cfg.thorough {
        *SHM.get() = shms[0];
        for k in 0..directed::count(cfg.prop.id) {
            if !directed::room() {
                println!("directed execution {} left out: too little memory", k);
                continue;
            }
            let list = [directed::BASE + k];
            let t = now();
            match execute_sure(cfg.prop, Input::Replay(&list), false) {
                End::Violation(class, msg) => {
                    println!("directed execution {}: {}: {}", k, class, msg);
                    *SHM.get() = new_shm();
                    let path = write_replay(cfg, k, directed::BASE + k, &class, 1, &list);
                    println!("VIOLATION property={} replay={}", cfg.prop.id, path);
                    evidence(cfg, &shms, 0.0, now() - t0, 1);
                    return 1;
                }
                End::Fine => {
                    shm().runs += 1;
                    shm().nontrivial_runs += 1;
                    stat(S::p_directed);
                    println!("directed execution {}: {} in {:.0} s", k, get_str(&shm().desc), now() - t);
                }
                e => println!("directed execution {} gave no answer: {:?}", k, e),
            }
        }
    }
    let quick = if cfg.thorough { &[] } else { directed::quick(cfg.prop.id) };
    let t_search = now();
    let mut pids = Vec::new();
    for (w, &m) in shms.iter().enumerate() {
        let pid = unsafe { fork() };
        if pid < 0 {
            println!("cannot fork");
            return 2;
        }
        if pid == 0 {
            *SHM.get() = m;
            let mut mismatch = 0u64;
            loop {
                let idx = next(ctl);
                if idx >= cfg.max_runs || stopped(ctl) || now() - t_search > cfg.seconds {
                    break;
                }
                let seed = run_seed(cfg.seed, cfg.prop.id, idx);
                let directed = quick.get(idx as usize);
                let e = match directed {
                    Some(&c) => {
                        stat(S::p_directed);
                        busy(ctl, 1 << w);
                        let e = execute(cfg.prop, Input::Replay(&[c]), false, 120);
                        busy(ctl, 1 << w);
                        e
                    }
                    None => execute_sure(cfg.prop, Input::Seed(seed), false),
                };
                let s = shm();
                match e {
                    End::Fine => {
                        s.runs += 1;
                        if directed.is_some() {
                            s.nontrivial_runs += s.nontrivial as u64;
                            continue;
                        }
                        if s.nontrivial != 0 {
                            s.nontrivial_runs += 1;
                            if (s.nsigs as usize) < MAX_SIGS {
                                s.sigs[s.nsigs as usize] = s.sig;
                                s.nsigs += 1;
                            }
                        }
                        // Determinism is checked all the time
                        if idx % 101 == 7 {
                            let h = (s.hash, s.steps, s.sig);
                            let keep = s.stats;
                            let e = execute(cfg.prop, Input::Seed(seed), false, 90);
                            s.stats = keep;
                            stat(S::replayed);
                            if e == End::Fine && h != (s.hash, s.steps, s.sig) {
                                mismatch += 1;
                                stat(S::replay_mismatch);
                            }
                        }
                    }
                    End::Violation(class, msg) => {
                        s.runs += 1;
                        if is_known(&known, &class, &msg) {
                            continue;
                        }
                        let k = found_slot(ctl);
                        if k < MAX_FOUND {
                            unsafe {
                                (*found_mem.add(k)).idx = idx;
                                (*found_mem.add(k)).used = 1 + w as u64;
                            }
                        }
                        stop(ctl);
                        break;
                    }
                    End::Slow | End::Killed => stat(S::lost_runs),
                }
            }
            let _ = mismatch;
            be::stop();
            exit_now(0);
        }
        pids.push(pid);
    }
    for &pid in &pids {
        let mut st = 0;
        let mut killed = false;
        while unsafe { waitpid(pid, &mut st, 1) } != pid {
            // Nobody waits for a directed execution when a violation is known
            if stopped(ctl) && !killed && busy(ctl, 0) >> pids.iter().position(|&p| p == pid).unwrap_or(0) & 1 == 1 {
                unsafe { kill(pid, 9) };
                killed = true;
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        if st != 0 && !killed {
            println!("a worker ended with status {}", st);
        }
    }
    let searched = now() - t_search;

    // The first violation in the order of the seeds
    *SHM.get() = new_shm();
    let mut found: Vec<Found> = Vec::new();
    for k in 0..MAX_FOUND {
        let s = unsafe { &*found_mem.add(k) };
        if s.used != 0 {
            found.push(Found {
                idx: s.idx,
            });
        }
    }
    found.sort_by_key(|f| f.idx);
    let violations = found.len();
    let mut code = 0;
    let mut report = None;
    for f in found.iter() {
        let seed = run_seed(cfg.seed, cfg.prop.id, f.idx);
        let again = match quick.get(f.idx as usize) {
            Some(c) => execute(cfg.prop, Input::Replay(std::slice::from_ref(c)), false, 120),
            None => execute(cfg.prop, Input::Seed(seed), false, 60),
        };
        let (c, m) = match again {
            End::Violation(c, m) => (c, m),
            End::Slow => ("hang".to_string(), "the encoder does not return".to_string()),
            e => {
                println!("run {} did not repeat its violation: {:?}", f.idx, e);
                code = 2;
                continue;
            }
        };
        let s = shm();
        report = Some((f.idx, seed, c, m, s.choices[..s.nchoices as usize].to_vec()));
        break;
    }
    if let Some((idx, seed, class, msg, first)) = &report {
        println!("run {} (seed {}): {}: {}", idx, seed, class, msg);
        let small = if directed::is(first) { first.clone() } else { minimise(cfg, class, first.clone(), &known, 20.0) };
        let path = write_replay(cfg, *idx, *seed, class, first.len(), &small);
        // The file has to fail in a fresh process
        let again = std::process::Command::new("/proc/self/exe")
            .args(["replay", &path])
            .output();
        let same = match again {
            Ok(o) => String::from_utf8_lossy(&o.stdout).contains(&format!("class: {}", class)),
            Err(_) => false,
        };
        println!(
            "minimised from {} to {} choices; replaying the file in a fresh process {}",
            first.len(),
            small.len(),
            if same { "fails the same way" } else { "DOES NOT FAIL THE SAME WAY" }
        );
        println!("VIOLATION property={} replay={}", cfg.prop.id, path);
        code = 1;
    }
    for k in &known {
        println!("KNOWN-FINDING: {}", k.line);
    }
    evidence(cfg, &shms, searched, now() - t0, violations as u64);
    code
}

fn is_known(known: &[&Known], class: &str, msg: &str) -> bool {
    known
        .iter()
        .any(|k| k.class == class && (msg.contains(&k.text) || get_str(&shm().desc).contains(&k.text)))
}

fn atomic(p: &mut u64) -> &std::sync::atomic::AtomicU64 {
    unsafe { &*(p as *mut u64 as *const std::sync::atomic::AtomicU64) }
}

fn next(c: &mut Control) -> u64 {
    atomic(&mut c.next).fetch_add(1, std::sync::atomic::Ordering::SeqCst)
}

fn atomic32(p: &mut u32) -> &std::sync::atomic::AtomicU32 {
    unsafe { &*(p as *mut u32 as *const std::sync::atomic::AtomicU32) }
}

fn stopped(c: &mut Control) -> bool {
    atomic32(&mut c.stop).load(std::sync::atomic::Ordering::SeqCst) != 0
}

fn stop(c: &mut Control) {
    atomic32(&mut c.stop).store(1, std::sync::atomic::Ordering::SeqCst)
}

fn busy(c: &mut Control, flip: u64) -> u64 {
    atomic(&mut c.busy).fetch_xor(flip, std::sync::atomic::Ordering::SeqCst)
}

fn found_slot(c: &mut Control) -> usize {
    atomic32(&mut c.found).fetch_add(1, std::sync::atomic::Ordering::SeqCst) as usize
}

/// Greedy minimisation of the recorded choices: fewer, then smaller
fn minimise(cfg: &Config, class: &str, start: Vec<u64>, known: &[&Known], seconds: f64) -> Vec<u64> {
    let t0 = now();
    let mut best = start;
    let mut tries = 0;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        if now() - t0 > seconds {
            return false;
        }
        tries += 1;
        if let End::Violation(c, m) = execute(cfg.prop, Input::Replay(cand), false, 20) {
            if c == class && !is_known(known, &c, &m) {
                let s = shm();
                let mut used = s.choices[..s.nchoices as usize].to_vec();
                while used.last() == Some(&0) {
                    used.pop();
                }
                // Never trade for something longer or larger
                if used.len() < best.len() || (used.len() == best.len() && used < *best) {
                    *best = used;
                    return true;
                }
            }
        }
        false
    };
    if class == "hang" {
        return best;
    }
    loop {
        let before = best.clone();
        // Cut the end
        let mut keep = best.len() / 2;
        let mut step = keep;
        while step > 0 {
            let cand = best[..keep.min(best.len())].to_vec();
            if attempt(&cand, &mut best) {
                keep = best.len().saturating_sub(step / 2);
            } else {
                keep = (keep + step / 2).min(best.len());
            }
            step /= 2;
        }
        // Remove stretches
        let mut n = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut cand = best.clone();
                cand.drain(i..(i + n).min(best.len()));
                if !attempt(&cand, &mut best) {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // Zero, then lower values
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !attempt(&cand, &mut best) && i < best.len() {
                    let (mut lo, mut hi) = (0, best[i]);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if attempt(&cand, &mut best) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || now() - t0 > seconds {
            return best;
        }
    }
}

fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn write_replay(
    cfg: &Config,
    idx: u64,
    seed: u64,
    class: &str,
    original: usize,
    list: &[u64],
) -> String {
    execute(cfg.prop, Input::Replay(list), true, match class {
        _ if directed::is(list) => 900,
        "hang" => 5,
        _ => 60,
    });
    let s = shm();
    let dir = format!("{}/replays", cfg.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:016x}.json", dir, cfg.prop.id, seed);
    let nums: Vec<String> = list.iter().map(|c| c.to_string()).collect();
    let trace = String::from_utf8_lossy(&s.trace[..s.trace_len as usize]).into_owned();
    let lines: Vec<&str> = trace.lines().collect();
    let shown: Vec<String> = if lines.len() > 2000 {
        lines[..1000]
            .iter()
            .chain(std::iter::once(&"..."))
            .chain(lines[lines.len() - 1000..].iter())
            .map(|l| json(l))
            .collect()
    } else {
        lines.iter().map(|l| json(l)).collect()
    };
    let text = format!(
        "{{\n\"property\": {},\n\"verif_seed\": {},\n\"run\": {},\n\"seed\": {},\n\"class\": {},\n\"message\": {},\n\"execution\": {},\n\"phase\": {},\n\"original_choices\": {},\n\"choices\": [{}],\n\"trace\": [\n{}\n]\n}}\n",
        json(cfg.prop.id),
        cfg.seed,
        idx,
        seed,
        json(class),
        json(&get_str(&s.msg)),
        json(&get_str(&s.desc)),
        json(&get_str(&s.phase)),
        original,
        nums.join(","),
        shown.join(",\n")
    );
    let _ = std::fs::write(&path, text);
    println!("  {}", get_str(&s.desc));
    println!("  {}", get_str(&s.msg));
    path
}

/// Replays a file written by `check`
pub fn replay(path: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else {
        println!("cannot read {}", path);
        return 2;
    };
    let field = |k: &str| -> Option<String> {
        let l = t
            .lines()
            .find_map(|l| l.strip_prefix(&format!("\"{}\": ", k)))?;
        Some(l.trim_end_matches(',').trim_matches('"').to_string())
    };
    let (Some(id), Some(list)) = (field("property"), field("choices")) else {
        println!("not a replay file");
        return 2;
    };
    let Some(prop) = props::PROPS.iter().find(|p| p.id == id) else {
        println!("unknown property {}", id);
        return 2;
    };
    let list: Vec<u64> = list
        .trim_matches(|c| c == '[' || c == ']')
        .split(',')
        .filter_map(|x| x.parse().ok())
        .collect();
    *SHM.get() = new_shm();
    let e = execute_sure(prop, Input::Replay(&list), true);
    let s = shm();
    print!("{}", String::from_utf8_lossy(&s.trace[..s.trace_len as usize]));
    println!("execution: {}", get_str(&s.desc));
    match e {
        End::Violation(c, m) => {
            println!("class: {}\nmessage: {}", c, m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        e => {
            println!("{:?}: the property holds in this execution", e);
            0
        }
    }
}

/// Prints one line per run, for comparing whole batches
pub fn hashes(prop: &'static props::Prop, seed: u64, n: u64, workers: usize) -> i32 {
    let out = map_shared(n as usize * 8) as *mut u64;
    let ctl = map_shared(std::mem::size_of::<Control>()) as *mut Control;
    let ctl: &'static mut Control = unsafe { &mut *ctl };
    let mut pids = Vec::new();
    for _ in 0..workers {
        let pid = unsafe { fork() };
        if pid == 0 {
            *SHM.get() = new_shm();
            loop {
                let i = next(ctl);
                if i >= n {
                    exit_now(0);
                }
                let e = execute_sure(prop, Input::Seed(run_seed(seed, prop.id, i)), false);
                let s = shm();
                let k = match e {
                    End::Fine => 1,
                    End::Violation(..) => 2,
                    _ => 3,
                };
                unsafe {
                    *out.add(i as usize) = mix2(mix2(s.hash, s.steps), mix2(s.sig, k));
                }
            }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        while unsafe { waitpid(p, &mut st, 0) } != p {}
    }
    for i in 0..n {
        println!("{} {} {:016x}", prop.id, i, unsafe { *out.add(i as usize) });
    }
    0
}

/// One execution by number, with its trace
pub fn one(prop: &'static props::Prop, base: u64, idx: u64) -> i32 {
    *SHM.get() = new_shm();
    let e = execute_sure(prop, Input::Seed(run_seed(base, prop.id, idx)), true);
    let s = shm();
    print!("{}", String::from_utf8_lossy(&s.trace[..s.trace_len as usize]));
    println!("{}\n{:?} steps {} choices {}", get_str(&s.desc), e, s.steps, s.nchoices);
    0
}

fn evidence(cfg: &Config, shms: &[*mut Shm], searched: f64, wall: f64, violations: u64) {
    let mut stats = [0u64; 128];
    let (mut runs, mut nontrivial) = (0, 0);
    let mut sigs: Vec<u64> = Vec::new();
    let mut edges = vec![0u8; MAX_EDGES];
    let mut symbols = [0u8; 1024];
    for &m in shms {
        let s = unsafe { &*m };
        for (a, b) in stats.iter_mut().zip(&s.stats) {
            *a += b;
        }
        runs += s.runs;
        nontrivial += s.nontrivial_runs;
        sigs.extend_from_slice(&s.sigs[..s.nsigs as usize]);
        for (a, b) in edges.iter_mut().zip(s.edges.iter()) {
            *a |= b;
        }
        for (a, b) in symbols.iter_mut().zip(s.symbols.iter()) {
            *a |= b;
        }
    }
    let coded: Vec<String> = ["dc_sequential", "dc_progressive", "ac_sequential", "ac_progressive"]
        .iter()
        .enumerate()
        .map(|(k, n)| {
            let of = &symbols[k * 256..k * 256 + 256];
            format!("\"{}\": {}", n, of.iter().filter(|&&e| e != 0).count())
        })
        .collect();
    if std::env::var("JPSIM_SYMBOLS").is_ok() {
        for k in 0..4 {
            let miss: Vec<String> = (0..256)
                .filter(|r| if k < 2 { *r < 12 } else { r & 15 <= 10 && (r & 15 > 0 || k == 3 && *r < 240 || *r == 0 || *r == 240) })
                .filter(|r| symbols[k * 256 + r] == 0)
                .map(|r| format!("{:02x}", r))
                .collect();
            println!("symbols not seen {}: {}", k, miss.join(" "));
        }
    }
    sigs.sort_unstable();
    sigs.dedup();
    let covered = edges.iter().filter(|&&e| e != 0).count();
    // Samples: the first few executions of this run, written out
    let mut samples = Vec::new();
    for idx in 0..6u64.min(runs) {
        execute_sure(
            cfg.prop,
            Input::Seed(run_seed(cfg.seed, cfg.prop.id, idx)),
            false,
        );
        samples.push(json(&format!(
            "run {} seed {}: {}",
            idx,
            run_seed(cfg.seed, cfg.prop.id, idx),
            get_str(&shm().desc)
        )));
    }
    let group = |prefix: &str| -> String {
        let mut v = Vec::new();
        for (i, n) in STAT_NAMES.iter().enumerate() {
            if let Some(n) = n.strip_prefix(prefix) {
                if stats[i] > 0 {
                    v.push(format!("{}: {}", json(n), stats[i]));
                }
            }
        }
        format!("{{{}}}", v.join(", "))
    };
    let work: Vec<String> = STAT_NAMES
        .iter()
        .enumerate()
        .filter(|(i, n)| {
            !n.starts_with("f_") && !n.starts_with("p_") && !n.starts_with("cfg_") && stats[*i] > 0
        })
        .map(|(i, n)| format!("{}: {}", json(n), stats[i]))
        .collect();
    let t = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"exploration\",\n\"coverage\": {{\n\
         \"evaluations\": {},\n\"distinct_nontrivial\": {},\n\"rule\": {},\n\"samples\": [{}],\n\
         \"nontrivial_runs\": {},\n\"search_s\": {:.2},\n\"runs_per_hour\": {:.0},\n\"workers\": {},\n\
         \"simulated_time\": \"the code has no timers; simulated time is counted in steps (writer calls, row requests, system calls, switches) and control flow edges\",\n\
         \"workload\": {{{}}},\n\"configurations\": {},\n\"faults_injected\": {},\n\"rare_conditions_reached\": {},\n\
         \"distinct_edges_reached\": {},\n\"distinct_symbols_coded\": {{{}}},\n\"real_components\": \"the whole crate under test in four builds (std, std+simd, no_std, no_std with 32-bit addresses), std::io::BufWriter/LineWriter/Cursor/Vec/File above the system calls\",\n\
         \"stubbed_components\": \"the writer, the row source, file system calls below /simfs, allocator, clock, entropy, thread scheduling, CPU feature report\",\n\"exhaustive\": false\n}},\n\
         \"assumptions\": [{}],\n\"wall_s\": {:.2},\n\"violations\": {}\n}}\n",
        json(cfg.prop.id),
        json(if cfg.thorough { "thorough" } else { "quick" }),
        cfg.seed,
        runs,
        sigs.len(),
        json(cfg.prop.rule),
        samples.join(",\n"),
        nontrivial,
        searched,
        runs as f64 * 3600.0 / searched.max(0.01),
        cfg.workers,
        work.join(", "),
        group("cfg_"),
        group("f_"),
        group("p_"),
        covered,
        coded.join(", "),
        cfg.prop
            .assumes
            .iter()
            .map(|a| json(a))
            .collect::<Vec<_>>()
            .join(", "),
        wall,
        violations
    );
    let dir = format!("{}/evidence", cfg.root);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, cfg.prop.id), t);
    println!(
        "{} runs, {} distinct non-trivial, {} encodes, {:.0} runs/hour, {} edges, {} replayed with {} mismatches, {} lost, {:.1} s",
        runs,
        sigs.len(),
        stats[S::encodes as usize],
        runs as f64 * 3600.0 / searched.max(0.01),
        covered,
        stats[S::replayed as usize],
        stats[S::replay_mismatch as usize],
        stats[S::lost_runs as usize],
        wall
    );
}
