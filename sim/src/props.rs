//! The properties: what one simulated execution does and what has to hold in it.

use crate::alloc;
use crate::bad;
use crate::be;
use crate::choices::*;
use crate::directed;
use crate::fidelity;
use crate::hop;
use crate::host;
use crate::host32;
use crate::jpeg::*;
use crate::lab::*;
use crate::sched;
use crate::sink::*;
use crate::spec::*;
use crate::sys::*;
use crate::world::*;
use simapi::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub rule: &'static str,
    pub assumes: &'static [&'static str],
}

macro_rules! prop {
    ($id:expr, $f:ident, $rule:expr) => {
        Prop {
            id: $id,
            run: $f,
            rule: $rule,
            assumes: &[
                "executions are sampled, not enumerated",
                "the independent JPEG receiver and the reference tables of the simulator are right",
            ],
        }
    };
}

pub static PROPS: &[Prop] = &[
    prop!("C01", c01, "One run draws an encode request and delivers it up to 12 times, each time through a freshly drawn wrapper and fault plan (short writes, EINTR bursts, refused writes, one-shot or lasting errors, flush errors, panics). Non-trivial: at least one fault fired. Distinct by request shape, wrapper and place and kind of the faults."),
    prop!("C02", c02, "One run draws an encode request and kills its writer up to 12 times at drawn offsets (none or part of the call taken, one-shot or lasting, any error kind, zero write, panic, flush). Non-trivial: the failure was delivered. Distinct by request shape, offset and kind."),
    prop!("C03", c03, "One run draws an encode request and delivers it up to 12 times through drawn wrappers, buffer sizes and acceptance patterns, and through the writer trait of the other build. Non-trivial: a write was cut short, interrupted or buffered. Distinct by request shape and delivery."),
    prop!("C04", c04, "One run makes 1 to 6 file encodes on the simulated file system with drawn old content and drawn system call faults. Non-trivial: a system call fault fired or old content was replaced. Distinct by request shape and fault plan."),
    prop!("C05", c05, "One run draws an encode request over the whole configuration space, delivers it through a drawn wrapper with non-fatal faults and decodes what arrived with an independent strict receiver, comparing headers, tables, metadata and every coefficient with the source. Non-trivial: the stream was decoded and compared. Distinct by request (shape and image)."),
    prop!("C06", c06, "One run draws an encode request with a restart interval, checks the markers strictly and then damages the stored scan data up to 16 times (overwritten, lost, inserted bytes spanning at most seven markers), decoding with a resynchronising receiver. Non-trivial: damage was done and intact intervals remained. Distinct by request shape and damage."),
    prop!("C07", c07, "One run executes 2 to 5 encoders on scheduled threads, some of them failing, panicking or running further encoders inside their callbacks, under a drawn schedule (switches at callbacks, control flow edges, blocking). Each is compared with the same encode alone in a pristine process. Non-trivial: a context switch or nesting happened during encodes. Distinct by sequence of switches (edge number, from, to)."),
    prop!("C08", c08, "One run performs a history of 0 to 8 encodes that succeed, fail, panic, are dropped or rejected, then one clean encode with overridden settings and rejected calls before it, and compares getters, errors and bytes with the model and with a pristine process. Non-trivial: the history is not empty. Distinct by history and request shape."),
    prop!("C09", c09, "One run draws an encode request and executes it on 4 to 8 hosts: three builds, AVX2 hidden or not, drawn heap contents, placement and guard pages, fenced input memory, drawn clock and entropy. Non-trivial: at least two different hosts. Distinct by request (shape and image) and hosts."),
    prop!("C10", c10, "One run draws an encode of an image source and executes it with up to 8 source faults (panic, short or long row at a drawn request), with heap red zones or guard pages. Non-trivial: a source fault fired. Distinct by request shape and fault."),
    prop!("C11", c11, "One run draws an encode, checks stream order and the pace of single-scan output at every row request, and crashes it up to 10 times at drawn control flow edges or stream offsets, with or without buffering and on the simulated disk. Non-trivial: a crash happened inside the encode. Distinct by request shape and crash point."),
    prop!("C12", c12, "One run draws a progressive encode, checks the scan script, cuts the delivery after drawn scans by killing the writer there, completes what arrived with an end marker and compares with the non-progressive encode. Non-trivial: a cut stream was decoded. Distinct by request shape and cut."),
    prop!("C13", c13, "One run draws a sequence of segments and profiles, encodes, and passes the stream through up to 8 transports that reorder, interleave, duplicate and lose ICC chunks. Non-trivial: accepted metadata was delivered. Distinct by sequence of sizes and transport."),
    prop!("C14", c14, "One run measures the heap of an encode, or executes it with a heap limited to the stated budget, or makes a rejected request with a tiny heap. Non-trivial: always. Distinct by request shape."),
    prop!("C19", c19, "One run executes an encode with a writer that takes everything and up to 3 times with writer and source faults, and sometimes a request that has to be rejected, and compares the control flow edges executed, the bytes allocated and moved and the rows requested with what the request may cost. Non-trivial: always. Distinct by request shape and faults."),
    prop!("C20", c20, "One run repeats a sequence of up to 4 pieces of work (encodes that succeed, fail or panic, file encodes on a faulty disk, rejected requests, encoders dropped unused) 3 to 63 times and compares the heap in use, the open descriptors and the writers and sources still held. Non-trivial: something was repeated. Distinct by the sequence of requests and outcomes."),
    prop!("C21", c21, "One run draws a picture (image, quality, tables, sampling) and has it coded up to 6 times with other coding settings, metadata, interfaces, builds and deliveries, sometimes after attempts that fail, and compares the decoded quantised coefficients of all of them. Non-trivial: two streams that differ were compared. Distinct by request shape and the settings."),
];

fn start(p: &Profile) -> Spec {
    let spec = Spec::draw(p);
    describe(&spec.text());
    sig(spec.shape());
    spec
}

fn is_prefix(a: &[u8], b: &[u8]) -> bool {
    a.len() <= b.len() && *a == b[..a.len()]
}

/// Sizes so that most executions are short and a few are not
const MIXED: Profile = Profile {
    sizes: [40, 6, 3, 0, 0, 0],
    ..GENERAL
};

// ---- C01 -----------------------------------------------------------------------------------------

fn c01() {
    let spec = start(&MIXED);
    phase("reference");
    let good = spec.reference();
    let j = parse(&spec, &good);
    let m = spec.model();
    if let Err(e) = fidelity::headers(&spec, &m, &j) {
        bad!("incomplete-stream", "{}: {}", spec.text(), e);
    }
    let pts = points(&j, &good);
    let n = good.len();
    for _ in 0..1 + draw(12) {
        phase("fault trial");
        let wrap = Wrap::draw(spec.flavor, true);
        let mut plan = if draw(2) == 1 { SinkPlan::draw_benign() } else { SinkPlan::default() };
        let mut room = n + draw(3) as usize;
        match weighted(&[3, 7, 2]) {
            0 => {}
            1 => {
                let at = draw_offset(&pts, n);
                count_offset(&j, at, n);
                plan.fatal = Some((at, draw(2) == 1, Fail::draw(true), draw(2) == 0));
                room = at;
            }
            _ => {
                stat(S::p_error_at_flush);
                // Whether to try again after an interruption is left to the encoder
                let fail = match draw(6) {
                    4 => Fail::Errno(4),
                    5 => Fail::Kind(std::io::ErrorKind::Interrupted),
                    _ => Fail::draw(true),
                };
                plan.flush_fail = Some((draw(2) as u32, fail));
            }
        }
        let mut sink = SimSink::new(plan.clone());
        sink.call_limit = 800 * n as u64 + 20_000;
        let src = spec.source();
        let rows = *ROWS.get();
        let (r, left) = run_wrapped(&spec, wrap, &mut sink, &src, room);
        let text = || format!("{} via {:?} with {:?}", spec.text(), wrap, plan);
        let memory_full = wrap == Wrap::CursorSlice && room < n;
        if sink.failed.is_some() || sink.eintrs > 0 || memory_full {
            nontrivial();
            sig(mix2(wrap.code(), sink.calls));
            sig(mix2(sink.eintrs, sink.data.len() as u64));
        }
        let _ = rows;
        if r.ok() {
            if sink.data != good {
                bad!(
                    "success-but-incomplete",
                    "{}: Ok although the writer holds something else: {}",
                    text(),
                    first_difference(&sink.data, &good)
                );
            }
            if left != 0 {
                bad!(
                    "success-but-buffered",
                    "{}: Ok although {} bytes are still in the caller's buffer",
                    text(),
                    left
                );
            }
            if sink.flushed != Some(n) {
                bad!(
                    "success-but-not-flushed",
                    "{}: Ok although the last successful flush came after {:?} of {} bytes",
                    text(),
                    sink.flushed,
                    n
                );
            }
        } else if sink.failed.is_none() && !memory_full {
            bad!(
                "fails-without-reason",
                "{}: {} although the writer never failed for good",
                text(),
                r.result()
            );
        }
        if sink.failed.is_none() && wrap.reaches_sink() {
            // The writer trait without std retries interruptions on its own
            let calls = if spec.flavor.no_std() || wrap == Wrap::Jfif {
                sink.calls
            } else {
                sink.calls - sink.eintrs
            };
            if calls > 2 * n as u64 + 64 {
                bad!(
                    "too-many-writer-calls",
                    "{}: {} calls plus {} interruptions for {} bytes",
                    text(),
                    calls,
                    sink.eintrs,
                    n
                );
            }
        }
    }
}

// ---- C02 -----------------------------------------------------------------------------------------

fn c02() {
    let spec = start(&Profile { image_api: 10, ..MIXED });
    phase("reference");
    let good = spec.reference();
    let j = parse(&spec, &good);
    let pts = points(&j, &good);
    let n = good.len();
    for _ in 0..1 + draw(12) {
        phase("fault trial");
        let wrap = Wrap::direct(spec.flavor);
        let mut plan = if draw(3) == 2 { SinkPlan::draw_benign() } else { SinkPlan::default() };
        let fail = Fail::draw(true);
        let flush = draw(12) == 11;
        if flush {
            stat(S::p_error_at_flush);
            plan.flush_fail = Some((0, if fail == Fail::Zero { Fail::Errno(5) } else { fail }));
        } else {
            let at = draw_offset(&pts, n);
            count_offset(&j, at, n);
            plan.fatal = Some((at, draw(2) == 1, fail, draw(2) == 0));
        }
        let fail = plan.flush_fail.map(|f| f.1).unwrap_or(fail);
        let mut sink = SimSink::new(plan.clone());
        sink.call_limit = 800 * n as u64 + 20_000;
        let src = spec.source();
        let (r, _) = run_wrapped(&spec, wrap, &mut sink, &src, 0);
        let text = || format!("{} via {:?} with {:?}", spec.text(), wrap, plan);
        if sink.failed.is_none() {
            // Only a flush that never came
            if !flush {
                bad!("fault-not-reached", "{}: the stream ended early: {}", text(), r.result());
            }
            bad!("never-flushed", "{}: {} without flushing", text(), r.result());
        }
        nontrivial();
        sig(mix2(wrap.code(), mix2(sink.data.len() as u64, sink.calls)));
        sig(hash_bytes(format!("{:?}", fail).as_bytes()));
        match (fail, &r.panic) {
            (Fail::Panic(id), Some(p)) => {
                if p.payload != Some(SimPanic(id)) {
                    bad!("panic-changed", "{}: the writer's panic became {}", text(), p.text);
                }
            }
            (Fail::Panic(_), None) => {
                bad!("panic-swallowed", "{}: the writer panicked, result {}", text(), r.result())
            }
            (_, Some(p)) => bad!("panic-on-write-error", "{}: panic {}", text(), p.text),
            (f, None) => {
                let Some(e) = r.err() else {
                    bad!("error-swallowed", "{}: result {}", text(), r.result());
                };
                let same = if spec.flavor.no_std() || wrap == Wrap::Jfif {
                    *e == EncErr::Write(NoStd::message(f))
                } else {
                    f.matches(e)
                };
                if !same {
                    bad!("other-error", "{}: the writer said {:?}, the encoder {:?}", text(), f, e);
                }
            }
        }
        if sink.calls_after_failure > 0 {
            bad!(
                "called-after-failure",
                "{}: {} writer calls after the failure",
                text(),
                sink.calls_after_failure
            );
        }
        if *ROWS.get() != sink.rows_at_failure {
            bad!(
                "rows-after-failure",
                "{}: {} rows were requested after the failure",
                text(),
                *ROWS.get() - sink.rows_at_failure
            );
        }
        if !is_prefix(&sink.data, &good) {
            bad!(
                "not-a-prefix",
                "{}: the writer holds something else than the beginning of the stream: {}",
                text(),
                first_difference(&sink.data, &good)
            );
        }
        if flush && sink.data.len() != n {
            bad!("early-flush-error", "{}: flushed after {} of {} bytes", text(), sink.data.len(), n);
        }
    }
}

// ---- C03 -----------------------------------------------------------------------------------------

fn c03() {
    let spec = start(&MIXED);
    phase("reference");
    let good = spec.reference();
    let n = good.len();
    for _ in 0..1 + draw(12) {
        phase("delivery");
        let mut s = spec.clone();
        // The other writer trait
        let cross = draw(4) == 3;
        if cross {
            s.flavor = if s.flavor.no_std() {
                Flavor::Std
            } else {
                draw_flavor(&[0, 0, 2, 1])
            };
        }
        let wrap = Wrap::draw(s.flavor, true);
        let plan = SinkPlan::draw_benign();
        let mut sink = SimSink::new(plan.clone());
        sink.call_limit = 800 * n as u64 + 20_000;
        let src = s.source();
        let (r, left) = run_wrapped(&s, wrap, &mut sink, &src, n);
        let text = || format!("{} via {:?} with {:?}", s.text(), wrap, plan);
        if !r.ok() {
            bad!("delivery-failed", "{}: {}", text(), r.result());
        }
        if sink.data != good || left != 0 {
            bad!(
                "bytes-depend-on-delivery",
                "{}: {} ({} left in the buffer)",
                text(),
                first_difference(&sink.data, &good),
                left
            );
        }
        if cross || wrap != Wrap::Direct || sink.eintrs > 0 || sink.takes > 1 {
            nontrivial();
            sig(mix2(wrap.code(), mix2(sink.calls, sink.eintrs)));
            sig(cross as u64);
        }
        if draw(6) == 5 {
            // Another stream behind it in the same writer
            phase("second stream");
            stat(S::p_second_stream);
            let t = if draw(2) == 1 { s.clone() } else { s.near() };
            let mut both = good.clone();
            both.extend_from_slice(&t.reference());
            sink.call_limit += 800 * both.len() as u64 + 20_000;
            let src = t.source();
            let wrap = Wrap::draw(t.flavor, true);
            let (r, left) = run_wrapped(&t, wrap, &mut sink, &src, both.len());
            if !r.ok() || sink.data != both || left != 0 {
                bad!(
                    "second-stream",
                    "{} via {:?} behind {}: {}, {} ({} left in the buffer)",
                    t.text(),
                    wrap,
                    text(),
                    r.result(),
                    first_difference(&sink.data, &both),
                    left
                );
            }
        }
    }
}

// ---- C04 -----------------------------------------------------------------------------------------

fn c04() {
    let mut first = Spec::draw(&Profile { flavors: [1, 1, 0, 0], ..MIXED });
    let n = 1 + draw(6);
    // Names are bytes
    let name: Vec<u8> = match draw(8) {
        0..=2 => b"/simfs/out.jpg".to_vec(),
        3 => b"/simfs/dir/image".to_vec(),
        4 => b"/simfs/a".to_vec(),
        5 => [
            &b"/simfs/\xFF\xFE\x80.jpg"[..],
            b"/simfs/out.jpg ",
            b"/simfs/ .jpg\n",
            b"/simfs/\xC3\xBC.JPEG",
            b"/simfs/a.b/c.tar.gz",
            b"/simfs/%41~$HOME*?",
            b"/simfs/dir/../-o",
            b"/simfs/\xED\xA0\x80",
        ][draw(8) as usize]
            .to_vec(),
        6 => {
            let mut p = b"/simfs/".to_vec();
            p.resize(range(8, 600) as usize, b'n');
            p
        }
        _ => {
            let mut p = b"/simfs/".to_vec();
            let mut r = Rng::new(seed(), 8);
            for _ in 0..1 + draw(20) {
                let b = 1 + r.below(255) as u8;
                // Path drops repeated separators and dots between them
                p.push(if b == b'/' || b == b'.' { b'_' } else { b });
            }
            p
        }
    };
    use std::os::unix::ffi::OsStrExt;
    let os = std::ffi::OsStr::from_bytes(&name);
    let path = &name[..];
    if std::str::from_utf8(path).is_err() {
        stat(S::cfg_odd_path);
    }
    if draw(2) == 1 {
        let len = skewed(40_000) as usize;
        stat(S::f_fs_old_content);
        host::fs().put(path, &blob(seed(), len));
    }
    for i in 0..n {
        if i > 0 && draw(2) == 1 {
            first = Spec::draw(&Profile { flavors: [1, 1, 0, 0], ..SMALL });
        }
        let spec = &first;
        describe(&spec.text());
        sig(spec.shape());
        if draw(12) == 11 {
            phase("rejected request");
            host::fs().plan = host::FsPlan::default();
            host::fs().begin();
            rejected(spec, true);
        }
        phase("reference");
        let good = spec.reference();
        let len = good.len();
        let j = parse(spec, &good);
        let pts = points(&j, &good);
        let mut p = host::FsPlan::default();
        if draw(2) == 1 {
            let b = SinkPlan::draw_benign();
            p.takes = b.takes;
            p.eintr = b.eintr;
            p.open_eintr = skewed(3) as u32;
        }
        // 8192 byte steps are where the buffer of the library is written out
        let at = match weighted(&[3, 3, 1]) {
            0 => draw_offset(&pts, len),
            1 => (range(0, 1 + len as u64 / 8192) * 8192) as usize,
            _ => len - 1,
        }
        .min(len - 1);
        match weighted(&[3, 5, 3, 1]) {
            0 => {}
            1 => {
                let e = pick(&[5, 28, 122, 27, 9, 11, 32, 116, 30, 22, 1]);
                p.write_error = Some((at, e, draw(3) < 2));
                p.partial = draw(2) == 1;
                p.zero = draw(8) == 7;
            }
            2 => p.space = Some(at),
            _ => p.open_error = Some(pick(&[13, 2, 28, 24, 23, 30, 5, 20, 21, 122, 40])),
        }
        let old = host::fs().content(path).cloned();
        let f = host::fs();
        f.plan = p.clone();
        f.begin();
        phase("file encode");
        stat(S::cfg_file);
        let src = spec.source();
        if spec.api == Api::Image && draw(16) == 15 {
            src.panic_at.set(Some((draw(spec.h as u64) as usize, 77)));
        }
        let panics = src.panic_at.get();
        let r = spec.run_with(Sink::File(std::path::Path::new(os)), &src);
        let f = host::fs();
        let text = || format!("{} to {:?} with {:?}", spec.text(), os, p);
        let content = f.content(path).cloned();
        if f.failed.is_some() || f.eintrs > 0 || old.is_some() {
            nontrivial();
            sig(mix2(f.writes, f.eintrs));
            sig(mix2(at as u64, f.failed.unwrap_or(-1) as u64));
        }
        if f.open_fds() != 0 {
            bad!("file-left-open", "{}: {} descriptors are still open", text(), f.open_fds());
        }
        if let Some(pn) = &r.panic {
            if panics.is_none() || pn.payload != Some(SimPanic(77)) {
                bad!("panic", "{}: {}", text(), pn.text);
            }
        }
        if r.ok() && content.as_deref() != Some(&good[..]) {
            bad!(
                "success-but-file-differs",
                "{}: Ok, file: {}",
                text(),
                first_difference(content.as_deref().unwrap_or(&[]), &good)
            );
        }
        match f.failed {
            None if r.panic.is_none() => {
                if !r.ok() {
                    bad!("fails-without-reason", "{}: {}", text(), r.result());
                }
            }
            None => {}
            Some(e) if r.panic.is_none() => {
                let want = if e == 0 {
                    Fail::Zero
                } else {
                    Fail::Errno(e)
                };
                match r.err() {
                    None => {
                        if !r.ok() {
                            bad!("no-result", "{}", text());
                        }
                        // Only possible if a later attempt succeeded, which has been checked above
                    }
                    Some(x) => {
                        if !want.matches(x) {
                            bad!("other-error", "{}: errno {} became {:?}", text(), e, x);
                        }
                    }
                }
            }
            Some(_) => {}
        }
        if p.open_error.is_some() {
            if r.out.open.is_none() {
                bad!("open-error-swallowed", "{}: {}", text(), r.result());
            }
            if content != old {
                bad!("file-changed", "{}: the file changed although it could not be opened", text());
            }
        } else if !is_prefix(content.as_deref().unwrap_or(&[]), &good) {
            bad!(
                "not-a-prefix",
                "{}: {} and the file holds something else than the beginning of the stream: {}",
                text(),
                r.result(),
                first_difference(content.as_deref().unwrap_or(&[]), &good)
            );
        }
    }
}

// ---- C05 -----------------------------------------------------------------------------------------

fn c05() {
    if let Some(k) = directed::drawn() {
        return directed::run("C05", k);
    }
    let spec = start(&Profile { sizes: [2800, 720, 360, 20, 40, 4], many_mcus: 1, ..GENERAL });
    sig(mix2(spec.image.0 as u64, spec.image.1));
    phase("encode");
    let wrap = Wrap::draw(spec.flavor, true);
    let plan = if draw(2) == 1 { SinkPlan::draw_benign() } else { SinkPlan::default() };
    let mut sink = SimSink::new(plan.clone());
    let src = spec.source();
    let meta: usize = spec.model().apps.iter().map(|a| a.1.len() + 4).sum();
    let room = 4096 + meta + 64 * 64 * 4 * spec.pixels() as usize / 16;
    let (r, _) = run_wrapped(&spec, wrap, &mut sink, &src, if wrap == Wrap::CursorSlice { room } else { 0 });
    if !r.ok() {
        bad!(
            "valid-request-failed",
            "{} via {:?} with {:?}: {}",
            spec.text(),
            wrap,
            plan,
            r.result()
        );
    }
    phase("decode");
    parse(&spec, &sink.data);
    if let Err(e) = fidelity::check(&spec, &sink.data) {
        bad!("image-differs", "{} via {:?}: {}", spec.text(), wrap, e);
    }
    nontrivial();
}

// ---- C06 -----------------------------------------------------------------------------------------

fn c06() {
    let spec = {
        let p = Profile { restart: 16, sizes: [3400, 1000, 300, 0, 10, 1], many_mcus: 6, ..GENERAL };
        start(&p)
    };
    phase("reference");
    let good = spec.reference();
    let j = parse(&spec, &good);
    let m = spec.model();
    if j.restart != m.restart as usize {
        bad!("wrong-restart-interval", "{}: the stream announces {}", spec.text(), j.restart);
    }
    let r = j.restart;
    if r == 0 {
        return;
    }
    if j.scans.iter().any(|s| s.rst.len() > 30) {
        stat(S::p_many_restarts);
    }
    // An interval that relies on data before its marker decodes to something else than without markers
    phase("without restarts");
    let mut plain = spec.clone();
    plain.ops.push(Op::Restart(0));
    let p = parse(&plain, &plain.reference());
    for (i, (a, b)) in j.comps.iter().zip(&p.comps).enumerate() {
        if let Some(k) = (0..a.coef.len()).find(|&k| a.coef[k] != b.coef[k]) {
            bad!(
                "interval-not-independent",
                "{}: block {} of component {} decodes to other coefficients than without restart markers",
                spec.text(), k, i
            );
        }
    }
    let blank = |j: &Jpeg| -> Vec<Comp> {
        let mut c = j.comps.clone();
        for c in &mut c {
            c.coef.iter_mut().for_each(|b| *b = [0; 64]);
        }
        c
    };
    for _ in 0..1 + draw(if j.comps[0].coef.len() > 8000 { 2 } else { 16 }) {
        phase("damage");
        let scan = &j.scans[draw(j.scans.len() as u64) as usize];
        let d = &good[scan.data..scan.end];
        let marks: Vec<usize> = scan.rst.iter().map(|x| x - scan.data).collect();
        let mut want = blank(&j);
        let all = resync(&mut want, scan, r, d);
        if all.iter().any(|x| !x) {
            bad!(
                "interval-not-independent",
                "{}: an interval of the undamaged scan at {} does not decode on its own",
                spec.text(),
                scan.at
            );
        }
        // Where, how long, and what happens there
        let mut a = if !marks.is_empty() && draw(2) == 1 {
            let k = marks[draw(marks.len() as u64) as usize];
            (k + draw(6) as usize).saturating_sub(3)
        } else {
            draw(d.len() as u64) as usize
        }
        .min(d.len() - 1);
        // Damage right behind an 0xFF could turn it into a marker, which is not loss but forgery
        while a > 0 && d[a - 1] == 0xFF {
            a -= 1;
        }
        let span = match weighted(&[3, 3, 2]) {
            0 => 1 + skewed(30) as usize,
            1 => {
                // up to a marker further on
                let k = marks.iter().position(|&x| x >= a).unwrap_or(marks.len());
                let last = k + draw(8) as usize;
                marks
                    .get(last)
                    .map(|&x| (x + draw(4) as usize).saturating_sub(a))
                    .unwrap_or(d.len() - a)
                    .max(1)
            }
            _ => 1 + draw(d.len() as u64) as usize,
        };
        let kind = draw(4);
        let mut b = (a + span).min(d.len());
        if kind == 3 {
            b = a;
        }
        // Markers with a byte in a..b are lost; at most seven may be
        loop {
            let lost = marks.iter().filter(|&&x| x + 2 > a && x < b).count();
            if lost <= 7 {
                break;
            }
            b -= 1;
        }
        let rng_seed = seed();
        let mut rng = Rng::new(rng_seed, 3);
        let mut e = d[..a].to_vec();
        let garbage = |rng: &mut Rng| -> u8 { (rng.next() % 255) as u8 };
        match kind {
            0 => {
                stat(S::f_corrupt);
                for _ in a..b {
                    e.push(garbage(&mut rng));
                }
            }
            1 => stat(S::f_lost_bytes),
            2 => {
                stat(S::f_corrupt);
                for &x in &d[a..b] {
                    let y = x ^ (1 << rng.below(8));
                    e.push(if y == 0xFF { 0 } else { y });
                }
            }
            _ => {
                stat(S::f_inserted_bytes);
                for _ in 0..1 + rng.below(20) {
                    e.push(garbage(&mut rng));
                }
            }
        }
        e.extend_from_slice(&d[b..]);
        // Intervals with a byte of theirs or of their end marker in a..b
        let interval_of = |p: usize| marks.iter().filter(|&&x| x + 2 <= p).count();
        let (t0, t1) = (interval_of(a), interval_of(if b > a { b - 1 } else { a }));
        // A marker cut in half ends the interval before and the one behind it
        let t1 = t1 + marks.iter().any(|&x| x < b && b < x + 2 && b > a) as usize
            + marks.iter().any(|&x| x + 2 > a && x < b && b >= x + 2 && t1 == interval_of(x)) as usize;
        let mut got = blank(&j);
        let ok = resync(&mut got, scan, r, &e);
        let mut intact = 0;
        for mcu in 0..scan.mcus() {
            let i = mcu / r;
            if i >= t0 && i <= t1 {
                continue;
            }
            intact += 1;
            if !ok[mcu] || !same_mcu(&want, &got, scan, mcu) {
                bad!(
                    "damage-spreads",
                    "{}: damage of kind {} at {}..{} of the scan at {} touches intervals {}..={} but MCU {} of interval {} is lost",
                    spec.text(), kind, a, b, scan.at, t0, t1, mcu, i
                );
            }
        }
        if intact > 0 {
            nontrivial();
            sig(mix2(scan.at as u64, mix2(a as u64, b as u64)));
            sig(mix2(kind, rng_seed));
        }
    }
}

fn same_mcu(a: &[Comp], b: &[Comp], scan: &Scan, mcu: usize) -> bool {
    let (mx, my) = (mcu % scan.mcus_x, mcu / scan.mcus_x);
    for &(ci, _, _) in &scan.comps {
        let c = &a[ci];
        let (h, v) = if scan.comps.len() == 1 { (1, 1) } else { (c.h, c.v) };
        for y in 0..v {
            for x in 0..h {
                let k = (my * v + y) * c.pw + mx * h + x;
                if c.coef[k] != b[ci].coef[k] {
                    return false;
                }
            }
        }
    }
    true
}

// ---- C07 -----------------------------------------------------------------------------------------

const TINY: Profile = Profile {
    sizes: [1, 0, 0, 0, 0, 0],
    ..GENERAL
};

/// Single encoders of a long life
const LIFE: Profile = Profile {
    sizes: [8, 8, 2, 0, 4, 0],
    ..GENERAL
};

fn c07() {
    let n = 2 + draw(4) as usize;
    let same = draw(3) == 2;
    let mut tasks: Vec<Task> = Vec::new();
    for i in 0..n {
        let mut t = if same && i > 0 {
            // Nearly the same request: shared caches would hit
            let mut t = tasks[0].clone();
            t.nested = None;
            t.spec = t.spec.near();
            t
        } else {
            Task::draw(&TINY)
        };
        if draw(4) == 3 {
            let mut inner = Task::draw(&TINY);
            inner.file = (!inner.spec.flavor.no_std() && draw(5) == 4).then_some(10 + i);
            let want = Rc::new(pristine(|| inner.exec()));
            let at = if draw(3) == 2 {
                let k = draw(t.spec.ops.len() as u64 + 1) as usize;
                t.spec.ops.insert(k, Op::Pause);
                AT_CONFIG
            } else {
                skewed(200)
            };
            t.nested = Some((at, Box::new(inner), want));
        }
        t.file = (!t.spec.flavor.no_std() && draw(5) == 4).then_some(i);
        tasks.push(t);
    }
    phase("alone");
    let mut wants = Vec::new();
    for t in &tasks {
        describe(&t.text());
        sig(t.spec.shape());
        let mut alone = t.clone();
        alone.nested = None;
        wants.push(pristine(move || alone.exec()));
    }
    // What the threads encode behind that, in a long life
    let mut lives: Vec<Vec<(Task, Vec<u8>)>> = vec![Vec::new(); n];
    if draw(12) == 11 {
        stat(S::p_long_life);
        for life in &mut lives {
            for _ in 0..draw(3) {
                let t = Task::draw(&LIFE);
                let alone = t.clone();
                let want = pristine(move || alone.exec());
                let m = 1 + skewed((1 << 22) / (20_000 + t.spec.pixels()));
                for _ in 0..m {
                    life.push((t.clone(), want.clone()));
                }
            }
        }
    }
    phase("together");
    let switches = shm().stats[S::f_context_switch as usize] + shm().stats[S::f_nested_encode as usize];
    let results: Rc<RefCell<Vec<Option<Vec<u8>>>>> = Rc::new(RefCell::new(vec![None; n]));
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (i, t) in tasks.iter().enumerate() {
        let life = std::mem::take(&mut lives[i]);
        let c = Carry((t.clone(), results.clone(), i, life));
        jobs.push(Box::new(move || {
            let (t, results, i, life) = c.take();
            let r = t.exec();
            results.borrow_mut()[i] = Some(r);
            for (k, (t, want)) in life.iter().enumerate() {
                let got = t.exec();
                if got != *want {
                    bad!(
                        "encoders-interfere",
                        "encode {} of thread {} ({}): {} together with others, {} alone",
                        k + 1,
                        i,
                        t.text(),
                        outcome(&got),
                        outcome(want)
                    );
                }
            }
        }));
    }
    if draw(3) == 2 {
        hop::enable(1 + draw(4) as usize);
    }
    sched::run_threads(jobs);
    if shm().stats[S::f_context_switch as usize] + shm().stats[S::f_nested_encode as usize] > switches {
        nontrivial();
    }
    for (i, want) in wants.iter().enumerate() {
        let r = results.borrow();
        let Some(got) = &r[i] else {
            bad!("no-result", "encoder {} was lost", i);
        };
        if got != want {
            bad!(
                "encoders-interfere",
                "encoder {} ({}): {} together with others, {} alone",
                i,
                tasks[i].text(),
                outcome(got),
                outcome(want)
            );
        }
    }
}

// ---- C08 -----------------------------------------------------------------------------------------

/// A call that has to be rejected, or a setting that will be overridden
fn draw_noise(ops: &mut Vec<Op>, w: u16, h: u16) {
    match draw(12) {
        10 => ops.push(Op::BadScans(pick(&[0, 1, 65, 66, 128, 255, 64 + 63]))),
        // Back to a default, explicitly
        9 | 11 => ops.push(match draw(6) {
            0 => Op::Restart(0),
            1 => Op::Progressive(false),
            2 => Op::Optimize(false),
            3 => Op::Density(Dens::None),
            4 => Op::Qtables(Qt::Named(0), Qt::Named(0)),
            _ => Op::Sampling(pick(&[0, 3])),
        }),
        0 => ops.push(Op::Getters),
        1 => ops.push(Op::App(pick(&[0, 16, 17, 255, 128]), blob(seed(), skewed(40) as usize))),
        2 => ops.push(Op::App(range(0, 16) as u8, blob(seed(), 65534 + skewed(2000) as usize))),
        3 => ops.push(Op::Restart(draw_restart(w, h, 1, 1))),
        4 => ops.push(Op::Sampling(draw(16) as u8)),
        5 => ops.push(if draw(2) == 0 { Op::Scans(draw_scans()) } else { Op::Progressive(draw(2) == 1) }),
        6 => ops.push(Op::Optimize(draw(2) == 1)),
        7 => ops.push(Op::Qtables(draw_qt(), draw_qt())),
        _ => ops.push(Op::Density(draw_density())),
    }
    stat(S::f_residue_op);
}

/// Setter calls with the same final effect in any order after any noise
fn canonical(quality: u8, m: &Model) -> Vec<Op> {
    let mut v = Vec::new();
    let d = Model::of(quality, &[]);
    if m.density != d.density {
        v.push(Op::Density(m.density));
    }
    if m.sampling != d.sampling {
        v.push(Op::Sampling(m.sampling));
    }
    if m.qt != d.qt {
        v.push(Op::Qtables(m.qt[0].clone(), m.qt[1].clone()));
    }
    if let Some(n) = m.scans {
        v.push(if n == 4 { Op::Progressive(true) } else { Op::Scans(n) });
    }
    if m.restart != 0 {
        v.push(Op::Restart(m.restart));
    }
    if m.optimize {
        v.push(Op::Optimize(true));
    }
    for (n, d) in &m.apps {
        v.push(Op::App(*n, d.clone()));
    }
    v
}

fn check_ops(text: &str, m: &Model, out: &Out) {
    if out.ops != m.results[..out.ops.len().min(m.results.len())] || out.ops.len() != m.results.len() {
        bad!("wrong-call-result", "{}: {:?} instead of {:?}", text, out.ops, m.results);
    }
    if out.getters != m.getters {
        bad!("wrong-getter", "{}: {:?} instead of {:?}", text, out.getters, m.getters);
    }
}

/// A request that has to be rejected by encode itself
fn rejected(spec: &Spec, file: bool) {
    let (mut w, mut h) = (spec.w, spec.h);
    let zero = draw(2) == 1;
    let mut data: &[u8] = &spec.data;
    let mut api = spec.api;
    if zero {
        match draw(3) {
            0 => w = 0,
            1 => h = 0,
            _ => {
                w = 0;
                h = 0;
            }
        }
        if draw(3) == 2 {
            h = if h == 0 { 0 } else { 65535 };
        }
    } else {
        api = Api::Slice;
        let cut = 1 + skewed(data.len() as u64 - 1) as usize;
        data = &data[..data.len() - cut.min(data.len())];
        match draw(8) {
            0..=4 => {}
            5 => {
                w = 65535;
                h = 65535;
            }
            6 => {
                // Products of a power of two of bytes or little more, where short counters wrap around
                w = pick(&[256u64, 1 << 15, 1 << 14, 43691, 65535]) as u16;
                h = pick(&[1u64 << 15, 32769, 49152, 65535, 32771]) as u16;
            }
            _ => {
                w = range(spec.w as u64, 65535) as u16;
                h = range(spec.h as u64, 65535) as u16;
            }
        }
    }
    let mut need = w as usize * h as usize * spec.ct.bpp();
    if spec.flavor == Flavor::Bits32 {
        // The largest number there is
        need = need.min(u32::MAX as usize);
    }
    stat(S::f_rejected_request);
    let mut sink = SimSink::new(SinkPlan::default());
    let src = SimSource::new(spec).with_size(w, h);
    let file = (file && !spec.flavor.no_std()).then_some("/simfs/rejected.jpg");
    let fin = match api {
        Api::Slice => Fin::Slice { data, w, h, ct: spec.ct },
        Api::Image => Fin::Image(&src),
    };
    let job = Job { quality: spec.quality, ops: &spec.ops, fin };
    let rows = *ROWS.get();
    let r = if spec.flavor.no_std() {
        let mut n = NoStd(&mut sink);
        run_job(spec.flavor, Sink::Jfif(&mut n), &job, 0)
    } else if let Some(p) = file {
        stat(S::p_rejected_file);
        let r = run_job(spec.flavor, Sink::File(std::path::Path::new(p)), &job, 0);
        sink.calls += host::fs().content(p).map_or(0, |c| c.len()) as u64;
        if host::fs().open_fds() != 0 {
            bad!("file-left-open", "after a rejected request {}x{} on {}", w, h, spec.text());
        }
        r
    } else {
        run_job(spec.flavor, Sink::Ref(&mut sink), &job, 0)
    };
    let text = || format!("rejected request {}x{} with {} bytes on {}", w, h, data.len(), spec.text());
    if let Some(p) = &r.panic {
        bad!("panic-on-bad-request", "{}: {}", text(), p.text);
    }
    let zero_err = EncErr::ZeroImageDimensions { width: w, height: h };
    let data_err = EncErr::BadImageData { length: data.len(), required: need };
    let short = api == Api::Slice && data.len() < need;
    let ok = match r.err() {
        Some(e) => (w == 0 || h == 0) && *e == zero_err || short && *e == data_err,
        None => false,
    };
    if !ok {
        bad!("wrong-rejection", "{}: {}", text(), r.result());
    }
    if sink.calls != 0 || *ROWS.get() != rows {
        bad!(
            "rejection-has-effects",
            "{}: {} writer calls, {} rows",
            text(),
            sink.calls,
            *ROWS.get() - rows
        );
    }
}

fn history(base: &Spec) {
    let hist = draw(9);
    phase("history");
    for _ in 0..hist {
        nontrivial();
        let kind = weighted(&[4, 2, 2, 2]);
        sig(kind as u64);
        match kind {
            0 => {
                // Encodes similar to the final one are the ones whose leftovers would fit
                let mut t = Task::draw(&SMALL);
                if draw(2) == 1 {
                    t.spec = base.near();
                    if t.source_panic.is_some_and(|x| x.0 >= t.spec.h as usize) {
                        t.source_panic = None;
                    }
                }
                describe(&t.text());
                sig(t.spec.shape());
                t.exec();
            }
            1 => {
                // Dropped without having encoded anything
                let s = if draw(3) == 2 { base.near() } else { Spec::draw(&SMALL) };
                let mut ops = s.ops.clone();
                for _ in 0..draw(4) {
                    draw_noise(&mut ops, s.w, s.h);
                }
                let m = Model::of(s.quality, &ops);
                let job = Job { quality: s.quality, ops: &ops, fin: Fin::Drop };
                let mut sink = SimSink::new(SinkPlan::default());
                let r = if s.flavor.no_std() {
                    let mut n = NoStd(&mut sink);
                    run_job(s.flavor, Sink::Jfif(&mut n), &job, 0)
                } else {
                    run_job(s.flavor, Sink::Ref(&mut sink), &job, 0)
                };
                if let Some(p) = &r.panic {
                    bad!("panic", "{}: {}", s.text(), p.text);
                }
                check_ops(&s.text(), &m, &r.out);
                if !sink.data.is_empty() {
                    bad!("wrote-before-encode", "{}: {} bytes", s.text(), sink.data.len());
                }
                describe("dropped unused");
            }
            2 => {
                let s = if draw(2) == 1 { base.clone() } else { Spec::draw(&SMALL) };
                describe("rejected request");
                rejected(&s, draw(4) == 3);
            }
            _ => {
                // A source that delivers rows of the wrong length
                let s = Spec::draw(&Profile { image_api: 16, ..SMALL });
                let src = s.source();
                src.wrong_at.set(Some((
                    draw(s.h as u64) as usize,
                    if draw(2) == 0 { -1 - skewed(40) as i32 } else { 1 + skewed(40) as i32 },
                    draw(5) as usize,
                )));
                let mut sink = SimSink::new(SinkPlan::default());
                describe("wrong rows");
                s.run_sim(&mut sink, &src);
            }
        }
    }
}

/// Counters that end somewhere: a process that encodes, fails, or drops encoders a few hundred times or
/// more often than 16 bits can count, and delivers the same each time
fn long_life(spec: &Spec, want: &[u8]) {
    stat(S::p_many_encodes);
    nontrivial();
    phase("long life");
    let n = match weighted(&[20, 10, 1]) {
        0 => range(257, 700),
        1 => range(700, 2500),
        _ => range(65537, 66500),
    };
    let kind = draw(4);
    sig(mix2(n, kind));
    describe(&format!("{} after {} times {}", spec.text(), n, ["the same", "a failing writer", "dropping it unused", "a panicking writer"][kind as usize]));
    let src = spec.source();
    let fail = match kind {
        1 => Some(Fail::Kind(std::io::ErrorKind::StorageFull)),
        3 => Some(Fail::Panic(5)),
        _ => None,
    };
    let at = draw(want.len() as u64) as usize;
    // As often as the time allows
    let cost = || *crate::sched::EDGES.get() + 50 * shm().steps;
    let start = cost();
    let mut i = 0;
    while i < n && (i < 257 || (cost() - start + 5000 * i) < 1_000_000_000) {
        i += 1;
        let mut sink = SimSink::new(SinkPlan { fatal: fail.map(|f| (at, true, f, true)), ..SinkPlan::default() });
        if kind == 2 {
            let job = Job { quality: spec.quality, ops: &spec.ops, fin: Fin::Drop };
            if spec.flavor.no_std() {
                run_job(spec.flavor, Sink::Jfif(&mut NoStd(&mut sink)), &job, 0);
            } else {
                run_job(spec.flavor, Sink::Ref(&mut sink), &job, 0);
            }
            continue;
        }
        let r = spec.run_sim(&mut sink, &src);
        if kind == 0 && (!r.ok() || sink.data != want) {
            bad!("residue", "{}: encode {} of this process: {}, {}", spec.text(), i, r.result(), first_difference(&sink.data, want));
        }
        if kind != 0 && (r.ok() || sink.data != want[..at]) {
            bad!("residue", "{}: failing encode {} of this process: {}, {}", spec.text(), i, r.result(), first_difference(&sink.data, &want[..at]));
        }
    }
    phase("final encode");
    let mut sink = SimSink::new(SinkPlan::default());
    let r = spec.run_sim(&mut sink, &src);
    if !r.ok() || sink.data != want {
        bad!("residue", "{} after {} others: {}, {}", spec.text(), n, r.result(), first_difference(&sink.data, want));
    }
}

/// Does something in a destructor that runs because of a panic of somebody else
fn while_unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct Last<'a, R, F: FnOnce() -> R>(Option<F>, &'a mut Option<R>);
    impl<R, F: FnOnce() -> R> Drop for Last<'_, R, F> {
        fn drop(&mut self) {
            *self.1 = self.0.take().map(|f| f());
        }
    }
    let mut r = None;
    let last = Last(Some(f), &mut r);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _last = last;
        std::panic::panic_any(SimPanic(8));
    }));
    r.unwrap()
}

fn c08() {
    let base = Spec::draw(&SMALL);
    // The reference comes from a process that has no history
    phase("reference");
    // The final request: noise, then the settings in drawn order
    let mut ops = Vec::new();
    let noise = draw(8);
    for _ in 0..noise {
        draw_noise(&mut ops, base.w, base.h);
    }
    if noise > 0 {
        nontrivial();
        stat(S::f_setter_override);
        if draw(3) == 2 {
            let defaults = [
                Op::Restart(0),
                Op::Progressive(false),
                Op::Optimize(false),
                Op::Density(Dens::None),
                Op::Qtables(Qt::Named(0), Qt::Named(0)),
                Op::Sampling(if base.quality < 90 { 3 } else { 0 }),
            ];
            let mask = 1 + draw(63);
            for (i, d) in defaults.into_iter().enumerate() {
                if mask >> i & 1 == 1 {
                    ops.push(d);
                }
            }
        }
    }
    let mut rest = base.ops.clone();
    while !rest.is_empty() {
        let k = draw(rest.len() as u64) as usize;
        ops.push(rest.remove(k));
    }
    if draw(8) == 7 {
        ops.push(Op::Icc(vec![7; MAX_ICC + 1 + draw(2) as usize]));
    }
    let live = draw(3) == 2;
    if live {
        let k = draw(ops.len() as u64 + 1) as usize;
        ops.insert(k, Op::Pause);
    }
    ops.push(Op::Getters);
    let m = Model::of(base.quality, &ops);
    let mut spec = base.clone();
    spec.ops = ops;
    let mut clean = base.clone();
    clean.ops = canonical(base.quality, &m);
    sig(spec.shape());
    sig(noise);
    let want = pristine(|| clean.reference());
    // A process that has done the same small thing very often
    let meta: usize = spec.ops.iter().map(|o| if let Op::App(_, d) | Op::Icc(d) = o { d.len() } else { 0 }).sum();
    if spec.pixels() <= 600 && meta < 4000 && draw(60) == 59 {
        return long_life(&spec, &want);
    }
    if draw(4) == 3 {
        hop::enable(1 + draw(3) as usize);
    }
    // The history comes before the final encoder or while that is being configured
    if live {
        let base = base.clone();
        AT_PAUSE.with(|p| {
            *p.borrow_mut() = Some(Box::new(move || {
                let _off = alloc::Pause::new();
                stat(S::f_work_while_configured);
                history(&base);
                phase("final encode");
            }))
        });
    } else {
        history(&base);
    }
    phase("final encode");
    describe(&spec.text());
    let mut sink = SimSink::new(SinkPlan::default());
    let src = spec.source();
    let r = if draw(12) == 11 {
        stat(S::f_encode_while_unwinding);
        while_unwinding(|| spec.run_sim(&mut sink, &src))
    } else {
        spec.run_sim(&mut sink, &src)
    };
    check_ops(&spec.text(), &m, &r.out);
    if !r.ok() {
        bad!("valid-request-failed", "{}: {}", spec.text(), r.result());
    }
    if sink.data != want {
        bad!(
            "residue",
            "{} differs from {} in a pristine process: {}",
            spec.text(),
            clean.text(),
            first_difference(&sink.data, &want)
        );
    }
    // The configuration that has been asked for is the one that is used
    let j = parse(&spec, &sink.data);
    if let Err(e) = fidelity::headers(&spec, &m, &j) {
        bad!("wrong-configuration", "{}: {}", spec.text(), e);
    }
    if fidelity::user_segments(&spec, &j) != m.apps {
        bad!("wrong-segments", "{}", spec.text());
    }
}

// ---- C09 -----------------------------------------------------------------------------------------

/// A small request on a host with the other byte order, with a writer that may be full at some point
fn c09_big_endian() {
    let mut spec = Spec::draw(&Profile { optimize: 1, flavors: [0, 0, 1, 0], sizes: [1, 0, 0, 0, 0, 0], ..GENERAL });
    let (w, h) = (range(1, 20) as u16, range(1, 20) as u16);
    spec = Spec::build(spec.flavor, spec.quality, spec.ops, spec.api, spec.ct, w, h, spec.image.0, spec.image.1);
    spec.ops.push(Op::Getters);
    let room = if draw(4) == 3 { skewed(1500) as usize } else { 1 << 30 };
    let cut = if spec.api == Api::Slice && draw(12) == 11 { 1 + skewed(20) as usize } else { 0 };
    describe(&spec.text());
    sig(spec.shape());
    sig(mix2(spec.image.0 as u64, spec.image.1));
    phase("this host");
    let data = &spec.data[..spec.data.len() - cut.min(spec.data.len())];
    let src = spec.source();
    let mut sink = SimSink::new(SinkPlan::default());
    let mut ns = NoStd(&mut sink);
    let here = spec.run_data(Sink::Jfif(&mut ns), &src, data);
    if here.panic.is_some() || (cut == 0 && !here.ok()) {
        bad!("valid-request-failed", "{}: {}", spec.text(), here.result());
    }
    phase("big-endian host");
    let (out, bytes) =
        match be::run(spec.quality, &spec.ops, spec.api == Api::Image, data, w, h, spec.ct, room) {
            be::Answer::Done(o, d) => (o, d),
            be::Answer::Panic(t) => bad!("big-endian-panic", "{}: {}", spec.text(), t),
            be::Answer::Undefined(t) => bad!("undefined-behaviour", "{}: {}", spec.text(), t),
            be::Answer::None => {
                stat(S::cfg_big_endian_no_answer);
                return;
            }
        };
    stat(S::cfg_big_endian);
    nontrivial();
    let n = sink.data.len().min(room);
    let mut want = here.out;
    if room < sink.data.len() {
        want.fin = Some(Err(EncErr::Write("full".into())));
    }
    if out != want {
        bad!("result-depends-on-host", "{}: {:?} on a big-endian host, {:?} here", spec.text(), out, want);
    }
    if bytes != sink.data[..n] {
        bad!(
            "bytes-depend-on-host",
            "{}: a big-endian host differs: {}",
            spec.text(),
            first_difference(&sink.data[..n], &bytes)
        );
    }
}

fn c09() {
    if draw(256) == 255 {
        return c09_big_endian();
    }
    let spec = start(&GENERAL);
    sig(mix2(spec.image.0 as u64, spec.image.1));
    // A few requests are invalid: every host has to say the same about them as well
    let cut = if draw(24) == 23 { 1 + skewed(20) as usize } else { 0 };
    let mut first: Option<(String, Vec<u8>, String)> = None;
    let big = spec.pixels() > 100_000;
    // A host without AVX2 is a process of its own: what the code found out about the CPU may be kept.
    // They come first, so that nothing has been found out before.
    let hidden = if big { 1 } else { 1 + draw(2) };
    for i in 0..4 + hidden + if big { 0 } else { draw(5) } {
        phase("host");
        let mut s = spec.clone();
        let hide = i >= 1 && i <= hidden;
        let f = match i.saturating_sub(hidden) {
            _ if hide => Flavor::Simd,
            0 => Flavor::Std,
            1 => Flavor::Simd,
            2 => Flavor::NoStd,
            3 => Flavor::Bits32,
            _ => pick(&[Flavor::Simd, Flavor::Std, Flavor::Simd, Flavor::NoStd, Flavor::Bits32]),
        };
        if f == Flavor::Bits32 && !host32::available() {
            continue;
        }
        s.flavor = f;
        let mode = alloc::Mode {
            fill: draw(4) as u8,
            jitter: draw(2) == 1,
            guard: !big && draw(3) == 2,
            seed: seed(),
            budget: 3 << 30,
        };
        if draw(2) == 1 {
            draw_host();
        }
        let host = format!(
            "{:?}{} fill {} jitter {} guard {}",
            f,
            if hide { " without AVX2" } else { "" },
            mode.fill,
            mode.jitter,
            mode.guard
        );
        let n = s.data.len() - cut.min(s.data.len());
        let fence = alloc::Fenced::new(&s.data[..n], draw(2) == 0);
        let go = || {
            let src = s.source();
            let mut sink = SimSink::new(SinkPlan::default());
            alloc::set_mode(mode);
            let r = if f.no_std() {
                let mut ns = NoStd(&mut sink);
                s.run_data(Sink::Jfif(&mut ns), &src, fence.slice())
            } else {
                s.run_data(Sink::Ref(&mut sink), &src, fence.slice())
            };
            alloc::set_mode(alloc::PLAIN);
            (r.result(), r.panic.is_none() && (cut > 0 || r.ok()), sink.data)
        };
        let (result, fine, data) = if hide {
            stat(S::f_avx2_hidden);
            stat(S::cfg_simd_masked);
            let v = pristine(|| {
                va_simd::hide_avx2(true);
                *crate::isa::HIDDEN.get() = true;
                let (r, fine, mut d) = go();
                *crate::isa::HIDDEN.get() = false;
                d.push(fine as u8);
                d.extend_from_slice(&(r.len() as u32).to_le_bytes());
                d.extend_from_slice(r.as_bytes());
                d.extend_from_slice(&(r.len() as u32).to_le_bytes());
                d
            });
            let k = v.len() - 4;
            let len = u32::from_le_bytes([v[k], v[k + 1], v[k + 2], v[k + 3]]) as usize;
            let r = String::from_utf8_lossy(&v[k - len..k]).into_owned();
            let d = k - len - 5;
            (r, v[d] == 1, v[..d].to_vec())
        } else {
            go()
        };
        sig(hash_bytes(host.as_bytes()));
        match &first {
            None => {
                if !fine {
                    bad!("valid-request-failed", "{} on {}: {}", spec.text(), host, result);
                }
                first = Some((result, data, host));
            }
            Some((result0, data0, host0)) => {
                nontrivial();
                if result != *result0 {
                    bad!(
                        "result-depends-on-host",
                        "{}: {} on {}, {} on {}",
                        spec.text(), result0, host0, result, host
                    );
                }
                if data != *data0 {
                    bad!(
                        "bytes-depend-on-host",
                        "{}: {} and {} differ: {}",
                        spec.text(), host0, host, first_difference(data0, &data)
                    );
                }
            }
        }
    }
    host::boot();
}

// ---- C10 -----------------------------------------------------------------------------------------

fn check_rows(spec: &Spec, log: &[u16], complete: bool) {
    for w in log.windows(2) {
        if w[1] < w[0] {
            bad!("rows-out-of-order", "{}: row {} after row {}", spec.text(), w[1], w[0]);
        }
    }
    if complete {
        let mut seen = vec![false; spec.h as usize];
        for &y in log {
            seen[y as usize] = true;
        }
        if let Some(y) = seen.iter().position(|s| !s) {
            bad!("row-never-requested", "{}: success without row {}", spec.text(), y);
        }
    }
}

fn c10() {
    let spec = start(&Profile { image_api: 16, sizes: [2400, 400, 200, 20, 8, 1], many_mcus: 1, ..GENERAL });
    phase("reference");
    let mut sink = SimSink::new(SinkPlan::default());
    let src = spec.source();
    let r = spec.run_sim(&mut sink, &src);
    if !r.ok() {
        bad!("valid-request-failed", "{}: {}", spec.text(), r.result());
    }
    let good = sink.data;
    let log = src.log.borrow().clone();
    check_rows(&spec, &log, true);
    if log.is_empty() {
        bad!("row-never-requested", "{}: no rows", spec.text());
    }
    if draw(4) == 3 {
        // The same samples in a slice. Sources may also convert like slices are converted.
        phase("slice");
        stat(S::p_twin);
        let (a, b) = if draw(2) == 1 {
            (spec.twin(), None)
        } else {
            let mut s = Spec::draw(&Profile { image_api: 0, ..SMALL });
            s.flavor = spec.flavor;
            (s.twin(), Some(s))
        };
        let (one, other, n) = match &b {
            None => (good.clone(), a.reference(), spec.text()),
            Some(s) => (s.reference(), a.reference(), s.text()),
        };
        if one != other {
            bad!(
                "depends-on-interface",
                "{} and {}: {}",
                n,
                a.text(),
                first_difference(&one, &other)
            );
        }
    }
    for _ in 0..1 + draw(8) {
        phase("source fault");
        let at = match weighted(&[4, 1, 1]) {
            0 => draw(log.len() as u64) as usize,
            1 => 0,
            _ => log.len() - 1,
        };
        let src = spec.source();
        let plan = if draw(4) == 3 { SinkPlan::draw_benign() } else { SinkPlan::default() };
        let mut sink = SimSink::new(plan);
        sink.call_limit = 800 * (good.len() as u64 + 64 * spec.pixels()) + 20_000;
        let wrap = Wrap::draw(spec.flavor, false);
        alloc::set_mode(alloc::Mode {
            fill: draw(4) as u8,
            jitter: false,
            guard: spec.pixels() < 100_000 && draw(2) == 1,
            seed: seed(),
            budget: 3 << 30,
        });
        sig(at as u64);
        nontrivial();
        if draw(6) == 5 {
            // Not even the size is certain to be told
            let (n, id) = (skewed(60), draw(1 << 20));
            src.refuses.set(Some((n, id)));
            let (r, _) = run_wrapped(&spec, wrap, &mut sink, &src, 0);
            let text = || format!("{} via {:?}, source panics when asked for the {}th time", spec.text(), wrap, n);
            let done = src.refuses.get().is_some();
            match &r.panic {
                None if done && r.ok() => {}
                Some(p) if !done && p.payload == Some(SimPanic(id)) => {}
                _ => bad!("panic-not-passed-on", "{}: {}", text(), r.result()),
            }
            if !is_prefix(&sink.data, &good) || done && sink.data.len() != good.len() {
                bad!("not-a-prefix", "{}: {}", text(), first_difference(&sink.data, &good));
            }
        } else if draw(6) == 5 {
            // Or it is another one when asked again
            let size = |now: u16| match draw(4) {
                0 => draw(128) as u16,
                1 => now.saturating_add(1 + skewed(64) as u16),
                2 => now.saturating_sub(1 + skewed(64) as u16),
                _ => now,
            };
            let (w, h) = (size(spec.w), size(spec.h));
            let kind = match draw(3) {
                0 => pick(&[Jct::Luma, Jct::Ycbcr, Jct::Cmyk, Jct::Ycck]),
                _ => spec.ct.jct(),
            };
            src.fickle.set(Some((1 + skewed(12), w, h, kind)));
            let (r, _) = run_wrapped(&spec, wrap, &mut sink, &src, 0);
            sig(mix2(w as u64, h as u64));
            match &r.panic {
                Some(p) if p.text.contains("unsafe precondition") => {
                    bad!("memory-misuse", "{}: {}", spec.text(), p.text)
                }
                None if !r.ok() && !r.result().contains("Zero") => {
                    bad!("odd-error", "{}: {}", spec.text(), r.result())
                }
                _ => {}
            }
        } else if draw(2) == 0 {
            let id = draw(1 << 20);
            src.panic_at.set(Some((at, id)));
            let (r, _) = run_wrapped(&spec, wrap, &mut sink, &src, 0);
            let text = || format!("{} via {:?}, source panics at request {}", spec.text(), wrap, at);
            match &r.panic {
                Some(p) if p.payload == Some(SimPanic(id)) => {}
                _ => bad!("panic-not-passed-on", "{}: {}", text(), r.result()),
            }
            if src.log.borrow().len() != at + 1 {
                bad!("rows-after-panic", "{}: {} requests", text(), src.log.borrow().len());
            }
            if !is_prefix(&sink.data, &good) || sink.data.len() == good.len() {
                bad!(
                    "not-a-prefix",
                    "{}: {}",
                    text(),
                    first_difference(&sink.data, &good)
                );
            }
        } else {
            // Wrong amounts of samples, once or from then on
            let d = match draw(4) {
                0 => -1 - skewed(spec.w as u64) as i32,
                1 => 1 + skewed(3000) as i32,
                2 => 1,
                _ => i32::MIN,
            };
            src.wrong_at.set(Some((at, d, draw(5) as usize)));
            let (r, _) = run_wrapped(&spec, wrap, &mut sink, &src, 0);
            sig(d as u64);
            if let Some(p) = &r.panic {
                if p.text.contains("unsafe precondition") || p.text.contains("capacity overflow") {
                    bad!("memory-misuse", "{}: {}", spec.text(), p.text);
                }
            } else if !r.ok() {
                // An error would have to come from the writer
                bad!("odd-error", "{}: {}", spec.text(), r.result());
            }
            // Whatever it delivers, success means that every row was requested
            check_rows(&spec, &src.log.borrow(), r.ok());
        }
        alloc::set_mode(alloc::PLAIN);
    }
}

// ---- C11 -----------------------------------------------------------------------------------------

/// What may still be held back: a bit buffer of at most 128 bits, every byte of it stuffed
const BIT_BUFFER: u64 = 32;

fn c11() {
    let spec = start(&Profile { image_api: 11, sizes: [800, 200, 80, 2, 4, 0], ..GENERAL });
    phase("reference");
    let mut sink = SimSink::new(SinkPlan::default());
    let src = spec.source();
    let log: Rc<RefCell<Vec<(u16, u64)>>> = Rc::new(RefCell::new(Vec::new()));
    let l2 = log.clone();
    *src.hook.borrow_mut() = Some(Box::new(move |_, y| {
        l2.borrow_mut().push((y, *DELIVERED.get()));
    }));
    let d0 = *DELIVERED.get();
    let e0 = *sched::EDGES.get();
    let r = spec.run_sim(&mut sink, &src);
    if !r.ok() {
        bad!("valid-request-failed", "{}: {}", spec.text(), r.result());
    }
    let edges = *sched::EDGES.get() - e0;
    let calls = sink.calls;
    let good = std::mem::take(&mut sink.data);
    let n = good.len();
    // Strict order of everything: tables before the scans that use them, one EOI, nothing behind it
    let j = parse(&spec, &good);
    let m = spec.model();
    if m.interleaved() {
        if j.scans.len() != 1 {
            bad!("not-a-single-scan", "{}: {} scans", spec.text(), j.scans.len());
        }
        let rows = 8 * j.comps.iter().map(|c| c.v).max().unwrap_or(1);
        let scan = &j.scans[0];
        let mut next = 0;
        for &(y, delivered) in log.borrow().iter() {
            let band = y as usize / rows;
            if band < next || spec.api != Api::Image {
                continue;
            }
            next = band + 1;
            if band >= 2 {
                let need = scan.row_end[band - 2] as u64;
                if delivered - d0 + BIT_BUFFER < need {
                    bad!(
                        "output-lags",
                        "{}: row {} requested after {} bytes were delivered, the bands up to {} have {}",
                        spec.text(), y, delivered - d0, band - 2, need
                    );
                }
            }
        }
    }
    let pts = points(&j, &good);
    for _ in 0..1 + draw(10) {
        phase("crash");
        let layer = if spec.flavor.no_std() { 0 } else { weighted(&[4, 3, 2]) };
        let kind = draw(3);
        let mut plan = SinkPlan::default();
        if draw(3) == 2 {
            plan = SinkPlan::draw_benign();
        }
        // The machine stops at the crash: nothing that happens afterwards reaches the storage
        let mut sink = Box::new(SimSink::new(plan));
        let sp: *mut SimSink = &mut *sink;
        let path = "/simfs/crash.jpg";
        let stop = move || unsafe {
            (*sp).crashed = true;
            host::fs().crashed = true;
        };
        let mut fsplan = host::FsPlan::default();
        let at;
        match kind {
            0 => {
                at = draw(edges);
                sched::crash_after(at, Box::new(stop));
            }
            1 => {
                // Right before a writer call
                at = draw(calls);
                let mut left = at;
                sink.hook = Some(Box::new(move |_| {
                    if left == 0 {
                        stat(S::f_crash);
                        stop();
                    }
                    left = left.wrapping_sub(1);
                }));
                fsplan.space = Some(draw_offset(&pts, n));
            }
            _ => {
                // In the middle of one
                at = draw_offset(&pts, n) as u64;
                sink.crash_at = Some(at as usize);
                fsplan.space = Some(at as usize);
            }
        }
        let src = spec.source();
        let held = match layer {
            0 => {
                run_wrapped(&spec, Wrap::Direct, &mut sink, &src, 0);
                std::mem::take(&mut sink.data)
            }
            1 => {
                let cap = draw_cap();
                run_wrapped(&spec, Wrap::Buf(cap), &mut sink, &src, 0);
                stat(S::p_crash_in_buffer);
                std::mem::take(&mut sink.data)
            }
            _ => {
                let f = host::fs();
                f.crashed = false;
                f.names.clear();
                f.plan = fsplan;
                f.begin();
                spec.run_with(Sink::File(std::path::Path::new(path)), &src);
                host::fs().content(path).cloned().unwrap_or_default()
            }
        };
        let early = sched::cancel_crash();
        host::fs().crashed = false;
        if !early {
            nontrivial();
            sig(mix2(kind * 4 + layer as u64, at));
        }
        let text = || {
            format!(
                "{}: crash of kind {} at {} with layer {}",
                spec.text(), kind, at, layer
            )
        };
        if !is_prefix(&held, &good) {
            bad!("not-a-prefix", "{}: {}", text(), first_difference(&held, &good));
        }
        if held.len() < n {
            if Jpeg::parse(&held).is_ok() {
                bad!("looks-complete", "{}: {} of {} bytes form a whole image", text(), held.len(), n);
            }
            // No receiver may find an end marker in what is there
            if let Some(p) = end_marker(&held) {
                bad!("early-end-marker", "{}: EOI at {} of {}", text(), p, n);
            }
        }
    }
}

/// Offset of an end marker that a tolerant receiver would find
fn end_marker(d: &[u8]) -> Option<usize> {
    let mut p = 2;
    loop {
        while p + 1 < d.len() && d[p] != 0xFF {
            p += 1;
        }
        if p + 1 >= d.len() {
            return None;
        }
        let m = d[p + 1];
        if m == 0xD9 {
            return Some(p);
        }
        if m == 0 || m == 0xFF || (0xD0..=0xD8).contains(&m) {
            p += if m == 0xFF { 1 } else { 2 };
            continue;
        }
        if p + 3 >= d.len() {
            return None;
        }
        p += 2 + ((d[p + 2] as usize) << 8 | d[p + 3] as usize);
    }
}

// ---- C12 -----------------------------------------------------------------------------------------

fn c12() {
    let mut spec = Spec::draw(&Profile { progressive: 0, sizes: [1600, 320, 120, 4, 6, 0], ..GENERAL });
    let n = draw_scans();
    let flat = spec.clone();
    let op = if n == 4 && draw(2) == 1 { Op::Progressive(true) } else { Op::Scans(n) };
    let at = draw(spec.ops.len() as u64 + 1) as usize;
    spec.ops.insert(at, op);
    let n = n as usize;
    if n == 64 {
        stat(S::p_max_scans);
    }
    describe(&spec.text());
    sig(spec.shape());
    phase("reference");
    let good = spec.reference();
    let j = parse(&spec, &good);
    let text = || spec.text();
    if !j.progressive {
        bad!("not-progressive", "{}", text());
    }
    let mut ac = false;
    for (ci, c) in j.comps.iter().enumerate() {
        let mine: Vec<&Scan> = j
            .scans
            .iter()
            .filter(|s| s.comps.iter().any(|x| x.0 == ci))
            .collect();
        if mine.len() != n {
            bad!("wrong-number-of-scans", "{}: component {} has {} scans", text(), c.id, mine.len());
        }
        let mut next = 0;
        for s in mine {
            if s.ss != next {
                bad!("bands-out-of-order", "{}: component {} band {}..{}", text(), c.id, s.ss, s.se);
            }
            next = s.se + 1;
        }
        if next != 64 {
            bad!("bands-incomplete", "{}: component {} ends at {}", text(), c.id, next);
        }
    }
    for s in &j.scans {
        if s.ss > 0 {
            ac = true;
        } else if ac {
            bad!("dc-after-ac", "{}: a DC scan follows an AC scan", text());
        }
    }
    phase("non-progressive");
    let plain = flat.reference();
    let p = parse(&flat, &plain);
    compare_coefs(&text(), &p, &j, usize::MAX);
    if let Err(e) = fidelity::headers(&spec, &spec.model(), &j) {
        bad!("wrong-headers", "{}: {}", text(), e);
    }
    for _ in 0..1 + draw(6) {
        phase("cut");
        let k = draw(j.scans.len() as u64) as usize;
        let at = j.scans[k].end;
        // The connection dies within the next few bytes
        let mut plan = if draw(2) == 1 { SinkPlan::draw_benign() } else { SinkPlan::default() };
        let extra = draw(5) as usize;
        plan.fatal = Some(((at + extra).min(good.len() - 1), true, Fail::draw(false), true));
        let mut sink = SimSink::new(plan);
        sink.call_limit = 800 * good.len() as u64 + 20_000;
        let src = spec.source();
        spec.run_sim(&mut sink, &src);
        stat(S::f_truncate);
        if sink.data.len() < at || sink.data[..at] != good[..at] {
            bad!(
                "scan-not-delivered",
                "{}: scan {} ends at {} but {} bytes arrived",
                text(), k, at, sink.data.len()
            );
        }
        let mut cut = sink.data;
        cut.truncate(at);
        cut.extend_from_slice(&[0xFF, 0xD9]);
        match Jpeg::parse(&cut) {
            Ok(c) => {
                nontrivial();
                sig(k as u64);
                sig(extra as u64);
                compare_coefs(&text(), &p, &c, k);
                // Every component that has been announced is there for the whole frame
                let dc = j.scans[..=k].iter().flat_map(|s| s.comps.iter().map(move |x| (x.0, s.ss, s.se)));
                let mut seen = vec![0u64; j.comps.len()];
                for (ci, ss, se) in dc {
                    seen[ci] |= (!0u64 << ss) & (!0u64 >> (63 - se));
                }
                for (x, s) in c.comps.iter().zip(&seen) {
                    if x.seen != *s {
                        bad!("cut-lost-a-band", "{}: after scan {}", text(), k);
                    }
                }
            }
            Err(e) => bad!("cut-not-decodable", "{}: cut after scan {}: {}", text(), k, e),
        }
    }
}

/// The coefficients received by `b` are those of `a`, the others are zero
fn compare_coefs(text: &str, a: &Jpeg, b: &Jpeg, cut: usize) {
    for (x, y) in a.comps.iter().zip(&b.comps) {
        for by in 0..y.bh {
            for bx in 0..y.bw {
                let (p, q) = (&x.coef[by * x.pw + bx], &y.coef[by * y.pw + bx]);
                for k in 0..64 {
                    let want = if y.seen >> k & 1 == 1 { p[k] } else { 0 };
                    if q[k] != want {
                        bad!(
                            "coefficients-differ",
                            "{}: component {} block {},{} coefficient {} is {} instead of {} (cut {})",
                            text, y.id, bx, by, k, q[k], want, cut as isize
                        );
                    }
                }
            }
        }
    }
    if a.comps.len() != b.comps.len() {
        bad!("components-differ", "{}", text);
    }
}

// ---- C13 -----------------------------------------------------------------------------------------

fn draw_icc_size() -> usize {
    let chunk = ICC_CHUNK as u64;
    let n = match weighted(&[6, 3, 5, 2, 1]) {
        0 => skewed(5000),
        1 => range(1, 3 * chunk),
        2 => {
            let k = range(1, 5);
            (k * chunk + draw(5)).saturating_sub(2)
        }
        3 => {
            stat(S::p_icc_many_chunks);
            let k = pick(&[16, 32, 33, 100, 127, 128, 129, 200]);
            (k * chunk + draw(5)).saturating_sub(2)
        }
        _ => {
            stat(S::p_icc_many_chunks);
            let k = pick(&[253, 254, 255]);
            (k * chunk + draw(3)).saturating_sub(1)
        }
    };
    n.min(MAX_ICC as u64 + 1) as usize
}

/// What a receiver makes of the ICC chunks it gets: the profile, or None if it notices that it is not whole
fn receive_icc(segs: &[(u8, Vec<u8>)]) -> Result<Option<Vec<u8>>, String> {
    let chunks: Vec<&Vec<u8>> = segs
        .iter()
        .filter(|s| s.0 == 2 && s.1.starts_with(b"ICC_PROFILE\0"))
        .map(|s| &s.1)
        .collect();
    if chunks.is_empty() {
        return Ok(None);
    }
    let n = chunks[0].get(13).copied().unwrap_or(0) as usize;
    let mut parts: Vec<Option<&[u8]>> = vec![None; n];
    for c in chunks {
        if c.len() < 14 {
            return Err("chunk without a number".into());
        }
        let (seq, count) = (c[12] as usize, c[13] as usize);
        if count != n {
            return Err(format!("chunk counts {} and {}", n, count));
        }
        if seq == 0 || seq > n {
            return Err(format!("chunk {} of {}", seq, n));
        }
        match parts[seq - 1] {
            Some(p) if p != &c[14..] => return Err(format!("two different chunks {}", seq)),
            _ => parts[seq - 1] = Some(&c[14..]),
        }
    }
    if parts.iter().any(|p| p.is_none()) {
        return Ok(None);
    }
    Ok(Some(parts.into_iter().flatten().flatten().copied().collect()))
}

fn c13() {
    let mut spec = Spec::draw(&Profile { meta: 0, sizes: [1, 0, 0, 0, 0, 0], ..GENERAL });
    let bare = spec.clone();
    let mut iccs: Vec<Vec<u8>> = Vec::new();
    let mut foreign = false;
    for _ in 0..1 + draw(6) {
        let op = match weighted(&[5, 4, 1, 2]) {
            3 => match draw_related(&spec.ops) {
                Some(Op::Icc(b)) => {
                    if b.len() <= MAX_ICC && !b.is_empty() {
                        iccs.push(b.clone());
                    }
                    Op::Icc(b)
                }
                Some(Op::App(nr, d)) => {
                    foreign |= nr == 2 && d.starts_with(b"ICC_PROFILE\0");
                    Op::App(nr, d)
                }
                _ => Op::App(1, Vec::new()),
            },
            0 => {
                let n = match weighted(&[5, 2, 2]) {
                    0 => skewed(300),
                    1 => skewed(65533),
                    _ => pick(&[0, 65533, 65532, 255, 256, 65535 - 255, 65534, 65535, 65536]),
                } as usize;
                let nr = if draw(8) == 7 { pick(&[0, 16, 255]) } else { range(1, 15) as u8 };
                let mut b = blob(seed(), n);
                match draw(12) {
                    10 if n > 12 => b[..12].copy_from_slice(b"Adobe\0d\0\0\0\0\0"),
                    11 if n > 14 => {
                        b[..12].copy_from_slice(b"ICC_PROFILE\0");
                        foreign |= nr == 2;
                    }
                    9 if n > 5 => b[..5].copy_from_slice(b"JFIF\0"),
                    _ => {}
                }
                Op::App(nr, b)
            }
            1 => {
                let n = draw_icc_size();
                let b = blob(seed(), n);
                if n <= MAX_ICC && n > 0 {
                    iccs.push(b.clone());
                }
                Op::Icc(b)
            }
            _ => Op::Density(draw_density()),
        };
        let at = draw(spec.ops.len() as u64 + 1) as usize;
        spec.ops.insert(at, op);
    }
    describe(&spec.text());
    sig(spec.shape());
    for o in &spec.ops {
        match o {
            Op::App(n, d) => sig(mix2(*n as u64, d.len() as u64)),
            Op::Icc(d) => sig(d.len() as u64),
            _ => {}
        }
    }
    phase("encode");
    let m = spec.model();
    let wrap = Wrap::draw(spec.flavor, false);
    let mut plan = if draw(2) == 1 { SinkPlan::draw_benign() } else { SinkPlan::default() };
    let total: usize = m.apps.iter().map(|a| a.1.len()).sum();
    if total > 300_000 {
        // Byte by byte takes too long for megabytes
        plan.takes.iter_mut().for_each(|t| *t *= 1000);
    }
    let mut sink = SimSink::new(plan.clone());
    let src = spec.source();
    let (r, _) = run_wrapped(&spec, wrap, &mut sink, &src, 0);
    if r.out.ops != m.results {
        bad!("wrong-call-result", "{}: {:?} instead of {:?}", spec.text(), r.out.ops, m.results);
    }
    if !r.ok() {
        bad!("valid-request-failed", "{}: {}", spec.text(), r.result());
    }
    let j = parse(&spec, &sink.data);
    let segs = fidelity::user_segments(&spec, &j);
    if segs.len() != m.apps.len() {
        bad!("segments-differ", "{}: {} segments instead of {}", spec.text(), segs.len(), m.apps.len());
    }
    for (i, (a, b)) in segs.iter().zip(&m.apps).enumerate() {
        if a.0 != b.0 || a.1.len() != b.1.len() {
            bad!(
                "segments-differ",
                "{}: segment {} is APP{} with {} bytes instead of APP{} with {}",
                spec.text(), i, a.0, a.1.len(), b.0, b.1.len()
            );
        }
        // How a profile is cut into chunks is the encoder's business, so chunk data is judged below
        if a.1 != b.1 {
            bad!("segments-differ", "{}: segment {} has other content", spec.text(), i);
        }
    }
    // All of them before the image data
    let first_other = j
        .segs
        .iter()
        .position(|s| !(0xE0..=0xEF).contains(&s.marker))
        .unwrap_or(0);
    if j.segs[first_other..].iter().any(|s| (0xE0..=0xEF).contains(&s.marker)) {
        bad!("segment-too-late", "{}", spec.text());
    }
    if !m.apps.is_empty() {
        nontrivial();
    }
    // Everything else is what it is without metadata
    let mut d = bare.clone();
    for o in &spec.ops {
        if let Op::Density(_) = o {
            d.ops.push(o.clone());
        }
    }
    let without = d.reference();
    let k = parse(&d, &without);
    let tail = |j: &Jpeg, b: &[u8]| -> Vec<u8> {
        let s = j.segs.iter().find(|s| !(0xE0..=0xEF).contains(&s.marker));
        b[s.map(|s| s.at).unwrap_or(0)..].to_vec()
    };
    if tail(&j, &sink.data) != tail(&k, &without) {
        bad!(
            "image-depends-on-metadata",
            "{}: {}",
            spec.text(),
            first_difference(&tail(&j, &sink.data), &tail(&k, &without))
        );
    }
    if iccs.len() != 1 || foreign {
        return;
    }
    let profile = &iccs[0];
    for _ in 0..1 + draw(8) {
        phase("transport");
        let mut s = segs.clone();
        let mut lost = false;
        let nchunks = s.iter().filter(|x| x.0 == 2 && x.1.starts_with(b"ICC_PROFILE\0")).count();
        // Reorder, with foreign segments in between
        if draw(4) > 0 {
            stat(S::f_chunk_reorder);
            let mut rng = Rng::new(seed(), 8);
            for i in (1..s.len()).rev() {
                s.swap(i, rng.below(i as u64 + 1) as usize);
            }
        }
        for _ in 0..draw(3) {
            let at = draw(s.len() as u64 + 1) as usize;
            s.insert(at, (range(0, 15) as u8, blob(seed(), 20)));
        }
        if draw(3) == 2 {
            stat(S::f_chunk_duplicate);
            let at = draw(s.len() as u64) as usize;
            let c = s[at].clone();
            s.push(c);
        } else if draw(2) == 1 && nchunks > 0 {
            stat(S::f_chunk_loss);
            let which = draw(nchunks as u64) as usize;
            let at = s
                .iter()
                .enumerate()
                .filter(|(_, x)| x.0 == 2 && x.1.starts_with(b"ICC_PROFILE\0"))
                .nth(which)
                .map(|x| x.0)
                .unwrap_or(0);
            s.remove(at);
            lost = true;
        }
        sig(s.len() as u64);
        sig(lost as u64);
        match receive_icc(&s) {
            Ok(Some(p)) => {
                if lost || p != *profile {
                    bad!(
                        "profile-differs",
                        "{}: rebuilt {} bytes of {}, lost a chunk: {}",
                        spec.text(), p.len(), profile.len(), lost
                    );
                }
            }
            Ok(None) if lost => {}
            Ok(None) => bad!("profile-lost", "{}: the receiver misses a chunk", spec.text()),
            Err(e) => bad!("profile-inconsistent", "{}: {}", spec.text(), e),
        }
    }
}

// ---- C14 -----------------------------------------------------------------------------------------

/// A writer that keeps nothing
struct Null(u64);
impl std::io::Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl NsSink for Null {
    fn write_all(&mut self, b: &[u8]) -> Result<(), EncErr> {
        self.0 += b.len() as u64;
        Ok(())
    }
    fn flush(&mut self) -> Result<(), EncErr> {
        Ok(())
    }
}

fn run_null(s: &Spec) -> (Ran, usize) {
    let src = s.source();
    let mut n = Null(0);
    let st = alloc::ST.get();
    let before = st.live;
    alloc::reset_peak();
    let r = if s.flavor.no_std() {
        s.run_with(Sink::Jfif(&mut n), &src)
    } else {
        s.run_with(Sink::Ref(&mut n), &src)
    };
    (r, st.peak - before)
}

/// Measured on the unchanged code: at most 54 KiB
const STACK: usize = 192 << 10;

fn stack_fits(r: &Ran, what: &str) {
    if r.stack > STACK {
        bad!("stack-too-deep", "{}: {} bytes", what, r.stack);
    }
}

fn limited(budget: usize) {
    let live = alloc::ST.get().live;
    alloc::set_mode(alloc::Mode {
        budget: live + budget,
        ..alloc::PLAIN
    });
}

const SLACK: usize = 256 << 10;

fn c14() {
    if let Some(k) = directed::drawn() {
        return directed::run("C14", k);
    }
    let kind = weighted(&[4, 4, 3]);
    sig(kind as u64);
    match kind {
        0 => {
            // Single-scan mode: the same width and configuration at growing heights
            let mut spec = Spec::draw(&Profile {
                progressive: 0,
                optimize: 0,
                sizes: [10, 3, 1, 0, 0, 0],
                ..GENERAL
            });
            spec.ops.retain(|o| match o {
                Op::Sampling(s) => {
                    let f = SAMPLINGS[*s as usize];
                    f.1 <= 2 && f.2 <= 2
                }
                _ => true,
            });
            let w = (spec.w as u64).min(if draw(8) == 7 { 3000 } else { 120 }) as u16;
            let at = |h: u64| {
                Spec::build(
                    spec.flavor, spec.quality, spec.ops.clone(), spec.api, spec.ct, w, h as u16,
                    spec.image.0, spec.image.1,
                )
            };
            let h0 = range(1, 40);
            let limit = (400_000 / w as u64).clamp(300, 65535);
            let h1 = range(200, limit);
            describe(&at(h1).text());
            sig(at(h1).shape());
            phase("low image");
            let (r0, p0) = run_null(&at(h0));
            let tall = at(h1);
            phase("tall image");
            // Metadata is part of the configuration and the same for both. Nothing may grow but noise.
            let allowed = p0 + 2048;
            limited(allowed + (64 << 20));
            let (r1, p1) = run_null(&tall);
            alloc::set_mode(alloc::PLAIN);
            if !r0.ok() || !r1.ok() {
                bad!("valid-request-failed", "{}: {} {}", tall.text(), r0.result(), r1.result());
            }
            stack_fits(&r1, &tall.text());
            if p1 > allowed {
                bad!(
                    "heap-grows-with-height",
                    "{}: {} bytes at height {}, {} at height {}",
                    tall.text(), p0, h0, p1, h1
                );
            }
            nontrivial();
        }
        1 => {
            let mut spec = start(&Profile {
                sizes: [8, 4, 3, 1, 1, 0],
                ..GENERAL
            });
            // What a source does with the buffers is not the encoder's
            spec.style = 0;
            let m = spec.model();
            let (mut hm, mut vm) = (m.h, m.v);
            if spec.ct == Ct::Luma {
                (hm, vm) = (1, 1);
            }
            let pw = (spec.w as usize).div_ceil(8 * hm) * 8 * hm;
            let ph = (spec.h as usize).div_ceil(8 * vm) * 8 * vm;
            let meta = spec.meta() as usize;
            let samples = pw * ph * spec.comps();
            let budget = 8 * samples + 2 * meta + SLACK;
            phase("encode with the heap limited to the budget");
            limited(budget);
            let refused = alloc::ST.get().refused;
            let (r, peak) = run_null(&spec);
            alloc::set_mode(alloc::PLAIN);
            if !r.ok() {
                bad!("valid-request-failed", "{}: {}", spec.text(), r.result());
            }
            stack_fits(&r, &spec.text());
            if peak > budget || alloc::ST.get().refused != refused {
                bad!(
                    "over-budget",
                    "{}: {} bytes for {} samples",
                    spec.text(), peak, samples
                );
            }
            nontrivial();
        }
        _ => {
            let spec = start(&Profile { sizes: [1, 0, 0, 0, 0, 0], ..GENERAL });
            let meta = spec.meta() as usize;
            phase("rejected request with a tiny heap");
            stat(S::f_rejected_request);
            let slice = draw(2) == 0;
            let (w, h) = match draw(5) {
                0 => (65535, 65535),
                4 => (
                    pick(&[1u64 << 15, 1 << 14, 43691, 65535]) as u16,
                    pick(&[1u64 << 15, 32769, 49152, 65535]) as u16,
                ),
                1 => (range(20_000, 65535) as u16, range(20_000, 65535) as u16),
                2 => (0, 65535),
                _ => (65535, 0),
            };
            let data = vec![0u8; skewed(4000) as usize];
            let src = SimSource::new(&spec).with_size(w, h);
            let fin = if slice || (w > 0 && h > 0) {
                Fin::Slice { data: &data, w, h, ct: spec.ct }
            } else {
                Fin::Image(&src)
            };
            let job = Job { quality: spec.quality, ops: &spec.ops, fin };
            sig(mix2(w as u64, h as u64));
            limited((64 << 10) + 2 * meta);
            let mut n = Null(0);
            let r = if spec.flavor.no_std() {
                run_job(spec.flavor, Sink::Jfif(&mut n), &job, 0)
            } else {
                run_job(spec.flavor, Sink::Ref(&mut n), &job, 0)
            };
            alloc::set_mode(alloc::PLAIN);
            stack_fits(&r, "rejected request");
            match r.err() {
                Some(EncErr::BadImageData { .. }) | Some(EncErr::ZeroImageDimensions { .. })
                    if r.panic.is_none() => {}
                _ => bad!("bad-request-not-rejected", "{}x{} {}: {}", w, h, spec.text(), r.result()),
            }
            nontrivial();
        }
    }
    let _ = Cell::new(0);
}

// ---- C19 -----------------------------------------------------------------------------------------

/// What an execution of the code under test cost
#[derive(Clone, Copy, Debug)]
struct Effort {
    steps: u64,
    allocated: u64,
    moved: u64,
}

fn effort() -> Effort {
    Effort {
        steps: *sched::EDGES.get(),
        allocated: alloc::ST.get().total,
        moved: *alloc::MOVED.get(),
    }
}

/// What a request may cost. Measured on the unchanged code the estimate is exceeded by no request and most
/// need less than half of it.
struct Allowance {
    estimate: u64,
    memory: u64,
    rows: u64,
}

fn allowance(spec: &Spec, out: u64) -> Allowance {
    let m = spec.model();
    let (mut hm, mut vm) = (m.h as u64, m.v as u64);
    if spec.ct == Ct::Luma {
        (hm, vm) = (1, 1);
    }
    let pw = (spec.w as u64).div_ceil(8 * hm) * 8 * hm;
    let ph = (spec.h as u64).div_ceil(8 * vm) * 8 * vm;
    let samples = pw * ph * spec.comps() as u64;
    let scans = m.scans.unwrap_or(1) as u64;
    let meta = spec.meta();
    let tables = if m.optimize { 600_000 } else { 0 };
    Allowance {
        estimate: 8 * samples + 8 * out + 5 * samples / 64 * scans + tables,
        memory: (1 << 20) + 16 * samples + 8 * out + 4 * meta,
        rows: 16 + 4 * ph,
    }
}

fn check_effort(text: &str, a: &Allowance, more: u64, from: Effort, rows: usize) {
    let now = effort();
    let steps = now.steps - from.steps;
    let may = 2_000_000 + 4 * a.estimate + more;
    ev("steps", steps, may);
    if steps > may {
        bad!("too-many-steps", "{}: {} instead of at most {}", text, steps, may);
    }
    let (allocated, moved) = (now.allocated - from.allocated, now.moved - from.moved);
    if allocated > a.memory {
        bad!("too-much-allocated", "{}: {} bytes altogether instead of at most {}", text, allocated, a.memory);
    }
    if moved > a.memory {
        bad!("too-much-moved", "{}: {} bytes instead of at most {}", text, moved, a.memory);
    }
    if rows as u64 > a.rows {
        bad!("too-many-rows", "{}: {} requests", text, rows);
    }
}

fn c19() {
    let mut spec = start(&Profile { sizes: [160, 80, 120, 60, 60, 4], ..GENERAL });
    spec.style = 0;
    // What is spent on metadata must not depend on how much of it there is already
    match draw(12) {
        11 => {
            let (s, each) = (seed(), skewed(300));
            for i in 0..range(1, 400) {
                spec.ops.push(Op::App(1 + (i % 15) as u8, blob(mix2(s, i), each as usize)));
            }
        }
        10 => spec.ops.push(Op::Icc(blob(seed(), skewed(3 << 20) as usize))),
        _ => {}
    }
    phase("complete");
    let src = spec.source();
    let mut n = Null(0);
    let before = effort();
    let r = if spec.flavor.no_std() {
        spec.run_with(Sink::Jfif(&mut n), &src)
    } else {
        spec.run_with(Sink::Ref(&mut n), &src)
    };
    if !r.ok() {
        bad!("valid-request-failed", "{}: {}", spec.text(), r.result());
    }
    let a = allowance(&spec, n.0);
    check_effort(&spec.text(), &a, 0, before, src.log.borrow().len());
    let whole = effort().steps - before.steps;
    nontrivial();
    if spec.pixels() > 200_000 {
        return;
    }
    for _ in 0..draw(4) {
        phase("with faults");
        let mut t = Task::new(spec.clone());
        t.wrap = Wrap::draw(t.spec.flavor, true);
        t.plan = SinkPlan::draw_benign();
        match draw(4) {
            0 => {}
            1 if t.spec.api == Api::Image => t.source_panic = Some((draw(t.spec.h as u64) as usize, draw(1 << 20))),
            2 => t.plan.flush_fail = Some((0, Fail::draw(true))),
            _ => t.plan.fatal = Some((draw(n.0) as usize, draw(2) == 1, Fail::draw(true), draw(2) == 1)),
        }
        let mut sink = SimSink::new(t.plan.clone());
        sink.call_limit = 800 * n.0 + 20_000;
        let src = t.spec.source();
        src.panic_at.set(t.source_panic);
        let before = effort();
        let (_, _) = run_wrapped(&t.spec, t.wrap, &mut sink, &src, n.0 as usize);
        sig(mix2(sink.calls, sink.data.len() as u64));
        // Buffering and retrying costs something for every byte and every call. A fault saves work.
        let more = 40 * n.0 + 200 * (sink.calls + sink.eintrs);
        check_effort(&t.text(), &a, more, before, src.log.borrow().len());
        let steps = effort().steps - before.steps;
        if steps > 2 * whole + more + 100_000 {
            bad!(
                "faults-cost-steps",
                "{}: {} steps with faults, {} without",
                t.text(), steps, whole
            );
        }
    }
    if draw(4) == 3 {
        phase("rejected request");
        stat(S::f_rejected_request);
        let (w, h) = match draw(4) {
            0 => (65535, 65535),
            1 => (range(20_000, 65535) as u16, range(20_000, 65535) as u16),
            2 => (0, 65535),
            _ => (65535, 0),
        };
        let data = blob(seed(), skewed(4000) as usize);
        let src = SimSource::new(&spec).with_size(w, h);
        let fin = if draw(2) == 0 || (w > 0 && h > 0) {
            Fin::Slice { data: &data, w, h, ct: spec.ct }
        } else {
            Fin::Image(&src)
        };
        let job = Job { quality: spec.quality, ops: &spec.ops, fin };
        let before = effort();
        let mut n = Null(0);
        let r = if spec.flavor.no_std() {
            run_job(spec.flavor, Sink::Jfif(&mut n), &job, 0)
        } else {
            run_job(spec.flavor, Sink::Ref(&mut n), &job, 0)
        };
        let steps = effort().steps - before.steps;
        let meta = spec.meta();
        if r.ok() {
            bad!("bad-request-not-rejected", "{}x{} {}", w, h, spec.text());
        }
        if steps > 500_000 + 10 * meta {
            bad!("rejection-costs-steps", "{}x{} {}: {} steps", w, h, spec.text(), steps);
        }
    }
}

// ---- C21 -----------------------------------------------------------------------------------------

fn c21() {
    let spec = Spec::draw(&Profile { sizes: [1700, 500, 150, 4, 6, 0], ..GENERAL });
    let mut plain = spec.clone();
    plain.ops.retain(|o| matches!(o, Op::Sampling(_) | Op::Qtables(..)));
    describe(&plain.text());
    sig(plain.shape());
    phase("one way");
    let first = plain.reference();
    let want = parse(&plain, &first);
    let ways = if plain.pixels() > 1 << 20 { 2 } else { 2 + draw(5) };
    for _ in 0..ways {
        let mut s = if draw(4) == 3 { plain.twin() } else { plain.clone() };
        // Everything that is not the picture, in any order
        let other = Spec::draw(&Profile { sizes: [1, 0, 0, 0, 0, 0], ..GENERAL });
        s.flavor = other.flavor;
        let mut at = 0;
        for o in other.ops {
            if !matches!(o, Op::Sampling(_) | Op::Qtables(..)) {
                at += draw((s.ops.len() - at) as u64 + 1) as usize;
                s.ops.insert(at, o);
                at += 1;
            }
        }
        describe(&s.text());
        sig(s.shape());
        if draw(3) == 2 {
            phase("attempt");
            let mut plan = SinkPlan::draw_benign();
            let at = skewed(2 * first.len() as u64) as usize;
            plan.fatal = Some((at, draw(2) == 1, Fail::draw(s.flavor != Flavor::Bits32), true));
            let mut sink = SimSink::new(plan);
            sink.call_limit = 2000 * first.len() as u64 + 200_000;
            let src = s.source();
            s.run_sim(&mut sink, &src);
        }
        phase("another way");
        let wrap = Wrap::draw(s.flavor, true);
        let plan = if draw(2) == 1 { SinkPlan::draw_benign() } else { SinkPlan::default() };
        let mut sink = SimSink::new(plan);
        let src = s.source();
        let meta: usize = s.model().apps.iter().map(|a| a.1.len() + 4).sum();
        let room = 4096 + meta + 64 * 64 * 4 * s.pixels() as usize / 16;
        let (r, _) = run_wrapped(&s, wrap, &mut sink, &src, if wrap == Wrap::CursorSlice { room } else { 0 });
        if !r.ok() {
            bad!("valid-request-failed", "{} via {:?}: {}", s.text(), wrap, r.result());
        }
        let j = parse(&s, &sink.data);
        if sink.data != first {
            nontrivial();
        }
        let text = s.text();
        if (j.w, j.h) != (want.w, want.h) {
            bad!("size-differs", "{}: {}x{}", text, j.w, j.h);
        }
        for (a, b) in want.comps.iter().zip(&j.comps) {
            if (a.id, a.h, a.v) != (b.id, b.h, b.v) {
                bad!("components-differ", "{}: {} {}x{} is {} {}x{}", text, a.id, a.h, a.v, b.id, b.h, b.v);
            }
            if want.q[a.tq as usize] != j.q[b.tq as usize] {
                bad!("quantization-differs", "{}: component {}", text, a.id);
            }
        }
        compare_coefs(&text, &want, &j, usize::MAX);
    }
}

// ---- C20 -----------------------------------------------------------------------------------------

/// A piece of work that may be repeated
enum Work {
    Encode(Task),
    File(Spec, host::FsPlan, Option<usize>),
    /// Width, height and bytes of data of a request that has to be rejected
    Reject(Spec, u16, u16, Vec<u8>),
    Unused(Spec, Wrap),
}

impl Work {
    fn draw(n: usize) -> Work {
        let p = Profile { sizes: [40, 8, 3, 0, 1, 0], ..GENERAL };
        match weighted(&[8, 3, 2, 2]) {
            0 => loop {
                let t = Task::draw(&p);
                // There a panic ends the machine
                if t.spec.flavor == Flavor::Bits32 && (t.source_panic.is_some() || t.plan.panics()) {
                    continue;
                }
                break Work::Encode(t);
            },
            1 => {
                let spec = Spec::draw(&Profile { flavors: [1, 1, 0, 0], ..p });
                let mut plan = host::FsPlan::default();
                if draw(2) == 1 {
                    let b = SinkPlan::draw_benign();
                    plan.takes = b.takes;
                    plan.eintr = b.eintr;
                }
                let at = skewed(600 + spec.pixels() / 2) as usize;
                match draw(4) {
                    0 => {}
                    1 => {
                        plan.write_error = Some((at, pick(&[5, 28, 122, 27, 32]), draw(2) == 1));
                        plan.partial = draw(2) == 1;
                    }
                    2 => plan.space = Some(at),
                    _ => plan.open_error = Some(pick(&[13, 2, 24, 30])),
                }
                let panics = (spec.api == Api::Image && draw(3) == 2).then(|| draw(spec.h as u64) as usize);
                let _ = n;
                Work::File(spec, plan, panics)
            }
            2 => {
                let spec = Spec::draw(&p);
                let (w, h) = pick(&[(65535u64, 65535u64), (0, 7), (9, 0), (0, 0), (300, 300)]);
                let data = blob(seed(), skewed(4000) as usize);
                Work::Reject(spec, w as u16, h as u16, data)
            }
            _ => {
                let spec = Spec::draw(&p);
                let wrap = Wrap::draw(spec.flavor, true);
                Work::Unused(spec, wrap)
            }
        }
    }

    fn text(&self) -> String {
        match self {
            Work::Encode(t) => t.text(),
            Work::File(s, p, n) => format!("{} to a file with {:?}, source panics at {:?}", s.text(), p, n),
            Work::Reject(s, w, h, d) => format!("{}x{} with {} bytes like {}", w, h, d.len(), s.text()),
            Work::Unused(s, _) => format!("{}, dropped", s.text()),
        }
    }

    fn pixels(&self) -> u64 {
        match self {
            Work::Encode(t) => t.spec.pixels(),
            Work::File(s, ..) => s.pixels(),
            Work::Reject(..) | Work::Unused(..) => 0,
        }
    }

    /// Another piece of work of the same kind that is not larger
    fn other(&self, k: u64) -> Work {
        let vary = |s: &Spec| -> Spec {
            let r = mix2(k, 2020);
            let mut ops = s.ops.clone();
            for op in &mut ops {
                match op {
                    Op::App(_, d) | Op::Icc(d) => d.iter_mut().for_each(|b| *b ^= k as u8),
                    Op::Density(d @ (Dens::Inch(..) | Dens::Cm(..))) => {
                        *d = Dens::Inch(1 + k as u16, 1 + (r >> 20) as u16)
                    }
                    Op::Restart(n) if *n > 0 => *n = (*n ^ (k as u16 & 0x3F)).max(1),
                    Op::Qtables(a, b) => {
                        for t in [a, b] {
                            if let Qt::Custom(v) = t {
                                v.iter_mut().for_each(|q| *q = (*q ^ (k as u16 & 0x3F)).max(1));
                            }
                        }
                    }
                    _ => {}
                }
            }
            let less = |n: u16, r: u64| n - (r % n.max(1) as u64).min(n as u64 / 2) as u16;
            let (w, h) = (less(s.w, k), less(s.h, k / 3));
            let mut o = Spec::build(
                s.flavor,
                1 + ((s.quality as u64 + k * 7) % 100) as u8,
                ops,
                s.api,
                s.ct,
                w,
                h,
                s.image.0,
                s.image.1 ^ r,
            );
            o.extra = s.extra;
            o.style = s.style;
            if o.extra > 0 {
                let n = o.data.len() + o.extra;
                std::rc::Rc::make_mut(&mut o.data).resize(n, 77);
            }
            o
        };
        match self {
            Work::Encode(t) => {
                let mut o = Task::new(vary(&t.spec));
                o.wrap = t.wrap;
                o.plan = t.plan.clone();
                o.source_panic = t.source_panic;
                Work::Encode(o)
            }
            Work::File(s, plan, panics) => Work::File(vary(s), plan.clone(), *panics),
            Work::Reject(s, w, h, d) => Work::Reject(vary(s), *w, *h, d.clone()),
            Work::Unused(s, wrap) => Work::Unused(vary(s), *wrap),
        }
    }

    /// A number for the outcome
    fn exec(&self) -> u64 {
        match self {
            Work::Encode(t) => hash_bytes(&t.exec()),
            Work::File(spec, plan, panics) => {
                let f = host::fs();
                f.plan = plan.clone();
                f.begin();
                let src = spec.source();
                src.panic_at.set(panics.map(|n| (n, 20)));
                let r = spec.run_with(Sink::File(std::path::Path::new("/simfs/out.jpg")), &src);
                host::fs().plan = host::FsPlan::default();
                hash_bytes(r.result().as_bytes())
            }
            Work::Reject(spec, w, h, data) => {
                let src = SimSource::new(spec).with_size(*w, *h);
                let fin = if *w > 0 && *h > 0 || data.len() % 2 == 0 {
                    Fin::Slice { data, w: *w, h: *h, ct: spec.ct }
                } else {
                    Fin::Image(&src)
                };
                let job = Job { quality: spec.quality, ops: &spec.ops, fin };
                let mut n = Null(0);
                let r = match spec.flavor.no_std() {
                    true => run_job(spec.flavor, Sink::Jfif(&mut n), &job, 0),
                    false => run_job(spec.flavor, Sink::Owned(Own(&mut n)), &job, 0),
                };
                hash_bytes(r.result().as_bytes())
            }
            Work::Unused(spec, wrap) => {
                let job = Job { quality: spec.quality, ops: &spec.ops, fin: Fin::Drop };
                let mut n = Null(0);
                let r = match (spec.flavor.no_std(), wrap) {
                    (true, _) => run_job(spec.flavor, Sink::Jfif(&mut n), &job, 0),
                    (_, Wrap::Direct | Wrap::Owned | Wrap::Vec) => {
                        run_job(spec.flavor, Sink::Owned(Own(&mut n)), &job, 0)
                    }
                    (_, Wrap::Jfif) => run_job(spec.flavor, Sink::Jfif(&mut n), &job, 0),
                    (_, Wrap::Buf(c)) => run_job(spec.flavor, Sink::Buf(*c, &mut n), &job, 0),
                    _ => run_job(spec.flavor, Sink::File(std::path::Path::new("/simfs/unused.jpg")), &job, 0),
                };
                hash_bytes(r.result().as_bytes())
            }
        }
    }
}

fn c20() {
    use std::sync::atomic::Ordering;
    let works: Vec<Work> = (0..1 + draw(4) as usize).map(Work::draw).collect();
    let held = || HELD.load(Ordering::Relaxed);
    let (held0, fds0) = (held(), host::fs().open_fds());
    let mut live = 0;
    let size: u64 = works.iter().map(|w| w.pixels()).sum();
    // Collections that are never emptied grow in ever larger steps
    let varied = draw(4) == 3 && size < 4_000;
    let passes = if varied {
        20 + 2 * draw(30)
    } else if draw(5) == 4 {
        3 + (200_000 / (size + 2_000)).min(60)
    } else {
        3 + draw(4)
    };
    for pass in 0..passes {
        for w in &works {
            // Something may be kept from one request to the next, but not from every one
            let other = (varied && pass > 0).then(|| w.other(pass));
            let w = other.as_ref().unwrap_or(w);
            if pass == 0 {
                describe(&w.text());
            }
            phase("work");
            let r = w.exec();
            if pass == 0 {
                sig(r);
            }
            if held() != held0 {
                bad!(
                    "not-dropped-once",
                    "{}: {} writers or sources more than before are in use",
                    w.text(),
                    held() - held0
                );
            }
            let fds = host::fs().open_fds();
            if fds != fds0 {
                bad!("file-left-open", "{}: {} descriptors are still open", w.text(), fds);
            }
        }
        // What is set up once for the whole process is there after the first pass
        let now = alloc::ST.get().live;
        if pass == 0 || varied && pass <= passes / 2 {
            live = live.max(now);
        } else {
            nontrivial();
            if now > live {
                bad!(
                    "memory-kept",
                    "{}: {} bytes more in use after pass {} than ever before",
                    works.iter().map(|w| w.text()).collect::<Vec<_>>().join("; "),
                    now - live,
                    pass
                );
            }
        }
    }
}
