//! Executions near the limits of the format. Most take minutes and gigabytes, so no seed leads to them:
//! the thorough tier makes them once, before its search. The quick tier makes only the cheaper ones.

use crate::bad;
use crate::choices::{draw, Rng};
use crate::sink::*;
use crate::spec::*;
use crate::sys::map_sparse;
use crate::world::*;
use crate::{alloc, jpeg};
use simapi::*;

/// First choice of a directed execution; drawn by accident once in 2^60 runs
pub const BASE: u64 = (1 << 60) - 16;

pub fn count(prop: &str) -> u64 {
    match prop {
        "C05" => 4,
        "C14" => 1,
        _ => 0,
    }
}

/// Those that take seconds and little memory: a quick search makes them next to it, in the place of its first runs
pub fn quick(prop: &str) -> &'static [u64] {
    match prop {
        "C05" => &[BASE + 2, BASE + 3],
        _ => &[],
    }
}

pub fn is(list: &[u64]) -> bool {
    list.first().is_some_and(|&c| c >= BASE)
}

/// Every property that has directed executions asks this first
pub fn drawn() -> Option<u64> {
    draw(1 << 60).checked_sub(BASE)
}

/// The memory the largest of them needs
pub fn room() -> bool {
    std::fs::read_to_string("/proc/meminfo")
        .unwrap_or_default()
        .lines()
        .find_map(|l| l.strip_prefix("MemAvailable:"))
        .and_then(|l| l.trim().trim_end_matches(" kB").parse::<u64>().ok())
        .is_some_and(|kb| kb > 22 << 20)
}

/// An image of one colour
struct Flat(Jct, u16, u16);
impl Rows for Flat {
    fn jct(&self) -> Jct {
        self.0
    }
    fn width(&self) -> u16 {
        self.1
    }
    fn height(&self) -> u16 {
        self.2
    }
    fn fill(&self, _: u16, buffers: &mut [Vec<u8>; 4]) {
        for b in buffers.iter_mut().take(self.0.comps()) {
            b.resize(b.len() + self.1 as usize, 128);
        }
    }
}

fn encode(flavor: Flavor, ops: &[Op], src: &Flat, sink: &mut SimSink) -> (Ran, usize) {
    encode_job(flavor, 90, ops, Fin::Image(src), src.1 as u64 * src.2 as u64, sink)
}

fn encode_job(flavor: Flavor, quality: u8, ops: &[Op], fin: Fin, pixels: u64, sink: &mut SimSink) -> (Ran, usize) {
    alloc::set_mode(alloc::Mode { fill: 0, budget: 40 << 30, ..alloc::PLAIN });
    let st = alloc::ST.get();
    let before = st.live;
    alloc::reset_peak();
    let job = Job { quality, ops, fin };
    let r = if flavor.no_std() {
        let mut n = NoStd(sink);
        run_job(flavor, Sink::Jfif(&mut n), &job, pixels)
    } else {
        run_job(flavor, Sink::Ref(sink), &job, pixels)
    };
    let peak = st.peak - before;
    alloc::set_mode(alloc::PLAIN);
    (r, peak)
}

pub fn run(prop: &str, k: u64) {
    match (prop, k) {
        ("C05", 0) => {
            // More than 2^32 symbols for one table: 63 bands of one coefficient for each block. The
            // writer ends the encode when the tables are written.
            describe("38200x38200 CMYK, 64 scans, optimised tables, the writer fails at the frame header");
            phase("statistics of more than 2^32 symbols");
            let src = Flat(Jct::Cmyk, 38200, 38200);
            let plan = SinkPlan { fatal: Some((100, true, Fail::Kind(std::io::ErrorKind::StorageFull), true)), ..SinkPlan::default() };
            let mut sink = SimSink::new(plan);
            let (r, _) = encode(Flavor::Std, &[Op::Scans(64), Op::Optimize(true)], &src, &mut sink);
            if r.panic.is_some() || !matches!(r.err(), Some(EncErr::Io { .. })) {
                bad!("valid-request-failed", "38200x38200 CMYK, 64 scans, optimised tables: {}", r.result());
            }
        }
        ("C05", 2 | 3) => {
            // Rows that lie more than 2^31 and 2^32 bytes behind the first one. All bands but the last
            // two are black, and restart intervals make the data of each band independent of the others.
            let (flavor, name) = [(Flavor::Std, "scalar"), (Flavor::Simd, "AVX2")][(k - 2) as usize];
            let (w, h, few) = (16500usize, 65535usize, 63usize);
            describe(&format!("{}x{} RGBA in a slice of more than 4 GiB, single scan, {}", w, h, name));
            phase("rows beyond 4 GiB");
            let stride = w * 4;
            let Some(p) = map_sparse(stride * h) else {
                return;
            };
            let data = unsafe { std::slice::from_raw_parts_mut(p, stride * h) };
            let mut r = Rng::new(k, 9);
            for b in &mut data[(h - 31) * stride..] {
                *b = r.next() as u8;
            }
            let ops = [Op::Restart(w.div_ceil(16) as u16)];
            let go = |data: &[u8], h: usize| {
                let mut sink = SimSink::new(SinkPlan::default());
                let fin = Fin::Slice { data, w: w as u16, h: h as u16, ct: Ct::Rgba };
                let (r, _) = encode_job(flavor, 50, &ops, fin, (w * h) as u64, &mut sink);
                if !r.ok() {
                    bad!("valid-request-failed", "{}x{} RGBA, {}: {}", w, h, name, r.result());
                }
                sink.data
            };
            let one = go(&data[(h - few) * stride..], few);
            let all = go(data, h);
            let Ok(j) = jpeg::Jpeg::full(&one) else {
                bad!("malformed", "{}x{} RGBA, {}: no JPEG", w, few, name);
            };
            let s = &j.scans[0];
            if s.rst.len() != 3 {
                bad!("malformed", "{}x{} RGBA, {}: {} restart markers instead of 3", w, few, name, s.rst.len());
            }
            let mut want = one[..s.data].to_vec();
            let sof = j.segs.iter().find(|s| s.marker == 0xC0).map(|s| s.at).unwrap_or(0);
            want[sof + 5..sof + 7].copy_from_slice(&(h as u16).to_be_bytes());
            let bands = h.div_ceil(16);
            for b in 0..bands {
                if b > 0 {
                    want.extend_from_slice(&[0xFF, 0xD0 + ((b - 1) % 8) as u8]);
                }
                want.extend_from_slice(match bands - b {
                    1 => &one[s.rst[2] + 2..s.end],
                    2 => &one[s.rst[1] + 2..s.rst[2]],
                    _ => &one[s.data..s.rst[0]],
                });
            }
            want.extend_from_slice(&[0xFF, 0xD9]);
            if all != want {
                let d = all.iter().zip(&want).position(|(a, b)| a != b);
                bad!(
                    "image-differs",
                    "{}x{} RGBA, {}: {} bytes instead of {}, first difference at {:?}",
                    w,
                    h,
                    name,
                    all.len(),
                    want.len(),
                    d
                );
            }
        }
        ("C05", _) => {
            // The largest image there is, where addresses have 32 bits: all blocks but their number
            // are known from the smallest image
            describe("65535x65535 gray, single scan, 32-bit addresses");
            phase("the largest image");
            let mut one = SimSink::new(SinkPlan::default());
            let (r1, _) = encode(Flavor::Bits32, &[], &Flat(Jct::Luma, 8, 8), &mut one);
            let mut all = SimSink::new(SinkPlan::default());
            let (r2, _) = encode(Flavor::Bits32, &[], &Flat(Jct::Luma, 65535, 65535), &mut all);
            if !r1.ok() || !r2.ok() {
                bad!("valid-request-failed", "8x8: {}, 65535x65535: {}", r1.result(), r2.result());
            }
            let Ok(j) = jpeg::Jpeg::full(&one.data) else {
                bad!("malformed", "8x8: no JPEG");
            };
            // A DC difference of zero and the end of the block: six bits
            let at = j.scans[0].data;
            let want: Vec<u8> = {
                let bits = one.data[at] >> 2;
                let n = 8192usize * 8192;
                let mut v = one.data[..at].to_vec();
                for _ in 0..n / 4 {
                    let w = (bits as u32) << 18 | (bits as u32) << 12 | (bits as u32) << 6 | bits as u32;
                    v.extend_from_slice(&w.to_be_bytes()[1..]);
                }
                v.extend_from_slice(&[0xFF, 0xD9]);
                // Height and width in the frame header
                let sof = j.segs.iter().find(|s| s.marker == 0xC0).map(|s| s.at).unwrap_or(0);
                v[sof + 5..sof + 9].fill(0xFF);
                v
            };
            if one.data.len() != at + 3 || all.data != want {
                let d = all.data.iter().zip(&want).position(|(a, b)| a != b);
                bad!(
                    "image-differs",
                    "65535x65535 gray: {} bytes instead of {}, first difference at {:?}",
                    all.data.len(),
                    want.len(),
                    d
                );
            }
        }
        _ => {
            describe("65535x65535 YCbCr 4:2:0, single scan");
            phase("the largest image");
            let mut n = [0; 2];
            for (h, n) in [40, 65535].into_iter().zip(n.iter_mut()) {
                let mut sink = SimSink::new(SinkPlan::default());
                let (r, peak) = encode(Flavor::Simd, &[Op::Sampling(3)], &Flat(Jct::Ycbcr, 65535, h), &mut sink);
                if !r.ok() {
                    bad!("valid-request-failed", "65535x{} YCbCr 4:2:0: {}", h, r.result());
                }
                *n = peak;
            }
            if n[1] > n[0] + 2048 {
                bad!("heap-grows-with-height", "65535 wide: {} bytes at height 40, {} at height 65535", n[0], n[1]);
            }
        }
    }
    nontrivial();
}
