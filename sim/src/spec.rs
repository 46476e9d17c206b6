//! Requests to the encoder: how they are drawn, what they mean, and how they are executed.

use crate::alloc::Track;
use crate::choices::*;
use crate::image;
use crate::sink::*;
use crate::tables;
use crate::world::*;
use simapi::*;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Flavor {
    Std,
    Simd,
    NoStd,
    /// no_std on a host with 32-bit addresses (see host32.rs)
    Bits32,
}

impl Flavor {
    pub fn no_std(self) -> bool {
        matches!(self, Flavor::NoStd | Flavor::Bits32)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Api {
    Slice,
    Image,
}

#[derive(Clone)]
pub struct Spec {
    pub flavor: Flavor,
    pub quality: u8,
    pub ops: Vec<Op>,
    pub api: Api,
    pub ct: Ct,
    pub w: u16,
    pub h: u16,
    pub data: Rc<Vec<u8>>,
    pub image: (image::Kind, u64),
    /// So many bytes more than the image needs are passed with the slice API
    pub extra: usize,
    /// How the image source puts its samples into the buffers
    pub style: u8,
}

/// What the calls on an encoder add up to
#[derive(Clone, Debug)]
pub struct Model {
    pub density: Dens,
    pub sampling: u8,
    pub h: usize,
    pub v: usize,
    pub qt: [Qt; 2],
    pub q: [[u8; 64]; 2],
    pub scans: Option<u8>,
    pub restart: u16,
    pub optimize: bool,
    pub apps: Vec<(u8, Vec<u8>)>,
    pub results: Vec<Result<(), EncErr>>,
    pub getters: Vec<Getters>,
}

pub const MAX_ICC: usize = 16_707_345;
pub const ICC_CHUNK: usize = 65519;

impl Model {
    pub fn of(quality: u8, ops: &[Op]) -> Model {
        let s = if quality < 90 { 3 } else { 0 };
        let mut m = Model {
            density: Dens::None,
            sampling: s,
            h: 1,
            v: 1,
            qt: [Qt::Named(0), Qt::Named(0)],
            q: [[0; 64]; 2],
            scans: None,
            restart: 0,
            optimize: false,
            apps: Vec::new(),
            results: Vec::new(),
            getters: Vec::new(),
        };
        for op in ops {
            let mut r = Ok(());
            match op {
                Op::Density(d) => m.density = *d,
                Op::Sampling(s) => m.sampling = *s,
                Op::Qtables(a, b) => m.qt = [a.clone(), b.clone()],
                Op::Progressive(p) => m.scans = if *p { Some(4) } else { None },
                Op::Scans(n) => m.scans = Some(*n),
                Op::Pause => {}
                Op::BadScans(_) => r = Err(EncErr::Other("panic".into())),
                Op::Restart(n) => m.restart = *n,
                Op::Optimize(o) => m.optimize = *o,
                Op::App(n, d) => {
                    if *n == 0 || *n > 15 {
                        r = Err(EncErr::InvalidAppSegment(*n));
                    } else if d.len() > 65533 {
                        r = Err(EncErr::AppSegmentTooLarge(d.len()));
                    } else {
                        m.apps.push((*n, d.clone()));
                    }
                }
                Op::Icc(d) => {
                    if d.len() > MAX_ICC {
                        r = Err(EncErr::IccTooLarge(d.len()));
                    } else {
                        let n = d.len().div_ceil(ICC_CHUNK);
                        for (i, c) in d.chunks(ICC_CHUNK).enumerate() {
                            let mut s = b"ICC_PROFILE\0".to_vec();
                            s.push(i as u8 + 1);
                            s.push(n as u8);
                            s.extend_from_slice(c);
                            m.apps.push((2, s));
                        }
                    }
                }
                Op::Getters => m.getters.push(Getters {
                    density: m.density,
                    sampling: m.sampling,
                    qtables: m.qt.clone(),
                    scans: m.scans,
                    restart: if m.restart == 0 { None } else { Some(m.restart) },
                    optimize: m.optimize,
                }),
            }
            m.results.push(r);
        }
        let (_, h, v) = SAMPLINGS[m.sampling as usize];
        m.h = h as usize;
        m.v = v as usize;
        for i in 0..2 {
            m.q[i] = match &m.qt[i] {
                Qt::Named(n) => tables::scaled(
                    if i == 0 {
                        &tables::LUMA[*n as usize]
                    } else {
                        &tables::CHROMA[*n as usize]
                    },
                    quality,
                ),
                Qt::Custom(t) => {
                    let mut q = [0; 64];
                    for k in 0..64 {
                        q[k] = t[k].clamp(1, 255) as u8;
                    }
                    q
                }
            };
        }
        m
    }

    pub fn interleaved(&self) -> bool {
        self.scans.is_none() && !self.optimize && self.h <= 2 && self.v <= 2
    }
}

pub struct Profile {
    pub flavors: [u64; 4],
    /// small, medium, skinny, huge skinny, large, gigantic
    pub sizes: [u64; 6],
    /// Chances of 16 for progressive, optimised, restart, custom tables, metadata
    pub progressive: u64,
    pub optimize: u64,
    pub restart: u64,
    pub tables: u64,
    pub meta: u64,
    pub image_api: u64,
    /// Chance of 1000 for more MCUs in a scan and a restart interval than 15 bits can count
    pub many_mcus: u64,
}

pub const GENERAL: Profile = Profile {
    flavors: [5, 5, 3, 2],
    sizes: [1400, 360, 180, 10, 20, 1],
    progressive: 4,
    optimize: 4,
    restart: 6,
    tables: 4,
    meta: 3,
    image_api: 6,
    many_mcus: 0,
};

/// Small images only: for executions that encode many times
pub const SMALL: Profile = Profile {
    sizes: [30, 3, 1, 0, 0, 0],
    ..GENERAL
};

pub fn draw_dim(small: bool) -> u64 {
    if small {
        match weighted(&[3, 3, 3]) {
            0 => range(1, 17),
            1 => range(1, 48),
            _ => pick(&[8, 16, 32, 7, 9, 15, 17, 31, 33, 24, 1]),
        }
    } else {
        match weighted(&[3, 3]) {
            0 => range(33, 200),
            _ => pick(&[64, 63, 65, 127, 128, 129, 96, 100, 192]),
        }
    }
}

pub fn draw_size(sizes: &[u64; 6]) -> (u16, u16) {
    let (w, h) = match weighted(sizes) {
        0 => (draw_dim(true), draw_dim(true)),
        1 => (draw_dim(false), draw_dim(false)),
        2 => {
            let a = range(200, 2200);
            let b = range(1, 20);
            if draw(2) == 0 {
                (a, b)
            } else {
                (b, a)
            }
        }
        3 => {
            stat(S::p_huge_dim);
            let a = pick(&[65535, 65534, 65528, 40000, 32768, 32767, 65529, 20000]);
            let b = range(1, 9);
            if draw(2) == 0 {
                (a, b)
            } else {
                (b, a)
            }
        }
        4 => (range(200, 1100), range(200, 1100)),
        // More blocks than 16 bits can count
        _ => {
            stat(S::p_gigantic);
            match draw(3) {
                0 => (range(2100, 3000), range(2100, 3000)),
                // Just a few more
                1 => (range(2049, 2056), range(2041, 2048)),
                _ => (range(2041, 2048), range(2049, 2056)),
            }
        }
    };
    (w as u16, h as u16)
}

pub fn draw_qt() -> Qt {
    if draw(3) < 2 {
        return Qt::Named(draw(9) as u8);
    }
    stat(S::cfg_custom_tables);
    let s = seed();
    let mut r = Rng::new(s, 5);
    let kind = draw(6);
    let mut t = [1u16; 64];
    for (i, v) in t.iter_mut().enumerate() {
        *v = match kind {
            0 => 1,
            1 => 255,
            2 => 1 + r.below(255) as u16,
            3 => r.next() as u16,
            4 => [0, 1, 2, 254, 255, 256, 257, 511, 512, 2047, 2048, 2049, 65535][r.below(13) as usize],
            _ => 1 + i as u16 * 4,
        };
    }
    Qt::Custom(Box::new(t))
}

/// A table that has nearly everything in common with another one
pub fn near_qt(q: &Qt) -> Qt {
    let Qt::Custom(t) = q else {
        return draw_qt();
    };
    let mut t = t.clone();
    let i = draw(64) as usize;
    let j = draw(64) as usize;
    match draw(4) {
        0 => t.swap(i, j),
        1 => t[i] = t[i].saturating_add(1),
        2 => t.reverse(),
        _ => {
            let v = t[i];
            t[i] = v.wrapping_add(1).max(1);
            t[j] = t[j].saturating_sub(1).max(1);
        }
    }
    Qt::Custom(t)
}

pub fn draw_restart(w: u16, h: u16, hs: usize, vs: usize) -> u16 {
    let cols = (w as usize).div_ceil(8 * hs);
    let rows = (h as usize).div_ceil(8 * vs);
    let t = (cols * rows) as u64;
    // More than 15 bits can count
    if t > 40000 && draw(2) == 1 {
        return range(32768, t.min(65535)) as u16;
    }
    let v = match weighted(&[5, 3, 2, 1]) {
        0 => pick(&[1, 2, 3, 4, 5, 7, 8, 9, 16]),
        1 => range(1, t.min(65535)),
        2 => pick(&[
            t,
            t + 1,
            t.max(2) - 1,
            cols as u64,
            cols as u64 + 1,
            t.div_ceil(2),
            (t * (hs * vs) as u64).max(2) - 1,
            t * (hs * vs) as u64,
        ]),
        _ => pick(&[65535, 255, 256, 257, 32767, 32768, 1000]),
    };
    v.min(65535) as u16
}

pub fn draw_density() -> Dens {
    let v = |_: u32| pick(&[1u64, 72, 300, 0, 255, 256, 65535, 4660]) as u16;
    match draw(3) {
        0 => Dens::None,
        1 => Dens::Inch(v(0), v(1)),
        _ => Dens::Cm(v(0), v(1)),
    }
}

pub fn blob(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed, 11);
    let mut v = Vec::with_capacity(n + 8);
    let kind = (seed >> 4) % 24;
    match kind {
        0 => v.resize(n, 0),
        1 => v.resize(n, 0xFF),
        // Repeats itself
        2 | 3 => v.extend((0..n).map(|i| (i as u64 % (1 + seed / 512 % 300)) as u8)),
        _ => {
            // What is often found in application segments
            const HEADS: [&[u8]; 10] = [
                b"Exif\0\0MM\0*\0\0\0\x08",
                b"http://ns.adobe.com/xap/1.0/\0<x:xmpmeta/>",
                b"JFXX\0\x10",
                b"MPF\0II*\0",
                b"Photoshop 3.0\08BIM",
                b"http://ns.adobe.com/xmp/extension/\0",
                b"Ducky\0",
                b"JFIF\0\x01\x02",
                b"Adobe\0d",
                b"\xFF\xE1\0\x08",
            ];
            if (10..20).contains(&kind) {
                v.extend_from_slice(HEADS[kind as usize - 10]);
            }
            while v.len() < n {
                v.extend_from_slice(&r.next().to_le_bytes());
            }
        }
    }
    v.truncate(n);
    // Contents that look like markers must not matter
    if n > 4 && seed & 1 == 1 {
        v[0] = 0xFF;
        v[1] = 0xD9;
        v[n - 2] = 0xFF;
        v[n - 1] = 0xDA;
    }
    v
}

/// Segments that have something in common with the ones before
pub fn draw_related(ops: &[Op]) -> Option<Op> {
    let old: Vec<&Op> = ops.iter().filter(|o| matches!(o, Op::App(..) | Op::Icc(_))).collect();
    if old.is_empty() {
        return None;
    }
    let o = old[draw(old.len() as u64) as usize].clone();
    Some(match o {
        Op::App(n, mut d) => match draw(6) {
            0 => Op::App(range(1, 15) as u8, d),
            1 => {
                d.pop();
                Op::App(n, d)
            }
            2 => {
                if let Some(x) = d.last_mut() {
                    *x ^= 1;
                }
                Op::App(n, d)
            }
            3 => Op::App(n, Vec::new()),
            _ => Op::App(n, d),
        },
        o => o,
    })
}

pub fn draw_flavor(w: &[u64; 4]) -> Flavor {
    let f = [Flavor::Std, Flavor::Simd, Flavor::NoStd, Flavor::Bits32][weighted(w)];
    if f == Flavor::Bits32 && !crate::host32::available() {
        return Flavor::NoStd;
    }
    f
}

pub fn draw_scans() -> u8 {
    match weighted(&[3, 3, 2]) {
        0 => pick(&[4u8, 2, 3, 5, 8]),
        1 => range(2, 64) as u8,
        _ => pick(&[64u8, 63, 33, 34, 32, 22, 17, 9]),
    }
}

impl Spec {
    pub fn draw(p: &Profile) -> Spec {
        let flavor = draw_flavor(&p.flavors);
        let many = p.many_mcus > 0 && chance(p.many_mcus, 1000);
        let (w, h) = if many {
            stat(S::p_many_mcus);
            ((range(200, 215) * 8 - draw(8)) as u16, (range(200, 215) * 8 - draw(8)) as u16)
        } else {
            draw_size(&p.sizes)
        };
        let api = if chance(p.image_api, 16) {
            Api::Image
        } else {
            Api::Slice
        };
        let ct = match api {
            Api::Slice => pick(&ALL_CT),
            Api::Image => pick(&[Ct::Luma, Ct::Ycbcr, Ct::Cmyk, Ct::Ycck]),
        };
        let kind = image::draw_kind();
        let iseed = seed();
        let quality = match weighted(&[3, 4, 2]) {
            0 => pick(&[75u8, 100, 90, 89, 50, 95, 1]),
            1 => range(1, 100) as u8,
            _ => pick(&[100u8, 99, 98, 91]),
        };
        let mut ops = Vec::new();
        let mut hv = if quality < 90 { (2, 2) } else { (1, 1) };
        if many || draw(4) > 0 {
            let s = if many { 0 } else { draw(16) };
            let f = SAMPLINGS[s as usize];
            hv = (f.1 as usize, f.2 as usize);
            ops.push(Op::Sampling(s as u8));
        }
        if ct == Ct::Luma {
            hv = (1, 1);
        }
        if chance(p.progressive, 16) {
            if draw(3) == 0 {
                ops.push(Op::Progressive(true));
            } else {
                ops.push(Op::Scans(draw_scans()));
            }
        }
        let many_blocks = w as u64 * h as u64 > 4_000_000;
        if chance(if many_blocks { p.optimize.max(10) } else { p.optimize }, 16) {
            ops.push(Op::Optimize(true));
        }
        if chance(p.restart, 16) {
            ops.push(Op::Restart(if many { range(32768, 40000) as u16 } else { draw_restart(w, h, hv.0, hv.1) }));
        }
        if chance(p.tables, 16) {
            let a = draw_qt();
            let b = match draw(6) {
                5 => a.clone(),
                4 => near_qt(&a),
                _ => draw_qt(),
            };
            ops.push(Op::Qtables(a, b));
        }
        if chance(4, 16) {
            ops.push(Op::Density(draw_density()));
        }
        if chance(p.meta, 16) {
            for _ in 0..range(1, 3) {
                let s = seed();
                let n = if draw(24) == 23 {
                    stat(S::cfg_large_segment);
                    pick(&[4096u64, 8192, 8190, 32768, 32767, 65533, 65532, 65519, 16384, 20000, 1024, 60000]) as usize
                } else {
                    skewed(400) as usize
                };
                ops.push(Op::App(range(1, 15) as u8, blob(s, n)));
            }
            if draw(3) == 2 {
                let n = match draw(16) {
                    15 => pick(&[65519u64, 65518, 65520, 70_000]),
                    14 => 0,
                    _ => skewed(1200),
                };
                ops.push(Op::Icc(blob(seed(), n as usize)));
            }
            if draw(4) == 3 {
                ops.extend(draw_related(&ops));
            }
        }
        // The order of calls does not matter
        if draw(3) == 2 {
            let mut rng = Rng::new(seed(), 15);
            for i in (1..ops.len()).rev() {
                ops.swap(i, rng.below(i as u64 + 1) as usize);
            }
        }
        let mut s = Spec::build(flavor, quality, ops, api, ct, w, h, kind, iseed);
        if api == Api::Slice && draw(6) == 5 {
            s.extra = match draw(4) {
                0 => 1,
                1 => w as usize * ct.bpp(),
                2 => h as usize * pick(&[1usize, 2, 3, 4, 8]),
                _ => skewed(2000) as usize,
            };
            stat(S::cfg_longer_data);
        }
        if api == Api::Image && w as u64 * h as u64 * h as u64 <= 1 << 29 && draw(3) == 2 {
            stat(S::cfg_source_style);
            s.style = 1 + draw(7) as u8;
        }
        s
    }

    /// Bytes that what has to be kept for the header may need, including the room
    /// that putting the parts of an ICC profile together takes
    pub fn meta(&self) -> u64 {
        let icc = self.ops.iter().filter(|o| matches!(o, Op::Icc(_))).count() as u64;
        let m = self.model();
        m.apps.iter().map(|a| a.1.len() as u64 + 64).sum::<u64>() + icc * (200 << 10)
    }

    /// A request that has nearly everything in common with this one: whatever is shared
    /// or kept by too coarse a criterion fits both
    pub fn near(&self) -> Spec {
        stat(S::f_near_request);
        let mut s = self.clone();
        s.ops.retain(|o| !matches!(o, Op::Pause));
        let (mut kind, mut iseed) = s.image;
        let mut rebuild = false;
        match draw(10) {
            0 | 1 => {
                kind = image::draw_kind();
                iseed = seed();
                rebuild = true;
            }
            2 => {
                s.quality = if s.quality > 1 && draw(2) == 1 { s.quality - 1 } else { (s.quality + 1).min(100) };
            }
            3 => {
                let mut found = false;
                for o in &mut s.ops {
                    if let Op::Qtables(a, b) = o {
                        found = true;
                        match draw(3) {
                            0 => *a = near_qt(a),
                            1 => *b = near_qt(b),
                            _ => std::mem::swap(a, b),
                        }
                    }
                }
                if !found {
                    s.ops.push(Op::Qtables(draw_qt(), draw_qt()));
                }
            }
            4 => {
                let (hs, vs) = (pick(&[1, 2]), pick(&[1, 2]));
                let o = match draw(5) {
                    0 => Op::Sampling(draw(16) as u8),
                    1 => Op::Scans(draw_scans()),
                    2 => Op::Restart(draw_restart(s.w, s.h, hs, vs)),
                    3 => Op::Density(draw_density()),
                    _ => Op::Optimize(draw(2) == 1),
                };
                s.ops.push(o);
            }
            5 => {
                if draw(2) == 0 {
                    s.ops.pop();
                } else {
                    let o = draw_related(&s.ops);
                    s.ops.extend(o);
                }
            }
            6 => {
                match draw(3) {
                    0 => std::mem::swap(&mut s.w, &mut s.h),
                    1 => s.w = (s.w + 1).min(s.w.max(2000)),
                    _ => s.h = (s.h + 1).min(s.h.max(2000)),
                }
                rebuild = true;
            }
            7 => {
                let other: &[Ct] = match (s.api, s.ct) {
                    (Api::Image, Ct::Cmyk | Ct::Ycck) => &[Ct::Cmyk, Ct::Ycck],
                    (Api::Image, t) => &[t],
                    (_, Ct::Luma) => &[Ct::Luma],
                    (_, Ct::Rgb | Ct::Bgr | Ct::Ycbcr) => &[Ct::Rgb, Ct::Bgr, Ct::Ycbcr],
                    _ => &[Ct::Rgba, Ct::Bgra, Ct::Cmyk, Ct::CmykAsYcck, Ct::Ycck],
                };
                s.ct = other[draw(other.len() as u64) as usize];
            }
            8 => {
                // One sample only
                let mut d = s.data.to_vec();
                let i = draw(d.len() as u64) as usize;
                d[i] = d[i].wrapping_add(pick(&[1, 128, 255]));
                s.data = Rc::new(d);
            }
            _ => {}
        }
        if !rebuild {
            return s;
        }
        let style = s.style;
        s = Spec::build(s.flavor, s.quality, s.ops, s.api, s.ct, s.w, s.h, kind, iseed);
        s.style = style;
        s
    }

    #[allow(clippy::too_many_arguments)]
    pub fn build(
        flavor: Flavor,
        quality: u8,
        ops: Vec<Op>,
        api: Api,
        ct: Ct,
        w: u16,
        h: u16,
        kind: image::Kind,
        iseed: u64,
    ) -> Spec {
        let mut data = Vec::new();
        image::fill(kind, iseed, w as usize, h as usize, ct.bpp(), &mut data);
        Spec {
            flavor,
            quality,
            ops,
            api,
            ct,
            w,
            h,
            data: Rc::new(data),
            image: (kind, iseed),
            extra: 0,
            style: 0,
        }
    }

    /// The same image, passed the other way
    pub fn twin(&self) -> Spec {
        let mut s = self.clone();
        s.extra = 0;
        s.style = 0;
        let n = self.ct.bpp();
        match self.api {
            Api::Image => {
                s.api = Api::Slice;
                if self.ct == Ct::Cmyk {
                    s.data = Rc::new(self.data.iter().map(|v| 255 - v).collect());
                }
            }
            Api::Slice => {
                s.api = Api::Image;
                s.style = draw(8) as u8;
                s.ct = match self.ct.jct() {
                    Jct::Luma => Ct::Luma,
                    Jct::Ycbcr => Ct::Ycbcr,
                    Jct::Cmyk => Ct::Cmyk,
                    Jct::Ycck => Ct::Ycck,
                };
                // With the conversions the library offers to sources
                let mut d = Vec::with_capacity(self.data.len());
                for p in self.data.chunks_exact(n) {
                    d.extend_from_slice(&va_std::convert(self.ct, p)[..s.ct.bpp()]);
                }
                s.data = Rc::new(d);
            }
        }
        s
    }

    pub fn model(&self) -> Model {
        Model::of(self.quality, &self.ops)
    }

    pub fn text(&self) -> String {
        let mut ops = Vec::new();
        for o in &self.ops {
            ops.push(match o {
                Op::App(n, d) => format!("App({}, {} bytes)", n, d.len()),
                Op::Icc(d) => format!("Icc({} bytes)", d.len()),
                Op::Sampling(s) => format!("Sampling({})", SAMPLINGS[*s as usize].0),
                Op::Qtables(a, b) => {
                    let t = |q: &Qt| match q {
                        Qt::Named(n) => format!("#{}", n),
                        Qt::Custom(t) => format!("custom[{},{},..,{}]", t[0], t[1], t[63]),
                    };
                    format!("Qtables({}, {})", t(a), t(b))
                }
                o => format!("{:?}", o),
            });
        }
        format!(
            "{:?} {:?} {:?} {}x{} q{} [{}] image {:?}/{}{}{}",
            self.flavor,
            self.api,
            self.ct,
            self.w,
            self.h,
            self.quality,
            ops.join(", "),
            self.image.0,
            self.image.1,
            if self.extra > 0 { format!(" and {} more bytes", self.extra) } else { String::new() },
            if self.style > 0 { format!(" delivered in style {}", self.style) } else { String::new() }
        )
    }

    /// Key of the shape of this request for signatures
    pub fn shape(&self) -> u64 {
        let m = self.model();
        let mut k = crate::sys::mix2(self.flavor as u64 * 100 + self.ct as u64, self.api as u64);
        for v in [
            self.w as u64,
            self.h as u64,
            self.quality as u64,
            m.sampling as u64,
            m.scans.unwrap_or(0) as u64,
            m.restart as u64,
            m.optimize as u64,
            m.apps.len() as u64,
        ] {
            k = crate::sys::mix2(k, v);
        }
        k
    }

    pub fn pixels(&self) -> u64 {
        self.w as u64 * self.h as u64
    }

    pub fn comps(&self) -> usize {
        self.ct.jct().comps()
    }

    pub fn source(&self) -> SimSource {
        SimSource::new(self)
    }

    pub fn count(&self) {
        let m = self.model();
        stat(match self.flavor {
            Flavor::Std => S::cfg_std,
            Flavor::Simd => S::cfg_simd,
            Flavor::NoStd => S::cfg_nostd,
            Flavor::Bits32 => S::cfg_32bit,
        });
        stat(match self.api {
            Api::Slice => S::cfg_slice_api,
            Api::Image => S::cfg_image_api,
        });
        if m.scans.is_some() {
            stat(S::cfg_progressive);
        } else if m.interleaved() {
            stat(S::cfg_interleaved);
        } else {
            stat(S::cfg_sequential);
        }
        if m.optimize {
            stat(S::cfg_optimized);
        }
        if m.restart > 0 {
            stat(S::cfg_restart);
        }
    }
}

/// The simulated row source
pub struct SimSource {
    data: Rc<Vec<u8>>,
    bpp: usize,
    style: u8,
    pub ct: Ct,
    pub w: u16,
    pub h: u16,
    /// Every row asked for, in order
    pub log: RefCell<Vec<u16>>,
    /// Panic with this payload at the nth request
    pub panic_at: Cell<Option<(usize, u64)>>,
    /// Panic with this payload when asked the nth time for size or kind of the image
    pub refuses: Cell<Option<(u64, u64)>>,
    /// From the nth question on, another size and kind
    pub fickle: Cell<Option<(u64, u16, u16, Jct)>>,
    /// At the nth request deliver this many samples more or less, in this channel (4: all)
    pub wrong_at: Cell<Option<(usize, i32, usize)>>,
    /// Called with the number of the request
    pub hook: RefCell<Option<Box<dyn FnMut(usize, u16)>>>,
}

impl SimSource {
    pub fn new(s: &Spec) -> SimSource {
        SimSource {
            data: s.data.clone(),
            bpp: s.ct.bpp(),
            style: s.style,
            ct: s.ct,
            w: s.w,
            h: s.h,
            log: RefCell::new(Vec::new()),
            panic_at: Cell::new(None),
            refuses: Cell::new(None),
            fickle: Cell::new(None),
            wrong_at: Cell::new(None),
            hook: RefCell::new(None),
        }
    }

    /// Claims another size than its data has (for requests that must be rejected)
    pub fn with_size(mut self, w: u16, h: u16) -> SimSource {
        self.w = w;
        self.h = h;
        self
    }

    fn asked(&self) {
        match self.refuses.get() {
            Some((0, id)) => {
                let _off = crate::alloc::Pause::new();
                self.refuses.set(None);
                stat(S::f_source_panic);
                ev("refused", id, 0);
                std::panic::panic_any(SimPanic(id));
            }
            Some((n, id)) => self.refuses.set(Some((n - 1, id))),
            None => {}
        }
        if let Some((n, w, h, j)) = self.fickle.get() {
            if n == 0 {
                stat(S::f_source_fickle);
                ev("fickle", w as u64, h as u64);
            }
            self.fickle.set(Some((n.saturating_sub(1), w, h, j)));
        }
    }

    /// What it tells now instead of the truth
    fn other(&self) -> Option<(u16, u16, Jct)> {
        match self.fickle.get() {
            Some((0, w, h, j)) => Some((w, h, j)),
            _ => None,
        }
    }
}

impl Rows for SimSource {
    fn jct(&self) -> Jct {
        self.asked();
        self.other().map_or(self.ct.jct(), |o| o.2)
    }
    fn width(&self) -> u16 {
        self.asked();
        self.other().map_or(self.w, |o| o.0)
    }
    fn height(&self) -> u16 {
        self.asked();
        self.other().map_or(self.h, |o| o.1)
    }
    fn fill(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
        let _off = crate::alloc::Pause::new();
        let n = self.log.borrow().len();
        self.log.borrow_mut().push(y);
        stat(S::rows_pulled);
        *ROWS.get() += 1;
        ev("row", y as u64, n as u64);
        let told = self.fickle.get().map_or(0, |f| f.2);
        if y >= self.h.max(told) {
            crate::bad!(
                "row-out-of-range",
                "row {} of an image with {} rows was requested",
                y,
                self.h
            );
        }
        let hook = self.hook.borrow_mut().take();
        if let Some(mut h) = hook {
            h(n, y);
            *self.hook.borrow_mut() = Some(h);
        }
        crate::sched::point("row");
        let w = self.w as usize;
        let y = y % self.h;
        let row = &self.data[y as usize * w * self.bpp..(y as usize + 1) * w * self.bpp];
        if let Some((at, id)) = self.panic_at.get() {
            if at == n {
                stat(S::f_source_panic);
                // Half of the panics come in the middle of a row
                let mut left = (id & 1) as usize * (1 + (id >> 1) as usize % (w * self.bpp));
                for c in 0..self.bpp {
                    for x in 0..left.min(w) {
                        buffers[c].push(row[x * self.bpp + c]);
                    }
                    left = left.saturating_sub(w);
                }
                std::panic::panic_any(SimPanic(id));
            }
        }
        let mut delta = 0i32;
        let mut which = 9;
        if let Some((at, d, c)) = self.wrong_at.get() {
            if at == n || (at < n && d == i32::MIN) {
                stat(if d < 0 {
                    S::f_source_short_row
                } else {
                    S::f_source_long_row
                });
                delta = d;
                which = c;
            }
        }
        if self.style == 1 && which == 9 {
            // Pixel by pixel
            for p in row.chunks_exact(self.bpp) {
                for (c, &v) in p.iter().enumerate() {
                    buffers[c].push(v);
                }
            }
            return;
        }
        for c in 0..self.bpp {
            let mut len = w as i32;
            if which == 4 || which == c {
                len = len.saturating_add(delta).max(0);
            }
            let buf = &mut buffers[c];
            let get = |x: usize| row[x.min(w - 1) * self.bpp + c];
            let len = len as usize;
            // Moving everything for every row is for small images only
            let moves = matches!(self.style, 3 | 5) && buf.len() > 1 << 16 && y % 64 != 0;
            match if which == 9 && !moves { self.style } else { 0 } {
                2 => {
                    let v: Vec<u8> = (0..len).map(get).collect();
                    buf.extend_from_slice(&v);
                }
                3 => {
                    buf.extend((0..len).map(get));
                    buf.shrink_to_fit();
                }
                4 => {
                    buf.reserve_exact(len);
                    buf.extend((0..len).map(get));
                }
                5 => {
                    // Another vector with the same beginning
                    let mut v = Vec::with_capacity(buf.len() + len);
                    v.extend_from_slice(buf);
                    v.extend((0..len).map(get));
                    *buf = v;
                }
                6 => {
                    let n = buf.len();
                    buf.resize(n + len, 0xA5);
                    for x in (0..len).rev() {
                        buf[n + x] = get(x);
                    }
                }
                7 => {
                    // More, and back again
                    buf.extend((0..len).map(get));
                    let n = buf.len();
                    buf.resize(n + 3 * len + 100, 0x5A);
                    buf.truncate(n);
                }
                _ => {
                    for x in 0..len {
                        buf.push(get(x));
                    }
                }
            }
        }
    }
}

/// A panic that left the encoder
#[derive(Debug, Clone)]
pub struct Panicked {
    pub payload: Option<SimPanic>,
    pub text: String,
}

pub struct Ran {
    pub out: Out,
    pub panic: Option<Panicked>,
    /// Bytes of the stack in use at the edge where it was deepest, 0 if that was not observed
    pub stack: usize,
}

impl Ran {
    pub fn ok(&self) -> bool {
        self.panic.is_none() && self.out.fin == Some(Ok(()))
    }
    pub fn result(&self) -> String {
        match (&self.panic, &self.out.open, &self.out.fin) {
            (Some(p), _, _) => format!("panic: {}", p.text),
            (_, Some(e), _) => format!("new_file: {:?}", e),
            (_, _, Some(Ok(()))) => "Ok".into(),
            (_, _, Some(Err(e))) => format!("Err({:?})", e),
            _ => "dropped".into(),
        }
    }
    pub fn err(&self) -> Option<&EncErr> {
        match (&self.out.open, &self.out.fin) {
            (Some(e), _) => Some(e),
            (_, Some(Err(e))) => Some(e),
            _ => None,
        }
    }
}

/// The only place where the code under test is entered
pub fn run_job(flavor: Flavor, sink: Sink, job: &Job, pixels: u64) -> Ran {
    let mut out = Out {
        ops: Vec::with_capacity(job.ops.len()),
        getters: Vec::with_capacity(job.ops.len()),
        ..Default::default()
    };
    stat(S::encodes);
    let e0 = *crate::sched::EDGES.get();
    *crate::sched::LOWEST.get() = usize::MAX;
    let top = &raw const e0 as usize;
    crate::sched::limit_edges(60_000_000 + 6_000 * pixels);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _t = Track::new();
        match flavor {
            Flavor::Std => va_std::run(sink, job, &mut out),
            Flavor::Simd => va_simd::run(sink, job, &mut out),
            Flavor::NoStd => va_nostd::run(sink, job, &mut out),
            Flavor::Bits32 => crate::host32::run(sink, job, &mut out),
        }
    }));
    stat_add(S::edges, *crate::sched::EDGES.get() - e0);
    let panic = match r {
        Ok(()) => None,
        Err(p) => {
            stat(S::encodes_panicked);
            Some(Panicked {
                payload: p.downcast_ref::<SimPanic>().copied(),
                text: match p.downcast_ref::<SimPanic>() {
                    Some(s) => format!("{:?}", s),
                    None => last_panic(),
                },
            })
        }
    };
    match &out.fin {
        _ if panic.is_some() => {}
        Some(Ok(())) => stat(S::encodes_ok),
        Some(Err(_)) => stat(S::encodes_err),
        None => stat(S::dropped_unused),
    }
    // The 32-bit host has a stack of its own
    let stack = if flavor == Flavor::Bits32 { 0 } else { top.saturating_sub(*crate::sched::LOWEST.get()) };
    let r = Ran { out, panic, stack };
    ev("returned", r.ok() as u64, r.panic.is_some() as u64);
    r
}

impl Spec {
    /// Runs this request with a writer. The source is used by the image API and by nothing else.
    pub fn run_with(&self, sink: Sink, src: &SimSource) -> Ran {
        if self.extra == 0 || self.api != Api::Slice {
            return self.run_data(sink, src, &self.data);
        }
        // The caller's buffer may be larger than the image
        let long = {
            let _off = crate::alloc::Pause::new();
            let mut v = self.data.to_vec();
            v.extend_from_slice(&blob(self.image.1, self.extra));
            v
        };
        let r = self.run_data(sink, src, &long);
        let _off = crate::alloc::Pause::new();
        drop(long);
        r
    }

    /// The same with the input in memory of the caller's choice
    pub fn run_data(&self, sink: Sink, src: &SimSource, data: &[u8]) -> Ran {
        self.count();
        let fin = match self.api {
            Api::Slice => Fin::Slice {
                data,
                w: self.w,
                h: self.h,
                ct: self.ct,
            },
            Api::Image => Fin::Image(src),
        };
        let job = Job {
            quality: self.quality,
            ops: &self.ops,
            fin,
        };
        run_job(self.flavor, sink, &job, self.pixels())
    }

    pub fn run(&self, sink: Sink) -> Ran {
        self.run_with(sink, &self.source())
    }

    /// Runs this request with the simulated writer passed directly
    pub fn run_sim(&self, s: &mut SimSink, src: &SimSource) -> Ran {
        if self.flavor.no_std() {
            let mut n = NoStd(s);
            self.run_with(Sink::Jfif(&mut n), src)
        } else {
            self.run_with(Sink::Ref(s), src)
        }
    }

    /// The stream this request stands for: delivered to a writer that takes everything at once
    pub fn reference(&self) -> Vec<u8> {
        let mut v = SimSink::new(SinkPlan::default());
        let src = self.source();
        let r = self.run_sim(&mut v, &src);
        if !r.ok() {
            crate::bad!(
                "valid-request-failed",
                "{} with a writer that never fails: {}",
                self.text(),
                r.result()
            );
        }
        v.data
    }
}
