//! Test images. A kind and a seed determine every byte.

use crate::choices::*;
use crate::sys::mix2;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Constant,
    Gradient,
    Noise,
    Extremes,
    BlockConstant,
    Basis,
    Dots,
    Stripes,
    QuietWithNoisyBlock,
    Faint,
    RampSwing,
    ChannelMix,
    Mirrored,
    Lone,
}

pub const KINDS: &[Kind] = &[
    Kind::Constant,
    Kind::Gradient,
    Kind::Noise,
    Kind::Extremes,
    Kind::BlockConstant,
    Kind::Basis,
    Kind::Dots,
    Kind::Stripes,
    Kind::QuietWithNoisyBlock,
    Kind::Faint,
    Kind::RampSwing,
    Kind::ChannelMix,
    Kind::Mirrored,
    Kind::Lone,
];

pub fn draw_kind() -> Kind {
    KINDS[weighted(&[1, 3, 5, 3, 3, 3, 2, 2, 2, 2, 1, 2, 1, 3])]
}

/// `ch` interleaved channels of w*h pixels
pub fn fill(kind: Kind, seed: u64, w: usize, h: usize, ch: usize, out: &mut Vec<u8>) {
    out.reserve_exact(w * h * ch);
    let hash = |c: usize, a: usize, b: usize| -> u64 {
        mix2(seed ^ ((c as u64) << 56), ((a as u64) << 32) | b as u64)
    };
    let mut rng = Rng::new(seed, 77);
    let (bu, bv) = ((seed % 8) as f64, (seed / 8 % 8) as f64);
    let amp = [127.0, 100.0, 30.0, 8.0][(seed / 64 % 4) as usize];
    let period = 1 + (seed % 17) as usize;
    let nb = (w.div_ceil(8) * h.div_ceil(8)) as u64;
    let noisy = rng.below(nb);
    let mut wave = [[0f32; 8]; 8];
    if kind == Kind::Lone {
        for (f, row) in wave.iter_mut().enumerate() {
            for (x, v) in row.iter_mut().enumerate() {
                *v = ((2 * x + 1) as f64 * f as f64 * std::f64::consts::PI / 16.0).cos() as f32;
            }
        }
    }
    for y in 0..h {
        for x in 0..w {
            for c in 0..ch {
                let v: u8 = match kind {
                    Kind::Constant => hash(c, 0, 0) as u8,
                    Kind::Gradient => {
                        let a = (hash(c, 1, 1) % 5) as usize;
                        let b = (hash(c, 2, 2) % 5) as usize;
                        ((x * a + y * b + c * 40) & 0xFF) as u8
                    }
                    Kind::Noise => rng.next() as u8,
                    Kind::Extremes => {
                        if rng.next() & 1 == 0 {
                            0
                        } else {
                            255
                        }
                    }
                    Kind::BlockConstant => {
                        let r = hash(c, x / 8, y / 8);
                        if r & 0x300 == 0 {
                            0
                        } else if r & 0x300 == 0x100 {
                            255
                        } else {
                            r as u8
                        }
                    }
                    Kind::Basis => {
                        let pi = std::f64::consts::PI;
                        let s = if hash(c, x / 8, y / 8) & 1 == 0 { 1.0 } else { -1.0 };
                        let f = ((2 * (x % 8) + 1) as f64 * bu * pi / 16.0).cos()
                            * ((2 * (y % 8) + 1) as f64 * bv * pi / 16.0).cos();
                        if seed & 0x1000 != 0 {
                            if s * f >= 0.0 {
                                255
                            } else {
                                0
                            }
                        } else {
                            (128.0 + s * amp * f).round().clamp(0.0, 255.0) as u8
                        }
                    }
                    Kind::Dots => {
                        let r = rng.next();
                        if r % 50 == 0 {
                            (r >> 8) as u8
                        } else {
                            hash(c, 0, 0) as u8
                        }
                    }
                    Kind::Stripes => {
                        let on = if seed & 32 == 0 {
                            (x / period) & 1
                        } else {
                            (y / period) & 1
                        };
                        if on == 0 {
                            hash(c, 3, 3) as u8
                        } else {
                            !(hash(c, 3, 3) as u8)
                        }
                    }
                    Kind::QuietWithNoisyBlock => {
                        let r = rng.next() as u8;
                        if (y / 8 * w.div_ceil(8) + x / 8) as u64 == noisy {
                            r
                        } else {
                            hash(c, 0, 0) as u8
                        }
                    }
                    Kind::Faint => (hash(c, 0, 0) as u8 & 0xF8) | (rng.next() & 3) as u8,
                    Kind::RampSwing => {
                        let b = (x / 8 + y / 8 * w.div_ceil(8)) & 1;
                        if b == 0 {
                            ((x & 7) + (y & 7)) as u8
                        } else {
                            255 - ((x & 7) * (y & 7)) as u8
                        }
                    }
                    // Every channel is 0, 255, the first channel, its inverse, or something of its own
                    Kind::ChannelMix => {
                        let first = mix2(seed, ((y as u64) << 32) | (x as u64 >> 1)) as u8;
                        match (hash(c, 5, 5) >> 7) % 6 {
                            0 => 0,
                            1 => 255,
                            2 | 3 => first,
                            4 => !first,
                            _ => rng.next() as u8,
                        }
                    }
                    // One or two frequencies of its own in every block, mostly high and weak ones
                    Kind::Lone => {
                        let c = if seed & 1 == 0 { 0 } else { c };
                        let mut v = 128.0 + (hash(c, x / 8, y / 8) >> 50 & 31) as f32;
                        for k in 0..2 {
                            let r = mix2(hash(c, x / 8, y / 8), k);
                            if r & 7 >= [6, if seed & 2 == 0 { 0 } else { 3 }][k as usize] {
                                continue;
                            }
                            let f = |b: u64| (if b & 24 == 0 { b & 7 } else { 7 - (b & 7).min(b >> 5 & 7) }) as usize;
                            let amp = (1u32 << (r >> 20 & 7)) as f32 * if r >> 24 & 1 == 0 { 0.7 } else { -0.9 };
                            v += amp * wave[f(r >> 32)][x % 8] * wave[f(r >> 42)][y % 8];
                        }
                        v.round().clamp(0.0, 255.0) as u8
                    }
                    // Repeats itself: equal rows, equal bands, equal blocks
                    Kind::Mirrored => {
                        let a = [1, 8, 16, 32][(seed >> 8) as usize % 4];
                        let b = [1, 8, 16, 32][(seed >> 10) as usize % 4];
                        match (seed >> 12) % 3 {
                            0 => hash(c, x, y / a) as u8,
                            1 => hash(c, x / b, y) as u8,
                            _ => hash(c, x % b, y % a) as u8,
                        }
                    }
                };
                out.push(v);
            }
        }
    }
}
