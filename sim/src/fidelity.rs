//! Compares a decoded stream with the image and the configuration it was made from.

use crate::jpeg::*;
use crate::spec::*;
use crate::tables;
use simapi::*;

/// Sample of component `c` at full resolution as the documented conversions define it
pub fn sample(s: &Spec, c: usize, x: usize, y: usize) -> u8 {
    let n = s.ct.bpp();
    let p = &s.data[(y * s.w as usize + x) * n..][..n];
    let ycc = |r: u8, g: u8, b: u8| -> u8 {
        let (r, g, b) = (r as i32, g as i32, b as i32);
        let v = match c {
            0 => 19595 * r + 38470 * g + 7471 * b,
            1 => -11059 * r - 21709 * g + 32768 * b + (128 << 16),
            _ => 32768 * r - 27439 * g - 5329 * b + (128 << 16),
        };
        ((v + 0x7FFF) >> 16) as u8
    };
    if s.api == Api::Image {
        return p[c];
    }
    match s.ct {
        Ct::Luma | Ct::Ycbcr | Ct::Ycck => p[c],
        Ct::Rgb | Ct::Rgba => ycc(p[0], p[1], p[2]),
        Ct::Bgr | Ct::Bgra => ycc(p[2], p[1], p[0]),
        Ct::Cmyk => 255 - p[c],
        Ct::CmykAsYcck => {
            if c == 3 {
                255 - p[3]
            } else {
                ycc(p[0], p[1], p[2])
            }
        }
    }
}

/// Headers: everything that was configured arrived
pub fn headers(s: &Spec, m: &Model, j: &Jpeg) -> Result<(), String> {
    let jct = s.ct.jct();
    if (j.w, j.h) != (s.w as usize, s.h as usize) {
        return Err(format!("frame is {}x{}", j.w, j.h));
    }
    if j.comps.len() != jct.comps() {
        return Err(format!("{} components", j.comps.len()));
    }
    if j.progressive != m.scans.is_some() {
        return Err(format!("progressive is {}", j.progressive));
    }
    if j.restart != m.restart as usize {
        return Err(format!("restart interval {}", j.restart));
    }
    let (h, v) = (m.h, m.v);
    let want: Vec<(usize, usize, usize)> = match jct {
        Jct::Luma => vec![(1, 1, 0)],
        Jct::Ycbcr => vec![(h, v, 0), (1, 1, 1), (1, 1, 1)],
        Jct::Cmyk => vec![(1, 1, 1), (1, 1, 1), (1, 1, 1), (h, v, 0)],
        Jct::Ycck => vec![(h, v, 0), (1, 1, 1), (1, 1, 1), (h, v, 0)],
    };
    // Only the ratio of the factors is observable
    let hm = j.comps.iter().map(|c| c.h).max().unwrap_or(1);
    let vm = j.comps.iter().map(|c| c.v).max().unwrap_or(1);
    let (whm, wvm) = (
        want.iter().map(|w| w.0).max().unwrap_or(1),
        want.iter().map(|w| w.1).max().unwrap_or(1),
    );
    for (i, (c, w)) in j.comps.iter().zip(&want).enumerate() {
        if c.h * whm != w.0 * hm || c.v * wvm != w.1 * vm {
            return Err(format!(
                "component {} has sampling factors {}x{} of {}x{}",
                i, c.h, c.v, hm, vm
            ));
        }
        let Some(q) = j.q[c.tq as usize] else {
            return Err("missing quantisation table".into());
        };
        for k in 0..64 {
            if q[k] != m.q[w.2][ZIGZAG[k]] {
                return Err(format!(
                    "component {} coefficient {} has quantiser {} instead of {}",
                    i,
                    k,
                    q[k],
                    m.q[w.2][ZIGZAG[k]]
                ));
            }
        }
    }
    let app0 = match j.segs.first() {
        Some(s) if s.marker == 0xE0 && s.data.starts_with(b"JFIF\0") && s.data.len() >= 12 => &s.data,
        _ => return Err("no JFIF header after SOI".into()),
    };
    // Minor versions up to 2 exist
    if app0[5] != 1 || app0[6] > 2 {
        return Err(format!("JFIF version {}.{:02}", app0[5], app0[6]));
    }
    let dens = (
        app0[7],
        (app0[8] as u16) << 8 | app0[9] as u16,
        (app0[10] as u16) << 8 | app0[11] as u16,
    );
    let want = match m.density {
        Dens::None => (0, 1, 1),
        Dens::Inch(x, y) => (1, x, y),
        Dens::Cm(x, y) => (2, x, y),
    };
    if dens != want {
        return Err(format!("density {:?} instead of {:?}", dens, want));
    }
    let adobe: Vec<&Seg> = j
        .segs
        .iter()
        .filter(|s| s.marker == 0xEE && s.data.starts_with(b"Adobe") && s.data.len() == 12)
        .collect();
    let own = m
        .apps
        .iter()
        .filter(|a| a.0 == 14 && a.1.starts_with(b"Adobe") && a.1.len() == 12)
        .count();
    let want = match jct {
        Jct::Cmyk => Some(0),
        Jct::Ycck => Some(2),
        _ => None,
    };
    if adobe.len() != own + want.is_some() as usize
        || want.is_some_and(|t| adobe[0].data[11] != t)
    {
        return Err("colour transform is not announced as it should be".into());
    }
    // Without optimised tables everything is coded with those of annex K
    if !m.optimize {
        for s in j.segs.iter().filter(|s| s.marker == 0xC4) {
            let mut d = &s.data[..];
            while d.len() > 17 {
                let n = d[1..17].iter().map(|&n| n as usize).sum::<usize>().min(d.len() - 17);
                let class = (d[0] >> 4) as usize & 1;
                if !tables::HUFFMAN[class].iter().any(|t| t.0 == d[1..17] && *t.1 == d[17..17 + n]) {
                    return Err("a Huffman table is not a default one although none was asked to be optimised".into());
                }
                d = &d[17 + n..];
            }
        }
    } else {
        // A table that is optimal for all symbols and the reserved all-ones code costs at most the 15 bits
        // more than another that the reserved code of the other one is longer by. Limiting codes to 16 bits
        // makes rare symbols cost more.
        for h in &j.huff {
            if let (own, Some(k)) = h.cost() {
                let limited = if h.lens[15] > 0 { k / 64 } else { 0 };
                if own > k + 15 + limited {
                    return Err(format!(
                        "an optimised {} table takes {} bits where the default one takes {}",
                        if h.ac { "AC" } else { "DC" },
                        own,
                        k
                    ));
                }
            }
        }
    }
    Ok(())
}

fn dct(b: &[f64; 64], out: &mut [f64; 64]) {
    static C: std::sync::OnceLock<[[f64; 8]; 8]> = std::sync::OnceLock::new();
    let cos = C.get_or_init(|| {
        let mut c = [[0.0; 8]; 8];
        for (u, r) in c.iter_mut().enumerate() {
            for (x, v) in r.iter_mut().enumerate() {
                *v = ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos()
                    * if u == 0 { 0.5f64.sqrt() * 0.5 } else { 0.5 };
            }
        }
        c
    });
    let mut t = [0.0; 64];
    for y in 0..8 {
        for u in 0..8 {
            let mut a = 0.0;
            for x in 0..8 {
                a += b[y * 8 + x] * cos[u][x];
            }
            t[y * 8 + u] = a;
        }
    }
    for u in 0..8 {
        for v in 0..8 {
            let mut a = 0.0;
            for y in 0..8 {
                a += t[y * 8 + u] * cos[v][y];
            }
            out[v * 8 + u] = a;
        }
    }
}

/// Every coefficient that carries visible samples is within the quantisation error
pub fn coefficients(s: &Spec, j: &Jpeg) -> Result<(), String> {
    let hm = j.comps.iter().map(|c| c.h).max().unwrap_or(1);
    let vm = j.comps.iter().map(|c| c.v).max().unwrap_or(1);
    let (w, h) = (s.w as usize, s.h as usize);
    for (ci, c) in j.comps.iter().enumerate() {
        let (hs, vs) = (hm / c.h, vm / c.v);
        let q = j.q[c.tq as usize].ok_or("missing table")?;
        for by in 0..c.bh {
            for bx in 0..c.bw {
                if bx * 8 * hs >= w || by * 8 * vs >= h {
                    continue;
                }
                let mut b = [0.0; 64];
                for y in 0..8 {
                    let sy = ((by * 8 + y) * vs).min(h - 1);
                    for x in 0..8 {
                        let sx = ((bx * 8 + x) * hs).min(w - 1);
                        b[y * 8 + x] = sample(s, ci, sx, sy) as f64 - 128.0;
                    }
                }
                let mut f = [0.0; 64];
                dct(&b, &mut f);
                let blk = &c.coef[by * c.pw + bx];
                for k in 0..64 {
                    let qk = q[k] as f64;
                    let want = f[ZIGZAG[k]];
                    let got = blk[k] as f64 * qk;
                    let tol = qk / 2.0 + 0.5 + (want.abs() + qk / 2.0) * qk / 8192.0;
                    if (got - want).abs() > tol {
                        return Err(format!(
                            "component {} block {},{} coefficient {}: {} decoded, {:.2} in the image, quantiser {}",
                            ci, bx, by, k, got, want, q[k]
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}

/// The application segments between SOI and the frame, without those the encoder adds itself
pub fn user_segments(s: &Spec, j: &Jpeg) -> Vec<(u8, Vec<u8>)> {
    let mut v: Vec<(u8, Vec<u8>)> = j
        .segs
        .iter()
        .filter(|x| (0xE0..=0xEF).contains(&x.marker))
        .map(|x| (x.marker - 0xE0, x.data.clone()))
        .collect();
    if !v.is_empty() {
        v.remove(0);
    }
    if matches!(s.ct.jct(), Jct::Cmyk | Jct::Ycck) {
        if let Some(i) = v.iter().position(|x| x.0 == 14) {
            v.remove(i);
        }
    }
    v
}

pub fn check(s: &Spec, d: &[u8]) -> Result<Jpeg, String> {
    let j = Jpeg::full(d)?;
    let m = s.model();
    headers(s, &m, &j)?;
    if user_segments(s, &j) != m.apps {
        return Err("application segments differ from those that were added".into());
    }
    coefficients(s, &j)?;
    Ok(j)
}
