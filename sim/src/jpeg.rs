//! An independent JPEG receiver: strict about everything T.81 demands of a baseline or spectral
//! selection stream, and able to resynchronise on restart markers like a fault tolerant decoder.

pub const ZIGZAG: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20,
    13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59,
    52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

#[derive(Clone)]
pub struct Huff {
    mincode: [i32; 17],
    maxcode: [i32; 18],
    valptr: [usize; 17],
    pub lens: [u8; 16],
    pub vals: Vec<u8>,
    pub ac: bool,
    /// How often each symbol was decoded, in the order of `vals`
    pub count: Vec<std::cell::Cell<u64>>,
}

impl Huff {
    /// Bits spent on codes, and what the tables of annex K would have needed if they have all the symbols
    pub fn cost(&self) -> (u64, Option<u64>) {
        let lengths = |lens: &[u8; 16], vals: &[u8]| {
            let mut r = [0u64; 256];
            let mut k = 0;
            for (i, &n) in lens.iter().enumerate() {
                for _ in 0..n {
                    r[vals[k] as usize] = i as u64 + 1;
                    k += 1;
                }
            }
            r
        };
        let sum = |l: [u64; 256]| {
            let mut n = 0;
            for (v, c) in self.vals.iter().zip(&self.count) {
                if c.get() > 0 && l[*v as usize] == 0 {
                    return None;
                }
                n += l[*v as usize] * c.get();
            }
            Some(n)
        };
        let own = sum(lengths(&self.lens, &self.vals)).unwrap();
        let k = crate::tables::HUFFMAN[self.ac as usize].iter().filter_map(|t| sum(lengths(&t.0, t.1))).min();
        (own, k)
    }

    fn new(lens: [u8; 16], vals: Vec<u8>, ac: bool) -> Result<Huff, String> {
        let mut seen = [false; 256];
        for &v in &vals {
            if seen[v as usize] {
                return Err(format!("DHT lists symbol {:#x} twice", v));
            }
            seen[v as usize] = true;
            let s = v & 15;
            let ok = if ac {
                (1..=10).contains(&s) || v == 0 || v == 0xF0
            } else {
                v <= 11
            };
            // EOBn symbols are legal in progressive streams
            if !ok && !(ac && s == 0) {
                return Err(format!("DHT symbol {:#x} is not legal for 8 bit samples", v));
            }
        }
        let mut h = Huff {
            mincode: [0; 17],
            maxcode: [-1; 18],
            valptr: [0; 17],
            lens,
            count: vec![std::cell::Cell::new(0); vals.len()],
            vals,
            ac,
        };
        let (mut code, mut k) = (0i32, 0usize);
        for l in 1..=16 {
            let n = lens[l - 1] as i32;
            h.valptr[l] = k;
            h.mincode[l] = code;
            if n > 0 {
                code += n;
                k += n as usize;
                h.maxcode[l] = code - 1;
                if code > (1 << l) - 1 {
                    return Err(format!("DHT assigns more codes of {} bits than exist", l));
                }
            }
            code <<= 1;
        }
        if k == 0 {
            return Err("DHT without a code".into());
        }
        Ok(h)
    }
}

#[derive(Clone)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: u8,
    /// Blocks that carry visible samples
    pub bw: usize,
    pub bh: usize,
    /// Blocks including the padding of interleaved scans
    pub pw: usize,
    pub ph: usize,
    /// Zigzag order
    pub coef: Vec<[i16; 64]>,
    /// Coefficients covered by the scans so far
    pub seen: u64,
}

#[derive(Clone)]
pub struct Scan {
    /// (index of the component, DC table, AC table)
    pub comps: Vec<(usize, u8, u8)>,
    pub ss: usize,
    pub se: usize,
    /// Offset of the SOS marker
    pub at: usize,
    pub data: usize,
    pub end: usize,
    pub mcus_x: usize,
    pub mcus_y: usize,
    /// Offsets of the restart markers
    pub rst: Vec<usize>,
    /// Offset of the first byte after those needed for each row of MCUs
    pub row_end: Vec<usize>,
    dc: Vec<Option<std::rc::Rc<Huff>>>,
    ac: Vec<Option<std::rc::Rc<Huff>>>,
    progressive: bool,
}

impl Scan {
    pub fn mcus(&self) -> usize {
        self.mcus_x * self.mcus_y
    }
}

#[derive(Clone)]
pub struct Seg {
    pub marker: u8,
    pub at: usize,
    pub data: Vec<u8>,
}

#[derive(Clone, Default)]
pub struct Jpeg {
    /// Segments in order of appearance (not the entropy coded data)
    pub segs: Vec<Seg>,
    pub w: usize,
    pub h: usize,
    pub progressive: bool,
    pub comps: Vec<Comp>,
    /// Zigzag order
    pub q: [Option<[u8; 64]>; 4],
    pub restart: usize,
    pub scans: Vec<Scan>,
    pub huff: Vec<std::rc::Rc<Huff>>,
    pub stuffed: bool,
    pub zrl: bool,
}

struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
    acc: u32,
    n: u32,
    stuffed: bool,
}

impl<'a> Bits<'a> {
    fn bit(&mut self) -> Result<i32, String> {
        if self.n == 0 {
            let Some(&b) = self.d.get(self.pos) else {
                return Err("entropy coded data ends too early".into());
            };
            self.pos += 1;
            if b == 0xFF {
                match self.d.get(self.pos) {
                    Some(0) => {
                        self.pos += 1;
                        self.stuffed = true;
                    }
                    _ => return Err("0xFF without stuffing in entropy coded data".into()),
                }
            }
            self.acc = b as u32;
            self.n = 8;
        }
        self.n -= 1;
        Ok(((self.acc >> self.n) & 1) as i32)
    }

    fn bits(&mut self, n: u32) -> Result<i32, String> {
        let mut v = 0;
        for _ in 0..n {
            v = v << 1 | self.bit()?;
        }
        Ok(v)
    }

    fn symbol(&mut self, h: &Huff) -> Result<u8, String> {
        let mut code = self.bit()?;
        for l in 1..=16 {
            if h.maxcode[l] >= 0 && code <= h.maxcode[l] && code >= h.mincode[l] {
                let k = h.valptr[l] + (code - h.mincode[l]) as usize;
                h.count[k].set(h.count[k].get() + 1);
                return Ok(h.vals[k]);
            }
            if l < 16 {
                code = code << 1 | self.bit()?;
            }
        }
        Err("undefined Huffman code".into())
    }

    fn value(&mut self, s: u32) -> Result<i32, String> {
        if s == 0 {
            return Ok(0);
        }
        let v = self.bits(s)?;
        Ok(if v < 1 << (s - 1) { v - (1 << s) + 1 } else { v })
    }

    /// Only one bits may follow, up to the end of the byte and of the data
    fn finish(&mut self) -> Result<(), String> {
        while self.n > 0 {
            if self.bit()? != 1 {
                return Err("padding bits are not ones".into());
            }
        }
        if self.pos != self.d.len() {
            return Err(format!(
                "{} bytes left over at the end of an entropy coded segment",
                self.d.len() - self.pos
            ));
        }
        Ok(())
    }
}

/// Position of the next marker (FF followed by neither 00 nor FF fill) at or after `p`
fn next_marker(d: &[u8], mut p: usize) -> Option<usize> {
    while p + 1 < d.len() {
        if d[p] == 0xFF && d[p + 1] != 0 {
            return Some(p);
        }
        p += 1;
    }
    None
}

/// Coverage: the symbols that the streams under judgement have been coded with
fn seen(judged: bool, ac: usize, progressive: bool, symbol: u8) {
    if judged {
        crate::world::shm().symbols[(ac * 2 + progressive as usize) * 256 + symbol as usize] = 1;
    }
}

impl Jpeg {
    /// Decodes the MCUs of one restart interval. `ends` receives the number of bytes consumed after
    /// each MCU. `strict` demands correct padding and that nothing is left over.
    pub fn interval(
        comps: &mut [Comp],
        scan: &Scan,
        d: &[u8],
        first: usize,
        count: usize,
        strict: bool,
        ends: &mut Vec<usize>,
        flags: &mut (bool, bool),
    ) -> Result<(), String> {
        let mut b = Bits {
            d,
            pos: 0,
            acc: 0,
            n: 0,
            stuffed: false,
        };
        let mut pred = [0i32; 4];
        let mut eobrun = 0i32;
        let single = scan.comps.len() == 1;
        for m in first..first + count {
            let (mx, my) = (m % scan.mcus_x, m / scan.mcus_x);
            for (k, &(ci, td, ta)) in scan.comps.iter().enumerate() {
                let (ch, cv) = if single {
                    (1, 1)
                } else {
                    (comps[ci].h, comps[ci].v)
                };
                for by in 0..cv {
                    for bx in 0..ch {
                        let c = &mut comps[ci];
                        let blk = &mut c.coef[(my * cv + by) * c.pw + mx * ch + bx];
                        if scan.ss == 0 {
                            let Some(t) = &scan.dc[td as usize] else {
                                return Err("scan without its DC table".into());
                            };
                            let s = b.symbol(t)? as u32;
                            seen(strict, 0, scan.progressive, s as u8);
                            if s > 11 {
                                return Err(format!("DC category {}", s));
                            }
                            pred[k] += b.value(s)?;
                            if !(-2048..=2047).contains(&pred[k]) {
                                return Err(format!("DC value {} out of range", pred[k]));
                            }
                            blk[0] = pred[k] as i16;
                        }
                        if scan.se > 0 {
                            if eobrun > 0 {
                                eobrun -= 1;
                                continue;
                            }
                            let Some(t) = &scan.ac[ta as usize] else {
                                return Err("scan without its AC table".into());
                            };
                            let mut i = scan.ss.max(1);
                            while i <= scan.se {
                                let rs = b.symbol(t)?;
                                seen(strict, 1, scan.progressive, rs);
                                let (r, s) = ((rs >> 4) as usize, (rs & 15) as u32);
                                if s == 0 {
                                    if r == 15 {
                                        flags.1 = true;
                                        i += 16;
                                        if i > scan.se {
                                            return Err("zero run past the end of a block".into());
                                        }
                                        continue;
                                    }
                                    if r > 0 && !scan.progressive {
                                        return Err("EOB run in a sequential scan".into());
                                    }
                                    eobrun = (1 << r) - 1 + b.bits(r as u32)?;
                                    break;
                                }
                                i += r;
                                if i > scan.se {
                                    return Err("coefficient past the end of a block".into());
                                }
                                if s > 10 {
                                    return Err(format!("AC category {}", s));
                                }
                                blk[i] = b.value(s)? as i16;
                                i += 1;
                            }
                        }
                    }
                }
            }
            ends.push(b.pos);
        }
        if eobrun > 0 {
            return Err("EOB run past the end of a restart interval".into());
        }
        if strict {
            b.finish()?;
        }
        flags.0 |= b.stuffed;
        Ok(())
    }

    pub fn parse(d: &[u8]) -> Result<Jpeg, String> {
        let mut j = Jpeg::default();
        let mut p = 0usize;
        let byte = |p: usize| -> Result<usize, String> {
            d.get(p)
                .map(|&b| b as usize)
                .ok_or_else(|| "stream ends inside a segment".to_string())
        };
        if d.len() < 4 || d[0] != 0xFF || d[1] != 0xD8 {
            return Err("no SOI".into());
        }
        p += 2;
        let mut dc: Vec<Option<std::rc::Rc<Huff>>> = vec![None; 4];
        let mut ac: Vec<Option<std::rc::Rc<Huff>>> = vec![None; 4];
        let mut flags = (false, false);
        let mut sof = false;
        loop {
            if byte(p)? != 0xFF {
                return Err(format!("no marker at offset {}", p));
            }
            let m = byte(p + 1)? as u8;
            let at = p;
            p += 2;
            if m == 0xD9 {
                if p != d.len() {
                    return Err(format!("{} bytes after EOI", d.len() - p));
                }
                break;
            }
            if m < 0xC0 || (0xD0..=0xD8).contains(&m) || m == 0xFF {
                return Err(format!("unexpected marker {:#x} at {}", m, at));
            }
            let len = byte(p)? << 8 | byte(p + 1)?;
            if len < 2 || p + len > d.len() {
                return Err(format!("segment {:#x} with bad length {}", m, len));
            }
            let s = d[p + 2..p + len].to_vec();
            p += len;
            j.segs.push(Seg {
                marker: m,
                at,
                data: s.clone(),
            });
            let short = || format!("segment {:#x} too short", m);
            match m {
                0xE0..=0xEF | 0xFE => {}
                0xDB => {
                    let mut s = &s[..];
                    while !s.is_empty() {
                        if s.len() < 65 {
                            return Err(short());
                        }
                        if s[0] > 3 {
                            return Err(format!("DQT precision/destination {:#x}", s[0]));
                        }
                        let mut t = [0u8; 64];
                        t.copy_from_slice(&s[1..65]);
                        if t.contains(&0) {
                            return Err("DQT contains a zero".into());
                        }
                        j.q[s[0] as usize] = Some(t);
                        s = &s[65..];
                    }
                }
                0xC4 => {
                    let mut s = &s[..];
                    while !s.is_empty() {
                        if s.len() < 17 {
                            return Err(short());
                        }
                        let (class, dest) = (s[0] >> 4, (s[0] & 15) as usize);
                        if class > 1 || dest > 3 {
                            return Err(format!("DHT class/destination {:#x}", s[0]));
                        }
                        let mut lens = [0u8; 16];
                        lens.copy_from_slice(&s[1..17]);
                        let n: usize = lens.iter().map(|&l| l as usize).sum();
                        if n > 256 || s.len() < 17 + n {
                            return Err(short());
                        }
                        let h = Huff::new(lens, s[17..17 + n].to_vec(), class == 1)?;
                        let h = Some(std::rc::Rc::new(h));
                        j.huff.extend(h.clone());
                        if class == 0 {
                            dc[dest] = h;
                        } else {
                            ac[dest] = h;
                        }
                        s = &s[17 + n..];
                    }
                }
                0xDD => {
                    if s.len() != 2 {
                        return Err(short());
                    }
                    j.restart = (s[0] as usize) << 8 | s[1] as usize;
                }
                0xC0 | 0xC2 => {
                    if sof {
                        return Err("second frame header".into());
                    }
                    sof = true;
                    j.progressive = m == 0xC2;
                    if s.len() < 6 || s.len() != 6 + 3 * s[5] as usize {
                        return Err(short());
                    }
                    if s[0] != 8 {
                        return Err(format!("sample precision {}", s[0]));
                    }
                    j.h = (s[1] as usize) << 8 | s[2] as usize;
                    j.w = (s[3] as usize) << 8 | s[4] as usize;
                    if j.w == 0 || j.h == 0 {
                        return Err("zero dimension".into());
                    }
                    let n = s[5] as usize;
                    if n == 0 || n > 4 {
                        return Err(format!("{} components", n));
                    }
                    let (mut hm, mut vm) = (1, 1);
                    for i in 0..n {
                        let f = s[7 + 3 * i];
                        let (h, v) = ((f >> 4) as usize, (f & 15) as usize);
                        if !(1..=4).contains(&h) || !(1..=4).contains(&v) || s[8 + 3 * i] > 3 {
                            return Err(format!("component with factors {:#x}", f));
                        }
                        hm = hm.max(h);
                        vm = vm.max(v);
                    }
                    for i in 0..n {
                        let f = s[7 + 3 * i];
                        let (h, v) = ((f >> 4) as usize, (f & 15) as usize);
                        let id = s[6 + 3 * i];
                        if j.comps.iter().any(|c| c.id == id) {
                            return Err(format!("component {} twice", id));
                        }
                        let (pw, ph) = (j.w.div_ceil(8 * hm) * h, j.h.div_ceil(8 * vm) * v);
                        j.comps.push(Comp {
                            id,
                            h,
                            v,
                            tq: s[8 + 3 * i],
                            bw: (j.w * h).div_ceil(hm).div_ceil(8),
                            bh: (j.h * v).div_ceil(vm).div_ceil(8),
                            pw,
                            ph,
                            coef: vec![[0; 64]; pw * ph],
                            seen: 0,
                        });
                    }
                }
                0xDA => {
                    if !sof {
                        return Err("scan before frame header".into());
                    }
                    if s.is_empty() || s.len() != 4 + 2 * s[0] as usize || s[0] == 0 || s[0] > 4 {
                        return Err(short());
                    }
                    let n = s[0] as usize;
                    let mut comps = Vec::new();
                    let mut blocks = 0;
                    for i in 0..n {
                        let (id, t) = (s[1 + 2 * i], s[2 + 2 * i]);
                        let Some(ci) = j.comps.iter().position(|c| c.id == id) else {
                            return Err(format!("scan of unknown component {}", id));
                        };
                        if comps.iter().any(|c: &(usize, u8, u8)| c.0 >= ci) {
                            return Err("scan components out of order".into());
                        }
                        let max = if j.progressive { 3 } else { 1 };
                        if t >> 4 > max || t & 15 > max {
                            return Err(format!("scan uses tables {:#x}", t));
                        }
                        if j.q[j.comps[ci].tq as usize].is_none() {
                            return Err("scan before its quantisation table".into());
                        }
                        blocks += j.comps[ci].h * j.comps[ci].v;
                        comps.push((ci, t >> 4, t & 15));
                    }
                    let (ss, se, al) = (
                        s[1 + 2 * n] as usize,
                        s[2 + 2 * n] as usize,
                        s[3 + 2 * n],
                    );
                    if al != 0 {
                        return Err(format!("successive approximation {:#x}", al));
                    }
                    if n > 1 && blocks > 10 {
                        return Err(format!("{} blocks per MCU", blocks));
                    }
                    if j.progressive {
                        if se > 63 || ss > se || (ss == 0 && se != 0) || (ss > 0 && n != 1) {
                            return Err(format!("spectral selection {}..{}", ss, se));
                        }
                    } else if ss != 0 || se != 63 {
                        return Err(format!("sequential scan with band {}..{}", ss, se));
                    }
                    let mask = (!0u64 << ss) & (!0u64 >> (63 - se));
                    for &(ci, _, _) in &comps {
                        let c = &mut j.comps[ci];
                        if c.seen & mask != 0 {
                            return Err(format!("component {} coded twice", c.id));
                        }
                        if ss > 0 && c.seen & 1 == 0 {
                            return Err("AC scan before the DC scan".into());
                        }
                        c.seen |= mask;
                    }
                    let (mx, my) = if n == 1 {
                        (j.comps[comps[0].0].bw, j.comps[comps[0].0].bh)
                    } else {
                        let c = &j.comps[comps[0].0];
                        (c.pw / c.h, c.ph / c.v)
                    };
                    let mut scan = Scan {
                        comps,
                        ss,
                        se,
                        at,
                        data: p,
                        end: p,
                        mcus_x: mx,
                        mcus_y: my,
                        rst: Vec::new(),
                        row_end: Vec::new(),
                        dc: dc.clone(),
                        ac: ac.clone(),
                        progressive: j.progressive,
                    };
                    let total = scan.mcus();
                    let mut done = 0;
                    let mut ends = Vec::new();
                    loop {
                        let Some(e) = next_marker(d, p) else {
                            return Err("stream ends inside a scan".into());
                        };
                        let n = if j.restart == 0 {
                            total - done
                        } else {
                            (total - done).min(j.restart)
                        };
                        ends.clear();
                        Jpeg::interval(
                            &mut j.comps,
                            &scan,
                            &d[p..e],
                            done,
                            n,
                            true,
                            &mut ends,
                            &mut flags,
                        )
                        .map_err(|x| {
                            format!(
                                "scan {} (band {}..{}) interval from MCU {}: {}",
                                j.scans.len(),
                                ss,
                                se,
                                done,
                                x
                            )
                        })?;
                        for (i, &x) in ends.iter().enumerate() {
                            if (done + i + 1) % mx == 0 {
                                scan.row_end.push(p + x);
                            }
                        }
                        done += n;
                        p = e;
                        if done == total {
                            break;
                        }
                        let want = 0xD0 + (scan.rst.len() % 8) as u8;
                        if d[e + 1] != want {
                            return Err(format!(
                                "marker {:#x} instead of RST{} after {} of {} MCUs",
                                d[e + 1],
                                want - 0xD0,
                                done,
                                total
                            ));
                        }
                        scan.rst.push(e);
                        p = e + 2;
                    }
                    scan.end = p;
                    j.scans.push(scan);
                }
                _ => return Err(format!("segment {:#x} is not expected here", m)),
            }
        }
        if j.scans.is_empty() {
            return Err("no scan".into());
        }
        j.stuffed = flags.0;
        j.zrl = flags.1;
        Ok(j)
    }

    /// All coefficients of all components have been transmitted
    pub fn complete(&self) -> Result<(), String> {
        for c in &self.comps {
            if c.seen != !0 {
                return Err(format!(
                    "component {} lacks coefficients (received {:#018x})",
                    c.id, c.seen
                ));
            }
        }
        Ok(())
    }

    /// Parses a whole image
    pub fn full(d: &[u8]) -> Result<Jpeg, String> {
        let j = Jpeg::parse(d)?;
        j.complete()?;
        Ok(j)
    }
}

/// What a resynchronising decoder makes of the entropy coded data of one scan: every restart interval
/// is found by counting the markers modulo 8. Returns for each MCU whether it was recovered.
pub fn resync(comps: &mut [Comp], scan: &Scan, restart: usize, d: &[u8]) -> Vec<bool> {
    let total = scan.mcus();
    let mut good = vec![false; total];
    let nint = total.div_ceil(restart);
    let mut idx = 0usize; // interval the data at p belongs to
    let mut p = 0;
    while idx < nint {
        let e = next_marker(d, p).unwrap_or(d.len());
        let first = idx * restart;
        let n = restart.min(total - first);
        let mut ends = Vec::new();
        let r = Jpeg::interval(
            comps,
            scan,
            &d[p..e],
            first,
            n,
            false,
            &mut ends,
            &mut (false, false),
        );
        for g in good.iter_mut().skip(first).take(if r.is_ok() { n } else { 0 }) {
            *g = true;
        }
        if e >= d.len() {
            break;
        }
        let m = d[e + 1];
        if !(0xD0..=0xD7).contains(&m) {
            break;
        }
        // The marker after interval i carries i mod 8: the nearest interval not before this one
        let num = (m - 0xD0) as usize;
        let skip = (num + 8 - idx % 8) % 8;
        idx = idx + skip + 1;
        p = e + 2;
    }
    good
}
