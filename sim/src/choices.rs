//! Every decision of a simulated execution is drawn from here and recorded. The recorded list is the
//! replay file; in every draw 0 is the simplest outcome, which is what minimisation moves towards.

use crate::sys::{mix, mix2};
use crate::world::{shm, Global, MAX_CHOICES};

pub struct Choices {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
}

static CH: Global<Option<Choices>> = Global::new(None);

pub fn start_seed(seed: u64) {
    shm().nchoices = 0;
    *CH.get() = Some(Choices {
        state: mix(seed),
        replay: None,
        pos: 0,
    });
}

pub fn start_replay(list: Vec<u64>) {
    shm().nchoices = 0;
    *CH.get() = Some(Choices {
        state: 0,
        replay: Some(list),
        pos: 0,
    });
}

/// Uniform in 0..n
pub fn draw(n: u64) -> u64 {
    let c = CH.get().as_mut().expect("choices");
    if n <= 1 || c.pos >= MAX_CHOICES {
        return 0;
    }
    let v = match &c.replay {
        Some(l) => l.get(c.pos).copied().unwrap_or(0).min(n - 1),
        None => {
            c.state = c.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let r = mix(c.state);
            ((r as u128 * n as u128) >> 64) as u64
        }
    };
    shm().choices[c.pos] = v;
    c.pos += 1;
    shm().nchoices = c.pos as u32;
    v
}

pub fn exhausted() -> bool {
    let c = CH.get().as_ref().expect("choices");
    c.pos >= MAX_CHOICES - 8
}

pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}

/// True with probability num/den, false is the simplest
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) >= den - num
}

pub fn pick<T: Copy>(l: &[T]) -> T {
    l[draw(l.len() as u64) as usize]
}

/// Index with the given weights
pub fn weighted(w: &[u64]) -> usize {
    let mut v = draw(w.iter().sum());
    for (i, &x) in w.iter().enumerate() {
        if v < x {
            return i;
        }
        v -= x;
    }
    w.len() - 1
}

/// 0..=max, small values much more likely
pub fn skewed(max: u64) -> u64 {
    let bits = 64 - max.leading_zeros() as u64;
    let b = draw(bits + 1);
    if b == 0 {
        return 0;
    }
    let hi = ((1u128 << b) - 1).min(max as u128) as u64;
    draw(hi + 1)
}

pub fn seed() -> u64 {
    draw(1 << 32)
}

/// Generator for bulk data (pixels, patterns) that starts from one recorded choice
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        Rng(mix2(seed, stream))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n.max(1) as u128) >> 64) as u64
    }
}
