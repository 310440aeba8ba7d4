//! The only source of nondeterminism: a recorded sequence of choices drawn from one PRNG.
use crate::alloc::harness;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// A plain generator used to expand one recorded choice into bulk content.
pub struct Expand(u64);
impl Expand {
    pub fn new(seed: u64) -> Self { Expand(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
}

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub log: Vec<u64>,
    pub live: Option<std::fs::File>,
}

const MAX_DRAWS: usize = 400_000;

impl Src {
    pub fn from_seed(seed: u64) -> Self {
        Src { state: mix(seed), replay: None, pos: 0, log: Vec::new(), live: None }
    }
    pub fn from_choices(c: Vec<u64>) -> Self {
        Src { state: 0, replay: Some(c), pos: 0, log: Vec::new(), live: None }
    }
    /// A value in `0..n` (`n == 0`: any u64). 0 is always the simplest choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        let raw = match &self.replay {
            Some(v) => v.get(self.pos).copied().unwrap_or(0),
            None => {
                if self.pos >= MAX_DRAWS { 0 } else {
                    self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                    mix(self.state)
                }
            }
        };
        let v = if n == 0 || raw < n { raw } else { raw % n };
        self.pos += 1;
        harness(|| {
            self.log.push(v);
            if let Some(f) = self.live.as_mut() {
                use std::io::Write;
                let _ = f.write_all(format!("{v}\n").as_bytes());
            }
        });
        v
    }
    pub fn usize(&mut self, n: usize) -> usize { self.draw(n as u64) as usize }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo { lo } else { lo + self.usize(hi - lo + 1) }
    }
    /// True with probability `num/den`; false is the simplest choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den) >= den - num.min(den) }
    pub fn bool(&mut self) -> bool { self.draw(2) == 1 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.usize(v.len()); &v[i] }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        let mut r = self.draw(total.max(1));
        for (i, &x) in w.iter().enumerate() {
            if r < x as u64 { return i }
            r -= x as u64;
        }
        w.len() - 1
    }
}
