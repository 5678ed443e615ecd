//! Choice-tape source: every random decision of every generator is one bounded
//! draw from here, recorded on a tape.  A case is a pure function of its tape,
//! so shrinking (fewer / smaller draws) and replay never involve an RNG.

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Rng(a, b)
    }
    // xoroshiro-like (wyrand style): cheap and good enough for test generation
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0xa0761d6478bd642f ^ (self.1 << 1));
        let t = (self.0 as u128).wrapping_mul((self.0 ^ 0xe7037ed1a0b428db) as u128);
        let r = (t >> 64) as u64 ^ t as u64;
        self.1 = self.1.rotate_left(17).wrapping_add(r) | 1;
        splitmix_mix(r ^ self.1.rotate_left(32))
    }
}
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    splitmix_mix(*s)
}
pub fn splitmix_mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub struct Src {
    pub log: Option<std::fs::File>,
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub tape: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { log: None, rng: Some(Rng::new(seed)), replay: vec![], pos: 0, tape: Vec::with_capacity(256) }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { log: None, rng: None, replay: tape, pos: 0, tape: vec![] }
    }
    /// Uniform in [0, n). n must be > 0.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match self.rng.as_mut() {
            Some(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v >= n { n - 1 } else { v }
            }
        };
        self.rec(v)
    }
    fn rec(&mut self, v: u64) -> u64 {
        self.tape.push(v);
        if let Some(f) = self.log.as_mut() {
            use std::io::Write;
            f.write_all(&v.to_le_bytes()).expect("log");
        }
        v
    }
    pub fn u(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Inclusive range; the simplest value is lo.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// Symmetric range [-m, m]; the simplest value is 0.
    pub fn sym(&mut self, m: i64) -> i64 {
        let v = self.below((2 * m + 1) as u64) as i64;
        if v % 2 == 1 { (v + 1) / 2 } else { -(v / 2) }
    }
    /// True with probability num/den; the simplest value is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.u(xs.len());
        &xs[i]
    }
    /// Index by weights; simplest is 0.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut v = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if v < *x { return i; }
            v -= x;
        }
        unreachable!()
    }
    pub fn bits(&mut self) -> u64 {
        let v = match self.rng.as_mut() {
            Some(r) => r.next(),
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        };
        self.rec(v)
    }
}
