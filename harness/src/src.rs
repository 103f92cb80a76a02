//! Choice-sequence generator: every random decision of a case is one bounded
//! u64 in `rec`, so a case is replayed and shrunk as a plain vector of integers.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub rec: Vec<u64>,
    /// when set, every choice is appended here as it is made
    pub mirror: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), replay: Vec::new(), rec: Vec::new(), mirror: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { rng: None, replay: choices, rec: Vec::new(), mirror: None }
    }
    /// A choice in 0..n (n >= 1); 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = match &mut self.rng {
            Some(r) => ((u128::from(r.next()) * u128::from(n)) >> 64) as u64,
            None => {
                let i = self.rec.len();
                if i < self.replay.len() { self.replay[i] % n } else { 0 }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.mirror {
            use std::io::Write;
            let _ = write!(f, "{v},");
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.usize(xs.len())].clone()
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 53) as f64 / (1u64 << 53) as f64
    }
    pub fn uniform(&mut self, lo: f64, hi: f64) -> f64 {
        let u = self.unit();
        (lo + u * (hi - lo)).clamp(lo, hi)
    }
    pub fn log_uniform(&mut self, lo: f64, hi: f64) -> f64 {
        let u = self.unit();
        (lo.ln() + u * (hi.ln() - lo.ln())).exp().clamp(lo, hi)
    }
    /// A real in [lo,hi]: a "nice" value, a 1/8-grid value, or anything.
    pub fn real(&mut self, lo: f64, hi: f64) -> f64 {
        const NICE: [f64; 20] = [
            0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, -2.0, 0.25, 10.0, -3.0, 1.5, 0.1, 4.0, 5.0, -0.1, 0.75, 7.0,
            -10.0, 100.0,
        ];
        match self.below(4) {
            0 => {
                let v = NICE[self.usize(NICE.len())];
                if v >= lo && v <= hi { v } else { lo + (hi - lo) * 0.5 }
            }
            1 => {
                let l = (lo.max(-16.0) * 8.0).ceil() as i64;
                let h = (hi.min(16.0) * 8.0).floor() as i64;
                if l <= h { self.range(l, h) as f64 / 8.0 } else { self.uniform(lo, hi) }
            }
            _ => self.uniform(lo, hi),
        }
    }
    /// A positive real in [lo,hi], log-uniform or nice.
    pub fn pos(&mut self, lo: f64, hi: f64) -> f64 {
        const NICE: [f64; 14] = [1.0, 2.0, 0.5, 3.0, 0.25, 1.5, 4.0, 5.0, 10.0, 0.1, 0.75, 2.5, 7.0, 20.0];
        match self.below(4) {
            0 => {
                let v = NICE[self.usize(NICE.len())];
                if v >= lo && v <= hi { v } else { (lo * hi).sqrt() }
            }
            1 => {
                let v = (self.below(128) + 1) as f64 / 8.0;
                if v >= lo && v <= hi { v } else { (lo * hi).sqrt() }
            }
            _ => self.log_uniform(lo, hi),
        }
    }
    /// A probability strictly inside (0,1).
    pub fn prob(&mut self) -> f64 {
        match self.below(5) {
            0 => self.pick(&[0.5, 0.25, 0.75, 0.1, 0.9, 0.3, 0.7, 0.2, 0.8]),
            1 => self.log_uniform(1e-6, 0.5),
            2 => 1.0 - self.log_uniform(1e-6, 0.5),
            _ => self.uniform(0.001, 0.999),
        }
    }
    /// A size in 0..=max: mostly small, sometimes anything, sometimes next to a power of two or ten.
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(6) {
            0 | 1 => self.usize(max.min(20) + 1),
            2 | 3 => self.log_uniform(1.0, max as f64 + 0.99) as usize,
            4 => {
                let b = 1usize << self.below(u64::from(max.ilog2()) + 1);
                (b + self.usize(3)).saturating_sub(1).min(max)
            }
            _ => {
                let k = self.below(max.ilog10().into()) as u32 + 1;
                let b = 10usize.pow(k) * (1 + self.usize(9));
                (b + self.usize(3)).saturating_sub(1).min(max)
            }
        }
    }
    /// An independent generator fixed by one choice: for the bulk of a large case.
    pub fn fork(&mut self) -> Src {
        let seed = self.below(1 << 32);
        Src::random(seed ^ 0x5bd1_e995_0000_0000)
    }
    /// n items; a long list is fixed by one choice.
    pub fn many<T>(&mut self, n: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        if n > 64 {
            let mut r = self.fork();
            (0..n).map(|_| { r.rec.clear(); f(&mut r) }).collect()
        } else {
            (0..n).map(|_| f(self)).collect()
        }
    }
    /// A short length (at most `short`), or rarely any up to `max`.
    pub fn length(&mut self, short: usize, max: usize) -> usize {
        if self.chance(1, 500) { if self.chance(1, 40) { self.size(max) } else { self.size(max.min(2000)) } } else { self.usize(short + 1) }
    }
    pub fn vec<T>(&mut self, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let n = self.usize(max + 1);
        (0..n).map(|_| f(self)).collect()
    }
}

pub fn fnv(data: &[u8], seed: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed;
    for b in data {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 31)
}
pub fn hash_choices(tag: &str, c: &[u64]) -> u64 {
    let mut v = Vec::with_capacity(c.len() * 8 + tag.len());
    v.extend_from_slice(tag.as_bytes());
    for x in c {
        v.extend_from_slice(&x.to_le_bytes());
    }
    fnv(&v, 0)
}
