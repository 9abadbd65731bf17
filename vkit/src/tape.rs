//! A tape of choices: every random decision of a case is one integer on the tape, so a case *is* its
//! tape.  Generation records, replay reads back (missing entries read as 0 = the simplest choice).

pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(splitmix(seed), splitmix(seed ^ 0x9e37_79b9_7f4a_7c15));
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
}
pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    splitmix(h)
}

pub struct Tape {
    pub rec: Vec<u64>,
    replay: Option<Vec<u64>>,
    rng: Rng,
    out: Option<std::fs::File>,
}
impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape { rec: Vec::new(), replay: None, rng: Rng::new(seed), out: std::env::var("VKIT_TAPE_OUT").ok().and_then(|p| std::fs::File::create(p).ok()) }
    }
    pub fn replay(v: Vec<u64>) -> Tape {
        Tape { rec: Vec::new(), replay: Some(v), rng: Rng::new(0), out: None }
    }
    /// uniform in 0..n (n>=1)
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => match r.get(self.rec.len()) {
                Some(&v) => {
                    if v < n {
                        v
                    } else {
                        v % n
                    }
                }
                None => 0,
            },
            None => {
                // multiply-shift; bias is irrelevant here
                ((self.rng.next() as u128 * n as u128) >> 64) as u64
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.out {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    /// lo..=hi, simplest lo
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    pub fn u32(&mut self, lo: u32, hi: u32) -> u32 {
        self.range(lo as i64, hi as i64) as u32
    }
    /// true with probability num/den; simplest false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// index into weights; simplest = first
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|&x| x as u64).sum();
        let mut v = self.below(tot);
        for (i, &x) in w.iter().enumerate() {
            if v < x as u64 {
                return i;
            }
            v -= x as u64;
        }
        0
    }
    /// small-biased in lo..=hi (geometric-like over magnitude)
    pub fn small(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi - lo) as u64;
        if span == 0 {
            return lo;
        }
        let bits = 64 - span.leading_zeros() as u64;
        let b = self.below(bits + 1);
        let cap = if b >= 64 { span } else { ((1u64 << b) - 1).min(span) };
        lo + self.below(cap + 1) as i64
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// A pseudo-random generator seeded from one tape entry (bulk data such as noise samples).
    pub fn fork(&mut self) -> Rng {
        let s = self.below(1 << 32);
        Rng::new(s)
    }
}
