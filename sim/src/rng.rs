//! One integer decides everything: counter-based hashing, so a decision depends only on
//! (seed, stream, index) and never on who else drew before it.

pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

pub fn hash(seed: u64, stream: u64, idx: u64) -> u64 {
    mix(mix(mix(seed ^ 0x9e3779b97f4a7c15).wrapping_add(stream.wrapping_mul(0xd1342543de82ef95))).wrapping_add(idx.wrapping_mul(0x9e3779b97f4a7c15)))
}

/// Sequential generator for building plans.
pub struct Rng {
    seed: u64,
    n: u64,
}

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        Self {
            seed: hash(seed, stream, 0x5eed),
            n: 0,
        }
    }
    pub fn next(&mut self) -> u64 {
        self.n += 1;
        hash(self.seed, 7, self.n)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pm: u64) -> bool {
        self.below(1000) < pm
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}
