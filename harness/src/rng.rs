//! The only source of randomness: xoshiro256** seeded by splitmix64.
#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Stateless mixing of a few words into one.
pub fn mix(words: &[u64]) -> u64 {
    let mut x = 0x243F6A8885A308D3u64;
    for w in words { x ^= *w; x = splitmix(&mut x); }
    x
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 { if n <= 1 { 0 } else { self.next() % n } }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn usize_in(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as u64, hi as u64) as usize }
    /// True with probability pct/100.
    pub fn pct(&mut self, pct: u64) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.idx(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.idx(i + 1); v.swap(i, j); }
    }
}

/// 64-bit rolling hash for event logs (order sensitive).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hash64(pub u64);
impl Hash64 {
    pub fn new() -> Self { Hash64(0xcbf29ce484222325) }
    pub fn u64(&mut self, v: u64) {
        let mut x = self.0 ^ v.wrapping_mul(0x9E3779B97F4A7C15);
        x = (x ^ (x >> 32)).wrapping_mul(0xD6E8FEB86659FD93);
        self.0 = x ^ (x >> 29);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u64(b.len() as u64);
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.u64(u64::from_le_bytes(w));
        }
    }
}
