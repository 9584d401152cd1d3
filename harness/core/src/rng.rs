//! Small deterministic PRNG (splitmix64 seeding + xoshiro256**).
#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// FNV-1a, used for all hashing of names and inputs.
pub fn fnv(bytes: &[u8], mut h: u64) -> u64 {
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf29ce484222325;

/// Faster 8-bytes-at-a-time hash used for distinct counting.
pub fn hash_bytes(bytes: &[u8], seed: u64) -> u64 {
    let mut h = seed ^ (bytes.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
    let mut it = bytes.chunks_exact(8);
    for c in &mut it {
        let mut a = [0u8; 8];
        a.copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(a)).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    for b in it.remainder() {
        h = (h ^ *b as u64).wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^= h >> 29;
    }
    h = (h ^ (h >> 33)).wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 33)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ])
    }
    /// A generator for one case: a pure function of (seed, unit name, case number).
    pub fn for_case(seed: u64, unit: &str, case: u64) -> Self {
        let h = fnv(unit.as_bytes(), FNV0 ^ seed.wrapping_mul(0x9E3779B97F4A7C15));
        Rng::new(h ^ case.wrapping_mul(0xD1B54A32D192ED03))
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 33) as u8
    }
    /// Uniform in 0..n (0 when n == 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for c in out.chunks_mut(8) {
            let r = self.u64().to_le_bytes();
            c.copy_from_slice(&r[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill(&mut v);
        v
    }
}
