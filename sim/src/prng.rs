//! The one PRNG behind every simulator choice (xoshiro256**, seeded by splitmix64).
use num_bigint::BigUint;

#[derive(Clone)]
pub struct Prng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Order-dependent 64-bit mixing, for schedule and log fingerprints
pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut x)
}

pub fn mix_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w));
    }
    mix(h, b.len() as u64)
}

impl Prng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Prng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }

    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }

    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let w = self.u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&w[..n]);
        }
    }

    pub fn bits(&mut self, n: u64) -> BigUint {
        let mut b = vec![0u8; ((n + 7) / 8) as usize];
        self.fill(&mut b);
        let v = BigUint::from_bytes_le(&b);
        v & ((BigUint::from(1u32) << n) - 1u32)
    }

    pub fn big_below(&mut self, n: &BigUint) -> BigUint {
        self.bits(n.bits() + 64) % n
    }

    /// log-uniform in lo..=hi
    pub fn log_range(&mut self, lo: u64, hi: u64) -> u64 {
        let (a, b) = ((lo.max(1)) as f64, hi as f64);
        let u = (self.u64() >> 11) as f64 / (1u64 << 53) as f64;
        ((a.ln() + u * (b.ln() - a.ln())).exp() as u64).clamp(lo, hi)
    }
}
