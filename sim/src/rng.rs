//! The one source of randomness: every choice in a simulated run comes from here.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h, data.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut next = || {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            mix(x, 0x5851_F42D_4C95_7F2D)
        };
        Rng {
            s: [next(), next(), next(), next() | 1],
        }
    }

    /// An independent stream, so that adding draws in one part does not shift another.
    pub fn fork(&mut self, label: u64) -> Rng {
        Rng::new(mix(self.u64(), label))
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (((self.u64() >> 32).wrapping_mul(n as u64)) >> 32) as usize
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            return lo;
        }
        let span = (hi - lo) as u64 + 1;
        lo + (self.u64() % span) as i64
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }

    pub fn p(&mut self, probability: f64) -> bool {
        ((self.u64() >> 11) as f64) * (1.0 / (1u64 << 53) as f64) < probability
    }

    pub fn byte(&mut self) -> u8 {
        (self.u64() >> 24) as u8
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }

    pub fn weighted(&mut self, weights: &[f64]) -> usize {
        let total: f64 = weights.iter().sum();
        let mut x = ((self.u64() >> 11) as f64) * (1.0 / (1u64 << 53) as f64) * total;
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        weights.len() - 1
    }

    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = self.below(i + 1);
            items.swap(i, j);
        }
    }

    /// Small mostly, large sometimes.
    pub fn skewed(&mut self, max: usize) -> usize {
        let k = self.below(4);
        let m = match k {
            0 => max.min(4),
            1 => max.min(32),
            2 => max.min(max / 4 + 1),
            _ => max,
        };
        self.below(m + 1)
    }
}
