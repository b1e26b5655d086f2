/// xoshiro256** seeded by splitmix64; the only source of randomness.
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut z = seed;
        for x in &mut s {
            z = mix(z);
            *x = z;
        }
        Rng(s)
    }

    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }

    pub fn u128(&mut self) -> u128 {
        u128::from(self.u64()) << 64 | u128::from(self.u64())
    }

    /// Uniform in `0..n` (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Inclusive.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }

    /// True with probability `a/b`.
    pub fn chance(&mut self, a: u64, b: u64) -> bool {
        self.below(b) < a
    }

    pub fn pick<'a, T>(&mut self, x: &'a [T]) -> &'a T {
        &x[self.usize(x.len())]
    }

    /// An index with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| u64::from(x)).sum();
        let mut r = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if r < u64::from(x) {
                return i;
            }
            r -= u64::from(x);
        }
        unreachable!()
    }
}
