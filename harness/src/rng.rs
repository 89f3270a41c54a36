//! Deterministic randomness: every case is a function of (property, family, index, seed).

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(parts: &[u64]) -> Self {
        let mut r = Rng(0x9e37_79b9_7f4a_7c15);
        for p in parts {
            r.0 ^= p.wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(31);
            r.next();
        }
        r
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }

    pub fn bits(&mut self, bits: u32) -> u64 {
        let v = self.edge();
        if bits == 64 {
            v
        } else {
            v & ((1u64 << bits) - 1)
        }
    }

    /// Values around the boundaries of the format, or anything.
    fn edge(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => self.next() % 4,
            2 | 3 => {
                let k = self.below(65);
                let p = if k == 64 { 0 } else { 1u64 << k };
                p.wrapping_add(self.next() % 5).wrapping_sub(2)
            }
            4 => self.next() % 300,
            5 => (!0u64).wrapping_sub(self.next() % 3),
            6 => self.next() >> self.below(64),
            _ => self.next(),
        }
    }

    pub fn signed(&mut self, bits: u32) -> i64 {
        let v = self.bits(bits);
        let v = if self.chance(1, 2) { v } else { !v };
        let s = 64 - bits;
        ((v << s) as i64) >> s
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
}
