//! Deterministic PRNG (xoshiro256**, seeded by splitmix64): every random choice comes from VERIF_SEED.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            mix(s)
        };
        Rng([n(), n(), n(), n()])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// integers with a bias to boundary values
    pub fn i32e(&mut self) -> i32 {
        match self.below(8) {
            0 => *self.pick(&[0, 1, -1, 2, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 255, 256, 65535, 65536, -256]),
            1 => self.range(-10, 10) as i32,
            2 => self.range(0, 3000) as i32,
            3 => 1i32.wrapping_shl(self.u32() % 32),
            _ => self.u32() as i32,
        }
    }
    pub fn u32e(&mut self) -> u32 {
        self.i32e() as u32
    }
    pub fn u64e(&mut self) -> u64 {
        match self.below(8) {
            6 => {
                // round in decimal, up to the longest there are
                let mut x = 1 + self.below(99_999);
                for _ in 0..self.below(20) {
                    x = x.checked_mul(10).unwrap_or(x)
                }
                match self.below(4) {
                    0 => x.wrapping_neg(),
                    1 => x.wrapping_sub(1),
                    _ => x,
                }
            }
            7 => {
                // digits that repeat
                let (d, n) = (1 + self.below(9), 1 + self.below(20));
                (0..n).fold(0u64, |x, _| x.wrapping_mul(10).wrapping_add(d))
            }
            0 => *self.pick(&[0, 1, u64::MAX, i64::MAX as u64, i64::MIN as u64, 1 << 53, (1 << 53) + 1, 76561198122624102, u32::MAX as u64, 1 << 32]),
            1 => 1u64 << self.below(64),
            2 => self.below(10000),
            _ => self.u64(),
        }
    }
    pub fn u8e(&mut self) -> u8 {
        match self.below(4) {
            0 => *self.pick(&[0u8, 1, 255, 127, 128, 254]),
            _ => self.u8(),
        }
    }
    /// any finite float, with signed zeros, subnormals and extremes
    pub fn f32_finite(&mut self) -> f32 {
        match self.below(6) {
            0 => *self.pick(&[0.0, -0.0, 1.0, -1.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -1e-45, 0.1, 110.0, 270.0, 16777217.0]),
            1 => self.range(-100000, 100000) as f32 / 100.0,
            _ => loop {
                let f = f32::from_bits(self.u32());
                if f.is_finite() {
                    break f;
                }
            },
        }
    }
    pub fn f32_any(&mut self) -> f32 {
        if self.chance(1, 10) {
            match self.below(4) {
                0 => f32::NAN,
                1 => f32::INFINITY,
                2 => f32::NEG_INFINITY,
                // any of them, sign and payload included
                _ => f32::from_bits(0x7f80_0001 + (self.u32() & 0x807f_fffe)),
            }
        } else {
            self.f32_finite()
        }
    }
}
