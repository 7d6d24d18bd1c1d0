//! Naive little-endian bit reader / writer: one bit at a time, no lookahead, no fast paths.
#[derive(Default, Clone)]
pub struct BitW {
    pub b: Vec<u8>,
    pub n: usize,
}
impl BitW {
    pub fn bit(&mut self, x: bool) {
        if self.n % 8 == 0 {
            self.b.push(0);
        }
        if x {
            self.b[self.n / 8] |= 1 << (self.n % 8);
        }
        self.n += 1;
    }
    pub fn bits(&mut self, v: u64, n: u32) {
        for i in 0..n {
            self.bit((v >> i) & 1 == 1)
        }
    }
    pub fn bytes(&mut self, d: &[u8]) {
        for x in d {
            self.bits(*x as u64, 8)
        }
    }
    pub fn u8(&mut self, v: u8) {
        self.bits(v as u64, 8)
    }
    pub fn u32(&mut self, v: u32) {
        self.bits(v as u64, 32)
    }
    pub fn i32(&mut self, v: i32) {
        self.u32(v as u32)
    }
    pub fn u64(&mut self, v: u64) {
        self.bits(v, 64)
    }
    pub fn f32(&mut self, v: f32) {
        self.u32(v.to_bits())
    }
    /// value below `max`, written in `bits` bits and one more when that bit is needed to tell
    /// values apart without reaching `max`
    pub fn bounded(&mut self, v: u64, bits: u32, max: u64) {
        let low = v & ((1u64 << bits) - 1);
        self.bits(low, bits);
        if low + (1u64 << bits) < max {
            self.bit(v >> bits != 0)
        } else {
            assert!(v >> bits == 0, "bounded value out of range")
        }
    }
}

#[derive(Clone)]
pub struct BitR<'a> {
    pub d: &'a [u8],
    pub pos: usize,
}
impl<'a> BitR<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        BitR { d, pos: 0 }
    }
    pub fn left(&self) -> usize {
        self.d.len() * 8 - self.pos
    }
    pub fn bits(&mut self, n: u32) -> Option<u64> {
        if self.left() < n as usize {
            return None;
        }
        let mut v = 0u64;
        for i in 0..n {
            let p = self.pos;
            if self.d[p >> 3] >> (p & 7) & 1 == 1 {
                v |= 1u64 << i
            }
            self.pos += 1;
        }
        Some(v)
    }
    pub fn bit(&mut self) -> Option<bool> {
        self.bits(1).map(|x| x == 1)
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.bits(8).map(|x| x as u8)
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.bits(32).map(|x| x as u32)
    }
    pub fn i32(&mut self) -> Option<i32> {
        self.bits(32).map(|x| x as u32 as i32)
    }
    pub fn u64(&mut self) -> Option<u64> {
        self.bits(64)
    }
    pub fn f32(&mut self) -> Option<f32> {
        self.u32().map(f32::from_bits)
    }
    pub fn bytes(&mut self, n: usize) -> Option<Vec<u8>> {
        if self.left() < n * 8 {
            return None;
        }
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn bounded(&mut self, bits: u32, max: u64) -> Option<u64> {
        let low = self.bits(bits)?;
        let hi = low + (1u64 << bits);
        if hi < max && self.bit()? {
            Some(hi)
        } else {
            Some(low)
        }
    }
}
