//! FNV-1a based 64-bit digest (stable across builds and platforms).
#[derive(Clone, Copy)]
pub struct Digest(pub u64);
impl Default for Digest {
    fn default() -> Self {
        Digest(0xcbf2_9ce4_8422_2325)
    }
}
impl Digest {
    pub fn new() -> Self {
        Self::default()
    }
    #[inline]
    pub fn word(&mut self, v: u64) {
        let mut x = (self.0 ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x ^= x >> 29;
        self.0 = x.wrapping_mul(0x0000_0100_0000_01B3) ^ (x >> 32);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.word(b.len() as u64);
        let mut ch = b.chunks_exact(8);
        for c in &mut ch {
            self.word(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
        }
        let mut t = 0u64;
        for (i, x) in ch.remainder().iter().enumerate() {
            t |= (*x as u64) << (8 * i);
        }
        self.word(t);
    }
    pub fn text(&mut self, s: &str) {
        self.bytes(s.as_bytes());
    }
}
pub fn of_bytes(b: &[u8]) -> u64 {
    let mut d = Digest::new();
    d.bytes(b);
    d.0
}
