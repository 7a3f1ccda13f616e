//! The single source of choices of a run. Every decision is one number drawn from here, recorded, and
//! replayable; 0 is always the simplest choice, which is what lets a recorded list be minimised.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x5DEE_CE66_D1CE_4E5B)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub trait Tape {
    fn record(&mut self, v: u32);
}

pub struct Src<'t> {
    rng: Option<Rng>,
    replay: Vec<u32>,
    pos: usize,
    tape: Option<&'t mut dyn Tape>,
    pub drawn: u64,
}

impl<'t> Src<'t> {
    pub fn random(seed: u64, tape: Option<&'t mut dyn Tape>) -> Self {
        Src { rng: Some(Rng::new(seed)), replay: Vec::new(), pos: 0, tape, drawn: 0 }
    }
    pub fn replay(choices: Vec<u32>, tape: Option<&'t mut dyn Tape>) -> Self {
        Src { rng: None, replay: choices, pos: 0, tape, drawn: 0 }
    }
    /// A number in `0..n`.
    pub fn below(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => r.below(n as u64) as u32,
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v < n { v } else { n - 1 }
            }
        };
        if let Some(t) = &mut self.tape {
            t.record(v);
        }
        self.drawn += 1;
        v
    }
    pub fn index(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }
    /// In `lo..=hi`.
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num / den`; false is the simple outcome.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn pick_some<'a, T>(&mut self, v: &'a [T]) -> Option<&'a T> {
        if v.is_empty() { None } else { Some(self.pick(v)) }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.index(xs.len())]
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.below(65536) as u16
    }
    pub fn u32(&mut self) -> u32 {
        (self.below(65536) << 16) | self.below(65536)
    }
    pub fn u64(&mut self) -> u64 {
        ((self.u32() as u64) << 32) | self.u32() as u64
    }
    /// A u16 with boundary values over-represented.
    pub fn edgy16(&mut self) -> u16 {
        match self.below(8) {
            0 => self.below(8) as u16,
            1 => self.below(256) as u16,
            2 => 0xffff - self.below(3) as u16,
            3 => 0x7fff + self.below(3) as u16,
            4 => 0xff + self.below(3) as u16,
            5 => 1 << self.below(16),
            _ => self.u16(),
        }
    }
    pub fn edgy32(&mut self) -> u32 {
        match self.below(8) {
            0 => self.below(8),
            1 => self.below(65536),
            2 => 0xffff_ffff - self.below(3),
            3 => 0x7fff_ffff + self.below(3),
            4 => 0xffff + self.below(3),
            5 => 1 << self.below(32),
            _ => self.u32(),
        }
    }
    pub fn edgy64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(8) as u64,
            1 => u64::MAX - self.below(3) as u64,
            2 => (i64::MAX as u64).wrapping_add(self.below(3) as u64),
            3 => 0xffff_ffff + self.below(3) as u64,
            _ => self.u64(),
        }
    }
    /// A small number with a geometric-like tail up to `max`.
    pub fn small(&mut self, max: u32) -> u32 {
        let k = self.below(16);
        let hi = match k {
            0..=3 => 1,
            4..=9 => 3,
            10..=13 => 6,
            14 => 16,
            _ => max,
        };
        self.below(hi.min(max) + 1)
    }
}

/// Mixes a run's identity into one seed.
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xD134_2543_DE82_EF95) ^ b);
    r.next() ^ b.rotate_left(32)
}
