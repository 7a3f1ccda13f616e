//! Who runs next.
use crate::shm::{shm, MAX_SWITCHES};
use simkit::src::Rng;
use simstd::sim::{Site, MAX_THREADS};

pub enum Policy {
    /// Explicit list of (step, thread).
    Replay { list: Vec<(u32, u32)>, at: usize },
    Random(Random),
}
pub struct Random {
    rng: Rng,
    kind: u32,
    /// switch with probability 1/period at ordinary points
    period: u64,
    priority: [u32; MAX_THREADS],
    changes: [u64; 4],
    budget: u32,
}
pub const POLICIES: [&str; 5] = ["sequential", "uniform", "priorities", "lock points", "client points"];

pub fn random(seed: u64) -> Random {
    let mut rng = Rng::new(seed);
    let kind = rng.below(16) as u32;
    let kind = match kind {
        0 => 0,
        1..=5 => 1,
        6..=9 => 2,
        10..=13 => 3,
        _ => 4,
    };
    let period = [2, 4, 16, 64, 256][rng.below(5) as usize];
    let mut priority = [0; MAX_THREADS];
    for p in &mut priority {
        *p = 8 + rng.below(1000) as u32;
    }
    let span = [100, 1000, 10_000][rng.below(3) as usize];
    let mut changes = [0; 4];
    for c in &mut changes {
        *c = 1 + rng.below(span);
    }
    Random { rng, kind, period, priority, changes, budget: 4000 }
}
impl Random {
    pub fn kind(&self) -> usize {
        self.kind as usize
    }
    fn nth(&mut self, mask: u32) -> usize {
        let k = self.rng.below(mask.count_ones() as u64) as u32;
        let mut m = mask;
        for _ in 0..k {
            m &= m - 1;
        }
        m.trailing_zeros() as usize
    }
    fn choose(&mut self, cur: usize, mask: u32, site: Site, step: u64) -> usize {
        let forced = cur == MAX_THREADS;
        match self.kind {
            0 if !forced => cur,
            2 => {
                if !forced && self.changes.contains(&step) {
                    self.priority[cur] = self.rng.below(8) as u32;
                }
                let mut best = usize::MAX;
                for t in 0..MAX_THREADS {
                    if mask >> t & 1 == 1 && (best == usize::MAX || self.priority[t] > self.priority[best]) {
                        best = t;
                    }
                }
                best
            }
            _ if forced => self.nth(mask),
            k => {
                let hot = match k {
                    3 => matches!(site, Site::LockBefore | Site::LockAfter | Site::Unlock | Site::Atomic),
                    4 => matches!(site, Site::Client | Site::Yield),
                    _ => false,
                };
                let period = if self.budget == 0 {
                    2048
                } else if hot {
                    2
                } else if k == 1 {
                    self.period
                } else {
                    self.period * 16
                };
                if self.rng.below(period) == 0 {
                    self.budget = self.budget.saturating_sub(1);
                    self.nth(mask)
                } else {
                    cur
                }
            }
        }
    }
}

static mut POLICY: Option<Policy> = None;
pub fn set(p: Policy) {
    unsafe { POLICY = Some(p) }
}
/// More scheduling points than any operation of a client needs: somebody spins.
pub const MAX_STEPS: u64 = 40_000_000;
static mut OP_START: u64 = 0;
/// Somebody begins an operation.
pub fn op_starts() {
    unsafe { OP_START = shm().steps }
}

pub fn chooser(cur: usize, mask: u32, site: Site) -> usize {
    let s = shm();
    s.steps += 1;
    let step = s.steps;
    if step - unsafe { OP_START } > MAX_STEPS {
        crate::world::fail("hang", "an operation does not end: more than 40 million scheduling points");
    }
    s.counts[crate::world::C_SITE + site as usize] += 1;
    if mask & (mask - 1) == 0 && cur != MAX_THREADS {
        s.cur = cur as u32;
        return cur;
    }
    #[allow(static_mut_refs)]
    let next = match unsafe { &mut POLICY } {
        Some(Policy::Random(r)) => r.choose(cur, mask, site, step),
        Some(Policy::Replay { list, at }) => {
            while list.get(*at).is_some_and(|e| (e.0 as u64) < step) {
                *at += 1;
            }
            match list.get(*at) {
                Some(e) if e.0 as u64 == step && mask >> e.1 & 1 == 1 => e.1 as usize,
                _ if cur != MAX_THREADS => cur,
                _ => mask.trailing_zeros() as usize,
            }
        }
        None => mask.trailing_zeros() as usize,
    };
    let default = if cur != MAX_THREADS { cur } else { mask.trailing_zeros() as usize };
    if next != default && s.n_switches < MAX_SWITCHES {
        s.switches[s.n_switches] = (step as u32, next as u32);
        s.n_switches += 1;
    }
    if next != cur {
        crate::world::count(crate::world::N::Switches, 1);
    }
    s.cur = next as u32;
    let mut d = simkit::hash::Digest(s.shape);
    if next != cur {
        d.word(step << 8 | next as u64);
        s.shape = d.0;
    }
    next
}
