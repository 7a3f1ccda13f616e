//! What a simulated process leaves behind for the process that started it.
use simkit::src::Tape;

pub const MAX_CHOICES: usize = 1 << 19;
pub const MAX_SWITCHES: usize = 1 << 17;
pub const N_COUNT: usize = 96;
pub const MAX_LONE: usize = 64;
pub const MAX_REASONS: usize = 32;

#[repr(C)]
pub struct Shared {
    pub finished: u32,
    pub violated: u32,
    /// The node that runs.
    pub cur: u32,
    pub lone_failed: u32,
    pub ops: u64,
    /// What is being loaded by each node: valid, torn, broken only inside method bodies.
    flags: [[u8; 3]; 8],
    pub n_choices: usize,
    pub n_switches: usize,
    pub n_reasons: usize,
    pub steps: u64,
    pub policy: u64,
    pub outcome: u64,
    pub shape: u64,
    pub nontrivial: u64,
    pub counts: [u64; N_COUNT],
    pub lone: [u64; MAX_LONE],
    pub reasons: [(usize, usize); MAX_REASONS],
    class_len: usize,
    class: [u8; 64],
    detail_len: usize,
    detail: [u8; 2048],
    doing_len: [usize; 8],
    doing: [[u8; 128]; 8],
    pub switches: [(u32, u32); MAX_SWITCHES],
    pub choices: [u32; MAX_CHOICES],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();
pub fn create() {
    unsafe { SHARED = crate::sys::shared_bytes(std::mem::size_of::<Shared>()) as *mut Shared }
}
/// Which edges of the library's control flow were taken, by all processes started from this one.
pub const MAX_EDGES: usize = 1 << 16;
static mut EDGES: *mut u8 = std::ptr::null_mut();
pub fn create_edges() {
    unsafe { EDGES = crate::sys::shared_bytes(MAX_EDGES) as *mut u8 }
}
#[cfg(feature = "steps")]
#[inline(always)]
pub fn edge(n: u32) {
    unsafe {
        if !EDGES.is_null() {
            *EDGES.add(n as usize & (MAX_EDGES - 1)) = 1;
        }
    }
}
pub fn edges_taken() -> Vec<u32> {
    (0..MAX_EDGES as u32).filter(|k| unsafe { !EDGES.is_null() && *EDGES.add(*k as usize) != 0 }).collect()
}
pub fn shm() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

fn put(dst: &mut [u8], s: &str) -> usize {
    let mut n = s.len().min(dst.len());
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    n
}
impl Shared {
    pub fn clear(&mut self) {
        self.finished = 0;
        self.violated = 0;
        self.cur = 0;
        self.lone_failed = 0;
        self.ops = 0;
        self.flags = [[0; 3]; 8];
        self.n_choices = 0;
        self.n_switches = 0;
        self.n_reasons = 0;
        self.steps = 0;
        self.policy = 0;
        self.outcome = 0;
        self.shape = 0;
        self.nontrivial = 0;
        self.counts = [0; N_COUNT];
        self.class_len = 0;
        self.detail_len = 0;
        self.doing_len = [0; 8];
    }
    pub fn set_violation(&mut self, class: &str, detail: &str) {
        if self.violated == 0 {
            self.class_len = put(&mut self.class, class);
            self.detail_len = put(&mut self.detail, detail);
            self.violated = 1;
        }
    }
    pub fn class(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len]).into()
    }
    pub fn detail(&self) -> String {
        String::from_utf8_lossy(&self.detail[..self.detail_len]).into()
    }
    pub fn now(&mut self, node: usize, doing: &str, valid: bool, torn: bool, code: bool) {
        self.doing_len[node] = put(&mut self.doing[node], doing);
        self.flags[node] = [valid as u8, torn as u8, code as u8];
    }
    pub fn doing(&self, node: usize) -> String {
        String::from_utf8_lossy(&self.doing[node][..self.doing_len[node]]).into()
    }
    /// (valid, torn, code) of what the running node is busy with.
    pub fn flags(&self) -> [bool; 3] {
        self.flags[self.cur.min(7) as usize].map(|x| x != 0)
    }
    pub fn reason(&mut self, r: &'static str) {
        if self.n_reasons < MAX_REASONS {
            self.reasons[self.n_reasons] = (r.as_ptr() as usize, r.len());
            self.n_reasons += 1;
        }
    }
    /// The texts noted with `reason`, by a process forked from this one.
    pub fn noted(&self) -> impl Iterator<Item = &'static str> + '_ {
        self.reasons[..self.n_reasons].iter().map(|(p, n)| unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(*p as *const u8, *n)) })
    }
    pub fn choices(&self) -> &[u32] {
        &self.choices[..self.n_choices]
    }
    pub fn switches(&self) -> &[(u32, u32)] {
        &self.switches[..self.n_switches]
    }
}

/// Records the choices of a run in the shared memory.
pub struct ShmTape;
impl Tape for ShmTape {
    fn record(&mut self, v: u32) {
        let s = shm();
        if s.n_choices < MAX_CHOICES {
            s.choices[s.n_choices] = v;
            s.n_choices += 1;
        }
    }
}
