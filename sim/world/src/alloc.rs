//! The allocator of the simulated process. Memory requested by the library is told apart from the
//! harness's own, and every such request is a scheduling point.
use simstd::sim::{self, Site};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
}
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static LARGEST: AtomicU64 = AtomicU64::new(0);
pub static REQUESTS: AtomicU64 = AtomicU64::new(0);
/// A single request, or a total, beyond this ends the run.
pub const CEILING: usize = 1 << 30;
pub static mut ON_CEILING: Option<fn(usize)> = None;

/// Marks the calling thread as executing library code.
pub struct Lib(bool);
impl Lib {
    pub fn enter() -> Lib {
        Lib(IN_LIB.with(|c| c.replace(true)))
    }
    /// Client code called back by the library.
    pub fn leave() -> Lib {
        Lib(IN_LIB.with(|c| c.replace(false)))
    }
}
impl Drop for Lib {
    fn drop(&mut self) {
        let was = self.0;
        IN_LIB.with(|c| c.set(was));
    }
}

pub fn in_lib() -> bool {
    IN_LIB.with(Cell::get)
}

/// Starts a measurement.
pub fn reset_peak() -> i64 {
    let now = LIVE.load(Relaxed);
    PEAK.store(now, Relaxed);
    LARGEST.store(0, Relaxed);
    now
}
pub struct Usage {
    pub peak: u64,
    pub largest: u64,
}
pub fn usage(before: i64) -> Usage {
    Usage { peak: (PEAK.load(Relaxed) - before) as u64, largest: LARGEST.load(Relaxed) }
}

struct Sim;
#[global_allocator]
static GLOBAL: Sim = Sim;

fn front(l: &Layout) -> usize {
    l.align().max(16)
}
unsafe impl GlobalAlloc for Sim {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let lib = IN_LIB.with(Cell::get);
        if lib {
            sim::yield_point(Site::Alloc);
            let n = l.size();
            let live = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
            PEAK.fetch_max(live, Relaxed);
            LARGEST.fetch_max(n as u64, Relaxed);
            REQUESTS.fetch_add(1, Relaxed);
            if n > CEILING || live > CEILING as i64 {
                #[allow(static_mut_refs)]
                if let Some(f) = ON_CEILING {
                    IN_LIB.with(|c| c.set(false));
                    f(n.max(live as usize));
                }
            }
        }
        let f = front(&l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + f, f));
        if p.is_null() {
            return p;
        }
        let p = p.add(f);
        *(p.sub(8) as *mut u64) = if lib { l.size() as u64 | 1 << 63 } else { 0 };
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let tag = *(p.sub(8) as *mut u64);
        if tag >> 63 == 1 {
            LIVE.fetch_sub((tag & !(1 << 63)) as i64, Relaxed);
        }
        let f = front(&l);
        System.dealloc(p.sub(f), Layout::from_size_align_unchecked(l.size() + f, f));
        if IN_LIB.with(Cell::get) {
            sim::yield_point(Site::Dealloc);
        }
    }
}
