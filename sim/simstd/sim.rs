//! Deterministic cooperative scheduler: real OS threads, exactly one of which holds the baton.
//!
//! Who runs next is decided only in [`yield_point`] / [`block_on`], by the chooser installed with
//! [`install`]; nothing here reads a clock or an OS random source, and nothing allocates.
use ::std::cell::Cell;
use ::std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use ::std::thread::Thread;

pub const MAX_THREADS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Site {
    Alloc,
    Dealloc,
    LockBefore,
    LockAfter,
    Unlock,
    Atomic,
    Yield,
    Client,
    Block,
    Exit,
    Start,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum State {
    Absent,
    Runnable,
    Blocked(usize),
    Finished,
}

pub struct Global {
    state: [State; MAX_THREADS],
    handles: [Option<Thread>; MAX_THREADS],
    controller: Option<Thread>,
    n: usize,
    /// chooser(current or MAX_THREADS when it cannot continue, runnable mask, site) -> tid
    chooser: Option<fn(usize, u32, Site) -> usize>,
    /// called when no thread can run but some are blocked; must not return
    on_deadlock: Option<fn(&str)>,
}

// Only touched by the baton holder (or by the controller while no simulated thread runs).
static mut G: Global = Global {
    state: [State::Absent; MAX_THREADS],
    handles: [const { None }; MAX_THREADS],
    controller: None,
    n: 0,
    chooser: None,
    on_deadlock: None,
};
static ACTIVE: AtomicBool = AtomicBool::new(false);
static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);
static REGISTERED: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static NO_YIELD: Cell<u32> = const { Cell::new(0) };
}

#[allow(static_mut_refs)]
fn g() -> &'static mut Global {
    unsafe { &mut G }
}

/// The simulated thread id of the caller, if it is one.
pub fn tid() -> Option<usize> {
    match TID.with(Cell::get) {
        usize::MAX => None,
        t => Some(t),
    }
}

/// Suppresses scheduling points in this thread while the guard lives.
pub struct NoYield(());
impl NoYield {
    pub fn new() -> Self {
        NO_YIELD.with(|c| c.set(c.get() + 1));
        NoYield(())
    }
}
impl Default for NoYield {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for NoYield {
    fn drop(&mut self) {
        NO_YIELD.with(|c| c.set(c.get() - 1));
    }
}
pub fn set_no_yield(depth: u32) -> u32 {
    NO_YIELD.with(|c| c.replace(depth))
}

pub fn install(chooser: fn(usize, u32, Site) -> usize, on_deadlock: fn(&str)) {
    g().chooser = Some(chooser);
    g().on_deadlock = Some(on_deadlock);
}

fn mask() -> u32 {
    let mut m = 0;
    for (i, s) in g().state.iter().enumerate() {
        if *s == State::Runnable {
            m |= 1 << i;
        }
    }
    m
}

fn hand_to(next: usize) {
    CURRENT.store(next, SeqCst);
    if let Some(h) = &g().handles[next] {
        h.unpark();
    }
}

fn wait_for_baton(me: usize) {
    while CURRENT.load(SeqCst) != me {
        ::std::thread::park();
    }
}

/// A point at which the scheduler may let another simulated thread run.
pub fn yield_point(site: Site) {
    let me = TID.with(Cell::get);
    if me == usize::MAX || !ACTIVE.load(SeqCst) || NO_YIELD.with(Cell::get) != 0 || ::std::thread::panicking() {
        return;
    }
    let _n = NoYield::new();
    let next = (g().chooser.unwrap())(me, mask(), site);
    if next != me {
        hand_to(next);
        wait_for_baton(me);
    }
}

/// Blocks the calling simulated thread until [`wake`] is called for `addr`. Returns false when the
/// caller is not a simulated thread (nothing to schedule).
pub fn block_on(addr: usize) -> bool {
    let me = TID.with(Cell::get);
    if me == usize::MAX || !ACTIVE.load(SeqCst) {
        return false;
    }
    let _n = NoYield::new();
    g().state[me] = State::Blocked(addr);
    let m = mask();
    if m == 0 {
        (g().on_deadlock.unwrap())("every live thread is blocked on a lock");
        unreachable!();
    }
    let next = (g().chooser.unwrap())(MAX_THREADS, m, Site::Block);
    hand_to(next);
    wait_for_baton(me);
    true
}

/// Makes the threads blocked on `addr` runnable again.
pub fn wake(addr: usize) {
    if !ACTIVE.load(SeqCst) {
        return;
    }
    for s in g().state.iter_mut() {
        if *s == State::Blocked(addr) {
            *s = State::Runnable;
        }
    }
}

/// Called by the controller before it spawns the threads of a run.
pub fn prepare(n: usize) {
    assert!(n <= MAX_THREADS);
    let gl = g();
    gl.n = n;
    for i in 0..MAX_THREADS {
        gl.state[i] = if i < n { State::Runnable } else { State::Absent };
        gl.handles[i] = None;
    }
    gl.controller = Some(::std::thread::current());
    CURRENT.store(usize::MAX, SeqCst);
    REGISTERED.store(0, SeqCst);
}

/// First thing a simulated thread does; returns once the scheduler picks it.
pub fn enter(me: usize) {
    TID.with(|c| c.set(me));
    g().handles[me] = Some(::std::thread::current());
    if REGISTERED.fetch_add(1, SeqCst) + 1 == g().n {
        g().controller.as_ref().unwrap().unpark();
    }
    wait_for_baton(me);
}

/// Last thing a simulated thread does.
pub fn leave(me: usize) {
    let _n = NoYield::new();
    g().state[me] = State::Finished;
    TID.with(|c| c.set(usize::MAX));
    let m = mask();
    if m != 0 {
        let next = (g().chooser.unwrap())(MAX_THREADS, m, Site::Exit);
        hand_to(next);
        return;
    }
    if g().state.iter().any(|s| matches!(s, State::Blocked(_))) {
        (g().on_deadlock.unwrap())("threads are blocked on locks that nobody will release");
        unreachable!();
    }
    ACTIVE.store(false, SeqCst);
    g().controller.as_ref().unwrap().unpark();
}

/// Controller: starts the run and waits until every simulated thread has left.
pub fn run() {
    while REGISTERED.load(SeqCst) != g().n {
        ::std::thread::park();
    }
    ACTIVE.store(true, SeqCst);
    let first = (g().chooser.unwrap())(MAX_THREADS, mask(), Site::Start);
    hand_to(first);
    while ACTIVE.load(SeqCst) {
        ::std::thread::park();
    }
}

pub fn active() -> bool {
    ACTIVE.load(SeqCst)
}
