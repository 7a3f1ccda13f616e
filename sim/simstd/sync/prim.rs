//! Simulated blocking primitives. A simulated thread only ever runs while it holds the scheduler's
//! baton, so plain state plus `block_on`/`wake` is enough; the atomics only carry the values.
use crate::sim::{block_on, tid, wake, yield_point, Site};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::mem::ManuallyDrop;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use ::std::time::Duration;

fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}
fn stuck() -> ! {
    panic!("lock contended outside of the simulation")
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    held: AtomicBool,
    poisoned: AtomicBool,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    panicking: bool,
    _not_send: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { held: AtomicBool::new(false), poisoned: AtomicBool::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.load(SeqCst);
        let v = self.data.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> MutexGuard<'_, T> {
        MutexGuard { lock: self, panicking: ::std::thread::panicking(), _not_send: ::std::marker::PhantomData }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        yield_point(Site::LockBefore);
        while self.held.swap(true, SeqCst) {
            if !block_on(addr(&self.held)) {
                stuck();
            }
        }
        let guard = self.guard();
        yield_point(Site::LockAfter);
        if self.poisoned.load(SeqCst) { Err(PoisonError::new(guard)) } else { Ok(guard) }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        yield_point(Site::LockBefore);
        if self.held.swap(true, SeqCst) {
            return Err(TryLockError::WouldBlock);
        }
        let guard = self.guard();
        yield_point(Site::LockAfter);
        if self.poisoned.load(SeqCst) { Err(TryLockError::Poisoned(PoisonError::new(guard))) } else { Ok(guard) }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.poisoned.store(false, SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.load(SeqCst);
        let v = self.data.get_mut();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
    fn release(&self) {
        self.held.store(false, SeqCst);
        wake(addr(&self.held));
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.lock.poisoned.store(true, SeqCst);
        }
        self.lock.release();
        yield_point(Site::Unlock);
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_struct("Mutex");
        match self.try_lock() {
            Ok(g) => d.field("data", &&*g),
            Err(TryLockError::Poisoned(e)) => d.field("data", &&**e.get_ref()),
            Err(TryLockError::WouldBlock) => d.field("data", &format_args!("<locked>")),
        };
        d.field("poisoned", &self.is_poisoned());
        d.finish_non_exhaustive()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

// ---------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> {
    /// -1: writer; n >= 0: n readers
    state: AtomicI64,
    poisoned: AtomicBool,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    _not_send: ::std::marker::PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    panicking: bool,
    _not_send: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { state: AtomicI64::new(0), poisoned: AtomicBool::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.load(SeqCst);
        let v = self.data.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn take_read(&self) -> bool {
        if self.state.load(SeqCst) < 0 {
            return false;
        }
        self.state.fetch_add(1, SeqCst);
        true
    }
    fn take_write(&self) -> bool {
        if self.state.load(SeqCst) != 0 {
            return false;
        }
        self.state.store(-1, SeqCst);
        true
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        yield_point(Site::LockBefore);
        while !self.take_read() {
            if !block_on(addr(&self.state)) {
                stuck();
            }
        }
        let g = RwLockReadGuard { lock: self, _not_send: ::std::marker::PhantomData };
        yield_point(Site::LockAfter);
        if self.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        yield_point(Site::LockBefore);
        while !self.take_write() {
            if !block_on(addr(&self.state)) {
                stuck();
            }
        }
        let g = RwLockWriteGuard { lock: self, panicking: ::std::thread::panicking(), _not_send: ::std::marker::PhantomData };
        yield_point(Site::LockAfter);
        if self.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        yield_point(Site::LockBefore);
        if !self.take_read() {
            return Err(TryLockError::WouldBlock);
        }
        let g = RwLockReadGuard { lock: self, _not_send: ::std::marker::PhantomData };
        yield_point(Site::LockAfter);
        if self.poisoned.load(SeqCst) { Err(TryLockError::Poisoned(PoisonError::new(g))) } else { Ok(g) }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        yield_point(Site::LockBefore);
        if !self.take_write() {
            return Err(TryLockError::WouldBlock);
        }
        let g = RwLockWriteGuard { lock: self, panicking: ::std::thread::panicking(), _not_send: ::std::marker::PhantomData };
        yield_point(Site::LockAfter);
        if self.poisoned.load(SeqCst) { Err(TryLockError::Poisoned(PoisonError::new(g))) } else { Ok(g) }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.poisoned.store(false, SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.load(SeqCst);
        let v = self.data.get_mut();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        if self.lock.state.fetch_sub(1, SeqCst) == 1 {
            wake(addr(&self.lock.state));
        }
        yield_point(Site::Unlock);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.lock.poisoned.store(true, SeqCst);
        }
        self.lock.state.store(0, SeqCst);
        wake(addr(&self.lock.state));
        yield_point(Site::Unlock);
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_struct("RwLock");
        match self.try_read() {
            Ok(g) => d.field("data", &&*g),
            Err(TryLockError::Poisoned(e)) => d.field("data", &&**e.get_ref()),
            Err(TryLockError::WouldBlock) => d.field("data", &format_args!("<locked>")),
        };
        d.field("poisoned", &self.is_poisoned());
        d.finish_non_exhaustive()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}

// ---------------------------------------------------------------- Condvar
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
#[derive(Default)]
pub struct Condvar {
    generation: AtomicUsize,
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { generation: AtomicUsize::new(0) }
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = g.lock;
        let start = self.generation.load(SeqCst);
        ::std::mem::forget(g);
        lock.release();
        while self.generation.load(SeqCst) == start {
            if !block_on(addr(&self.generation)) {
                stuck();
            }
        }
        lock.lock()
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    /// Simulated time only passes when nothing else happens: a timed wait is one scheduling point.
    pub fn wait_timeout<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, _d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let lock = g.lock;
        let start = self.generation.load(SeqCst);
        drop(g);
        yield_point(Site::Yield);
        let out = WaitTimeoutResult(self.generation.load(SeqCst) == start);
        match lock.lock() {
            Ok(g) => Ok((g, out)),
            Err(e) => Err(PoisonError::new((e.into_inner(), out))),
        }
    }
    pub fn notify_one(&self) {
        self.notify_all()
    }
    pub fn notify_all(&self) {
        self.generation.fetch_add(1, SeqCst);
        wake(addr(&self.generation));
        yield_point(Site::Unlock);
    }
}

// ---------------------------------------------------------------- Once family
pub struct Once {
    /// 0 new, 1 running, 2 done, 3 poisoned
    state: AtomicUsize,
}
#[derive(Debug)]
pub struct OnceState(bool);
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.0
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}
impl Once {
    pub const fn new() -> Self {
        Once { state: AtomicUsize::new(0) }
    }
    pub fn is_completed(&self) -> bool {
        yield_point(Site::Atomic);
        self.state.load(SeqCst) == 2
    }
    fn call(&self, ignore_poison: bool, f: &mut dyn FnMut(&OnceState)) {
        struct Finish<'a>(&'a Once, usize);
        impl Drop for Finish<'_> {
            fn drop(&mut self) {
                self.0.state.store(self.1, SeqCst);
                wake(addr(&self.0.state));
            }
        }
        yield_point(Site::LockBefore);
        loop {
            match self.state.load(SeqCst) {
                2 => return,
                3 if !ignore_poison => panic!("Once instance has previously been poisoned"),
                1 => {
                    if !block_on(addr(&self.state)) {
                        stuck();
                    }
                }
                s => {
                    self.state.store(1, SeqCst);
                    let mut fin = Finish(self, 3);
                    f(&OnceState(s == 3));
                    fin.1 = 2;
                    drop(fin);
                    yield_point(Site::Unlock);
                    return;
                }
            }
        }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let mut f = Some(f);
        self.call(false, &mut |_| (f.take().unwrap())());
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        let mut f = Some(f);
        self.call(true, &mut |s| (f.take().unwrap())(s));
    }
}

pub struct OnceLock<T> {
    once: Once,
    value: UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T> ::std::panic::UnwindSafe for OnceLock<T> {}
impl<T> ::std::panic::RefUnwindSafe for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: Once::new(), value: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        if self.once.is_completed() {
            unsafe { (*self.value.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.value.get_mut().as_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.get_or_init(|| v.take().unwrap());
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let slot = self.value.get();
        self.once.call_once_force(|_| unsafe { *slot = Some(f()) });
        unsafe { (*slot).as_ref().unwrap() }
    }
    pub fn take(&mut self) -> Option<T> {
        self.once = Once::new();
        self.value.get_mut().take()
    }
    pub fn into_inner(self) -> Option<T> {
        self.value.into_inner()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = Self::new();
        if let Some(v) = self.get() {
            let _ = c.set(v.clone());
        }
        c
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        let c = Self::new();
        let _ = c.set(v);
        c
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_tuple("OnceLock");
        match self.get() {
            Some(v) => d.field(v),
            None => d.field(&format_args!("<uninit>")),
        };
        d.finish()
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: UnsafeCell<ManuallyDrop<Option<F>>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), init: UnsafeCell::new(ManuallyDrop::new(Some(f))) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| {
            let f = unsafe { (*this.init.get()).take() };
            (f.expect("LazyLock instance has previously been poisoned"))()
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.cell.fmt(f)
    }
}

// ---------------------------------------------------------------- Barrier
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
pub struct Barrier {
    n: usize,
    arrived: AtomicUsize,
    generation: AtomicUsize,
}
impl fmt::Debug for Barrier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Barrier { .. }")
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { n, arrived: AtomicUsize::new(0), generation: AtomicUsize::new(0) }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let start = self.generation.load(SeqCst);
        if self.arrived.fetch_add(1, SeqCst) + 1 >= self.n {
            self.arrived.store(0, SeqCst);
            self.generation.fetch_add(1, SeqCst);
            wake(addr(&self.generation));
            yield_point(Site::Unlock);
            return BarrierWaitResult(true);
        }
        while self.generation.load(SeqCst) == start {
            if !block_on(addr(&self.generation)) {
                stuck();
            }
        }
        BarrierWaitResult(false)
    }
}

#[allow(dead_code)]
fn unused() {
    let _ = tid();
}
