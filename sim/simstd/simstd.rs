//! A facade over `std` that the library under simulation is compiled against.
//!
//! `cafebabe` is built with `--extern std=libsimstd.rlib`, so every `std::...` path in its source
//! resolves here.  Everything is re-exported from the real `std`, except the blocking and shared-state
//! primitives (`sync::{Mutex, RwLock, Condvar, Once, OnceLock, LazyLock, Barrier}`, `sync::atomic::*`,
//! `thread::{yield_now, sleep, park}`), which are replaced by versions whose every operation is a
//! scheduling point of the deterministic scheduler in [`sim`].
pub use ::std::*;

pub mod sim;

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        crate::sim::yield_point(crate::sim::Site::Yield);
    }
    pub fn sleep(_d: ::std::time::Duration) {
        crate::sim::yield_point(crate::sim::Site::Yield);
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::sim::yield_point(crate::sim::Site::Yield);
    }
}

pub mod sync {
    pub use ::std::sync::*;
    mod prim;
    pub use self::prim::{
        Barrier, BarrierWaitResult, Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock,
        OnceState, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult,
    };
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use crate::sim::{yield_point, Site};
        use ::std::fmt;

        macro_rules! common {
            ($name:ident, $t:ty) => {
                #[derive(Default)]
                pub struct $name(::std::sync::atomic::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        Self(::std::sync::atomic::$name::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        yield_point(Site::Atomic);
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        yield_point(Site::Atomic);
                        self.0.store(v, o);
                        yield_point(Site::Atomic);
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        yield_point(Site::Atomic);
                        let r = self.0.swap(v, o);
                        yield_point(Site::Atomic);
                        r
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        yield_point(Site::Atomic);
                        let r = self.0.compare_exchange(a, b, s, f);
                        yield_point(Site::Atomic);
                        r
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut prev = self.load(f);
                        while let Some(next) = g(prev) {
                            match self.compare_exchange(prev, next, s, f) {
                                Ok(x) => return Ok(x),
                                Err(p) => prev = p,
                            }
                        }
                        Err(prev)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                }
                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        macro_rules! rmw {
            ($name:ident, $t:ty, $($op:ident),*) => {
                impl $name {
                    $(pub fn $op(&self, v: $t, o: Ordering) -> $t {
                        yield_point(Site::Atomic);
                        let r = self.0.$op(v, o);
                        yield_point(Site::Atomic);
                        r
                    })*
                }
            };
        }
        macro_rules! ints {
            ($($name:ident $t:ty),*) => {$(
                common!($name, $t);
                rmw!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min);
            )*};
        }
        ints!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32,
              AtomicI32 i32, AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8);
        common!(AtomicBool, bool);
        rmw!(AtomicBool, bool, fetch_and, fetch_nand, fetch_or, fetch_xor);
    }
}
