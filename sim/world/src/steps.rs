//! Counts what the library does: one step per edge of its control flow (the library is compiled with
//! callbacks on them in this build) and one per eight bytes it has the C library move or compare. A
//! number of steps is a deterministic measure of time.
#[cfg(feature = "steps")]
mod on {
    use std::arch::asm;
    use std::ffi::c_void;
    pub static mut COUNT: u64 = 0;
    pub static mut LIMIT: u64 = u64::MAX;
    pub static mut EDGES: u32 = 0;
    pub static mut ON_LIMIT: fn() = || ();

    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
        if a == b || *a != 0 {
            return;
        }
        while a < b {
            EDGES += 1;
            *a = EDGES;
            a = a.add(1);
        }
    }
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
        crate::shm::edge(*g);
        more(1);
    }
    #[inline(always)]
    unsafe fn more(n: u64) {
        COUNT += n;
        if COUNT > LIMIT {
            LIMIT = u64::MAX;
            ON_LIMIT();
        }
    }
    unsafe fn moved(n: usize) {
        if n >= 8 && LIMIT != u64::MAX && crate::alloc::in_lib() {
            more(n as u64 / 8);
        }
    }
    #[no_mangle]
    unsafe extern "C" fn memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
        moved(n);
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        d
    }
    #[no_mangle]
    unsafe extern "C" fn memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
        moved(n);
        if (d as usize).wrapping_sub(s as usize) >= n {
            asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        } else {
            asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") (d as *mut u8).wrapping_add(n).wrapping_sub(1) => _, inout("rsi") (s as *const u8).wrapping_add(n).wrapping_sub(1) => _, options(nostack));
        }
        d
    }
    #[no_mangle]
    unsafe extern "C" fn memcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
        let (a, b) = (a as *const u8, b as *const u8);
        let mut i = 0;
        let mut r = 0;
        while i < n {
            let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
            i += 1;
            if x != y {
                r = x as i32 - y as i32;
                break;
            }
        }
        moved(i);
        r
    }
    #[no_mangle]
    unsafe extern "C" fn bcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
        memcmp(a, b, n)
    }
}

pub const COUNTED: bool = cfg!(feature = "steps");

/// Runs something under a limit (no limit: `u64::MAX`) and tells the number of steps.
#[cfg(feature = "steps")]
pub fn within<R>(limit: u64, over: fn(), f: impl FnOnce() -> R) -> (R, u64) {
    unsafe {
        on::COUNT = 0;
        on::ON_LIMIT = over;
        on::LIMIT = limit.min(u64::MAX - 1);
        let r = f();
        on::LIMIT = u64::MAX;
        (r, on::COUNT)
    }
}
#[cfg(feature = "steps")]
pub fn edges() -> u32 {
    unsafe { on::EDGES }
}
#[cfg(not(feature = "steps"))]
pub fn within<R>(_: u64, _: fn(), f: impl FnOnce() -> R) -> (R, u64) {
    (f(), 0)
}
#[cfg(not(feature = "steps"))]
pub fn edges() -> u32 {
    0
}
