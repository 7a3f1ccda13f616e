//! The few system calls the harness makes itself.
#![allow(non_camel_case_types)]
use std::ffi::c_void;

extern "C" {
    pub fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn personality(p: u64) -> i32;
    fn execv(path: *const i8, argv: *const *const i8) -> i32;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn write(fd: i32, buf: *const c_void, n: usize) -> isize;
    fn open(path: *const i8, flags: i32, ...) -> i32;
}

pub fn shared_bytes(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    if p as isize == -1 {
        panic!("cannot map shared memory");
    }
    p as *mut u8
}

/// Limits of one simulated process: processor time, and wall-clock time as the last resort (a real
/// deadlock uses no processor time).
pub fn arm(cpu_s: i64, wall_s: i64) {
    unsafe {
        LIMITS = (cpu_s, wall_s);
        setrlimit(4, &[0, 0]);
    }
    again();
}
static mut LIMITS: (i64, i64) = (0, 0);
/// The limits hold for one operation; this begins another one.
pub fn again() {
    unsafe {
        let (cpu_s, wall_s) = LIMITS;
        setitimer(2, &[0, 0, cpu_s, 0], std::ptr::null_mut());
        setitimer(0, &[0, 0, wall_s, 0], std::ptr::null_mut());
    }
}

/// Addresses should not differ between executions: switches randomisation off and starts over.
pub fn fixed_addresses() {
    const NO_RANDOMIZE: u64 = 0x0040000;
    unsafe {
        let now = personality(0xffff_ffff);
        if now < 0 || now as u64 & NO_RANDOMIZE != 0 || personality(now as u64 | NO_RANDOMIZE) < 0 {
            return;
        }
        let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut argv: Vec<*const i8> = args.iter().map(|a| a.as_ptr()).collect();
        argv.push(std::ptr::null());
        execv(c"/proc/self/exe".as_ptr(), argv.as_ptr());
    }
}

/// Whatever a dying process prints (stack overflow messages) is of no interest.
pub fn silence_stderr() {
    unsafe {
        let fd = open(c"/dev/null".as_ptr(), 1);
        if fd >= 0 {
            dup2(fd, 2);
        }
    }
}

pub fn write_out(b: &[u8]) {
    let mut done = 0;
    while done < b.len() {
        let n = unsafe { write(1, b.as_ptr().add(done) as *const c_void, b.len() - done) };
        if n <= 0 {
            return;
        }
        done += n as usize;
    }
}

// The keys of hash tables come from here; in the simulation they are part of the seed.
static mut ENTROPY: u64 = 0;
pub fn seed_entropy(seed: u64) {
    unsafe {
        ENTROPY = seed;
        CLOCK = simkit::src::mix(seed, 77) | 1;
        NOW = 0;
    }
}

// Simulated processes have clocks of their own: they start anywhere, every look at one takes time, and
// the wall clock jumps.
static mut CLOCK: u64 = 0;
static mut NOW: u64 = 0;
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(which: i32, out: *mut [i64; 2]) -> i32 {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    if CLOCK == 0 {
        return syscall(228, which, out) as i32;
    }
    crate::world::count(crate::world::N::Clock, 1);
    CLOCK = simkit::src::mix(CLOCK, NOW) | 1;
    // nanoseconds to hours
    NOW += (CLOCK >> 40) << (CLOCK % 20);
    let t = if matches!(which, 0 | 5 | 11) {
        let jump = CLOCK >> 8 & 0xffff_ffff;
        [1_500_000_000 + (jump % 2_000_000_000) as i64, (NOW % 1_000_000_000) as i64]
    } else {
        [1000 + (NOW / 1_000_000_000) as i64, (NOW % 1_000_000_000) as i64]
    };
    *out = t;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = simkit::src::Rng::new(ENTROPY);
    ENTROPY = r.next();
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}
