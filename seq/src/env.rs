//! The environment answers chosen by the harness: number of CPUs, monotonic clock.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static NCPU: AtomicUsize = AtomicUsize::new(0);
pub fn set_ncpu(n: usize) {
    NCPU.store(n, Relaxed)
}

/// # Safety
/// libc's contract
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: libc::size_t, set: *mut libc::cpu_set_t) -> libc::c_int {
    let n = NCPU.load(Relaxed);
    if n == 0 {
        let r = libc::syscall(libc::SYS_sched_getaffinity, pid, size, set);
        return if r < 0 { -1 } else { 0 };
    }
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for i in 0..n.min(size * 8) {
        *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
    }
    0
}
/// hides the CPU quota files while the number of CPUs is ours
///
/// # Safety
/// libc's contract
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    if NCPU.load(Relaxed) != 0 && std::ffi::CStr::from_ptr(path).to_bytes().starts_with(b"/proc/self/cgroup") {
        *libc::__errno_location() = libc::ENOENT;
        return -1;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as libc::c_int
}

thread_local! {
    static CLOCK: Cell<Option<u64>> = const { Cell::new(None) };
    static STEP: Cell<u64> = const { Cell::new(0) };
}
/// nanoseconds of this thread's virtual monotonic clock; None: the real one
pub fn set_clock(ns: Option<u64>) {
    CLOCK.with(|c| c.set(ns))
}
/// how far every reading moves the virtual clock
pub fn set_step(ns: u64) {
    STEP.with(|c| c.set(ns))
}
pub fn clock() -> u64 {
    CLOCK.with(|c| c.get()).unwrap()
}
/// # Safety
/// libc's contract
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if let Ok(Some(ns)) = CLOCK.try_with(|c| c.get()) {
        let _ = CLOCK.try_with(|c| c.set(Some(ns + STEP.try_with(|s| s.get()).unwrap_or(0))));
        (*ts).tv_sec = (ns / 1_000_000_000) as _;
        (*ts).tv_nsec = (ns % 1_000_000_000) as _;
        return 0;
    }
    let r = libc::syscall(libc::SYS_clock_gettime, c, ts);
    if r < 0 {
        -1
    } else {
        0
    }
}
