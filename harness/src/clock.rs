//! Virtual time: the clock of a scenario thread is frozen and moves only by `advance`.
//!
//! `clock_gettime` of this binary takes precedence over libc's, so both `Instant` and
//! `SystemTime` of everything linked into it (the library under test included) are affected.
use std::cell::Cell;

thread_local! {
    static VIRTUAL: Cell<bool> = const { Cell::new(false) };
    static BASE: Cell<(i64, i64)> = const { Cell::new((0, 0)) }; // (realtime ns, monotonic ns)
    static OFFSET: Cell<i64> = const { Cell::new(0) };
}

fn sys(clock: libc::clockid_t) -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::syscall(libc::SYS_clock_gettime, clock, &mut ts as *mut libc::timespec);
    }
    ts.tv_sec as i64 * 1_000_000_000 + ts.tv_nsec as i64
}
/// Real monotonic time in nanoseconds.
pub fn real() -> i64 {
    sys(libc::CLOCK_MONOTONIC)
}
pub fn freeze() {
    BASE.with(|b| b.set((sys(libc::CLOCK_REALTIME), sys(libc::CLOCK_MONOTONIC))));
    OFFSET.with(|o| o.set(0));
    VIRTUAL.with(|v| v.set(true));
}
pub fn advance(ns: i64) {
    OFFSET.with(|o| o.set(o.get() + ns));
}
pub fn offset() -> i64 {
    OFFSET.with(|o| o.get())
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let is_virtual = VIRTUAL.with(|v| v.get());
    let ns = match clock {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE if is_virtual => {
            BASE.with(|b| b.get()).0 + offset()
        }
        libc::CLOCK_MONOTONIC
        | libc::CLOCK_MONOTONIC_COARSE
        | libc::CLOCK_MONOTONIC_RAW
        | libc::CLOCK_BOOTTIME
            if is_virtual =>
        {
            BASE.with(|b| b.get()).1 + offset()
        }
        _ => return libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int,
    };
    (*ts).tv_sec = (ns / 1_000_000_000) as libc::time_t;
    (*ts).tv_nsec = (ns % 1_000_000_000) as libc::c_long;
    0
}
