//! The wall clock of the process, settable per thread.
use std::cell::Cell;

thread_local! {
    static NOW: Cell<i64> = const { Cell::new(i64::MIN) };
}

/// Runs `f` with the wall clock of this thread stopped at `t` (seconds since 1970).
pub fn at<R>(t: i64, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            NOW.with(|c| c.set(i64::MIN));
        }
    }
    NOW.with(|c| c.set(t));
    let _r = Reset;
    f()
}

/// Takes the place of the C library's function for the whole program.
///
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        let t = NOW.with(|c| c.get());
        if t != i64::MIN {
            (*ts).tv_sec = t;
            (*ts).tv_nsec = 0;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}
