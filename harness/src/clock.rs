//! The clock as the shell sees it inside the harness: the system's, until a script is installed.
//! These definitions come before libc's when the check is linked.
use libc::{c_int, c_void, clockid_t, timespec};
use std::cell::RefCell;
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};

#[derive(Default)]
struct Script {
    /// seconds since 1970
    now: i64,
    nanos: i64,
    /// how far the clock goes whenever it is looked at
    step: i64,
    looks: u64,
    /// nanoseconds that were to be slept
    slept: u128,
}

thread_local! {
    static SCRIPT: RefCell<Option<Script>> = const { RefCell::new(None) };
}

pub fn install(now: i64, nanos: i64, step: i64) {
    SCRIPT.with(|s| *s.borrow_mut() = Some(Script { now, nanos, step, ..Default::default() }))
}

/// Back to the system's clock: how often it was looked at, and how long was slept.
pub fn remove() -> (u64, u128) {
    SCRIPT.with(|s| s.borrow_mut().take()).map(|s| (s.looks, s.slept)).unwrap_or_default()
}

fn real(cache: &AtomicPtr<c_void>, name: &std::ffi::CStr) -> *mut c_void {
    let mut p = cache.load(SeqCst);
    if p.is_null() {
        p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) };
        cache.store(p, SeqCst);
    }
    p
}

fn scripted<T>(f: impl FnOnce(&mut Script) -> T) -> Option<T> {
    SCRIPT.try_with(|s| s.try_borrow_mut().ok().and_then(|mut s| s.as_mut().map(f))).ok().flatten()
}

#[no_mangle]
unsafe extern "C" fn clock_gettime(id: clockid_t, t: *mut timespec) -> c_int {
    static REAL: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());
    if id == libc::CLOCK_REALTIME {
        let now = scripted(|s| {
            let n = s.now;
            s.now += s.step;
            s.looks += 1;
            (n, s.nanos)
        });
        if let Some((n, nanos)) = now {
            (*t).tv_sec = n;
            (*t).tv_nsec = nanos;
            return 0;
        }
    }
    let f: unsafe extern "C" fn(clockid_t, *mut timespec) -> c_int = std::mem::transmute(real(&REAL, c"clock_gettime"));
    f(id, t)
}

unsafe fn slept(t: *const timespec) -> Option<c_int> {
    scripted(|s| s.slept += (*t).tv_sec as u128 * 1_000_000_000 + (*t).tv_nsec as u128).map(|_| 0)
}

#[no_mangle]
unsafe extern "C" fn nanosleep(t: *const timespec, left: *mut timespec) -> c_int {
    static REAL: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());
    if let Some(r) = slept(t) {
        return r;
    }
    let f: unsafe extern "C" fn(*const timespec, *mut timespec) -> c_int = std::mem::transmute(real(&REAL, c"nanosleep"));
    f(t, left)
}

#[no_mangle]
unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, t: *const timespec, left: *mut timespec) -> c_int {
    static REAL: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());
    if flags == 0 {
        if let Some(r) = slept(t) {
            return r;
        }
    }
    let f: unsafe extern "C" fn(clockid_t, c_int, *const timespec, *mut timespec) -> c_int = std::mem::transmute(real(&REAL, c"clock_nanosleep"));
    f(id, flags, t, left)
}
