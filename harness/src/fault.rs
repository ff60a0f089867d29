//! Calls of the system that fail when they are told to.
//! These definitions come before libc's when the check is linked.
use libc::{c_char, c_int, c_uint, c_void, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    /// this call fails
    Once,
    /// this call and all after it fail
    Forever,
    /// half of what is transferred arrives, and then there is no room
    Full,
}

#[derive(Clone, Copy)]
struct Plan {
    left: u64,
    kind: Kind,
    fired: u64,
    calls: u64,
}

thread_local! {
    static PLAN: Cell<Option<Plan>> = const { Cell::new(None) };
}

/// The `at`-th call from now on (from 0) fails.
pub fn install(at: u64, kind: Kind) {
    PLAN.with(|p| p.set(Some(Plan { left: at, kind, fired: 0, calls: 0 })))
}

/// No more failures: how many there were, and of how many calls.
pub fn remove() -> (u64, u64) {
    PLAN.with(|p| p.take()).map(|p| (p.fired, p.calls)).unwrap_or_default()
}

enum Do {
    Real,
    Fail(c_int),
    Half,
}

fn next(transfer: bool) -> Do {
    PLAN.try_with(|p| {
        let Some(mut q) = p.get() else { return Do::Real };
        q.calls += 1;
        let now = q.left == 0;
        if !now {
            q.left -= 1
        }
        let r = match (now, q.kind, q.fired) {
            (false, ..) => Do::Real,
            (_, Kind::Once, 0) => Do::Fail(libc::EIO),
            (_, Kind::Once, _) => Do::Real,
            (_, Kind::Forever, _) => Do::Fail(libc::EACCES),
            (_, Kind::Full, 0) if transfer => Do::Half,
            (_, Kind::Full, _) if transfer => Do::Fail(libc::ENOSPC),
            // what needs no room works
            (_, Kind::Full, _) => Do::Real,
        };
        if !matches!(r, Do::Real) {
            q.fired += 1
        }
        p.set(Some(q));
        r
    })
    .unwrap_or(Do::Real)
}

fn real(cache: &AtomicPtr<c_void>, name: &std::ffi::CStr) -> *mut c_void {
    let mut p = cache.load(SeqCst);
    if p.is_null() {
        p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) };
        cache.store(p, SeqCst);
    }
    p
}

macro_rules! calls {
    ($($name:ident($($a:ident: $t:ty),*) -> $r:ty, $bad:expr $(, $len:ident)?;)*) => {$(
        #[no_mangle]
        unsafe extern "C" fn $name($($a: $t),*) -> $r {
            static REAL: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());
            #[allow(unused_mut, unused_assignments)]
            let mut transfer = false;
            $(let mut $len = $len; transfer = true;)?
            match next(transfer) {
                Do::Fail(e) => {
                    *libc::__errno_location() = e;
                    return $bad;
                }
                Do::Half => {
                    $($len = ($len / 2).max(1);)?
                }
                Do::Real => {}
            }
            let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(real(&REAL, std::ffi::CStr::from_bytes_with_nul_unchecked(concat!(stringify!($name), "\0").as_bytes())));
            f($($a),*)
        }
    )*};
}

calls! {
    open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int, -1;
    openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int, -1;
    openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int, -1;
    read(fd: c_int, to: *mut c_void, n: size_t) -> ssize_t, -1;
    write(fd: c_int, from: *const c_void, n: size_t) -> ssize_t, -1, n;
    copy_file_range(from: c_int, a: *mut off64_t, to: c_int, b: *mut off64_t, n: size_t, flags: c_uint) -> ssize_t, -1, n;
    sendfile64(to: c_int, from: c_int, at: *mut off64_t, n: size_t) -> ssize_t, -1, n;
    fchmod(fd: c_int, mode: c_uint) -> c_int, -1;
    mkdir(path: *const c_char, mode: c_uint) -> c_int, -1;
    rmdir(path: *const c_char) -> c_int, -1;
    unlink(path: *const c_char) -> c_int, -1;
    unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int, -1;
    rename(from: *const c_char, to: *const c_char) -> c_int, -1;
    opendir(path: *const c_char) -> *mut c_void, std::ptr::null_mut();
    fdopendir(fd: c_int) -> *mut c_void, std::ptr::null_mut();
    readdir64(dir: *mut c_void) -> *mut c_void, std::ptr::null_mut();
    realpath(path: *const c_char, to: *mut c_char) -> *mut c_char, std::ptr::null_mut();
}
