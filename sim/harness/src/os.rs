//! The C functions behind `std::time`, `std::thread` and `std::sync`: calls of simulated tasks go
//! to the simulator (`simrt::os`), all others to the system.
use libc::{c_int, c_long, c_void, clockid_t, timespec};
use simrt::os;
use std::sync::atomic::{AtomicUsize, Ordering};

unsafe fn raw(n: c_long, a: [usize; 6]) -> isize {
    let r: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}
unsafe fn with_errno(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
unsafe fn ns(t: *const timespec) -> u64 {
    ((*t).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex {
        match (b as c_int) & 127 {
            op @ (libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET) => {
                let timeout = match d {
                    0 => None,
                    t => Some((ns(t as *const timespec), op == libc::FUTEX_WAIT_BITSET)),
                };
                let failed = match os::wait(a, c as u32, timeout) {
                    os::Wait::Real => return with_errno(raw(n, [a, b, c, d, e, f])) as c_long,
                    os::Wait::Woken => return 0,
                    os::Wait::Changed => libc::EAGAIN,
                    os::Wait::TimedOut => libc::ETIMEDOUT,
                };
                *libc::__errno_location() = failed;
                return -1;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                let woken = os::wake(a, (c as c_int).max(0) as usize).unwrap_or(0);
                return woken as c_long + with_errno(raw(n, [a, b, c, d, e, f])) as c_long;
            }
            _ => {}
        }
    }
    with_errno(raw(n, [a, b, c, d, e, f])) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, t: *mut timespec) -> c_int {
    let wall = [libc::CLOCK_REALTIME, libc::CLOCK_MONOTONIC, libc::CLOCK_BOOTTIME, libc::CLOCK_MONOTONIC_COARSE,
        libc::CLOCK_REALTIME_COARSE, libc::CLOCK_MONOTONIC_RAW];
    if wall.contains(&id) {
        if let Some(now) = os::clock() {
            (*t).tv_sec = (now / 1_000_000_000) as _;
            (*t).tv_nsec = (now % 1_000_000_000) as _;
            return 0;
        }
    }
    with_errno(raw(libc::SYS_clock_gettime, [id as usize, t as usize, 0, 0, 0, 0])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, rest: *mut timespec) -> c_int {
    if os::sleep(ns(t)) {
        return 0;
    }
    with_errno(raw(libc::SYS_nanosleep, [t as usize, rest as usize, 0, 0, 0, 0])) as c_int
}
/// Unlike the others it returns the error.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, t: *const timespec, rest: *mut timespec) -> c_int {
    let for_how_long = if flags & libc::TIMER_ABSTIME == 0 {
        Some(ns(t))
    } else {
        os::clock().map(|now| ns(t).saturating_sub(now))
    };
    if let Some(d) = for_how_long {
        if os::sleep(d) {
            return 0;
        }
    }
    -raw(libc::SYS_clock_nanosleep, [id as usize, flags as usize, t as usize, rest as usize, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if os::sleep(0) {
        return 0;
    }
    with_errno(raw(libc::SYS_sched_yield, [0; 6])) as c_int
}

unsafe fn next(slot: &AtomicUsize, name: &'static std::ffi::CStr) -> usize {
    let f = slot.load(Ordering::SeqCst);
    if f != 0 {
        return f;
    }
    let f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
    if f == 0 {
        libc::abort();
    }
    slot.store(f, Ordering::SeqCst);
    f
}
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
static CREATE: AtomicUsize = AtomicUsize::new(0);
static JOIN: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const c_void, f: Start, x: *mut c_void) -> c_int {
    let create: unsafe extern "C" fn(*mut libc::pthread_t, *const c_void, Start, *mut c_void) -> c_int =
        std::mem::transmute(next(&CREATE, c"pthread_create"));
    let _whole = os::Whole::new();
    match os::adopt(f, x) {
        Ok((f, x, id)) => {
            let r = create(t, a, f, x);
            if r != 0 {
                // out of threads: nothing sensible is left to simulate
                libc::abort();
            }
            os::adopted(id, *t as usize);
            0
        }
        Err(()) => create(t, a, f, x),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let join: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int =
        std::mem::transmute(next(&JOIN, c"pthread_join"));
    os::wait_for_thread(t as usize);
    join(t, out)
}

// ---- files ---------------------------------------------------------------------------------------
//
// Everything below `/sim`, and what simulated tasks find below `/tmp`, lives in a scratch tree.
// Simulated tasks change nothing anywhere else.

use libc::{c_char, mode_t};
use std::ffi::{CStr, CString};
use std::sync::Mutex;

static BASE: Mutex<String> = Mutex::new(String::new());
static MADE: AtomicUsize = AtomicUsize::new(0);

/// The scratch tree of a worker.
pub fn scratch(worker: u32) -> std::path::PathBuf {
    let shm = CString::new("/dev/shm").unwrap();
    let ok = unsafe { raw(libc::SYS_access, [shm.as_ptr() as usize, (libc::W_OK | libc::X_OK) as usize, 0, 0, 0, 0]) } == 0;
    std::path::PathBuf::from(format!("{}/carmen-sim-{}", if ok { "/dev/shm" } else { "/tmp" }, worker))
}
pub fn use_scratch(worker: u32) {
    *BASE.lock().unwrap() = scratch(worker).to_str().unwrap().to_string();
}
fn base() -> String {
    let _inside = os::Inside::new();
    let b = BASE.lock().unwrap().clone();
    let run = os::run() as usize;
    let root = format!("{}/{}", b, run);
    if MADE.swap(run, Ordering::SeqCst) != run {
        for d in [b.clone(), root.clone(), format!("{}/sim", root), format!("{}/tmp", root)] {
            let d = CString::new(d).unwrap();
            unsafe { raw(libc::SYS_mkdir, [d.as_ptr() as usize, 0o755, 0, 0, 0, 0]) };
        }
    }
    root
}
fn below(p: &[u8], top: &[u8]) -> bool {
    p.starts_with(top) && (p.len() == top.len() || p[top.len()] == b'/')
}
struct Path {
    at: *const c_char,
    _own: Option<CString>,
    ours: bool,
}
unsafe fn map(p: *const c_char) -> Path {
    if !p.is_null() {
        let b = CStr::from_ptr(p).to_bytes();
        let tmp = below(b, b"/tmp") && {
            let _inside = os::Inside::new();
            simrt::current().is_some()
        };
        if tmp || below(b, b"/sim") {
            let mut v = base().into_bytes();
            v.extend_from_slice(b);
            let own = CString::new(v).unwrap();
            return Path { at: own.as_ptr(), _own: Some(own), ours: true };
        }
    }
    Path { at: p, _own: None, ours: false }
}
/// A change to the tree: allowed, and does it happen? (`Ok(true)`: it does, but reports failure.)
unsafe fn change(what: &str, paths: &[&Path], names: &[*const c_char]) -> Result<bool, c_int> {
    if !os::in_task() {
        return Ok(false);
    }
    if paths.iter().any(|p| !p.ours) {
        return Err(libc::EACCES);
    }
    let mut detail = what.as_bytes().to_vec();
    for n in names {
        detail.push(b'|');
        detail.extend_from_slice(CStr::from_ptr(*n).to_bytes());
    }
    match os::file(&detail) {
        os::FileOutcome::Ok => Ok(false),
        os::FileOutcome::Error => Err(libc::EIO),
        os::FileOutcome::ErrorButApplied => Ok(true),
    }
}
unsafe fn done(r: isize, spoilt: bool) -> c_int {
    if spoilt && r >= 0 {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    with_errno(r) as c_int
}
unsafe fn refuse(e: c_int) -> c_int {
    *libc::__errno_location() = e;
    -1
}
macro_rules! changes {
    ($name:ident, $nr:ident, ($($p:ident),+), ($($x:ident),*)) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($p: *const c_char,)+ $($x: usize),*) -> c_int {
            let names = [$($p),+];
            $(let $p = map($p);)+
            match change(stringify!($name), &[$(&$p),+], &names) {
                Err(e) => refuse(e),
                Ok(spoilt) => {
                    let mut a = [0usize; 6];
                    let given = [$($p.at as usize,)+ $($x),*];
                    a[..given.len()].copy_from_slice(&given);
                    done(raw(libc::$nr, a), spoilt)
                }
            }
        }
    };
}
changes!(mkdir, SYS_mkdir, (p), (mode));
changes!(rmdir, SYS_rmdir, (p), ());
changes!(unlink, SYS_unlink, (p), ());
changes!(rename, SYS_rename, (p, q), ());
changes!(link, SYS_link, (p, q), ());
changes!(chmod, SYS_chmod, (p), (mode));

const AT: usize = libc::AT_FDCWD as isize as usize;
fn cwd(fd: c_int) -> bool {
    fd == libc::AT_FDCWD
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, p: *const c_char, flags: c_int) -> c_int {
    let name = p;
    let mut m = map(p);
    if !cwd(fd) && os::in_task() && !m.ours {
        // relative to a directory that was opened
        let link = CString::new(format!("/proc/self/fd/{}", fd)).unwrap();
        let mut buf = [0u8; 4096];
        let n = raw(libc::SYS_readlink, [link.as_ptr() as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0]);
        m.ours = n > 0 && below(&buf[..n as usize], base().as_bytes());
    }
    match change("unlinkat", &[&m], &[name]) {
        Err(e) => refuse(e),
        Ok(spoilt) => {
            let fd = if cwd(fd) { AT } else { fd as usize };
            done(raw(libc::SYS_unlinkat, [fd, m.at as usize, flags as usize, 0, 0, 0]), spoilt)
        }
    }
}
unsafe fn open_at(fd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let m = map(p);
    let mut spoilt = false;
    if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 || flags & libc::O_ACCMODE != libc::O_RDONLY {
        match change("open", &[&m], &[p]) {
            Err(e) => return refuse(e),
            Ok(s) => spoilt = s,
        }
    }
    let fd = if cwd(fd) { AT } else { fd as usize };
    let r = raw(libc::SYS_openat, [fd, m.at as usize, flags as usize, mode as usize, 0, 0]);
    if spoilt && r >= 0 {
        raw(libc::SYS_close, [r as usize, 0, 0, 0, 0, 0]);
    }
    done(r, spoilt)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(fd, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(fd, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut c_void) -> c_int {
    let m = map(p);
    let fd = if cwd(fd) { AT } else { fd as usize };
    done(raw(libc::SYS_statx, [fd, m.at as usize, flags as usize, mask as usize, out as usize, 0]), false)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut c_void) -> c_int {
    let m = map(p);
    done(raw(libc::SYS_stat, [m.at as usize, out as usize, 0, 0, 0, 0]), false)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, out: *mut c_void) -> c_int {
    let m = map(p);
    done(raw(libc::SYS_lstat, [m.at as usize, out as usize, 0, 0, 0, 0]), false)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    let m = map(p);
    done(raw(libc::SYS_access, [m.at as usize, mode as usize, 0, 0, 0, 0]), false)
}
static OPENDIR: AtomicUsize = AtomicUsize::new(0);
static REALPATH: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let f: unsafe extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(next(&OPENDIR, c"opendir"));
    f(map(p).at)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char =
        std::mem::transmute(next(&REALPATH, c"realpath"));
    let m = map(p);
    let r = f(m.at, out);
    if !r.is_null() && m.ours {
        let b = base();
        let len = CStr::from_ptr(r).to_bytes().len();
        if below(CStr::from_ptr(r).to_bytes(), b.as_bytes()) {
            std::ptr::copy(r.add(b.len()), r, len - b.len() + 1);
        }
    }
    r
}
