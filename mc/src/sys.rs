//! Interposition of the libc functions through which the code under test reaches the file system,
//! the clock and futexes.
//!
//! Every call made by a thread with an armed hook is reported as an [`Op`] before it happens; the
//! hook decides whether it proceeds, fails, is shortened or never returns (crash). Mutating calls
//! outside the scratch directory are never executed; they are recorded as escapes.

use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};
use std::ffi::CStr;
use std::path::{Component, Path, PathBuf};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Open,
    OpenW,
    Read,
    Write,
    Seek,
    Stat,
    Fstat,
    Rename,
    Unlink,
    Rmdir,
    Mkdir,
    Truncate,
    CopyRange,
    Link,
    Chmod,
    Opendir,
    Readdir,
    Sync,
    FutexWait,
    FutexWake,
}

impl Kind {
    pub fn mutating(self) -> bool {
        use Kind::*;
        matches!(
            self,
            OpenW | Write | Rename | Unlink | Rmdir | Mkdir | Truncate | CopyRange | Link | Chmod
        )
    }
}

#[derive(Debug, Clone)]
pub struct Op {
    pub kind: Kind,
    /// absolute, lexically normalized
    pub path: PathBuf,
    pub path2: Option<PathBuf>,
    /// length of a read or write; address of a futex
    pub len: usize,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Decision {
    Proceed,
    Fail(i32),
    /// perform only the first n bytes
    Short(usize),
    /// futex wait: return without waiting
    Skip,
}

pub trait Hook {
    fn before(&mut self, op: &Op) -> Decision;
}

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static HOOK: RefCell<Option<Box<dyn Hook>>> = const { RefCell::new(None) };
}

static EXE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);
static ESCAPES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static FILE_OPS: AtomicUsize = AtomicUsize::new(0);

/// restrict mutations of armed threads to this directory
pub fn set_scratch(p: &Path) {
    *SCRATCH.lock().unwrap() = Some(p.to_owned());
}

pub fn take_escapes() -> Vec<String> {
    std::mem::take(&mut *ESCAPES.lock().unwrap())
}

/// number of intercepted operations so far
pub fn op_count() -> usize {
    FILE_OPS.load(Ordering::Relaxed)
}

/// run `f` with the hooks of this thread on
pub fn armed<T>(f: impl FnOnce() -> T) -> T {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(self.0));
        }
    }
    let _r = Reset(ARMED.with(|a| a.replace(true)));
    f()
}

/// run `f` with the hooks of this thread off
pub fn disarmed<T>(f: impl FnOnce() -> T) -> T {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(self.0));
        }
    }
    let _r = Reset(ARMED.with(|a| a.replace(false)));
    f()
}

pub fn set_hook(h: Option<Box<dyn Hook>>) -> Option<Box<dyn Hook>> {
    HOOK.with(|c| std::mem::replace(&mut *c.borrow_mut(), h))
}

fn is_armed() -> bool {
    ARMED.try_with(Cell::get).unwrap_or(false) && DEPTH.try_with(Cell::get).unwrap_or(1) == 0
}

fn normalize(p: &Path) -> PathBuf {
    let mut out = PathBuf::from("/");
    for c in p.components() {
        match c {
            Component::ParentDir => {
                out.pop();
            }
            Component::Normal(x) => out.push(x),
            _ => {}
        }
    }
    out
}

fn fd_path(fd: c_int) -> PathBuf {
    let link = format!("/proc/self/fd/{fd}\0");
    let mut buf = [0u8; 4096];
    let n = unsafe {
        raw6(
            libc::SYS_readlinkat,
            libc::AT_FDCWD as i64,
            link.as_ptr() as i64,
            buf.as_mut_ptr() as i64,
            buf.len() as i64,
            0,
            0,
        )
    };
    if n <= 0 {
        return PathBuf::from("/?");
    }
    use std::os::unix::ffi::OsStrExt;
    PathBuf::from(std::ffi::OsStr::from_bytes(&buf[..n as usize]))
}

unsafe fn c_path(dirfd: c_int, p: *const c_char) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    let s = Path::new(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()));
    if s.is_absolute() {
        normalize(s)
    } else if dirfd == libc::AT_FDCWD {
        let cwd = std::env::current_dir().unwrap_or_else(|_| PathBuf::from("/"));
        normalize(&cwd.join(s))
    } else {
        normalize(&fd_path(dirfd).join(s))
    }
}

/// read-only access to these is not an access to data of the service
const SYSTEM: [&str; 11] = [
    "/proc", "/sys", "/dev", "/usr", "/lib", "/lib64", "/etc/localtime", "/opt",
    "/etc/timezone", "/etc/zoneinfo", "/share/zoneinfo",
];

fn escapes(op: &Op) -> bool {
    let guard = match SCRATCH.lock() {
        Ok(g) => g,
        Err(_) => return true,
    };
    let scratch = match *guard {
        Some(ref s) => s,
        None => return op.kind.mutating(),
    };
    let outside = |p: &Path| {
        if p.starts_with(scratch) {
            return false;
        }
        // read to resolve the symbols of a backtrace
        if !op.kind.mutating() && p.starts_with(EXE.get_or_init(|| {
                let exe = std::env::current_exe().unwrap_or_default();
                exe.parent().map_or_else(|| PathBuf::from("/?"), Path::to_owned)
            }))
        {
            return false;
        }
        op.kind.mutating()
            || !(SYSTEM.iter().any(|s| p.starts_with(s)) || scratch.starts_with(p))
    };
    outside(&op.path) || op.path2.as_deref().map_or(false, outside)
}

fn dispatch(op: Op) -> Decision {
    FILE_OPS.fetch_add(1, Ordering::Relaxed);
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            DEPTH.with(|d| d.set(d.get() - 1));
        }
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    let _d = D;
    if !matches!(op.kind, Kind::FutexWait | Kind::FutexWake) && escapes(&op) {
        ESCAPES
            .lock()
            .unwrap()
            .push(format!("{:?} {} {:?}", op.kind, op.path.display(), op.path2));
        return Decision::Fail(libc::EACCES);
    }
    let mut hook = match HOOK.with(|h| h.borrow_mut().take()) {
        Some(h) => h,
        None => return Decision::Proceed,
    };
    let d = hook.before(&op);
    HOOK.with(|h| {
        let mut h = h.borrow_mut();
        if h.is_none() {
            *h = Some(hook);
        }
    });
    d
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

#[cfg(target_arch = "x86_64")]
unsafe fn raw6(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as i64 => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

fn ret_errno(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

macro_rules! sys {
    ($n:expr $(, $a:expr)*) => {
        ret_errno(sys_raw($n, &[$($a as i64),*]))
    };
}

fn sys_raw(n: c_long, args: &[i64]) -> i64 {
    let g = |i: usize| args.get(i).copied().unwrap_or(0);
    unsafe { raw6(n, g(0), g(1), g(2), g(3), g(4), g(5)) }
}

/// report the op; returns None to proceed, or the number of bytes / the error
macro_rules! report {
    ($kind:expr, $path:expr, $path2:expr, $len:expr) => {{
        if is_armed() {
            let op = Op {
                kind: $kind,
                path: $path,
                path2: $path2,
                len: $len,
            };
            match dispatch(op) {
                Decision::Fail(e) => {
                    set_errno(e);
                    return -1;
                }
                Decision::Short(n) => Some(n),
                Decision::Proceed | Decision::Skip => None,
            }
        } else {
            None
        }
    }};
}

fn open_kind(flags: c_int) -> Kind {
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0
    {
        Kind::OpenW
    } else {
        Kind::Open
    }
}

unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let _ = report!(open_kind(flags), c_path(dirfd, p), None, 0);
    sys!(libc::SYS_openat, dirfd, p, flags | libc::O_LARGEFILE, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let n = report!(Kind::Read, fd_path(fd), None, n).map_or(n, |k| k.min(n));
    sys!(libc::SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    let n = report!(Kind::Read, fd_path(fd), None, n).map_or(n, |k| k.min(n));
    sys!(libc::SYS_pread64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let n = report!(Kind::Write, fd_path(fd), None, n).map_or(n, |k| k.min(n));
    sys!(libc::SYS_write, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let n = report!(Kind::Write, fd_path(fd), None, n).map_or(n, |k| k.min(n));
    sys!(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    let _ = report!(Kind::Read, fd_path(fd), None, 0);
    sys!(libc::SYS_readv, fd, iov, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    let total: usize = (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum();
    if let Some(k) = report!(Kind::Write, fd_path(fd), None, total) {
        let k = k.min((*iov).iov_len);
        return sys!(libc::SYS_write, fd, (*iov).iov_base, k) as ssize_t;
    }
    sys!(libc::SYS_writev, fd, iov, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let _ = report!(Kind::Seek, fd_path(fd), None, 0);
    sys!(libc::SYS_lseek, fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    d: c_int,
    p: *const c_char,
    flags: c_int,
    mask: c_uint,
    buf: *mut c_void,
) -> c_int {
    if is_armed() && !p.is_null() {
        if *p == 0 && flags & libc::AT_EMPTY_PATH != 0 {
            let _ = report!(Kind::Fstat, fd_path(d), None, 0);
        } else {
            let _ = report!(Kind::Stat, c_path(d, p), None, 0);
        }
    }
    sys!(libc::SYS_statx, d, p, flags, mask, buf) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, buf: *mut c_void) -> c_int {
    let _ = report!(Kind::Stat, c_path(libc::AT_FDCWD, p), None, 0);
    sys!(libc::SYS_newfstatat, libc::AT_FDCWD, p, buf, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, buf: *mut c_void) -> c_int {
    let _ = report!(Kind::Stat, c_path(libc::AT_FDCWD, p), None, 0);
    sys!(libc::SYS_newfstatat, libc::AT_FDCWD, p, buf, libc::AT_SYMLINK_NOFOLLOW) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut c_void) -> c_int {
    let _ = report!(Kind::Fstat, fd_path(fd), None, 0);
    sys!(libc::SYS_fstat, fd, buf) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, buf: *mut c_void, flags: c_int) -> c_int {
    let _ = report!(Kind::Stat, c_path(d, p), None, 0);
    sys!(libc::SYS_newfstatat, d, p, buf, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let _ = report!(
        Kind::Rename,
        c_path(libc::AT_FDCWD, a),
        Some(c_path(libc::AT_FDCWD, b)),
        0
    );
    sys!(libc::SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    let _ = report!(Kind::Rename, c_path(d, a), Some(c_path(e, b)), 0);
    sys!(libc::SYS_renameat, d, a, e, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(
    d: c_int,
    a: *const c_char,
    e: c_int,
    b: *const c_char,
    f: c_uint,
) -> c_int {
    let _ = report!(Kind::Rename, c_path(d, a), Some(c_path(e, b)), 0);
    sys!(libc::SYS_renameat2, d, a, e, b, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let _ = report!(Kind::Unlink, c_path(libc::AT_FDCWD, p), None, 0);
    sys!(libc::SYS_unlink, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    let kind = if flags & libc::AT_REMOVEDIR != 0 {
        Kind::Rmdir
    } else {
        Kind::Unlink
    };
    let _ = report!(kind, c_path(d, p), None, 0);
    sys!(libc::SYS_unlinkat, d, p, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    let _ = report!(Kind::Rmdir, c_path(libc::AT_FDCWD, p), None, 0);
    sys!(libc::SYS_rmdir, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    let _ = report!(Kind::Mkdir, c_path(libc::AT_FDCWD, p), None, 0);
    sys!(libc::SYS_mkdir, p, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let _ = report!(Kind::Truncate, fd_path(fd), None, 0);
    sys!(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, len: off64_t) -> c_int {
    let _ = report!(Kind::Truncate, c_path(libc::AT_FDCWD, p), None, 0);
    sys!(libc::SYS_truncate, p, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, m: c_int, o: off64_t, l: off64_t) -> c_int {
    let _ = report!(Kind::Truncate, fd_path(fd), None, 0);
    sys!(libc::SYS_fallocate, fd, m, o, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int,
    ao: *mut off64_t,
    b: c_int,
    bo: *mut off64_t,
    n: size_t,
    f: c_uint,
) -> ssize_t {
    let n = report!(Kind::CopyRange, fd_path(b), Some(fd_path(b)), n).map_or(n, |k| k.min(n));
    sys!(libc::SYS_copy_file_range, a, ao, b, bo, n, f) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(b: c_int, a: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    let n = report!(Kind::CopyRange, fd_path(b), None, n).map_or(n, |k| k.min(n));
    sys!(libc::SYS_sendfile, b, a, o, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    let _ = report!(
        Kind::Link,
        c_path(libc::AT_FDCWD, a),
        Some(c_path(libc::AT_FDCWD, b)),
        0
    );
    sys!(libc::SYS_link, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(
    d: c_int,
    a: *const c_char,
    e: c_int,
    b: *const c_char,
    f: c_int,
) -> c_int {
    let _ = report!(Kind::Link, c_path(d, a), Some(c_path(e, b)), 0);
    sys!(libc::SYS_linkat, d, a, e, b, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    let _ = report!(Kind::Link, c_path(libc::AT_FDCWD, b), None, 0);
    sys!(libc::SYS_symlink, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    let _ = report!(Kind::Chmod, c_path(libc::AT_FDCWD, p), None, 0);
    sys!(libc::SYS_chmod, p, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    let _ = report!(Kind::Chmod, fd_path(fd), None, 0);
    sys!(libc::SYS_fchmod, fd, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chown(p: *const c_char, u: c_uint, g: c_uint) -> c_int {
    let _ = report!(Kind::Chmod, c_path(libc::AT_FDCWD, p), None, 0);
    sys!(libc::SYS_chown, p, u, g) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let _ = report!(Kind::Sync, fd_path(fd), None, 0);
    sys!(libc::SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let _ = report!(Kind::Sync, fd_path(fd), None, 0);
    sys!(libc::SYS_fdatasync, fd) as c_int
}

// --- directory streams: glibc's own implementation, reached through dlsym ---

fn next_sym(name: &'static [u8], cache: &AtomicUsize) -> usize {
    let p = cache.load(Ordering::Relaxed);
    if p != 0 {
        return p;
    }
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr().cast()) } as usize;
    assert!(p != 0);
    cache.store(p, Ordering::Relaxed);
    p
}

static OPENDIR: AtomicUsize = AtomicUsize::new(0);
static READDIR64: AtomicUsize = AtomicUsize::new(0);
static CLOCK: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if is_armed() {
        let op = Op {
            kind: Kind::Opendir,
            path: c_path(libc::AT_FDCWD, p),
            path2: None,
            len: 0,
        };
        if let Decision::Fail(e) = dispatch(op) {
            set_errno(e);
            return std::ptr::null_mut();
        }
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR =
        std::mem::transmute(next_sym(b"opendir\0", &OPENDIR));
    f(p)
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if is_armed() {
        let op = Op {
            kind: Kind::Readdir,
            path: fd_path(libc::dirfd(d)),
            path2: None,
            len: 0,
        };
        if let Decision::Fail(e) = dispatch(op) {
            set_errno(e);
            return std::ptr::null_mut();
        }
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 =
        std::mem::transmute(next_sym(b"readdir64\0", &READDIR64));
    f(d)
}

// --- clock ---

extern "C" {
    fn tzset();
}

/// let local time be that of `zone`, a POSIX zone
pub fn set_zone(zone: &str) {
    std::env::set_var("TZ", zone);
    unsafe { tzset() };
}
/// the zone of every check that names no other: nothing depends on it
pub const ZONE: &str = "NPT-5:45";

/// added to the real time clock, in seconds; or, if `FIXED` is set, the nanoseconds it shows
static CLOCK_FIXED: AtomicI64 = AtomicI64::new(i64::MIN);

/// let the real time clock show `secs` + `nanos` for the whole process (None: the real time)
pub fn fix_clock(t: Option<(i64, i64)>) {
    CLOCK_FIXED.store(
        t.map_or(i64::MIN, |(s, n)| s * 1_000_000_000 + n),
        Ordering::SeqCst,
    );
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    let fixed = CLOCK_FIXED.load(Ordering::Relaxed);
    if fixed != i64::MIN && (id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE) {
        (*ts).tv_sec = fixed.div_euclid(1_000_000_000);
        (*ts).tv_nsec = fixed.rem_euclid(1_000_000_000);
        return 0;
    }
    let f: unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> c_int =
        std::mem::transmute(next_sym(b"clock_gettime\0", &CLOCK));
    f(id, ts)
}

// --- futexes (std::sync::Mutex) and everything else that uses libc::syscall ---

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: i64,
    b: i64,
    c: i64,
    d: i64,
    e: i64,
    f: i64,
) -> c_long {
    if n == libc::SYS_futex && is_armed() {
        let cmd = (b as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        let kind = match cmd {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => Some(Kind::FutexWait),
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => Some(Kind::FutexWake),
            _ => None,
        };
        if let Some(kind) = kind {
            // a wait whose value already changed returns at once, as in the kernel
            let stale = kind == Kind::FutexWait
                && (*(a as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst) != c as u32;
            if !stale {
                let op = Op {
                    kind,
                    path: PathBuf::new(),
                    path2: None,
                    len: a as usize,
                };
                if dispatch(op) == Decision::Skip {
                    return 0;
                }
            } else {
                set_errno(libc::EAGAIN);
                return -1;
            }
        }
    }
    ret_errno(raw6(n, a, b, c, d, e, f))
}
