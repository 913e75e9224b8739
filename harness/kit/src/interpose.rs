//! Interposition of the system interface used by the code under test.
//!
//! The functions below shadow the libc symbols of the same name for this
//! binary. They forward to the kernel unless the calling thread is under
//! control (`with_env`), in which case every call is a scheduling point and
//! its answer is decided by the `Env`.
#![allow(invalid_runtime_symbol_definitions)]
use futures_cpupool::mc::sched;
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};
use std::cell::{Cell, UnsafeCell};
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Open,
    Read,
    Readdir,
    Stat,
    Fstat,
    Readlink,
    Close,
    Write,
}

pub struct Call<'a> {
    pub op: Op,
    /// directory descriptor (calls with a name) or descriptor
    pub fd: i32,
    pub name: Option<&'a [u8]>,
    pub flags: i32,
    pub size: usize,
    pub data: &'a [u8],
}

impl<'a> Call<'a> {
    /// Absolute path the call refers to (resolved through /proc/self/fd).
    pub fn path(&self) -> Vec<u8> {
        match self.name {
            Some(n) if n.starts_with(b"/") => n.to_vec(),
            Some(n) => {
                let mut p = if self.fd == libc::AT_FDCWD { b".".to_vec() } else { fd_path(self.fd) };
                if n != b"." {
                    p.push(b'/');
                    p.extend_from_slice(n);
                }
                p
            }
            None => fd_path(self.fd),
        }
    }
    /// Does the call want a directory (or a bare path handle)?
    pub fn wants_dir(&self) -> bool {
        self.flags & (libc::O_DIRECTORY | libc::O_PATH) != 0
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// do it
    Pass,
    /// fail with this errno
    Fail(i32),
    /// do it with at most that many bytes
    Limit(usize),
    /// do not do it, return this value
    Fake(isize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DirEnt {
    pub name: Vec<u8>,
    pub ino: u64,
    pub dtype: u8,
}

pub trait Env {
    fn call(&mut self, _c: &Call) -> Act {
        Act::Pass
    }
    fn ret(&mut self, _c: &Call, _res: isize) {}
    /// Entries of a listing, in a fixed order that is not that of the names
    /// ("." and ".." first).
    fn arrange(&mut self, _dir: &[u8], _ents: &mut Vec<DirEnt>) {}
    /// The entries from `pos` on have not been returned yet and may change.
    fn relist(&mut self, _fd: i32, _ents: &mut Vec<DirEnt>, _pos: usize) {}
}

/// The order of listings.
pub fn listing_key(name: &[u8]) -> (bool, u64, Vec<u8>) {
    (name != b"." && name != b"..", crate::hash::fnv(name), name.to_vec())
}

pub struct NoEnv;
impl Env for NoEnv {}

static ARMED: AtomicBool = AtomicBool::new(false);
pub static CALLS: AtomicU64 = AtomicU64::new(0);
/// 0: real clock, otherwise nanoseconds added at every reading
pub static CLOCK_STEP: AtomicU64 = AtomicU64::new(0);
static CLOCK_NOW: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static MAIN: Cell<bool> = const { Cell::new(false) };
    static IN_HOOK: Cell<bool> = const { Cell::new(false) };
}

struct EnvSlot(UnsafeCell<Option<*mut dyn Env>>);
unsafe impl Sync for EnvSlot {}
static ENV: EnvSlot = EnvSlot(UnsafeCell::new(None));

struct Snap {
    dirp: usize,
    path: Vec<u8>,
    ents: Vec<DirEnt>,
    pos: usize,
    buf: Box<[u8; 512]>,
}
struct Snaps(UnsafeCell<Vec<Snap>>);
unsafe impl Sync for Snaps {}
static SNAPS: Snaps = Snaps(UnsafeCell::new(Vec::new()));

struct Cap(UnsafeCell<Vec<u8>>);
unsafe impl Sync for Cap {}
static STDERR: Cap = Cap(UnsafeCell::new(Vec::new()));

/// What controlled threads wrote to stderr since the last call.
pub fn take_stderr() -> Vec<u8> {
    unsafe { std::mem::take(&mut *STDERR.0.get()) }
}

/// Run `f` with every system call of this thread (and of scheduler threads)
/// answered by `env`.
pub fn with_env<T>(env: &mut dyn Env, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            ARMED.store(false, Ordering::SeqCst);
            MAIN.with(|m| m.set(false));
            unsafe { *ENV.0.get() = None };
        }
    }
    let ptr: *mut dyn Env = env;
    // lifetime is bounded by this function
    let ptr: *mut (dyn Env + 'static) = unsafe { std::mem::transmute(ptr) };
    unsafe {
        *ENV.0.get() = Some(ptr);
        (*SNAPS.0.get()).clear();
    }
    CLOCK_NOW.store(1_000_000_000_000, Ordering::SeqCst);
    MAIN.with(|m| m.set(true));
    let _r = Reset;
    ARMED.store(true, Ordering::SeqCst);
    f()
}

/// Run `f` with interception off for this thread.
pub fn unhooked<T>(f: impl FnOnce() -> T) -> T {
    let old = IN_HOOK.with(|h| h.replace(true));
    let r = f();
    IN_HOOK.with(|h| h.set(old));
    r
}

#[inline]
fn hooked() -> bool {
    if !ARMED.load(Ordering::Relaxed) {
        return false;
    }
    if IN_HOOK.with(|h| h.get()) {
        return false;
    }
    MAIN.with(|m| m.get()) || sched::me().is_some()
}

fn ask(c: &Call) -> Act {
    IN_HOOK.with(|h| h.set(true));
    sched::syscall_point();
    CALLS.fetch_add(1, Ordering::Relaxed);
    let a = unsafe {
        match *ENV.0.get() {
            Some(p) => (*p).call(c),
            None => Act::Pass,
        }
    };
    IN_HOOK.with(|h| h.set(false));
    a
}

fn tell(c: &Call, res: isize) {
    IN_HOOK.with(|h| h.set(true));
    unsafe {
        if let Some(p) = *ENV.0.get() {
            (*p).ret(c, res);
        }
    }
    IN_HOOK.with(|h| h.set(false));
}

#[inline]
unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

#[inline]
unsafe fn fin(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

unsafe fn fail(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}

pub fn fd_path(fd: i32) -> Vec<u8> {
    let name = format!("/proc/self/fd/{}\0", fd);
    let mut buf = vec![0u8; 8192];
    let n = unsafe {
        raw6(libc::SYS_readlink, name.as_ptr() as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0)
    };
    if n < 0 {
        return format!("?fd{}", fd).into_bytes();
    }
    buf.truncate(n as usize);
    buf
}

unsafe fn cname<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

/// Ask, perform with the raw system call, tell.
unsafe fn mediated(c: Call, raw: impl FnOnce(usize) -> isize) -> isize {
    let size = c.size;
    let r = match ask(&c) {
        Act::Pass => fin(raw(size)),
        Act::Limit(n) => fin(raw(n.min(size))),
        Act::Fail(e) => fail(e),
        Act::Fake(v) => v,
    };
    let errno = *libc::__errno_location();
    tell(&c, r);
    *libc::__errno_location() = errno;
    r
}

unsafe fn do_openat(fd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let raw = |_| raw6(libc::SYS_openat, fd as isize as usize, path as usize, flags as usize, mode as usize, 0, 0);
    if !hooked() {
        return fin(raw(0)) as c_int;
    }
    let c = Call { op: Op::Open, fd, name: Some(cname(path)), flags, size: 0, data: &[] };
    mediated(c, raw) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(fd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(fd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let raw = |n: usize| raw6(libc::SYS_read, fd as isize as usize, buf as usize, n, 0, 0, 0);
    if !hooked() {
        return fin(raw(n));
    }
    let c = Call { op: Op::Read, fd, name: None, flags: 0, size: n, data: &[] };
    mediated(c, raw)
}

unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    let raw = |n: usize| raw6(libc::SYS_pread64, fd as isize as usize, buf as usize, n, off as usize, 0, 0);
    if !hooked() {
        return fin(raw(n));
    }
    let c = Call { op: Op::Read, fd, name: None, flags: 0, size: n, data: &[] };
    mediated(c, raw)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    do_pread(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    do_pread(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    let raw = |_| raw6(libc::SYS_readv, fd as isize as usize, iov as usize, cnt as usize, 0, 0, 0);
    if !hooked() || cnt < 1 {
        return fin(raw(0));
    }
    let v = &*iov;
    read(fd, v.iov_base, v.iov_len)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let raw = |n: usize| raw6(libc::SYS_write, fd as isize as usize, buf as usize, n, 0, 0, 0);
    if !hooked() {
        return fin(raw(n));
    }
    let data = std::slice::from_raw_parts(buf as *const u8, n);
    let c = Call { op: Op::Write, fd, name: None, flags: 0, size: n, data };
    if fd == 2 {
        // captured instead of printed
        return mediated(c, |n| {
            IN_HOOK.with(|h| h.set(true));
            (*STDERR.0.get()).extend_from_slice(&data[..n]);
            IN_HOOK.with(|h| h.set(false));
            n as isize
        });
    }
    mediated(c, raw)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let raw = |_| raw6(libc::SYS_close, fd as isize as usize, 0, 0, 0, 0, 0);
    if !hooked() {
        return fin(raw(0)) as c_int;
    }
    let c = Call { op: Op::Close, fd, name: None, flags: 0, size: 0, data: &[] };
    mediated(c, raw) as c_int
}

unsafe fn do_fstatat(fd: c_int, path: *const c_char, st: *mut c_void, flags: c_int) -> c_int {
    let raw = |_| raw6(libc::SYS_newfstatat, fd as isize as usize, path as usize, st as usize, flags as usize, 0, 0);
    if !hooked() {
        return fin(raw(0)) as c_int;
    }
    let name = cname(path);
    let c = if name.is_empty() {
        Call { op: Op::Fstat, fd, name: None, flags, size: 0, data: &[] }
    } else {
        Call { op: Op::Stat, fd, name: Some(name), flags, size: 0, data: &[] }
    };
    mediated(c, raw) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(fd: c_int, path: *const c_char, st: *mut c_void, flags: c_int) -> c_int {
    do_fstatat(fd, path, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, path: *const c_char, st: *mut c_void, flags: c_int) -> c_int {
    do_fstatat(fd, path, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut c_void) -> c_int {
    do_fstatat(libc::AT_FDCWD, path, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut c_void) -> c_int {
    do_fstatat(libc::AT_FDCWD, path, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut c_void) -> c_int {
    do_fstatat(libc::AT_FDCWD, path, st, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut c_void) -> c_int {
    do_fstatat(libc::AT_FDCWD, path, st, libc::AT_SYMLINK_NOFOLLOW)
}
unsafe fn do_fstat(fd: c_int, st: *mut c_void) -> c_int {
    let raw = |_| raw6(libc::SYS_fstat, fd as isize as usize, st as usize, 0, 0, 0, 0);
    if !hooked() {
        return fin(raw(0)) as c_int;
    }
    let c = Call { op: Op::Fstat, fd, name: None, flags: 0, size: 0, data: &[] };
    mediated(c, raw) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut c_void) -> c_int {
    do_fstat(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut c_void) -> c_int {
    do_fstat(fd, st)
}

unsafe fn do_statx(fd: c_int, path: *const c_char, flags: c_int, mask: u32, st: *mut c_void) -> c_int {
    let raw = |_| raw6(libc::SYS_statx, fd as isize as usize, path as usize, flags as usize, mask as usize, st as usize, 0);
    if path.is_null() || st.is_null() || !hooked() {
        return fin(raw(0)) as c_int;
    }
    let name = cname(path);
    let c = if name.is_empty() {
        Call { op: Op::Fstat, fd, name: None, flags, size: 0, data: &[] }
    } else {
        Call { op: Op::Stat, fd, name: Some(name), flags, size: 0, data: &[] }
    };
    mediated(c, raw) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: u32, st: *mut c_void) -> c_int {
    do_statx(fd, path, flags, mask, st)
}

#[no_mangle]
pub unsafe extern "C" fn readlinkat(fd: c_int, path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    let raw = |n: usize| raw6(libc::SYS_readlinkat, fd as isize as usize, path as usize, buf as usize, n, 0, 0);
    if !hooked() {
        return fin(raw(n));
    }
    let c = Call { op: Op::Readlink, fd, name: Some(cname(path)), flags: 0, size: n, data: &[] };
    mediated(c, raw)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    readlinkat(libc::AT_FDCWD, path, buf, n)
}

static REAL_FDOPENDIR: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let fd = do_openat(libc::AT_FDCWD, path, libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC | libc::O_NONBLOCK, 0);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    let f: extern "C" fn(c_int) -> *mut c_void = std::mem::transmute(real(&REAL_FDOPENDIR, b"fdopendir\0"));
    let d = f(fd);
    if d.is_null() {
        let e = *libc::__errno_location();
        raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
        *libc::__errno_location() = e;
    }
    d
}

static REAL_READDIR: AtomicUsize = AtomicUsize::new(0);
static REAL_CLOSEDIR: AtomicUsize = AtomicUsize::new(0);

unsafe fn real(slot: &AtomicUsize, name: &[u8]) -> usize {
    let mut p = slot.load(Ordering::Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize;
        assert!(p != 0);
        slot.store(p, Ordering::Relaxed);
    }
    p
}
unsafe fn real_readdir(d: *mut c_void) -> *mut libc::dirent64 {
    let f: extern "C" fn(*mut c_void) -> *mut libc::dirent64 =
        std::mem::transmute(real(&REAL_READDIR, b"readdir64\0"));
    f(d)
}

unsafe fn do_readdir(d: *mut c_void) -> *mut c_void {
    if !hooked() {
        return real_readdir(d) as *mut c_void;
    }
    let errno = *libc::__errno_location();
    let fd = libc::dirfd(d as *mut libc::DIR);
    IN_HOOK.with(|h| h.set(true));
    let snaps = &mut *SNAPS.0.get();
    let idx = match snaps.iter().position(|s| s.dirp == d as usize) {
        Some(i) => i,
        None => {
            let mut ents = Vec::new();
            loop {
                let e = real_readdir(d);
                if e.is_null() {
                    break;
                }
                ents.push(DirEnt {
                    name: cname((*e).d_name.as_ptr()).to_vec(),
                    ino: (*e).d_ino,
                    dtype: (*e).d_type,
                });
            }
            ents.sort_by_key(|e| listing_key(&e.name));
            let path = fd_path(fd);
            if let Some(p) = *ENV.0.get() {
                (*p).arrange(&path, &mut ents);
            }
            snaps.push(Snap { dirp: d as usize, path, ents, pos: 0, buf: Box::new([0; 512]) });
            snaps.len() - 1
        }
    };
    IN_HOOK.with(|h| h.set(false));
    let (path, pos) = {
        let s = &(&*SNAPS.0.get())[idx];
        (s.path.clone(), s.pos)
    };
    let c = Call { op: Op::Readdir, fd, name: Some(&path), flags: 0, size: pos, data: &[] };
    let act = ask(&c);
    let snaps = &mut *SNAPS.0.get();
    // the index may have moved while other threads ran
    let s = match snaps.iter_mut().find(|s| s.dirp == d as usize) {
        Some(s) => s,
        None => return std::ptr::null_mut(),
    };
    if let Act::Fail(e) = act {
        *libc::__errno_location() = e;
        return std::ptr::null_mut();
    }
    IN_HOOK.with(|h| h.set(true));
    if let Some(p) = *ENV.0.get() {
        (*p).relist(fd, &mut s.ents, s.pos);
    }
    IN_HOOK.with(|h| h.set(false));
    *libc::__errno_location() = errno;
    if s.pos >= s.ents.len() {
        return std::ptr::null_mut();
    }
    let e = &s.ents[s.pos];
    s.pos += 1;
    let p = s.buf.as_mut_ptr() as *mut libc::dirent64;
    std::ptr::write_bytes(p as *mut u8, 0, 512);
    (*p).d_ino = e.ino;
    (*p).d_type = e.dtype;
    (*p).d_reclen = 280;
    let n = e.name.len().min(255);
    std::ptr::copy_nonoverlapping(e.name.as_ptr(), (*p).d_name.as_mut_ptr() as *mut u8, n);
    p as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut c_void) -> *mut c_void {
    do_readdir(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    do_readdir(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if hooked() {
        IN_HOOK.with(|h| h.set(true));
        (*SNAPS.0.get()).retain(|s| s.dirp != d as usize);
        IN_HOOK.with(|h| h.set(false));
    }
    let f: extern "C" fn(*mut c_void) -> c_int =
        std::mem::transmute(real(&REAL_CLOSEDIR, b"closedir\0"));
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    let step = CLOCK_STEP.load(Ordering::Relaxed);
    if step != 0 && hooked() {
        let now = CLOCK_NOW.fetch_add(step, Ordering::SeqCst) + step;
        (*ts).tv_sec = (now / 1_000_000_000) as i64;
        (*ts).tv_nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    fin(raw6(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex && sched::me().is_some() {
        match (b as c_int) & 127 {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                if sched::futex_wait(a, c as u32, d != 0) {
                    return 0;
                }
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                sched::futex_wake(a);
            }
            _ => {}
        }
    }
    if n == libc::SYS_statx && hooked() {
        return do_statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut c_void) as c_long;
    }
    fin(raw6(n, a, b, c, d, e, f)) as c_long
}
