//! The seam: libc entry points, defined here so that std and glob call these instead.
//! A guest thread sees the simulated machine only; a host thread gets the real system call.
use crate::sched;
use crate::sim::{is_guest, with_sim, Stat, VDir, VFD};
use libc::{c_char, c_int, c_long, c_void, off64_t, size_t, ssize_t};
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

pub unsafe fn raw_syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

unsafe fn res<T: Into<i64>>(r: Result<T, i32>) -> i64 {
    match r {
        Ok(v) => v.into(),
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

unsafe fn next(cache: &AtomicUsize, name: &CStr) -> usize {
    let mut p = cache.load(Ordering::Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
        cache.store(p, Ordering::Relaxed);
    }
    p
}

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

unsafe fn open_any(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if is_guest() {
        sched::point(sched::FS);
        return res(with_sim(|s| s.open(bytes(path), flags))) as c_int;
    }
    ret(raw_syscall(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, (flags | libc::O_LARGEFILE) as usize, mode as usize, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_any(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_any(path, flags, mode)
}

unsafe fn openat_any(fd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if is_guest() {
        sched::point(sched::FS);
        return if fd == libc::AT_FDCWD {
            res(with_sim(|s| s.open(bytes(path), flags))) as c_int
        } else {
            res(with_sim(|s| s.openat(fd, bytes(path), flags))) as c_int
        };
    }
    ret(raw_syscall(libc::SYS_openat, fd as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    openat_any(fd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    openat_any(fd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd >= VFD && is_guest() {
        sched::point(sched::FS);
        return fill(with_sim(|s| s.read(fd, n, None)), buf);
    }
    ret(raw_syscall(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0))
}

unsafe fn fill(r: Result<Vec<u8>, i32>, buf: *mut c_void) -> ssize_t {
    crate::sim::host(|| match r {
        Ok(d) => {
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len());
            d.len() as ssize_t
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if fd >= VFD && is_guest() {
        sched::point(sched::FS);
        return fill(with_sim(|s| s.read(fd, n, Some(off as u64))), buf);
    }
    ret(raw_syscall(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    pread64(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if fd >= VFD && is_guest() {
        sched::point(sched::FS);
        let iovs = std::slice::from_raw_parts(iov, cnt as usize);
        for v in iovs {
            if v.iov_len > 0 {
                return fill(with_sim(|s| s.read(fd, v.iov_len, None)), v.iov_base);
            }
        }
        return 0;
    }
    ret(raw_syscall(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= VFD && crate::sim::ACTIVE.load(Ordering::Relaxed) {
        if is_guest() {
            sched::point(sched::FS);
        }
        return match with_sim(|s| s.close(fd)) {
            Ok(()) => 0,
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    ret(raw_syscall(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if fd >= VFD && is_guest() {
        sched::point(sched::FS);
        return res(with_sim(|s| s.lseek(fd, off, whence)));
    }
    ret(raw_syscall(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0)) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}

unsafe fn put_stat(st: Stat, buf: *mut libc::stat64) {
    *buf = std::mem::zeroed();
    (*buf).st_mode = st.mode;
    (*buf).st_size = st.size;
    (*buf).st_ino = st.ino;
    (*buf).st_dev = 42;
    (*buf).st_nlink = 1;
    (*buf).st_blksize = 4096;
    (*buf).st_blocks = (st.size + 511) / 512;
    (*buf).st_mtime = st.mtime;
    (*buf).st_ctime = st.mtime;
    (*buf).st_atime = st.mtime;
}

unsafe fn stat_res(r: Result<Stat, i32>, buf: *mut libc::stat64) -> c_int {
    match r {
        Ok(st) => {
            put_stat(st, buf);
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat64) -> c_int {
    if fd >= VFD && is_guest() {
        sched::point(sched::FS);
        return stat_res(with_sim(|s| s.fstat(fd)), buf);
    }
    ret(raw_syscall(libc::SYS_fstat, fd as usize, buf as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, buf: *mut libc::stat64) -> c_int {
    fstat64(fd, buf)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    if is_guest() {
        sched::point(sched::FS);
        return stat_res(with_sim(|s| s.stat(None, bytes(path), true)), buf);
    }
    ret(raw_syscall(libc::SYS_stat, path as usize, buf as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    stat64(path, buf)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    if is_guest() {
        sched::point(sched::FS);
        return stat_res(with_sim(|s| s.stat(None, bytes(path), false)), buf);
    }
    ret(raw_syscall(libc::SYS_lstat, path as usize, buf as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    lstat64(path, buf)
}

fn base_of(fd: c_int) -> Option<i32> {
    if fd == libc::AT_FDCWD {
        None
    } else {
        Some(fd)
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, path: *const c_char, buf: *mut libc::stat64, flags: c_int) -> c_int {
    if is_guest() {
        sched::point(sched::FS);
        if flags & libc::AT_EMPTY_PATH != 0 && bytes(path).is_empty() {
            return stat_res(with_sim(|s| s.fstat(fd)), buf);
        }
        return stat_res(with_sim(|s| s.stat(base_of(fd), bytes(path), flags & libc::AT_SYMLINK_NOFOLLOW == 0)), buf);
    }
    ret(raw_syscall(libc::SYS_newfstatat, fd as usize, path as usize, buf as usize, flags as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(fd: c_int, path: *const c_char, buf: *mut libc::stat64, flags: c_int) -> c_int {
    fstatat64(fd, path, buf, flags)
}

unsafe fn do_statx(fd: c_int, path: *const c_char, flags: c_int, buf: *mut libc::statx) -> c_int {
    let empty = path.is_null() || bytes(path).is_empty();
    let r = if empty && flags & libc::AT_EMPTY_PATH != 0 {
        with_sim(|s| s.fstat(fd))
    } else {
        let p = if path.is_null() { &b""[..] } else { bytes(path) };
        with_sim(|s| s.stat(base_of(fd), p, flags & libc::AT_SYMLINK_NOFOLLOW == 0))
    };
    match r {
        Ok(st) => {
            *buf = std::mem::zeroed();
            (*buf).stx_mask = libc::STATX_BASIC_STATS | libc::STATX_BTIME;
            (*buf).stx_mode = st.mode as u16;
            (*buf).stx_size = st.size as u64;
            (*buf).stx_ino = st.ino;
            (*buf).stx_dev_minor = 42;
            (*buf).stx_nlink = 1;
            (*buf).stx_blksize = 4096;
            (*buf).stx_blocks = ((st.size + 511) / 512) as u64;
            (*buf).stx_mtime.tv_sec = st.mtime;
            (*buf).stx_ctime.tv_sec = st.mtime;
            (*buf).stx_atime.tv_sec = st.mtime;
            (*buf).stx_btime.tv_sec = st.mtime;
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut libc::statx) -> c_int {
    if is_guest() && (fd == libc::AT_FDCWD || fd >= VFD || (!path.is_null() && *path == b'/' as c_char)) {
        sched::point(sched::FS);
        return do_statx(fd, path, flags, buf);
    }
    ret(raw_syscall(libc::SYS_statx, fd as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int
}

static REALPATH: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if is_guest() {
        sched::point(sched::FS);
        let r = with_sim(|s| s.realpath(bytes(path)));
        return crate::sim::host(|| match r {
            Ok(p) => {
                let dst = if out.is_null() { libc::malloc(p.len() + 1) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(p.as_ptr() as *const c_char, dst, p.len());
                *dst.add(p.len()) = 0;
                dst
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        });
    }
    let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(next(&REALPATH, c"realpath"));
    f(path, out)
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if is_guest() {
        sched::point(sched::FS);
        return fill(
            with_sim(|s| s.readlink(bytes(path))).map(|mut v| {
                v.truncate(n);
                v
            }),
            buf as *mut c_void,
        );
    }
    ret(raw_syscall(libc::SYS_readlink, path as usize, buf as usize, n, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if is_guest() {
        sched::point(sched::FS);
        let r = with_sim(|s| s.getcwd());
        return crate::sim::host(|| match r {
            Ok(p) => {
                if p.len() + 1 > n {
                    set_errno(libc::ERANGE);
                    return std::ptr::null_mut();
                }
                std::ptr::copy_nonoverlapping(p.as_ptr() as *const c_char, buf, p.len());
                *buf.add(p.len()) = 0;
                buf
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        });
    }
    let r = raw_syscall(libc::SYS_getcwd, buf as usize, n, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        std::ptr::null_mut()
    } else {
        buf
    }
}

#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    if is_guest() {
        sched::point(sched::FS);
        return res(with_sim(|s| s.chdir(bytes(path)).map(|_| 0i32))) as c_int;
    }
    ret(raw_syscall(libc::SYS_chdir, path as usize, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if is_guest() {
        sched::point(sched::FS);
        return res(with_sim(|s| s.stat(None, bytes(path), true)).map(|_| 0i32)) as c_int;
    }
    ret(raw_syscall(libc::SYS_access, path as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(fd: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if is_guest() {
        sched::point(sched::FS);
        return res(with_sim(|s| s.stat(base_of(fd), bytes(path), flags & libc::AT_SYMLINK_NOFOLLOW == 0)).map(|_| 0i32)) as c_int;
    }
    ret(raw_syscall(libc::SYS_faccessat, fd as usize, path as usize, mode as usize, 0, 0, 0)) as c_int
}

static OPENDIR: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if is_guest() {
        sched::point(sched::FS);
        return match with_sim(|s| s.opendir(bytes(path)).map(|b| Box::into_raw(b) as usize)) {
            Ok(p) => p as *mut libc::DIR,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(next(&OPENDIR, c"opendir"));
    f(path)
}

unsafe fn vdir<'a>(d: *mut libc::DIR) -> Option<&'a mut VDir> {
    if crate::sim::ACTIVE.load(Ordering::Relaxed) && with_sim(|s| s.is_vdir(d as usize)) {
        Some(&mut *(d as *mut VDir))
    } else {
        None
    }
}

static READDIR: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if let Some(v) = vdir(d) {
        let errno = *libc::__errno_location();
        sched::point(sched::FS);
        return match with_sim(|s| s.readdir(v)) {
            Ok(true) => &mut v.ent,
            Ok(false) => {
                set_errno(errno); // unchanged at the end
                std::ptr::null_mut()
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next(&READDIR, c"readdir64"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut libc::DIR) -> *mut libc::dirent64 {
    readdir64(d)
}

static CLOSEDIR: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if vdir(d).is_some() {
        let _ = with_sim(|s| s.closedir(d as usize));
        crate::sim::host(|| drop(Box::from_raw(d as *mut VDir)));
        return 0;
    }
    let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next(&CLOSEDIR, c"closedir"));
    f(d)
}

static DIRFD: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if let Some(v) = vdir(d) {
        return v.fd;
    }
    let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next(&DIRFD, c"dirfd"));
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if is_guest() && fd > 2 {
        let e = with_sim(|s| s.refuse("write", format!("fd {}", fd).as_bytes()));
        set_errno(e);
        return -1;
    }
    ret(raw_syscall(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0))
}

macro_rules! refuse_path {
    ($($name:ident, $sys:ident, ($($arg:ident : $ty:ty),*), $path:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($arg: $ty),*) -> c_int {
            if is_guest() {
                let e = with_sim(|s| s.refuse(stringify!($name), bytes($path)));
                set_errno(e);
                return -1;
            }
            let a: Vec<usize> = vec![$($arg as usize),*];
            let g = |i: usize| a.get(i).copied().unwrap_or(0);
            ret(raw_syscall(libc::$sys, g(0), g(1), g(2), g(3), g(4), 0)) as c_int
        }
    )*}
}

refuse_path! {
    unlink, SYS_unlink, (p: *const c_char), p;
    unlinkat, SYS_unlinkat, (d: c_int, p: *const c_char, f: c_int), p;
    rmdir, SYS_rmdir, (p: *const c_char), p;
    mkdir, SYS_mkdir, (p: *const c_char, m: u32), p;
    mkdirat, SYS_mkdirat, (d: c_int, p: *const c_char, m: u32), p;
    rename, SYS_rename, (p: *const c_char, q: *const c_char), p;
    renameat, SYS_renameat, (d: c_int, p: *const c_char, e: c_int, q: *const c_char), p;
    link, SYS_link, (p: *const c_char, q: *const c_char), q;
    linkat, SYS_linkat, (d: c_int, p: *const c_char, e: c_int, q: *const c_char, f: c_int), q;
    symlink, SYS_symlink, (p: *const c_char, q: *const c_char), q;
    chmod, SYS_chmod, (p: *const c_char, m: u32), p;
    truncate64, SYS_truncate, (p: *const c_char, n: off64_t), p;
    utimensat, SYS_utimensat, (d: c_int, p: *const c_char, t: *const c_void, f: c_int), p;
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if is_guest() {
        return fill(Ok(with_sim(|s| s.random(n))), buf);
    }
    ret(raw_syscall(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int {
    // time spent by this process or thread is no clock of the machine
    if is_guest() && c != libc::CLOCK_PROCESS_CPUTIME_ID && c != libc::CLOCK_THREAD_CPUTIME_ID {
        let real = c == libc::CLOCK_REALTIME || c == libc::CLOCK_REALTIME_COARSE || c == libc::CLOCK_TAI;
        let n = with_sim(|s| s.now(real));
        (*t).tv_sec = n / 1_000_000_000;
        (*t).tv_nsec = n % 1_000_000_000;
        return 0;
    }
    ret(raw_syscall(libc::SYS_clock_gettime, c as usize, t as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, z: *mut c_void) -> c_int {
    if is_guest() {
        let n = with_sim(|s| s.now(true));
        if !t.is_null() {
            (*t).tv_sec = n / 1_000_000_000;
            (*t).tv_usec = n / 1000 % 1_000_000;
        }
        return 0;
    }
    ret(raw_syscall(libc::SYS_gettimeofday, t as usize, z as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let n = if is_guest() {
        with_sim(|s| s.now(true)) / 1_000_000_000
    } else {
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        raw_syscall(libc::SYS_clock_gettime, 0, &mut ts as *mut _ as usize, 0, 0, 0, 0);
        ts.tv_sec
    };
    if !t.is_null() {
        *t = n;
    }
    n
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if is_guest() && sched::enabled() {
        sched::blocked();
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if is_guest() {
        sched::sleep();
        return 0;
    }
    ret(raw_syscall(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if is_guest() {
        sched::sleep();
        return 0;
    }
    -raw_syscall(libc::SYS_clock_nanosleep, c as usize, f as usize, a as usize, b as usize, 0, 0) as c_int
}

/// variadic in C; on x86-64 the arguments arrive in the same registers
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if is_guest() {
        match n {
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b, c as u32) as c_long,
            libc::SYS_futex => {
                let cmd = (b as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
                if sched::enabled() && (cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET) {
                    let word = &*(a as *const std::sync::atomic::AtomicU32);
                    if word.load(Ordering::SeqCst) != c as u32 {
                        set_errno(libc::EAGAIN);
                        return -1;
                    }
                    sched::blocked();
                    return 0;
                }
            }
            libc::SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as c_long,
            _ => {}
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f)) as c_long
}

unsafe fn fcntl_any(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd >= VFD && crate::sim::ACTIVE.load(Ordering::Relaxed) {
        if !with_sim(|s| s.is_vfd(fd)) {
            set_errno(libc::EBADF);
            return -1;
        }
        return match cmd {
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => libc::O_RDONLY,
            libc::F_SETFD | libc::F_SETFL => 0,
            _ => {
                set_errno(libc::EINVAL);
                -1
            }
        };
    }
    ret(raw_syscall(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl_any(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl_any(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(fd: c_int, _off: off64_t, _len: off64_t, _advice: c_int) -> c_int {
    if fd >= VFD {
        return 0;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, off: off64_t, len: off64_t, advice: c_int) -> c_int {
    posix_fadvise(fd, off, len, advice)
}
