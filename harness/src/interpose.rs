//! libc symbols that std's file API calls. Paths under /simdisk/ and the
//! descriptors opened there go to the simulated kernel; everything else is
//! passed to the real kernel unchanged.
#![allow(clippy::missing_safety_doc)]
#![allow(suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions)]
use crate::world as k;
use libc::{c_char, c_int, c_uint, c_void, iovec, mode_t, off64_t, off_t, size_t, ssize_t};
use std::ffi::CStr;

unsafe fn fail<T: From<i8>>(e: i32) -> T { *libc::__errno_location() = e; T::from(-1) }
unsafe fn path<'a>(p: *const c_char) -> &'a [u8] { CStr::from_ptr(p).to_bytes() }
unsafe fn vpath(p: *const c_char) -> bool { !p.is_null() && k::is_virtual_path(path(p)) }
macro_rules! ret { ($r:expr, $t:ty) => { match $r { Ok(v) => v as $t, Err(e) => fail::<$t>(e) } } }

unsafe fn do_open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if vpath(p) { return ret!(k::sys_open(path(p), flags), c_int); }
    if k::real_path(path(p), flags & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) != 0) { return fail::<c_int>(libc::EACCES); }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode as c_uint) as c_int
}
unsafe fn do_openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if vpath(p) { return ret!(k::sys_open(path(p), flags), c_int); }
    if k::real_path(path(p), flags & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) != 0) { return fail::<c_int>(libc::EACCES); }
    libc::syscall(libc::SYS_openat, d, p, flags, mode as c_uint) as c_int
}
#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_open(p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_open(p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_openat(d, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_openat(d, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn creat64(p: *const c_char, mode: mode_t) -> c_int { do_open(p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode) }

#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if k::is_virtual_fd(fd) { return ret!(k::sys_read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), None), ssize_t); }
    libc::syscall(libc::SYS_read, fd, b, n) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if k::is_virtual_fd(fd) { return ret!(k::sys_write(fd, std::slice::from_raw_parts(b as *const u8, n), None), ssize_t); }
    libc::syscall(libc::SYS_write, fd, b, n) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    if k::is_virtual_fd(fd) { return ret!(k::sys_read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(o as u64)), ssize_t); }
    libc::syscall(libc::SYS_pread64, fd, b, n, o) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    if k::is_virtual_fd(fd) { return ret!(k::sys_write(fd, std::slice::from_raw_parts(b as *const u8, n), Some(o as u64)), ssize_t); }
    libc::syscall(libc::SYS_pwrite64, fd, b, n, o) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, o: off_t) -> ssize_t { pread64(fd, b, n, o) }
#[no_mangle] pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t { pwrite64(fd, b, n, o) }

unsafe fn first_iov<'a>(v: *const iovec, c: c_int) -> Option<&'a iovec> {
    (0..c.max(0) as usize).map(|i| &*v.add(i)).find(|x| x.iov_len > 0)
}
// A vectored transfer delivers its first non-empty buffer (a legal short transfer).
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, c: c_int) -> ssize_t {
    if k::is_virtual_fd(fd) { return match first_iov(v, c) { Some(x) => read(fd, x.iov_base, x.iov_len), None => 0 }; }
    libc::syscall(libc::SYS_readv, fd, v, c) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, c: c_int) -> ssize_t {
    if k::is_virtual_fd(fd) { return match first_iov(v, c) { Some(x) => write(fd, x.iov_base, x.iov_len), None => 0 }; }
    libc::syscall(libc::SYS_writev, fd, v, c) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, o: off64_t, w: c_int) -> off64_t {
    if k::is_virtual_fd(fd) { return ret!(k::sys_lseek(fd, o, w), off64_t); }
    libc::syscall(libc::SYS_lseek, fd, o, w) as off64_t
}
#[no_mangle] pub unsafe extern "C" fn lseek(fd: c_int, o: off_t, w: c_int) -> off_t { lseek64(fd, o, w) }
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if k::is_virtual_fd(fd) { return ret!(k::sys_close(fd), c_int); }
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle] pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if k::is_virtual_fd(fd) { return ret!(k::sys_dup(fd), c_int); }
    libc::syscall(libc::SYS_dup, fd) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int {
    if k::is_virtual_fd(fd) {
        if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC { return ret!(k::sys_dup(fd), c_int); }
        return 0;
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int { fcntl(fd, cmd, arg) }
#[no_mangle] pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if k::is_virtual_fd(fd) { return 0; }
    libc::syscall(libc::SYS_flock, fd, op) as c_int
}

const MODE_FILE: u32 = libc::S_IFREG | 0o644;
const MODE_DIR: u32 = libc::S_IFDIR | 0o755;
unsafe fn put_stat(b: *mut libc::stat64, m: k::Meta) -> c_int {
    std::ptr::write_bytes(b, 0, 1);
    (*b).st_size = m.size as i64; (*b).st_ino = m.ino; (*b).st_mode = if m.dir { MODE_DIR } else { MODE_FILE };
    (*b).st_nlink = 1; (*b).st_blksize = 4096; (*b).st_blocks = ((m.size + 511) / 512) as i64;
    0
}
macro_rules! st { ($r:expr, $b:expr) => { match $r { Ok(m) => put_stat($b, m), Err(e) => fail::<c_int>(e) } } }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut libc::stat64) -> c_int {
    if k::is_virtual_fd(fd) { return st!(k::sys_fstat(fd), b); }
    libc::syscall(libc::SYS_fstat, fd, b) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fstat(fd: c_int, b: *mut libc::stat) -> c_int { fstat64(fd, b as *mut libc::stat64) }
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    if vpath(p) { return st!(k::sys_stat(path(p)), b); }
    libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, p, b, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn stat(p: *const c_char, b: *mut libc::stat) -> c_int { stat64(p, b as *mut libc::stat64) }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    if vpath(p) { return st!(k::sys_stat(path(p)), b); }
    libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, p, b, libc::AT_SYMLINK_NOFOLLOW) as c_int
}
#[no_mangle] pub unsafe extern "C" fn lstat(p: *const c_char, b: *mut libc::stat) -> c_int { lstat64(p, b as *mut libc::stat64) }
#[no_mangle] pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, b: *mut libc::stat64, f: c_int) -> c_int {
    if vpath(p) { return st!(k::sys_stat(path(p)), b); }
    if k::is_virtual_fd(d) { return st!(k::sys_fstat(d), b); }
    libc::syscall(libc::SYS_newfstatat, d, p, b, f) as c_int
}
#[no_mangle] pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
    let m = if vpath(p) { k::sys_stat(path(p)) } else if k::is_virtual_fd(d) { k::sys_fstat(d) } else {
        return libc::syscall(libc::SYS_statx, d, p, f, mask, b) as c_int;
    };
    match m {
        Err(e) => fail::<c_int>(e),
        Ok(m) => {
            std::ptr::write_bytes(b, 0, 1);
            (*b).stx_mask = libc::STATX_BASIC_STATS; (*b).stx_size = m.size; (*b).stx_ino = m.ino; (*b).stx_nlink = 1;
            (*b).stx_mode = if m.dir { MODE_DIR } else { MODE_FILE } as u16; (*b).stx_blksize = 4096; (*b).stx_blocks = (m.size + 511) / 512;
            0
        }
    }
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if k::is_virtual_fd(fd) { return ret!(k::sys_ftruncate(fd, n as u64), c_int); }
    libc::syscall(libc::SYS_ftruncate, fd, n) as c_int
}
#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: c_int, n: off_t) -> c_int { ftruncate64(fd, n) }
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if k::is_virtual_fd(fd) { return ret!(k::sys_fsync(fd), c_int); }
    libc::syscall(libc::SYS_fsync, fd) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if k::is_virtual_fd(fd) { return ret!(k::sys_fsync(fd), c_int); }
    libc::syscall(libc::SYS_fdatasync, fd) as c_int
}
#[no_mangle] pub unsafe extern "C" fn posix_fadvise(fd: c_int, a: off_t, b: off_t, c: c_int) -> c_int {
    if k::is_virtual_fd(fd) { return 0; }
    libc::syscall(libc::SYS_fadvise64, fd, a, b, c) as c_int
}
#[no_mangle] pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int { posix_fadvise(fd, a, b, c) }
#[no_mangle] pub unsafe extern "C" fn copy_file_range(fi: c_int, oi: *mut off64_t, fo: c_int, oo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if k::is_virtual_fd(fi) || k::is_virtual_fd(fo) { return fail::<ssize_t>(libc::EINVAL); }
    libc::syscall(libc::SYS_copy_file_range, fi, oi, fo, oo, n, f) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if k::is_virtual_fd(o) || k::is_virtual_fd(i) { return fail::<ssize_t>(libc::EINVAL); }
    libc::syscall(libc::SYS_sendfile, o, i, off, n) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if vpath(a) || vpath(b) { return ret!(k::sys_rename(path(a), path(b)), c_int); }
    if k::real_path(path(a), true) { return fail::<c_int>(libc::EACCES); }
    libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if vpath(a) { return ret!(k::sys_unlink(path(a)), c_int); }
    if k::real_path(path(a), true) { return fail::<c_int>(libc::EACCES); }
    libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, a, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    if vpath(a) { return ret!(k::sys_mkdir(path(a)), c_int); }
    if k::real_path(path(a), true) { return fail::<c_int>(libc::EACCES); }
    libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, a, m) as c_int
}
#[no_mangle] pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if vpath(a) || vpath(b) { return ret!(k::sys_link(path(a), path(b)), c_int); }
    if k::real_path(path(a), true) { return fail::<c_int>(libc::EACCES); }
    libc::syscall(libc::SYS_linkat, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn access(a: *const c_char, m: c_int) -> c_int {
    if vpath(a) { return ret!(k::sys_other("access", path(a), false), c_int); }
    libc::syscall(libc::SYS_faccessat, libc::AT_FDCWD, a, m) as c_int
}
#[no_mangle] pub unsafe extern "C" fn chmod(a: *const c_char, m: mode_t) -> c_int {
    if vpath(a) { return ret!(k::sys_other("chmod", path(a), true), c_int); }
    if k::real_path(path(a), true) { return fail::<c_int>(libc::EACCES); }
    libc::syscall(libc::SYS_fchmodat, libc::AT_FDCWD, a, m) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if k::is_virtual_fd(fd) { k::fd_change(); return 0; }
    libc::syscall(libc::SYS_fchmod, fd, m) as c_int
}
#[no_mangle] pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if k::is_virtual_fd(fd) { k::fd_change(); return 0; }
    libc::syscall(libc::SYS_utimensat, fd, std::ptr::null::<c_char>(), t, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fallocate64(fd: c_int, m: c_int, o: off64_t, n: off64_t) -> c_int {
    if k::is_virtual_fd(fd) { return fail::<c_int>(libc::EOPNOTSUPP); }
    libc::syscall(libc::SYS_fallocate, fd, m, o, n) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fallocate(fd: c_int, m: c_int, o: off_t, n: off_t) -> c_int { fallocate64(fd, m, o, n) }
#[no_mangle] pub unsafe extern "C" fn truncate64(a: *const c_char, n: off64_t) -> c_int {
    if vpath(a) { return ret!(k::sys_truncate(path(a), n as u64), c_int); }
    if k::real_path(path(a), true) { return fail::<c_int>(libc::EACCES); }
    libc::syscall(libc::SYS_truncate, a, n) as c_int
}
#[no_mangle] pub unsafe extern "C" fn truncate(a: *const c_char, n: off_t) -> c_int { truncate64(a, n) }
#[no_mangle] pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    if vpath(a) { return ret!(k::sys_other("rmdir", path(a), true), c_int); }
    if k::real_path(path(a), true) { return fail::<c_int>(libc::EACCES); }
    libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, a, libc::AT_REMOVEDIR) as c_int
}
#[no_mangle] pub unsafe extern "C" fn symlink(t: *const c_char, a: *const c_char) -> c_int {
    if vpath(a) { return fail::<c_int>(libc::EPERM); }
    if k::real_path(path(a), true) { return fail::<c_int>(libc::EACCES); }
    libc::syscall(libc::SYS_symlinkat, t, libc::AT_FDCWD, a) as c_int
}
#[no_mangle] pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if vpath(a) { return match k::sys_other("readlink", path(a), false) { Ok(_) => fail::<ssize_t>(libc::EINVAL), Err(e) => fail::<ssize_t>(e) }; }
    libc::syscall(libc::SYS_readlinkat, libc::AT_FDCWD, a, b, n) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn realpath(a: *const c_char, out: *mut c_char) -> *mut c_char {
    let p = if vpath(a) {
        let p = k::norm(path(a));
        if let Err(e) = k::sys_other("realpath", &p, false) { *libc::__errno_location() = e; return std::ptr::null_mut(); }
        p
    } else {
        // enough for what std asks of it
        let mut f = [0u8; 4096];
        let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, a, libc::O_PATH | libc::O_CLOEXEC, 0);
        if fd < 0 { return std::ptr::null_mut(); }
        let me = format!("/proc/self/fd/{}\0", fd);
        let n = libc::syscall(libc::SYS_readlinkat, libc::AT_FDCWD, me.as_ptr(), f.as_mut_ptr(), f.len() - 1);
        libc::syscall(libc::SYS_close, fd);
        if n < 0 { return std::ptr::null_mut(); }
        f[..n as usize].to_vec()
    };
    let out = if out.is_null() { libc::malloc(p.len().max(4095) + 1) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(p.as_ptr(), out as *mut u8, p.len());
    *out.add(p.len()) = 0;
    out
}

unsafe fn raw(n: libc::c_long, a: [libc::c_long; 6]) -> libc::c_long {
    let r: libc::c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
/// Waiting for a lock held by an actor that is switched out lets that actor run.
#[no_mangle] pub unsafe extern "C" fn syscall(n: libc::c_long, a: libc::c_long, b: libc::c_long, c: libc::c_long, d: libc::c_long, e: libc::c_long, f: libc::c_long) -> libc::c_long {
    if n == libc::SYS_futex && crate::alloc::on() && k::is_actor() && matches!(b as i32 & 0x7f, libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET) {
        let word = &*(a as *const std::sync::atomic::AtomicU32);
        let now = || word.load(std::sync::atomic::Ordering::SeqCst);
        if now() != c as u32 { return fail_long(libc::EAGAIN); }
        if k::give_way("lock held by another actor") { return if d != 0 && now() == c as u32 { fail_long(libc::ETIMEDOUT) } else { 0 }; }
        // nobody else can run: only a thread of the library's own could help
        for _ in 0..100 {
            let t = libc::timespec { tv_sec: 0, tv_nsec: 50_000_000 };
            raw(libc::SYS_futex, [a, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as libc::c_long, c, &t as *const _ as libc::c_long, 0, 0]);
            if now() != c as u32 { return 0; }
            if d != 0 { return fail_long(libc::ETIMEDOUT); }
        }
        libc::_exit(k::HANG_EXIT);
    }
    let r = raw(n, [a, b, c, d, e, f]);
    if r < 0 && r > -4096 { return fail_long(-r as i32); }
    r
}
unsafe fn fail_long(e: i32) -> libc::c_long { *libc::__errno_location() = e; -1 }
unsafe fn sleep_for(t: *const libc::timespec) -> c_int { k::sleep((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64); 0 }
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int {
    if crate::alloc::on() && k::is_actor() { k::give_way("yield"); return 0; }
    libc::syscall(libc::SYS_sched_yield) as c_int
}
#[no_mangle] pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if crate::alloc::on() && k::is_actor() { return sleep_for(t); }
    libc::syscall(libc::SYS_nanosleep, t, rem) as c_int
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if crate::alloc::on() && k::is_actor() { return sleep_for(t); }
    -raw(libc::SYS_clock_nanosleep, [id as _, fl as _, t as _, rem as _, 0, 0]) as c_int
}
#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut libc::timespec) -> c_int {
    if crate::alloc::on() && k::is_actor() {
        let n = k::now();
        (*t).tv_sec = 1_000_000_000 + (n / 1_000_000_000) as i64; (*t).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, t) as c_int
}

/// Hash keys and other randomness are constant inside simulated runs.
#[no_mangle] pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, _f: c_uint) -> ssize_t {
    let s = std::slice::from_raw_parts_mut(b as *mut u8, n);
    for (i, x) in s.iter_mut().enumerate() { *x = (i as u8).wrapping_mul(37) ^ 0x5A; }
    n as ssize_t
}
