//! Puts a hook in front of the libc calls that std's file API makes, so that the
//! demonstration can make one chosen call fail, transfer less, or find the file changed.
#![allow(dead_code, static_mut_refs, clippy::missing_safety_doc)]
#![allow(suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions)]
use std::ffi::{c_int, c_void, c_char};

pub enum Act { Pass, Err(i32), Short(usize) }
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const ENOSPC: i32 = 28;
type Hook = Box<dyn FnMut(&str, i32, usize) -> Act>;
static mut HOOK: Option<Hook> = None;

/// The hook sees (call, descriptor, byte count or offset) before the call is made.
pub fn set(h: impl FnMut(&str, i32, usize) -> Act + 'static) { unsafe { HOOK = Some(Box::new(h)); } }
pub fn clear() { unsafe { HOOK = None; } }

fn ask(call: &str, fd: i32, n: usize) -> Act {
    if (0..=2).contains(&fd) { return Act::Pass; }
    unsafe {
        match HOOK.take() {                       // taken: what the hook itself does is not hooked
            None => Act::Pass,
            Some(mut h) => { let a = h(call, fd, n); if HOOK.is_none() { HOOK = Some(h); } a }
        }
    }
}
extern "C" { fn __errno_location() -> *mut c_int; fn syscall(n: i64, ...) -> i64; }
unsafe fn fail(e: i32) -> isize { *__errno_location() = e; -1 }
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    match ask("read", fd, n) { Act::Pass => syscall(0, fd, b, n) as isize, Act::Err(e) => fail(e), Act::Short(k) => syscall(0, fd, b, k.min(n)) as isize }
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    match ask("write", fd, n) { Act::Pass => syscall(1, fd, b, n) as isize, Act::Err(e) => fail(e), Act::Short(k) => syscall(1, fd, b, k.min(n)) as isize }
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 {
    match ask("lseek", fd, o as usize) { Act::Err(e) => fail(e) as i64, _ => syscall(8, fd, o, w) }
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    match ask("ftruncate", fd, n as usize) { Act::Err(e) => fail(e) as c_int, _ => syscall(77, fd, n) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match ask("close", fd, 0) { Act::Err(e) => fail(e) as c_int, _ => syscall(3, fd) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    match ask("open", -1, flags as usize) { Act::Err(e) => fail(e) as c_int, _ => syscall(257, -100i64, p, flags, mode) as c_int }
}
