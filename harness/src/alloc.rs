//! Global allocator that meters what library calls allocate.
//!
//! While metering is on for the current thread, live and peak bytes are
//! counted; a request above the budget is served from a lazily committed
//! mapping (so that the process survives it) and flagged.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Meter;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
}
/// Requests at least this large are always mapped lazily while metering.
const LAZY: usize = 64 << 20;
const TAG_ALIGN: usize = 4096;

fn note(size: usize) {
    LIVE.with(|l| {
        let v = l.get() + size as i64;
        l.set(v);
        PEAK.with(|p| if v > p.get() { p.set(v) });
    });
    BIGGEST.with(|b| if size as u64 > b.get() { b.set(size as u64) });
}

/// A library call that holds more than this gets no more memory (the process aborts).
const CAP: i64 = 1 << 30;
fn refuse(size: usize) -> bool { size as u64 > CAP as u64 || LIVE.with(|l| l.get()) > CAP }

unsafe fn lazy_map(size: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if p == libc::MAP_FAILED { std::ptr::null_mut() } else { p as *mut u8 }
}

// Blocks of LAZY bytes or more are always mapped (on or off metering) so that
// dealloc can tell by size alone which way a block was obtained.
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.with(|o| o.get()) { note(l.size()); if refuse(l.size()) { return std::ptr::null_mut(); } }
        if l.size() >= LAZY && l.align() <= TAG_ALIGN { return lazy_map(l.size()); }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.with(|o| o.get()) { note(l.size()); if refuse(l.size()) { return std::ptr::null_mut(); } }
        if l.size() >= LAZY && l.align() <= TAG_ALIGN { return lazy_map(l.size()); }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.with(|o| o.get()) { LIVE.with(|v| v.set(v.get() - l.size() as i64)); }
        if l.size() >= LAZY && l.align() <= TAG_ALIGN { libc::munmap(p as *mut _, l.size()); return; }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let big = |s: usize| s >= LAZY && l.align() <= TAG_ALIGN;
        if !big(l.size()) && !big(n) {
            if ON.with(|o| o.get()) { note(n); LIVE.with(|v| v.set(v.get() - l.size() as i64)); }
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

pub fn start() { LIVE.with(|v| v.set(0)); PEAK.with(|v| v.set(0)); BIGGEST.with(|v| v.set(0)); ON.with(|v| v.set(true)); }
/// Stops metering; returns (peak live bytes, biggest single request).
pub fn stop() -> (u64, u64) {
    ON.with(|v| v.set(false));
    (PEAK.with(|v| v.get()).max(0) as u64, BIGGEST.with(|v| v.get()))
}
/// Runs harness code inside a metered region without counting it.
pub fn pause() -> bool { ON.with(|v| v.replace(false)) }
pub fn resume(on: bool) { ON.with(|v| v.set(on)); }
/// Whether this thread is inside library code.
pub fn on() -> bool { ON.with(|v| v.get()) }
