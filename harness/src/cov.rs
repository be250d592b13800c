//! Callbacks of the compiler's edge instrumentation of the library under test:
//! coverage, deterministic work counting, preemption inside library code.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::Relaxed};

pub const MAX: usize = 1 << 15;
static SEEN: [AtomicU8; MAX] = [const { AtomicU8::new(0) }; MAX];
static COUNT: AtomicU32 = AtomicU32::new(0);
/// One library call that executes this many edges counts as hanging.
pub const LIMIT: u64 = 4_000_000_000;
/// Every so many edges others get a turn (someone may be spinning on a lock).
const SPIN: u64 = 30_000_000;

thread_local! {
    static EDGES: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 { return; }
    while a < b { *a = COUNT.fetch_add(1, Relaxed) + 1; a = a.add(1); }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !crate::alloc::on() { return; }
    SEEN[*g as usize % MAX].store(1, Relaxed);
    let n = EDGES.with(|e| { let n = e.get() + 1; e.set(n); n });
    if n == NEXT.with(|x| x.get()) { slow(n) }
}

#[cold]
fn slow(n: u64) {
    if n >= LIMIT { unsafe { libc::_exit(crate::world::HANG_EXIT) } }
    let on = crate::alloc::pause();
    let next = crate::world::inside_point(n);
    if n % SPIN == 0 { crate::world::give_way("long computation"); }
    NEXT.with(|x| x.set(next.unwrap_or(LIMIT).min((n / SPIN + 1) * SPIN)));
    crate::alloc::resume(on);
}

/// Starts counting for a call; `next`: the edge at which to preempt.
pub fn begin(next: Option<u64>) { EDGES.with(|e| e.set(0)); NEXT.with(|x| x.set(next.unwrap_or(SPIN).min(SPIN))); }
pub fn edges() -> u64 { EDGES.with(|e| e.get()) }
/// Instrumented edges in the binary.
pub fn total() -> u64 { COUNT.load(Relaxed) as u64 }
pub fn seen() -> Vec<u8> { (0..=total() as usize).map(|i| SEEN[i % MAX].load(Relaxed)).collect() }
