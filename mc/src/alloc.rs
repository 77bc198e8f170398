//! Counting allocator: live and peak bytes per thread, with a per-thread ceiling.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CEIL: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn grow(n: usize) -> bool {
    let Ok(n) = i64::try_from(n) else { return false };
    let live = LIVE.get().saturating_add(n);
    if live > PEAK.get() { PEAK.set(live) }
    if live > CEIL.get() { return false }
    LIVE.set(live);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) { return std::ptr::null_mut() }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) { return std::ptr::null_mut() }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.set(LIVE.get() - l.size() as i64);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() { if !grow(n - l.size()) { return std::ptr::null_mut() } }
        else { LIVE.set(LIVE.get() - (l.size() - n) as i64) }
        System.realloc(p, l, n)
    }
}

/// Runs `f` and returns its result with the peak number of bytes it had allocated at once.
pub fn measure<X>(f: impl FnOnce() -> X) -> (X, u64) {
    let base = LIVE.get();
    PEAK.set(base);
    let x = f();
    (x, (PEAK.get() - base).max(0) as u64)
}

/// Allocations beyond `extra` bytes on top of what is live now fail on this thread.
pub fn set_ceiling(extra: i64) { CEIL.set(LIVE.get().saturating_add(extra)) }
pub fn clear_ceiling() { CEIL.set(i64::MAX) }
