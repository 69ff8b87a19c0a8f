//! The allocator seam. While a thread is armed, every allocator call it makes is recorded as a
//! violation of the no-allocation property (a deployment without heap would fail there).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Tracking;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static HITS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}

fn count(blocks: i64, bytes: i64) {
    let _ = LIVE.try_with(|l| {
        let (a, b) = l.get();
        l.set((a + blocks, b + bytes));
    });
}

/// Blocks and bytes this thread has acquired and not released.
pub fn live() -> (i64, i64) {
    LIVE.with(|l| l.get())
}

fn hit() {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let _ = HITS.try_with(|h| h.set(h.get() + 1));
        }
    });
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hit();
        count(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        hit();
        count(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hit();
        count(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        hit();
        count(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
}

pub fn arm() {
    HITS.with(|h| h.set(0));
    ARMED.with(|a| a.set(true));
}
/// Disarms and returns the number of allocator calls seen since `arm`.
pub fn disarm() -> u64 {
    ARMED.with(|a| a.set(false));
    HITS.with(|h| h.get())
}
#[allow(dead_code)]
pub fn hits() -> u64 {
    HITS.with(|h| h.get())
}
/// Runs user code (a callback) outside the armed region.
pub fn pause<R>(f: impl FnOnce() -> R) -> R {
    let was = ARMED.with(|a| a.replace(false));
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            let w = self.0;
            ARMED.with(|a| a.set(w));
        }
    }
    let _g = G(was);
    f()
}
