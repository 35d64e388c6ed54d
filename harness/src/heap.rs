//! Heap use of the current thread, counted by the allocator.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

#[global_allocator]
static ALLOCATOR: Counting = Counting;

#[inline]
fn note(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v);
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Bytes in use at the worst moment of `f`, beyond those in use before it.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = live();
    PEAK.with(|p| p.set(before));
    let r = f();
    let top = PEAK.with(|p| p.get());
    (r, (top - before).max(0) as u64)
}
