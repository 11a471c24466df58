//! Counting allocator: what an evaluation takes from the heap, per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn took(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
}
fn gave(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gave(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        took(n);
        gave(l.size());
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Usage {
    pub peak: u64,
    pub count: u64,
}

/// Measures the usage of the heap by this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let base = LIVE.with(|l| l.get());
    let saved = PEAK.with(|p| p.replace(base));
    let count = COUNT.with(|c| c.get());
    let r = f();
    let peak = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(peak.max(saved)));
    (r, Usage { peak: (peak - base).max(0) as u64, count: COUNT.with(|c| c.get()) - count })
}
