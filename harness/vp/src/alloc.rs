//! Counting allocator: per-thread peak of live bytes and number of allocations since `reset`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
        let _ = LARGEST.try_with(|p| if n > p.get() { p.set(n) });
    });
}

fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        let r = System.realloc(p, l, n);
        sub(l.size());
        r
    }
}

pub fn reset() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    LARGEST.with(|l| l.set(0));
}

/// (peak of live bytes since reset, largest single request since reset)
pub fn peak() -> (usize, usize) {
    (PEAK.with(|p| p.get()).max(0) as usize, LARGEST.with(|p| p.get()))
}
