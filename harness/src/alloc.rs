//! Allocation monitor: a global allocator that counts what the current thread holds.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}

fn note(bytes: i64, blocks: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + bytes;
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        BLOCKS.with(|b| b.set(b.get() + blocks));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
}

/// (bytes, blocks) held by this thread.
pub fn live() -> (i64, i64) {
    (LIVE.with(|l| l.get()), BLOCKS.with(|b| b.get()))
}

pub fn reset_peak() {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
}

pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
