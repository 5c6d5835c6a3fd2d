//! Counts the bytes each thread holds, to see what the code under test keeps.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
}

fn note(n: i64) {
    let _ = NET.try_with(|c| c.set(c.get() + n));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Bytes kept by what this thread allocated, less what it released
fn held() -> i64 {
    NET.with(|c| c.get())
}

/// How many more bytes are held after a call than before it
pub fn change<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let before = held();
    let r = f();
    (r, held() - before)
}
