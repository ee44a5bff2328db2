//! What the code under test asks of the heap, counted per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static HELD: Cell<isize> = const { Cell::new(0) };
}

/// A request, or 0 calls and a negative size for memory given back.
pub fn count(calls: u64, bytes: isize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + calls));
    let _ = HELD.try_with(|h| h.set(h.get().wrapping_add(bytes)));
}

/// How often `f` asked for heap memory on this thread.
pub fn allocations<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let before = CALLS.with(Cell::get);
    let r = f();
    (r, CALLS.with(Cell::get) - before)
}

/// How many more bytes this thread holds after `f` than before.
pub fn kept(f: impl FnOnce()) -> isize {
    let before = HELD.with(Cell::get);
    f();
    HELD.with(Cell::get).wrapping_sub(before)
}

/// The system's allocator, counted.
pub struct Counting;

// SAFETY: everything is left to the system's allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1, l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(0, -(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(1, n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
