//! Heap use, counted per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn gave(n: usize) {
    // The counters have no destructors, so they can be used at any time.
    let _ = LIVE.try_with(|c| c.set(c.get() + n as i64));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
}

fn took(n: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() - n as i64));
}

// SAFETY: everything is passed on to the system's allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { gave(l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        took(l.size());
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { took(l.size()); gave(n); }
        q
    }
}

/// Bytes allocated by this thread and not freed by it.
pub fn live() -> i64 { LIVE.with(Cell::get) }

/// Bytes and blocks allocated by this thread so far.
pub fn allocated() -> (u64, u64) { (BYTES.with(Cell::get), COUNT.with(Cell::get)) }

/// Do something of the simulator's own that is not to be counted.
pub fn apart<R>(f: impl FnOnce() -> R) -> R {
    let (l, b, c) = (live(), BYTES.with(Cell::get), COUNT.with(Cell::get));
    let r = f();
    LIVE.with(|x| x.set(l));
    BYTES.with(|x| x.set(b));
    COUNT.with(|x| x.set(c));
    r
}
