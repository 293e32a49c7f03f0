//! Counts the allocations of each thread.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        let _ = BYTES.try_with(|c| c.set(c.get() + l.size() as u64));
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
        let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
}

#[derive(Copy, Clone, Debug)]
pub struct Use {
    pub count: u64,
    pub bytes: u64,
    pub live: i64,
}

pub fn now() -> Use {
    Use {
        count: COUNT.with(|c| c.get()),
        bytes: BYTES.with(|c| c.get()),
        live: LIVE.with(|c| c.get()),
    }
}

/// What `f` allocated on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let a = now();
    let r = f();
    let b = now();
    (
        r,
        Use {
            count: b.count - a.count,
            bytes: b.bytes - a.bytes,
            live: b.live - a.live,
        },
    )
}
