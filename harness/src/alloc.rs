//! Counting allocator: per-thread allocation counters, and a per-thread work limit.  Going over the
//! limit aborts the process (an allocator must not unwind); the supervisor then confirms the case.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIMIT_COUNT: Cell<u64> = const { Cell::new(u64::MAX) };
    static LIMIT_BYTES: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub struct Counting;

fn hold(d: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + d));
}

/// Bytes this thread has asked for and not given back.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

fn note(size: usize) {
    let _ = COUNT.try_with(|c| {
        let n = c.get() + 1;
        c.set(n);
        let _ = BYTES.try_with(|b| {
            let m = b.get() + size as u64;
            b.set(m);
            let over = LIMIT_COUNT.try_with(|l| n > l.get()).unwrap_or(false)
                || LIMIT_BYTES.try_with(|l| m > l.get()).unwrap_or(false);
            if over {
                std::process::abort();
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        hold(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        hold(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        hold(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n.saturating_sub(l.size()));
        hold(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Runs `f`; returns its result with the allocations and bytes it asked for.
/// Asking for more than the limits aborts the process.
pub fn measured<T>(max_count: u64, max_bytes: u64, f: impl FnOnce() -> T) -> (T, u64, u64) {
    struct Reset(u64, u64);
    impl Drop for Reset {
        fn drop(&mut self) {
            LIMIT_COUNT.with(|l| l.set(self.0));
            LIMIT_BYTES.with(|l| l.set(self.1));
        }
    }
    let outer = (LIMIT_COUNT.with(|l| l.get()), LIMIT_BYTES.with(|l| l.get()));
    let (c0, b0) = (COUNT.with(|c| c.get()), BYTES.with(|c| c.get()));
    LIMIT_COUNT.with(|l| l.set(c0.saturating_add(max_count)));
    LIMIT_BYTES.with(|l| l.set(b0.saturating_add(max_bytes)));
    let r = {
        let _g = Reset(outer.0, outer.1);
        f()
    };
    (r, COUNT.with(|c| c.get()) - c0, BYTES.with(|c| c.get()) - b0)
}
