//! Allocator that measures what each thread holds, and refuses single requests
//! no machine could serve so that they surface at once.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

pub struct Meter;

const REFUSE: usize = 8 << 30;

fn add(n: usize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    });
}

fn sub(n: usize) {
    let _ = CUR.try_with(|c| c.set(c.get() - n as i64));
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > REFUSE {
            return std::ptr::null_mut();
        }
        crate::sched::point();
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            // The old block may still be live while the new one is filled.
            add(new);
            sub(l.size());
        }
        q
    }
}

/// Starts a measurement on this thread.
pub fn mark() -> i64 {
    CUR.with(|c| {
        PEAK.with(|p| p.set(c.get()));
        TOTAL.with(|t| t.set(0));
        c.get()
    })
}

/// Most bytes held above the mark since it was set.
pub fn peak_since(mark: i64) -> u64 {
    PEAK.with(|p| (p.get() - mark).max(0) as u64)
}

/// Bytes requested in total since the mark.
pub fn requested() -> u64 {
    TOTAL.with(|t| t.get())
}
