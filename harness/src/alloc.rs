//! Counting allocator: the heap side of the work monitors (what a call holds, what it leaves behind).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    if n > 0 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // an in-place view of growth: both may be live for a moment
        add(n as i64);
        let r = System.realloc(p, l, n);
        add(-(l.size() as i64));
        r
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Heap {
    pub peak: i64,
    pub left: i64,
    pub allocs: u64,
}

/// Heap use of `f` on this thread: the peak above the starting level and what is still held after.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Heap) {
    let l0 = LIVE.with(|l| l.get());
    let c0 = COUNT.with(|c| c.get());
    PEAK.with(|p| p.set(l0));
    let r = f();
    let h = Heap {
        peak: PEAK.with(|p| p.get()) - l0,
        left: LIVE.with(|l| l.get()) - l0,
        allocs: COUNT.with(|c| c.get()) - c0,
    };
    (r, h)
}
