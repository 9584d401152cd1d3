//! Counting global allocator: per-thread live bytes, peak, largest request, while armed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    /// peak of live bytes above the level when armed
    pub peak: usize,
    /// largest single request
    pub largest: usize,
    /// sum of all requests
    pub total: usize,
    pub count: usize,
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn on_alloc(n: usize) {
    let live = LIVE.get() + n as isize;
    LIVE.set(live);
    if live > PEAK.get() {
        PEAK.set(live);
    }
    if n > LARGEST.get() {
        LARGEST.set(n);
    }
    TOTAL.set(TOTAL.get().wrapping_add(n));
    COUNT.set(COUNT.get() + 1);
}

// SAFETY: defers to `System`; the bookkeeping never allocates.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.get() {
            on_alloc(l.size());
            if l.size() > LIMIT.get() {
                return std::ptr::null_mut();
            }
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ARMED.get() {
            on_alloc(l.size());
            if l.size() > LIMIT.get() {
                return std::ptr::null_mut();
            }
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.get() {
            LIVE.set(LIVE.get() - l.size() as isize);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if ARMED.get() {
            // Old and new block may be live together.
            on_alloc(new);
            LIVE.set(LIVE.get() - l.size() as isize);
            if new > LIMIT.get() {
                return std::ptr::null_mut();
            }
        }
        System.realloc(p, l, new)
    }
}

/// Requests above this many bytes in a measured call are refused, which aborts the process: the
/// supervisor attributes the abort to the case that was running.
pub const REFUSE_ABOVE: usize = 1 << 31;

struct Disarm;
impl Drop for Disarm {
    fn drop(&mut self) {
        ARMED.set(false);
    }
}

pub fn measured<R>(f: impl FnOnce() -> R) -> (R, Stats) {
    LIVE.set(0);
    PEAK.set(0);
    LARGEST.set(0);
    TOTAL.set(0);
    COUNT.set(0);
    LIMIT.set(REFUSE_ABOVE);
    ARMED.set(true);
    let d = Disarm;
    let r = f();
    drop(d);
    (
        r,
        Stats {
            peak: PEAK.get().max(0) as usize,
            largest: LARGEST.get(),
            total: TOTAL.get(),
            count: COUNT.get(),
        },
    )
}
