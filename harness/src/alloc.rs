//! Counts the bytes that are allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn add(n: usize) {
    let l = LIVE.fetch_add(n, Ordering::Relaxed) + n;
    PEAK.fetch_max(l, Ordering::Relaxed);
    LARGEST.fetch_max(n, Ordering::Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        add(n);
        System.realloc(p, l, n)
    }
}

pub fn live() -> usize {
    LIVE.load(Ordering::Relaxed)
}

/// Forgets about the past
pub fn reset() {
    LARGEST.store(0, Ordering::Relaxed);
    PEAK.store(live(), Ordering::Relaxed);
}

/// The largest single allocation, and the most that was allocated at the same time, since then
pub fn largest() -> usize {
    LARGEST.load(Ordering::Relaxed)
}

#[allow(dead_code)]
pub fn peak() -> usize {
    PEAK.load(Ordering::Relaxed)
}

/// No scenario needs as much; reported like a crash
pub fn report() {
    if largest() > 48 << 20 {
        crate::log::ev("bigalloc", serde_json::json!({"mb": largest() >> 20}));
    }
}
