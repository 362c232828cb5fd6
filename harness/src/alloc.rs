//! Counting allocator: live bytes, peak, allocation count, and a hard cap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static ON: AtomicBool = AtomicBool::new(false);

fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if ON.load(Relaxed) {
        COUNT.fetch_add(1, Relaxed);
        TOTAL.fetch_add(n as u64, Relaxed);
        if l > PEAK.load(Relaxed) {
            PEAK.store(l, Relaxed);
        }
        if l > CAP.load(Relaxed) {
            unsafe { libc::_exit(crate::core::EXIT_MEMORY) }
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size(), Relaxed);
        add(n);
        System.realloc(p, l, n)
    }
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}
/// Starts measuring: peak is counted from here.
pub fn begin(cap: usize) {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    COUNT.store(0, Relaxed);
    TOTAL.store(0, Relaxed);
    CAP.store(l.saturating_add(cap), Relaxed);
    ON.store(true, Relaxed);
}
/// (peak, number of allocations, bytes allocated) since `begin`.
pub fn end() -> (usize, u64, u64) {
    ON.store(false, Relaxed);
    (PEAK.load(Relaxed), COUNT.load(Relaxed), TOTAL.load(Relaxed))
}
