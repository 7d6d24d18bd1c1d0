//! Counting allocator: live and peak heap bytes, allocation count.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    TOTAL.fetch_add(n as u64, Relaxed);
    CALLS.fetch_add(1, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size())
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size())
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // a moving realloc holds both blocks for a moment
            add(n);
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        q
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Usage {
    pub peak: usize,
    pub total: u64,
    pub calls: u64,
    pub left: usize,
}
/// heap use of `f`, relative to what was live before
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    let (t0, c0) = (TOTAL.load(Relaxed), CALLS.load(Relaxed));
    let r = f();
    let u = Usage {
        peak: PEAK.load(Relaxed).saturating_sub(base),
        total: TOTAL.load(Relaxed) - t0,
        calls: CALLS.load(Relaxed) - c0,
        left: LIVE.load(Relaxed).saturating_sub(base),
    };
    (r, u)
}
