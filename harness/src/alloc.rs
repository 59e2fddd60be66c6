//! Tracking global allocator: live and peak heap bytes, process wide.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Tracking;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static T_LIVE: Cell<isize> = const { Cell::new(0) };
    static T_PEAK: Cell<isize> = const { Cell::new(0) };
    static T_COUNT: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    BIGGEST.fetch_max(n, Relaxed);
    let _ = T_LIVE.try_with(|c| {
        let v = c.get() + n as isize;
        c.set(v);
        let _ = T_PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = T_COUNT.try_with(|p| p.set(p.get() + 1));
    });
}
fn sub(n: usize) {
    LIVE.fetch_sub(n, Relaxed);
    let _ = T_LIVE.try_with(|c| c.set(c.get() - n as isize));
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        sub(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // both blocks may be live at once
            add(n);
            sub(l.size());
        }
        q
    }
}

/// Measure the peak of additional heap bytes while `f` runs, process wide.
/// Only meaningful when nothing else runs at the same time.
pub fn peak_during<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    let p = PEAK.load(Relaxed);
    (r, p.saturating_sub(base))
}

/// Same, counting only allocations made by the calling thread.
pub fn thread_peak_during<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = T_LIVE.with(|c| c.get());
    T_PEAK.with(|c| c.set(base));
    let r = f();
    let p = T_PEAK.with(|c| c.get());
    (r, (p - base).max(0) as usize)
}
