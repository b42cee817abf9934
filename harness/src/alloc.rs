//! Counting allocator: live and peak heap bytes of this thread's process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { add(l.size() as i64); COUNT.fetch_add(1, Relaxed); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        COUNT.fetch_sub(1, Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { add(n as i64 - l.size() as i64); }
        q
    }
}
fn add(n: i64) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > PEAK.load(Relaxed) { PEAK.store(live, Relaxed); }
}
pub fn live() -> i64 { LIVE.load(Relaxed) }
/// Number of live allocations.
pub fn blocks() -> i64 { COUNT.load(Relaxed) }
pub fn peak() -> i64 { PEAK.load(Relaxed) }
pub fn reset_peak() { PEAK.store(LIVE.load(Relaxed), Relaxed); }
