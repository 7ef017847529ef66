//! Counting allocator: live bytes (leak checks), the largest single request and
//! a budget (a request beyond it ends the process with a recognisable status,
//! so that a damaged length cannot take the machine's memory).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static MAXREQ: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub const EXIT_MEMORY: i32 = 77;

fn add(n: usize) {
    let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    BLOCKS.fetch_add(1, Relaxed);
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    if n > MAXREQ.load(Relaxed) {
        MAXREQ.store(n, Relaxed);
        if n > LIMIT.load(Relaxed) {
            unsafe { libc::_exit(EXIT_MEMORY) }
        }
    }
}
fn del(n: usize) {
    LIVE.fetch_sub(n as i64, Relaxed);
    BLOCKS.fetch_sub(1, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        del(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        del(l.size());
        System.realloc(p, l, n)
    }
}

/// (live bytes, live blocks)
pub fn live() -> (i64, i64) {
    (LIVE.load(Relaxed), BLOCKS.load(Relaxed))
}
/// starts measuring the peak; returns the live bytes now
pub fn mark() -> i64 {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    MAXREQ.store(0, Relaxed);
    l
}
/// the peak above the mark
pub fn peak_since(mark: i64) -> i64 {
    PEAK.load(Relaxed) - mark
}
pub fn limit(n: usize) {
    MAXREQ.store(0, Relaxed);
    LIMIT.store(n, Relaxed);
}
