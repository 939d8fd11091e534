//! The process's allocator: counts what is held, and can fail an allocation.
//! Off (a plain pass-through) outside node processes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;
#[global_allocator]
static A: Counting = Counting;

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
/// allocations left until one fails; 0 is off
static FAIL_IN: AtomicU64 = AtomicU64::new(0);
static FAILED: AtomicU64 = AtomicU64::new(0);

/// A single process may hold this much; beyond it allocations fail
const LIMIT: i64 = 1 << 30;

#[inline]
fn grow(n: i64) -> bool {
    if !ON.load(Relaxed) {
        return true;
    }
    let f = FAIL_IN.load(Relaxed);
    if f != 0 {
        FAIL_IN.store(f - 1, Relaxed);
        if f == 1 {
            FAILED.fetch_add(1, Relaxed);
            return false;
        }
    }
    // plain load and store: threads of a node run one at a time
    let v = LIVE.load(Relaxed) + n;
    if v > PEAK.load(Relaxed) {
        if v > LIMIT {
            return false;
        }
        PEAK.store(v, Relaxed);
    }
    LIVE.store(v, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            LIVE.store(LIVE.load(Relaxed) - l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !grow(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

pub fn enter_node() {
    ON.store(true, Relaxed);
}

/// bytes held now, relative to when the process became a node
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

/// forget the peak: what is held now is the new one
pub fn mark() -> i64 {
    let l = live();
    PEAK.store(l, Relaxed);
    l
}

pub fn raise(v: i64) {
    PEAK.fetch_max(v, Relaxed);
}

/// the most that was held since `mark`
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}

/// the `k`-th allocation from now fails (0: none does)
pub fn fail_in(k: u64) {
    FAIL_IN.store(k, Relaxed);
}

/// how many allocations were made to fail
pub fn failed() -> u64 {
    FAILED.swap(0, Relaxed)
}
