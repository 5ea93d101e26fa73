//! Counts what is allocated: the heap in use, its highest level, and the sum of all allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;

static CUR: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicI64 = AtomicI64::new(0);
/// since the operation began: the most that a call had allocated at a time, and in all
static MEM: AtomicI64 = AtomicI64::new(0);
static SUM: AtomicI64 = AtomicI64::new(0);

fn more(n: usize) {
    let c = CUR.fetch_add(n as i64, Relaxed) + n as i64;
    PEAK.fetch_max(c, Relaxed);
    TOTAL.fetch_add(n as i64, Relaxed);
}

fn less(n: usize) {
    CUR.fetch_sub(n as i64, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            more(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            more(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        less(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            less(l.size());
            more(n);
        }
        q
    }
}

pub fn live() -> i64 {
    CUR.load(Relaxed)
}

/// an operation begins
pub fn reset() {
    MEM.store(0, Relaxed);
    SUM.store(0, Relaxed);
}

/// how much a call of the library allocates
pub struct Measure(i64, i64);

impl Measure {
    pub fn new() -> Measure {
        let c = CUR.load(Relaxed);
        PEAK.store(c, Relaxed);
        Measure(c, TOTAL.load(Relaxed))
    }
}

impl Drop for Measure {
    fn drop(&mut self) {
        MEM.fetch_max(PEAK.load(Relaxed) - self.0, Relaxed);
        SUM.fetch_max(TOTAL.load(Relaxed) - self.1, Relaxed);
    }
}

fn kib(n: i64) -> i64 {
    (n + 1023) / 1024
}

/// KiB: at a time, in all
pub fn measured() -> (i64, i64) {
    (kib(MEM.load(Relaxed)), kib(SUM.load(Relaxed)))
}

fn entries(d: &str) -> i64 {
    std::fs::read_dir(d).map(|r| r.count() as i64).unwrap_or(0)
}

/// open files and threads
pub fn handles() -> (i64, i64) {
    (entries("/proc/self/fd"), entries("/proc/self/task"))
}
