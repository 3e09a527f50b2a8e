//! Heap use of the Rust side of the process, observed by the allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};

static CUR: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);

pub struct Counting;
fn up(n: usize) {
    let c = CUR.fetch_add(n as isize, Relaxed) + n as isize;
    PEAK.fetch_max(c, Relaxed);
}
fn down(n: usize) {
    CUR.fetch_sub(n as isize, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            up(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            up(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        down(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            up(n);
            down(l.size());
        }
        q
    }
}
/// bytes now on the heap
pub fn current() -> isize {
    CUR.load(Relaxed)
}
/// what `f` added to the heap at its highest point
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, isize) {
    let base = current();
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed) - base)
}
