//! An allocator that counts what each thread allocates.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub struct Counting;
thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
/// (a place for a breakpoint)
#[inline(never)]
fn large(n: usize) {
    std::hint::black_box(n);
}
fn add(n: usize) {
    if n > 40 << 20 {
        large(n);
    }
    let _ = CUR.try_with(|c| {
        let v = c.get() + n as isize;
        c.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        let _ = LARGEST.try_with(|l| l.set(l.get().max(n)));
    });
}
fn sub(n: usize) {
    let _ = CUR.try_with(|c| c.set(c.get() - n as isize));
}
// SAFETY: everything is passed on to the system's allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        sub(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            sub(l.size());
            add(n);
        }
        q
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Used {
    /// most that was held at a time by what this thread allocated meanwhile
    pub peak: usize,
    /// largest single request that was granted
    pub largest: usize,
}
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Used) {
    let c = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(c));
    LARGEST.with(|l| l.set(0));
    let t = f();
    let u = Used { peak: (PEAK.with(|p| p.get()) - c).max(0) as usize, largest: LARGEST.with(|l| l.get()) };
    (t, u)
}
