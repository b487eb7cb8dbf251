//! Counts what this thread has allocated, for the bound on the memory a reader asks for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! { static NOW: Cell<isize> = const { Cell::new(0) }; static PEAK: Cell<isize> = const { Cell::new(0) }; }
fn add(n: isize) { let _ = NOW.try_with(|c| { let v = c.get() + n; c.set(v); if n > 0 { let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); } }); }
pub struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as isize); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size() as isize); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as isize)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as isize); add(-(l.size() as isize)); System.realloc(p, l, n) }
}
/// the most that is in use at one time during f, beyond what was in use before it
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = NOW.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - base).max(0) as usize)
}
