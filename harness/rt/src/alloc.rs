//! Counts the bytes each thread has allocated and not freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local!(static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) });
pub struct Counting;
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let (now, peak) = l.get();
        l.set((now + n, peak.max(now + n)))
    });
}
// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
/// Bytes this thread allocated and that nobody freed, less those it freed for others.
pub fn live() -> i64 {
    LIVE.with(|l| l.get().0)
}
/// The most that `live` was since `reset_peak`.
pub fn peak() -> i64 {
    LIVE.with(|l| l.get().1)
}
pub fn reset_peak() {
    LIVE.with(|l| l.set((l.get().0, l.get().0)))
}
