//! An allocator that notes requests far beyond anything a session needs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

pub const LIMIT: usize = 32 << 20;
static BIG: AtomicUsize = AtomicUsize::new(0);
pub static ON: AtomicUsize = AtomicUsize::new(0);

pub struct Watch;
fn note(n: usize) {
    if n > LIMIT && ON.load(Ordering::Relaxed) == 1 {
        BIG.store(n, Ordering::Relaxed);
    }
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
pub fn take() -> Option<usize> {
    match BIG.swap(0, Ordering::Relaxed) {
        0 => None,
        n => Some(n),
    }
}
