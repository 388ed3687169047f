//! Counts live allocations, and turns running out of memory into a recognizable exit.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};

pub static LIVE: AtomicIsize = AtomicIsize::new(0);
pub static BYTES: AtomicIsize = AtomicIsize::new(0);
pub static CAP: AtomicIsize = AtomicIsize::new(isize::MAX);
pub const MEMORY_EXIT: i32 = 77;

pub struct Counting;

fn grew(n: usize) {
    if BYTES.fetch_add(n as isize, Relaxed) + n as isize > CAP.load(Relaxed) {
        crate::sys::do_exit(MEMORY_EXIT)
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        grew(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as isize, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grew(n - l.size());
        } else {
            BYTES.fetch_sub((l.size() - n) as isize, Relaxed);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn live() -> isize {
    LIVE.load(Relaxed)
}
