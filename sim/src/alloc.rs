//! The allocator behind the memory measure: each block has a header that says whether it was
//! allocated while simulated code ran.
use std::alloc::{GlobalAlloc, Layout, System};
use tokio::sim::mem;

pub struct Counting;

fn head(l: Layout) -> usize {
    l.align().max(16)
}

unsafe fn grab(l: Layout, marked: bool, zeroed: bool) -> *mut u8 {
    let h = head(l);
    let Ok(big) = Layout::from_size_align(l.size() + h, h) else { return std::ptr::null_mut() };
    let p = if zeroed { System.alloc_zeroed(big) } else { System.alloc(big) };
    if p.is_null() {
        return p;
    }
    let p = p.add(h);
    *(p.sub(8) as *mut u64) = marked as u64;
    if marked {
        mem::add(l.size() as i64);
    }
    p
}

// SAFETY: every block comes from `System` with room for a header of `head(layout)` bytes in front
// of it, and goes back with the same layout.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grab(l, mem::inside(), false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grab(l, mem::inside(), true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(l);
        if *(p.sub(8) as *mut u64) != 0 {
            mem::add(-(l.size() as i64));
        }
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let marked = *(p.sub(8) as *mut u64) != 0;
        let q = grab(Layout::from_size_align_unchecked(new, l.align()), marked, false);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
