//! An allocator whose memory is never accidentally zero: fresh and released
//! blocks are filled with words above every modulus, so that a read of memory
//! that was not written, or not written any more, shows in the result.
//! (Sanitizers and the interpreter bring their own.)
use std::alloc::{GlobalAlloc, Layout, System};

const FILL: u8 = 0xe5;

pub struct Dirty;

unsafe impl GlobalAlloc for Dirty {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            p.write_bytes(FILL, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        p.write_bytes(FILL, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let q = System.realloc(p, l, size);
        if !q.is_null() && size > l.size() {
            q.add(l.size()).write_bytes(FILL, size - l.size());
        }
        q
    }
}
