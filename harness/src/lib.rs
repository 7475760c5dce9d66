//! Harness functions compiled to LLVM IR for mitex-sym.
use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    fn sym_alloc(n: usize, a: usize) -> *mut u8;
    fn sym_alloc_zeroed(n: usize, a: usize) -> *mut u8;
    fn sym_dealloc(p: *mut u8, n: usize, a: usize);
    fn sym_realloc(p: *mut u8, old: usize, a: usize, new: usize) -> *mut u8;
}
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sym_alloc(l.size(), l.align())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sym_alloc_zeroed(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sym_dealloc(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sym_realloc(p, l.size(), l.align(), n)
    }
}
#[global_allocator]
static G: A = A;

pub mod props;
