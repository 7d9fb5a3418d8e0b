//! A box of a cell used from two threads.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use std::cell::Cell;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let a = bump.boxed(Cell::new(1u32)).unwrap();
    both(|| a.set(a.get() + 1));
}
