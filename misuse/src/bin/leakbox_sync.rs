//! A box of a cell used from two threads.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use std::cell::Cell;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let a = bump.leak_box(Cell::new(1u32)).unwrap();
    both(|| a.set(a.get() + 1));
}
