//! A vector of cells used from two threads.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use std::cell::Cell;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut a = bump.fixed_vec(2).unwrap();
    a.push(Cell::new(1)).unwrap();
    both(|| a[0].set(a[0].get() + 1));
}
