//! What remains to be drained used from two threads.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
use std::cell::Cell;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut a = bump.fixed_vec(3).unwrap();
    a.push(Cell::new(1)).unwrap();
    let d = a.drain(..);
    both(|| d.as_slice()[0].set(d.as_slice()[0].get() + 1));
}
