//! A dynamic bump used from two threads.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::unsync::MemBump;
fn main() {
    let bump = MemBump::new(100);
    let b: &MemBump = &bump;
    both(move || drop(b.bump_box::<u8>()));
}
