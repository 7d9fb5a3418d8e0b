//! A chain used from two threads.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::unsync::Chain;
fn main() {
    let chain = Chain::new(100).unwrap();
    both(|| drop(chain.bump_box::<u8>()));
}
