//! An unsynchronized bump used from two threads.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::unsync::Bump;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    both(|| drop(bump.bump_box::<u8>()));
}
