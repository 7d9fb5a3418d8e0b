//! A bump that outlives the memory it borrows.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::unsync::MemBump;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = vec![MaybeUninit::<u8>::uninit(); 128];
    let bump = MemBump::from_mem(&mut memory).unwrap();
    #[cfg(feature = "misuse")]
    { drop(memory); }
    drop(bump.bump_box::<u8>());
}
