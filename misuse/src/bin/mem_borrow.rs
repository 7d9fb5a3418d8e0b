//! A bump over borrowed memory that is used while it lives.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::MemBump;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = [MaybeUninit::<u8>::uninit(); 128];
    let bump = MemBump::from_mem(&mut memory).unwrap();
    #[cfg(feature = "misuse")]
    { for b in &mut memory { b.write(255); } }
    drop(bump.bump_box::<u8>());
}
