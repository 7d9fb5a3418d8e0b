//! Memory given back by a dynamic bump that outlives its place.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::MemBump;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = vec![MaybeUninit::<u8>::uninit(); 128];
    let bump = MemBump::from_mem(&mut memory).unwrap();
    let a = MemBump::into_mem(bump);
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(a[0].write(1));
}
