//! A box of a dynamic bump used after taking its memory back.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::MemBump;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = [MaybeUninit::<u8>::uninit(); 128];
    let bump = MemBump::from_mem(&mut memory).unwrap();
    let a = LeakBox::write(bump.bump_box().unwrap(), Box::new(5u32));
    #[cfg(feature = "misuse")]
    { for b in MemBump::into_mem(bump) { b.write(1); } }
    look(&*a);
}
