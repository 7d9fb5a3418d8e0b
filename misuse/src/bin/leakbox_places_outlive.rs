//! A box over places that are gone.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = vec![MaybeUninit::<u32>::uninit(); 3];
    let mut a: LeakBox<[MaybeUninit<u32>]> = LeakBox::from(&mut memory[..]);
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(a[0].write(4));
}
