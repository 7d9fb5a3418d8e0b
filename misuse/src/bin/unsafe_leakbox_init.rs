//! A box over nothing without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use std::mem::MaybeUninit;
fn main() {
    let mut v = MaybeUninit::<Box<u32>>::uninit();
    let a = LeakBox::from(&mut v);
    #[cfg(feature = "misuse")]
    { let a = LeakBox::assume_init(a); look(&*a); }
}
