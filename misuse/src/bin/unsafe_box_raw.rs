//! A box over nothing without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
use without_alloc::boxed;
fn main() {
    let mut memory = MaybeUninit::<Box<u32>>::uninit();
    let u = Uninit::from(&mut memory);
    #[cfg(feature = "misuse")]
    { let a = boxed::Box::from_raw(u); look(&**a); }
}
