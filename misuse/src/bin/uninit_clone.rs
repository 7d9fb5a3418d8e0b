//! A copy of a region.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = MaybeUninit::<u32>::uninit();
    let a: Uninit<u32> = Uninit::from(&mut memory);
    #[cfg(feature = "misuse")]
    let b = Clone::clone(&a);
    #[cfg(feature = "misuse")]
    let b: Uninit<u32> = b;
    #[cfg(feature = "misuse")]
    let b = b.init(2);
    look(a.init(1));
    #[cfg(feature = "misuse")]
    { look(b); }
}
