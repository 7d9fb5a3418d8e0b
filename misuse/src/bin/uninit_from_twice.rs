//! Two regions of one place.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = Box::new(MaybeUninit::<u32>::uninit());
    let a = Uninit::from_maybe_uninit(&mut memory);
    #[cfg(feature = "misuse")]
    let b = Uninit::from_maybe_uninit(&mut memory).init(3);
    let a = a.init(4);
    #[cfg(feature = "misuse")]
    { look(b); }
    look(a);
}
