//! Memory read before it is written without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = MaybeUninit::<bool>::uninit();
    let u = Uninit::from(&mut memory);
    #[cfg(feature = "misuse")]
    { look(u.read()); }
    look(1);
}
