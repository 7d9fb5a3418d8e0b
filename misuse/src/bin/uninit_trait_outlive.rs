//! A region that outlives its place, by the trait.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = Box::new(MaybeUninit::<u32>::uninit());
    let a: Uninit<u32> = (&mut *memory).into();
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(a.init(4));
}
