//! A region that outlives its place.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = Box::new(MaybeUninit::<u32>::uninit());
    let a = Uninit::from_maybe_uninit(&mut memory);
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(a.init(4));
}
