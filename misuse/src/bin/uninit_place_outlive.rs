//! A place of a region that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = Box::new(MaybeUninit::<u32>::uninit());
    let a = Uninit::from(&mut *memory).into_maybe_uninit();
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(a.write(4));
}
