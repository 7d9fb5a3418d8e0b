//! A region coerced that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
use unsize_reg::{CoerceUnsize, Coercion};
fn main() {
    let mut memory = Box::new(MaybeUninit::<[u32; 3]>::uninit());
    let u: Uninit<[u32]> = Uninit::from(&mut *memory).unsize(Coercion::to_slice());
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(u.into_maybe_uninit_slice()[0].write(3));
}
