//! Memory that outlives what it was made of.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::mem::MaybeUninit;
use without_alloc::Uninit;
fn main() {
    let mut memory = Box::new(MaybeUninit::<u32>::uninit());
    let u = Uninit::from(&mut *memory);
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(u.init(4));
}
