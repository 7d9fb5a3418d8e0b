//! A part of a region that outlives what it was made of.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::mem::MaybeUninit;
use without_alloc::Uninit;
fn main() {
    let mut memory = vec![MaybeUninit::<u32>::uninit(); 4];
    let mut u = Uninit::from(&mut memory[..]);
    let part = u.split_at(2).unwrap();
    drop(u);
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(part.into_maybe_uninit_slice()[0].write(3));
}
