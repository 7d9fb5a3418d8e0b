//! A region that outlives its places, by the trait.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = vec![MaybeUninit::<u32>::uninit(); 3];
    let mut a: Uninit<[u32]> = (&mut memory[..]).into();
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(a.split_last().unwrap().init(4));
}
