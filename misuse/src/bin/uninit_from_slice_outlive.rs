//! A region that outlives its places.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = vec![MaybeUninit::<u32>::uninit(); 3];
    let mut a = Uninit::from_maybe_uninit_slice(&mut memory);
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(a.split_first().unwrap().init(4));
}
