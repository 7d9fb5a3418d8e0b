//! Half a vector split off and used while its memory is reused.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::mem::MaybeUninit;
use without_alloc::{FixedVec, Uninit};
fn main() {
    let mut memory = vec![MaybeUninit::<Box<u32>>::uninit(), MaybeUninit::uninit()];
    let mut a = FixedVec::new(Uninit::from(&mut memory[..]));
    let rest = a.shrink_to_fit();
    #[cfg(feature = "misuse")]
    { memory[0].write(Box::new(1)); }
    look(rest.size());
}
