//! Half a vector that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::mem::MaybeUninit;
use without_alloc::{FixedVec, Uninit};
fn main() {
    let mut memory = vec![MaybeUninit::<u32>::uninit(); 4];
    let mut a = FixedVec::new(Uninit::from(&mut memory[..]));
    let mut b = a.split_and_shrink_to(2);
    drop(a);
    #[cfg(feature = "misuse")]
    { drop(memory); }
    b.push(3u32).unwrap();
}
