//! A box of a slice that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = vec![MaybeUninit::<u32>::uninit(); 4];
    let mut a = LeakBox::from(&mut memory[..]);
    #[cfg(feature = "misuse")]
    { drop(memory); }
    a[2].write(4);
}
