//! Places of a region that outlive their memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = vec![MaybeUninit::<u32>::uninit(); 3];
    let a = Uninit::from(&mut memory[..]).into_maybe_uninit_slice();
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(a[0].write(4));
}
