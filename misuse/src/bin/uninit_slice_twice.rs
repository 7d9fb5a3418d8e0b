//! The same places twice from one region.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = [MaybeUninit::<u32>::uninit(); 3];
    let mut u = Uninit::from(&mut memory[..]);
    let a = u.into_maybe_uninit_slice();
    #[cfg(feature = "misuse")]
    let b = u.into_maybe_uninit_slice();
    #[cfg(feature = "misuse")]
    let b = b[0].write(5);
    let a = a[0].write(5);
    #[cfg(feature = "misuse")]
    { look(b); }
    look(a);
}
