//! Two places of one region.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = MaybeUninit::<u64>::uninit();
    let u = Uninit::from(&mut memory);
    let a = u.into_maybe_uninit();
    #[cfg(feature = "misuse")]
    let b = u.into_maybe_uninit();
    #[cfg(feature = "misuse")]
    let b = b.write(5);
    let a = a.write(5);
    #[cfg(feature = "misuse")]
    { look(b); }
    look(a);
}
