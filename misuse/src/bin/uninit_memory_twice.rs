//! A region untyped twice.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = MaybeUninit::<u64>::uninit();
    let u = Uninit::from(&mut memory);
    let a = u.as_memory();
    #[cfg(feature = "misuse")]
    let b = u.as_memory();
    #[cfg(feature = "misuse")]
    let b = b.cast::<u64>().unwrap().init(5);
    let a = a.cast::<u64>().unwrap().init(5);
    #[cfg(feature = "misuse")]
    { look(b); }
    look(a);
}
