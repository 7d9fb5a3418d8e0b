//! A region cast to a slice twice.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = MaybeUninit::<u64>::uninit();
    let u = Uninit::from(&mut memory);
    let a = u.cast_slice::<u32>().unwrap();
    #[cfg(feature = "misuse")]
    let b = u.cast_slice::<u32>().unwrap();
    #[cfg(feature = "misuse")]
    let b = { let mut b = b; b.split_first().unwrap().init(5) };
    let a = { let mut a = a; a.split_first().unwrap().init(5) };
    #[cfg(feature = "misuse")]
    { look(b); }
    look(a);
}
