//! A region cast twice.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = MaybeUninit::<u64>::uninit();
    let u = Uninit::from(&mut memory);
    let a = u.cast::<u32>().unwrap();
    #[cfg(feature = "misuse")]
    let b = u.cast::<u32>().unwrap();
    #[cfg(feature = "misuse")]
    let b = b.init(5);
    let a = a.init(5);
    #[cfg(feature = "misuse")]
    { look(b); }
    look(a);
}
