//! A region holding two boxes.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = MaybeUninit::<u64>::uninit();
    let u = Uninit::from(&mut memory);
    let a = u.into_box(4u64);
    #[cfg(feature = "misuse")]
    let b = u.into_box(4u64);
    #[cfg(feature = "misuse")]
    let b = { let mut b = b; *b = 5; b };
    let a = { let mut a = a; *a = 5; a };
    #[cfg(feature = "misuse")]
    { look(b); }
    look(a);
}
