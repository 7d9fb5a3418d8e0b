//! A region holding two values.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = MaybeUninit::<u64>::uninit();
    let u = Uninit::from(&mut memory);
    let a = u.init(4);
    #[cfg(feature = "misuse")]
    let b = u.init(4);
    #[cfg(feature = "misuse")]
    let b = { *b = 5; b };
    let a = { *a = 5; a };
    #[cfg(feature = "misuse")]
    { look(b); }
    look(a);
}
