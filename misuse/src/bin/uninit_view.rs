//! A view kept while the memory is written.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::mem::MaybeUninit;
use without_alloc::Uninit;
fn main() {
    let mut memory = MaybeUninit::<u32>::uninit();
    let u = Uninit::from(&mut memory);
    let v = u.borrow().into_maybe_uninit();
    #[cfg(feature = "misuse")]
    let b = u.init(4);
    look(v as *const _);
    #[cfg(feature = "misuse")]
    { look(b); }
}
