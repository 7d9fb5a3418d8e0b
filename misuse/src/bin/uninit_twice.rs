//! Memory that is used twice at once.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::mem::MaybeUninit;
use without_alloc::Uninit;
fn main() {
    let mut memory = MaybeUninit::<Box<u32>>::uninit();
    let mut u = Uninit::from(&mut memory);
    let a = u.borrow_mut().into_box(Box::new(5));
    #[cfg(feature = "misuse")]
    let b = u.borrow_mut().into_box(Box::new(6));
    look(&**a);
    #[cfg(feature = "misuse")]
    { look(&**b); }
}
