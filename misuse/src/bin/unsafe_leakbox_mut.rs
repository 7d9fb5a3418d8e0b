//! A box over a value that has an owner without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
fn main() {
    let mut v = Box::new(5u32);
    #[cfg(feature = "misuse")]
    { drop(LeakBox::from_mut_unchecked(&mut v)); }
    look(&v);
}
