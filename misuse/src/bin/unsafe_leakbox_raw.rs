//! A box over a pointer without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
fn main() {
    let mut v = Box::new(Box::new(5u32));
    let a: *mut Box<u32> = &mut *v;
    #[cfg(feature = "misuse")]
    { drop(v); }
    #[cfg(feature = "misuse")]
    { let a = LeakBox::from_raw(a); look(&*a); }
}
