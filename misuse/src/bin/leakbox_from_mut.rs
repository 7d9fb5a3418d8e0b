//! A box over a variable that outlives it.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
fn main() {
    let mut text = Box::new(4u32);
    let mut a = LeakBox::from_mut(&mut *text);
    #[cfg(feature = "misuse")]
    { drop(text); }
    look(&*a);
}
