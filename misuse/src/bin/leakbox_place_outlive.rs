//! A box over a place that is gone.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = Box::new(MaybeUninit::<u32>::uninit());
    let a = LeakBox::from(&mut *memory);
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(&*LeakBox::write(a, 4));
}
