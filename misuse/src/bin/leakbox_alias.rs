//! The memory of a box used while the box lives.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = MaybeUninit::<Box<u32>>::uninit();
    let a = LeakBox::write(LeakBox::from(&mut memory), Box::new(5u32));
    #[cfg(feature = "misuse")]
    { memory = MaybeUninit::zeroed(); }
    look(&*a);
}
