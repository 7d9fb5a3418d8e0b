//! A leaked reference that outlives the memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = Box::new(MaybeUninit::<u32>::uninit());
    let a = LeakBox::leak(LeakBox::write(LeakBox::from(&mut *memory), 5u32));
    #[cfg(feature = "misuse")]
    { drop(memory); }
    look(&*a);
}
