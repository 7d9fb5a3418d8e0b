//! The bytes of a value, overwritten through an uninitialised region.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::mem::MaybeUninit;
use without_alloc::Uninit;
fn main() {
    let mut value = Box::new(4u32);
    #[cfg(feature = "misuse")]
    Uninit::<Box<u32>>::from(&mut value).as_memory().cast::<usize>().ok().unwrap().init(1);
    look(&*value);
}
