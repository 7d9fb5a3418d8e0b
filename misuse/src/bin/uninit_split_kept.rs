//! A part split off a borrowed region used after the region was.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = [MaybeUninit::<u32>::uninit(); 3];
    let mut u = Uninit::from(&mut memory[..]);
    let a = u.borrow_mut().split_last().unwrap().init(3);
    #[cfg(feature = "misuse")]
    let b = u.split_last().unwrap().init(4);
    *a = 5;
    #[cfg(feature = "misuse")]
    { look(b); }
    look(a);
}
