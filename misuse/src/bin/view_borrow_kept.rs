//! A view of a region kept while the region is written.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use without_alloc::uninit::UninitView;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = [MaybeUninit::<u32>::uninit(); 3];
    let mut u = Uninit::from(&mut memory[..]);
    let v = u.borrow();
    let c: MaybeUninit<u32> = v.into_maybe_uninit_slice()[2];
    #[cfg(feature = "misuse")]
    let b = u.split_last().unwrap().init(4);
    let c: MaybeUninit<u32> = v.into_maybe_uninit_slice()[2];
    #[cfg(feature = "misuse")]
    { *b = 5; look(b); }
}
