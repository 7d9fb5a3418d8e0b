//! A view that outlives its places.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use without_alloc::uninit::UninitView;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = vec![MaybeUninit::<u32>::uninit(); 3];
    let v = UninitView::from_maybe_uninit_slice(&memory);
    let a = v;
    #[cfg(feature = "misuse")]
    { drop(memory); }
    let c: MaybeUninit<u32> = a.into_maybe_uninit_slice()[0];
}
