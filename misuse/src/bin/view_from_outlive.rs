//! A view that outlives its place.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use without_alloc::uninit::UninitView;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = Box::new(MaybeUninit::<u32>::uninit());
    let v = UninitView::from_maybe_uninit(&memory);
    let a = v;
    #[cfg(feature = "misuse")]
    { drop(memory); }
    let c: MaybeUninit<u32> = *a.into_maybe_uninit();
}
