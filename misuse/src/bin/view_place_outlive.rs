//! A place of a view that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use without_alloc::uninit::UninitView;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = Box::new(MaybeUninit::<u32>::uninit());
    let v = UninitView::from(&*memory);
    let a = v.into_maybe_uninit();
    #[cfg(feature = "misuse")]
    { drop(memory); }
    let c: MaybeUninit<u32> = *a;
}
