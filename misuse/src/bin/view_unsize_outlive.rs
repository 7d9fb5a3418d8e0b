//! A view coerced that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::uninit::UninitView;
use std::mem::MaybeUninit;
use unsize_reg::{CoerceUnsize, Coercion};
fn main() {
    let mut memory = Box::new(MaybeUninit::<[u32; 3]>::uninit());
    let u: UninitView<[u32]> = UninitView::from(&*memory).unsize(Coercion::to_slice());
    #[cfg(feature = "misuse")]
    { drop(memory); }
    let c: MaybeUninit<u32> = u.into_maybe_uninit_slice()[0];
}
