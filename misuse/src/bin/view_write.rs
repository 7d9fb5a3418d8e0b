//! A place written through a view.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use without_alloc::uninit::UninitView;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = MaybeUninit::new(4u32);
    let v = UninitView::from(&memory).into_maybe_uninit();
    #[cfg(feature = "misuse")]
    {
        let m: &mut MaybeUninit<u32> = UninitView::from(&memory).into_maybe_uninit();
        m.write(5);
    }
    let c: MaybeUninit<u32> = *v;
}
