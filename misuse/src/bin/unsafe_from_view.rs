//! A region from a view without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use without_alloc::uninit::UninitView;
use std::mem::MaybeUninit;
fn main() {
    let memory = MaybeUninit::new(4u32);
    let v = UninitView::from(&memory).into_maybe_uninit();
    #[cfg(feature = "misuse")]
    { look(Uninit::from_view(UninitView::from(&memory)).init(3)); }
    let c: MaybeUninit<u32> = *v;
}
