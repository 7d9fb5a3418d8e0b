//! Memory viewed before it is written without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::uninit::UninitView;
use std::mem::MaybeUninit;
fn main() {
    let memory = MaybeUninit::<bool>::uninit();
    let v = UninitView::from(&memory);
    #[cfg(feature = "misuse")]
    { look(v.into_ref()); }
    look(1);
}
