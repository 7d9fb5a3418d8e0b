//! A typed view over any pointer without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::uninit::UninitView;
use std::ptr::NonNull;
use std::mem::MaybeUninit;
fn main() {
    #[cfg(feature = "misuse")]
    { let c: MaybeUninit<u64> = *UninitView::<u64>::new(NonNull::dangling(), 8).into_maybe_uninit(); }
    look(1);
}
