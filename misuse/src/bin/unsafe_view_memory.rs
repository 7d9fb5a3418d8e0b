//! A view over any pointer without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::uninit::UninitView;
use std::ptr::NonNull;
use std::mem::MaybeUninit;
fn main() {
    #[cfg(feature = "misuse")]
    { let c: MaybeUninit<u64> = *UninitView::<()>::from_memory(NonNull::<u64>::dangling().cast(), 8).cast::<u64>().unwrap().into_maybe_uninit(); }
    look(1);
}
