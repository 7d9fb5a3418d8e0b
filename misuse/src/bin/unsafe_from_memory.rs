//! A region over any pointer without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::ptr::NonNull;
fn main() {
    #[cfg(feature = "misuse")]
    { look(Uninit::<()>::from_memory(NonNull::<u64>::dangling().cast(), 8).cast::<u64>().unwrap().init(3)); }
    look(1);
}
