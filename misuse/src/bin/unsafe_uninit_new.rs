//! A typed region over any pointer without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::ptr::NonNull;
fn main() {
    #[cfg(feature = "misuse")]
    { look(Uninit::<u64>::new(NonNull::dangling(), 8).init(3)); }
    look(1);
}
