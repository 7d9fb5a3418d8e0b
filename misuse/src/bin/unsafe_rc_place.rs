//! A counted reference over a bare place without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use without_alloc::Uninit;
use std::mem::MaybeUninit;
use without_alloc::rc;
fn main() {
    let mut memory = MaybeUninit::<[u64; 8]>::uninit();
    let u = Uninit::from(&mut memory).cast::<Box<u32>>().unwrap();
    #[cfg(feature = "misuse")]
    { let a = rc::Rc::from_raw(u); look(&**a); }
}
