//! Memory pointed to used without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use std::mem::MaybeUninit;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let a = bump.get::<u32>().unwrap();
    #[cfg(feature = "misuse")]
    { let mut b = a.leak(5); let mut c = a.leak(5); *b = 1; *c = 2; look(&*b); }
    look(1);
}
