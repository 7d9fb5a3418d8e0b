//! Memory pointed to used without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use std::mem::MaybeUninit;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let a = bump.get::<u32>().unwrap();
    #[cfg(feature = "misuse")]
    { let mut b = a.uninit(); let mut c = a.uninit(); b.write(1); c.write(2); look(b.as_ptr()); b.write(3); }
    look(1);
}
