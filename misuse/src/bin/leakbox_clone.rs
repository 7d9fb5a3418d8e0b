//! A copy of a box in a bump.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use static_alloc::leaked::LeakBox;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let a: LeakBox<Box<u32>> = bump.leak_box(Box::new(1)).unwrap();
    #[cfg(feature = "misuse")]
    let b = Clone::clone(&a);
    #[cfg(feature = "misuse")]
    { let b: LeakBox<Box<u32>> = b; look(&*b); }
    look(&*a);
}
