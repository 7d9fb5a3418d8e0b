//! A box of a Bump used after a reset.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
fn main() {
    let mut bump: Bump<[u64; 8]> = Bump::uninit();
    let a = bump.leak_box(Box::new(5u32)).unwrap();
    #[cfg(feature = "misuse")]
    { bump.reset(); }
    #[cfg(feature = "misuse")]
    let b = bump.leak_box([1u8; 8]).unwrap();
    look(&*a);
}
