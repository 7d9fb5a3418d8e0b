//! A copy of a box.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::boxed;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let a = bump.boxed(Box::new(5u32)).unwrap();
    #[cfg(feature = "misuse")]
    let b = Clone::clone(&a);
    #[cfg(feature = "misuse")]
    { let b: boxed::Box<Box<u32>> = b; look(&**b); }
    look(&**a);
}
