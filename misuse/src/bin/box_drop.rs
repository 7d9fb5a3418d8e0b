//! A box that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Box<Bump<[u64; 8]>> = Box::new(Bump::uninit());
    let a = bump.boxed(5u32).unwrap();
    #[cfg(feature = "misuse")]
    { drop(bump); }
    look(&*a);
}
