//! A box coerced that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::boxed;
use unsize_reg::{CoerceUnsize, Coercion};
fn main() {
    let bump: Box<Bump<[u64; 8]>> = Box::new(Bump::uninit());
    let a: boxed::Box<[u32]> = bump.boxed([5u32, 6]).unwrap().unsize(Coercion::to_slice());
    #[cfg(feature = "misuse")]
    { drop(bump); }
    look(&*a);
}
