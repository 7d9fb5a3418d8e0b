//! A region given back by a box that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::boxed;
fn main() {
    let bump: Box<Bump<[u64; 8]>> = Box::new(Bump::uninit());
    let a = boxed::Box::into_raw(bump.boxed(5u32).unwrap());
    #[cfg(feature = "misuse")]
    { drop(bump); }
    look(a.init(4));
}
