//! A copied slice that outlives the allocator.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Box<Bump<[u64; 8]>> = Box::new(Bump::uninit());
    let a = bump.copy_slice(&[1u16, 2, 3]).unwrap();
    #[cfg(feature = "misuse")]
    { drop(bump); }
    look(a);
}
