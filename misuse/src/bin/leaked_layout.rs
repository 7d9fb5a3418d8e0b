//! Memory for a layout that outlives the allocator.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
use alloc_traits::NonZeroLayout;
fn main() {
    let bump: Box<Bump<[u64; 8]>> = Box::new(Bump::uninit());
    let a = bump.alloc_layout(NonZeroLayout::new::<u32>().unwrap()).unwrap();
    #[cfg(feature = "misuse")]
    { drop(bump); }
    look(a.uninit.cast::<u32>().unwrap().init(4));
}
