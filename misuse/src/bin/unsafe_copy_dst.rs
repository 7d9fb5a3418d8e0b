//! A value that has an owner copied without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
use std::mem::ManuallyDrop;
use std::fmt::Debug;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut v = ManuallyDrop::new(Box::new(5u32));
    #[cfg(feature = "misuse")]
    {
        let a = bump.copy_dst::<Box<u32>>(&v).unwrap();
        drop(ManuallyDrop::into_inner(v));
        look(a);
    }
}
