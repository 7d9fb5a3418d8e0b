//! A copy of things that must not be duplicated.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let v = vec![Box::new(3u32)];
    #[cfg(feature = "misuse")]
    { let a = bump.copy_slice(&v[..]).unwrap(); a[0] = Box::new(4); }
    look(v);
}
