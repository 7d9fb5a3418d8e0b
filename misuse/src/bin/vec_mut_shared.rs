//! A mutable slice of a vector reached through a shared reference.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut a = bump.fixed_vec(3).unwrap();
    a.push(3u32).unwrap();
    let r = &a;
    let first = &r[0];
    #[cfg(feature = "misuse")]
    { r.as_mut_slice()[0] = 5; }
    look(first);
}
