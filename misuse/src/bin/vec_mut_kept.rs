//! A mutable slice kept after the vector is gone.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut a = bump.fixed_vec(3).unwrap();
    a.push(Box::new(3u32)).unwrap();
    let s = a.as_mut_slice();
    #[cfg(feature = "misuse")]
    { drop(a); }
    look(s);
}
