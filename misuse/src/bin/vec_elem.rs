//! A reference to an element kept while the vector changes.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut a = bump.fixed_vec(2).unwrap();
    a.push(Box::new(3u32)).unwrap();
    let e = &*a.as_slice()[0];
    #[cfg(feature = "misuse")]
    { a.clear(); }
    look(e);
}
