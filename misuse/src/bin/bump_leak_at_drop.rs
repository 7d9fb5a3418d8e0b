//! A reference into a Bump that outlives it.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
fn main() {
    let bump: Box<Bump<[u64; 8]>> = Box::new(Bump::uninit());
    let a = bump.leak_at(7u32, bump.level()).unwrap().0;
    #[cfg(feature = "misuse")]
    { drop(bump); }
    look(&*a);
}
