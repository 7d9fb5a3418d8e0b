//! The borrowed half of a vector kept while the vector is used.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut a = bump.fixed_vec(4).unwrap();
    a.push(Box::new(3u32)).unwrap();
    a.push(Box::new(4u32)).unwrap();
    let b = a.split_borrowed(1);
    #[cfg(feature = "misuse")]
    { a.push(Box::new(5u32)).unwrap(); }
    look(&b[..]);
}
