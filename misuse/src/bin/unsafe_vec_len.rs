//! Elements that are not there without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut a = bump.fixed_vec(3).unwrap();
    a.push(Box::new(3u32)).unwrap();
    #[cfg(feature = "misuse")]
    { a.set_len(3); }
    look(&a[..]);
}
