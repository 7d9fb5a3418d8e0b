//! A view of the remaining elements kept while draining goes on.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut a = bump.fixed_vec(3).unwrap();
    a.push(Box::new(3u32)).unwrap();
    let mut d = a.drain(..);
    let s = d.as_slice();
    #[cfg(feature = "misuse")]
    { drop(d.next()); }
    look(s);
}
