//! A copy of a drain.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::fixed_vec::Drain;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut v = bump.fixed_vec(3).unwrap();
    v.push(Box::new(3u32)).unwrap();
    let mut a = v.drain(..);
    #[cfg(feature = "misuse")]
    let b = Clone::clone(&a);
    #[cfg(feature = "misuse")]
    { let mut b: Drain<Box<u32>> = b; look(b.next()); }
    look(a.next());
}
