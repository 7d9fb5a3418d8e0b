//! A mutable slice of what remains to be drained reached through a shared reference.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut a = bump.fixed_vec(3).unwrap();
    a.push(Box::new(3u32)).unwrap();
    a.push(Box::new(4u32)).unwrap();
    let mut d = a.drain(..);
    let r = &d;
    let first = &r.as_slice()[0];
    #[cfg(feature = "misuse")]
    { r.as_mut_slice()[0] = Box::new(5); }
    look(first);
}
