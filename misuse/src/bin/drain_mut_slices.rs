//! Two mutable slices of what remains to be drained.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut a = bump.fixed_vec(3).unwrap();
    a.push(Box::new(3u32)).unwrap();
    a.push(Box::new(4u32)).unwrap();
    let mut d = a.drain(..);
    let s = d.as_mut_slice();
    #[cfg(feature = "misuse")]
    let t = d.as_mut_slice();
    #[cfg(feature = "misuse")]
    { *t[0] = 4; }
    *s[0] = 5;
    #[cfg(feature = "misuse")]
    { look(t); }
}
