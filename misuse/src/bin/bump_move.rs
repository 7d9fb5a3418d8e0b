//! A Bump moved while a box of it is in use.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
fn main() {
    let mut bump: Bump<[u64; 8]> = Bump::uninit();
    let mut other: Bump<[u64; 8]> = Bump::uninit();
    let a = bump.leak_box(Box::new(5u32)).unwrap();
    #[cfg(feature = "misuse")]
    { std::mem::swap(&mut bump, &mut other); }
    look(&*a);
}
