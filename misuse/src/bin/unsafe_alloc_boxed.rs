//! Memory pointed to used twice without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let a = bump.get::<u32>().unwrap();
    #[cfg(feature = "misuse")]
    { let mut b = a.boxed(1); let mut c = a.boxed(2); let (b, c) = (&mut *b, &mut *c); *b = 3; *c = 4; *b = 5; }
    look(1);
}
