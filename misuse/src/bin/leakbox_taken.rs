//! A box used after its value was taken.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let a = bump.leak_box(Box::new(5u32)).unwrap();
    look(&*a);
    let b = LeakBox::take(a);
    #[cfg(feature = "misuse")]
    { drop(a); }
    look(&*b);
}
