//! A box of an unsynchronized bump that outlives it.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::Bump;
fn main() {
    let bump: Box<Bump<[u64; 8]>> = Box::new(Bump::uninit());
    let a = LeakBox::write(bump.bump_box().unwrap(), 5u32);
    #[cfg(feature = "misuse")]
    { drop(bump); }
    look(&*a);
}
