//! A chain used after it was linked into another.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::Chain;
fn main() {
    let chain = Chain::new(100).unwrap();
    let new = Chain::new(100).unwrap();
    let a = LeakBox::write(new.bump_box().unwrap(), Box::new(1u32));
    #[cfg(feature = "misuse")]
    { chain.chain(new); }
    #[cfg(feature = "misuse")]
    { drop(chain); }
    look(&*a);
}
