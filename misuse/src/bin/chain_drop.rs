//! A box of a chain that outlives it.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::Chain;
fn main() {
    let chain = Chain::new(100).unwrap();
    let a = LeakBox::write(chain.bump_box().unwrap(), 5u32);
    #[cfg(feature = "misuse")]
    { drop(chain); }
    look(&*a);
}
