//! A copy of a chain.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::unsync::Chain;
fn main() {
    let a = Chain::new(100).unwrap();
    let v = a.bump_box::<u32>().unwrap();
    #[cfg(feature = "misuse")]
    let b = Clone::clone(&a);
    #[cfg(feature = "misuse")]
    { let b: Chain = b; drop(b); }
    look(v.as_ptr());
}
