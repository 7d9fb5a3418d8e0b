//! A value in a Bump that refers to something already gone.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let s = String::from("text");
    let a = bump.leak_box(&*s).unwrap();
    #[cfg(feature = "misuse")]
    { drop(s); }
    look(&*a);
}
