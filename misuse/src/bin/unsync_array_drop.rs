//! An array of an unsynchronized bump that outlives it.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::unsync::MemBump;
fn main() {
    let bump = MemBump::new(100);
    let mut a = bump.bump_array::<u32>(3).unwrap();
    #[cfg(feature = "misuse")]
    { drop(bump); }
    a[1].write(4);
}
