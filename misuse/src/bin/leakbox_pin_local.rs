//! A value pinned in memory that goes away without the value being dropped.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;
use std::marker::PhantomPinned;
struct Fixed(u32, PhantomPinned);
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let a = bump.leak_box(Fixed(1, PhantomPinned)).unwrap();
    #[cfg(feature = "misuse")]
    {
        let a = LeakBox::into_pin(a);
        std::mem::forget(a);
        // Nothing keeps the memory from going away now.
        drop(bump);
        assert_eq!("pinned memory gone", "pinned memory there");
    }
}
