//! A box of an unsynchronized bump used after a reset.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::unsync::Bump;
fn main() {
    let mut bump: Bump<[u64; 8]> = Bump::uninit();
    let a = static_alloc::leaked::LeakBox::write(bump.bump_box::<Box<u32>>().unwrap(), Box::new(5u32));
    #[cfg(feature = "misuse")]
    { bump.reset(); }
    #[cfg(feature = "misuse")]
    let b = static_alloc::leaked::LeakBox::write(bump.bump_box::<[u8; 16]>().unwrap(), [1; 16]);
    look(&*a);
}
