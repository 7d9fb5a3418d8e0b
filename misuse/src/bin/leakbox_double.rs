//! Values duplicated by making boxes over owned variables.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
fn main() {
    let mut text = Box::new(4u32);
    #[cfg(feature = "misuse")]
    { drop(LeakBox::from_mut(&mut text)); }
    look(&*text);
}
