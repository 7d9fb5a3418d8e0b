//! A box over a variable storing something shorter-lived than the variable allows.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
fn main() {
    let mut text: &'static str = "static";
    {
        let s = String::from("short lived text");
        let mut a = LeakBox::from_mut(&mut text);
        #[cfg(feature = "misuse")]
        { *a = &*s; }
        look(&*a);
    }
    look(text);
}
