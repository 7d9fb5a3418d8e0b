//! A mutable reference made of a shared one.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use unsize::{CoerceUnsized, Coercion};
fn main() {
    let a = [1u8, 2];
    let r = &a;
    let s = r.unsize(Coercion::to_slice());
    #[cfg(feature = "misuse")]
    { let s: &mut [u8] = s; s[0] = 4; }
    look(a);
}
