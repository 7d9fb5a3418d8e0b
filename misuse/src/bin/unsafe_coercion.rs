//! A coercion of any kind without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use unsize::{CoerceUnsized, Coercion};
use std::fmt::Debug;
fn main() {
    let v = Box::new(1u8);
    #[cfg(feature = "misuse")]
    {
        fn wild(v: *const u8) -> *const dyn Debug { v as *const Box<u8> as *const dyn Debug }
        let d: Box<dyn Debug> = v.unsize(Coercion::new(wild as fn(*const u8) -> *const dyn Debug));
        look(d);
    }
}
