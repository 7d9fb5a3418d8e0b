//! A trait object that outlives what it borrows.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::fmt::Debug;
use unsize::{CoerceUnsized, Coercion};
fn main() {
    let first = String::from("first");
    let mut kept: Option<Box<dyn Debug>> = None;
    {
        let s = String::from("text");
        #[cfg(feature = "misuse")]
        let b: Box<&str> = Box::new(&*s);
        #[cfg(not(feature = "misuse"))]
        let b: Box<&str> = Box::new(&*first);
        kept = Some(b.unsize(Coercion::to_debug()));
    }
    look(kept);
}
