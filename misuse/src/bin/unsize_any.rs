//! Something borrowed passed off as anything.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::any::Any;
use unsize::{CoerceUnsized, Coercion};
fn main() {
    let mut kept: Option<Box<dyn Any>> = None;
    {
        let s = String::from("text");
        #[cfg(feature = "misuse")]
        let b: Box<&str> = Box::new(&*s);
        #[cfg(not(feature = "misuse"))]
        let b: Box<&'static str> = Box::new("static");
        kept = Some(b.unsize(Coercion::to_any()));
    }
    look(kept.unwrap().downcast_ref::<&'static str>());
}
