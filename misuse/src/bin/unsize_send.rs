//! A box of something bound to its thread, passed off as sendable.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::any::Any;
use std::rc::Rc;
use unsize::{CoerceUnsized, Coercion};
fn main() {
    let rc = Rc::new(1);
    let b = Box::new(rc.clone());
    #[cfg(feature = "misuse")]
    {
        let b: Box<dyn Any + Send> = b.unsize(Coercion::to_any());
        std::thread::scope(|s| {
            s.spawn(move || drop(b));
            drop(rc.clone());
        });
    }
}
