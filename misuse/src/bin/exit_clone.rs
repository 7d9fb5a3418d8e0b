//! A copy of a slot.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::{ExitStack, Slot};
fn main() {
    let mut stack = Box::pin(ExitStack::<[u64; 16]>::new());
    let a: Slot<Box<u32>> = stack.as_ref().slot().unwrap();
    #[cfg(feature = "misuse")]
    let b = Clone::clone(&a);
    #[cfg(feature = "misuse")]
    let b: Slot<Box<u32>> = b;
    #[cfg(feature = "misuse")]
    let b = b.pin(Box::new(2));
    look(a.pin(Box::new(1)));
    #[cfg(feature = "misuse")]
    { look(b); }
}
