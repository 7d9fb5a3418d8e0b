//! A copy of a stack.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::ExitStack;
use std::pin::Pin;
fn main() {
    let mut a = Box::pin(ExitStack::<[u64; 16]>::new());
    look(a.as_ref().slot().unwrap().pin(Box::new(1u32)));
    #[cfg(feature = "misuse")]
    let b = Clone::clone(&a);
    #[cfg(feature = "misuse")]
    { let b: Pin<Box<ExitStack<[u64; 16]>>> = b; drop(b); }
    look(1);
}
