//! A stack pinned to memory it can be moved out of.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::ExitStack;
use std::pin::Pin;
fn main() {
    let mut stack = Box::new(ExitStack::<[u64; 16]>::new());
    #[cfg(feature = "misuse")]
    {
        drop(Pin::new(&*stack).slot().unwrap().pin(Box::new(3u32)));
        let moved = *stack;
        drop(moved);
    }
}
