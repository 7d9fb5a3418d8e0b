//! A stack used from two threads.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::ExitStack;
fn main() {
    let stack = Box::pin(ExitStack::<[u64; 16]>::new());
    let s = stack.as_ref();
    both(move || drop(s.slot().unwrap().pin(3u32)));
}
