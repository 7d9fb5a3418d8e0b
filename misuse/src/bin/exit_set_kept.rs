//! The result of overwriting a stack kept across the next time.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::ExitStack;
fn main() {
    let mut stack = Box::pin(ExitStack::<[Option<Box<u32>>; 2]>::new());
    let v = stack.as_mut().set([None, Some(Box::new(1))]);
    #[cfg(feature = "misuse")]
    { drop(stack.as_mut().set([None, None])); }
    look(&v[1]);
}
