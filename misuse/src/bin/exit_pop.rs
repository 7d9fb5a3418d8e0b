//! A pinned value used after the stack was emptied.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::ExitStack;
fn main() {
    let mut stack = Box::pin(ExitStack::<[u64; 16]>::new());
    let v = stack.as_ref().slot().unwrap().pin(Box::new(3u32));
    #[cfg(feature = "misuse")]
    { stack.as_mut().pop_all(); }
    look(&**v);
}
