//! A stack moved while values are pinned to it.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::ExitStack;
fn main() {
    let mut stack = Box::pin(ExitStack::<[u64; 16]>::new());
    let v = stack.as_ref().slot().unwrap().pin(Box::new(3u32));
    look(&**v);
    #[cfg(feature = "misuse")]
    {
        let moved = std::mem::replace(stack.as_mut().get_mut(), ExitStack::new());
        drop(stack);
        drop(moved);
    }
}
