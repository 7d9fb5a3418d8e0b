//! A value pinned from another thread.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::ExitStack;
fn main() {
    let stack = Box::pin(ExitStack::<[u64; 64]>::new());
    let v = stack.as_ref().slot::<Box<u32>>().unwrap();
    #[cfg(feature = "misuse")]
    std::thread::scope(|s| {
        s.spawn(move || { look(v.pin(Box::new(1))); });
        look(stack.as_ref().slot().unwrap().pin(Box::new(2u32)));
    });
    #[cfg(not(feature = "misuse"))]
    look(v.pin(Box::new(1)));
}
