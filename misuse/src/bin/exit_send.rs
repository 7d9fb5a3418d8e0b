//! A stack with values bound to their thread, destroyed on another.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::ExitStack;
use std::rc::Rc;
fn main() {
    let rc = Rc::new(4);
    let mut stack = Box::pin(ExitStack::<[u64; 16]>::new());
    drop(stack.as_ref().slot().unwrap().pin(rc.clone()));
    let f = move || stack.as_mut().pop_all();
    #[cfg(feature = "misuse")]
    std::thread::scope(|s| {
        fn send<F: FnOnce() + Send>(f: F) -> F { f }
        s.spawn(send(f));
        drop(rc.clone());
    });
    #[cfg(not(feature = "misuse"))]
    { let mut f = f; f(); drop(rc); }
}
