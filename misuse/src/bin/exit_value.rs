//! A pinned value that refers to something gone when the stack destroys it.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::ExitStack;
struct Look<'a>(&'a str);
impl Drop for Look<'_> {
    fn drop(&mut self) {
        look(self.0)
    }
}
fn main() {
    let stack = Box::pin(ExitStack::<[u64; 16]>::new());
    let v = stack.as_ref().slot().unwrap().pin(Look("static"));
    #[cfg(feature = "misuse")]
    {
        let s = String::from("gone before");
        stack.as_ref().slot().unwrap().pin(Look(&s));
    }
}
