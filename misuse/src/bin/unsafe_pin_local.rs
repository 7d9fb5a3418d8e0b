//! A value of shorter life pinned in a stack without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::ExitStack;
struct Late<'a>(&'a mut u32);
impl Drop for Late<'_> {
    fn drop(&mut self) { *self.0 += 1; }
}
fn main() {
    let stack = Box::pin(ExitStack::<[u64; 16]>::new());
    let mut count = Box::new(1u32);
    #[cfg(feature = "misuse")]
    { stack.as_ref().slot().unwrap().pin_local(Late(&mut count)); }
    drop(count);
}
