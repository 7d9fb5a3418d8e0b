//! A pinned value moved out of its place.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use exit_stack::ExitStack;
use std::marker::PhantomPinned;
use std::pin::Pin;
struct Fixed(u32, PhantomPinned);
fn main() {
    let stack = Box::pin(ExitStack::<[u64; 16]>::new());
    let mut v = stack.as_ref().slot().unwrap().pin(Fixed(3, PhantomPinned));
    #[cfg(feature = "misuse")]
    {
        let before = &*v as *const Fixed as usize;
        let b = std::mem::replace(v.as_mut().get_mut(), Fixed(4, PhantomPinned));
        assert_eq!(before, &b as *const _ as usize);
    }
    look(v.0);
}
