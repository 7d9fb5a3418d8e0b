//! A pinned value moved after it was coerced.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::marker::PhantomPinned;
use std::pin::Pin;
use unsize::{CoerceUnsized, Coercion};
fn main() {
    let b = Box::pin([PhantomPinned, PhantomPinned]);
    let mut s: Pin<Box<[PhantomPinned]>> = b.unsize(Coercion::to_slice());
    #[cfg(feature = "misuse")]
    {
        let before = &s[0] as *const _ as usize;
        let b = std::mem::replace(&mut s.as_mut().get_mut()[0], PhantomPinned);
        assert_eq!(before, &b as *const _ as usize);
    }
}
