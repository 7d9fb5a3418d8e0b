//! A handle used from two threads.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::{alloc::LocalAllocLeakExt, rc::Rc};
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let rc = bump.rc(5u32).unwrap();
    both(|| drop(rc.clone()));
}
