//! A handle that outlives the memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::{alloc::LocalAllocLeakExt, rc::Rc};
fn main() {
    let bump: Box<Bump<[u64; 8]>> = Box::new(Bump::uninit());
    let rc = bump.rc(5u32).unwrap();
    #[cfg(feature = "misuse")]
    { drop(bump); }
    look(&*rc);
}
