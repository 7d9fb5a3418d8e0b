//! A region given back by a weak reference that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::rc;
fn main() {
    let bump: Box<Bump<[u64; 8]>> = Box::new(Bump::uninit());
    let (v, w) = rc::Rc::try_unwrap(bump.rc(5u32).unwrap()).ok().unwrap();
    let a = w.try_unwrap().ok().unwrap();
    #[cfg(feature = "misuse")]
    { drop(bump); }
    look(a.cast::<u32>().unwrap().init(4));
}
