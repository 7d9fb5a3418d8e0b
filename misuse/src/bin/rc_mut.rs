//! A mutable reference kept while another handle is made.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::{alloc::LocalAllocLeakExt, rc::Rc};
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let mut rc = bump.rc(Box::new(5u32)).unwrap();
    let m = Rc::get_mut(&mut rc).unwrap();
    #[cfg(feature = "misuse")]
    let other = rc.clone();
    #[cfg(feature = "misuse")]
    let text: &u32 = &other;
    *m = Box::new(6);
    #[cfg(feature = "misuse")]
    { look(text); }
}
