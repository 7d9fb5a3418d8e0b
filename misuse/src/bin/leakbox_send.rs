//! A box of something bound to its thread, sent to another.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use std::rc::Rc;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let rc = Rc::new(1);
    let a = bump.leak_box(rc.clone()).unwrap();
    elsewhere_with(rc, move || drop(a));
}
fn elsewhere_with<T, #[cfg(feature = "misuse")] F: FnOnce() + Send, #[cfg(not(feature = "misuse"))] F: FnOnce()>(rc: Rc<T>, f: F) {
    #[cfg(feature = "misuse")]
    std::thread::scope(|s| {
        s.spawn(f);
        drop(rc.clone());
    });
    #[cfg(not(feature = "misuse"))]
    f();
}
