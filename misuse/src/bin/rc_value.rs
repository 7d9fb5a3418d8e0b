//! A value whose destructor looks at something already gone.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::{alloc::LocalAllocLeakExt, rc::Rc};
struct Look<'a>(&'a str);
impl Drop for Look<'_> {
    fn drop(&mut self) {
        look(self.0)
    }
}
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let s = String::from("text");
    let rc = bump.rc(Look(&s)).unwrap();
    #[cfg(feature = "misuse")]
    { drop(s); }
    look(rc.0.len());
}
