//! A value whose destructor looks at something dropped before.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
struct Look<'a>(&'a str);
impl Drop for Look<'_> {
    fn drop(&mut self) {
        look(self.0)
    }
}
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let first = String::from("text");
    let rc;
    let s = String::from("text");
    #[cfg(feature = "misuse")]
    { rc = bump.leak_box(Look(&s)).unwrap(); }
    #[cfg(not(feature = "misuse"))]
    { rc = bump.leak_box(Look(&first)).unwrap(); }
}
