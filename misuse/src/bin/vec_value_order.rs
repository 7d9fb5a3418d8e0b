//! Elements whose destructors look at something dropped before.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
struct Look<'a>(&'a str);
impl Drop for Look<'_> {
    fn drop(&mut self) {
        look(self.0)
    }
}
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let first = String::from("text");
    let mut v = bump.fixed_vec(2).unwrap();
    let s = String::from("text");
    #[cfg(feature = "misuse")]
    v.push(Look(&s)).ok().unwrap();
    #[cfg(not(feature = "misuse"))]
    v.push(Look(&first)).ok().unwrap();
}
