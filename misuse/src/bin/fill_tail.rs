//! The tail of a fill that outlives the source.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use fill::Fill;
fn main() {
    let source = vec![Box::new(1u32), Box::new(2)];
    
    let mut one: Option<&Box<u32>> = None;
    let mut tail = one.fill_and_keep_tail(source.iter());
    #[cfg(feature = "misuse")]
    { drop(source); }
    look(tail.next());
}
