//! A coercion for one element type used for another.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use unsize::{CoerceUnsized, Coercion};
fn coercion<'a>(of: &'a str) -> Coercion<[&'a str; 2], [&'a str]> {
    Coercion::to_slice()
}
fn main() {
    let mut array: [&'static str; 2] = ["static", "text"];
    {
        let s = String::from("short lived");
        #[cfg(feature = "misuse")]
        let c: Coercion<[&'static str; 2], [&str]> = coercion(&s);
        #[cfg(not(feature = "misuse"))]
        let c = coercion("");
        let slice = (&mut array).unsize(c);
        #[cfg(feature = "misuse")]
        { slice[0] = &s; }
        look(&*slice);
    }
    look(array);
}
