//! The value types used by the generic drivers.
use crate::track::*;

/// A value with identity that can be created by the ledger.
pub trait Tv: 'static + Sized {
    fn mk() -> Self;
    /// The identity, `None` for zero-sized values.
    fn ident(&self) -> Option<u32>;
    /// Contents and address are as created.
    fn intact_as(&self, id: Option<u32>) -> bool;
}

impl<A: Copy + 'static, const N: usize> Tv for Tr<A, N> {
    fn mk() -> Self {
        Tr::new()
    }
    fn ident(&self) -> Option<u32> {
        Some(self.id)
    }
    fn intact_as(&self, id: Option<u32>) -> bool {
        self.intact() && Some(self.id) == id
    }
}

impl<A: Copy + 'static> Tv for Z<A> {
    fn mk() -> Self {
        Z::new()
    }
    fn ident(&self) -> Option<u32> {
        None
    }
    fn intact_as(&self, id: Option<u32>) -> bool {
        id.is_none() && self as *const Self as usize % std::mem::align_of::<Self>() == 0
    }
}

/// A one-byte tracked value: the id must stay below 256.
#[derive(Debug)]
pub struct B1(u8);
impl Tv for B1 {
    fn mk() -> Self {
        B1(new_id() as u8)
    }
    fn ident(&self) -> Option<u32> {
        Some(self.0 as u32)
    }
    fn intact_as(&self, id: Option<u32>) -> bool {
        id.map(|i| i as u8) == Some(self.0)
    }
}
impl Drop for B1 {
    fn drop(&mut self) {
        let panics = with(|l| {
            let at = self as *const Self as usize;
            match l.drops.get_mut(self.0 as usize) {
                Some(n) => {
                    *n += 1;
                    if *n > 1 {
                        l.corrupt.push(format!("value {} destroyed {} times", self.0, n));
                    }
                    l.events.push(Ev::Drop(self.0 as u32, at));
                }
                None => l.corrupt.push("destructor on garbage".into()),
            }
            l.panic_on.contains(&(self.0 as u32))
        });
        if panics {
            std::panic::panic_any("tracked destructor");
        }
    }
}

/// Three bytes, odd size: id, check, id.
#[derive(Debug)]
pub struct B3([u8; 3]);
impl Tv for B3 {
    fn mk() -> Self {
        let i = new_id() as u8;
        B3([i, i ^ 0x5A, i.wrapping_mul(7)])
    }
    fn ident(&self) -> Option<u32> {
        Some(self.0[0] as u32)
    }
    fn intact_as(&self, id: Option<u32>) -> bool {
        let i = self.0[0];
        id.map(|i| i as u8) == Some(i) && self.0 == [i, i ^ 0x5A, i.wrapping_mul(7)]
    }
}
impl Drop for B3 {
    fn drop(&mut self) {
        let ok = self.intact_as(Some(self.0[0] as u32));
        let panics = with(|l| {
            match l.drops.get_mut(self.0[0] as usize) {
                Some(n) if ok => {
                    *n += 1;
                    if *n > 1 {
                        l.corrupt.push(format!("value {} destroyed {} times", self.0[0], n));
                    }
                    l.events.push(Ev::Drop(self.0[0] as u32, self as *const Self as usize));
                }
                _ => l.corrupt.push("destructor on garbage".into()),
            }
            l.panic_on.contains(&(self.0[0] as u32))
        });
        if panics {
            std::panic::panic_any("tracked destructor");
        }
    }
}

/// How many types `with_tv` knows.
pub const TYPES: usize = 13;
/// How many types `with_big` knows.
pub const BIG: usize = 4;

/// Call a generic function for the `i`-th value type.
#[macro_export]
macro_rules! with_tv {
    ($i:expr, $T:ident => $body:expr) => {{
        use $crate::track::*;
        use $crate::types::*;
        match $i % TYPES {
            0 => { type $T = B1; $body }
            1 => { type $T = B3; $body }
            2 => { type $T = Tr<A4, 0>; $body }
            3 => { type $T = Tr<A4, 5>; $body }
            4 => { type $T = Tr<A16, 0>; $body }
            5 => { type $T = Tr<A8, 24>; $body }
            6 => { type $T = Tr<A64, 40>; $body }
            7 => { type $T = Z<A1>; $body }
            8 => { type $T = Z<A32>; $body }
            9 => { type $T = Tr<A128, 0>; $body }
            10 => { type $T = Z<A128>; $body }
            11 => { type $T = Tr<A4, 600>; $body }
            _ => { type $T = Tr<A4, 100>; $body }
        }
    }};
}

/// The same for values of unusual size and alignment.
#[macro_export]
macro_rules! with_big {
    ($i:expr, $T:ident => $body:expr) => {{
        use $crate::track::*;
        use $crate::types::*;
        match $i % BIG {
            0 => { type $T = Tr<A4, 5000>; $body }
            1 => { type $T = Tr<A4096, 0>; $body }
            2 => { type $T = Z<A4096>; $body }
            _ => { type $T = Tr<A16, 70_000>; $body }
        }
    }};
}
