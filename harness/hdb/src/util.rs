//! Oracles and helpers shared by the harness modules.
use rt::*;
use sourisdb::types::integer::Integer;
use std::hash::{Hash, Hasher};

/// A mathematical integer in [-2^127, 2^128): its sign and its low 128 bits in two's complement.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Num {
    pub neg: bool,
    pub low: u128,
}
impl Num {
    #[inline(always)]
    pub fn of(neg: bool, mag: u128) -> Num {
        Num { neg, low: if neg { mag.wrapping_neg() } else { mag } }
    }
    #[inline(always)]
    pub fn mag(self) -> u128 {
        if self.neg { self.low.wrapping_neg() } else { self.low }
    }
    pub fn same(self, o: Num) -> bool {
        (self.low == o.low) & (self.neg == o.neg)
    }
}

pub trait Machine: Int {
    const SIGNED: bool;
    const BITS: u32;
    fn num(self) -> Num;
}
macro_rules! mu { ($($t:ty),*) => { $(impl Machine for $t {
    const SIGNED: bool = false;
    const BITS: u32 = <$t>::BITS;
    #[inline(always)]
    fn num(self) -> Num { Num { neg: false, low: self as u128 } }
})* } }
macro_rules! ms { ($($t:ty),*) => { $(impl Machine for $t {
    const SIGNED: bool = true;
    const BITS: u32 = <$t>::BITS;
    #[inline(always)]
    fn num(self) -> Num {
        Num { neg: self < 0, low: self as i128 as u128 }
    }
})* } }
mu!(u8, u16, u32, u64, u128, usize);
ms!(i8, i16, i32, i64, i128, isize);

/// Whether `T` can represent `n`.
pub fn fits<T: Machine>(n: Num) -> bool {
    let top = T::BITS - T::SIGNED as u32;
    let max = if top == 128 { u128::MAX } else { (1u128 << top) - 1 };
    if T::SIGNED {
        (n.neg & (n.low as i128 >= (!max) as i128)) | (!n.neg & (n.low <= max))
    } else {
        !n.neg & (n.low <= max)
    }
}

/// The number an `Integer` denotes, read back through its widest conversions.
pub fn value_of(i: Integer) -> Option<Num> {
    if i.is_negative() {
        i128::try_from(i).ok().map(|x| x.num())
    } else {
        u128::try_from(i).ok().map(|x| x.num())
    }
}

/// Hasher which only records what is fed to it: equal records hash equally
/// under every hasher.
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
pub fn rec<T: Hash>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}

/// Comparison without a branch per byte.
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// Calls `$m!(T)` for the machine integer type selected by a choice.
#[macro_export]
macro_rules! any_machine {
    ($m:ident) => {
        match rt::choice(12) {
            0 => $m!(u8),
            1 => $m!(u16),
            2 => $m!(u32),
            3 => $m!(u64),
            4 => $m!(u128),
            5 => $m!(usize),
            6 => $m!(i8),
            7 => $m!(i16),
            8 => $m!(i32),
            9 => $m!(i64),
            10 => $m!(i128),
            _ => $m!(isize),
        }
    };
}
