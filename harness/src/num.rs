//! The six unsigned integer types, as values and as a trait.
use nominals::Nominal;
use std::fmt::Debug;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[cfg_attr(feature = "data", derive(serde::Serialize, serde::Deserialize))]
#[allow(non_camel_case_types)]
pub enum Ty {
    u8,
    u16,
    u32,
    u64,
    u128,
    usize,
}

pub const TYPES: [Ty; 6] = [Ty::u8, Ty::u16, Ty::u32, Ty::u64, Ty::u128, Ty::usize];

impl Ty {
    pub fn bits(self) -> u32 {
        match self {
            Ty::u8 => 8,
            Ty::u16 => 16,
            Ty::u32 => 32,
            Ty::u64 => 64,
            Ty::u128 => 128,
            Ty::usize => usize::BITS,
        }
    }
    pub fn max(self) -> u128 {
        u128::MAX >> (128 - self.bits())
    }
    pub fn holds(self, n: u128) -> bool {
        n <= self.max()
    }
}

pub trait Num:
    Nominal + TryFrom<u128> + TryFrom<u32> + Debug + PartialEq + Send + Sync + 'static
{
    const TY: Ty;
    fn of(n: u128) -> Self;
    fn wide(self) -> u128;
}

macro_rules! num {
    ($($t:ident)*) => {$(
        impl Num for $t {
            const TY: Ty = Ty::$t;
            fn of(n: u128) -> Self {
                <$t>::try_from(n).expect("harness: value does not fit the type")
            }
            fn wide(self) -> u128 {
                self as u128
            }
        }
    )*};
}
num!(u8 u16 u32 u64 u128 usize);

/// Evaluates `$body` with `$T` bound to the type named by `$ty`.
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $body:expr) => {
        match $ty {
            $crate::num::Ty::u8 => {
                type $T = u8;
                $body
            }
            $crate::num::Ty::u16 => {
                type $T = u16;
                $body
            }
            $crate::num::Ty::u32 => {
                type $T = u32;
                $body
            }
            $crate::num::Ty::u64 => {
                type $T = u64;
                $body
            }
            $crate::num::Ty::u128 => {
                type $T = u128;
                $body
            }
            $crate::num::Ty::usize => {
                type $T = usize;
                $body
            }
        }
    };
}

/// Serialises u128 as a decimal string (JSON numbers stop at 64 bits).
#[cfg(feature = "data")]
pub mod u128s {
    use serde::{de::Error, Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u128, D::Error> {
        String::deserialize(d)?.parse().map_err(D::Error::custom)
    }
}
