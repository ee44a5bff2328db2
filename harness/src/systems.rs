//! Every built-in system of the crate, addressable by value.
//!
//! `Sys` is plain data (it goes into replay files); the functions below call
//! the real system. Nothing here knows what the result should be: see model.rs.
use crate::num::Num;
use nominals::{Error, NominalString, NominalSystem};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sys {
    /// Index into [`NAMES`].
    B(u8),
    Zh(Zh),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Zh {
    pub trad: bool,
    pub formal: bool,
    pub fin: bool,
    /// 0 myriad, 1 short, 2 mid, 3 long
    pub scale: u8,
}

macro_rules! builtins {
    ($($name:ident)*) => {
        pub const NAMES: &[&str] = &[$(stringify!($name)),*];

        /// Evaluates `f` with the concrete system.
        macro_rules! dispatch_builtin {
            ($idx:expr, $s:ident => $body:expr) => {{
                #[allow(non_camel_case_types, clippy::enum_variant_names)]
                #[repr(u8)]
                #[derive(Clone, Copy)]
                enum I { $($name),* }
                $( #[allow(non_upper_case_globals)] const $name: u8 = I::$name as u8; )*
                match $idx {
                    $( $name => { let $s = &nominals::$name; $body } )*
                    _ => unreachable!("unknown system index"),
                }
            }};
        }
    };
}

builtins! {
    Decimal EasternArabic Persian Urdu Bengali Cambodian Khmer CjkDecimal Devanagari Gujarati
    Gurmukhi Kannada Lao Malayalam Mongolian Myanmar Oriya Tamil Telugu Thai Tibetan HexUpper
    HexLower LetterUpper LetterLower GreekUpper GreekLower Hiragana HiraganaIroha Katakana
    KatakanaIroha HangeulJamo HangeulSyllable CjkHeavenlyStem CjkEarthlyBranch RomanUpper
    RomanLower ArmenianUpper ArmenianLower Georgian JapaneseFormal JapaneseInformal HangeulFormal
    HanjaInformal HanjaFormal Hebrew Ethiopic CircledNumber DoubleCircledNumber
}

/// Names of the built-in digit collections (a prefix of NAMES).
pub const COLLECTIONS: usize = 35;

impl Sys {
    pub fn by_name(name: &str) -> Option<Sys> {
        if let Some(i) = NAMES.iter().position(|n| *n == name) {
            return Some(Sys::B(i as u8));
        }
        let p: Vec<&str> = name.split(':').collect();
        if p.len() != 5 || p[0] != "Chinese" {
            return None;
        }
        Some(Sys::Zh(Zh {
            trad: p[1] == "traditional",
            formal: p[2] == "formal",
            fin: p[3] == "financial",
            scale: ["myriad", "short", "mid", "long"].iter().position(|s| *s == p[4])? as u8,
        }))
    }

    pub fn name(self) -> String {
        match self {
            Sys::B(i) => NAMES[i as usize].to_string(),
            Sys::Zh(z) => format!(
                "Chinese:{}:{}:{}:{}",
                if z.trad { "traditional" } else { "simplified" },
                if z.formal { "formal" } else { "informal" },
                if z.fin { "financial" } else { "ordinary" },
                ["myriad", "short", "mid", "long"][z.scale as usize]
            ),
        }
    }

    pub fn all() -> Vec<Sys> {
        let mut v: Vec<Sys> = (0..NAMES.len()).map(|i| Sys::B(i as u8)).collect();
        v.extend(Sys::chinese());
        v
    }

    pub fn chinese() -> Vec<Sys> {
        (0..32u8)
            .map(|i| {
                Sys::Zh(Zh {
                    trad: i & 1 != 0,
                    formal: i & 2 != 0,
                    fin: i & 4 != 0,
                    scale: i >> 3,
                })
            })
            .collect()
    }

    pub fn named(names: &[&str]) -> Vec<Sys> {
        names
            .iter()
            .map(|n| Sys::by_name(n).unwrap_or_else(|| panic!("no system {n}")))
            .collect()
    }
}

#[cfg(feature = "data")]
impl serde::Serialize for Sys {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.name())
    }
}
#[cfg(feature = "data")]
impl<'de> serde::Deserialize<'de> for Sys {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Sys, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        Sys::by_name(&s).ok_or_else(|| serde::de::Error::custom("unknown system"))
    }
}

/// Applies the options of `$z` to `$t::default()`.
macro_rules! zh_opts {
    ($t:ident, $z:expr) => {{
        let mut s = nominals::$t::default();
        if $z.fin {
            s = s.financial();
        }
        match $z.scale {
            0 => {}
            1 => s = s.short_scale(),
            2 => s = s.mid_scale(),
            3 => s = s.long_scale(),
            _ => unreachable!(),
        }
        s
    }};
}

macro_rules! dispatch {
    ($sys:expr, $s:ident => $body:expr) => {
        match $sys {
            Sys::B(i) => dispatch_builtin!(i, $s => $body),
            Sys::Zh(z) => match (z.trad, z.formal) {
                (false, false) => { let $s = &zh_opts!(SimplifiedChineseInformal, z); $body }
                (false, true) => { let $s = &zh_opts!(SimplifiedChineseFormal, z); $body }
                (true, false) => { let $s = &zh_opts!(TraditionalChineseInformal, z); $body }
                (true, true) => { let $s = &zh_opts!(TraditionalChineseFormal, z); $body }
            },
        }
    };
}

pub fn try_format<T: Num>(sys: Sys, n: T) -> Result<NominalString, Error<T>> {
    dispatch!(sys, s => s.try_format_nominal(n))
}
pub fn try_to<T: Num>(sys: Sys, n: T) -> Result<NominalString, Error<T>> {
    dispatch!(sys, s => n.try_to_nominal(s))
}
pub fn format<T: Num>(sys: Sys, n: T) -> NominalString {
    dispatch!(sys, s => s.format_nominal(n))
}
pub fn to<T: Num>(sys: Sys, n: T) -> NominalString {
    dispatch!(sys, s => n.to_nominal(s))
}

macro_rules! owned_builtin {
    ($sys:expr, $wrap:path) => {
        match $sys {
            Sys::B(i) => boxed_builtin!(i, $wrap),
            Sys::Zh(z) => match (z.trad, z.formal) {
                (false, false) => $wrap(zh_opts!(SimplifiedChineseInformal, z)) as _,
                (false, true) => $wrap(zh_opts!(SimplifiedChineseFormal, z)) as _,
                (true, false) => $wrap(zh_opts!(TraditionalChineseInformal, z)) as _,
                (true, true) => $wrap(zh_opts!(TraditionalChineseFormal, z)) as _,
            },
        }
    };
}
macro_rules! boxed_table {
    ($($name:ident)*) => {
        macro_rules! boxed_builtin {
            ($idx:expr, $wrap:path) => {
                match NAMES[$idx as usize] {
                    $( stringify!($name) => $wrap(nominals::$name) as _, )*
                    _ => unreachable!(),
                }
            };
        }
    };
}
boxed_table! {
    Decimal EasternArabic Persian Urdu Bengali Cambodian Khmer CjkDecimal Devanagari Gujarati
    Gurmukhi Kannada Lao Malayalam Mongolian Myanmar Oriya Tamil Telugu Thai Tibetan HexUpper
    HexLower LetterUpper LetterLower GreekUpper GreekLower Hiragana HiraganaIroha Katakana
    KatakanaIroha HangeulJamo HangeulSyllable CjkHeavenlyStem CjkEarthlyBranch RomanUpper
    RomanLower ArmenianUpper ArmenianLower Georgian JapaneseFormal JapaneseInformal HangeulFormal
    HanjaInformal HanjaFormal Hebrew Ethiopic CircledNumber DoubleCircledNumber
}

#[allow(dead_code)]
pub fn boxed<T: Num>(sys: Sys) -> Box<dyn NominalSystem<T>> {
    owned_builtin!(sys, Box::new)
}
#[cfg(feature = "alloc")]
pub fn shared_rc<T: Num>(sys: Sys) -> std::rc::Rc<dyn NominalSystem<T>> {
    owned_builtin!(sys, std::rc::Rc::new)
}
#[cfg(feature = "alloc")]
pub fn shared_arc<T: Num>(sys: Sys) -> std::sync::Arc<dyn NominalSystem<T>> {
    owned_builtin!(sys, std::sync::Arc::new)
}
