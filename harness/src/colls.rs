//! User-made digit collections: described as data, built through the public
//! API, and modelled as one flat list of symbols.
use crate::model::{self, M};
use crate::num::Num;
use crate::systems::{Sys, COLLECTIONS, NAMES};
use nominals::{
    Chain, CjkDecimal, CjkEarthlyBranch, CjkHeavenlyStem, Decimal, DigitCollection, DigitSet, Error,
    HexUpper, LetterLower, NoFallback, NominalString, NominalSystem, OneBased, Restrict, Thai,
};
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;
use std::rc::Rc;

/// A non-fixed collection.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Coll {
    /// A built-in collection (the fixed ones are not used here).
    Builtin(Sys),
    /// DigitSet<N, ZERO> with N = SIZES[size].
    Set { size: u8, zero: bool, base: u32 },
    /// NoFallback: empty, counts from zero.
    Nothing,
    /// A hand-written DigitCollection of any length.
    User { len: u64, zero: bool, zero_based: bool, base: u32 },
    /// `.and()` (true) or Chain::new (false)
    Chain(bool, Box<Coll>, Box<Coll>),
    Restrict(u64, Box<Coll>),
    /// `.one_based()` (true) or OneBased::new (false)
    OneBased(bool, Box<Coll>),
}

pub const SIZES: [usize; 22] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 16, 26, 36, 64, 100, 255, 256, 257, 300, 1000,
];

/// The i-th symbol of a synthetic set: distinct valid chars of 1 to 4 bytes.
pub fn symbol(base: u32, i: u64) -> char {
    // All scalar values; the factor is coprime to their number.
    const SPACE: u64 = 0x11_0000 - 0x800;
    let place = |i: u64| (u64::from(base) * 0x9E37 + (i % SPACE) * 40_505) % SPACE;
    let mut k = place(i);
    if base % 8 == 7 {
        // Swap the special ones to the front.
        for (j, c) in SPECIAL.iter().enumerate() {
            let (a, b) = (place(j as u64), *c);
            let b = u64::from(if b >= 0xE000 { b - 0x800 } else { b });
            if k == a {
                k = b;
            } else if k == b {
                k = a;
            }
        }
    }
    let c = k as u32;
    let c = if c >= 0xD800 { c + 0x800 } else { c };
    char::from_u32(c).unwrap()
}

/// Characters at the edges of their encoding, blank, invisible or joining
/// ones.
const SPECIAL: [u32; 20] = [
    0, 0x10_FFFF, 0x80, 0x7F, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x1_0000, 0x20, 0x0A, 0x1B, 0x305, 0xFEFF, 0x200D,
    0x200F, 0xFFFD, 0xAD, 0x30,
];

impl Coll {
    /// None if the parts of a chain add up to more than a usize: no such
    /// collection can exist.
    pub fn checked_len(&self) -> Option<u64> {
        match self {
            Coll::Chain(_, a, b) => a.checked_len()?.checked_add(b.checked_len()?),
            Coll::Restrict(n, a) => Some(a.checked_len()?.min(*n)),
            Coll::OneBased(_, a) => a.checked_len(),
            _ => Some(self.len()),
        }
        .filter(|len| usize::try_from(*len).is_ok())
    }
    pub fn len(&self) -> u64 {
        match self {
            Coll::Builtin(s) => flat(*s).0.len() as u64,
            Coll::Set { size, .. } => SIZES[*size as usize] as u64,
            Coll::Nothing => 0,
            Coll::User { len, .. } => *len,
            Coll::Chain(_, a, b) => a.len().checked_add(b.len()).expect("generated lengths add up"),
            Coll::Restrict(n, a) => a.len().min(*n),
            Coll::OneBased(_, a) => a.len(),
        }
    }
    pub fn has_zero(&self) -> bool {
        match self {
            Coll::Builtin(s) => flat(*s).1,
            Coll::Set { zero, .. } | Coll::User { zero, .. } => *zero,
            Coll::Nothing => false,
            Coll::Chain(_, a, _) | Coll::Restrict(_, a) | Coll::OneBased(_, a) => a.has_zero(),
        }
    }
    /// Whether a zeroless collection starts counting at zero.
    pub fn zero_based(&self) -> bool {
        match self {
            Coll::Builtin(_) | Coll::Set { .. } | Coll::Nothing => true,
            Coll::User { zero_based, .. } => *zero_based,
            Coll::Chain(_, a, _) | Coll::Restrict(_, a) => a.zero_based(),
            Coll::OneBased(..) => false,
        }
    }
    /// Digit `i` of the flat list, for i < len().
    pub fn digit(&self, i: u64) -> char {
        match self {
            Coll::Builtin(s) => flat(*s).0[i as usize],
            Coll::Set { base, .. } | Coll::User { base, .. } => symbol(*base, i),
            Coll::Nothing => panic!("an empty collection has no digits"),
            Coll::Chain(_, a, b) => {
                if i < a.len() {
                    a.digit(i)
                } else {
                    b.digit(i - a.len())
                }
            }
            Coll::Restrict(_, a) | Coll::OneBased(_, a) => a.digit(i),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Coll::Chain(_, a, b) => 1 + a.depth().max(b.depth()),
            Coll::Restrict(_, a) | Coll::OneBased(_, a) => 1 + a.depth(),
            _ => 0,
        }
    }
    pub fn model(&self, n: u128, limit: usize, out: &mut String) -> M {
        model::collection(
            n,
            u128::from(self.len()),
            self.has_zero(),
            self.zero_based(),
            limit,
            &|i| self.digit(i as u64),
            out,
        )
    }
    pub fn smaller(&self) -> Vec<Coll> {
        let mut v = Vec::new();
        match self {
            Coll::Builtin(_) | Coll::Nothing => {}
            Coll::Set { size, zero, base } => {
                if *size > 0 {
                    v.push(Coll::Set { size: size - 1, zero: *zero, base: *base });
                }
                if *base > 0 {
                    v.push(Coll::Set { size: *size, zero: *zero, base: 0 });
                }
            }
            Coll::User { len, zero, zero_based, base } => {
                for l in shrink_u64(*len) {
                    v.push(Coll::User { len: l, zero: *zero, zero_based: *zero_based, base: *base });
                }
                if *base > 0 {
                    v.push(Coll::User { len: *len, zero: *zero, zero_based: *zero_based, base: 0 });
                }
            }
            Coll::Chain(m, a, b) => {
                v.push((**a).clone());
                v.push((**b).clone());
                v.extend(a.smaller().into_iter().map(|x| Coll::Chain(*m, Box::new(x), b.clone())));
                v.extend(b.smaller().into_iter().map(|x| Coll::Chain(*m, a.clone(), Box::new(x))));
            }
            Coll::Restrict(n, a) => {
                v.push((**a).clone());
                v.extend(shrink_u64(*n).into_iter().map(|k| Coll::Restrict(k, a.clone())));
                v.extend(a.smaller().into_iter().map(|x| Coll::Restrict(*n, Box::new(x))));
            }
            Coll::OneBased(m, a) => {
                v.push((**a).clone());
                v.extend(a.smaller().into_iter().map(|x| Coll::OneBased(*m, Box::new(x))));
            }
        }
        v
    }
}

/// The longest restriction a `usize` can express.
fn clamped(n: u64) -> usize {
    usize::try_from(n).unwrap_or(usize::MAX)
}

pub fn shrink_u64(n: u64) -> Vec<u64> {
    let mut v = vec![0, 1, 2, n / 16, n / 2, n.saturating_sub(1)];
    v.retain(|x| *x < n);
    v.dedup();
    v
}

fn flat(s: Sys) -> (&'static [char], bool, bool, bool) {
    match s {
        Sys::B(i) => model::flat_builtin(i),
        Sys::Zh(_) => panic!("not a digit collection"),
    }
}

/// Built-in collections that are not fixed.
pub fn plain_builtins() -> Vec<Sys> {
    (0..COLLECTIONS)
        .filter(|i| !NAMES[*i].starts_with("CjkH") && !NAMES[*i].starts_with("CjkE"))
        .map(|i| Sys::B(i as u8))
        .collect()
}

// ------------------------------------------------------- the real objects

/// Object-safe view of a DigitCollection.
pub trait ObjColl {
    fn o_fixed(&self) -> bool;
    fn o_has_zero_digit(&self) -> bool;
    fn o_zero_based(&self) -> bool;
    fn o_len(&self) -> usize;
    fn o_digit(&self, i: usize) -> char;
}
impl<D: DigitCollection> ObjColl for D {
    fn o_fixed(&self) -> bool {
        self.fixed()
    }
    fn o_has_zero_digit(&self) -> bool {
        self.has_zero_digit()
    }
    fn o_zero_based(&self) -> bool {
        self.zero_based()
    }
    fn o_len(&self) -> usize {
        self.len()
    }
    fn o_digit(&self, i: usize) -> char {
        self.digit(i)
    }
}

/// An erased collection whose fallback is `F`.
pub struct Obj<F = NoFallback>(pub Rc<dyn ObjColl>, PhantomData<F>);
impl<F> Obj<F> {
    pub fn new(d: impl ObjColl + 'static) -> Self {
        Obj(Rc::new(d), PhantomData)
    }
}
impl<F: DigitCollection + Default> DigitCollection for Obj<F> {
    type Fallback = F;
    fn fixed(&self) -> bool {
        (*self.0).o_fixed()
    }
    fn has_zero_digit(&self) -> bool {
        (*self.0).o_has_zero_digit()
    }
    fn zero_based(&self) -> bool {
        (*self.0).o_zero_based()
    }
    fn len(&self) -> usize {
        (*self.0).o_len()
    }
    fn digit(&self, i: usize) -> char {
        (*self.0).o_digit(i)
    }
}

/// A collection as a user of the crate would write it.
#[derive(Clone)]
pub struct UserColl<F> {
    pub len: u64,
    pub zero: bool,
    pub zero_based: bool,
    pub fixed: bool,
    pub base: u32,
    pub fallback: PhantomData<F>,
}
impl<F: DigitCollection + Default> DigitCollection for UserColl<F> {
    type Fallback = F;
    fn fixed(&self) -> bool {
        self.fixed
    }
    fn has_zero_digit(&self) -> bool {
        self.zero
    }
    fn zero_based(&self) -> bool {
        self.zero_based
    }
    fn len(&self) -> usize {
        self.len as usize
    }
    fn digit(&self, i: usize) -> char {
        assert!((i as u64) < self.len, "digit({i}) of a collection of {}", self.len);
        symbol(self.base, i as u64)
    }
}

macro_rules! set_of_size {
    ($size:expr, $zero:expr, $base:expr, $($i:literal => $n:literal),*) => {
        match $size {
            $($i => if $zero {
                Obj::new(DigitSet::<$n, true>::new(std::array::from_fn(|i| symbol($base, i as u64))))
            } else {
                Obj::new(DigitSet::<$n, false>::zeroless(std::array::from_fn(|i| symbol($base, i as u64))))
            },)*
            _ => unreachable!(),
        }
    };
}

/// What `f` does with the concrete top-level type of a tree.
pub trait Visit {
    type Out;
    fn visit<D: DigitCollection>(self, d: D) -> Self::Out;
}


pub fn build(c: &Coll) -> Obj {
    match c {
        Coll::Builtin(s) => builtin_obj(*s),
        Coll::Set { size, zero, base } => set_of_size!(*size, *zero, *base,
            0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 4, 5 => 5, 6 => 7, 7 => 8, 8 => 9, 9 => 10,
            10 => 11, 11 => 12, 12 => 16, 13 => 26, 14 => 36, 15 => 64, 16 => 100, 17 => 255,
            18 => 256, 19 => 257, 20 => 300, 21 => 1000),
        Coll::Nothing => Obj::new(NoFallback),
        Coll::User { len, zero, zero_based, base } => Obj::new(user::<NoFallback>(*len, *zero, *zero_based, false, *base)),
        Coll::Chain(true, a, b) => Obj::new(build(a).and(build(b))),
        Coll::Chain(false, a, b) => Obj::new(Chain::new(build(a), build(b))),
        Coll::Restrict(n, a) => Obj::new(Restrict::new(clamped(*n), build(a))),
        Coll::OneBased(true, a) => Obj::new(build(a).one_based()),
        Coll::OneBased(false, a) => Obj::new(OneBased::new(build(a))),
    }
}

/// Visits the tree with its outermost constructor as a concrete type.
pub fn visit<V: Visit>(c: &Coll, v: V) -> V::Out {
    match c {
        Coll::Chain(true, a, b) => v.visit(build(a).and(build(b))),
        Coll::Chain(false, a, b) => v.visit(Chain::new(build(a), build(b))),
        Coll::Restrict(n, a) => v.visit(Restrict::new(clamped(*n), build(a))),
        Coll::OneBased(true, a) => v.visit(build(a).one_based()),
        Coll::OneBased(false, a) => v.visit(OneBased::new(build(a))),
        Coll::Nothing => v.visit(NoFallback),
        _ => v.visit(build(c)),
    }
}

pub fn user<F>(len: u64, zero: bool, zero_based: bool, fixed: bool, base: u32) -> UserColl<F> {
    UserColl { len, zero, zero_based, fixed, base, fallback: PhantomData }
}

macro_rules! builtin_objs {
    ($($name:ident)*) => {
        fn builtin_obj(s: Sys) -> Obj {
            let Sys::B(i) = s else { panic!("not a collection") };
            match NAMES[i as usize] {
                $( stringify!($name) => Obj::new(nominals::$name), )*
                other => panic!("{other} is not a collection"),
            }
        }
    };
}
builtin_objs! {
    Decimal EasternArabic Persian Urdu Bengali Cambodian Khmer CjkDecimal Devanagari Gujarati
    Gurmukhi Kannada Lao Malayalam Mongolian Myanmar Oriya Tamil Telugu Thai Tibetan HexUpper
    HexLower LetterUpper LetterLower GreekUpper GreekLower Hiragana HiraganaIroha Katakana
    KatakanaIroha HangeulJamo HangeulSyllable CjkHeavenlyStem CjkEarthlyBranch
}

pub struct TryFormat<T>(pub T);
impl<T: Num> Visit for TryFormat<T> {
    type Out = (Result<NominalString, Error<T>>, NominalString);
    fn visit<D: DigitCollection>(self, d: D) -> Self::Out {
        (self.0.try_to_nominal(&d), d.format_nominal(self.0))
    }
}

// ------------------------------------------------------------ fixed ones

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fall {
    None,
    CjkDecimal,
    LetterLower,
    HexUpper,
    /// Fixed itself, falling back to CjkDecimal.
    Stem,
    /// Fixed itself, no fallback.
    ThreeFixed,
    /// One-based, not fixed, no zero.
    OneBasedAb,
    /// Chain<HexUpper, Thai>: the fallback is itself a chain.
    HexThai,
    /// Restrict<Decimal>'s default: restricted to nothing.
    Emptied,
    /// Chain<NoFallback, LetterLower>: not empty, though its first part is.
    LateLetters,
    /// A single zero digit: only 0 has a numeral.
    LoneZero,
    /// A single symbol, fixed itself, falling back to LetterLower.
    LoneFixed,
    /// A single symbol, repeated: as many as the nominal.
    Tally,
    /// More symbols than a u8 has values.
    Wide,
    /// Fixed, and falling back to itself. Not among FALLS: see the known
    /// findings of C19.
    Itself,
}
pub const FALLS: [Fall; 14] = [
    Fall::None,
    Fall::CjkDecimal,
    Fall::LetterLower,
    Fall::HexUpper,
    Fall::Stem,
    Fall::ThreeFixed,
    Fall::OneBasedAb,
    Fall::HexThai,
    Fall::Emptied,
    Fall::LateLetters,
    Fall::LoneZero,
    Fall::LoneFixed,
    Fall::Tally,
    Fall::Wide,
];

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum FixLeaf {
    Stem,
    Branch,
    User { len: u64, zero: bool, zero_based: bool, base: u32, fall: Fall },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Wrap {
    Bare,
    OneBased,
    Restrict(u64),
    OneBasedOfRestrict(u64),
    RestrictOfOneBased(u64),
    TwiceOneBased,
    RestrictTwice(u64, u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct FixColl {
    pub leaf: FixLeaf,
    pub wrap: Wrap,
}

pub struct ThreeFixed;
impl Default for ThreeFixed {
    fn default() -> Self {
        ThreeFixed
    }
}
impl DigitCollection for ThreeFixed {
    type Fallback = NoFallback;
    fn fixed(&self) -> bool {
        true
    }
    fn has_zero_digit(&self) -> bool {
        true
    }
    fn len(&self) -> usize {
        40
    }
    fn digit(&self, i: usize) -> char {
        assert!(i < 40);
        symbol(77, i as u64)
    }
}
#[derive(Default)]
pub struct OneBasedAb;
impl DigitCollection for OneBasedAb {
    type Fallback = NoFallback;
    fn has_zero_digit(&self) -> bool {
        false
    }
    fn zero_based(&self) -> bool {
        false
    }
    fn len(&self) -> usize {
        2
    }
    fn digit(&self, i: usize) -> char {
        ['A', 'B'][i]
    }
}

/// Single symbols, and too many for a u8.
macro_rules! fallback_collection {
    ($($name:ident, $fallback:ty, $fixed:expr, $zero:expr, $zero_based:expr, $len:expr, $base:expr;)*) => {$(
        #[derive(Default)]
        pub struct $name;
        impl DigitCollection for $name {
            type Fallback = $fallback;
            fn fixed(&self) -> bool {
                $fixed
            }
            fn has_zero_digit(&self) -> bool {
                $zero
            }
            fn zero_based(&self) -> bool {
                $zero_based
            }
            fn len(&self) -> usize {
                $len
            }
            fn digit(&self, i: usize) -> char {
                assert!(i < $len);
                symbol($base, i as u64)
            }
        }
    )*};
}
fallback_collection!(
    LoneZero, NoFallback, false, true, true, 1, 31;
    Itself, Itself, true, false, true, 3, 35;
    LoneFixed, LetterLower, true, false, true, 1, 32;
    Tally, NoFallback, false, false, false, 1, 33;
    WideLetters, NoFallback, false, false, true, 300, 34;
);

impl FixColl {
    /// The largest nominal to ask for.
    pub fn top(&self) -> u128 {
        match self.leaf {
            FixLeaf::User { fall: Fall::Tally, .. } if cfg!(feature = "alloc") => 3_000,
            _ => u128::MAX,
        }
    }
    fn leaf_rules(&self) -> (u64, bool, bool, Fall) {
        match &self.leaf {
            FixLeaf::Stem => (10, false, false, Fall::CjkDecimal),
            FixLeaf::Branch => (12, false, false, Fall::CjkDecimal),
            FixLeaf::User { len, zero, zero_based, fall, .. } => (*len, *zero, *zero_based, *fall),
        }
    }
    fn digit(&self, i: u64) -> char {
        match &self.leaf {
            FixLeaf::Stem => model::flat_builtin(sys_index("CjkHeavenlyStem")).0[i as usize],
            FixLeaf::Branch => model::flat_builtin(sys_index("CjkEarthlyBranch")).0[i as usize],
            FixLeaf::User { base, .. } => symbol(*base, i),
        }
    }
    /// (length, has zero digit, counts from zero)
    pub fn rules(&self) -> (u64, bool, bool) {
        let (len, zero, zero_based, _) = self.leaf_rules();
        let one = !matches!(self.wrap, Wrap::Bare | Wrap::Restrict(_) | Wrap::RestrictTwice(..));
        let len = match self.wrap {
            Wrap::Restrict(k) | Wrap::OneBasedOfRestrict(k) | Wrap::RestrictOfOneBased(k) => len.min(k),
            Wrap::RestrictTwice(j, k) => len.min(j).min(k),
            _ => len,
        };
        (len, zero, zero_based && !one)
    }
    pub fn in_range(&self, n: u128) -> bool {
        let (len, zero, zero_based) = self.rules();
        if zero || zero_based {
            n < u128::from(len)
        } else {
            n <= u128::from(len)
        }
    }
    pub fn model(&self, n: u128, limit: usize, out: &mut String) -> M {
        out.clear();
        let (_, zero, zero_based) = self.rules();
        if self.in_range(n) {
            if !zero && !zero_based && n == 0 {
                return M::NoZero;
            }
            let i = if zero || zero_based { n } else { n - 1 };
            out.push(self.digit(i as u64));
            return M::Ok;
        }
        match self.leaf_rules().3 {
            Fall::None | Fall::Emptied => M::Oob,
            Fall::CjkDecimal => model::model(sys("CjkDecimal"), n, limit, out),
            Fall::LetterLower | Fall::LateLetters => model::model(sys("LetterLower"), n, limit, out),
            Fall::HexUpper => model::model(sys("HexUpper"), n, limit, out),
            Fall::Stem => model::model(sys("CjkHeavenlyStem"), n, limit, out),
            Fall::ThreeFixed => {
                if n < 40 {
                    out.push(symbol(77, n as u64));
                    M::Ok
                } else {
                    M::Oob
                }
            }
            Fall::HexThai => {
                let (hex, thai) = (flat(sys("HexUpper")).0, flat(sys("Thai")).0);
                let digit = |i: usize| if i < 16 { hex[i] } else { thai[i - 16] };
                model::collection(n, 26, true, true, limit, &digit, out)
            }
            Fall::LoneZero if n > 0 => M::Oob,
            Fall::LoneZero => {
                out.push(symbol(31, 0));
                M::Ok
            }
            Fall::LoneFixed if n == 0 => {
                out.push(symbol(32, 0));
                M::Ok
            }
            Fall::LoneFixed => model::model(sys("LetterLower"), n, limit, out),
            Fall::Itself if n < 3 => {
                out.push(symbol(35, n as u64));
                M::Ok
            }
            Fall::Itself => M::Oob,
            Fall::Tally => model::collection(n, 1, false, false, limit, &|_| symbol(33, 0), out),
            Fall::Wide => model::collection(n, 300, false, true, limit, &|i| symbol(34, i as u64), out),
            Fall::OneBasedAb => {
                model::collection(n, 2, false, false, limit, &|i| ['A', 'B'][i], out)
            }
        }
    }
    pub fn smaller(&self) -> Vec<FixColl> {
        let mut v = Vec::new();
        if self.wrap != Wrap::Bare {
            v.push(FixColl { wrap: Wrap::Bare, ..self.clone() });
        }
        let ks: Vec<Wrap> = match self.wrap {
            Wrap::Restrict(k) => shrink_u64(k).into_iter().map(Wrap::Restrict).collect(),
            Wrap::OneBasedOfRestrict(k) => std::iter::once(Wrap::OneBased)
                .chain(shrink_u64(k).into_iter().map(Wrap::OneBasedOfRestrict))
                .collect(),
            Wrap::RestrictOfOneBased(k) => std::iter::once(Wrap::OneBased)
                .chain(shrink_u64(k).into_iter().map(Wrap::RestrictOfOneBased))
                .collect(),
            Wrap::TwiceOneBased => vec![Wrap::OneBased],
            Wrap::RestrictTwice(j, k) => [Wrap::Restrict(j), Wrap::Restrict(k)]
                .into_iter()
                .chain(shrink_u64(j).into_iter().map(|j| Wrap::RestrictTwice(j, k)))
                .chain(shrink_u64(k).into_iter().map(|k| Wrap::RestrictTwice(j, k)))
                .collect(),
            _ => vec![],
        };
        v.extend(ks.into_iter().map(|wrap| FixColl { wrap, ..self.clone() }));
        if let FixLeaf::User { len, zero, zero_based, base, fall } = self.leaf.clone() {
            for l in shrink_u64(len) {
                v.push(FixColl {
                    leaf: FixLeaf::User { len: l, zero, zero_based, base, fall },
                    ..self.clone()
                });
            }
            if fall != Fall::None {
                v.push(FixColl {
                    leaf: FixLeaf::User { len, zero, zero_based, base, fall: Fall::None },
                    ..self.clone()
                });
            }
            if base != 0 {
                v.push(FixColl {
                    leaf: FixLeaf::User { len, zero, zero_based, base: 0, fall },
                    ..self.clone()
                });
            }
        }
        v
    }

    /// Visits the real collection with its concrete types.
    pub fn visit<V: Visit>(&self, v: V) -> V::Out {
        fn wrapped<D: DigitCollection, V: Visit>(d: D, w: Wrap, v: V) -> V::Out {
            match w {
                Wrap::Bare => v.visit(d),
                Wrap::OneBased => v.visit(d.one_based()),
                Wrap::Restrict(k) => v.visit(Restrict::new(clamped(k), d)),
                Wrap::OneBasedOfRestrict(k) => v.visit(Restrict::new(clamped(k), d).one_based()),
                Wrap::RestrictOfOneBased(k) => v.visit(Restrict::new(clamped(k), d.one_based())),
                Wrap::TwiceOneBased => v.visit(OneBased::new(OneBased::new(d))),
                Wrap::RestrictTwice(j, k) => v.visit(Restrict::new(clamped(j), Restrict::new(clamped(k), d))),
            }
        }
        match &self.leaf {
            FixLeaf::Stem => wrapped(CjkHeavenlyStem, self.wrap, v),
            FixLeaf::Branch => wrapped(CjkEarthlyBranch, self.wrap, v),
            FixLeaf::User { len, zero, zero_based, base, fall } => {
                let (l, z, zb, b) = (*len, *zero, *zero_based, *base);
                match fall {
                    Fall::None => wrapped(user::<NoFallback>(l, z, zb, true, b), self.wrap, v),
                    Fall::CjkDecimal => wrapped(user::<CjkDecimal>(l, z, zb, true, b), self.wrap, v),
                    Fall::LetterLower => wrapped(user::<LetterLower>(l, z, zb, true, b), self.wrap, v),
                    Fall::HexUpper => wrapped(user::<HexUpper>(l, z, zb, true, b), self.wrap, v),
                    Fall::Stem => wrapped(user::<Stem>(l, z, zb, true, b), self.wrap, v),
                    Fall::ThreeFixed => wrapped(user::<ThreeFixed>(l, z, zb, true, b), self.wrap, v),
                    Fall::OneBasedAb => wrapped(user::<OneBasedAb>(l, z, zb, true, b), self.wrap, v),
                    Fall::HexThai => wrapped(user::<Chain<HexUpper, Thai>>(l, z, zb, true, b), self.wrap, v),
                    Fall::Emptied => wrapped(user::<Restrict<Decimal>>(l, z, zb, true, b), self.wrap, v),
                    Fall::LateLetters => wrapped(user::<Chain<NoFallback, LetterLower>>(l, z, zb, true, b), self.wrap, v),
                    Fall::LoneZero => wrapped(user::<LoneZero>(l, z, zb, true, b), self.wrap, v),
                    Fall::LoneFixed => wrapped(user::<LoneFixed>(l, z, zb, true, b), self.wrap, v),
                    Fall::Itself => wrapped(user::<Itself>(l, z, zb, true, b), self.wrap, v),
                    Fall::Tally => wrapped(user::<Tally>(l, z, zb, true, b), self.wrap, v),
                    Fall::Wide => wrapped(user::<WideLetters>(l, z, zb, true, b), self.wrap, v),
                }
            }
        }
    }
}

/// CjkHeavenlyStem with Default, as a user would make it a fallback.
#[derive(Default)]
pub struct Stem;
impl DigitCollection for Stem {
    type Fallback = CjkDecimal;
    fn fixed(&self) -> bool {
        CjkHeavenlyStem.fixed()
    }
    fn has_zero_digit(&self) -> bool {
        CjkHeavenlyStem.has_zero_digit()
    }
    fn zero_based(&self) -> bool {
        CjkHeavenlyStem.zero_based()
    }
    fn len(&self) -> usize {
        CjkHeavenlyStem.len()
    }
    fn digit(&self, i: usize) -> char {
        CjkHeavenlyStem.digit(i)
    }
}

fn sys(name: &str) -> Sys {
    Sys::by_name(name).unwrap()
}
fn sys_index(name: &str) -> u8 {
    match sys(name) {
        Sys::B(i) => i,
        Sys::Zh(_) => unreachable!(),
    }
}
