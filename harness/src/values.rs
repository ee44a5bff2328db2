//! C28: collections and systems as values: copies, defaults, equality, hash.
use crate::num::Num;
use crate::colls::symbol;
use nominals::{Chain, DigitCollection, NoFallback, NominalSystem, OneBased, Restrict};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};

/// A small collection that compares by value.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Part {
    pub len: u8,
    pub zero: bool,
    pub base: u8,
}
impl DigitCollection for Part {
    type Fallback = NoFallback;
    fn has_zero_digit(&self) -> bool {
        self.zero
    }
    fn len(&self) -> usize {
        self.len.into()
    }
    fn digit(&self, i: usize) -> char {
        assert!(i < self.len.into());
        symbol(self.base.into(), i as u64)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Shape {
    Restrict,
    OneBased,
    Chain,
    RestrictChain,
    OneBasedRestrict,
    ChainRestrictOneBased,
    ChainOneBased,
    RestrictTwice,
    OneBasedTwice,
    /// The four Chinese systems, by their builder histories.
    Simplified(bool),
    Traditional(bool),
}
pub const SHAPES: [Shape; 13] = [
    Shape::Restrict,
    Shape::OneBased,
    Shape::Chain,
    Shape::RestrictChain,
    Shape::OneBasedRestrict,
    Shape::ChainRestrictOneBased,
    Shape::ChainOneBased,
    Shape::RestrictTwice,
    Shape::OneBasedTwice,
    Shape::Simplified(false),
    Shape::Simplified(true),
    Shape::Traditional(false),
    Shape::Traditional(true),
];

/// What a value is made of: two parts and two lengths, or options.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Made {
    pub parts: [Part; 2],
    pub cuts: [u64; 2],
    pub opts: Vec<u8>,
}

impl Made {
    fn options(&self) -> (bool, u8) {
        let fin = self.opts.iter().any(|o| o % 5 == 0);
        let scale = self.opts.iter().rev().map(|o| o % 5).find(|o| (1..=3).contains(o)).unwrap_or(0);
        (fin, scale)
    }
    /// Whether two values of a shape are made of the same things.
    pub fn same(&self, o: &Made, shape: Shape) -> bool {
        let [p, q] = self.parts;
        let [x, y] = o.parts;
        let cut = self.cuts[0] == o.cuts[0];
        match shape {
            Shape::Restrict | Shape::OneBasedRestrict => p == x && cut,
            Shape::OneBased | Shape::OneBasedTwice => p == x,
            Shape::Chain | Shape::ChainOneBased => p == x && q == y,
            Shape::RestrictChain | Shape::ChainRestrictOneBased => p == x && q == y && cut,
            Shape::RestrictTwice => p == x && self.cuts == o.cuts,
            Shape::Simplified(_) | Shape::Traditional(_) => self.options() == o.options(),
        }
    }
}

const PROBES: [u32; 12] = [0, 1, 2, 3, 5, 8, 13, 40, 255, 100_000, 110_010, 1_000_000_000];

fn texts<S: NominalSystem<T> + NominalSystem<u32>, T: Num>(s: &S, n: T) -> Vec<String> {
    // A one-symbol alphabet writes as many symbols as the nominal.
    let short = s.format_nominal(40u32).len() < 40;
    let mut v = Vec::new();
    if short || n.wide() <= 40 {
        v.push(super::cases::show(&s.try_format_nominal(n)));
        v.push(s.format_nominal(n).to_string());
    }
    v.extend(PROBES.iter().filter(|p| short || **p <= 40).map(|p| super::cases::show(&s.try_format_nominal(*p))));
    v
}

fn values<S, T>(a: S, b: S, same: bool, n: T) -> Result<(), String>
where
    S: NominalSystem<T> + NominalSystem<u32> + Copy + PartialEq + Debug,
    T: Num,
{
    let copy = a;
    #[allow(clippy::clone_on_copy)]
    let clone = a.clone();
    let text = texts(&a, n);
    for (what, c) in [("a copy", &copy), ("a clone", &clone)] {
        if *c != a || !(*c == a) {
            return Err(format!("{what} of {a:?} is not equal to it"));
        }
        if texts(c, n) != text {
            return Err(format!("{what} of {a:?} gives {:?}, the original {text:?}", texts(c, n)));
        }
    }
    let equal = a == b;
    if (b == a) != equal || (a != b) == equal || (b != a) == equal {
        return Err(format!("{a:?} and {b:?}: == and != contradict each other"));
    }
    if same && !equal {
        return Err(format!("{a:?} and {b:?} are made of the same things, but not equal"));
    }
    let other = texts(&b, n);
    if equal && text != other {
        return Err(format!("{a:?} == {b:?}, but they give {text:?} and {other:?}"));
    }
    if same && text != other {
        return Err(format!("{a:?} and {b:?} are made of the same things, but give {text:?} and {other:?}"));
    }
    Ok(())
}

fn hashed<S: Hash + PartialEq + Debug>(a: S, b: S) -> Result<(), String> {
    let hash = |s: &S| {
        let mut h = DefaultHasher::new();
        s.hash(&mut h);
        h.finish()
    };
    if a == b && hash(&a) != hash(&b) {
        return Err(format!("{a:?} == {b:?}, but they hash differently"));
    }
    Ok(())
}

/// `Default` is the shape made of defaults.
fn default_is<S, T>(plain: S, n: T) -> Result<(), String>
where
    S: NominalSystem<T> + NominalSystem<u32> + Default + Copy + PartialEq + Debug,
    T: Num,
{
    values(S::default(), plain, true, n)
}

pub fn check<T: Num>(shape: Shape, a: &Made, b: &Made, n: T) -> Result<(), String> {
    let same = a.same(b, shape);
    macro_rules! both {
        (|$m:ident| $e:expr) => {{
            let make = |$m: &Made| $e;
            values(make(a), make(b), same, n)
        }};
    }
    macro_rules! chinese {
        ($t:ident) => {{
            let make = |m: &Made| {
                m.opts.iter().fold(nominals::$t::default(), |s, o| match o % 5 {
                    0 => s.financial(),
                    1 => s.short_scale(),
                    2 => s.mid_scale(),
                    3 => s.long_scale(),
                    _ => s,
                })
            };
            values(make(a), make(b), same, n)
        }};
    }
    let cut = |m: &Made, i: usize| usize::try_from(m.cuts[i]).unwrap_or(usize::MAX);
    match shape {
        Shape::Restrict => {
            default_is(Restrict::new(0, Part::default()), n)?;
            both!(|m| Restrict::new(cut(m, 0), m.parts[0]))
        }
        Shape::OneBased => {
            hashed(a.parts[0].one_based(), b.parts[0].one_based())?;
            both!(|m| m.parts[0].one_based())
        }
        Shape::Chain => {
            default_is(Chain::new(Part::default(), Part::default()), n)?;
            both!(|m| m.parts[0].and(m.parts[1]))
        }
        Shape::RestrictChain => {
            default_is(Restrict::new(0, Chain::<Part, Part>::default()), n)?;
            both!(|m| Restrict::new(cut(m, 0), Chain::new(m.parts[0], m.parts[1])))
        }
        Shape::OneBasedRestrict => both!(|m| OneBased::new(Restrict::new(cut(m, 0), m.parts[0]))),
        Shape::ChainRestrictOneBased => {
            both!(|m| Restrict::new(cut(m, 0), m.parts[0]).and(m.parts[1].one_based()))
        }
        Shape::ChainOneBased => both!(|m| OneBased::new(m.parts[0]).and(m.parts[1])),
        Shape::RestrictTwice => both!(|m| Restrict::new(cut(m, 0), Restrict::new(cut(m, 1), m.parts[0]))),
        Shape::OneBasedTwice => {
            let twice = |m: &Made| OneBased::new(OneBased::new(m.parts[0]));
            hashed(twice(a), twice(b))?;
            both!(|m| twice(m))
        }
        Shape::Simplified(false) => chinese!(SimplifiedChineseInformal),
        Shape::Simplified(true) => chinese!(SimplifiedChineseFormal),
        Shape::Traditional(false) => chinese!(TraditionalChineseInformal),
        Shape::Traditional(true) => chinese!(TraditionalChineseFormal),
    }
}
