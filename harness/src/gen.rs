//! Generators: how nominals, collections, symbol sets and histories are made.
//! All randomness comes from proptest.
use crate::cases::{Case, Shared, Wide, ADDITIVE_SIZES, ENUM_SIZES, SYMS};
use crate::values::{Made, Part, SHAPES};
use crate::colls::{self, Coll, FixColl, FixLeaf, Wrap, FALLS, SIZES};
use crate::model;
use crate::num::Ty;
use crate::strings::{Init, Op, Text, FORMS};
use crate::systems::Sys;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use std::path::Path;
use std::sync::OnceLock;

// ------------------------------------------------- numbers in the source

static DICT: OnceLock<Vec<u128>> = OnceLock::new();

/// Integer literals of the code under test: values it compares against are
/// where its behaviour can change. Only steers generation.
pub fn dictionary() -> &'static [u128] {
    DICT.get_or_init(|| {
        let src = Path::new(env!("CARGO_MANIFEST_DIR")).join("../../repo/src");
        let mut v: Vec<u128> = vec![
            1, 2, 9, 10, 11, 15, 16, 26, 27, 62, 63, 99, 100, 255, 256, 400, 999, 1_000, 4_000,
            9_999, 10_000, 65_535, 65_536, 1_000_000, 99_999_999, 100_000_000,
        ];
        v.extend((0..39).map(|k| 10u128.pow(k)));
        let mut files: Vec<_> = std::fs::read_dir(src)
            .map(|d| d.flatten().map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            if f.extension().is_some_and(|x| x == "rs") {
                if let Ok(text) = std::fs::read_to_string(&f) {
                    literals(&text, &mut v);
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    })
}

fn literals(text: &str, out: &mut Vec<u128>) {
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let start = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let tok: String = text[start..i].chars().filter(|c| *c != '_').collect();
            let tok = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
                .iter()
                .find_map(|s| tok.strip_suffix(s))
                .unwrap_or(&tok)
                .to_string();
            let n = if let Some(h) = tok.strip_prefix("0x") {
                u128::from_str_radix(h, 16).ok()
            } else if let Some(h) = tok.strip_prefix("0b") {
                u128::from_str_radix(h, 2).ok()
            } else if let Some(h) = tok.strip_prefix("0o") {
                u128::from_str_radix(h, 8).ok()
            } else {
                tok.parse().ok()
            };
            if let Some(n) = n {
                out.push(n);
                // A literal may also be an exponent or a digit count.
                if n < 39 {
                    out.push(10u128.pow(n as u32));
                }
                if n < 128 {
                    out.push(1 << n);
                }
            }
        } else {
            i += 1;
        }
    }
}

// ---------------------------------------------------------------- nominals

/// Raw material for one nominal; see [`Raw::nominal`].
#[derive(Clone, Copy, Debug)]
pub struct Raw {
    kind: u8,
    a: u128,
    b: u128,
    k: u8,
    d: u8,
}

pub fn raw() -> impl Strategy<Value = Raw> {
    (any::<u8>(), any::<u128>(), any::<u128>(), any::<u8>(), any::<u8>())
        .prop_map(|(kind, a, b, k, d)| Raw { kind, a, b, k, d })
}

fn bits(a: u128, k: u8) -> u128 {
    a >> (u32::from(k) % 128)
}

/// Takes values off a pool of random bits.
struct Pool(u128);
impl Pool {
    fn take(&mut self, n: u128) -> u128 {
        let r = self.0 % n;
        self.0 = (self.0 / n) ^ (r << 96);
        r
    }
}

impl Raw {
    /// A nominal in 0..=max, built around what `radix` makes special.
    pub fn nominal(self, radix: u128, max: u128) -> u128 {
        let dict = dictionary();
        let Raw { kind, a, b, k, d } = self;
        let pick = |x: u128| dict[(x % dict.len() as u128) as usize];
        let radix = radix.max(2);
        let delta = u128::from(d % 8);
        let near = |x: u128| {
            if d & 8 == 0 {
                x.wrapping_add(delta)
            } else {
                x.wrapping_sub(delta)
            }
        };
        let n = match kind % 16 {
            0 => a % 300,
            1 | 2 => bits(a, k),
            3 | 4 => digit_pattern(radix, &mut Pool(a), &mut Pool(b), k, max),
            5 => {
                let r = [10, 100, 1_000, 10_000, 16, 26, radix.saturating_mul(radix), 1_000_000][usize::from(d % 8)];
                digit_pattern(r, &mut Pool(a), &mut Pool(b), k, max)
            }
            6 => groups(10_000, &mut Pool(a), &mut Pool(b), k, max),
            7 => groups(100, &mut Pool(a), &mut Pool(b), k, max),
            8 => {
                // A few decimal places set, everything else zero.
                let mut p = Pool(b);
                let mut n = 0u128;
                for _ in 0..=(k % 5) {
                    let e = p.take(39) as u32;
                    n = n.wrapping_add(10u128.pow(e).wrapping_mul(1 + p.take(9)));
                }
                n
            }
            9 => {
                // Around a power, or around where an alphabetic label grows.
                let mut n = 1u128;
                let e = k % 64;
                for _ in 0..e {
                    n = if b & 1 == 0 { n.saturating_mul(radix) } else { n.saturating_mul(radix).saturating_add(radix) };
                    if n > max {
                        break;
                    }
                }
                near(n)
            }
            10 => near([u128::from(u8::MAX), u128::from(u16::MAX), u128::from(u32::MAX), u128::from(u64::MAX), u128::MAX, max][usize::from(k % 6)]),
            11 => near(pick(a)),
            12 => near(pick(a).wrapping_mul(pick(b))),
            13 => pick(a).wrapping_mul(1 + (b % 1000)).wrapping_add(pick(b >> 64)),
            14 => pick(a).wrapping_add(pick(b)).wrapping_add(if k & 1 == 0 { 0 } else { pick(b >> 32) }),
            _ => {
                let m = pick(a).max(1);
                (bits(b, k) / m).wrapping_mul(m).wrapping_add(delta)
            }
        };
        fit(n, max)
    }
}

fn fit(n: u128, max: u128) -> u128 {
    if n <= max {
        n
    } else if max == u128::MAX {
        n
    } else {
        n % (max + 1)
    }
}

/// Digits from {0, 1, radix-1, radix/2, anything}.
fn digit_pattern(radix: u128, classes: &mut Pool, digits: &mut Pool, k: u8, max: u128) -> u128 {
    let mut n = 0u128;
    let places = 1 + u32::from(k % 48);
    for _ in 0..places {
        let c = match classes.take(6) {
            0 | 1 => 0,
            2 => 1,
            3 => radix - 1,
            4 => radix / 2,
            _ => digits.take(radix),
        };
        let Some(m) = n.checked_mul(radix).and_then(|x| x.checked_add(c)) else { break };
        if m > max {
            break;
        }
        n = m;
    }
    n
}

/// Groups of `base` (100 or 10,000) whose decimal digits follow a mask of
/// zero and non-zero places.
fn groups(base: u128, classes: &mut Pool, digits: &mut Pool, k: u8, max: u128) -> u128 {
    let width = if base == 100 { 2 } else { 4 };
    let mut n = 0u128;
    for _ in 0..=(k % 20) {
        let mask = match classes.take(4) {
            0 => 0,
            _ => classes.take(1 << width),
        };
        let ones = classes.take(3) == 0;
        let mut g = 0;
        for p in 0..width {
            g *= 10;
            if mask >> p & 1 == 1 {
                g += if ones { 1 } else { 1 + digits.take(9) };
            }
        }
        let Some(m) = n.checked_mul(base).and_then(|x| x.checked_add(g)) else { break };
        if m > max {
            break;
        }
        n = m;
    }
    n
}

pub fn ty() -> impl Strategy<Value = Ty> {
    prop_oneof![
        1 => Just(Ty::u8),
        2 => Just(Ty::u16),
        2 => Just(Ty::u32),
        3 => Just(Ty::u64),
        4 => Just(Ty::u128),
        1 => Just(Ty::usize)
    ]
}

/// Symbols a purely additive numeral may need (the alloc build has no limit).
pub fn symbol_cap() -> u128 {
    if cfg!(feature = "alloc") {
        300
    } else {
        u128::MAX
    }
}

pub fn top(sys: Sys, ty: Ty) -> u128 {
    let cap = symbol_cap();
    let m = if cap == u128::MAX { u128::MAX } else { model::cap(sys, cap) };
    m.min(ty.max())
}

pub fn fmt(systems: Vec<Sys>) -> BoxedStrategy<Case> {
    (select(systems), ty(), raw())
        .prop_map(|(sys, ty, r)| {
            let n = r.nominal(model::radix(sys), top(sys, ty));
            Case::Fmt { sys, ty, n }
        })
        .boxed()
}

/// As [`fmt`], and now and then a numeral of up to [`model::FAR`] symbols.
pub fn fmt_far(systems: Vec<Sys>) -> BoxedStrategy<Case> {
    let long: Vec<Sys> = systems.iter().copied().filter(|s| model::cap(*s, 1) < u128::MAX).collect();
    if long.is_empty() || symbol_cap() == u128::MAX {
        return fmt(systems);
    }
    // The shorter the more of them.
    let far = (select(long), ty(), raw(), any::<u64>(), 0u8..9)
        .prop_map(|(sys, ty, r, p, octave)| {
            let max = model::cap(sys, (300 << octave).min(model::FAR)).min(ty.max());
            let n = match r.k % 4 {
                // Around a number of the largest symbol.
                0 => model::cap(sys, u128::from(p) % (300 << octave)).wrapping_add(u128::from(r.d % 8)).wrapping_sub(3),
                1 => u128::from(p),
                2 => max.saturating_sub(u128::from(r.d)),
                _ => return Case::Fmt { sys, ty, n: r.nominal(model::radix(sys), max) },
            };
            Case::Fmt { sys, ty, n: fit(n, max) }
        })
        .boxed();
    prop_oneof![250 => fmt(systems), 1 => far].boxed()
}

pub fn pair(systems: Vec<Sys>) -> BoxedStrategy<Case> {
    (select(systems), raw(), raw(), 0u8..8, 0u16..300)
        .prop_map(|(sys, r, r2, how, far)| {
            let far = if far == 0 && symbol_cap() < u128::MAX { model::cap(sys, model::FAR) } else { 0 };
            let max = top(sys, Ty::u128).max(far);
            let a = r.nominal(model::radix(sys), max);
            let digits = a.max(1).ilog10() + 1;
            let p = 10u128.pow(u32::from(r2.k) % digits);
            let b = match how {
                0 => r2.nominal(model::radix(sys), max),
                // Insert a zero digit.
                1 => (a / p).saturating_mul(p).saturating_mul(10).saturating_add(a % p),
                // Remove a digit.
                2 => a / p / 10 * p + a % p,
                3 => a.saturating_add(p),
                4 => a - a / p % 10 * p,
                5 => a.saturating_mul(10),
                // Swap two neighbouring digits.
                6 => {
                    let hi = a / p / 10 % 10;
                    let lo = a / p % 10;
                    let tens = p.saturating_mul(10);
                    (a - hi.saturating_mul(tens) - lo * p).saturating_add(lo.saturating_mul(tens)).saturating_add(hi * p)
                }
                _ => a ^ (1 << (r2.k % 128)),
            };
            Case::Pair { sys, a, b: fit(b, max) }
        })
        .boxed()
}

// ------------------------------------------------------------- collections

fn length() -> impl Strategy<Value = u64> {
    prop_oneof![
        4 => 0u64..40,
        2 => select(vec![255u64, 256, 257, 65_535, 65_536, 65_537, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 62]),
        1 => 40u64..100_000,
    ]
}

pub fn leaf() -> impl Strategy<Value = Coll> {
    prop_oneof![
        4 => select(colls::plain_builtins()).prop_map(Coll::Builtin),
        1 => Just(Coll::Nothing),
        6 => (0..SIZES.len() as u8, any::<bool>(), 0u32..5000)
            .prop_map(|(size, zero, base)| Coll::Set { size, zero, base }),
        6 => (length(), any::<bool>(), any::<bool>(), 0u32..5000)
            .prop_map(|(len, zero, zero_based, base)| Coll::User { len, zero, zero_based, base }),
    ]
}

pub fn coll() -> impl Strategy<Value = Coll> {
    leaf().prop_recursive(4, 12, 2, |inner| {
        prop_oneof![
            3 => (any::<bool>(), inner.clone(), inner.clone()).prop_map(|(m, a, b)| {
                // Lengths must add up in a usize.
                let cut = |c: Coll| if c.checked_len().is_none_or(|l| l > 1 << 61) {
                    Coll::Restrict(1 << 60, Box::new(c))
                } else { c };
                Coll::Chain(m, Box::new(cut(a)), Box::new(cut(b)))
            }),
            3 => (any::<u16>(), 0u8..8, inner.clone()).prop_map(|(k, how, a)| {
                let len = a.checked_len().unwrap_or(1 << 60);
                let k = u64::from(k);
                let n = match how {
                    0 => k % 4,
                    1 => len,
                    2 => len.saturating_sub(1 + k % 3),
                    3 => len.saturating_add(k % 5),
                    4 | 5 => k % (len.min(70_000) + 1),
                    6 => 255 + k % 3,
                    _ => k,
                };
                Coll::Restrict(n, Box::new(a))
            }),
            2 => (any::<bool>(), inner).prop_map(|(m, a)| Coll::OneBased(m, Box::new(a))),
        ]
    })
}

/// One-symbol alphabets write one symbol per unit.
fn coll_top(c: &Coll, ty: Ty) -> u128 {
    let max = ty.max();
    if cfg!(feature = "alloc") && c.checked_len() == Some(1) && !c.has_zero() {
        max.min(3_000)
    } else {
        max
    }
}

pub fn coll_case() -> BoxedStrategy<Case> {
    (coll(), ty(), raw(), any::<u64>())
        .prop_map(|(coll, ty, r, at)| {
            let len = coll.checked_len().unwrap_or(10);
            let n = r.nominal(u128::from(len), coll_top(&coll, ty));
            Case::Coll { coll, ty, n, at }
        })
        .boxed()
}

pub fn one_based_case() -> BoxedStrategy<Case> {
    (prop_oneof![2 => leaf().boxed(), 1 => coll().boxed()], ty(), raw(), 0u8..4)
        .prop_map(|(coll, ty, r, bias)| {
            // Mostly collections one_based() has an effect on.
            let coll = match coll {
                Coll::Set { size, base, .. } if bias > 0 => Coll::Set { size, zero: false, base },
                Coll::User { len, base, .. } if bias > 0 => {
                    Coll::User { len, zero: false, zero_based: true, base }
                }
                c => c,
            };
            let len = coll.checked_len().unwrap_or(10);
            let n = r.nominal(u128::from(len), coll_top(&coll, ty));
            Case::Coll { coll, ty, n, at: 0 }
        })
        .boxed()
}

pub fn fixed_case() -> BoxedStrategy<Case> {
    let leaf = prop_oneof![
        1 => Just(FixLeaf::Stem),
        1 => Just(FixLeaf::Branch),
        4 => (length(), any::<bool>(), any::<bool>(), 0u32..5000, select(FALLS.to_vec()))
            .prop_map(|(len, zero, zero_based, base, fall)| FixLeaf::User { len, zero, zero_based, base, fall }),
    ];
    let wrap = (0u8..10, 0u8..4, any::<u16>());
    (leaf, wrap, ty(), raw(), 0u8..6)
        .prop_map(|(leaf, (w, how, k), ty, r, near)| {
            let len = match &leaf {
                FixLeaf::Stem => 10,
                FixLeaf::Branch => 12,
                FixLeaf::User { len, .. } => *len,
            };
            let k = u64::from(k);
            let k = match how {
                0 => k % (len.min(70_000) + 2),
                1 => len.saturating_sub(k % 3),
                2 => len.saturating_add(k % 4),
                _ => k % 300,
            };
            let wrap = match w {
                0 | 1 => Wrap::Bare,
                2 => Wrap::OneBased,
                3 | 4 => Wrap::Restrict(k),
                5 => Wrap::OneBasedOfRestrict(k),
                6 => Wrap::RestrictOfOneBased(k),
                7 => Wrap::RestrictTwice(k, len.saturating_sub(u64::from(near))),
                8 => Wrap::RestrictTwice(len.saturating_sub(u64::from(near)), k),
                _ => Wrap::TwiceOneBased,
            };
            let coll = FixColl { leaf, wrap };
            let (len, ..) = coll.rules();
            let max = ty.max().min(coll.top());
            let n = match near {
                0 | 1 => fit(u128::from(len).wrapping_add(r.a % 5).saturating_sub(2), max),
                2 => fit(r.a % (u128::from(len) + 2), max),
                _ => r.nominal(u128::from(len), max),
            };
            Case::Fixed { coll, ty, n }
        })
        .boxed()
}

// ---------------------------------------------------------------- additive

/// A strictly descending set: weights from steps and ratios, sometimes with a
/// zero and sometimes without a unit.
fn additive_set() -> impl Strategy<Value = Vec<(u8, Wide)>> {
    prop_oneof![15 => short_additive_set().boxed(), 1 => long_additive_set().boxed()]
}

/// As many symbols as no built-in set has: consecutive, evenly spaced or
/// unevenly spaced values from some start, sometimes up to a type's limit.
fn long_additive_set() -> impl Strategy<Value = Vec<(u8, Wide)>> {
    (select(ADDITIVE_SIZES.to_vec()), 0u8..5, any::<u16>(), any::<bool>(), any::<u8>()).prop_map(|(len, how, k, zero, s)| {
        let n = len as u128;
        let step = match how {
            0 | 1 => 1,
            2 => 1 + u128::from(k) % 9,
            _ => 1 + u128::from(k),
        };
        let start = match how {
            0 | 2 | 3 => 1,
            1 => 1 + u128::from(k),
            _ => [u128::from(u8::MAX), u128::from(u16::MAX), u128::from(u32::MAX), u128::from(u64::MAX), u128::MAX]
                [usize::from(k) % 5]
                .saturating_sub(n * step)
                .max(1),
        };
        // Not the symbol that is longer than the inline buffer, mostly.
        let symbol = |i: u128| ((u128::from(s) + i) % (SYMS.len() as u128 - u128::from(s % 8 > 0))) as u8;
        let mut v: Vec<_> =
            (0..n).rev().map(|i| (symbol(i), Wide(start + i * step + if how == 3 { i * i } else { 0 }))).collect();
        if zero {
            v.pop();
            v.push((s % SYMS.len() as u8, Wide(0)));
        }
        v
    })
}

fn short_additive_set() -> impl Strategy<Value = Vec<(u8, Wide)>> {
    (
        vec((0..SYMS.len() as u8, 0u8..6, any::<u16>()), 0..9),
        any::<bool>(),
        0u8..4,
        0..SYMS.len() as u8,
    )
        .prop_map(|(steps, zero, unit, zero_symbol)| {
            let mut v: Vec<(u8, Wide)> = Vec::new();
            // Built from the smallest up.
            let mut value = 0u128;
            for (i, (s, how, k)) in steps.iter().enumerate() {
                let k = u128::from(*k);
                let next = if i == 0 {
                    if unit > 0 { 1 } else { 1 + k % 40 }
                } else {
                    match how {
                        0 => value.saturating_add(1),
                        1 => value.saturating_add(1 + k % 50),
                        2 => value.saturating_mul(2 + k % 3),
                        3 => value.saturating_mul(10),
                        4 => value.saturating_mul(1 + k),
                        _ => value.saturating_mul(1 + k).saturating_mul(1 + k),
                    }
                };
                if next <= value {
                    break;
                }
                value = next;
                v.push((*s, Wide(value)));
            }
            v.reverse();
            if zero {
                v.push((zero_symbol, Wide(0)));
            }
            v
        })
}

pub fn additive_case() -> BoxedStrategy<Case> {
    (additive_set(), ty(), raw(), vec(0u8..5, 10), 0u8..4)
        .prop_map(|(set, ty, r, mut counts, how)| {
            // Some of many.
            let at = r.a as usize % (set.len() + 1).saturating_sub(5).max(1);
            if set.len() > 10 && at > 0 {
                counts.splice(0..0, vec![0; at]);
            }
            let max = ty.max();
            let first = set.iter().find(|s| s.1 .0 <= max).map_or(1, |s| s.1 .0.max(1));
            let cap = if cfg!(feature = "alloc") { first.saturating_mul(150).min(max) } else { max };
            let n = match how {
                // A sum of the set's own symbols, sometimes one off.
                0 | 1 => {
                    let mut n = 0u128;
                    for (c, (_, v)) in counts.iter().zip(&set) {
                        n = n.saturating_add(v.0.saturating_mul(u128::from(*c)));
                    }
                    fit(n.saturating_add(u128::from(how) * (r.a % 3)), cap)
                }
                _ => r.nominal(first, cap),
            };
            let set = bounded(set, n);
            Case::Additive { set, ty, n }
        })
        .boxed()
}

/// Drops symbols until the decomposition is of manageable length (a hugely
/// spread set can still need many small symbols).
fn bounded(mut set: Vec<(u8, Wide)>, n: u128) -> Vec<(u8, Wide)> {
    loop {
        let symbols: Vec<(&str, u128)> = set.iter().map(|s| (SYMS[s.0 as usize], s.1 .0)).collect();
        if model::additive_steps(&symbols, n, cfg!(feature = "alloc")) <= 20_000 {
            return set;
        }
        // The smallest positive symbol is the one repeated too often.
        match set.iter().rposition(|s| s.1 .0 > 0) {
            Some(i) => {
                set.remove(i);
            }
            None => return set,
        }
    }
}

pub fn additive_new_case() -> BoxedStrategy<Case> {
    (additive_set(), vec((any::<u8>(), any::<u8>(), 0u8..5), 0..4))
        .prop_map(|(set, edits)| {
            let mut values: Vec<Wide> = set.into_iter().map(|s| s.1).collect();
            for (i, j, how) in edits {
                if values.is_empty() {
                    break;
                }
                let len = values.len();
                let (i, j) = (usize::from(i) % len, usize::from(j) % len);
                match how {
                    0 => values.swap(i, j),
                    1 => values[i] = values[j],
                    2 if len != 10 => values.insert(i, values[j]),
                    3 => values[i] = Wide(values[i].0.saturating_add(1)),
                    _ => values[i] = Wide(0),
                }
            }
            Case::AddNew { values }
        })
        .boxed()
}

pub fn enumerated_case() -> BoxedStrategy<Case> {
    (0..ENUM_SIZES.len() as u8, any::<bool>(), ty(), raw(), 0u8..4, 0u128..8)
        .prop_map(|(len, zero, ty, r, how, d)| {
            let size = ENUM_SIZES[len as usize] as u128;
            let n = match how {
                0 | 1 => fit((size + 4).saturating_sub(d), ty.max()),
                // The index wraps into range if the value is truncated.
                2 => fit((1u128 << [8, 16, 32, 64][(r.k % 4) as usize]).wrapping_add(r.a % (size + 2)), ty.max()),
                _ => r.nominal(size.max(2), ty.max()),
            };
            Case::Enumerated { len, zero, ty, n }
        })
        .boxed()
}

pub fn options_case() -> BoxedStrategy<Case> {
    (any::<bool>(), any::<bool>(), vec(0u8..5, 0..7), ty(), raw())
        .prop_map(|(trad, formal, opts, ty, r)| {
            let n = r.nominal(10, ty.max());
            Case::Options { trad, formal, opts, ty, n }
        })
        .boxed()
}

/// Two values of one type, mostly made of the same things or nearly so.
pub fn values_case() -> BoxedStrategy<Case> {
    let part = || (0u8..9, any::<bool>(), 0u8..4).prop_map(|(len, zero, base)| Part { len, zero, base });
    // Also lengths that differ only in their high bits.
    let cut = || (0u64..10, prop_oneof![3 => Just(0u64), 1 => select(vec![1u64 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63])]).prop_map(|(k, high)| high + k);
    let made = (part(), part(), [cut(), cut()], vec(0u8..5, 0..5));
    let other = (part(), part(), (0u8..4, [cut(), cut()]), vec(0u8..5, 0..5));
    (select(SHAPES.to_vec()), made, other, any::<u8>(), ty(), raw())
        .prop_map(|(shape, (p, q, cuts, opts), (x, y, (keep, other_cuts), other_opts), change, ty, r)| {
            let a = Made { parts: [p, q], cuts, opts };
            let mut b = a.clone();
            if change & 1 == 1 {
                b.parts[0] = x;
            }
            if change & 6 == 2 {
                b.parts[1] = y;
            }
            if change & 24 == 8 {
                b.cuts = if keep == 0 { cuts.map(|c| c % 16) } else { other_cuts };
            }
            if change & 32 == 32 {
                b.opts = other_opts;
            }
            if change & 192 == 64 {
                // Options that come to the same.
                b.opts.insert(0, 1 + change % 3);
                b.opts.push(4);
            }
            let n = r.nominal(u128::from(p.len.max(2)), ty.max());
            Case::Values { shape, a, b, ty, n }
        })
        .boxed()
}

pub fn err_case() -> BoxedStrategy<Case> {
    (0u8..4, ty(), raw(), raw(), text(80))
        .prop_map(|(kind, ty, r, r2, text)| {
            let mut text = text;
            while !cfg!(feature = "alloc") && text.len() > 62 {
                text.pop();
            }
            let n = r.nominal(10, ty.max());
            let asked = r2.nominal(10, ty.max());
            Case::ErrValue { kind, ty, n, asked, text }
        })
        .boxed()
}

pub fn pointer_case(systems: Vec<Sys>) -> BoxedStrategy<Case> {
    (select(systems), vec(0u8..3, 0..5), ty(), raw(), 0u8..6, any::<bool>())
        .prop_map(|(sys, layers, ty, r, user, ok)| {
            if user == 0 {
                let n = r.nominal(10, ty.max());
                return Case::PointerUser { layers, ok, ty, n };
            }
            let n = r.nominal(model::radix(sys), top(sys, ty));
            Case::Pointer { sys, layers, ty, n }
        })
        .boxed()
}

// ------------------------------------------------------------------ strings

pub fn ch() -> impl Strategy<Value = char> {
    prop_oneof![
        4 => prop::char::range('a', 'z'),
        2 => prop::char::range('\u{1}', '\u{7f}'),
        3 => prop::char::range('\u{80}', '\u{7ff}'),
        3 => prop::char::range('\u{800}', '\u{d7ff}'),
        1 => prop::char::range('\u{e000}', '\u{ffff}'),
        3 => prop::char::range('\u{10000}', '\u{10ffff}'),
        1 => select(vec!['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{305}']),
    ]
}

/// Texts with lengths pulled towards the inline capacity.
pub fn text(max: usize) -> BoxedStrategy<String> {
    let any_text = vec(ch(), 0..max.min(24)).prop_map(|v| v.into_iter().collect::<String>());
    let near = (vec(ch(), 1..4), 50usize..75, any::<bool>()).prop_map(move |(cs, target, pad)| {
        let target = target.min(max);
        let mut s = String::new();
        for c in cs.iter().cycle() {
            if s.len() + c.len_utf8() > target {
                break;
            }
            s.push(*c);
        }
        while pad && s.len() < target {
            s.push('p');
        }
        s
    });
    let long = (ch(), select(vec![100usize, 127, 128, 250, 255, 256, 257, 300])).prop_map(move |(c, n)| {
        let mut s = String::new();
        while s.len() < n.min(max) {
            s.push(c);
        }
        s
    });
    if max <= 300 {
        return prop_oneof![4 => any_text.boxed(), 3 => near.boxed(), 1 => long.boxed()].boxed();
    }
    // Where a length that is kept in too few bits comes back into range, and
    // around whatever lengths the source names.
    let wrapped = (ch(), 0usize..4, 0usize..70, any::<u16>()).prop_map(move |(c, how, d, k)| {
        let dict = dictionary();
        let n = match how {
            0 => 256 * (1 + usize::from(k % 8)) + d,
            1 => 65_536 + d,
            2 => dict[usize::from(k) % dict.len()].min(70_000) as usize + d % 5,
            _ => usize::from(k % 8_192),
        };
        let n = n.min(max);
        let mut s = String::new();
        while s.len() + c.len_utf8() <= n {
            s.push(c);
        }
        while s.len() < n {
            s.push('-');
        }
        s
    });
    prop_oneof![50 => text(300), 1 => wrapped.boxed()].boxed()
}

fn push_op(max_str: usize) -> BoxedStrategy<Op> {
    prop_oneof![
        4 => ch().prop_map(Op::Push),
        4 => ch().prop_map(Op::PushFront),
        3 => text(max_str).prop_map(Op::PushStr),
    ]
    .boxed()
}

fn any_op(max_str: usize) -> BoxedStrategy<Op> {
    prop_oneof![
        12 => push_op(max_str),
        1 => Just(Op::Upper),
        1 => Just(Op::Lower),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::UpperPart(a, b)),
        1 => Just(Op::Clone),
        1 => Just(Op::CloneSwap),
        1 => text(90).prop_map(Op::CloneFrom),
        1 => Just(Op::ThroughString),
        1 => Just(Op::TryInto),
        1 => Just(Op::ThroughStr),
    ]
    .boxed()
}

/// Runs of single-character pushes, to fill the buffer gradually.
fn ops(op: BoxedStrategy<Op>, max: usize) -> BoxedStrategy<Vec<Op>> {
    let run = (ch(), ch(), 1usize..40, any::<u64>()).prop_map(|(a, b, n, bits)| {
        (0..n)
            .map(|i| {
                let c = if bits >> (i % 61) & 1 == 0 { a } else { b };
                if bits >> ((i * 7 + 3) % 64) & 1 == 0 { Op::Push(c) } else { Op::PushFront(c) }
            })
            .collect::<Vec<_>>()
    });
    (vec(op.clone(), 0..max), run, 0u8..3, vec(op, 0..max))
        .prop_map(|(mut a, run, with_run, b)| {
            if with_run == 0 {
                a.extend(run);
            }
            a.extend(b);
            a
        })
        .boxed()
}

pub fn init(formatted: Vec<Sys>, max: usize) -> BoxedStrategy<Init> {
    prop_oneof![
        2 => Just(Init::New),
        3 => Just(Init::NewReverse),
        1 => Just(Init::Default),
        1 => ch().prop_map(Init::Char),
        3 => text(max).prop_map(Init::Str),
        2 => text(max).prop_map(Init::Owned),
        1 => text(max).prop_map(Init::Ref),
        2 => (select(formatted), ty(), raw()).prop_map(|(s, t, r)| {
            Init::Formatted(s, t, r.nominal(model::radix(s), top(s, t)))
        }),
    ]
    .boxed()
}

pub fn history_case() -> BoxedStrategy<Case> {
    (init(Sys::all(), 70_000), ops(any_op(70_000), 7)).prop_map(|(init, ops)| Case::History { init, ops }).boxed()
}

/// For Miri: the same, kept short.
pub fn short_history() -> BoxedStrategy<Case> {
    let systems = Sys::named(&[
        "Decimal", "LetterLower", "Hiragana", "Ethiopic", "Hebrew", "CjkDecimal", "CircledNumber",
        "Georgian", "Tibetan",
    ]);
    (init(systems, 300), vec(any_op(80), 1..8)).prop_map(|(init, ops)| Case::History { init, ops }).boxed()
}

pub fn twins_case() -> BoxedStrategy<Case> {
    let seed = prop_oneof![2 => Just(String::new()).boxed(), 1 => ch().prop_map(|c| c.to_string()).boxed(), 3 => text(90)];
    let op = prop_oneof![10 => push_op(2_000), 1 => Just(Op::CloneSwap).boxed()].boxed();
    (seed, ops(op, 7)).prop_map(|(seed, ops)| Case::Twins { seed, ops }).boxed()
}

/// A width or precision, sometimes one that does not fit a byte.
fn amount(usual: u16) -> impl Strategy<Value = u16> {
    prop_oneof![
        60 => 0..usual,
        1 => select(vec![255u16, 256, 257, 300, 318, 511, 512, 574, 1_000, 1_024, 4_096, 65_535]),
    ]
}

pub fn texts_case() -> BoxedStrategy<Case> {
    (text(1_000), text(1_000), text(90), vec(0..FORMS, 3), 0u8..8, any::<u8>(), ch(), amount(110), amount(80))
        .prop_map(|(a, b, c, forms, related, at, x, width, prec)| {
            let cut = |s: &str| {
                let n = s.chars().count() + 1;
                s.chars().take(usize::from(at) % n).collect::<String>()
            };
            let b = match related {
                0 => a.clone(),
                1 => cut(&a),
                2 => {
                    let mut t = cut(&a);
                    t.push(x);
                    t
                }
                3 => {
                    let mut t = a.clone();
                    t.push(x);
                    t
                }
                4 => {
                    let mut t = a.clone();
                    t.pop();
                    t.push(x);
                    t
                }
                _ => b,
            };
            let texts = [
                Text { text: a, form: forms[0] },
                Text { text: b, form: forms[1] },
                Text { text: c, form: forms[2] },
            ];
            Case::Texts { texts, width, prec }
        })
        .boxed()
}

pub fn calls_case() -> BoxedStrategy<Case> {
    let call = (select(Sys::all()), ty(), raw(), 0u8..3).prop_map(|(s, t, r, small)| {
        let max = if small == 0 { top(s, t).min(100) } else { top(s, t) };
        (s, t, Wide(r.nominal(model::radix(s), max)))
    });
    let call = (call, 0u8..24, any::<u16>()).boxed();
    let calls = prop_oneof![24 => vec(call.clone(), 1..40), 1 => vec(call, 40..400)];
    (calls, prop_oneof![6 => Just(1u8), 1 => 2u8..5], 0u8..4, select(Sys::all()))
        .prop_map(|(made, threads, one_system, sys)| {
            let mut calls: Vec<(Sys, Ty, Wide)> = Vec::with_capacity(made.len());
            for ((mut s, mut t, Wide(mut n)), how, which) in made {
                if one_system < 2 {
                    // Many nominals of one system, back to back.
                    s = sys;
                    if one_system == 0 && !calls.is_empty() {
                        t = calls[0].1;
                    }
                }
                // What a memory of earlier calls could mistake for one of them.
                if let Some((s0, t0, Wide(m))) = calls.get(which as usize % calls.len().max(1)).copied() {
                    let bit = 1u128 << (which >> 8) % 128;
                    match how {
                        0 => n = m,
                        1 => (t, n) = (t0, m),
                        2 => (s, n) = (s0, m),
                        3 => (s, n) = (s0, m.wrapping_add(1)),
                        4 => (s, n) = (s0, m.wrapping_sub(1)),
                        5 => (s, n) = (s0, m ^ bit),
                        6 => (s, n) = (s0, m.wrapping_add(bit)),
                        7 => (s, n) = (s0, m.wrapping_add(n << [8, 16, 32, 64][which as usize >> 8 & 3])),
                        8 => (s, n) = (s0, m.wrapping_mul(model::radix(s0).max(2))),
                        9 => (s, n) = (s0, m / model::radix(s0).max(2)),
                        10 => (s, t, n) = (s0, t0, m.swap_bytes() >> (128 - t0.bits())),
                        _ => {}
                    }
                }
                calls.push((s, t, Wide(fit(n, top(s, t)))));
            }
            Case::Calls { calls, threads }
        })
        .boxed()
}

/// A few calls of one system by several threads, short enough for Miri.
pub fn concurrent_case() -> BoxedStrategy<Case> {
    let call = (ty(), raw(), 0u8..3).prop_map(|(t, r, small)| {
        let max = if small == 0 { t.max().min(100) } else { t.max() };
        (Sys::B(0), t, Wide(r.nominal(10, max)))
    });
    (vec(call, 2..7), 2u8..4).prop_map(|(calls, threads)| Case::Calls { calls, threads }).boxed()
}

pub fn nested_case() -> BoxedStrategy<Case> {
    (coll_case(), vec(fmt(Sys::all()), 1..6), prop_oneof![2 => Just(0u8), 1 => 1u8..6])
        .prop_map(|(case, inner, panic_at)| {
            let Case::Coll { coll, ty, n, .. } = case else { unreachable!() };
            let inner = inner
                .into_iter()
                .map(|c| match c {
                    Case::Fmt { sys, ty, n } => (sys, ty, Wide(n)),
                    _ => unreachable!(),
                })
                .collect();
            let lone = !coll.has_zero() && coll.checked_len() == Some(1);
            Case::Nested { n: if lone { n % 300 } else { n }, coll, ty, inner, panic_at }
        })
        .boxed()
}

pub fn shared_case() -> BoxedStrategy<Case> {
    let what = prop_oneof![
        3 => coll_case(),
        2 => fixed_case(),
        3 => additive_case(),
        1 => enumerated_case(),
    ];
    (what, vec((ty(), raw(), 0u8..8), 1..24))
        .prop_map(|(case, more)| {
            let (what, radix, cap, first) = match case {
                Case::Coll { coll, ty, n, .. } => {
                    let len = coll.checked_len().unwrap_or(10);
                    let cap = coll_top(&coll, Ty::u128);
                    (Shared::Coll(coll), u128::from(len), cap, (ty, n))
                }
                Case::Fixed { coll, ty, n } => {
                    let len = coll.rules().0;
                    let cap = coll.top();
                    (Shared::Fixed(coll), u128::from(len), cap, (ty, n))
                }
                Case::Additive { set, ty, n } => {
                    let first = set.iter().map(|s| s.1 .0).find(|v| *v <= u128::from(u64::MAX)).unwrap_or(1);
                    (Shared::Additive(set), first.max(1), first.saturating_mul(100).max(1), (ty, n))
                }
                Case::Enumerated { len, zero, ty, n } => {
                    (Shared::Enumerated(len, zero), ENUM_SIZES[len as usize].max(2) as u128, u128::MAX, (ty, n))
                }
                _ => unreachable!(),
            };
            let mut calls = vec![(first.0, Wide(first.1))];
            for (t, r, near) in more {
                let max = t.max().min(cap);
                let n = match near {
                    // Near the call before, in whatever type holds it.
                    0 => fit(calls.last().unwrap().1 .0.wrapping_add(r.a % 5).wrapping_sub(2), max),
                    1 => fit(r.a % radix.saturating_mul(2).max(1), max),
                    // One that shares its low or high bits with an earlier one.
                    4 => {
                        let m = calls[r.a as usize % calls.len()].1 .0;
                        fit(m.wrapping_add((r.a >> 20) << [8, 16, 32, 64][r.a as usize >> 8 & 3]), max)
                    }
                    5 => fit(calls[r.a as usize % calls.len()].1 .0 ^ 1u128 << (r.a >> 20) % 128, max),
                    _ => r.nominal(radix, max),
                };
                calls.push((t, Wide(n)));
            }
            Case::Shared { what, calls }
        })
        .boxed()
}

// ------------------------------------------------------------------- mixes

/// Everything C19 covers.
pub fn any_formatting() -> BoxedStrategy<Case> {
    prop_oneof![
        6 => fmt_far(Sys::all()),
        3 => coll_case(),
        2 => fixed_case(),
        2 => additive_case(),
        1 => enumerated_case(),
        1 => options_case(),
    ]
    .boxed()
}

/// Everything a user can put together.
pub fn made_by_users() -> BoxedStrategy<Case> {
    prop_oneof![
        3 => coll_case(),
        1 => fixed_case(),
        3 => additive_case(),
        1 => enumerated_case(),
    ]
    .boxed()
}

pub use crate::bytes::zh;
