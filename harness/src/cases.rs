//! One generated case, and the oracle of each property.
use crate::colls::{self, Coll, FixColl, TryFormat, Visit};
use crate::engine::{obs, Res};
use crate::model::{self, M};
use crate::num::{u128s, Num, Ty, TYPES};
use crate::strings::{self, Init, Op, Text};
use crate::systems::{self, Sys, Zh};
use crate::values::{self, Made, Shape};
use crate::with_ty;
use nominals::{
    AdditiveSet, DigitCollection, EnumeratedSet, Error, Nominal, NominalString, NominalSystem,
    OneBased, OutOfMemoryError, UnsignedInteger, UnwrapOrDecimal, WithNominal,
};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Case {
    /// One formatting call.
    Fmt { sys: Sys, ty: Ty, #[serde(with = "u128s")] n: u128 },
    /// Two nominals of one system.
    Pair { sys: Sys, #[serde(with = "u128s")] a: u128, #[serde(with = "u128s")] b: u128 },
    Coll { coll: Coll, ty: Ty, #[serde(with = "u128s")] n: u128, at: u64 },
    Fixed { coll: FixColl, ty: Ty, #[serde(with = "u128s")] n: u128 },
    Additive { set: Vec<(u8, Wide)>, ty: Ty, #[serde(with = "u128s")] n: u128 },
    /// AdditiveSet::new accepts exactly strictly descending values.
    AddNew { values: Vec<Wide> },
    Enumerated { len: u8, zero: bool, ty: Ty, #[serde(with = "u128s")] n: u128 },
    /// Chinese options: a builder history on one of the four systems.
    Options { trad: bool, formal: bool, opts: Vec<u8>, ty: Ty, #[serde(with = "u128s")] n: u128 },
    /// A hand-made Result and a user system that returns it.
    ErrValue { kind: u8, ty: Ty, #[serde(with = "u128s")] n: u128, #[serde(with = "u128s")] asked: u128, text: String },
    /// A system behind pointers: how many layers, which ones.
    Pointer { sys: Sys, layers: Vec<u8>, ty: Ty, #[serde(with = "u128s")] n: u128 },
    /// A user system with its own infallible formatting behind pointers.
    PointerUser { layers: Vec<u8>, ok: bool, ty: Ty, #[serde(with = "u128s")] n: u128 },
    History { init: Init, ops: Vec<Op> },
    Twins { seed: String, ops: Vec<Op> },
    Texts { texts: [Text; 3], width: u16, prec: u16 },
    Calls { calls: Vec<(Sys, Ty, Wide)>, threads: u8 },
    /// Two values of one type, made of these things.
    Values { shape: Shape, a: Made, b: Made, ty: Ty, #[serde(with = "u128s")] n: u128 },
    /// Many calls of one object.
    Shared { what: Shared, calls: Vec<(Ty, Wide)> },
    /// A user-made collection that formats other nominals, and panics,
    /// while it is asked for its digits.
    Nested { coll: Coll, ty: Ty, #[serde(with = "u128s")] n: u128, inner: Vec<(Sys, Ty, Wide)>, panic_at: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Shared {
    Coll(Coll),
    Fixed(FixColl),
    Additive(Vec<(u8, Wide)>),
    Enumerated(u8, bool),
}

/// A u128 inside containers.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Wide(#[serde(with = "u128s")] pub u128);

/// Symbols for additive sets: 1- to 4-byte characters, several characters,
/// repeats, the empty string, and one that overflows the inline buffer.
pub const SYMS: [&str; 12] = [
    "I", "v", "é", "萬", "\u{1F600}", "XY", "M\u{305}", "", "ab\u{305}cd", "I",
    "零零零零零零零零零零",
    "0123456789012345678901234567890123456789012345678901234567890123456789",
];
/// The last one is not built in an interpreter.
pub const ENUM_SIZES: [usize; 15] = [0, 1, 2, 3, 5, 10, 50, 51, 100, 254, 255, 256, 257, 300, BIG];
/// More symbols than a u16 has values.
const BIG: usize = 65_540;

thread_local! {
    static BUF: RefCell<String> = const { RefCell::new(String::new()) };
}

/// A real result reduced to what it says.
pub fn show<T: Num>(r: &Result<NominalString, Error<T>>) -> String {
    match r {
        Ok(s) => format!("Ok({:?})", String::from_utf8_lossy(s.as_bytes())),
        Err(e) => format!("{e:?}"),
    }
}

/// Whether a real result is what the model asks for.
fn agrees<T: Num>(m: M, want: &str, got: &Result<NominalString, Error<T>>, n: u128) -> Result<(), String> {
    let ok = match (m, got) {
        (M::Ok, Ok(s)) => s.as_bytes() == want.as_bytes(),
        (M::NoZero, Err(Error::NoZeroSymbol)) => true,
        (M::Oob, Err(Error::OutOfBounds(x))) => x.wide() == n,
        (M::TooLong, Err(Error::OutOfMemory(x))) => cfg!(not(feature = "alloc")) && x.wide() == n,
        (M::OobOrTooLong, Err(Error::OutOfMemory(x) | Error::OutOfBounds(x))) => {
            cfg!(not(feature = "alloc")) && x.wide() == n
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        let want = match m {
            M::Ok => format!("Ok({want:?})"),
            other => format!("{other:?}"),
        };
        Err(format!("got {}, expected {want}", show(got)))
    }
}

/// Text limit: what the build can hold.
pub const fn limit() -> usize {
    if cfg!(feature = "alloc") {
        usize::MAX
    } else {
        strings::LIMIT
    }
}

pub fn check(prop: &str, case: &Case) -> Res {
    #[cfg(feature = "alloc")]
    if prop == "C29" {
        return gives_back(case);
    }
    evaluate(prop, case)
}

/// What a case does, judged only by the heap memory it leaves behind. The
/// first time may fill caches; only what is kept every time is lost.
#[cfg(feature = "alloc")]
fn gives_back(case: &Case) -> Res {
    let mut case = case.clone();
    if let Case::Calls { threads, .. } = &mut case {
        *threads = 1;
    }
    let mut seen = None;
    let mut again = || {
        crate::engine::kept(|| {
            // Whether the results are right is for other checks to say.
            let r = std::panic::catch_unwind(|| evaluate("C29", &case));
            seen = r.map(Result::ok).ok().flatten();
        })
    };
    again();
    let kept = again();
    if kept > 0 {
        let more = [again(), again(), again()];
        if more.iter().all(|k| *k > 0) {
            return Err(format!("{kept} bytes of heap memory are not given back, every time"));
        }
    }
    Ok(seen.unwrap_or(obs(false, "other checks report this")))
}

fn evaluate(prop: &str, case: &Case) -> Res {
    if matches!(prop, "C15" | "C16") {
        let (what, ty, n) = match case {
            Case::Coll { coll, ty, n, .. } => (Shared::Coll(coll.clone()), *ty, *n),
            Case::Fixed { coll, ty, n } => (Shared::Fixed(coll.clone()), *ty, *n),
            Case::Additive { set, ty, n } => (Shared::Additive(set.clone()), *ty, *n),
            Case::Enumerated { len, zero, ty, n } => (Shared::Enumerated(*len, *zero), *ty, *n),
            _ => return evaluate_other(prop, case),
        };
        return made_by_user(prop, &what, ty, n);
    }
    evaluate_other(prop, case)
}

fn evaluate_other(prop: &str, case: &Case) -> Res {
    match case {
        Case::Fmt { sys, ty, n } => with_ty!(*ty, T => match prop {
            "C13" => same_characters::<T>(*sys, *n),
            "C15" => infallible::<T>(*sys, *n),
            "C16" => any_type(*sys, *n),
            #[cfg(feature = "alloc")]
            "C26" => {
                let v = <T as Num>::of(*n);
                on_the_stack(&mut || systems::try_format(*sys, v), &mut || systems::to(*sys, v))
            }
            "C19" | "C19-giant" => completes::<T>(*sys, *n),
            "C27" => once::<T>(*sys, *n),
            _ => fmt::<T>(*sys, *n),
        }),
        Case::Pair { sys, a, b } => pair(*sys, *a, *b),
        Case::Coll { coll, .. } if coll.checked_len().is_none() => {
            Ok(obs(false, "no such collection"))
        }
        Case::Coll { coll, ty, n, at } => with_ty!(*ty, T => match prop {
            "C03" => one_based::<T>(coll, *n),
            #[cfg(feature = "alloc")]
            "C26" => colls::visit(coll, OnTheStack(<T as Num>::of(*n))),
            "C19" | "C19-giant" => completed(&colls::visit(coll, TryFormat(<T as Num>::of(*n))).0, *n),
            _ => flat::<T>(coll, *n, *at),
        }),
        #[cfg(feature = "alloc")]
        Case::Fixed { coll, ty, n } if prop == "C26" => {
            with_ty!(*ty, T => coll.visit(OnTheStack(<T as Num>::of(*n))))
        }
        Case::Fixed { coll, ty, n } => with_ty!(*ty, T => fixed::<T>(prop, coll, *n)),
        Case::Additive { set, ty, n } => with_ty!(*ty, T => additive::<T>(prop, set, *n)),
        Case::AddNew { values } => additive_new(values),
        Case::Enumerated { len, zero, ty, n } => with_ty!(*ty, T => enumerated::<T>(prop, *len, *zero, *n)),
        Case::Options { trad, formal, opts, ty, n } => {
            with_ty!(*ty, T => options::<T>(prop, *trad, *formal, opts, *n))
        }
        Case::ErrValue { kind, ty, n, asked, text } => {
            with_ty!(*ty, T => err_value::<T>(*kind, *n, *asked, text))
        }
        #[cfg(feature = "alloc")]
        Case::Pointer { sys, layers, ty, n } => with_ty!(*ty, T => pointer::<T>(*sys, layers, *n)),
        #[cfg(feature = "alloc")]
        Case::PointerUser { layers, ok, ty, n } => {
            with_ty!(*ty, T => pointer_user::<T>(layers, *ok, *n))
        }
        #[cfg(feature = "alloc")]
        Case::Twins { seed, ops } => {
            let o = if prop == "C26" {
                crate::heap::without_heap(seed, ops)?
            } else {
                strings::twins(seed, ops)?
            };
            Ok(obs(
                o.max_len >= 56,
                match (o.spilled, o.max_len) {
                    (true, _) => "spilled",
                    (false, 60..) => "at the capacity",
                    _ => "short",
                },
            ))
        }
        #[cfg(feature = "alloc")]
        Case::Texts { texts, width, prec } => {
            strings::compare(texts, *width as usize, *prec as usize)?;
            let storage = texts.iter().any(|t| t.build().is_inline() != texts[0].build().is_inline());
            let related = texts[0].text == texts[1].text
                || texts[0].text.starts_with(&texts[1].text)
                || texts[1].text.starts_with(&texts[0].text);
            Ok(obs(
                related || storage || usize::from(*width) > texts[0].text.chars().count(),
                match (related, storage) {
                    (true, true) => "related texts, mixed storage",
                    (true, false) => "related texts",
                    (false, true) => "mixed storage",
                    _ => "unrelated texts",
                },
            ))
        }
        #[cfg(not(feature = "alloc"))]
        Case::Pointer { .. } | Case::PointerUser { .. } | Case::Twins { .. } | Case::Texts { .. } => {
            Err("harness: needs alloc".into())
        }
        Case::History { init, ops } => {
            let o = strings::history(init, ops)?;
            let what = match (o.spilled, o.max_len >= 56, o.mixed_width) {
                (true, _, _) => "spilled to the heap",
                (_, true, _) => "near the capacity",
                (_, _, true) => "short, mixed widths",
                _ => "short",
            };
            Ok(obs(ops.len() >= 2, what))
        }
        Case::Calls { calls, threads } => call_history(calls, *threads),
        Case::Shared { what, calls } => shared(what, calls),
        Case::Nested { coll, .. } if coll.checked_len().is_none() => Ok(obs(false, "no such collection")),
        Case::Nested { coll, ty, n, inner, panic_at } => with_ty!(*ty, T => {
            colls::visit(coll, Nest::<T> { n: <T as Num>::of(*n), coll, inner, panic_at: *panic_at })
        }),
        Case::Values { shape, a, b, ty, n } => with_ty!(*ty, T => {
            values::check::<T>(*shape, a, b, <T as Num>::of(*n))?;
            let same = a.same(b, *shape);
            Ok(obs(*n > 0, match (same, a == b) {
                (true, true) => "made alike",
                (true, false) => "come to the same",
                _ => "made of different things",
            }))
        }),
    }
}

// ------------------------------------------------------- single formatting

fn fmt<T: Num>(sys: Sys, n: u128) -> Res {
    let v = T::of(n);
    BUF.with_borrow_mut(|want| {
        let m = model::model(sys, n, limit(), want);
        let got = systems::try_to(sys, v);
        agrees(m, want, &got, n)?;
        if let Ok(s) = &got {
            if model::decode(sys, s) != Some(n) {
                return Err(format!("{:?} does not read back to {n}", &**s));
            }
            if std::str::from_utf8(s.as_bytes()).is_err() {
                return Err("invalid UTF-8".into());
            }
        }
        // The other three entry points.
        let also = systems::try_format(sys, v);
        agrees(m, want, &also, n)?;
        let a = systems::to(sys, v);
        let b = systems::format(sys, v);
        if m != M::Ok {
            want.clear();
            if m == M::NoZero {
                want.push('0');
            } else {
                use std::fmt::Write;
                let _ = write!(want, "{n}");
            }
        }
        if *a != **want || *b != **want {
            return Err(format!("to_nominal gives {:?} and format_nominal {:?}, expected {want:?}", &*a, &*b));
        }
        let symbols = want.chars().count();
        Ok(match m {
            M::Ok if symbols > 20 => obs(true, "text of more than 20 characters"),
            M::Ok if symbols > 5 => obs(true, "text of 6 to 20 characters"),
            M::Ok => obs(symbols > 1, "text of at most 5 characters"),
            M::NoZero => obs(true, "no zero symbol"),
            M::Oob => obs(true, "out of bounds"),
            M::TooLong => obs(true, "out of memory"),
            M::OobOrTooLong => obs(true, "out of bounds or memory"),
        })
    })
}

/// The same, in few steps.
fn once<T: Num>(sys: Sys, n: u128) -> Res {
    BUF.with_borrow_mut(|want| {
        let m = model::model(sys, n, limit(), want);
        let got = systems::try_to(sys, T::of(n));
        agrees(m, want, &got, n)?;
        Ok(obs(n > 9 || m != M::Ok, ""))
    })
}

fn pair(sys: Sys, a: u128, b: u128) -> Res {
    if a == b {
        return Ok(obs(false, "equal nominals"));
    }
    // The narrowest and the widest type.
    let x = systems::try_format(sys, a);
    let y = systems::try_format(sys, b);
    match (x, y) {
        (Ok(x), Ok(y)) => {
            if x == y {
                return Err(format!("{} gives {:?} for both {a} and {b}", sys.name(), &*x));
            }
            Ok(obs(true, if x.len() == y.len() { "same length" } else { "different length" }))
        }
        _ => Ok(obs(false, "one of them is an error")),
    }
}

// ---------------------------------------------------------- collections

fn flat<T: Num>(coll: &Coll, n: u128, at: u64) -> Res {
    let len = coll.len();
    struct Inspect(u64);
    impl Visit for Inspect {
        type Out = (usize, bool, bool, bool, Vec<char>);
        fn visit<D: DigitCollection>(self, d: D) -> Self::Out {
            let len = d.len() as u64;
            let mut digits = Vec::new();
            if len > 0 {
                for i in [0, self.0 % len, len / 2, len - 1] {
                    digits.push(d.digit(i as usize));
                }
            }
            (d.len(), d.is_empty(), d.has_zero_digit(), d.zero_based(), digits)
        }
    }
    let (l, empty, zero, zero_based, digits) = colls::visit(coll, Inspect(at));
    if l as u64 != len || empty != (len == 0) {
        return Err(format!("len() is {l}, is_empty() {empty}; the flat list has {len} symbols"));
    }
    if zero != coll.has_zero() || (!zero && zero_based != coll.zero_based()) {
        return Err(format!("has_zero_digit() {zero}, zero_based() {zero_based}"));
    }
    if len > 0 {
        let want: Vec<char> =
            [0, at % len, len / 2, len - 1].iter().map(|i| coll.digit(*i)).collect();
        if digits != want {
            return Err(format!("digit(0, {}, {}, {}) gives {digits:?}, the flat list has {want:?}", at % len, len / 2, len - 1));
        }
    }
    let (r, s) = colls::visit(coll, TryFormat(T::of(n)));
    BUF.with_borrow_mut(|want| {
        let m = coll.model(n, limit(), want);
        agrees(m, want, &r, n)?;
        fallback_rule(&r, &s, n)
    })?;
    Ok(obs(
        coll.depth() > 0 && n > 0,
        match (coll.depth(), len) {
            (_, 0) => "empty collection",
            (_, 1) => "single symbol",
            (0, _) => "leaf",
            (1, _) => "one combinator",
            (_, 256..) => "nested, more than 255 symbols",
            _ => "nested",
        },
    ))
}

fn one_based<T: Num>(coll: &Coll, n: u128) -> Res {
    struct Once<T>(T);
    impl<T: Num> Visit for Once<T> {
        type Out = Vec<(Result<NominalString, Error<T>>, bool, usize)>;
        fn visit<D: DigitCollection>(self, d: D) -> Self::Out {
            let plain = self.0.try_to_nominal(&d);
            let (z, l) = (d.has_zero_digit(), d.len());
            let once = d.one_based();
            let a = self.0.try_to_nominal(&once);
            let (z1, l1) = (once.has_zero_digit(), once.len());
            let twice = OneBased::new(once);
            let b = self.0.try_to_nominal(&twice);
            vec![(plain, z, l), (a, z1, l1), (b, twice.has_zero_digit(), twice.len())]
        }
    }
    let at = |k: u128| colls::visit(coll, Once(T::of(k)));
    let here = at(n);
    for (i, h) in here.iter().enumerate() {
        if h.1 != here[0].1 || h.2 != here[0].2 {
            return Err(format!("one_based() x{i} changes len() or has_zero_digit()"));
        }
    }
    if show(&here[1].0) != show(&here[2].0) {
        return Err(format!("{n}: once {}, twice {}", show(&here[1].0), show(&here[2].0)));
    }
    if coll.has_zero() || !coll.zero_based() {
        if show(&here[0].0) != show(&here[1].0) {
            return Err(format!("{n}: plain {}, one-based {}", show(&here[0].0), show(&here[1].0)));
        }
        return Ok(obs(n > 0, "no effect"));
    }
    if n == 0 && !matches!(here[1].0, Err(Error::NoZeroSymbol)) {
        return Err(format!("0 one-based: {}", show(&here[1].0)));
    }
    // Anchored to the flat list, so that a change that moves both is seen.
    BUF.with_borrow_mut(|want| {
        let m = coll.model(n, limit(), want);
        agrees(m, want, &here[0].0, n).map_err(|e| format!("plain: {e}"))
    })?;
    if n < T::TY.max() {
        let next = at(n + 1);
        match (&here[0].0, &next[1].0) {
            (Ok(a), Ok(b)) if **a == **b => {}
            (Err(Error::OutOfBounds(_)), Err(Error::OutOfBounds(_))) => {}
            (a, b) => {
                return Err(format!("plain {n}: {}, one-based {}: {}", show(a), n + 1, show(b)))
            }
        }
    }
    let len = u128::from(coll.len());
    Ok(obs(
        n > 0,
        if len > T::TY.max() {
            "more symbols than the type has values"
        } else if n >= len {
            "several symbols"
        } else {
            "single symbol"
        },
    ))
}

fn fixed<T: Num>(prop: &str, coll: &FixColl, n: u128) -> Res {
    struct All<T>(T);
    impl<T: Num> Visit for All<T> {
        type Out = (Result<NominalString, Error<T>>, NominalString, bool, usize, bool);
        fn visit<D: DigitCollection>(self, d: D) -> Self::Out {
            (self.0.try_to_nominal(&d), self.0.to_nominal(&d), d.fixed(), d.len(), d.is_empty())
        }
    }
    let (r, s, _fixed, len, empty) = coll.visit(All(T::of(n)));
    if prop.starts_with("C19") {
        return completed(&r, n);
    }
    let rules = coll.rules();
    if len as u64 != rules.0 || empty != (rules.0 == 0) {
        return Err(format!("len() is {len}, expected {}", rules.0));
    }
    BUF.with_borrow_mut(|want| {
        let m = coll.model(n, limit(), want);
        agrees(m, want, &r, n)
    })?;
    fallback_rule(&r, &s, n)?;
    Ok(match (coll.in_range(n), &r) {
        (true, Ok(_)) => obs(true, "own symbol"),
        (true, Err(_)) => obs(true, "one-based zero"),
        (false, Ok(_)) => obs(true, "fallback"),
        (false, Err(_)) => obs(true, "fallback error"),
    })
}

// -------------------------------------------------------------- additive

/// How many symbols a set can have here beyond ten; other lengths are cut down.
pub const ADDITIVE_SIZES: [usize; 8] = [16, 33, 65, 130, 255, 256, 257, 300];

fn sized(len: usize) -> usize {
    ADDITIVE_SIZES.iter().copied().rev().find(|size| *size <= len).unwrap_or(len.min(10))
}

/// A set as it is built.
pub fn symbols_of(set: &[(u8, Wide)]) -> Vec<(&'static str, u128)> {
    set[..sized(set.len())].iter().map(|(s, v)| (SYMS[*s as usize % SYMS.len()], v.0)).collect()
}

fn with_additive<R>(set: &[(&'static str, u128)], f: &mut dyn FnMut(&dyn AdditiveObj) -> R) -> R {
    macro_rules! sized {
        ($($n:literal)*) => {
            match set.len() {
                $( $n => f(&AdditiveSet::<$n>::new(std::array::from_fn(|i| set[i]))), )*
                _ => unreachable!("not one of ADDITIVE_SIZES"),
            }
        };
    }
    sized!(0 1 2 3 4 5 6 7 8 9 10 16 33 65 130 255 256 257 300)
}

/// Object-safe view over the types.
trait AdditiveObj {
    fn go_u8(&self, n: u8) -> (Result<NominalString, Error<u8>>, NominalString);
    fn go_u16(&self, n: u16) -> (Result<NominalString, Error<u16>>, NominalString);
    fn go_u32(&self, n: u32) -> (Result<NominalString, Error<u32>>, NominalString);
    fn go_u64(&self, n: u64) -> (Result<NominalString, Error<u64>>, NominalString);
    fn go_u128(&self, n: u128) -> (Result<NominalString, Error<u128>>, NominalString);
    fn go_usize(&self, n: usize) -> (Result<NominalString, Error<usize>>, NominalString);
}
macro_rules! go {
    ($($f:ident $t:ident)*) => {
        impl<S> AdditiveObj for S where $(S: NominalSystem<$t>),* {
            $(fn $f(&self, n: $t) -> (Result<NominalString, Error<$t>>, NominalString) {
                (n.try_to_nominal(self), n.to_nominal(self))
            })*
        }
        fn any_format<T: Num>(s: &dyn AdditiveObj, n: u128) -> (Result<NominalString, Error<T>>, NominalString) {
            match T::TY {
                $( Ty::$t => {
                    let (r, s) = s.$f(<$t as Num>::of(n));
                    (r.map_err(convert), s)
                } )*
            }
        }
    };
}
go!(go_u8 u8 go_u16 u16 go_u32 u32 go_u64 u64 go_u128 u128 go_usize usize);

/// The same error in the type it already has.
fn convert<A: Num, B: Num>(e: Error<A>) -> Error<B> {
    match e {
        Error::NoZeroSymbol => Error::NoZeroSymbol,
        Error::OutOfBounds(n) => Error::OutOfBounds(B::of(n.wide())),
        Error::OutOfMemory(n) => Error::OutOfMemory(B::of(n.wide())),
        _ => panic!("unknown error"),
    }
}

fn additive<T: Num>(prop: &str, set: &[(u8, Wide)], n: u128) -> Res {
    let symbols: Vec<(&'static str, u128)> =
        symbols_of(set);
    if prop != "C19-giant" && model::additive_steps(&symbols, n, cfg!(feature = "alloc")) > 300_000 {
        return Ok(obs(false, "skipped: giant"));
    }
    #[cfg(feature = "alloc")]
    if prop == "C26" {
        return with_additive(&symbols, &mut |a| {
            on_the_stack(&mut || any_format::<T>(a, n).0, &mut || any_format::<T>(a, n).1)
        });
    }
    let (r, s) = with_additive(&symbols, &mut |a| any_format::<T>(a, n));
    if prop.starts_with("C19") {
        return completed(&r, n);
    }
    let mut scratch = String::new();
    let m = model::additive(&symbols, n, limit(), &mut scratch);
    agrees(m, &scratch, &r, n)?;
    fallback_rule(&r, &s, n)?;
    let skipped = symbols.iter().any(|x| x.1 > T::TY.max());
    Ok(match m {
        M::Ok if n == 0 => obs(true, "zero symbol"),
        M::Ok => obs(
            true,
            if skipped { "sums up, some symbols exceed the type" } else { "sums up" },
        ),
        M::NoZero => obs(!symbols.is_empty(), "no zero symbol"),
        M::Oob => obs(!symbols.is_empty(), "not representable"),
        _ => obs(true, "too long"),
    })
}

fn additive_new(values: &[Wide]) -> Res {
    let values = &values[..sized(values.len())];
    let symbols: Vec<(&'static str, u128)> = values.iter().map(|v| ("x", v.0)).collect();
    let descending = values.windows(2).all(|w| w[0] > w[1]);
    let accepted =
        std::panic::catch_unwind(|| with_additive(&symbols, &mut |_| ())).is_ok();
    if descending != accepted {
        return Err(format!("AdditiveSet::new on values {values:?}: accepted {accepted}"));
    }
    Ok(obs(
        values.len() > 1,
        if accepted { "accepted" } else { "rejected" },
    ))
}

// ---------------------------------------------------- where the text lives

/// C26: an identifier that fits the inline buffer is there, and was made
/// without heap memory; a longer one is on the heap.
#[cfg(feature = "alloc")]
fn on_the_stack<T: Num>(
    format: &mut dyn FnMut() -> Result<NominalString, Error<T>>,
    infallible: &mut dyn FnMut() -> NominalString,
) -> Res {
    let (r, calls) = crate::engine::allocations(&mut *format);
    let Ok(s) = r else {
        let s = infallible();
        if !s.is_inline() {
            return Err(format!("the decimal fallback {:?} is on the heap", &*s));
        }
        return Ok(obs(false, "error"));
    };
    let (t, again) = crate::engine::allocations(&mut *infallible);
    for (s, calls) in [(s, calls), (t, again)] {
        if s.is_inline() != (s.len() <= strings::LIMIT) {
            return Err(format!("{:?} has {} bytes, is_inline() is {}", &*s, s.len(), s.is_inline()));
        }
        if s.is_inline() && calls > 0 {
            return Err(format!("{:?} has {} bytes, making it took {calls} heap allocations", &*s, s.len()));
        }
        if s.len() > strings::LIMIT {
            return Ok(obs(true, "on the heap"));
        }
        if s.len() > 40 {
            return Ok(obs(true, "more than 40 bytes inline"));
        }
    }
    Ok(obs(true, "inline"))
}

#[cfg(feature = "alloc")]
struct OnTheStack<T>(T);
#[cfg(feature = "alloc")]
impl<T: Num> Visit for OnTheStack<T> {
    type Out = Res;
    fn visit<D: DigitCollection>(self, d: D) -> Res {
        on_the_stack(&mut || self.0.try_to_nominal(&d), &mut || self.0.to_nominal(&d))
    }
}

// ------------------------------------------------------------ enumerated

const fn names<const N: usize>() -> [&'static str; N] {
    const BASE: [&str; 10] = ["零", "I", "é", "③", "ab", "", "\u{1F600}", "M\u{305}", "9", "x y"];
    let mut a = [""; N];
    let mut i = 0;
    while i < N {
        a[i] = BASE[(i + i / 10) % 10];
        i += 1;
    }
    // Longer than the inline buffer.
    if N > 7 {
        a[7] = "0123456789012345678901234567890123456789012345678901234567890123456789";
    }
    a
}
const NAMES_OF: [&str; 300] = names();

#[cfg(not(miri))]
static BIG_SETS: (EnumeratedSet<BIG, true>, EnumeratedSet<BIG, false>) = {
    static NAMES: [&str; BIG] = names();
    (EnumeratedSet::new(NAMES), EnumeratedSet::zeroless(NAMES))
};

/// The i-th name of any set.
fn name_of(i: usize) -> &'static str {
    if i < NAMES_OF.len() { NAMES_OF[i] } else { NAMES_OF[100 + i % 100] }
}

fn enumerated_model(len: usize, zero: bool, n: u128) -> (M, &'static str) {
    let first = u128::from(!zero);
    if n < first {
        (M::NoZero, "")
    } else if n - first < len as u128 {
        let t = name_of((n - first) as usize);
        (if t.len() > limit() { M::TooLong } else { M::Ok }, t)
    } else {
        (M::Oob, "")
    }
}

fn enumerated<T: Num>(prop: &str, len: u8, zero: bool, n: u128) -> Res {
    let len = ENUM_SIZES[len as usize % ENUM_SIZES.len()];
    macro_rules! sized {
        ($($n:literal)*) => {
            match (len, zero) {
                $(
                    ($n, true) => any_format::<T>(&EnumeratedSet::<$n, true>::new(std::array::from_fn(|i| NAMES_OF[i])), n),
                    ($n, false) => any_format::<T>(&EnumeratedSet::<$n, false>::zeroless(std::array::from_fn(|i| NAMES_OF[i])), n),
                )*
                #[cfg(not(miri))]
                (BIG, true) => any_format::<T>(&BIG_SETS.0, n),
                #[cfg(not(miri))]
                (BIG, false) => any_format::<T>(&BIG_SETS.1, n),
                _ => unreachable!(),
            }
        };
    }
    #[cfg(feature = "alloc")]
    if prop == "C26" {
        return on_the_stack(
            &mut || sized!(0 1 2 3 5 10 50 51 100 254 255 256 257 300).0,
            &mut || sized!(0 1 2 3 5 10 50 51 100 254 255 256 257 300).1,
        );
    }
    let (r, s) = sized!(0 1 2 3 5 10 50 51 100 254 255 256 257 300);
    if prop == "C19" {
        return completed(&r, n);
    }
    let (m, want) = enumerated_model(len, zero, n);
    agrees(m, want, &r, n)?;
    fallback_rule(&r, &s, n)?;
    Ok(match m {
        M::Ok => obs(true, "symbol"),
        M::NoZero => obs(true, "no zero symbol"),
        M::Oob => obs(n < 1000 || n > u128::from(u64::MAX) - 1000, "past the end"),
        _ => obs(true, "too long"),
    })
}

// --------------------------------------------------------------- chinese

/// The builder history, applied for real.
fn with_options<T: Num>(z: Zh, opts: &[u8], n: u128) -> Result<[Result<NominalString, Error<T>>; 2], String> {
    macro_rules! go {
        ($t:ident) => {{
            let mut s = nominals::$t::default();
            for o in opts {
                s = match o % 5 {
                    0 => s.financial(),
                    1 => s.short_scale(),
                    2 => s.mid_scale(),
                    3 => s.long_scale(),
                    _ => s.clone(),
                };
            }
            // Equal to exactly the systems with the same options.
            for fin in [false, true] {
                for scale in 0..4u8 {
                    let mut t = nominals::$t::default();
                    if fin {
                        t = t.financial();
                    }
                    match scale {
                        1 => t = t.short_scale(),
                        2 => t = t.mid_scale(),
                        3 => t = t.long_scale(),
                        _ => {}
                    }
                    let same = fin == z.fin && scale == z.scale;
                    if (s == t) != same || (s != t) == same {
                        return Err(format!("options {opts:?}: == says {} for {}", s == t, Sys::Zh(Zh { fin, scale, ..z }).name()));
                    }
                }
            }
            Ok([T::of(n).try_to_nominal(&s), s.try_format_nominal(T::of(n))])
        }};
    }
    match (z.trad, z.formal) {
        (false, false) => go!(SimplifiedChineseInformal),
        (false, true) => go!(SimplifiedChineseFormal),
        (true, false) => go!(TraditionalChineseInformal),
        (true, true) => go!(TraditionalChineseFormal),
    }
}

fn options<T: Num>(prop: &str, trad: bool, formal: bool, opts: &[u8], n: u128) -> Res {
    let fin = opts.iter().any(|o| o % 5 == 0);
    let scale = opts.iter().rev().map(|o| o % 5).find(|o| (1..=3).contains(o)).unwrap_or(0);
    let z = Zh { trad, formal, fin, scale };
    let got = with_options::<T>(z, opts, n)?;
    if prop == "C19" {
        return completed(&got[0], n);
    }
    let canonical = systems::try_format(Sys::Zh(z), T::of(n));
    for g in &got {
        if show(g) != show(&canonical) {
            return Err(format!("options {opts:?} give {}, {} gives {}", show(g), Sys::Zh(z).name(), show(&canonical)));
        }
    }
    if n < 100_000 {
        let default = systems::try_format(Sys::Zh(Zh { scale: 0, ..z }), T::of(n));
        if show(&got[0]) != show(&default) {
            return Err(format!("below 100,000: {} gives {}, the default scale {}", Sys::Zh(z).name(), show(&got[0]), show(&default)));
        }
    }
    same_characters_of(z, T::of(n), &got[0])?;
    let builder = opts.len();
    Ok(obs(
        n >= 10,
        match builder {
            0 => "defaults",
            1 => "one option",
            _ => "several options",
        },
    ))
}

fn same_characters<T: Num>(sys: Sys, n: u128) -> Res {
    let Sys::Zh(z) = sys else { return Err("harness: not Chinese".into()) };
    let got = systems::try_format(sys, T::of(n));
    same_characters_of(z, T::of(n), &got)?;
    Ok(obs(n >= 10, if n < 10_000 { "below 10,000" } else { "large" }))
}

/// The four character variants and the formal/informal pair of one numeral.
fn same_characters_of<T: Num>(z: Zh, n: T, got: &Result<NominalString, Error<T>>) -> Result<(), String> {
    let base = Zh { trad: false, formal: true, fin: false, scale: z.scale };
    let base_text = systems::try_format(Sys::Zh(base), n);
    let (text, base_text) = match (got, &base_text) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) if show(a) == show(b) => return Ok(()),
        (a, b) => {
            return Err(format!("{} gives {}, {} gives {}", Sys::Zh(z).name(), show(a), Sys::Zh(base).name(), show(b)))
        }
    };
    // Replace characters one to one, then drop the leading one before ten.
    let from = model::zh_table(false, false);
    let to = model::zh_table(z.trad, z.fin);
    let mut want = String::new();
    for c in base_text.chars() {
        let place = |t: &[char]| t.iter().position(|x| *x == c);
        let r = if let Some(i) = place(&from.digits) {
            to.digits[i]
        } else if let Some(i) = place(&from.small) {
            to.small[i]
        } else if let Some(i) = place(&from.large) {
            to.large[i]
        } else {
            return Err(format!("unexpected character {c:?} in {:?}", &**base_text));
        };
        want.push(r);
    }
    if !z.formal && want.starts_with(&[to.digits[1], to.small[0]].iter().collect::<String>()) {
        want.remove(0);
    }
    if **text != *want {
        return Err(format!("{} gives {:?}, expected {want:?} from {:?}", Sys::Zh(z).name(), &**text, &**base_text));
    }
    Ok(())
}

// ------------------------------------------------------- error contract

/// The infallible form of a result.
fn fallback_rule<T: Num>(r: &Result<NominalString, Error<T>>, s: &NominalString, n: u128) -> Result<(), String> {
    match r {
        Ok(t) => {
            if s != t {
                return Err(format!("infallible {:?}, fallible {:?}", &**s, &**t));
            }
        }
        Err(e) => {
            if n.to_string() != **s {
                return Err(format!("infallible {:?} for {n} on {e:?}", &**s));
            }
            match e {
                Error::NoZeroSymbol => {
                    if n != 0 {
                        return Err(format!("NoZeroSymbol for {n}"));
                    }
                }
                Error::OutOfBounds(x) | Error::OutOfMemory(x) => {
                    if x.wide() != n {
                        return Err(format!("{e:?} for {n}"));
                    }
                    if cfg!(feature = "alloc") && matches!(e, Error::OutOfMemory(_)) {
                        return Err(format!("{e:?} although memory is available"));
                    }
                }
                _ => return Err(format!("unknown error {e:?}")),
            }
        }
    }
    Ok(())
}

fn infallible<T: Num>(sys: Sys, n: u128) -> Res {
    let v = T::of(n);
    let r = systems::try_to(sys, v);
    let r2 = systems::try_format(sys, v);
    if show(&r) != show(&r2) {
        return Err(format!("try_to_nominal {}, try_format_nominal {}", show(&r), show(&r2)));
    }
    for s in [systems::to(sys, v), systems::format(sys, v)] {
        fallback_rule(&r, &s, n)?;
    }
    let err = r.is_err();
    if let Err(e) = r {
        if *e.into_decimal() != *n.to_string() {
            return Err(format!("{e:?}.into_decimal() is {:?}", &*e.into_decimal()));
        }
    }
    if *r2.unwrap_or_decimal() != *systems::to(sys, v) {
        return Err("unwrap_or_decimal differs from to_nominal".into());
    }
    Ok(obs(err || n > 0, if err { "error" } else { "text" }))
}

/// A user-made system that only provides the fallible method.
struct Returns<T>(Result<String, Error<T>>);
impl<T: Nominal> NominalSystem<T> for Returns<T> {
    fn try_format_nominal(&self, _: T) -> Result<NominalString, Error<T>> {
        match &self.0 {
            Ok(s) => Ok(NominalString::from(s.as_str())),
            Err(e) => Err(*e),
        }
    }
}

fn err_value<T: Num>(kind: u8, n: u128, asked: u128, text: &str) -> Res {
    let v = T::of(n);
    let (value, want): (Result<String, Error<T>>, String) = match kind % 4 {
        0 => (Err(Error::NoZeroSymbol), "0".into()),
        1 => (Err(Error::OutOfBounds(v)), n.to_string()),
        2 => (Err(Error::OutOfMemory(v)), n.to_string()),
        _ => (Ok(text.to_string()), text.to_string()),
    };
    let sys = Returns(value.clone());
    let asked = T::of(asked);
    let as_real = |r: &Result<String, Error<T>>| r.clone().map(|s| NominalString::from(s.as_str()));
    let all = [
        ("unwrap_or_decimal", as_real(&value).unwrap_or_decimal()),
        ("to_nominal", asked.to_nominal(&sys)),
        ("format_nominal", sys.format_nominal(asked)),
    ];
    for (name, s) in all {
        if *s != *want {
            return Err(format!("{name} of {value:?} is {:?}, expected {want:?}", &*s));
        }
    }
    if let Err(e) = value {
        if *e.into_decimal() != *want {
            return Err(format!("{e:?}.into_decimal() is {:?}", &*e.into_decimal()));
        }
    }
    let tried = asked.try_to_nominal(&sys);
    if show(&tried) != show(&as_real(&value)) {
        return Err(format!("try_to_nominal gives {}", show(&tried)));
    }
    // with_nominal
    let e: Result<u8, OutOfMemoryError> = Err(OutOfMemoryError);
    if e.with_nominal(v) != Err(Error::OutOfMemory(v)) {
        return Err("with_nominal does not carry the nominal".into());
    }
    let o: Result<String, OutOfMemoryError> = Ok(text.to_string());
    if o.with_nominal(v) != Ok(text.to_string()) {
        return Err("with_nominal changes an Ok".into());
    }
    Ok(obs(n > 9, ["no zero symbol", "out of bounds", "out of memory", "ok"][usize::from(kind % 4)]))
}

// ---------------------------------------------------- integer types

fn any_type(sys: Sys, n: u128) -> Res {
    let mut first: Option<(Ty, String)> = None;
    let mut types = 0;
    for ty in TYPES {
        if !ty.holds(n) {
            continue;
        }
        types += 1;
        let text = with_ty!(ty, T => {
            let v = <T as Num>::of(n);
            if v.is_zero() != (n == 0) {
                return Err(format!("{ty:?}: is_zero() of {n} is {}", v.is_zero()));
            }
            if usize::try_from(n).is_ok_and(|u| u != v.as_usize()) {
                return Err(format!("{ty:?}: as_usize() of {n} is {}", v.as_usize()));
            }
            // Debug of the error prints the value only, so it is comparable.
            format!("{} / {:?}", show(&systems::try_to(sys, v)), &*systems::to(sys, v))
        });
        match &first {
            None => first = Some((ty, text)),
            Some((t0, f)) => {
                if *f != text {
                    return Err(format!("{n} as {t0:?} gives {f}, as {ty:?} {text}"));
                }
            }
        }
    }
    Ok(obs(types > 1, ["", "1 type", "2 types", "3 types", "4 types", "5 types", "6 types"][types]))
}

// --------------------------------------------------------------- pointers

#[cfg(feature = "alloc")]
mod ptr {
    use super::*;
    use std::rc::Rc;
    use std::sync::Arc;
    pub type Dyn<T> = dyn NominalSystem<T>;

    /// Wraps a boxed system in further layers and formats through it.
    pub fn through<T: Num>(inner: Box<Dyn<T>>, layers: &[u8], n: T) -> (Result<NominalString, Error<T>>, NominalString, Result<NominalString, Error<T>>, NominalString) {
        fn all<T: Num, S: NominalSystem<T>>(s: &S, n: T) -> (Result<NominalString, Error<T>>, NominalString, Result<NominalString, Error<T>>, NominalString) {
            (n.try_to_nominal(s), n.to_nominal(s), s.try_format_nominal(n), s.format_nominal(n))
        }
        let mut b = inner;
        let (last, rest) = match layers.split_last() {
            Some((l, r)) => (*l % 3, r),
            None => (0, layers),
        };
        for l in rest {
            b = match l % 3 {
                0 => Box::new(b),
                1 => {
                    let r: Rc<Dyn<T>> = Rc::from(b);
                    Box::new(r)
                }
                _ => {
                    let a: Arc<Dyn<T>> = Arc::from(b);
                    Box::new(a)
                }
            };
        }
        match last {
            0 => all(&b, n),
            1 => {
                let r: Rc<Dyn<T>> = Rc::from(b);
                all(&r, n)
            }
            _ => {
                let a: Arc<Dyn<T>> = Arc::from(b);
                all(&a, n)
            }
        }
    }
}

#[cfg(feature = "alloc")]
fn pointer<T: Num>(sys: Sys, layers: &[u8], n: u128) -> Res {
    let v = T::of(n);
    let (r, s, r2, s2) = ptr::through(systems::boxed::<T>(sys), layers, v);
    let want = systems::try_format(sys, v);
    let text = systems::format(sys, v);
    for g in [&r, &r2] {
        if show(g) != show(&want) {
            return Err(format!("through pointers: {}, directly: {}", show(g), show(&want)));
        }
    }
    for g in [&s, &s2] {
        if **g != *text {
            return Err(format!("through pointers: {:?}, directly: {:?}", &**g, &*text));
        }
    }
    // Rc and Arc made directly.
    let rc = systems::shared_rc::<T>(sys);
    let arc = systems::shared_arc::<T>(sys);
    for (r, s) in [(v.try_to_nominal(&rc), v.to_nominal(&rc)), (v.try_to_nominal(&arc), v.to_nominal(&arc))] {
        if show(&r) != show(&want) || *s != *text {
            return Err(format!("through Rc/Arc: {} and {:?}, directly: {}", show(&r), &*s, show(&want)));
        }
    }
    Ok(obs(n > 0, if want.is_err() { "error" } else { "text" }))
}

/// Overrides both methods.
#[allow(dead_code)]
struct Own {
    ok: bool,
}
impl<T: Num> NominalSystem<T> for Own {
    fn format_nominal(&self, n: T) -> NominalString {
        NominalString::from(format!("<{}>", n.wide()).as_str())
    }
    fn try_format_nominal(&self, n: T) -> Result<NominalString, Error<T>> {
        if self.ok {
            Ok(NominalString::from(format!("#{}", n.wide()).as_str()))
        } else {
            Err(Error::OutOfBounds(n))
        }
    }
}

#[cfg(feature = "alloc")]
fn pointer_user<T: Num>(layers: &[u8], ok: bool, n: u128) -> Res {
    let v = T::of(n);
    let (r, s, r2, s2) = ptr::through::<T>(Box::new(Own { ok }), layers, v);
    let want: Result<NominalString, Error<T>> = Own { ok }.try_format_nominal(v);
    let text = format!("<{n}>");
    if show(&r) != show(&want) || show(&r2) != show(&want) {
        return Err(format!("through pointers: {}, directly: {}", show(&r), show(&want)));
    }
    if *s != *text || *s2 != *text {
        return Err(format!("infallible through pointers: {:?}, directly {text:?}", &*s));
    }
    Ok(obs(true, "user system"))
}

// --------------------------------------------------------------- totality

fn completed<T: Num>(r: &Result<NominalString, Error<T>>, n: u128) -> Res {
    if let Ok(s) = r {
        if std::str::from_utf8(s.as_bytes()).is_err() {
            return Err("invalid UTF-8".into());
        }
    }
    Ok(match r {
        Ok(s) if s.len() > strings::LIMIT => obs(true, "long text"),
        Ok(_) => obs(n > 0, "text"),
        Err(_) => obs(true, "error"),
    })
}

fn completes<T: Num>(sys: Sys, n: u128) -> Res {
    let v = T::of(n);
    let r = systems::try_to(sys, v);
    let s = systems::to(sys, v);
    if std::str::from_utf8(s.as_bytes()).is_err() {
        return Err("invalid UTF-8".into());
    }
    completed(&r, n)
}

// --------------------------------------------------------- call histories

fn one_call(sys: Sys, ty: Ty, n: u128) -> (String, String) {
    with_ty!(ty, T => {
        let v = <T as Num>::of(n);
        (show(&systems::try_format(sys, v)), systems::to(sys, v).to_string())
    })
}

fn call_history(calls: &[(Sys, Ty, Wide)], threads: u8) -> Res {
    // What each call gives on its own, by the model.
    let want: Vec<(String, String)> = calls
        .iter()
        .map(|(sys, _, n)| {
            let mut t = String::new();
            let m = model::model(*sys, n.0, limit(), &mut t);
            expected(m, t, n.0)
        })
        .collect();
    let run = |from: usize, step: usize| -> Result<(), String> {
        let len = calls.len();
        for k in 0..len {
            let i = (from + k * step) % len;
            let (sys, ty, n) = calls[i];
            let got = one_call(sys, ty, n.0);
            if got != want[i] {
                return Err(format!(
                    "call {i} ({}, {ty:?}, {}) in position {k} gives {got:?}, on its own {:?}",
                    sys.name(), n.0, want[i]
                ));
            }
        }
        Ok(())
    };
    if calls.is_empty() {
        return Ok(obs(false, "empty"));
    }
    run(0, 1)?;
    run(0, 1)?;
    // Another order: a step coprime with the length.
    let step = (1..calls.len()).rev().find(|s| gcd(*s, calls.len()) == 1).unwrap_or(1);
    run(calls.len() / 2, step)?;
    if threads > 1 {
        let barrier = std::sync::Barrier::new(threads as usize);
        let results: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads as usize)
                .map(|t| {
                    let (run, barrier) = (&run, &barrier);
                    s.spawn(move || {
                        barrier.wait();
                        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            for round in 0..3 {
                                run(t * 7 + round, 1)?;
                            }
                            Ok(())
                        }))
                        .unwrap_or_else(|_| Err("panic in a thread".into()))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Err("thread died".into()))).collect()
        });
        for r in results {
            r.map_err(|e| format!("with {threads} threads: {e}"))?;
        }
        return Ok(obs(calls.len() > 1, "concurrent"));
    }
    Ok(obs(calls.len() > 1, "sequential"))
}

/// One object, asked again and again in changing order.
/// What a call gives on its own, by the model: fallible and infallible.
fn expected(m: M, text: String, n: u128) -> (String, String) {
    match m {
        M::Ok => (format!("Ok({text:?})"), text),
        M::NoZero => ("NoZeroSymbol".into(), "0".into()),
        M::Oob => (format!("OutOfBounds({n})"), n.to_string()),
        _ => (format!("OutOfMemory({n})"), n.to_string()),
    }
}

struct Nest<'a, T> {
    n: T,
    coll: &'a Coll,
    inner: &'a [(Sys, Ty, Wide)],
    panic_at: u8,
}

impl<T: Num> Visit for Nest<'_, T> {
    type Out = Res;
    fn visit<D: DigitCollection>(self, d: D) -> Res {
        use std::cell::Cell;
        struct Busy<'a, D, T> {
            d: D,
            n: T,
            inner: &'a [(Sys, Ty, Wide)],
            want: Vec<(String, String)>,
            asked: Cell<usize>,
            depth: Cell<u8>,
            deep: RefCell<Vec<String>>,
            panic_at: Cell<usize>,
            wrong: RefCell<Option<String>>,
        }
        impl<D: DigitCollection, T: Num> DigitCollection for Busy<'_, D, T> {
            type Fallback = D::Fallback;
            fn fixed(&self) -> bool {
                self.d.fixed()
            }
            fn has_zero_digit(&self) -> bool {
                self.d.has_zero_digit()
            }
            fn zero_based(&self) -> bool {
                self.d.zero_based()
            }
            fn len(&self) -> usize {
                self.d.len()
            }
            fn digit(&self, i: usize) -> char {
                let k = self.asked.get();
                self.asked.set(k + 1);
                if let Some(at) = self.inner.len().checked_sub(1).map(|m| k % (m + 1)) {
                    let (sys, ty, n) = self.inner[at];
                    let got = one_call(sys, ty, n.0);
                    if got != self.want[at] {
                        *self.wrong.borrow_mut() = Some(format!(
                            "inside a collection's digit(), {} of {ty:?} {} gives {got:?}, on its own {:?}",
                            sys.name(), n.0, self.want[at]
                        ));
                    }
                }
                // The same collection again, within itself.
                if self.depth.get() == 0 && k < 3 {
                    self.depth.set(1);
                    let got = show(&self.try_format_nominal(self.n));
                    self.depth.set(0);
                    self.deep.borrow_mut().push(got);
                }
                if self.depth.get() == 0 && self.asked.get() >= self.panic_at.get() {
                    panic!("the collection's own panic");
                }
                self.d.digit(i)
            }
        }

        let n = self.n.wide();
        let mut text = String::new();
        let m = self.coll.model(n, limit(), &mut text);
        let (want, _) = expected(m, text, n);
        let inner = self.inner;
        let busy = Busy {
            d,
            n: self.n,
            inner,
            want: inner
                .iter()
                .map(|(sys, _, n)| {
                    let mut t = String::new();
                    let m = model::model(*sys, n.0, limit(), &mut t);
                    expected(m, t, n.0)
                })
                .collect(),
            asked: Cell::new(0),
            depth: Cell::new(0),
            deep: RefCell::new(vec![]),
            panic_at: Cell::new(usize::MAX),
            wrong: RefCell::new(None),
        };
        let mut panicked = false;
        if self.panic_at > 0 {
            busy.panic_at.set(self.panic_at as usize);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                drop(busy.try_format_nominal(busy.n));
            }));
            panicked = r.is_err();
            if panicked && busy.asked.get() < busy.panic_at.get() {
                return Err("a panic that is not the collection's own".into());
            }
            busy.panic_at.set(usize::MAX);
            busy.asked.set(0);
            busy.depth.set(0);
            busy.deep.borrow_mut().clear();
        }
        let got = show(&busy.try_format_nominal(busy.n));
        if let Some(why) = busy.wrong.borrow_mut().take() {
            return Err(why);
        }
        if got != want {
            return Err(format!(
                "{got} for a collection that formats within digit(){}, expected {want}",
                if panicked { ", after it panicked there" } else { "" }
            ));
        }
        if let Some(bad) = busy.deep.borrow().iter().find(|g| **g != want) {
            return Err(format!("{bad} when asked from within its own digit(), expected {want}"));
        }
        for (i, (sys, ty, n)) in inner.iter().enumerate() {
            let got = one_call(*sys, *ty, n.0);
            if got != busy.want[i] {
                return Err(format!("afterwards {} of {ty:?} {} gives {got:?}, on its own {:?}", sys.name(), n.0, busy.want[i]));
            }
        }
        let asked = busy.asked.get() > 0;
        Ok(obs(
            asked && !inner.is_empty(),
            match (asked, panicked) {
                (true, true) => "nested, after a panic",
                (true, false) => "nested",
                _ => "no digits asked for",
            },
        ))
    }
}

fn shared(what: &Shared, calls: &[(Ty, Wide)]) -> Res {
    if calls.is_empty() {
        return Ok(obs(false, "empty"));
    }
    if matches!(what, Shared::Coll(c) if c.checked_len().is_none()) {
        return Ok(obs(false, "no such collection"));
    }
    let additive: Vec<(&'static str, u128)> = match what {
        Shared::Additive(set) => {
            symbols_of(set)
        }
        _ => vec![],
    };
    let mut want: Vec<String> = Vec::with_capacity(calls.len());
    for (_, n) in calls {
        let n = n.0;
        let mut t = String::new();
        let m = match what {
            Shared::Coll(c) => c.model(n, limit(), &mut t),
            Shared::Fixed(c) => c.model(n, limit(), &mut t),
            Shared::Additive(_) => {
                if model::additive_steps(&additive, n, true) > 20_000 {
                    return Ok(obs(false, "skipped: giant"));
                }
                model::additive(&additive, n, limit(), &mut t)
            }
            Shared::Enumerated(len, zero) => {
                let (m, text) = enumerated_model(ENUM_SIZES[*len as usize % ENUM_SIZES.len()], *zero, n);
                t = text.to_string();
                m
            }
        };
        want.push(expected(m, t, n).0);
    }
    let run = |s: &dyn AdditiveObj| -> Result<(), String> {
        let len = calls.len();
        let step = (1..len).rev().find(|s| gcd(*s, len) == 1).unwrap_or(1);
        let order = (0..len).chain((0..len).rev()).chain((0..len).map(|k| (len / 2 + k * step) % len));
        for (k, i) in order.enumerate() {
            let (ty, n) = calls[i];
            let got = with_ty!(ty, T => show(&any_format::<T>(s, n.0).0));
            if got != want[i] {
                return Err(format!("{ty:?} {} as call {k} of one object gives {got}, expected {}", n.0, want[i]));
            }
        }
        Ok(())
    };
    with_object(what, &run)?;
    Ok(obs(calls.len() > 1, "one object"))
}

/// Builds a user-made collection or set and hands it over.
fn with_object(what: &Shared, run: &dyn Fn(&dyn AdditiveObj) -> Result<(), String>) -> Result<(), String> {
    struct Go<'a>(&'a dyn Fn(&dyn AdditiveObj) -> Result<(), String>);
    impl Visit for Go<'_> {
        type Out = Result<(), String>;
        fn visit<D: DigitCollection>(self, d: D) -> Self::Out {
            (self.0)(&d)
        }
    }
    match what {
        Shared::Coll(c) => colls::visit(c, Go(run)),
        Shared::Fixed(c) => c.visit(Go(run)),
        Shared::Additive(set) => {
            let set: Vec<(&'static str, u128)> =
                symbols_of(set);
            with_additive(&set, &mut |s| run(s))
        }
        Shared::Enumerated(len, zero) => {
            let len = ENUM_SIZES[*len as usize % ENUM_SIZES.len()];
            macro_rules! sized {
                ($($n:literal)*) => {
                    match (len, zero) {
                        $(
                            ($n, true) => run(&EnumeratedSet::<$n, true>::new(std::array::from_fn(|i| NAMES_OF[i]))),
                            ($n, false) => run(&EnumeratedSet::<$n, false>::zeroless(std::array::from_fn(|i| NAMES_OF[i]))),
                        )*
                        #[cfg(not(miri))]
                        (BIG, true) => run(&BIG_SETS.0),
                        #[cfg(not(miri))]
                        (BIG, false) => run(&BIG_SETS.1),
                        _ => unreachable!(),
                    }
                };
            }
            sized!(0 1 2 3 5 10 50 51 100 254 255 256 257 300)
        }
    }
}

/// C15 and C16 for what users make; nothing else is judged here.
fn made_by_user(prop: &str, what: &Shared, ty: Ty, n: u128) -> Res {
    match what {
        Shared::Coll(c) if c.checked_len().is_none() => return Ok(obs(false, "no such collection")),
        Shared::Additive(set) => {
            let symbols: Vec<(&'static str, u128)> =
                symbols_of(set);
            if model::additive_steps(&symbols, n, cfg!(feature = "alloc")) > if prop == "C16" { 20_000 } else { 300_000 } {
                return Ok(obs(false, "skipped: giant"));
            }
        }
        _ => {}
    }
    let seen = std::cell::Cell::new((0, false));
    with_object(what, &|s| {
        if prop == "C15" {
            return with_ty!(ty, T => {
                let (r, text) = any_format::<T>(s, n);
                seen.set((2, r.is_err()));
                fallback_rule(&r, &text, n)
            });
        }
        let mut first: Option<(Ty, String)> = None;
        for ty in TYPES.into_iter().filter(|t| t.holds(n)) {
            let got = with_ty!(ty, T => {
                let (r, text) = any_format::<T>(s, n);
                seen.set((seen.get().0 + 1, r.is_err()));
                format!("{} / {:?}", show(&r), &*text)
            });
            match &first {
                None => first = Some((ty, got)),
                Some((t0, f)) if *f != got => {
                    return Err(format!("{n} as {t0:?} gives {f}, as {ty:?} {got}"));
                }
                _ => {}
            }
        }
        Ok(())
    })?;
    let (types, error) = seen.get();
    Ok(obs(
        types > 1 && (n > 0 || error),
        match (what, error) {
            (_, true) => "made by a user: error",
            (Shared::Coll(_), _) => "made by a user: collection",
            (Shared::Fixed(_), _) => "made by a user: fixed collection",
            (Shared::Additive(_), _) => "made by a user: additive set",
            (Shared::Enumerated(..), _) => "made by a user: enumerated set",
        },
    ))
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

// -------------------------------------------------------------- shrinking

fn smaller_n(n: u128) -> Vec<u128> {
    let mut v = vec![0, 1, 2, 9, 10, 26, 100, 255, 256, 10_000, 65_535, 65_536];
    // Drop the leading digit, zero single digits, decrement single digits.
    let s = n.to_string();
    for (i, c) in s.chars().enumerate() {
        let place = 10u128.pow((s.len() - 1 - i) as u32);
        if c != '0' {
            v.push(n - (c as u128 - '0' as u128) * place);
            v.push(n - place);
        }
        v.push(n / place / 10 * place + n % place);
    }
    v.extend([n / 2, n / 3, n / 10, n.saturating_sub(1)]);
    v.retain(|x| *x < n);
    v.sort_unstable();
    v.dedup();
    v
}

fn smaller_text(t: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let mut v = Vec::new();
    if cs.len() > 8 {
        v.push(cs[..cs.len() / 2].iter().collect());
        v.push(cs[cs.len() / 2..].iter().collect());
        v.push(cs[..cs.len() - 4].iter().collect());
    }
    for i in 0..cs.len().min(80) {
        v.push(cs[..i].iter().chain(&cs[i + 1..]).collect());
    }
    for i in 0..cs.len().min(80) {
        if cs[i] != 'a' {
            let mut c = cs.clone();
            c[i] = 'a';
            v.push(c.iter().collect());
        }
    }
    v
}

fn smaller_vec<X: Clone>(v: &[X]) -> Vec<Vec<X>> {
    let mut out = Vec::new();
    let mut size = v.len();
    while size > 0 {
        let mut i = 0;
        while i < v.len() {
            let end = (i + size).min(v.len());
            let mut w = v[..i].to_vec();
            w.extend_from_slice(&v[end..]);
            out.push(w);
            i += size;
        }
        size /= 2;
    }
    out
}

fn smaller_ops(ops: &[Op]) -> Vec<Vec<Op>> {
    let mut out = smaller_vec(ops);
    for (i, op) in ops.iter().enumerate() {
        let alts: Vec<Op> = match op {
            Op::Push(c) if *c != 'a' => vec![Op::Push('a')],
            Op::PushFront(c) if *c != 'a' => vec![Op::PushFront('a')],
            Op::PushStr(s) => smaller_text(s).into_iter().map(Op::PushStr).collect(),
            _ => vec![],
        };
        for a in alts {
            let mut w = ops.to_vec();
            w[i] = a;
            out.push(w);
        }
    }
    out
}

impl Case {
    /// Whether the case is one the generators may make: not an additive
    /// numeral of astronomical length (those are the known finding of C19).
    pub fn feasible(&self) -> bool {
        if cfg!(not(feature = "alloc")) {
            return true;
        }
        match self {
            Case::Fmt { sys, n, .. }
            | Case::Pointer { sys, n, .. }
            | Case::History { init: Init::Formatted(sys, _, n), .. } => *n <= model::cap(*sys, model::FAR),
            Case::Pair { sys, a, b } => a.max(b) <= &model::cap(*sys, model::FAR),
            Case::Coll { coll, n, .. } => {
                coll.has_zero() || coll.checked_len() != Some(1) || *n <= 3_000
            }
            Case::Fixed { coll, n, .. } => *n <= coll.top(),
            Case::Additive { set, n, .. } => {
                let symbols: Vec<(&str, u128)> =
                    symbols_of(set);
                model::additive_steps(&symbols, *n, true) <= 20_000
            }
            Case::Shared { what, calls } => match what {
                Shared::Coll(c) if !c.has_zero() && c.checked_len() == Some(1) => {
                    calls.iter().all(|(_, n)| n.0 <= 3_000)
                }
                Shared::Fixed(c) => calls.iter().all(|(_, n)| n.0 <= c.top()),
                _ => true,
            },
            Case::Nested { coll, n, inner, .. } => {
                (coll.has_zero() || coll.checked_len() != Some(1) || *n <= 300)
                    && inner.iter().all(|(sys, _, n)| n.0 <= model::cap(*sys, 300))
            }
            Case::Calls { calls, .. } => {
                calls.iter().all(|(sys, _, n)| n.0 <= model::cap(*sys, 300))
            }
            _ => true,
        }
    }

    /// Whether no type earlier in TYPES holds the nominal of a collection or set.
    pub fn in_smallest_type(&self) -> bool {
        match self {
            Case::Coll { ty, n, .. } | Case::Fixed { ty, n, .. } | Case::Additive { ty, n, .. } | Case::Enumerated { ty, n, .. } => {
                TYPES.into_iter().find(|t| t.holds(*n)) == Some(*ty)
            }
            _ => true,
        }
    }

    /// Simpler cases to try, simplest first.
    pub fn smaller(&self) -> Vec<Case> {
        let mut v = self.candidates();
        v.retain(Case::feasible);
        v
    }

    fn candidates(&self) -> Vec<Case> {
        let mut out = Vec::new();
        let mut with_n = |n: u128, ty: Ty, make: &dyn Fn(Ty, u128) -> Case| {
            for x in smaller_n(n) {
                out.push(make(ty, x));
            }
        };
        match self.clone() {
            Case::Fmt { sys, ty, n } => with_n(n, ty, &|ty, n| Case::Fmt { sys, ty, n }),
            Case::Pair { sys, a, b } => {
                for x in smaller_n(a) {
                    out.push(Case::Pair { sys, a: x, b });
                }
                for x in smaller_n(b) {
                    out.push(Case::Pair { sys, a, b: x });
                }
            }
            Case::Nested { coll, ty, n, inner, panic_at } => {
                let outer = n;
                let make = |coll: &Coll, n: u128, inner: &[(Sys, Ty, Wide)], panic_at: u8| {
                    Case::Nested { coll: coll.clone(), ty, n, inner: inner.to_vec(), panic_at }
                };
                for x in smaller_vec(&inner) {
                    out.push(make(&coll, n, &x, panic_at));
                }
                for p in 0..panic_at {
                    out.push(make(&coll, n, &inner, p));
                }
                for c in coll.smaller() {
                    out.push(make(&c, n, &inner, panic_at));
                }
                for x in smaller_n(n) {
                    out.push(make(&coll, x, &inner, panic_at));
                }
                for (i, x) in inner.iter().enumerate() {
                    for n in smaller_n(x.2 .0) {
                        let mut v = inner.clone();
                        v[i].2 = Wide(n);
                        out.push(make(&coll, outer, &v, panic_at));
                    }
                }
            }
            Case::Coll { coll, ty, n, at } => {
                for c in coll.smaller() {
                    out.push(Case::Coll { coll: c, ty, n, at });
                }
                if at > 0 {
                    out.push(Case::Coll { coll: coll.clone(), ty, n, at: 0 });
                }
                for x in smaller_n(n) {
                    out.push(Case::Coll { coll: coll.clone(), ty, n: x, at });
                }
            }
            Case::Fixed { coll, ty, n } => {
                for c in coll.smaller() {
                    out.push(Case::Fixed { coll: c, ty, n });
                }
                for x in smaller_n(n) {
                    out.push(Case::Fixed { coll: coll.clone(), ty, n: x });
                }
            }
            Case::Additive { set, ty, n } => {
                for s in smaller_vec(&set) {
                    out.push(Case::Additive { set: s, ty, n });
                }
                for x in smaller_n(n) {
                    out.push(Case::Additive { set: set.clone(), ty, n: x });
                }
            }
            Case::AddNew { values } => {
                out.extend(smaller_vec(&values).into_iter().map(|values| Case::AddNew { values }));
            }
            Case::Enumerated { len, zero, ty, n } => {
                if len > 0 {
                    out.push(Case::Enumerated { len: len - 1, zero, ty, n });
                }
                for x in smaller_n(n) {
                    out.push(Case::Enumerated { len, zero, ty, n: x });
                }
            }
            Case::Values { shape, a, b, ty, n } => {
                for x in smaller_n(n) {
                    out.push(Case::Values { shape, a: a.clone(), b: b.clone(), ty, n: x });
                }
                for o in smaller_vec(&a.opts) {
                    out.push(Case::Values { shape, a: Made { opts: o, ..a.clone() }, b: b.clone(), ty, n });
                }
                for o in smaller_vec(&b.opts) {
                    out.push(Case::Values { shape, a: a.clone(), b: Made { opts: o, ..b.clone() }, ty, n });
                }
                // Towards equal values, then towards smaller ones, in step.
                for i in 0..2 {
                    let mut m = b.clone();
                    (m.parts[i], m.cuts[i]) = (a.parts[i], a.cuts[i]);
                    if m != b {
                        out.push(Case::Values { shape, a: a.clone(), b: m, ty, n });
                    }
                    for (len, cut, base) in [(1, 0, 0), (0, 1, 0), (0, 0, 1)] {
                        let less = |m: &Made| {
                            let mut m = m.clone();
                            m.parts[i].len = m.parts[i].len.saturating_sub(len);
                            m.cuts[i] = m.cuts[i].saturating_sub(cut);
                            m.parts[i].base = m.parts[i].base.saturating_sub(base);
                            m
                        };
                        let (x, y) = (less(&a), less(&b));
                        if x != a || y != b {
                            out.push(Case::Values { shape, a: x, b: y, ty, n });
                        }
                    }
                }
            }
            Case::Options { trad, formal, opts, ty, n } => {
                for o in smaller_vec(&opts) {
                    out.push(Case::Options { trad, formal, opts: o, ty, n });
                }
                for x in smaller_n(n) {
                    out.push(Case::Options { trad, formal, opts: opts.clone(), ty, n: x });
                }
            }
            Case::ErrValue { kind, ty, n, asked, text } => {
                for x in smaller_n(n) {
                    out.push(Case::ErrValue { kind, ty, n: x, asked, text: text.clone() });
                }
                if asked > 0 {
                    out.push(Case::ErrValue { kind, ty, n, asked: 0, text: text.clone() });
                }
                for t in smaller_text(&text) {
                    out.push(Case::ErrValue { kind, ty, n, asked, text: t });
                }
            }
            Case::Pointer { sys, layers, ty, n } => {
                for l in smaller_vec(&layers) {
                    out.push(Case::Pointer { sys, layers: l, ty, n });
                }
                for x in smaller_n(n) {
                    out.push(Case::Pointer { sys, layers: layers.clone(), ty, n: x });
                }
            }
            Case::PointerUser { layers, ok, ty, n } => {
                for l in smaller_vec(&layers) {
                    out.push(Case::PointerUser { layers: l, ok, ty, n });
                }
                for x in smaller_n(n) {
                    out.push(Case::PointerUser { layers: layers.clone(), ok, ty, n: x });
                }
            }
            Case::History { init, ops } => {
                for o in smaller_ops(&ops) {
                    out.push(Case::History { init: init.clone(), ops: o });
                }
                let inits: Vec<Init> = match &init {
                    Init::Str(s) => smaller_text(s).into_iter().map(Init::Str).collect(),
                    Init::Owned(s) => smaller_text(s).into_iter().map(Init::Owned).collect(),
                    Init::Ref(s) => smaller_text(s).into_iter().map(Init::Ref).collect(),
                    Init::Formatted(s, t, n) => {
                        smaller_n(*n).into_iter().map(|n| Init::Formatted(*s, *t, n)).collect()
                    }
                    _ => vec![],
                };
                for i in inits {
                    out.push(Case::History { init: i, ops: ops.clone() });
                }
            }
            Case::Twins { seed, ops } => {
                for o in smaller_ops(&ops) {
                    out.push(Case::Twins { seed: seed.clone(), ops: o });
                }
                for s in smaller_text(&seed) {
                    out.push(Case::Twins { seed: s, ops: ops.clone() });
                }
            }
            Case::Texts { texts, width, prec } => {
                for i in 0..3 {
                    for t in smaller_text(&texts[i].text) {
                        let mut x = texts.clone();
                        x[i].text = t;
                        out.push(Case::Texts { texts: x, width, prec });
                    }
                    if texts[i].form > 0 {
                        let mut x = texts.clone();
                        x[i].form = 0;
                        out.push(Case::Texts { texts: x, width, prec });
                    }
                }
                for w in [0, width / 2, width.saturating_sub(1)] {
                    if w < width {
                        out.push(Case::Texts { texts: texts.clone(), width: w, prec });
                    }
                }
                for p in [0, prec / 2, prec.saturating_sub(1)] {
                    if p < prec {
                        out.push(Case::Texts { texts: texts.clone(), width, prec: p });
                    }
                }
            }
            Case::Shared { what, calls } => {
                for c in smaller_vec(&calls) {
                    out.push(Case::Shared { what: what.clone(), calls: c });
                }
                let simpler: Vec<Shared> = match &what {
                    Shared::Coll(c) => c.smaller().into_iter().map(Shared::Coll).collect(),
                    Shared::Fixed(c) => c.smaller().into_iter().map(Shared::Fixed).collect(),
                    Shared::Additive(s) => smaller_vec(s).into_iter().map(Shared::Additive).collect(),
                    Shared::Enumerated(l, z) => {
                        l.checked_sub(1).map(|l| Shared::Enumerated(l, *z)).into_iter().collect()
                    }
                };
                for what in simpler {
                    out.push(Case::Shared { what, calls: calls.clone() });
                }
                for (i, (t, n)) in calls.iter().enumerate() {
                    for x in smaller_n(n.0).into_iter().take(12) {
                        let mut c = calls.clone();
                        c[i] = (*t, Wide(x));
                        out.push(Case::Shared { what: what.clone(), calls: c });
                    }
                }
            }
            Case::Calls { calls, threads } => {
                if threads > 1 {
                    out.push(Case::Calls { calls: calls.clone(), threads: 1 });
                }
                for c in smaller_vec(&calls) {
                    out.push(Case::Calls { calls: c, threads });
                }
                for (i, (s, t, n)) in calls.iter().enumerate() {
                    for x in smaller_n(n.0).into_iter().take(12) {
                        let mut c = calls.clone();
                        c[i] = (*s, *t, Wide(x));
                        out.push(Case::Calls { calls: c, threads });
                    }
                }
            }
        }
        out
    }
}
