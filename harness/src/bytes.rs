//! Cases read from a fuzzer's bytes. Anything reads as something; what no
//! check may be asked for gives None.
use crate::cases::{Case, Shared, Wide, ENUM_SIZES, SYMS};
use crate::colls::{Coll, FixColl, FixLeaf, Wrap, FALLS, SIZES};
use crate::model;
use crate::num::{Ty, TYPES};
use crate::strings::{Init, Op, Text, FORMS};
use crate::systems::{Sys, Zh, COLLECTIONS};
use crate::values::{Made, Part, SHAPES};

fn collections(zero: bool) -> Vec<Sys> {
    (0..COLLECTIONS)
        .map(|i| Sys::B(i as u8))
        .filter(|s| {
            let Sys::B(i) = s else { unreachable!() };
            let (_, z, zb, fixed) = model::flat_builtin(*i);
            z == zero && zb && !fixed
        })
        .collect()
}

pub fn zh(scales: &[u8]) -> Vec<Sys> {
    Sys::chinese()
        .into_iter()
        .filter(|s| matches!(s, Sys::Zh(Zh { scale, .. }) if scales.contains(scale)))
        .collect()
}

/// The built-in systems a property speaks about.
pub fn systems_of(prop: &str) -> Vec<Sys> {
    match prop {
        "C01" => collections(true),
        "C02" => collections(false),
        "C05" => Sys::named(&["CjkHeavenlyStem", "CjkEarthlyBranch"]),
        "C07" => Sys::named(&["RomanUpper", "RomanLower"]),
        "C08" => Sys::named(&[
            "ArmenianUpper", "ArmenianLower", "Georgian", "JapaneseFormal", "JapaneseInformal",
            "HangeulFormal", "HanjaInformal", "HanjaFormal",
        ]),
        "C09" => Sys::named(&["Hebrew"]),
        "C10" => Sys::named(&["Ethiopic"]),
        "C11" => zh(&[0, 2, 3]),
        "C12" => zh(&[1]),
        "C13" => Sys::chinese(),
        "C14" => Sys::named(&["CircledNumber", "DoubleCircledNumber"]),
        _ => Sys::all(),
    }
}

/// Which kinds of case a property's oracle takes; empty: not fuzzed.
pub fn kinds(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" | "C02" => &["fmt", "fmt", "set"],
        "C03" => &["coll"],
        "C04" => &["coll"],
        "C05" => &["fmt", "fixed", "fixed"],
        "C06" => &["additive", "additive", "additive", "addnew"],
        "C07" | "C08" | "C09" | "C10" | "C11" | "C12" => &["fmt"],
        "C13" => &["fmt", "options"],
        "C14" => &["fmt", "enumerated"],
        "C15" => &["fmt", "fmt", "coll", "err", "fixed", "additive", "enumerated"],
        "C16" => &["fmt", "fmt", "coll", "fixed", "additive", "enumerated"],
        "C17" => &["pointer", "pointer", "user"],
        "C18" => &["pair"],
        "C19" => &["fmt", "fmt", "coll", "fixed", "additive", "enumerated"],
        "C20" => &["history"],
        "C21" => &["twins"],
        "C22" => &["texts"],
        "C24" => &["fmt", "fmt", "additive", "coll", "fixed", "enumerated", "history"],
        "C25" => &["calls", "shared", "nested"],
        "C26" => &["fmt", "coll", "fixed", "additive", "enumerated", "twins"],
        "C28" => &["values"],
        "C29" => &[
            "history", "fmt", "history", "coll", "twins", "additive", "texts", "pointer", "user", "err",
            "fixed", "enumerated", "values", "shared",
        ],
        _ => &[],
    }
}

pub struct Bytes<'a>(&'a [u8]);

impl Bytes<'_> {
    fn byte(&mut self) -> u8 {
        match self.0.split_first() {
            Some((b, rest)) => {
                self.0 = rest;
                *b
            }
            None => 0,
        }
    }
    fn wide(&mut self, bytes: u32) -> u128 {
        (0..bytes).fold(0, |n, i| n | u128::from(self.byte()) << (8 * i))
    }
    fn below(&mut self, n: usize) -> usize {
        if n <= 256 {
            usize::from(self.byte()) % n
        } else {
            self.wide(2) as usize % n
        }
    }
    fn pick<T: Copy>(&mut self, of: &[T]) -> T {
        of[self.below(of.len())]
    }
    fn flag(&mut self) -> bool {
        self.byte() & 1 == 1
    }
    fn ty(&mut self) -> Ty {
        self.pick(&TYPES)
    }
    fn nominal(&mut self, ty: Ty, top: u128) -> u128 {
        let n = self.wide(ty.bits() / 8);
        let top = top.min(ty.max());
        if n > top { n % (top + 1) } else { n }
    }
    /// A length, a long one now and then.
    fn length(&mut self) -> u64 {
        match self.byte() {
            b @ 0..=199 => u64::from(b % 50),
            200..=229 => self.wide(2) as u64,
            230..=249 => 1u64.wrapping_shl(self.byte().into()).wrapping_add(u64::from(self.byte() % 3)).wrapping_sub(1) >> 2,
            _ => (self.wide(8) >> 3) as u64,
        }
    }
    fn ch(&mut self) -> char {
        match self.byte() {
            b @ 0..=127 => b as char,
            128..=159 => char::from_u32(0x80 + self.wide(2) as u32 % 0x780).unwrap(),
            160..=199 => char::from_u32(0x800 + self.wide(2) as u32 % 0xD000).unwrap(),
            200..=229 => char::from_u32(0x1_0000 + self.wide(3) as u32 % 0x10_0000).unwrap(),
            _ => self.pick(&['é', '\u{305}', '零', '\u{7FF}', '\u{FFFD}', '\u{FFFF}', '\u{10FFFF}', '\u{1F600}']),
        }
    }
    fn text(&mut self, max: usize) -> String {
        let mut s = String::new();
        let n = self.byte();
        if n & 0xC0 == 0xC0 {
            // One character, over and over, up to near the capacity.
            let c = self.ch();
            while s.len() < (usize::from(n) - 140).min(max) {
                s.push(c);
            }
        } else {
            for _ in 0..n % 24 {
                s.push(self.ch());
            }
        }
        s
    }
    fn leaf(&mut self) -> Coll {
        match self.byte() % 8 {
            0 => Coll::Nothing,
            1 | 2 => {
                let all = crate::colls::plain_builtins();
                Coll::Builtin(self.pick(&all))
            }
            3..=5 => Coll::Set { size: self.below(SIZES.len()) as u8, zero: self.flag(), base: self.byte().into() },
            _ => Coll::User { len: self.length(), zero: self.flag(), zero_based: self.flag(), base: self.byte().into() },
        }
    }
    fn coll(&mut self, depth: u32) -> Coll {
        let how = if depth == 0 { 0 } else { self.byte() % 8 };
        match how {
            3 | 4 => Coll::Chain(how == 3, Box::new(self.coll(depth - 1)), Box::new(self.coll(depth - 1))),
            5 | 6 => Coll::Restrict(self.length(), Box::new(self.coll(depth - 1))),
            7 => Coll::OneBased(self.flag(), Box::new(self.coll(depth - 1))),
            _ => self.leaf(),
        }
    }
    fn fixed(&mut self) -> FixColl {
        let leaf = match self.byte() % 6 {
            0 => FixLeaf::Stem,
            1 => FixLeaf::Branch,
            _ => FixLeaf::User { len: self.length(), zero: self.flag(), zero_based: self.flag(), base: self.byte().into(), fall: self.pick(&FALLS) },
        };
        let wrap = match self.byte() % 7 {
            0 => Wrap::Bare,
            1 => Wrap::OneBased,
            2 => Wrap::Restrict(self.length()),
            3 => Wrap::OneBasedOfRestrict(self.length()),
            4 => Wrap::RestrictOfOneBased(self.length()),
            5 => Wrap::RestrictTwice(self.length(), self.length()),
            _ => Wrap::TwiceOneBased,
        };
        FixColl { leaf, wrap }
    }
    fn weights(&mut self) -> Vec<Wide> {
        let n = self.byte() % 9;
        (0..n)
            .map(|_| {
                let width = [1, 1, 2, 4, 8, 16][self.below(6)];
                Wide(self.wide(width))
            })
            .collect()
    }
    fn additive(&mut self) -> Vec<(u8, Wide)> {
        let mut values = self.weights();
        values.sort_by(|a, b| b.cmp(a));
        values.dedup();
        values.into_iter().map(|v| (self.below(SYMS.len()) as u8, v)).collect()
    }
    fn op(&mut self) -> Op {
        match self.byte() % 18 {
            0..=3 => Op::Push(self.ch()),
            4..=7 => Op::PushFront(self.ch()),
            8..=10 => Op::PushStr(self.text(300)),
            11 => Op::Upper,
            12 => Op::Lower,
            13 => Op::UpperPart(self.byte(), self.byte()),
            14 => if self.flag() { Op::Clone } else { Op::CloneSwap },
            15 => Op::CloneFrom(self.text(90)),
            16 => if self.flag() { Op::ThroughString } else { Op::TryInto },
            _ => Op::ThroughStr,
        }
    }
    fn made(&mut self) -> Made {
        let mut part = || Part { len: self.byte() % 9, zero: self.flag(), base: self.byte() % 4 };
        let parts = [part(), part()];
        let cuts = [self.length(), self.length()];
        let n = self.byte() % 6;
        Made { parts, cuts, opts: (0..n).map(|_| self.byte() % 5).collect() }
    }
}

/// The symbols a purely additive numeral may need.
fn top(sys: Sys, ty: Ty) -> u128 {
    if cfg!(feature = "alloc") { model::cap(sys, 300).min(ty.max()) } else { ty.max() }
}

pub fn case(prop: &str, systems: &[Sys], data: &[u8]) -> Option<Case> {
    let mut b = Bytes(data);
    let b = &mut b;
    let case = match b.pick(kinds(prop)) {
        "fmt" => {
            let (sys, ty) = (b.pick(systems), if prop == "C16" { Ty::u128 } else { b.ty() });
            Case::Fmt { sys, ty, n: b.nominal(ty, top(sys, ty)) }
        }
        "pair" => {
            let sys = b.pick(systems);
            let top = top(sys, Ty::u128);
            Case::Pair { sys, a: b.nominal(Ty::u128, top), b: b.nominal(Ty::u128, top) }
        }
        "set" => {
            let zero = prop == "C01";
            let coll = match b.leaf() {
                Coll::Set { size, base, .. } => Coll::Set { size: size.max(2), zero, base },
                Coll::User { len, base, .. } => Coll::User { len: len.max(2), zero, zero_based: true, base },
                _ => return None,
            };
            let ty = b.ty();
            Case::Coll { coll, ty, n: b.nominal(ty, u128::MAX), at: b.wide(8) as u64 }
        }
        "coll" => {
            let coll = b.coll(4);
            let ty = b.ty();
            let len = coll.checked_len()?;
            let top = if len == 1 && !coll.has_zero() { 3_000 } else { u128::MAX };
            Case::Coll { coll, ty, n: b.nominal(ty, top), at: b.wide(8) as u64 }
        }
        "fixed" => {
            let (coll, ty) = (b.fixed(), b.ty());
            let top = coll.top();
            Case::Fixed { coll, ty, n: b.nominal(ty, top) }
        }
        "additive" => {
            let (set, ty) = (b.additive(), b.ty());
            let first = set.iter().find(|s| s.1 .0 <= ty.max()).map_or(1, |s| s.1 .0.max(1));
            let top = if cfg!(feature = "alloc") { first.saturating_mul(150) } else { u128::MAX };
            Case::Additive { set, ty, n: b.nominal(ty, top) }
        }
        "addnew" => {
            let mut values = b.weights();
            if b.flag() {
                values.sort_by(|a, b| b.cmp(a));
            }
            Case::AddNew { values }
        }
        "enumerated" => {
            let (len, zero, ty) = (b.below(ENUM_SIZES.len()) as u8, b.flag(), b.ty());
            Case::Enumerated { len, zero, ty, n: b.nominal(ty, u128::MAX) }
        }
        "options" => {
            let (trad, formal, k, ty) = (b.flag(), b.flag(), b.byte() % 7, b.ty());
            let opts = (0..k).map(|_| b.byte() % 5).collect();
            Case::Options { trad, formal, opts, ty, n: b.nominal(ty, u128::MAX) }
        }
        "err" => {
            let (kind, ty) = (b.byte() % 4, b.ty());
            let (n, asked) = (b.nominal(ty, u128::MAX), b.nominal(ty, u128::MAX));
            let mut text = b.text(80);
            while !cfg!(feature = "alloc") && text.len() > 62 {
                text.pop();
            }
            Case::ErrValue { kind, ty, n, asked, text }
        }
        kind @ ("pointer" | "user") => {
            let k = b.byte() % 5;
            let layers = (0..k).map(|_| b.byte() % 3).collect();
            if kind == "user" {
                let (ok, ty) = (b.flag(), b.ty());
                Case::PointerUser { layers, ok, ty, n: b.nominal(ty, u128::MAX) }
            } else {
                let (sys, ty) = (b.pick(systems), b.ty());
                Case::Pointer { sys, layers, ty, n: b.nominal(ty, top(sys, ty)) }
            }
        }
        "history" => {
            let init = match b.byte() % 8 {
                0 => Init::New,
                1 | 2 => Init::NewReverse,
                3 => Init::Default,
                4 => Init::Char(b.ch()),
                5 => Init::Str(b.text(300)),
                6 => if b.flag() { Init::Owned(b.text(300)) } else { Init::Ref(b.text(300)) },
                _ => {
                    let (sys, ty) = (b.pick(systems), b.ty());
                    Init::Formatted(sys, ty, b.nominal(ty, top(sys, ty)))
                }
            };
            let mut ops = Vec::new();
            while !b.0.is_empty() && ops.len() < 60 {
                ops.push(b.op());
            }
            Case::History { init, ops }
        }
        "twins" => {
            let seed = b.text(90);
            let mut ops = Vec::new();
            while !b.0.is_empty() && ops.len() < 60 {
                ops.push(match b.byte() % 12 {
                    0..=3 => Op::Push(b.ch()),
                    4..=7 => Op::PushFront(b.ch()),
                    8..=10 => Op::PushStr(b.text(300)),
                    _ => Op::CloneSwap,
                });
            }
            Case::Twins { seed, ops }
        }
        "texts" => {
            let mut amount = |usual: u8| match b.byte() {
                x if x < 240 => u16::from(x % usual),
                x => u16::from(x - 240) * 256 + u16::from(b.byte() % 2),
            };
            let (width, prec) = (amount(110), amount(80));
            let mut text = || Text { form: b.byte() % FORMS, text: b.text(300) };
            let mut texts = [text(), text(), text()];
            match b.byte() % 4 {
                0 => texts[1].text = texts[0].text.clone(),
                1 => {
                    let start = texts[0].text.clone();
                    texts[1].text.insert_str(0, &start);
                }
                _ => {}
            }
            Case::Texts { texts, width, prec }
        }
        "values" => {
            let shape = b.pick(&SHAPES);
            let a = b.made();
            let (mut other, keep) = (b.made(), b.byte());
            for i in 0..2 {
                if keep >> i & 1 == 1 {
                    other.parts[i] = a.parts[i];
                }
                if keep >> (i + 2) & 1 == 1 {
                    other.cuts[i] = a.cuts[i];
                }
            }
            let ty = b.ty();
            Case::Values { shape, a, b: other, ty, n: b.nominal(ty, u128::MAX) }
        }
        "calls" => {
            let mut calls = Vec::new();
            while !b.0.is_empty() && calls.len() < 24 {
                let (sys, ty) = (b.pick(systems), b.ty());
                calls.push((sys, ty, Wide(b.nominal(ty, top(sys, ty)))));
            }
            if calls.is_empty() {
                return None;
            }
            Case::Calls { calls, threads: 1 }
        }
        "nested" => {
            let coll = b.coll(3);
            let (ty, panic_at) = (b.ty(), b.byte() % 6);
            let n = b.nominal(ty, if coll.checked_len()? == 1 && !coll.has_zero() { 300 } else { u128::MAX });
            let mut inner = Vec::new();
            while !b.0.is_empty() && inner.len() < 5 {
                let (sys, ty) = (b.pick(systems), b.ty());
                inner.push((sys, ty, Wide(b.nominal(ty, top(sys, ty)))));
            }
            Case::Nested { coll, ty, n, inner, panic_at }
        }
        "shared" => {
            let (what, top) = match b.byte() % 4 {
                0 => {
                    let c = b.coll(4);
                    let len = c.checked_len()?;
                    let top = if len == 1 && !c.has_zero() { 3_000 } else { u128::MAX };
                    (Shared::Coll(c), top)
                }
                1 => {
                    let c = b.fixed();
                    let top = c.top();
                    (Shared::Fixed(c), top)
                }
                2 => {
                    let set = b.additive();
                    let first = set.first().map_or(1, |s| s.1 .0.max(1));
                    (Shared::Additive(set), first.saturating_mul(150))
                }
                _ => (Shared::Enumerated(b.below(ENUM_SIZES.len()) as u8, b.flag()), u128::MAX),
            };
            let mut calls = Vec::new();
            while !b.0.is_empty() && calls.len() < 24 {
                let ty = b.ty();
                calls.push((ty, Wide(b.nominal(ty, top))));
            }
            if let Shared::Additive(set) = &what {
                let symbols: Vec<(&str, u128)> = set.iter().map(|s| (SYMS[s.0 as usize], s.1 .0)).collect();
                calls.retain(|(_, n)| model::additive_steps(&symbols, n.0, true) <= 2_000);
            }
            if calls.is_empty() {
                return None;
            }
            Case::Shared { what, calls }
        }
        _ => return None,
    };
    case.feasible().then_some(case)
}

/// Bytes to start from: nominals at the places where numerals change.
pub fn seeds(prop: &str, systems: &[Sys]) -> Vec<Vec<u8>> {
    let kinds = kinds(prop);
    let mut out: Vec<Vec<u8>> = Vec::new();
    for (k, kind) in kinds.iter().enumerate() {
        let k = k as u8;
        if *kind == "fmt" && prop != "C16" {
            for (s, _) in systems.iter().enumerate() {
                for (t, &ty) in TYPES.iter().enumerate() {
                    let step = (s * 7 + t * 3) % 39;
                    for n in [10u128.pow(step as u32), ty.max() - step as u128, 1 << (step * 3)] {
                        let n = n & ty.max();
                        let mut v = vec![k, s as u8, t as u8];
                        v.extend(&n.to_le_bytes()[..ty.bits() as usize / 8]);
                        out.push(v);
                    }
                }
            }
        } else {
            // What the other readers make of plain patterns.
            for pattern in 0..24u8 {
                let mut v = vec![k];
                for i in 0..64u8 {
                    v.push(match pattern % 4 {
                        0 => pattern.wrapping_mul(31) ^ i.wrapping_mul(29),
                        1 => pattern,
                        2 => i.wrapping_add(pattern),
                        _ => pattern.wrapping_mul(i) >> 1,
                    });
                }
                out.push(v);
            }
        }
    }
    out
}
