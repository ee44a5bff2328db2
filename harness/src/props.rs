//! Per property: what is swept, what is generated at random, and how the
//! cases are described.
use crate::cases::{Case, Wide, ADDITIVE_SIZES, ENUM_SIZES, SYMS};
use crate::values::{Made, Part, Shape, SHAPES};
use crate::colls::{self, Coll, FixColl, FixLeaf, Wrap, FALLS, SIZES};
use crate::engine::{self, eval, Failure, Job, Outcome, Run, Sink, Stats};
use crate::bytes::systems_of;
use crate::gen;
use crate::model;
use crate::num::{Ty, TYPES};
use crate::strings::{Init, Op, Text, FORMS, LIMIT};
use crate::systems::{Sys, NAMES};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

pub struct Plan {
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

const TRUST: &str = "the reference model in harness/src/model.rs, checked against the properties' text";
const ADDITIVE: &str =
    "nominals of purely additive systems are capped at 70,000 symbols, most have at most 300 (20,000 in user-made sets)";

// ------------------------------------------------------------------- sweeps

fn tops(sys: Sys, ty: Ty) -> u128 {
    gen::top(sys, ty)
}

/// Every nominal up to `limit`, in every type.
fn dense(systems: &[Sys], limit: u128, jobs: &mut Vec<Job>) {
    for &sys in systems {
        for ty in TYPES {
            let max = limit.min(tops(sys, ty)).min(if matches!(ty, Ty::u64 | Ty::u128) { limit } else { limit.min(70_000) });
            let step = 100_000;
            let mut from = 0u128;
            while from <= max {
                let to = (from + step - 1).min(max);
                jobs.push(Box::new(move |out: &mut Sink| {
                    for n in from..=to {
                        if !out.case(Case::Fmt { sys, ty, n }) {
                            return;
                        }
                    }
                }));
                from += step;
            }
        }
    }
}

/// Powers, repunits, type limits and combinations of the code's own literals.
fn structured(radix: u128, deep: bool) -> Vec<u128> {
    let mut v: Vec<u128> = Vec::new();
    fn around(v: &mut Vec<u128>, n: u128, w: u128) {
        for d in 0..=w {
            v.push(n.wrapping_add(d));
            v.push(n.wrapping_sub(d));
        }
    }
    macro_rules! near {
        ($n:expr, $w:expr) => {
            around(&mut v, $n, $w)
        };
    }
    for r in [radix, 10, 2, 100, 10_000] {
        let (mut p, mut sum) = (1u128, 0u128);
        loop {
            near!(p, 3);
            sum = sum.wrapping_add(p);
            near!(sum, 2);
            near!(sum.wrapping_mul(r - 1), 2);
            for d in 2..r.min(10) {
                if let Some(x) = p.checked_mul(d) {
                    near!(x, 1);
                }
            }
            match p.checked_mul(r) {
                Some(x) if r > 1 => p = x,
                _ => break,
            }
        }
    }
    for ty in TYPES {
        near!(ty.max(), if deep { 2_000 } else { 300 });
    }
    let dict = gen::dictionary();
    // The work must not grow without bounds with the source's literals.
    let many = dict.len().max(250);
    let stride = (many * many).div_ceil(62_500);
    let digits = 1 + 8 * 250 / many as u128;
    for (i, &a) in dict.iter().enumerate() {
        near!(a, (if deep { 200 } else { 40 }) * 250 / many as u128);
        for (j, &b) in dict.iter().enumerate() {
            if (i * 7 + j) % stride > 0 {
                continue;
            }
            near!(a.wrapping_add(b), 1);
            near!(a.wrapping_sub(b), 0);
            if let Some(x) = a.checked_mul(b) {
                near!(x, 1);
            }
        }
        for k in 0..39 {
            for d in 1..=digits {
                v.push(a.wrapping_add(d.wrapping_mul(10u128.pow(k))));
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn special(systems: &[Sys], types: &[Ty], deep: bool, jobs: &mut Vec<Job>) {
    for &sys in systems {
        for &ty in types {
            jobs.push(Box::new(move |out: &mut Sink| {
                let max = tops(sys, ty);
                for n in structured(model::radix(sys), deep) {
                    if n > max {
                        break;
                    }
                    if !out.case(Case::Fmt { sys, ty, n }) {
                        return;
                    }
                }
            }));
        }
    }
}

/// Additive numerals of more than the usual number of symbols: around every
/// count of the largest symbol, and the largest value of each type.
fn far(systems: &[Sys], jobs: &mut Vec<Job>) {
    if gen::symbol_cap() == u128::MAX {
        return;
    }
    for &sys in systems {
        let unit = model::cap(sys, 1);
        jobs.push(Box::new(move |out: &mut Sink| {
            let counts = (300..1_100).chain((1..=40).flat_map(|k| [k * 1_000 - 1, k * 1_000, k << 8, k << 10])).chain(65_534..65_540);
            for count in counts {
                for n in [unit * count - 1, unit * count, unit * count + 1, unit * count + 10, unit * count + unit / 3] {
                    for ty in [Ty::u32, Ty::u64, Ty::u128] {
                        if ty.holds(n) && !out.case(Case::Fmt { sys, ty, n }) {
                            return;
                        }
                    }
                }
            }
            for ty in TYPES {
                for n in ty.max() - 20..=ty.max() {
                    if n <= unit.saturating_mul(model::FAR) && !out.case(Case::Fmt { sys, ty, n }) {
                        return;
                    }
                }
            }
        }));
    }
}

/// Every combination of the given group values, `count` groups of `base`.
fn group_combos(systems: &[Sys], base: u128, values: &'static [u128], count: u32, jobs: &mut Vec<Job>) {
    let total = (values.len() as u64).pow(count);
    for &sys in systems {
        for first in 0..values.len() as u64 {
            jobs.push(Box::new(move |out: &mut Sink| {
                let per = total / values.len() as u64;
                'next: for i in first * per..(first + 1) * per {
                    let (mut n, mut x) = (0u128, i);
                    let mut scale = 1u128;
                    for g in 0..count {
                        let v = values[(x % values.len() as u64) as usize];
                        x /= values.len() as u64;
                        let Some(m) = v.checked_mul(scale).and_then(|y| y.checked_add(n)) else { continue 'next };
                        n = m;
                        if g + 1 < count {
                            let Some(s) = scale.checked_mul(base) else { continue 'next };
                            scale = s;
                        }
                    }
                    let ty = if n <= u128::from(u64::MAX) && i % 3 == 0 { Ty::u64 } else { Ty::u128 };
                    if !out.case(Case::Fmt { sys, ty, n }) {
                        return;
                    }
                }
            }));
        }
    }
}

/// Every zero mask of three neighbouring four-digit groups, at every offset
/// and with or without something above and below.
fn zh_masks(systems: &[Sys], jobs: &mut Vec<Job>) {
    for &sys in systems {
        jobs.push(Box::new(move |out: &mut Sink| {
            let group = |mask: u32, digits: [u128; 4]| -> u128 {
                (0..4).filter(|p| mask >> p & 1 == 1).map(|p| digits[p as usize] * 10u128.pow(p)).sum()
            };
            for offset in 0..8u32 {
                let Some(scale) = 10u128.checked_pow(4 * offset) else { break };
                for combo in 0..16u32.pow(3) {
                    for (k, extra) in [(0, 0), (1, 1), (2, 1), (3, 9)] {
                        let g = |i: u32| group(combo >> (4 * i) & 15, if k == 0 { [1; 4] } else { [1, 2, 1, 9] });
                        let mid = g(0) + 10_000 * g(1) + 100_000_000 * g(2);
                        let Some(mut n) = mid.checked_mul(scale) else { continue };
                        if k == 2 {
                            n += extra;
                        }
                        if k & 1 == 1 {
                            let Some(x) = 10u128.checked_pow(4 * (offset + 3)).and_then(|p| p.checked_mul(extra)).and_then(|x| n.checked_add(x)) else { continue };
                            n = x;
                        }
                        for ty in [Ty::u128, Ty::u64, Ty::u32] {
                            if ty.holds(n) && !out.case(Case::Fmt { sys, ty, n }) {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
}

fn coll_sweep(prop: &str, deep: bool, jobs: &mut Vec<Job>) {
    let mut leaves: Vec<Coll> = colls::plain_builtins().into_iter().map(Coll::Builtin).collect();
    leaves.push(Coll::Nothing);
    for size in 0..SIZES.len() as u8 {
        for zero in [false, true] {
            leaves.push(Coll::Set { size, zero, base: 7 });
        }
    }
    for len in [0, 1, 2, 3, 254, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, u64::from(u32::MAX), 1 << 32, (1 << 32) + 1, u64::MAX - 1, u64::MAX] {
        for (zero, zero_based) in [(false, false), (false, true), (true, true), (true, false)] {
            leaves.push(Coll::User { len, zero, zero_based, base: 3 });
        }
    }
    let mut trees: Vec<Coll> = Vec::new();
    for l in &leaves {
        trees.push(l.clone());
        let b = || Box::new(l.clone());
        trees.push(Coll::OneBased(true, b()));
        let len = l.checked_len().unwrap();
        for k in [0, 1, 2, 3, len / 2, len.saturating_sub(1), len, len.saturating_add(1), 255, 256, u64::MAX] {
            trees.push(Coll::Restrict(k, b()));
            if prop == "C04" {
                trees.push(Coll::OneBased(false, Box::new(Coll::Restrict(k, b()))));
                trees.push(Coll::Restrict(k, Box::new(Coll::OneBased(true, b()))));
            }
        }
        if prop == "C04" && len < 1 << 61 {
            for other in [Coll::Set { size: 0, zero: false, base: 50 }, Coll::Set { size: 1, zero: true, base: 51 }, Coll::Set { size: 3, zero: false, base: 52 }, Coll::User { len: 256, zero: true, zero_based: true, base: 53 }] {
                let o = || Box::new(other.clone());
                trees.push(Coll::Chain(true, b(), o()));
                trees.push(Coll::Chain(false, o(), b()));
                trees.push(Coll::Restrict(len + 1, Box::new(Coll::Chain(true, b(), o()))));
                trees.push(Coll::OneBased(true, Box::new(Coll::Chain(true, b(), o()))));
            }
        }
    }
    let small = if deep { 3_000 } else { 400 };
    for coll in trees {
        for ty in TYPES {
            let coll = coll.clone();
            jobs.push(Box::new(move |out: &mut Sink| {
                let len = u128::from(coll.checked_len().unwrap());
                let max = if len == 1 && !coll.has_zero() && cfg!(feature = "alloc") { ty.max().min(500) } else { ty.max() };
                let mut ns: Vec<u128> = (0..small).collect();
                for p in [len, len.saturating_mul(len), len.saturating_mul(len).saturating_add(len), 256, 65_536, 1 << 32, 1 << 64, ty.max()] {
                    for d in 0..4 {
                        ns.push(p.wrapping_add(d));
                        ns.push(p.wrapping_sub(d));
                    }
                }
                for n in ns {
                    if n <= max && !out.case(Case::Coll { coll: coll.clone(), ty, n, at: n as u64 }) {
                        return;
                    }
                }
            }));
        }
    }
}

fn fixed_sweep(jobs: &mut Vec<Job>) {
    let mut leaves = vec![FixLeaf::Stem, FixLeaf::Branch];
    for len in [0, 1, 2, 5, 254, 255, 256, 257, 65_535, 65_536, 65_537, 1 << 32] {
        for (zero, zero_based) in [(false, false), (false, true), (true, true), (true, false)] {
            for fall in FALLS {
                leaves.push(FixLeaf::User { len, zero, zero_based, base: if zero_based { 7 } else { 9 }, fall });
            }
        }
    }
    for leaf in leaves {
        jobs.push(Box::new(move |out: &mut Sink| {
            let len = FixColl { leaf: leaf.clone(), wrap: Wrap::Bare }.rules().0;
            let ks = [0, 1, 2, len.saturating_sub(1), len, len + 1, 255, 256, 65_536];
            let mut wraps = vec![Wrap::Bare, Wrap::OneBased, Wrap::TwiceOneBased];
            for k in ks {
                wraps.extend([Wrap::Restrict(k), Wrap::OneBasedOfRestrict(k), Wrap::RestrictOfOneBased(k), Wrap::RestrictTwice(k, len), Wrap::RestrictTwice(len / 2, k)]);
            }
            for wrap in wraps {
                let coll = FixColl { leaf: leaf.clone(), wrap };
                let (l, ..) = coll.rules();
                let mut ns: Vec<u128> = (0..30).collect();
                for p in [u128::from(l), u128::from(len), 255, 256, 65_535, 65_536, 1 << 32, 1 << 64] {
                    for d in 0..3 {
                        ns.extend([p.wrapping_add(d), p.wrapping_sub(d)]);
                    }
                }
                for ty in TYPES {
                    for n in ns.iter().copied().chain([ty.max()]) {
                        if ty.holds(n) && n <= coll.top() && !out.case(Case::Fixed { coll: coll.clone(), ty, n }) {
                            return;
                        }
                    }
                }
            }
        }));
    }
}

fn additive_sweep(prop: &str, jobs: &mut Vec<Job>) {
    // All descending sets over a few small weights, and weights at the edges
    // of the types.
    let weights: [u128; 6] = [0, 1, 2, 3, 5, 10];
    for mask in 0u32..64 {
        jobs.push(Box::new(move |out: &mut Sink| {
            let set: Vec<(u8, Wide)> = (0..6)
                .rev()
                .filter(|i| mask >> i & 1 == 1)
                .map(|i| (((i + mask as usize) % SYMS.len()) as u8, Wide(weights[i])))
                .collect();
            for n in 0..200u128 {
                for ty in TYPES {
                    if !out.case(Case::Additive { set: set.clone(), ty, n }) {
                        return;
                    }
                }
            }
        }));
    }
    let edges: [u128; 9] = [127, 255, 256, 65_535, 65_536, u32::MAX as u128, 1 << 32, u64::MAX as u128, 1 << 64];
    for mask in 0u32..512 {
        if mask.count_ones() > 3 {
            continue;
        }
        jobs.push(Box::new(move |out: &mut Sink| {
            for tail in [&[][..], &[1u128][..], &[100, 10, 1, 0][..], &[0][..]] {
                let mut set: Vec<(u8, Wide)> = (0..9)
                    .rev()
                    .filter(|i| mask >> i & 1 == 1)
                    .map(|i| (i as u8, Wide(edges[i])))
                    .collect();
                set.extend(tail.iter().enumerate().map(|(i, v)| (i as u8 + 1, Wide(*v))));
                for &e in &edges {
                    for ty in TYPES {
                        for n in [e, e - 1, e + 1, 2 * e, e + 100, ty.max()] {
                            if ty.holds(n) && !out.case(Case::Additive { set: set.clone(), ty, n }) {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    // More symbols than any built-in set has.
    for size in ADDITIVE_SIZES {
        for step in [1u128, 3, 1 << 60] {
            jobs.push(Box::new(move |out: &mut Sink| {
                for zero in [false, true] {
                    let set: Vec<(u8, Wide)> = (u128::from(!zero)..size as u128 + u128::from(!zero))
                        .rev()
                        .map(|i| ((i % 11) as u8, Wide(i * step)))
                        .collect();
                    for n in 0..3 * size as u128 {
                        for ty in TYPES {
                            let n = n * step.min(3);
                            if ty.holds(n) && !out.case(Case::Additive { set: set.clone(), ty, n }) {
                                return;
                            }
                        }
                    }
                }
            }));
        }
        if prop == "C06" {
            // One place out of order.
            jobs.push(Box::new(move |out: &mut Sink| {
                for i in 0..size {
                    let mut values: Vec<Wide> = (0..size as u128).rev().map(Wide).collect();
                    values[i] = values[i.saturating_sub(1)];
                    if !out.case(Case::AddNew { values }) {
                        return;
                    }
                }
            }));
        }
    }
    if prop == "C06" {
        // The constructor on every short value list.
        jobs.push(Box::new(|out: &mut Sink| {
            for len in 0..5u32 {
                for i in 0..5u64.pow(len) {
                    let mut x = i;
                    let values = (0..len)
                        .map(|_| {
                            let v = [0u128, 1, 2, 5, u128::MAX][(x % 5) as usize];
                            x /= 5;
                            Wide(v)
                        })
                        .collect();
                    if !out.case(Case::AddNew { values }) {
                        return;
                    }
                }
            }
        }));
    }
}

fn enumerated_sweep(jobs: &mut Vec<Job>) {
    for len in 0..ENUM_SIZES.len() as u8 {
        for zero in [false, true] {
            for ty in TYPES {
                jobs.push(Box::new(move |out: &mut Sink| {
                    let mut ns: Vec<u128> = (0..70_000).collect();
                    for b in [16, 32, 64] {
                        for d in 0..310 {
                            ns.push((1u128 << b) + d);
                            ns.push((1u128 << b) - 1 - d);
                        }
                    }
                    ns.push(ty.max());
                    for n in ns {
                        if ty.holds(n) && !out.case(Case::Enumerated { len, zero, ty, n }) {
                            return;
                        }
                    }
                }));
            }
        }
    }
}

fn values_sweep(jobs: &mut Vec<Job>) {
    let part = |x: u8| Part { len: x % 3, zero: x / 3 % 2 == 1, base: x / 6 };
    let mut made = Vec::new();
    for p in 0..12 {
        for cut in [0, 1, 2, 3, 256, 1 << 32] {
            made.push(Made { parts: [part(p), part((p + cut as u8) % 12)], cuts: [cut, cut ^ 3], opts: vec![] });
        }
    }
    let mut chosen = Vec::new();
    for code in 0..125u8 {
        chosen.push(Made { opts: vec![code % 5, code / 5 % 5, code / 25], ..made[0].clone() });
    }
    for shape in SHAPES {
        let all = if matches!(shape, Shape::Simplified(_) | Shape::Traditional(_)) { chosen.clone() } else { made.clone() };
        for a in all.clone() {
            let all = all.clone();
            jobs.push(Box::new(move |out: &mut Sink| {
                for b in &all {
                    for (ty, n) in [(Ty::u8, 7), (Ty::u64, 10_110), (Ty::u128, 123_456_789_012_345_678_901)] {
                        if !out.case(Case::Values { shape, a: a.clone(), b: b.clone(), ty, n }) {
                            return;
                        }
                    }
                }
            }));
        }
    }
}

fn options_sweep(jobs: &mut Vec<Job>) {
    let ns: &'static [u128] = &[
        0, 1, 9, 10, 11, 19, 20, 100, 110, 1_010, 9_999, 10_000, 10_010, 99_999, 100_000, 100_010,
        110_000, 1_000_000, 10_000_000, 100_000_000, 1_000_100_010, 123_456_789_012,
        999_999_999_999_999, 1_000_000_000_000_000, 10_000_000_000_000_001, u64::MAX as u128, u128::MAX,
    ];
    for i in 0..4u8 {
        for len in 0..5u32 {
            jobs.push(Box::new(move |out: &mut Sink| {
                for code in 0..5u64.pow(len) {
                    let mut x = code;
                    let opts: Vec<u8> = (0..len)
                        .map(|_| {
                            let o = (x % 5) as u8;
                            x /= 5;
                            o
                        })
                        .collect();
                    for &n in ns {
                        for ty in [Ty::u8, Ty::u16, Ty::u64, Ty::u128] {
                            if ty.holds(n) && !out.case(Case::Options { trad: i & 1 == 1, formal: i & 2 == 2, opts: opts.clone(), ty, n }) {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
}

const WIDTHS: [char; 4] = ['a', 'é', '零', '\u{1F600}'];

/// Texts of `len` bytes from characters of one width, padded to the exact
/// length with a narrower one at either end.
fn fill(len: usize, c: char, pad_front: bool) -> String {
    let k = len / c.len_utf8();
    let pad = "-".repeat(len - k * c.len_utf8());
    let body: String = std::iter::repeat_n(c, k).collect();
    if pad_front {
        pad + &body
    } else {
        body + &pad
    }
}

/// Every buffer length and character width against every kind of final step.
fn string_sweep(twins: bool, jobs: &mut Vec<Job>) {
    for len in 0..=66usize {
        jobs.push(Box::new(move |out: &mut Sink| {
            for c in WIDTHS {
                for pad_front in [false, true] {
                    let seed = fill(len, c, pad_front);
                    let mut last: Vec<Op> = Vec::new();
                    for c in WIDTHS {
                        last.push(Op::Push(c));
                        last.push(Op::PushFront(c));
                    }
                    for l in (0..=70).chain([127, 128, 193, 194, 195, 255, 256, 257, 300, 320]) {
                        for c in WIDTHS {
                            last.push(Op::PushStr(fill(l, c, !pad_front)));
                        }
                    }
                    for op in last {
                        for ops in [vec![op.clone()], vec![op.clone(), Op::PushFront('é'), Op::Push('零')]] {
                            let case = if twins {
                                Case::Twins { seed: seed.clone(), ops }
                            } else {
                                let init = match (op.clone(), pad_front) {
                                    (Op::PushStr(s), _) if s.len() % 3 == 0 => Init::Ref(seed.clone()),
                                    (_, true) => Init::Owned(seed.clone()),
                                    _ => Init::Str(seed.clone()),
                                };
                                Case::History { init, ops }
                            };
                            if !out.case(case) {
                                return;
                            }
                        }
                    }
                    // Built up in the reverse and the forward buffer.
                    for init in [Init::NewReverse, Init::New] {
                        for first in [0u8, 1, 2] {
                            let mut ops: Vec<Op> = match first {
                                0 => seed.chars().rev().map(Op::PushFront).collect(),
                                1 => seed.chars().map(Op::Push).collect(),
                                _ => vec![Op::PushStr(seed.clone())],
                            };
                            for x in WIDTHS {
                                let mut more = ops.clone();
                                more.extend([Op::Upper, Op::PushFront(x), Op::CloneSwap, Op::Push(x), Op::PushStr("zé".into()), Op::ThroughString, Op::Push(x), Op::TryInto, Op::PushFront(x)]);
                                let case = if twins {
                                    more.retain(|o| matches!(o, Op::Push(_) | Op::PushFront(_) | Op::PushStr(_) | Op::CloneSwap));
                                    Case::Twins { seed: String::new(), ops: more }
                                } else {
                                    Case::History { init: init.clone(), ops: more }
                                };
                                if !out.case(case) {
                                    return;
                                }
                            }
                            ops.push(Op::Upper);
                        }
                    }
                }
            }
        }));
    }
}

fn texts_sweep(jobs: &mut Vec<Job>) {
    let mut texts: Vec<String> = vec![
        "".into(), "a".into(), "b".into(), "A".into(), "aa".into(), "ab".into(), "é".into(), "e\u{301}".into(),
        "零".into(), "\u{1F600}".into(), "z".into(), "\u{ffff}".into(), "\u{10000}".into(), "10".into(), "9".into(), "\0".into(),
    ];
    for l in [1, 30, 61, 62, 63, 64, 90] {
        texts.push(fill(l, 'a', false));
        texts.push(fill(l, 'é', false));
        texts.push(fill(l, '零', true));
        let mut t = fill(l, 'a', false);
        t.pop();
        t.push('b');
        texts.push(t);
    }
    let texts = std::sync::Arc::new(texts);
    for i in 0..texts.len() {
        let texts = texts.clone();
        jobs.push(Box::new(move |out: &mut Sink| {
            for j in 0..texts.len() {
                for f in 0..FORMS {
                    for g in 0..FORMS {
                        let t = |k: usize, form| Text { text: texts[k % texts.len()].clone(), form };
                        let case = Case::Texts {
                            texts: [t(i, f), t(j, g), t(i + j, f ^ g)],
                            width: (i + 3 * j) as u16 % 100,
                            prec: (3 * i + j + f as usize) as u16 % 70,
                        };
                        if !out.case(case) {
                            return;
                        }
                    }
                }
            }
        }));
    }
}

fn pointer_sweep(jobs: &mut Vec<Job>) {
    for sys in Sys::all() {
        jobs.push(Box::new(move |out: &mut Sink| {
            for layers in [vec![], vec![0], vec![1], vec![2], vec![0, 1, 2], vec![2, 1, 0], vec![1, 2], vec![2, 0, 0, 1]] {
                for ty in TYPES {
                    for n in (0..120).chain([255, 256, 9_999, 10_000, 65_535, 1 << 32, 10u128.pow(15), u64::MAX as u128, u128::MAX]) {
                        if n <= tops(sys, ty) && !out.case(Case::Pointer { sys, layers: layers.clone(), ty, n }) {
                            return;
                        }
                    }
                    for ok in [false, true] {
                        for n in [0, 1, 255] {
                            if !out.case(Case::PointerUser { layers: layers.clone(), ok, ty, n }) {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
}

fn err_sweep(jobs: &mut Vec<Job>) {
    for kind in 0..4 {
        for ty in TYPES {
            jobs.push(Box::new(move |out: &mut Sink| {
                for n in structured(10, false) {
                    if ty.holds(n) && !out.case(Case::ErrValue { kind, ty, n, asked: n / 2, text: "x".into() }) {
                        return;
                    }
                }
            }));
        }
    }
}

// --------------------------------------------------------------- injectivity

fn text_hash(t: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// All identifiers of one system against each other.
fn injective(run: &Run, out: &mut Outcome, limit: u128, random: u32) {
    let systems = Sys::all();
    engine::custom(
        run,
        "all identifiers of each system pairwise (by hash map)",
        systems.len(),
        |i, stats: &mut Stats| -> Result<(), Failure> {
            let sys = systems[i];
            let max = tops(sys, Ty::u128);
            let mut seen: HashMap<u64, u128> = HashMap::new();
            let mut add = |n: u128, stats: &mut Stats| -> Result<(), Failure> {
                // A single formatting call, evaluated as a pair with itself.
                let probe = Case::Pair { sys, a: n, b: n };
                eval("C18", &probe).map_err(|why| Failure { case: probe.clone(), why })?;
                let Some(text) = probe_text(sys, n) else { return Ok(()) };
                if let Some(&m) = seen.get(&text_hash(&text)) {
                    if m != n {
                        let case = Case::Pair { sys, a: m, b: n };
                        match eval("C18", &case) {
                            Ok(o) => stats.count(&case, o),
                            Err(why) => return Err(Failure { case, why }),
                        }
                    }
                } else {
                    stats.count(&probe, engine::obs(n > 0, "identifier compared with all others of its system"));
                    seen.insert(text_hash(&text), n);
                }
                Ok(())
            };
            for n in 0..=limit.min(max) {
                add(n, stats)?;
            }
            for n in structured(model::radix(sys), run.thorough) {
                if n <= max {
                    add(n, stats)?;
                }
            }
            let mut runner = engine::runner_for(run, "injective", i, 1);
            let raws = gen::raw();
            for _ in 0..random {
                let r = raws.new_tree(&mut runner).expect("no filters").current();
                add(r.nominal(model::radix(sys), max), stats)?;
            }
            Ok(())
        },
        out,
    );
}

fn probe_text(sys: Sys, n: u128) -> Option<String> {
    std::panic::catch_unwind(|| crate::systems::try_format(sys, n).ok().map(|s| s.to_string())).ok().flatten()
}

// --------------------------------------------------------------------- plan

pub fn plan(prop: &str) -> Plan {
    let (rule, assumptions): (&'static str, &'static [&'static str]) = match prop {
        "C01" => ("nominals of all types (exhaustive low range, powers and repunits of the radix, type limits, combinations of the source's literals, random digit patterns) in 23 positional systems and in user digit sets; non-trivial: more than one digit or an error", &[TRUST]),
        "C02" => ("nominals as for C01 in 11 alphabetic systems and in user zeroless sets, plus neighbours of every length boundary; non-trivial: more than one letter", &[TRUST]),
        "C03" => ("collections (built-in, DigitSet of 22 sizes, hand-written of any length, trees) formatted plain, one-based and twice one-based at n and n+1; non-trivial: n > 0", &[TRUST]),
        "C04" => ("trees of Chain/Restrict/OneBased over built-in, DigitSet and hand-written collections against the flat symbol list; non-trivial: at least one combinator and n > 0", &[TRUST, "parts whose lengths add up within usize"]),
        "C05" => ("both built-in fixed systems in full and user-made fixed collections (10 fallbacks x 7 wrappings) around every range end; non-trivial: every case with a defined range", &[TRUST, "fixed collections inside a Chain are outside the property"]),
        "C06" => ("symbol sets (all subsets of small weights, type-edge weights, random descending sets incl. empty, repeated and over-long symbols) and nominals that are sums of them or not; non-trivial: the set is not empty", &[TRUST, ADDITIVE]),
        "C07" | "C08" | "C09" => ("every nominal of the low range in every type, structured and random nominals up to 300 times the largest symbol, some up to 70,000 times; non-trivial: more than one symbol or an error", &[TRUST, ADDITIVE]),
        "C10" => ("every nominal of the low range in every type, all combinations of zero/one/ten-valued digit pairs, structured and random nominals; read back by an independent decoder; non-trivial: more than one symbol or an error", &[TRUST]),
        "C11" | "C12" => ("every nominal of the low range in every type, all zero masks of neighbouring four-digit groups at every position, group value combinations, structured and random nominals, in every option combination; read back by an independent decoder; non-trivial: more than one character or an error", &[TRUST]),
        "C13" => ("builder histories of up to 6 options on the four systems and all 32 configurations, at structured and random nominals, related by character replacement; non-trivial: n >= 10", &["the character tables in harness/src/model.rs"]),
        "C14" => ("both built-in sets and sets of 14 sizes, at all nominals to 70,000 and around every value that truncates into range; non-trivial: in range, zero, or close to a boundary", &[TRUST]),
        "C15" => ("all systems and generated collections and sets at all kinds of nominals, and hand-made results and systems; non-trivial: an error, or n > 0", &[ADDITIVE]),
        "C16" => ("all systems, generated collections and sets, each nominal in every type that holds it; non-trivial: at least two types", &[ADDITIVE]),
        "C17" => ("all systems behind 0 to 5 layers of Box, Rc and Arc, and a user system overriding both methods; non-trivial: n > 0 or the user system", &[ADDITIVE]),
        "C18" => ("identifiers of each built-in system collected in one map, and pairs related by digit edits; non-trivial: both nominals format and differ", &[ADDITIVE]),
        "C19" => ("all built-in systems and generated (also degenerate) collections and sets at all kinds of nominals; a case fails on panic, crash, invalid UTF-8, more than 256 MiB or 40 s of CPU time; non-trivial: an error, or n > 0", &["purely additive numerals of more than about 300 symbols (20,000 in user-made sets) are only probed as the known finding"]),
        "C20" => ("operation histories (up to some 60 steps) from 8 constructors, plus every buffer length x character width x final operation, compared with String after every step; non-trivial: at least two operations", &["std's String as the reference"]),
        "C21" => ("the same push history on 7 differently built inline strings, plus every buffer length x character width x final operation; non-trivial: within 6 bytes of the capacity or beyond", &["strings made from an owned String are outside the property"]),
        "C22" => ("triples of texts in 7 storage forms (equal, prefix, one character apart, unrelated) and 18 format specifications; non-trivial: related texts, mixed storage or real padding", &["std's str as the reference"]),
        "C24" => ("all systems, collections, sets and push histories in a build without alloc, against the same model limited to 62 bytes; non-trivial as in C01 to C20", &[TRUST]),
        "C25" => ("call sequences over systems and types, run twice, in another order, by 2 to 4 threads at once, and from within a collection's own digit() that may also panic, each call compared with the model's result for it alone; non-trivial: at least two calls", &[TRUST, ADDITIVE, "thread schedules are the operating system's, sampled, not enumerated"]),
        "C26" => ("all systems, generated collections and sets, and push histories on 7 differently built strings, with every heap request counted; non-trivial: a text, or within 6 bytes of the capacity or beyond", &["the counting allocator of harness/src/engine.rs", ADDITIVE]),
        "C27" => ("cases of the other properties (formatting in all types, collections, sets, options, errors, pointers, pairs, strings), made for 32-bit pointers and executed under Miri for foreign targets with the same oracles; non-trivial as there", &[TRUST, "Miri's emulation of the targets"]),
        "C28" => ("pairs of chains, restrictions, one-based forms and Chinese systems, made of equal, equivalent or slightly different things, each with its copy, clone and default, formatted at a generated nominal and 12 fixed ones; non-trivial: n > 0", &[]),
        "C29" => ("push and operation histories, triples of texts, systems behind pointers, collections, sets, errors, equal values and call sequences, each evaluated twice with the heap memory of the thread counted; non-trivial as for the property the case comes from", &["the counting allocator of harness/src/counting.rs"]),
        "C23" => ("operation histories and formatting calls made by proptest, executed under Miri with and without alloc; non-trivial: at least two operations, or a nominal of at least 10", &["Miri's model of undefined behaviour (Tree Borrows, uninitialised bytes, bounds)"]),
        _ => ("", &[]),
    };
    Plan { rule, assumptions }
}

// ---------------------------------------------------------------- execution

pub fn explore(run: &Run, out: &mut Outcome) {
    let prop = run.prop.as_str();
    let deep = run.thorough;
    let x = move |quick: u64, thorough: u64| if deep { thorough } else { quick };
    let w = move |quick: u128, thorough: u128| if deep { thorough } else { quick };
    let systems = systems_of(prop);
    let mut jobs: Vec<Job> = Vec::new();
    let random = |name: &str, total: u64, s: &(dyn Fn() -> BoxedStrategy<Case> + Sync), out: &mut Outcome| {
        engine::random(run, name, total, s, out);
    };
    match prop {
        "C01" | "C02" => {
            dense(&systems, w(200_000, 3_000_000), &mut jobs);
            special(&systems, &TYPES, deep, &mut jobs);
            engine::sweep(run, "sweep: built-in systems", std::mem::take(&mut jobs), out);
            random("random: built-in systems", x(6_000_000, 150_000_000), &|| gen::fmt(systems_of(prop)), out);
            let zero = prop == "C01";
            random("random: user digit sets", x(2_000_000, 60_000_000), &|| {
                (gen::leaf(), gen::ty(), gen::raw(), proptest::num::u64::ANY)
                    .prop_map(move |(c, ty, r, at)| {
                        let coll = match c {
                            Coll::Set { size, base, .. } => Coll::Set { size: size.max(2), zero, base },
                            Coll::User { len, base, .. } => Coll::User { len: len.max(2), zero, zero_based: true, base },
                            c => c,
                        };
                        let n = r.nominal(u128::from(coll.len()), ty.max());
                        Case::Coll { coll, ty, n, at }
                    })
                    .boxed()
            }, out);
        }
        "C03" => {
            coll_sweep(prop, deep, &mut jobs);
            engine::sweep(run, "sweep: collections around every boundary", jobs, out);
            random("random: collections", x(4_000_000, 100_000_000), &gen::one_based_case, out);
        }
        "C04" => {
            coll_sweep(prop, deep, &mut jobs);
            engine::sweep(run, "sweep: one- and two-level trees", jobs, out);
            random("random: trees", x(4_000_000, 100_000_000), &gen::coll_case, out);
        }
        "C05" => {
            dense(&systems, w(300_000, 5_000_000), &mut jobs);
            special(&systems, &TYPES, deep, &mut jobs);
            fixed_sweep(&mut jobs);
            engine::sweep(run, "sweep: built-in systems and user collections", jobs, out);
            random("random: built-in systems", x(1_000_000, 20_000_000), &|| gen::fmt(systems_of(prop)), out);
            random("random: user collections", x(4_000_000, 100_000_000), &gen::fixed_case, out);
        }
        "C06" => {
            additive_sweep(prop, &mut jobs);
            engine::sweep(run, "sweep: small and type-edge weights", jobs, out);
            random("random: sets and nominals", x(4_000_000, 80_000_000), &gen::additive_case, out);
            random("random: constructor", x(400_000, 4_000_000), &gen::additive_new_case, out);
        }
        "C07" | "C08" | "C09" => {
            dense(&systems, w(if prop == "C07" { 2_000_000 } else { 400_000 }, if prop == "C07" { 30_000_000 } else { 3_000_000 }), &mut jobs);
            special(&systems, &TYPES, deep, &mut jobs);
            far(&systems, &mut jobs);
            engine::sweep(run, "sweep: low range and structured nominals", jobs, out);
            random("random: nominals", x(3_000_000, 80_000_000), &|| gen::fmt_far(systems_of(prop)), out);
        }
        "C10" => {
            dense(&systems, w(3_000_000, 120_000_000), &mut jobs);
            special(&systems, &TYPES, deep, &mut jobs);
            group_combos(&systems, 100, &[0, 1, 2, 10, 11, 20, 99], if deep { 8 } else { 7 }, &mut jobs);
            group_combos(&systems, 100, &[0, 1, 30], if deep { 15 } else { 13 }, &mut jobs);
            group_combos(&systems, 100, &[0, 1], if deep { 20 } else { 19 }, &mut jobs);
            engine::sweep(run, "sweep: low range, digit-pair combinations", jobs, out);
            random("random: nominals", x(6_000_000, 150_000_000), &|| gen::fmt(systems_of(prop)), out);
        }
        "C11" | "C12" => {
            dense(&systems, w(if prop == "C11" { 200_000 } else { 500_000 }, 4_000_000), &mut jobs);
            special(&systems, &[Ty::u8, Ty::u16, Ty::u32, Ty::u64, Ty::u128], deep, &mut jobs);
            zh_masks(&systems, &mut jobs);
            if prop == "C11" {
                group_combos(&systems, 10_000, &[0, 1, 1_000, 2_110], if deep { 9 } else { 8 }, &mut jobs);
                group_combos(&systems, 10_000, &[0, 10, 100, 15, 1_001, 9_999], if deep { 7 } else { 5 }, &mut jobs);
            } else {
                group_combos(&systems, 10, &[0, 1, 7], if deep { 16 } else { 13 }, &mut jobs);
                group_combos(&systems, 10, &[0, 1], 17, &mut jobs);
            }
            engine::sweep(run, "sweep: low range, masks, group combinations", jobs, out);
            random("random: nominals", x(6_000_000, 150_000_000), &|| gen::fmt(systems_of(prop)), out);
        }
        "C13" => {
            options_sweep(&mut jobs);
            dense(&systems, w(60_000, 1_500_000), &mut jobs);
            special(&systems, &[Ty::u16, Ty::u64, Ty::u128], deep, &mut jobs);
            zh_masks(&systems, &mut jobs);
            engine::sweep(run, "sweep: option histories and configurations", jobs, out);
            random("random: option histories", x(2_500_000, 60_000_000), &gen::options_case, out);
        }
        "C14" => {
            dense(&systems, w(500_000, 20_000_000), &mut jobs);
            special(&systems, &TYPES, deep, &mut jobs);
            enumerated_sweep(&mut jobs);
            engine::sweep(run, "sweep: built-in sets and sets of 14 sizes", jobs, out);
            random("random: user sets", x(3_000_000, 80_000_000), &gen::enumerated_case, out);
        }
        "C15" => {
            dense(&systems, w(8_000, 300_000), &mut jobs);
            special(&systems, &[Ty::u8, Ty::u32, Ty::u128], deep, &mut jobs);
            err_sweep(&mut jobs);
            engine::sweep(run, "sweep: systems and error values", jobs, out);
            random("random: systems", x(2_000_000, 50_000_000), &|| gen::fmt_far(systems_of(prop)), out);
            random("random: collections and sets", x(2_000_000, 40_000_000), &gen::made_by_users, out);
            random("random: error values", x(500_000, 10_000_000), &gen::err_case, out);
        }
        "C16" => {
            for sys in systems {
                jobs.push(Box::new(move |o: &mut Sink| {
                    let max = tops(sys, Ty::u128);
                    for n in (0..w(20_000, 70_000)).chain(structured(model::radix(sys), deep)) {
                        if n <= max && !o.case(Case::Fmt { sys, ty: Ty::u128, n }) {
                            return;
                        }
                    }
                }));
            }
            coll_sweep("C03", deep, &mut jobs);
            fixed_sweep(&mut jobs);
            additive_sweep("C19", &mut jobs);
            enumerated_sweep(&mut jobs);
            engine::sweep(run, "sweep: every system; collections and sets", jobs, out);
            random("random: nominals", x(1_500_000, 40_000_000), &|| gen::fmt_far(systems_of(prop)), out);
            random("random: collections and sets", x(1_500_000, 40_000_000), &gen::made_by_users, out);
        }
        "C17" => {
            pointer_sweep(&mut jobs);
            engine::sweep(run, "sweep: systems x layers", jobs, out);
            random("random: systems, layers, nominals", x(2_000_000, 50_000_000), &|| gen::pointer_case(systems_of(prop)), out);
        }
        "C18" => {
            injective(run, out, w(100_000, 600_000) / u128::from(run.part), (x(60_000, 400_000) / run.part) as u32);
            random("random: related pairs", x(4_000_000, 100_000_000), &|| gen::pair(systems_of(prop)), out);
        }
        "C19" => {
            dense(&systems, w(8_000, 300_000), &mut jobs);
            special(&systems, &TYPES, deep, &mut jobs);
            coll_sweep("C04", deep, &mut jobs);
            fixed_sweep(&mut jobs);
            additive_sweep(prop, &mut jobs);
            engine::sweep(run, "sweep: systems, collections, sets", jobs, out);
            random("random: everything", x(4_000_000, 100_000_000), &gen::any_formatting, out);
        }
        "C20" => {
            string_sweep(false, &mut jobs);
            engine::sweep(run, "sweep: buffer length x width x final operation", jobs, out);
            random("random: histories", x(1_500_000, 40_000_000), &gen::history_case, out);
        }
        "C21" => {
            string_sweep(true, &mut jobs);
            engine::sweep(run, "sweep: buffer length x width x final operation", jobs, out);
            random("random: histories", x(600_000, 15_000_000), &gen::twins_case, out);
        }
        "C22" => {
            texts_sweep(&mut jobs);
            engine::sweep(run, "sweep: chosen texts in all forms", jobs, out);
            random("random: triples", x(800_000, 20_000_000), &gen::texts_case, out);
        }
        "C24" => {
            dense(&systems, w(20_000, 400_000), &mut jobs);
            special(&systems, &[Ty::u8, Ty::u32, Ty::u64, Ty::u128], deep, &mut jobs);
            zh_masks(&gen::zh(&[0, 1, 2, 3]), &mut jobs);
            string_sweep(false, &mut jobs);
            additive_sweep("C06", &mut jobs);
            coll_sweep("C04", deep, &mut jobs);
            fixed_sweep(&mut jobs);
            enumerated_sweep(&mut jobs);
            engine::sweep(run, "sweep: systems, sets, collections, strings", jobs, out);
            random("random: built-in systems", x(3_000_000, 60_000_000), &|| gen::fmt(systems_of(prop)), out);
            random("random: additive sets", x(800_000, 15_000_000), &gen::additive_case, out);
            random("random: collections", x(800_000, 15_000_000), &gen::coll_case, out);
            random("random: fixed collections", x(400_000, 8_000_000), &gen::fixed_case, out);
            random("random: enumerated sets", x(300_000, 5_000_000), &gen::enumerated_case, out);
            random("random: error values", x(300_000, 5_000_000), &gen::err_case, out);
            random("random: string histories", x(800_000, 20_000_000), &gen::history_case, out);
        }
        "C26" => {
            dense(&systems, w(8_000, 300_000), &mut jobs);
            special(&systems, &[Ty::u8, Ty::u64, Ty::u128], deep, &mut jobs);
            coll_sweep("C03", deep, &mut jobs);
            enumerated_sweep(&mut jobs);
            string_sweep(true, &mut jobs);
            engine::sweep(run, "sweep: systems, collections, sets, buffer lengths", jobs, out);
            random("random: built-in systems", x(3_000_000, 60_000_000), &|| gen::fmt(systems_of(prop)), out);
            random("random: collections and sets", x(2_000_000, 40_000_000), &gen::made_by_users, out);
            random("random: push histories", x(600_000, 15_000_000), &gen::twins_case, out);
        }
        "C29" => {
            dense(&systems, w(1_000, 30_000), &mut jobs);
            special(&systems, &[Ty::u16, Ty::u64, Ty::u128], deep, &mut jobs);
            coll_sweep("C03", deep, &mut jobs);
            fixed_sweep(&mut jobs);
            additive_sweep("C19", &mut jobs);
            pointer_sweep(&mut jobs);
            err_sweep(&mut jobs);
            string_sweep(false, &mut jobs);
            texts_sweep(&mut jobs);
            engine::sweep(run, "sweep: systems, collections, sets, pointers, strings", jobs, out);
            random("random: histories", x(300_000, 10_000_000), &gen::history_case, out);
            random("random: push histories", x(150_000, 4_000_000), &gen::twins_case, out);
            random("random: triples of texts", x(150_000, 4_000_000), &gen::texts_case, out);
            random("random: pointers", x(400_000, 10_000_000), &|| gen::pointer_case(systems_of(prop)), out);
            random("random: formatting", x(1_000_000, 20_000_000), &gen::any_formatting, out);
            random("random: error values", x(150_000, 3_000_000), &gen::err_case, out);
            random("random: pairs of values", x(100_000, 2_000_000), &gen::values_case, out);
            random("random: one user-made object", x(60_000, 1_500_000), &gen::shared_case, out);
        }
        "C28" => {
            values_sweep(&mut jobs);
            engine::sweep(run, "sweep: small parts and short option histories in pairs", jobs, out);
            random("random: pairs of values", x(1_000_000, 25_000_000), &gen::values_case, out);
        }
        "C25" => {
            random("random: call sequences", x(60_000, 1_500_000), &gen::calls_case, out);
            random("random: one user-made object", x(300_000, 8_000_000), &gen::shared_case, out);
            random("random: calls within calls", x(150_000, 4_000_000), &gen::nested_case, out);
        }
        _ => panic!("unknown property {prop}"),
    }
    let _ = (LIMIT, NAMES);
}
