//! Reference models. Written from the documented meaning of each system (CSS
//! Counter Styles tables, Unicode digit blocks, the rules stated in
//! properties.jsonl), not from the crate's algorithms: digits are handled per
//! decimal place, alphabetic labels by shortlex rank, Chinese by splitting the
//! decimal digits. Decoders read a numeral back and share no code with the
//! encoders beyond the symbol tables.
use crate::systems::{Sys, Zh, COLLECTIONS, NAMES};
use std::sync::LazyLock;

/// What a formatting call must return.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum M {
    /// The text now in the output buffer.
    Ok,
    NoZero,
    Oob,
    /// The text exceeds the limit given to the model; the buffer is garbage.
    TooLong,
    /// Cannot be represented, and the greedy prefix exceeds the limit: either
    /// OutOfBounds or OutOfMemory may be reported first.
    OobOrTooLong,
}

// ---------------------------------------------------------------- tables

pub enum Shape {
    /// Positional with zero digit.
    Pos(Vec<char>),
    /// Zeroless, counting from zero.
    Alpha(Vec<char>),
    /// One symbol each from 1, then CJK decimal.
    Stem(Vec<char>),
    /// Strings per decimal place (place[p][d-1]), largest value, zero symbol.
    Place {
        places: Vec<Vec<String>>,
        max: u128,
        max_symbol: String,
        zero: Option<String>,
    },
    Hebrew,
    Ethiopic,
    /// Symbols for first..=first+len-1
    Enumerated { first: u128, symbols: Vec<char> },
}

fn run(base: u32, n: u32) -> Vec<char> {
    (base..base + n).map(|c| char::from_u32(c).unwrap()).collect()
}
fn runs(parts: &[(u32, u32)]) -> Vec<char> {
    parts.iter().flat_map(|(b, n)| run(*b, *n)).collect()
}
fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
/// Hiragana to Katakana: the blocks are parallel, 0x60 apart.
fn katakana(s: &str) -> Vec<char> {
    s.chars().map(|c| char::from_u32(c as u32 + 0x60).unwrap()).collect()
}

pub const CJK_DECIMAL: &str = "〇一二三四五六七八九";
const AIUEO: &str = "あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわをん";
const IROHA: &str = "いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす";

/// Nine letters per place, in order.
fn letters(s: &[char], extra_max: bool) -> (Vec<Vec<String>>, u128, String) {
    let all: Vec<String> = s.iter().map(char::to_string).collect();
    if extra_max {
        let places = all[..36].chunks(9).map(<[String]>::to_vec).collect();
        (places, 10_000, all[36].clone())
    } else {
        let places: Vec<Vec<String>> = all.chunks(9).map(<[String]>::to_vec).collect();
        (places, 9_000, all[35].clone())
    }
}

/// digit + unit per place, as in Japanese and Korean.
fn cjk_places(digits: &str, units: [&str; 3], bare_one: bool, zero: char) -> Shape {
    let d = chars(digits);
    assert_eq!(d.len(), 9);
    let mut places = vec![d.iter().map(char::to_string).collect::<Vec<_>>()];
    for u in units {
        places.push(
            d.iter()
                .enumerate()
                .map(|(i, c)| if i == 0 && bare_one { u.to_string() } else { format!("{c}{u}") })
                .collect(),
        );
    }
    let max_symbol = places[3][8].clone();
    Shape::Place { places, max: 9_000, max_symbol, zero: Some(zero.to_string()) }
}

fn roman(upper: bool) -> Shape {
    let over = |s: &str| s.chars().flat_map(|c| [c, '\u{305}']).collect::<String>();
    // one / five / ten of each place; thousands are plain M, everything larger
    // is overlined.
    let sym: [(String, String, String); 6] = [
        ("i".into(), "v".into(), "x".into()),
        ("x".into(), "l".into(), "c".into()),
        ("c".into(), "d".into(), "m".into()),
        ("m".into(), over("v"), over("x")),
        (over("x"), over("l"), over("c")),
        (over("c"), over("d"), over("m")),
    ];
    let mut places = Vec::new();
    for (p, (one, five, ten)) in sym.iter().enumerate() {
        // 4,000 and 9,000 subtract an overlined I.
        let sub = if p == 3 { over("i") } else { one.clone() };
        places.push(
            vec![
                one.clone(),
                one.repeat(2),
                one.repeat(3),
                format!("{sub}{five}"),
                five.clone(),
                format!("{five}{one}"),
                format!("{five}{one}{one}"),
                format!("{five}{one}{one}{one}"),
                format!("{sub}{ten}"),
            ]
            .into_iter()
            .map(|s: String| if upper { s.to_uppercase() } else { s })
            .collect(),
        );
    }
    let fix = |s: String| if upper { s.to_uppercase() } else { s };
    Shape::Place {
        places,
        max: 1_000_000,
        max_symbol: fix(over("m")),
        zero: Some(fix("n".into())),
    }
}

const GEORGIAN: &str = "აბგდევზჱთიკლმნჲოპჟრსტჳფქღყშჩცძწჭხჴჯჰჵ";

fn shape_of(name: &str) -> Shape {
    use Shape::*;
    match name {
        "Decimal" => Pos(chars("0123456789")),
        "EasternArabic" => Pos(run(0x0660, 10)),
        "Persian" | "Urdu" => Pos(run(0x06F0, 10)),
        "Bengali" => Pos(run(0x09E6, 10)),
        "Cambodian" | "Khmer" => Pos(run(0x17E0, 10)),
        "CjkDecimal" => Pos(chars(CJK_DECIMAL)),
        "Devanagari" => Pos(run(0x0966, 10)),
        "Gujarati" => Pos(run(0x0AE6, 10)),
        "Gurmukhi" => Pos(run(0x0A66, 10)),
        "Kannada" => Pos(run(0x0CE6, 10)),
        "Lao" => Pos(run(0x0ED0, 10)),
        "Malayalam" => Pos(run(0x0D66, 10)),
        "Mongolian" => Pos(run(0x1810, 10)),
        "Myanmar" => Pos(run(0x1040, 10)),
        "Oriya" => Pos(run(0x0B66, 10)),
        "Tamil" => Pos(run(0x0BE6, 10)),
        "Telugu" => Pos(run(0x0C66, 10)),
        "Thai" => Pos(run(0x0E50, 10)),
        "Tibetan" => Pos(run(0x0F20, 10)),
        "HexUpper" => Pos(chars("0123456789ABCDEF")),
        "HexLower" => Pos(chars("0123456789abcdef")),
        "LetterUpper" => Alpha(run('A' as u32, 26)),
        "LetterLower" => Alpha(run('a' as u32, 26)),
        // The Greek blocks with the (final sigma) gap between rho and sigma.
        "GreekUpper" => Alpha(runs(&[(0x391, 17), (0x3A3, 7)])),
        "GreekLower" => Alpha(runs(&[(0x3B1, 17), (0x3C3, 7)])),
        "Hiragana" => Alpha(chars(AIUEO)),
        "HiraganaIroha" => Alpha(chars(IROHA)),
        "Katakana" => Alpha(katakana(AIUEO)),
        "KatakanaIroha" => Alpha(katakana(IROHA)),
        "HangeulJamo" => Alpha(chars("ㄱㄴㄷㄹㅁㅂㅅㅇㅈㅊㅋㅌㅍㅎ")),
        "HangeulSyllable" => Alpha(chars("가나다라마바사아자차카타파하")),
        "CjkHeavenlyStem" => Stem(chars("甲乙丙丁戊己庚辛壬癸")),
        "CjkEarthlyBranch" => Stem(chars("子丑寅卯辰巳午未申酉戌亥")),
        "RomanUpper" => roman(true),
        "RomanLower" => roman(false),
        "ArmenianUpper" | "ArmenianLower" => {
            let base = if name == "ArmenianUpper" { 0x531 } else { 0x561 };
            let (places, max, max_symbol) = letters(&run(base, 36), false);
            Place { places, max, max_symbol, zero: None }
        }
        "Georgian" => {
            let (places, max, max_symbol) = letters(&chars(GEORGIAN), true);
            Place { places, max, max_symbol, zero: None }
        }
        "JapaneseFormal" => cjk_places("壱弐参四伍六七八九", ["拾", "百", "阡"], false, '零'),
        "JapaneseInformal" => cjk_places("一二三四五六七八九", ["十", "百", "千"], true, '〇'),
        "HangeulFormal" => cjk_places("일이삼사오육칠팔구", ["십", "백", "천"], false, '영'),
        "HanjaInformal" => cjk_places("一二三四五六七八九", ["十", "百", "千"], true, '零'),
        "HanjaFormal" => cjk_places("壹貳參四五六七八九", ["拾", "百", "仟"], false, '零'),
        "Hebrew" => Hebrew,
        "Ethiopic" => Ethiopic,
        "CircledNumber" => Enumerated {
            first: 0,
            symbols: runs(&[(0x24EA, 1), (0x2460, 20), (0x3251, 15), (0x32B1, 15)]),
        },
        "DoubleCircledNumber" => Enumerated { first: 1, symbols: run(0x24F5, 10) },
        other => panic!("no model for {other}"),
    }
}

static SHAPES: LazyLock<Vec<Shape>> = LazyLock::new(|| NAMES.iter().map(|n| shape_of(n)).collect());

pub fn shape(sys: Sys) -> Option<&'static Shape> {
    match sys {
        Sys::B(i) => Some(&SHAPES[i as usize]),
        Sys::Zh(_) => None,
    }
}

/// The radix the system's interesting values cluster around.
pub fn radix(sys: Sys) -> u128 {
    match shape(sys) {
        Some(Shape::Pos(d) | Shape::Alpha(d)) => d.len() as u128,
        Some(Shape::Ethiopic) => 100,
        _ => 10,
    }
}

/// Up to how many symbols the longest numerals of an additive system have.
pub const FAR: u128 = 70_000;

/// Largest nominal whose written form stays within about `symbols` symbols;
/// only the purely additive systems grow linearly.
pub fn cap(sys: Sys, symbols: u128) -> u128 {
    match shape(sys) {
        Some(Shape::Place { max, .. }) => max * symbols,
        Some(Shape::Hebrew) => 400 * symbols,
        _ => u128::MAX,
    }
}

/// Flat symbol list of a built-in digit collection: (digits, has_zero, zero_based, fixed)
pub fn flat_builtin(i: u8) -> (&'static [char], bool, bool, bool) {
    assert!((i as usize) < COLLECTIONS);
    match &SHAPES[i as usize] {
        Shape::Pos(d) => (d, true, true, false),
        Shape::Alpha(d) => (d, false, true, false),
        Shape::Stem(d) => (d, false, false, true),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- encoders

/// Decimal digits, most significant first.
fn decimal_digits(n: u128, buf: &mut [u8; 40]) -> usize {
    let mut i = 40;
    let mut n = n;
    loop {
        i -= 1;
        buf[i] = (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    buf.copy_within(i.., 0);
    40 - i
}

/// Positional numeral over `len` digits.
pub fn positional(n: u128, len: u128, digit: &dyn Fn(usize) -> char, out: &mut String) -> M {
    out.clear();
    if len == 0 || (len == 1 && n > 0) {
        return M::Oob;
    }
    // Largest power of len not above n, then digits from the top.
    let mut p = 1u128;
    if len > 1 {
        while p <= n / len {
            p *= len;
        }
    }
    let mut rest = n;
    loop {
        let d = rest / p;
        out.push(digit(d as usize));
        rest -= d * p;
        if p == 1 {
            break;
        }
        p /= len;
    }
    M::Ok
}

/// The `rank`-th (from 0) non-empty string over `len` symbols in shortlex
/// order.
pub fn shortlex(rank: u128, len: u128, limit: usize, digit: &dyn Fn(usize) -> char, out: &mut String) -> M {
    out.clear();
    if len == 0 {
        return M::Oob;
    }
    let mut rank = rank;
    let mut places = 1usize;
    let mut count = Some(len); // number of strings with `places` symbols
    while let Some(c) = count {
        if rank < c {
            break;
        }
        if places > limit {
            return M::TooLong;
        }
        rank -= c;
        count = c.checked_mul(len);
        places += 1;
    }
    // rank written with exactly `places` base-len digits
    let mut idx = Vec::with_capacity(places);
    for _ in 0..places {
        idx.push((rank % len) as usize);
        rank /= len;
    }
    for i in idx.iter().rev() {
        out.push(digit(*i));
    }
    M::Ok
}

/// A digit collection given by its rules.
pub fn collection(
    n: u128,
    len: u128,
    has_zero: bool,
    zero_based: bool,
    limit: usize,
    digit: &dyn Fn(usize) -> char,
    out: &mut String,
) -> M {
    let r = if has_zero {
        positional(n, len, digit, out)
    } else if zero_based {
        shortlex(n, len, limit, digit, out)
    } else if n == 0 {
        M::NoZero
    } else {
        shortlex(n - 1, len, limit, digit, out)
    };
    clamp(r, limit, out)
}

fn clamp(r: M, limit: usize, out: &str) -> M {
    if r == M::Ok && out.len() > limit {
        M::TooLong
    } else {
        r
    }
}

fn ethiopic(n: u128, out: &mut String) -> M {
    out.clear();
    if n == 0 {
        return M::NoZero;
    }
    if n == 1 {
        out.push('\u{1369}');
        return M::Ok;
    }
    // CSS Counter Styles, ethiopic-numeric, steps 2 to 7.
    let mut buf = [0; 40];
    let len = decimal_digits(n, &mut buf);
    let mut digits: Vec<u8> = buf[..len].to_vec();
    if digits.len() % 2 == 1 {
        digits.insert(0, 0);
    }
    let groups: Vec<(u8, u8)> = digits.chunks(2).map(|c| (c[0], c[1])).collect();
    for (pos, &(tens, ones)) in groups.iter().enumerate() {
        let index = groups.len() - 1 - pos;
        let value = tens * 10 + ones;
        let most_significant = pos == 0;
        let removed = value == 0 || (most_significant && value == 1) || (index % 2 == 1 && value == 1);
        if !removed {
            if tens > 0 {
                out.push(char::from_u32(0x1371 + u32::from(tens)).unwrap());
            }
            if ones > 0 {
                out.push(char::from_u32(0x1368 + u32::from(ones)).unwrap());
            }
        }
        if index % 2 == 1 {
            if value != 0 {
                out.push('\u{137B}');
            }
        } else if index != 0 {
            out.push('\u{137C}');
        }
    }
    M::Ok
}

const HEB_ONES: [&str; 9] = ["א", "ב", "ג", "ד", "ה", "ו", "ז", "ח", "ט"];
const HEB_TENS: [&str; 9] = ["י", "כ", "ל", "מ", "נ", "ס", "ע", "פ", "צ"];
const HEB_HUNDREDS: [&str; 3] = ["ק", "ר", "ש"];

fn hebrew(n: u128, limit: usize, out: &mut String) -> M {
    out.clear();
    if n == 0 {
        return M::NoZero;
    }
    let tavs = n / 400;
    if tavs > limit as u128 {
        return M::TooLong;
    }
    let mut letters: Vec<&str> = vec!["ת"; tavs as usize];
    let rest = (n % 400) as usize;
    if rest >= 100 {
        letters.push(HEB_HUNDREDS[rest / 100 - 1]);
    }
    let low = rest % 100;
    let special = low == 15 || low == 16;
    if low == 15 {
        letters.push("ט״ו");
    } else if low == 16 {
        letters.push("ט״ז");
    } else {
        if low >= 10 {
            letters.push(HEB_TENS[low / 10 - 1]);
        }
        if low % 10 > 0 {
            letters.push(HEB_ONES[low % 10 - 1]);
        }
    }
    let single = letters.len() == 1 && !special;
    if single {
        out.push('׳');
    }
    for l in letters {
        out.push_str(l);
    }
    if single {
        out.push('״');
    }
    M::Ok
}

pub const ZH_DIGITS: [[&str; 2]; 2] = [
    ["零一二三四五六七八九", "零壹贰叁肆伍陆柒捌玖"],
    ["零一二三四五六七八九", "零壹貳參肆伍陸柒捌玖"],
];
pub const ZH_SMALL: [&str; 2] = ["十百千", "拾佰仟"];
pub const ZH_LARGE: [&str; 2] = ["万亿兆京垓秭穰沟涧正载", "萬億兆京垓秭穰溝澗正載"];

pub struct ZhTable {
    pub digits: Vec<char>,
    pub small: Vec<char>,
    pub large: Vec<char>,
}
static ZH: LazyLock<Vec<ZhTable>> = LazyLock::new(|| {
    (0..4)
        .map(|i| ZhTable {
            digits: chars(ZH_DIGITS[i & 1][i >> 1]),
            small: chars(ZH_SMALL[i >> 1]),
            large: chars(ZH_LARGE[i & 1]),
        })
        .collect()
});
pub fn zh_table(trad: bool, fin: bool) -> &'static ZhTable {
    &ZH[usize::from(trad) + 2 * usize::from(fin)]
}

/// Exponents of the large units of each scale.
pub fn zh_exponents(scale: u8) -> &'static [usize] {
    match scale {
        0 => &[4, 8, 12, 16, 20, 24, 28, 32, 36],
        1 => &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14],
        2 => &[4, 8, 16, 24, 32],
        _ => &[4, 8, 16, 32],
    }
}

fn chinese(z: Zh, n: u128, out: &mut String) -> M {
    out.clear();
    let t = zh_table(z.trad, z.fin);
    if n == 0 {
        out.push(t.digits[0]);
        return M::Ok;
    }
    let mut buf = [0u8; 40];
    let len = decimal_digits(n, &mut buf);
    if z.scale == 1 {
        if len > 15 {
            return M::Oob;
        }
        // Every digit carries its own unit; runs of zeros between two written
        // digits become one zero.
        let mut pending = false;
        for (i, &d) in buf[..len].iter().enumerate() {
            let place = len - 1 - i;
            if d == 0 {
                pending = true;
                continue;
            }
            if pending {
                out.push(t.digits[0]);
                pending = false;
            }
            out.push(t.digits[d as usize]);
            match place {
                0 => {}
                1..=3 => out.push(t.small[place - 1]),
                _ => out.push(t.large[place - 4]),
            }
        }
    } else {
        let mut padded = [0u8; 44];
        let total = len.div_ceil(4) * 4;
        padded[total - len..total].copy_from_slice(&buf[..len]);
        zh_scaled(t, zh_exponents(z.scale), &padded[..total], out);
    }
    if !z.formal {
        let one_ten: [char; 2] = [t.digits[1], t.small[0]];
        let mut it = out.chars();
        if it.next() == Some(one_ten[0]) && it.next() == Some(one_ten[1]) {
            out.drain(..one_ten[0].len_utf8());
        }
    }
    M::Ok
}

/// `digits` is a multiple of four long.
fn zh_scaled(t: &ZhTable, units: &[usize], digits: &[u8], out: &mut String) {
    // Drop leading all-zero groups.
    let mut digits = digits;
    while digits.len() >= 4 && digits[..4] == [0; 4] {
        digits = &digits[4..];
    }
    if digits.is_empty() {
        return;
    }
    // The largest unit below the numeral's length splits it in two.
    if let Some(r) = (0..units.len()).rev().find(|r| units[*r] < digits.len()) {
        let (high, low) = digits.split_at(digits.len() - units[r]);
        zh_scaled(t, &units[..r], high, out);
        out.push(t.large[r]);
        zh_scaled(t, &units[..r], low, out);
        return;
    }
    debug_assert_eq!(digits.len(), 4);
    let mut pending = false;
    for (i, &d) in digits.iter().enumerate() {
        if d == 0 {
            // A leading zero of the very first group is not written.
            pending = pending || !out.is_empty();
            continue;
        }
        if pending {
            out.push(t.digits[0]);
            pending = false;
        }
        out.push(t.digits[d as usize]);
        if i < 3 {
            out.push(t.small[2 - i]);
        }
    }
}

/// The text (or error) `sys` must give for `n`, whatever the integer type.
pub fn model(sys: Sys, n: u128, limit: usize, out: &mut String) -> M {
    out.clear();
    let r = match sys {
        Sys::Zh(z) => chinese(z, n, out),
        Sys::B(i) => match &SHAPES[i as usize] {
            Shape::Pos(d) => positional(n, d.len() as u128, &|i| d[i], out),
            Shape::Alpha(d) => shortlex(n, d.len() as u128, limit, &|i| d[i], out),
            Shape::Stem(d) => {
                if n == 0 {
                    M::NoZero
                } else if n <= d.len() as u128 {
                    out.push(d[n as usize - 1]);
                    M::Ok
                } else {
                    let c = chars(CJK_DECIMAL);
                    positional(n, 10, &|i| c[i], out)
                }
            }
            Shape::Place { places, max, max_symbol, zero } => {
                if n == 0 {
                    match zero {
                        Some(z) => {
                            out.push_str(z);
                            M::Ok
                        }
                        None => M::NoZero,
                    }
                } else if n / max > limit as u128 {
                    M::TooLong
                } else {
                    for _ in 0..n / max {
                        out.push_str(max_symbol);
                    }
                    let mut buf = [0; 40];
                    let rest = n % max;
                    let len = decimal_digits(rest, &mut buf);
                    for (i, &d) in buf[..len].iter().enumerate() {
                        if d > 0 {
                            out.push_str(&places[len - 1 - i][d as usize - 1]);
                        }
                    }
                    M::Ok
                }
            }
            Shape::Hebrew => hebrew(n, limit, out),
            Shape::Ethiopic => ethiopic(n, out),
            Shape::Enumerated { first, symbols } => {
                if n == 0 && *first > 0 {
                    M::NoZero
                } else if n - first < symbols.len() as u128 {
                    out.push(symbols[(n - first) as usize]);
                    M::Ok
                } else {
                    M::Oob
                }
            }
        },
    };
    clamp(r, limit, out)
}

/// Greedy decomposition over explicit symbols (descending values).
pub fn additive(symbols: &[(&str, u128)], n: u128, limit: usize, out: &mut String) -> M {
    out.clear();
    if n == 0 {
        return match symbols.iter().find(|s| s.1 == 0) {
            Some(z) => {
                out.push_str(z.0);
                clamp(M::Ok, limit, out)
            }
            None => M::NoZero,
        };
    }
    let mut rest = n;
    let mut too_long = false;
    for (s, v) in symbols.iter().filter(|s| s.1 > 0) {
        let times = rest / v;
        rest %= v;
        if times == 0 || s.is_empty() {
            continue;
        }
        if too_long || times.saturating_mul(s.len() as u128) > (limit as u128).saturating_sub(out.len() as u128) {
            too_long = true;
            continue;
        }
        for _ in 0..times {
            out.push_str(s);
        }
    }
    match (too_long, rest) {
        (false, 0) => M::Ok,
        (true, 0) => M::TooLong,
        (false, _) => M::Oob,
        (true, _) => M::OobOrTooLong,
    }
}

/// Symbols a greedy decomposition writes (all of them, or the empty ones only).
pub fn additive_steps(symbols: &[(&str, u128)], n: u128, all: bool) -> u128 {
    let mut rest = n;
    let mut steps = 0u128;
    for (s, v) in symbols.iter().filter(|s| s.1 > 0) {
        if all || s.is_empty() {
            steps = steps.saturating_add(rest / v);
        }
        rest %= v;
    }
    steps
}

// ---------------------------------------------------------------- decoders

/// Reads a numeral back to the nominal it denotes; None if it is not a
/// well-formed numeral of the system.
pub fn decode(sys: Sys, text: &str) -> Option<u128> {
    match sys {
        Sys::Zh(z) => zh_decode(z, text),
        Sys::B(i) => match &SHAPES[i as usize] {
            Shape::Pos(d) => {
                let r = decode_positional(text, |c| d.iter().position(|x| *x == c), d.len() as u128)?;
                if text.chars().count() > 1 && text.starts_with(d[0]) {
                    return None;
                }
                Some(r)
            }
            Shape::Alpha(d) => {
                // bijective value minus one, kept in range for u128::MAX
                let n = d.len() as u128;
                let mut cs: Vec<usize> = Vec::new();
                for c in text.chars() {
                    cs.push(d.iter().position(|x| *x == c)?);
                }
                let last = cs.pop()?;
                let mut v = 0u128;
                for c in cs {
                    v = v.checked_mul(n)?.checked_add(c as u128 + 1)?;
                }
                v.checked_mul(n)?.checked_add(last as u128)
            }
            Shape::Stem(d) => {
                let mut it = text.chars();
                if let (Some(c), None) = (it.next(), it.next()) {
                    if let Some(i) = d.iter().position(|x| *x == c) {
                        return Some(i as u128 + 1);
                    }
                }
                let c = chars(CJK_DECIMAL);
                let v = decode_positional(text, |x| c.iter().position(|y| *y == x), 10)?;
                (v > d.len() as u128 && !text.starts_with(c[0])).then_some(v)
            }
            Shape::Place { places, max, max_symbol, zero } => {
                if zero.as_deref() == Some(text) {
                    return Some(0);
                }
                // Largest symbols first, then at most one entry per place.
                let mut rest = text;
                let mut sum = 0u128;
                while let Some(r) = rest.strip_prefix(max_symbol.as_str()) {
                    sum = sum.checked_add(*max)?;
                    rest = r;
                }
                for (p, entries) in places.iter().enumerate().rev() {
                    let hit = entries
                        .iter()
                        .enumerate()
                        .filter(|(_, e)| rest.starts_with(e.as_str()))
                        .max_by_key(|(_, e)| e.len());
                    if let Some((d, e)) = hit {
                        // "千" could open "千" or be a prefix of nothing else;
                        // the longest entry is always the right reading.
                        sum = sum.checked_add((d as u128 + 1) * 10u128.pow(p as u32))?;
                        rest = &rest[e.len()..];
                    }
                }
                (rest.is_empty() && !text.is_empty()).then_some(sum)
            }
            Shape::Hebrew => {
                let mut sum = 0u128;
                let mut letters = 0;
                for c in text.chars() {
                    let s = c.to_string();
                    let v = if c == 'ת' {
                        400
                    } else if let Some(i) = HEB_HUNDREDS.iter().position(|x| *x == s) {
                        (i as u128 + 1) * 100
                    } else if let Some(i) = HEB_TENS.iter().position(|x| *x == s) {
                        (i as u128 + 1) * 10
                    } else if let Some(i) = HEB_ONES.iter().position(|x| *x == s) {
                        i as u128 + 1
                    } else if c == '׳' || c == '״' {
                        continue;
                    } else {
                        return None;
                    };
                    letters += 1;
                    sum += v;
                }
                (letters > 0).then_some(sum)
            }
            Shape::Ethiopic => ethiopic_decode(text),
            Shape::Enumerated { first, symbols } => {
                let mut it = text.chars();
                let c = it.next()?;
                if it.next().is_some() {
                    return None;
                }
                Some(symbols.iter().position(|x| *x == c)? as u128 + first)
            }
        },
    }
}

pub fn decode_positional(text: &str, digit: impl Fn(char) -> Option<usize>, n: u128) -> Option<u128> {
    if text.is_empty() {
        return None;
    }
    let mut v = 0u128;
    for c in text.chars() {
        v = v.checked_mul(n)?.checked_add(digit(c)? as u128)?;
    }
    Some(v)
}

fn ethiopic_pair(s: &str) -> Option<Option<u128>> {
    // None: no digits at all
    let mut v = 0;
    let mut last = u32::MAX;
    for c in s.chars() {
        let c = c as u32;
        let (class, x) = match c {
            0x1369..=0x1371 => (0, c - 0x1368),
            0x1372..=0x137A => (1, (c - 0x1371) * 10),
            _ => return None,
        };
        if class >= last {
            return None;
        }
        last = class;
        v += x;
    }
    Some((v > 0).then_some(u128::from(v)))
}

fn ethiopic_decode(text: &str) -> Option<u128> {
    if text.is_empty() {
        return None;
    }
    let segments: Vec<&str> = text.split('\u{137C}').collect();
    let mut v = 0u128;
    let count = segments.len();
    for (i, seg) in segments.into_iter().enumerate() {
        let (hundreds, low) = match seg.split_once('\u{137B}') {
            Some((h, l)) => (ethiopic_pair(h)?.unwrap_or(1), l),
            None => (0, seg),
        };
        let low = match ethiopic_pair(low)? {
            Some(x) => x,
            // An empty leading segment before a separator is a dropped one.
            None if i == 0 && count > 1 && seg.is_empty() => 1,
            None => 0,
        };
        v = v.checked_mul(10_000)?.checked_add(hundreds * 100 + low)?;
    }
    Some(v)
}

fn zh_decode(z: Zh, text: &str) -> Option<u128> {
    let t = zh_table(z.trad, z.fin);
    let cs: Vec<char> = text.chars().collect();
    if cs == [t.digits[0]] {
        return Some(0);
    }
    if cs.last() == Some(&t.digits[0]) || cs.first() == Some(&t.digits[0]) {
        return None;
    }
    let no_double_zero = cs.windows(2).all(|w| w != [t.digits[0]; 2]);
    if !no_double_zero {
        return None;
    }
    zh_read(t, zh_exponents(z.scale), &cs, true)
}

/// Splits at the largest unit present, as a reader would.
fn zh_read(t: &ZhTable, units: &[usize], cs: &[char], first: bool) -> Option<u128> {
    if cs.is_empty() {
        return Some(0);
    }
    for r in (0..units.len()).rev() {
        if let Some(p) = cs.iter().rposition(|c| *c == t.large[r]) {
            let high = zh_read(t, &units[..r], &cs[..p], first)?;
            let low = zh_read(t, &units[..r], &cs[p + 1..], false)?;
            let unit = 10u128.checked_pow(units[r] as u32)?;
            if high == 0 || low >= unit {
                return None;
            }
            return high.checked_mul(unit)?.checked_add(low);
        }
    }
    // 0..9999
    let mut v = 0u128;
    let mut place = 4usize;
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == t.digits[0] {
            i += 1;
            continue;
        }
        let (d, next) = match t.digits.iter().position(|x| *x == cs[i]) {
            Some(d) => (d as u128, i + 1),
            // a bare leading ten
            None if i == 0 && first && cs[i] == t.small[0] => (1, i),
            None => return None,
        };
        let unit = cs.get(next).and_then(|c| t.small.iter().position(|x| x == c));
        let p = unit.map_or(0, |u| u + 1);
        if p >= place {
            return None;
        }
        place = p;
        v += d * 10u128.pow(p as u32);
        i = next + usize::from(unit.is_some());
    }
    Some(v)
}
