//! NominalString histories against an ordinary String.
use crate::num::Ty;
use crate::systems::{self, Sys};
use crate::with_ty;
use nominals::NominalString;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
#[cfg_attr(feature = "data", derive(serde::Serialize, serde::Deserialize))]
pub enum Init {
    New,
    NewReverse,
    Default,
    Char(char),
    Str(String),
    /// From<String> (alloc only)
    Owned(String),
    /// From<&String> (alloc only)
    Ref(String),
    /// A formatting result.
    Formatted(Sys, Ty, #[cfg_attr(feature = "data", serde(with = "crate::num::u128s"))] u128),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
#[cfg_attr(feature = "data", derive(serde::Serialize, serde::Deserialize))]
pub enum Op {
    Push(char),
    PushStr(String),
    PushFront(char),
    /// make_ascii_uppercase through DerefMut
    Upper,
    Lower,
    /// Uppercase the ASCII of a char-aligned part [from, to) (in chars, modulo length).
    UpperPart(u8, u8),
    /// Clone, keep going with the original; the clone is checked at the end.
    Clone,
    /// Clone, keep going with the clone.
    CloneSwap,
    /// clone_from onto a string with this text
    CloneFrom(String),
    /// String::from, then From<String>
    ThroughString,
    /// try_into_string; on Err carry on with what came back
    TryInto,
    /// To &str and back
    ThroughStr,
}

pub const LIMIT: usize = 62;

#[cfg(feature = "alloc")]
pub fn start(init: &Init) -> (NominalString, String) {
    match init {
        Init::Owned(s) => (NominalString::from(s.clone()), s.clone()),
        Init::Ref(s) => (NominalString::from(s), s.clone()),
        _ => start_any(init),
    }
}
#[cfg(not(feature = "alloc"))]
pub fn start(init: &Init) -> (NominalString, String) {
    match init {
        Init::Owned(s) | Init::Ref(s) | Init::Str(s) => {
            // From<&str> documents no error for long text without alloc.
            let mut t = s.clone();
            while t.len() > LIMIT {
                t.pop();
            }
            (NominalString::from(t.as_str()), t)
        }
        _ => start_any(init),
    }
}

fn start_any(init: &Init) -> (NominalString, String) {
    match init {
        Init::New => (NominalString::new(), String::new()),
        Init::NewReverse => (NominalString::new_reverse(), String::new()),
        Init::Default => (NominalString::default(), String::new()),
        Init::Char(c) => (NominalString::from(*c), c.to_string()),
        Init::Str(s) | Init::Owned(s) | Init::Ref(s) => (NominalString::from(s.as_str()), s.clone()),
        Init::Formatted(sys, ty, n) => with_ty!(*ty, T => {
            // The text is taken at face value here: what it should be is the
            // business of the formatting properties.
            let s = systems::format(*sys, <T as crate::num::Num>::of(*n));
            let t = String::from_utf8(s.as_bytes().to_vec()).expect("valid UTF-8");
            (s, t)
        }),
    }
}

pub fn same(s: &NominalString, want: &str, what: &dyn Fn() -> String) -> Result<(), String> {
    let bytes = s.as_bytes();
    // What equals an ordinary string is valid UTF-8.
    if bytes == want.as_bytes() {
        return Ok(());
    }
    if std::str::from_utf8(bytes).is_err() {
        return Err(format!("after {}: invalid UTF-8", what()));
    }
    Err(format!(
        "after {}: the string holds {:?}, an ordinary string {want:?}",
        what(),
        String::from_utf8_lossy(bytes)
    ))
}

fn part(t: &str, from: u8, to: u8) -> std::ops::Range<usize> {
    let n = t.chars().count() + 1;
    let (a, b) = (from as usize % n, to as usize % n);
    let (a, b) = (a.min(b), a.max(b));
    let at = |k| t.char_indices().nth(k).map_or(t.len(), |x| x.0);
    at(a)..at(b)
}

pub struct Outcome {
    pub max_len: usize,
    pub mixed_width: bool,
    pub spilled: bool,
}

/// Runs a history; `push` results must be Ok with alloc, and without it Ok
/// exactly while the text fits.
pub fn history(init: &Init, ops: &[Op]) -> Result<Outcome, String> {
    let (mut s, mut t) = start(init);
    same(&s, &t, &|| "construction".into())?;
    #[allow(unused_mut)]
    let mut clones: Vec<(NominalString, String)> = Vec::new();
    let mut max_len = t.len();
    let start_inline = s.is_inline();
    for (i, op) in ops.iter().enumerate() {
        let what = || format!("step {i} ({op:?})");
        let mut want = t.clone();
        let mut pushed = None;
        match op {
            Op::Push(c) => {
                want.push(*c);
                pushed = Some(s.try_push(*c));
            }
            Op::PushStr(x) => {
                want.push_str(x);
                pushed = Some(s.try_push_str(x));
            }
            Op::PushFront(c) => {
                want.insert(0, *c);
                pushed = Some(s.try_push_front(*c));
            }
            Op::Upper => {
                want.make_ascii_uppercase();
                s.make_ascii_uppercase();
            }
            Op::Lower => {
                want.make_ascii_lowercase();
                s.make_ascii_lowercase();
            }
            Op::UpperPart(a, b) => {
                let r = part(&want, *a, *b);
                want[r.clone()].make_ascii_uppercase();
                match s.get_mut(r) {
                    Some(p) => p.make_ascii_uppercase(),
                    None => return Err(format!("{}: char boundaries differ from the text's", what())),
                }
            }
            #[cfg(feature = "alloc")]
            Op::Clone => clones.push((s.clone(), t.clone())),
            #[cfg(feature = "alloc")]
            Op::CloneSwap => {
                let c = s.clone();
                clones.push((std::mem::replace(&mut s, c), t.clone()));
            }
            #[cfg(feature = "alloc")]
            Op::CloneFrom(x) => {
                let mut c = NominalString::from(x.as_str());
                c.clone_from(&s);
                clones.push((std::mem::replace(&mut s, c), t.clone()));
            }
            #[cfg(feature = "alloc")]
            Op::ThroughString => {
                let x = String::from(s);
                if x != t {
                    return Err(format!("{}: String::from gives {x:?}, expected {t:?}", what()));
                }
                s = NominalString::from(x);
            }
            #[cfg(feature = "alloc")]
            Op::TryInto => {
                let inline = s.is_inline();
                s = match s.try_into_string() {
                    Ok(x) => {
                        if inline || x != t {
                            return Err(format!("{}: inline {inline}, got Ok({x:?}), text {t:?}", what()));
                        }
                        NominalString::from(x)
                    }
                    Err(x) => {
                        if !inline {
                            return Err(format!("{}: a heap string was given back", what()));
                        }
                        x
                    }
                };
            }
            Op::ThroughStr => {
                if t.len() <= LIMIT || cfg!(feature = "alloc") {
                    s = NominalString::from(&*s);
                }
            }
            #[cfg(not(feature = "alloc"))]
            _ => {}
        }
        if let Some(r) = pushed {
            let fits = cfg!(feature = "alloc") || want.len() <= LIMIT;
            match (fits, r) {
                (true, Ok(())) => t = want,
                (true, Err(_)) => return Err(format!("{}: failed although it fits", what())),
                (false, Ok(())) => return Err(format!("{}: succeeded past 62 bytes", what())),
                (false, Err(_)) => {} // the text must be unchanged
            }
        } else {
            t = want;
        }
        same(&s, &t, &what)?;
        max_len = max_len.max(t.len());
    }
    // Read through every access path (what Debug prints is not specified).
    // Debug costs Miri as much as ten pushes.
    let debug = !cfg!(miri) || (t.len() < 100 && (t.len() + ops.len()) % 4 == 0);
    let shown = if debug { format!("{s:?}{s}") } else { format!("{s}") };
    if !shown.ends_with(t.as_str()) || s != *t.as_str() || s < *t.as_str() {
        return Err(format!("at the end: prints {shown:?}, the text is {t:?}"));
    }
    for (i, (c, want)) in clones.iter().enumerate() {
        same(c, want, &|| format!("the whole history, clone {i}"))?;
        if (*c == s) != (*want == t) || c.cmp(&s) != want.cmp(&t) {
            return Err(format!("clone {i} compares otherwise than its text"));
        }
    }
    Ok(Outcome {
        max_len,
        mixed_width: !t.is_ascii() && t.chars().any(|c| c.is_ascii()),
        spilled: start_inline && !s.is_inline(),
    })
}

/// C21: the same pushes on every inline constructor look the same, and the
/// string is inline exactly while it fits.
#[cfg(feature = "alloc")]
pub fn twins(seed: &str, ops: &[Op]) -> Result<Outcome, String> {
    let mut max_len = 0;
    let mut all: Vec<(&str, NominalString)> = vec![
        ("new", NominalString::new()),
        ("new_reverse", NominalString::new_reverse()),
        ("default", NominalString::default()),
    ];
    let mut t = String::from(seed);
    let mut cs = seed.chars();
    for (_, s) in &mut all {
        s.try_push_str(seed).map_err(|_| "try_push_str failed")?;
    }
    if let (Some(c), None) = (cs.next(), cs.next()) {
        all.push(("from char", NominalString::from(c)));
    }
    all.push(("from str", NominalString::from(seed)));
    all.push(("from &String", NominalString::from(&t)));
    let mut front_fed = NominalString::new_reverse();
    for c in seed.chars().rev() {
        front_fed.try_push_front(c).map_err(|_| "try_push_front failed")?;
    }
    all.push(("new_reverse fed from the front", front_fed));
    let mut forward_fed = NominalString::new();
    for c in seed.chars().rev() {
        forward_fed.try_push_front(c).map_err(|_| "try_push_front failed")?;
    }
    all.push(("new fed from the front", forward_fed));
    if NominalString::INLINE_CAPACITY != LIMIT || std::mem::size_of::<NominalString>() != 64 {
        return Err("INLINE_CAPACITY is not 62 or the size is not 64 bytes".into());
    }
    for step in 0..=ops.len() {
        if step > 0 {
            let op = &ops[step - 1];
            match op {
                Op::Push(c) => t.push(*c),
                Op::PushStr(x) => t.push_str(x),
                Op::PushFront(c) => t.insert(0, *c),
                _ => {}
            }
            for (name, s) in &mut all {
                let r = match op {
                    Op::Push(c) => s.try_push(*c),
                    Op::PushStr(x) => s.try_push_str(x),
                    Op::PushFront(c) => s.try_push_front(*c),
                    Op::CloneSwap => {
                        *s = s.clone();
                        Ok(())
                    }
                    _ => Ok(()),
                };
                r.map_err(|_| format!("{name}: step {step} ({op:?}) failed"))?;
            }
        }
        max_len = max_len.max(t.len());
        for (name, s) in &all {
            let what = || format!("step {step} on a string from {name}");
            same(s, &t, &what)?;
            if s.is_inline() != (t.len() <= LIMIT) {
                return Err(format!("after {}: {} bytes, is_inline() is {}", what(), t.len(), s.is_inline()));
            }
        }
    }
    let spilled = t.len() > LIMIT;
    for (name, s) in all {
        match (spilled, s.try_into_string()) {
            (true, Ok(x)) if x == t => {}
            (false, Err(x)) if *x == *t && x.is_inline() => {
                if String::from(x) != t {
                    return Err(format!("{name}: String::from differs"));
                }
            }
            (_, r) => return Err(format!("{name}: {} bytes, try_into_string gave {r:?}", t.len())),
        }
    }
    Ok(Outcome { max_len, mixed_width: !t.is_ascii(), spilled })
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
#[cfg_attr(feature = "data", derive(serde::Serialize, serde::Deserialize))]
pub struct Text {
    pub text: String,
    /// How the NominalString is produced.
    pub form: u8,
}
pub const FORMS: u8 = 7;

#[cfg(feature = "alloc")]
impl Text {
    pub fn build(&self) -> NominalString {
        let t = self.text.as_str();
        match self.form % FORMS {
            0 => NominalString::from(t),
            1 => NominalString::from(t.to_string()),
            2 => {
                let mut s = NominalString::new_reverse();
                for c in t.chars().rev() {
                    s.try_push_front(c).unwrap();
                }
                s
            }
            3 => {
                let mut s = NominalString::new_reverse();
                s.try_push_str(t).unwrap();
                s
            }
            4 => {
                let mut s = NominalString::new();
                for c in t.chars().rev() {
                    s.try_push_front(c).unwrap();
                }
                s
            }
            5 => NominalString::from(t).clone(),
            _ => {
                let mut s = NominalString::new();
                for c in t.chars() {
                    s.try_push(c).unwrap();
                }
                s
            }
        }
    }
}

#[cfg(feature = "alloc")]
struct Narrow(String, usize);
#[cfg(feature = "alloc")]
impl std::fmt::Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

/// C22 on three texts and one format specification.
#[cfg(feature = "alloc")]
pub fn compare(texts: &[Text; 3], width: usize, prec: usize) -> Result<(), String> {
    use std::cmp::Ordering;
    let s: Vec<NominalString> = texts.iter().map(Text::build).collect();
    let t: Vec<&str> = texts.iter().map(|x| x.text.as_str()).collect();
    macro_rules! eq {
        ($got:expr, $want:expr, $($what:tt)*) => {{
            let (got, want) = ($got, $want);
            if got != want {
                return Err(format!("{}: got {got:?}, expected {want:?} (texts {t:?}, forms {:?})",
                    format!($($what)*), texts.iter().map(|x| x.form).collect::<Vec<_>>()));
            }
        }};
    }
    for i in 0..3 {
        for j in 0..3 {
            let same = t[i] == t[j];
            let ord = t[i].cmp(t[j]);
            let owned = t[j].to_string();
            eq!(s[i] == s[j], same, "[{i}] == [{j}]");
            eq!(s[i] != s[j], !same, "[{i}] != [{j}]");
            eq!(s[i] == *t[j], same, "[{i}] == str [{j}]");
            eq!(s[i] != *t[j], !same, "[{i}] != str [{j}]");
            eq!(s[i] == t[j], same, "[{i}] == &str [{j}]");
            eq!(s[i] == owned, same, "[{i}] == String [{j}]");
            eq!(s[i] != owned, !same, "[{i}] != String [{j}]");
            eq!(s[i].cmp(&s[j]), ord, "cmp [{i}] [{j}]");
            eq!(s[i].partial_cmp(&s[j]), Some(ord), "partial_cmp [{i}] [{j}]");
            eq!(s[i].partial_cmp(t[j]), Some(ord), "partial_cmp str [{i}] [{j}]");
            eq!(s[i].partial_cmp(&owned), Some(ord), "partial_cmp String [{i}] [{j}]");
            eq!(s[i] < s[j], ord == Ordering::Less, "[{i}] < [{j}]");
            eq!(s[i] <= s[j], ord != Ordering::Greater, "[{i}] <= [{j}]");
            eq!(s[i] > s[j], ord == Ordering::Greater, "[{i}] > [{j}]");
            eq!(s[i] >= s[j], ord != Ordering::Less, "[{i}] >= [{j}]");
            eq!(s[i] != t[j], !same, "[{i}] != &str [{j}]");
            let (less, more) = (ord == Ordering::Less, ord == Ordering::Greater);
            eq!((s[i] < *t[j], s[i] <= *t[j]), (less, !more), "[{i}] < and <= str [{j}]");
            eq!((s[i] > *t[j], s[i] >= *t[j]), (more, !less), "[{i}] > and >= str [{j}]");
            eq!((s[i] < owned, s[i] <= owned), (less, !more), "[{i}] < and <= String [{j}]");
            eq!((s[i] > owned, s[i] >= owned), (more, !less), "[{i}] > and >= String [{j}]");
            let (a, b) = (&s[i], &s[j]);
            eq!((&**a.max(b), &**a.min(b)), (t[i].max(t[j]), t[i].min(t[j])), "max and min [{i}] [{j}]");
            if ord != Ordering::Greater {
                let middle = texts[2].text.as_str();
                eq!(&**(&s[2]).clamp(a, b), middle.clamp(t[i], t[j]), "clamp [2] to [{i}] [{j}]");
            }
        }
    }
    let mut by_nominal: Vec<&NominalString> = s.iter().collect();
    by_nominal.sort();
    let mut by_text = t.clone();
    by_text.sort_unstable();
    eq!(by_nominal.iter().map(|x| &***x).collect::<Vec<_>>(), by_text, "sort");
    let max = s.iter().max().map(|x| x.to_string());
    eq!(max.as_deref(), t.iter().max().copied(), "max");

    let (n, o) = (&s[0], t[0]);
    eq!(n.to_string(), o.to_string(), "to_string");
    eq!(format!("{n}"), format!("{o}"), "{{}}");
    eq!(format!("{n:width$}"), format!("{o:width$}"), "width {width}");
    eq!(format!("{n:<width$}"), format!("{o:<width$}"), "left {width}");
    eq!(format!("{n:>width$}"), format!("{o:>width$}"), "right {width}");
    eq!(format!("{n:^width$}"), format!("{o:^width$}"), "centre {width}");
    eq!(format!("{n:*<width$}"), format!("{o:*<width$}"), "fill * left {width}");
    eq!(format!("{n:é>width$}"), format!("{o:é>width$}"), "fill é right {width}");
    eq!(format!("{n:零^width$}"), format!("{o:零^width$}"), "fill 零 centre {width}");
    eq!(format!("{n:.prec$}"), format!("{o:.prec$}"), "precision {prec}");
    eq!(format!("{n:-^width$.prec$}"), format!("{o:-^width$.prec$}"), "width {width} precision {prec}");
    eq!(format!("{n:>width$.prec$}"), format!("{o:>width$.prec$}"), "right width {width} precision {prec}");
    eq!(format!("{n:0width$}"), format!("{o:0width$}"), "0 flag, width {width}");
    eq!(format!("{n:#}"), format!("{o:#}"), "# flag");
    eq!(format!("{n:#width$.prec$}"), format!("{o:#width$.prec$}"), "# flag, width {width} precision {prec}");
    eq!(format!("{n:+width$}"), format!("{o:+width$}"), "+ flag, width {width}");
    eq!(format!("{n:->+#0width$.prec$}"), format!("{o:->+#0width$.prec$}"), "all flags, width {width} precision {prec}");
    eq!(format!("[{n:#}]{n:+}"), format!("[{o:#}]{o:+}"), "# and + flags");
    // A writer that takes `prec` bytes: Display passes its error on.
    let mut into = Narrow(String::new(), prec);
    let whole = format!("{o:>width$}");
    let got = std::fmt::Write::write_fmt(&mut into, format_args!("{n:>width$}"));
    eq!(got.is_ok(), whole.len() <= prec, "a writer of {prec} bytes");
    eq!(whole.starts_with(&into.0), true, "text before the writer of {prec} bytes failed");
    eq!(n.len(), o.len(), "len");
    eq!(n.chars().collect::<Vec<_>>(), o.chars().collect::<Vec<_>>(), "chars");
    Ok(())
}
