//! C27: the cases of the other properties, evaluated under Miri for targets
//! whose pointers and byte order differ from the host's.
use crate::cases::Case;
use crate::colls::{Coll, FixColl, FixLeaf, SIZES};
use crate::engine::{self, Failure, Outcome, Replay, Run, Stats};
use crate::gen;
use crate::model;
use crate::num::Ty;
use crate::supervise;
use crate::systems::Sys;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const HARNESS: &str = env!("CARGO_MANIFEST_DIR");

/// 32 bits with the most significant byte first: both differ from the host.
const NARROW_BIG: &str = "powerpc-unknown-linux-gnu";
/// One difference at a time, for the thorough tier.
const NARROW_LITTLE: &str = "i686-unknown-linux-gnu";
const WIDE_BIG: &str = "s390x-unknown-linux-gnu";

#[derive(Clone, Copy, PartialEq)]
struct Mode {
    target: &'static str,
    noalloc: bool,
}

fn cargo(mode: Mode) -> Command {
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--offline", "-q", "--bin", "nomforeign", "--no-default-features", "--features"]);
    c.arg(if mode.noalloc { "data" } else { "data,alloc" });
    c.args(["--target", mode.target]);
    c.arg("--manifest-path").arg(Path::new(HARNESS).join("Cargo.toml"));
    c.arg("--target-dir").arg(Path::new(HARNESS).join(if mode.noalloc { "target/miri-noalloc" } else { "target/miri-alloc" }));
    c.env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-provenance-gc=0 \
         -Zmiri-disable-validation -Zmiri-disable-data-race-detector");
    c.env_remove("RUSTUP_TOOLCHAIN").env_remove("RUSTFLAGS").env_remove("CARGO_TARGET_DIR");
    c.arg("--");
    // Killed as a group when time is up.
    std::os::unix::process::CommandExt::process_group(&mut c, 0);
    c
}

struct Ran {
    /// Which cases were evaluated, and whether they were non-trivial.
    done: Vec<bool>,
    bad: Option<(usize, String)>,
    error: Option<String>,
}

fn execute(file: &Path, mode: Mode, secs: u64) -> Ran {
    let (out, err) = (file.with_extension("out"), file.with_extension("err"));
    let status = (|| {
        let mut child = cargo(mode)
            .arg(file)
            .stdout(Stdio::from(std::fs::File::create(&out).ok()?))
            .stderr(Stdio::from(std::fs::File::create(&err).ok()?))
            .spawn()
            .ok()?;
        Some(supervise::wait_for(&mut child, secs))
    })();
    let text = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    let (stdout, stderr) = (text(&out), text(&err));
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&err);
    let mut r = Ran { done: Vec::new(), bad: None, error: None };
    let (mut ended, mut panic) = (false, String::new());
    for l in stdout.lines() {
        if l.starts_with("S ") {
            r.done.push(false);
        } else if l == "N" {
            if let Some(d) = r.done.last_mut() {
                *d = true;
            }
        } else if l == "E" {
            ended = true;
        } else if let Some(p) = l.strip_prefix("P ") {
            panic = format!(": {p}");
        } else if let (None, Some((i, why))) = (&r.bad, l.strip_prefix("F ").and_then(|l| l.split_once(' '))) {
            let why = if why == "panic" { format!("panic{panic}") } else { why.to_string() };
            r.bad = i.parse().ok().map(|i| (i, why));
        }
    }
    if ended || r.bad.is_some() {
        return r;
    }
    let last = r.done.len().saturating_sub(1);
    r.done.pop();
    if let Some(ub) = stderr.lines().find(|l| l.contains("Undefined Behavior")) {
        r.bad = Some((last, ub.trim().to_string()));
    } else if let Some(p) = stdout.lines().rfind(|l| l.contains("unsafe precondition(s) violated")) {
        r.bad = Some((last, p.trim().to_string()));
    } else if !matches!(status, Some(None)) {
        r.error = Some(stderr.lines().filter(|l| l.contains("error")).take(3).collect::<Vec<_>>().join("; "));
    }
    r
}

/// A property's oracle, and a case for it.
type Asked = (&'static str, Case);

fn write_cases(run: &Run, name: &str, cases: &[Asked]) -> PathBuf {
    let dir = Path::new(HARNESS).join("target/miri-cases");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{name}-{}.cases", run.prop, std::process::id()));
    let mut text = String::new();
    for (prop, case) in cases {
        text += prop;
        text.push(' ');
        text += &serde_json::to_string(case).expect("cases can be written");
        text.push('\n');
    }
    std::fs::write(&path, text).expect("case file must be writable");
    path
}

/// The same case within what 32-bit pointers can express, and short enough
/// for Miri. None if that is another case altogether.
fn narrow(mut case: Case) -> Option<Case> {
    const TOP: u64 = u32::MAX as u64;
    fn coll(c: &mut Coll) {
        match c {
            Coll::User { len, .. } => *len = (*len).min(TOP),
            Coll::Chain(_, a, b) => {
                coll(a);
                coll(b);
            }
            Coll::Restrict(_, a) | Coll::OneBased(_, a) => coll(a),
            _ => {}
        }
    }
    let fit = |ty: &Ty, n: &mut u128| {
        if *ty == Ty::usize {
            *n %= 1 << 32;
        }
    };
    match &mut case {
        Case::Fmt { sys, ty, n } | Case::Pointer { sys, ty, n, .. } => {
            fit(ty, n);
            let cap = model::cap(*sys, 40);
            if cap < *n {
                *n %= cap;
            }
        }
        Case::Pair { sys, a, b } => {
            let cap = model::cap(*sys, 40);
            if cap < *a.max(b) {
                return None;
            }
        }
        Case::Coll { coll: c, ty, n, .. } => {
            coll(c);
            fit(ty, n);
        }
        Case::Fixed { coll: FixColl { leaf, .. }, ty, n } => {
            if let FixLeaf::User { len, .. } = leaf {
                *len = (*len).min(TOP);
            }
            fit(ty, n);
        }
        Case::Additive { ty, n, .. } | Case::Enumerated { ty, n, .. } | Case::Options { ty, n, .. } | Case::PointerUser { ty, n, .. } => fit(ty, n),
        Case::ErrValue { ty, n, asked, .. } => {
            fit(ty, n);
            fit(ty, asked);
        }
        Case::History { init: crate::strings::Init::Formatted(_, ty, n), .. } => fit(ty, n),
        _ => {}
    }
    fn heavy(c: &Coll) -> bool {
        match c {
            Coll::Set { size, .. } => SIZES[*size as usize] > 100,
            Coll::Builtin(s) => s.name() == "HangeulSyllable",
            Coll::User { .. } | Coll::Nothing => false,
            Coll::Chain(_, a, b) => heavy(a) || heavy(b),
            Coll::Restrict(_, a) | Coll::OneBased(_, a) => heavy(a),
        }
    }
    let long = match &case {
        Case::Coll { coll, .. } if heavy(coll) => true,
        Case::Texts { width, .. } => *width > 300,
        Case::Enumerated { len, .. } => usize::from(*len) + 1 >= crate::cases::ENUM_SIZES.len(),
        // Many symbols take many steps.
        Case::Fixed { coll, n, .. } => coll.top() < u128::MAX && *n > 100,
        Case::Additive { set, n, .. } => {
            let symbols: Vec<(&str, u128)> = set.iter().map(|(_, v)| ("", v.0)).collect();
            model::additive_steps(&symbols, *n, true) > 100
        }
        Case::Coll { coll, n, .. } => coll.checked_len().is_none() || (coll.checked_len() == Some(1) && *n > 100),
        c => serde_json::to_string(c).map_or(true, |t| t.len() > 1_200),
    };
    (!long && case.feasible()).then_some(case)
}

/// What a process evaluates, in turn.
fn strategies(noalloc: bool) -> Vec<(&'static str, BoxedStrategy<Case>)> {
    let fmt = || gen::fmt(Sys::all());
    if noalloc {
        return vec![
            ("C24", fmt()),
            ("C24", gen::coll_case()),
            ("C24", fmt()),
            ("C24", gen::fixed_case()),
            ("C24", fmt()),
            ("C24", gen::additive_case()),
            ("C24", fmt()),
            ("C24", gen::short_history()),
        ];
    }
    vec![
        ("C27", fmt()),
        ("C04", gen::coll_case()),
        ("C27", fmt()),
        ("C20", gen::short_history()),
        ("C27", fmt()),
        ("C06", gen::additive_case()),
        ("C27", fmt()),
        ("C05", gen::fixed_case()),
        ("C27", fmt()),
        ("C14", gen::enumerated_case()),
        ("C27", fmt()),
        ("C20", gen::short_history()),
        ("C27", fmt()),
        ("C03", gen::one_based_case()),
        ("C27", fmt()),
        ("C21", gen::twins_case()),
        ("C27", fmt()),
        ("C04", gen::coll_case()),
        ("C27", fmt()),
        ("C22", gen::texts_case()),
        ("C27", fmt()),
        ("C15", gen::err_case()),
        ("C27", fmt()),
        ("C13", gen::options_case()),
        ("C18", gen::pair(Sys::all())),
        ("C27", fmt()),
        ("C16", fmt()),
        ("C06", gen::additive_new_case()),
        ("C17", gen::pointer_case(Sys::all())),
    ]
}

fn label(case: &Case, mode: Mode) -> &'static str {
    let texts = matches!(case, Case::History { .. } | Case::Twins { .. } | Case::Texts { .. });
    match (mode.target, mode.noalloc, texts) {
        (NARROW_BIG, false, false) => "32 bits, big endian: formatting",
        (NARROW_BIG, false, true) => "32 bits, big endian: strings",
        (NARROW_BIG, true, _) => "32 bits, big endian, no alloc",
        (NARROW_LITTLE, ..) => "32 bits, little endian",
        _ => "64 bits, big endian",
    }
}

fn modes(thorough: bool) -> Vec<Mode> {
    let m = |target, noalloc| Mode { target, noalloc };
    let mut v = vec![m(NARROW_BIG, false); 6];
    v.push(m(NARROW_BIG, true));
    if thorough {
        v[4] = m(NARROW_LITTLE, false);
        v[5] = m(WIDE_BIG, false);
        v.push(m(NARROW_LITTLE, true));
    }
    v
}

/// Builds for Miri, and shows that it runs.
pub fn warm(run: &Run) -> i32 {
    let empty = write_cases(run, "empty", &[]);
    let mut seen = Vec::new();
    for mode in modes(run.thorough) {
        if seen.contains(&mode) {
            continue;
        }
        seen.push(mode);
        if let Some(e) = execute(&empty, mode, 600).error {
            eprintln!("C27: Miri cannot run the harness for {}: {e}", mode.target);
            return 2;
        }
    }
    let _ = std::fs::remove_file(&empty);
    0
}

pub fn check(run: &Run) -> i32 {
    engine::init(run);
    let code = warm(run);
    if code != 0 {
        return code;
    }
    let (per, secs) = if run.thorough { (60_000, 5 * 3600) } else { (QUICK, 450) };
    let per = per / run.part as usize;
    let modes = modes(run.thorough);
    let shards: Vec<(Mode, Vec<Asked>)> = modes
        .iter()
        .enumerate()
        .map(|(i, mode)| {
            let mut runner = engine::runner_for(run, "foreign", i, 1);
            let s = strategies(mode.noalloc);
            let mut cases = Vec::new();
            let mut k = 0;
            while cases.len() < per {
                let (prop, s) = &s[k % s.len()];
                k += 1;
                let made = s.new_tree(&mut runner).expect("no filters").current();
                if let Some(c) = narrow(made) {
                    cases.push((*prop, c));
                }
            }
            (*mode, cases)
        })
        .collect();
    let results: Vec<Ran> = std::thread::scope(|s| {
        let hs: Vec<_> = shards
            .iter()
            .enumerate()
            .map(|(i, (mode, cases))| {
                let path = write_cases(run, &i.to_string(), cases);
                s.spawn(move || {
                    let r = execute(&path, *mode, secs);
                    if std::env::var_os("NOMCHECK_KEEP").is_none() {
                        let _ = std::fs::remove_file(&path);
                    }
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut out = Outcome { stats: Stats::default(), failure: None, phases: Vec::new() };
    let mut bad: Option<(Mode, Asked, String)> = None;
    let mut error = None;
    for (i, ((mode, cases), r)) in shards.iter().zip(results).enumerate() {
        for ((_, c), nontrivial) in cases.iter().zip(&r.done) {
            out.stats.count(c, engine::obs(*nontrivial, label(c, *mode)));
        }
        let alloc = if mode.noalloc { "no alloc" } else { "alloc" };
        out.phases.push((format!("Miri process {i}, {}, {alloc}, {} cases made", mode.target, cases.len()), r.done.len() as u64));
        error = error.or(r.error);
        if let (None, Some((k, why))) = (&bad, r.bad) {
            bad = cases.get(k).map(|c| (*mode, c.clone(), why));
        }
    }
    if let (Some(e), None) = (error, &bad) {
        eprintln!("C27: Miri stopped: {e}");
        return 2;
    }
    let plan = crate::props::plan("C27");
    engine::write_evidence(run, &out, plan.rule, plan.assumptions, serde_json::json!({}), u32::from(bad.is_some()));
    let Some((mode, (prop, case), why)) = bad else {
        println!("C27: held on {} cases, {} of them non-trivial", out.stats.evaluations, out.stats.nontrivial);
        return 0;
    };
    let best = shrink(run, prop, Failure { case, why }, mode);
    let dir = run.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = engine::save_replay(run, &best.case, &best.why);
    let r = Replay {
        property: run.prop.clone(),
        why: best.why.clone(),
        case: best.case.clone(),
        noalloc: mode.noalloc,
        release: false,
        foreign: Some((mode.target.into(), prop.into())),
    };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n");
    supervise::report(run, &path, &format!("{:?} on {}{}: {}", best.case, mode.target, if mode.noalloc { " (no alloc)" } else { "" }, best.why));
    1
}

/// Cases per process.
const QUICK: usize = 750;

/// All candidates of a round go through one Miri process.
fn shrink(run: &Run, prop: &'static str, first: Failure, mode: Mode) -> Failure {
    let mut best = first;
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    while std::time::Instant::now() < end {
        let mut candidates: Vec<Asked> = best.case.smaller().into_iter().filter_map(narrow).map(|c| (prop, c)).collect();
        candidates.truncate(150);
        let path = write_cases(run, "shrink", &candidates);
        let r = execute(&path, mode, 60);
        let _ = std::fs::remove_file(&path);
        match r.bad {
            Some((i, why)) => best = Failure { case: candidates[i].1.clone(), why },
            None => break,
        }
    }
    best
}

pub fn replay(r: &Replay) -> i32 {
    let run = Run { prop: "C27".into(), seed: 1, thorough: false, root: "".into(), part: 1 };
    let (target, prop) = r.foreign.clone().unwrap_or((NARROW_BIG.into(), "C01".into()));
    let known = |s: &str, of: &[&'static str]| of.iter().copied().find(|x| *x == s);
    let (Some(target), Some(prop)) = (
        known(&target, &[NARROW_BIG, NARROW_LITTLE, WIDE_BIG]),
        known(&prop, &strategies(r.noalloc).iter().map(|s| s.0).collect::<Vec<_>>()),
    ) else {
        eprintln!("unknown target or property");
        return 2;
    };
    let path = write_cases(&run, "replay", &[(prop, r.case.clone())]);
    let got = execute(&path, Mode { target, noalloc: r.noalloc }, 600);
    let _ = std::fs::remove_file(&path);
    match (got.bad, got.error) {
        (Some((_, why)), _) => {
            println!("FAILS {why}");
            1
        }
        (None, Some(e)) => {
            eprintln!("Miri: {e}");
            2
        }
        _ => {
            println!("holds on this case");
            0
        }
    }
}
