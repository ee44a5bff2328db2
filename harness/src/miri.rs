//! C23: the generated cases, executed under Miri.
use crate::cases::Case;
use crate::engine::{self, obs, Failure, Outcome, Replay, Run, Stats};
use crate::gen;
use crate::strings::{Init, Op};
use crate::supervise;
use crate::systems::Sys;
use crate::model::{self, M};
use crate::wire::{Call, Line};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const HARNESS: &str = env!("CARGO_MANIFEST_DIR");

/// How one Miri process looks at its cases.
#[derive(Clone, Copy)]
struct Mode {
    noalloc: bool,
    /// Also check aliasing (Tree Borrows), at a third of the speed.
    borrows: bool,
}

fn cargo(mode: Mode) -> Command {
    let noalloc = mode.noalloc;
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--offline", "-q", "--bin", "nommiri", "--no-default-features"]);
    if !noalloc {
        c.args(["--features", "alloc"]);
    }
    c.arg("--manifest-path").arg(Path::new(HARNESS).join("Cargo.toml"));
    c.arg("--target-dir").arg(Path::new(HARNESS).join(if noalloc { "target/miri-noalloc" } else { "target/miri-alloc" }));
    let flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks";
    c.env("MIRIFLAGS", format!("{flags} {}", if mode.borrows { "-Zmiri-tree-borrows" } else { "-Zmiri-disable-stacked-borrows -Zmiri-provenance-gc=0" }));
    c.env_remove("RUSTUP_TOOLCHAIN").env_remove("RUSTFLAGS").env_remove("CARGO_TARGET_DIR");
    c.arg("--");
    // Killed as a group when time is up.
    std::os::unix::process::CommandExt::process_group(&mut c, 0);
    c
}

fn line(case: &Case) -> Option<Line> {
    Some(match case {
        Case::History { init, ops } => Line::History(init.clone(), ops.clone()),
        Case::Fmt { sys, ty, n } => Line::Fmt(*sys, *ty, *n),
        Case::Calls { calls, threads } => Line::Calls(
            calls
                .iter()
                .map(|(sys, ty, n)| {
                    let mut text = String::new();
                    let kind = match model::model(*sys, n.0, usize::MAX, &mut text) {
                        M::Ok => 0,
                        M::NoZero => 1,
                        _ => 2,
                    };
                    match kind {
                        1 => text = "0".into(),
                        2 => text = n.0.to_string(),
                        _ => {}
                    }
                    Call { sys: *sys, ty: *ty, n: n.0, kind, text }
                })
                .collect(),
            (*threads).max(1),
        ),
        _ => return None,
    })
}

struct Ran {
    /// Cases executed to the end.
    done: usize,
    /// First case that broke the property, and how.
    bad: Option<(usize, String)>,
    /// The process could not be run, or stopped for a reason that is no
    /// undefined behaviour.
    error: Option<String>,
}

fn execute(file: &Path, cases: usize, mode: Mode, secs: u64) -> Ran {
    let out = file.with_extension("out");
    let err = file.with_extension("err");
    let status = (|| {
        let mut child = cargo(mode)
            .arg(file)
            .stdout(Stdio::from(std::fs::File::create(&out).ok()?))
            .stderr(Stdio::from(std::fs::File::create(&err).ok()?))
            .spawn()
            .ok()?;
        Some(supervise::wait_for(&mut child, secs))
    })();
    let stdout = std::fs::read_to_string(&out).unwrap_or_default();
    let stderr = std::fs::read_to_string(&err).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&err);
    let started = stdout.lines().filter(|l| l.starts_with("S ")).count();
    let invalid = stdout.lines().find_map(|l| {
        let (i, why) = l.strip_prefix("F ")?.split_once(' ')?;
        why.contains("invalid UTF-8").then(|| Some((i.parse().ok()?, why.to_string())))?
    });
    if invalid.is_some() {
        return Ran { done: started, bad: invalid, error: None };
    }
    if stdout.lines().any(|l| l == "E") {
        return Ran { done: cases, bad: None, error: None };
    }
    // Undefined behaviour that Miri sees, or the standard library's own checks
    // of what unsafe code promises.
    let ub = stderr
        .lines()
        .find(|l| l.contains("Undefined Behavior"))
        .or_else(|| stdout.lines().chain(stderr.lines()).find(|l| l.contains("unsafe precondition(s) violated")));
    match (ub, status) {
        (Some(ub), _) if started > 0 => {
            let i = started - 1;
            Ran { done: i, bad: Some((i, ub.trim().to_string())), error: None }
        }
        (None, Some(None)) => Ran { done: started.saturating_sub(1), bad: None, error: None },
        _ => Ran {
            done: started.saturating_sub(1),
            bad: None,
            error: Some(stderr.lines().filter(|l| l.contains("error")).take(3).collect::<Vec<_>>().join("; ")),
        },
    }
}

fn write_cases(run: &Run, name: &str, cases: &[Case]) -> PathBuf {
    let dir = Path::new(HARNESS).join("target/miri-cases");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{name}-{}.cases", run.prop, std::process::id()));
    let lines: Vec<Line> = cases.iter().filter_map(line).collect();
    assert_eq!(lines.len(), cases.len(), "only histories and formatting run under Miri");
    std::fs::write(&path, crate::wire::write_file(&lines)).expect("case file must be writable");
    path
}

/// Around the capacity: every length near it, width and last operation.
fn boundary() -> Vec<Case> {
    let mut v = Vec::new();
    for len in [0usize, 1, 57, 58, 59, 60, 61, 62] {
        for c in ['a', 'é', '零', '\u{1F600}'] {
            let mut seed: String = std::iter::repeat_n(c, len / c.len_utf8()).collect();
            while seed.len() < len {
                seed.push('-');
            }
            let mut last: Vec<Op> = Vec::new();
            for c in ['a', 'é', '零', '\u{1F600}'] {
                last.extend([Op::Push(c), Op::PushFront(c)]);
            }
            for l in [0, 1, 62usize.saturating_sub(len), 63 - len, 62, 63, 193, 194, 256] {
                last.push(Op::PushStr("q".repeat(l)));
            }
            for op in last {
                for how in 0..3 {
                    let (init, mut ops) = match how {
                        0 => (Init::Str(seed.clone()), vec![]),
                        1 => (Init::NewReverse, vec![Op::PushStr(seed.clone())]),
                        _ => (Init::NewReverse, seed.chars().rev().take(70).map(Op::PushFront).collect()),
                    };
                    if how == 2 && len > 40 && !seed.starts_with('\u{1F600}') {
                        // The long way round only for the widest character.
                        continue;
                    }
                    ops.extend([op.clone(), Op::Upper, Op::PushFront('é'), Op::Push('z'), Op::CloneSwap]);
                    v.push(Case::History { init, ops });
                }
            }
        }
    }
    v
}

fn formatting() -> BoxedStrategy<Case> {
    gen::fmt(Sys::all())
        .prop_map(|c| match c {
            // Long additive numerals cost Miri seconds.
            Case::Fmt { sys, ty, n } if crate::model::cap(sys, 40) < n => {
                Case::Fmt { sys, ty, n: n % crate::model::cap(sys, 40) }
            }
            c => c,
        })
        .boxed()
}

fn describe(case: &Case, mode: Mode, stats: &mut Stats) {
    let (nontrivial, history) = match case {
        Case::History { ops, .. } => (ops.len() >= 2, true),
        Case::Fmt { n, .. } => (*n >= 10, false),
        _ => (false, false),
    };
    let label = match (history, mode.noalloc, mode.borrows) {
        (true, false, false) => "history",
        (true, false, true) => "history, borrows checked",
        (true, true, false) => "history, no alloc",
        (true, true, true) => "history, no alloc, borrows checked",
        (false, false, _) => "formatting",
        (false, true, _) => "formatting, no alloc",
    };
    stats.count(case, obs(nontrivial, label));
}

/// Builds for Miri, and shows that it runs.
pub fn warm(run: &Run) -> i32 {
    let empty = write_cases(run, "empty", &[]);
    for noalloc in [false, true] {
        let r = execute(&empty, 0, Mode { noalloc, borrows: true }, 600);
        if let Some(e) = r.error {
            eprintln!("C23: Miri cannot run the harness: {e}");
            return 2;
        }
    }
    let _ = std::fs::remove_file(&empty);
    0
}

/// The Miri processes: five with alloc and three without, one of each kind
/// with Tree Borrows.
const MODES: [Mode; 8] = [
    Mode { noalloc: false, borrows: false },
    Mode { noalloc: false, borrows: false },
    Mode { noalloc: false, borrows: false },
    Mode { noalloc: false, borrows: false },
    Mode { noalloc: false, borrows: true },
    Mode { noalloc: true, borrows: false },
    Mode { noalloc: true, borrows: false },
    Mode { noalloc: true, borrows: true },
];

pub fn check(run: &Run) -> i32 {
    engine::init(run);
    let code = warm(run);
    if code != 0 {
        return code;
    }
    let (scale, secs) = if run.thorough { (40, 4 * 3600) } else { (1, 660) };
    let boundary = boundary();
    let shards: Vec<(Mode, Vec<Case>)> = MODES
        .iter()
        .enumerate()
        .map(|(i, mode)| {
            let mut runner = engine::runner_for(run, "miri", i, 1);
            let (h, f) = (gen::short_history(), formatting());
            // Every boundary case once without and some again with borrows.
            let peers: Vec<usize> = (0..MODES.len())
                .filter(|k| MODES[*k].noalloc == mode.noalloc && MODES[*k].borrows == mode.borrows)
                .collect();
            let stride = if mode.borrows { 7 } else { peers.len() };
            let first = peers.iter().position(|k| *k == i).unwrap();
            let mut cases: Vec<Case> = boundary.iter().skip(first).step_by(stride).cloned().collect();
            let (histories, formats) = if mode.borrows { (QUICK.0 / 4, QUICK.1 / 4) } else { QUICK };
            for k in 0..(histories + formats) * scale {
                let s = if k < histories * scale { &h } else { &f };
                cases.push(s.new_tree(&mut runner).expect("no filters").current());
            }
            (*mode, cases)
        })
        .collect();
    let results: Vec<Ran> = std::thread::scope(|s| {
        let hs: Vec<_> = shards
            .iter()
            .enumerate()
            .map(|(i, (mode, cases))| {
                let path = write_cases(run, &i.to_string(), cases);
                s.spawn(move || {
                    let r = execute(&path, cases.len(), *mode, secs);
                    let _ = std::fs::remove_file(&path);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut out = Outcome { stats: Stats::default(), failure: None, phases: Vec::new() };
    let mut bad: Option<(Mode, Failure)> = None;
    let mut error = None;
    for (i, ((mode, cases), r)) in shards.iter().zip(&results).enumerate() {
        for c in &cases[..r.done.min(cases.len())] {
            describe(c, *mode, &mut out.stats);
        }
        let name = format!(
            "Miri process {i}, {}, {}",
            if mode.noalloc { "no alloc" } else { "alloc" },
            if mode.borrows { "Tree Borrows" } else { "no aliasing model" }
        );
        out.phases.push((format!("{name}, {} cases made", cases.len()), r.done as u64));
        if let Some(e) = &r.error {
            error = Some(e.clone());
        }
        if let (None, Some((k, why))) = (&bad, &r.bad) {
            bad = Some((*mode, Failure { case: cases[*k].clone(), why: why.clone() }));
        }
    }
    if let (Some(e), None) = (error, &bad) {
        eprintln!("C23: Miri stopped: {e}");
        return 2;
    }
    let plan = crate::props::plan("C23");
    engine::write_evidence(run, &out, plan.rule, plan.assumptions, serde_json::json!({}), u32::from(bad.is_some()));
    let Some((mode, failure)) = bad else {
        println!("C23: no undefined behaviour in {} cases, {} of them non-trivial", out.stats.evaluations, out.stats.nontrivial);
        return 0;
    };
    let best = shrink(run, failure, mode);
    let dir = run.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = engine::save_replay(run, &best.case, &best.why);
    let r = Replay { property: run.prop.clone(), why: best.why.clone(), case: best.case.clone(), noalloc: mode.noalloc, release: false, foreign: None };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n");
    supervise::report(run, &path, &format!("{:?}{}: {}", best.case, if mode.noalloc { " (no alloc)" } else { "" }, best.why));
    1
}

/// Random histories and formatting calls per process without borrows.
const QUICK: (usize, usize) = (800, 400);

/// All candidates of a round go through one Miri process, which stops at the
/// first that fails.
fn shrink(run: &Run, first: Failure, mode: Mode) -> Failure {
    let mut best = first;
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    while std::time::Instant::now() < end {
        let mut candidates = best.case.smaller();
        candidates.truncate(150);
        let path = write_cases(run, "shrink", &candidates);
        let r = execute(&path, candidates.len(), mode, 60);
        let _ = std::fs::remove_file(&path);
        match r.bad {
            Some((i, why)) => best = Failure { case: candidates[i].clone(), why },
            None => break,
        }
    }
    best
}

pub fn replay(r: &Replay) -> i32 {
    let run = Run { prop: "C23".into(), seed: 1, thorough: false, root: "".into(), part: 1 };
    let path = write_cases(&run, "replay", std::slice::from_ref(&r.case));
    let got = execute(&path, 1, Mode { noalloc: r.noalloc, borrows: true }, 600);
    let _ = std::fs::remove_file(&path);
    match (got.bad, got.error) {
        (Some((_, why)), _) => {
            println!("FAILS {why}");
            1
        }
        (None, Some(e)) => {
            eprintln!("Miri: {e}");
            2
        }
        _ => {
            println!("holds on this case");
            0
        }
    }
}

// ------------------------------------------------------ concurrent calls

/// C25: concurrent calls in fresh programs, under the schedules of many Miri
/// seeds, with data races detected.
struct Schedules {
    first: u64,
    count: u64,
}

enum Concurrent {
    Held,
    Broken(String),
    /// Not finished in time; nothing wrong so far.
    Late,
    Error(String),
}

fn run_schedules(file: &Path, s: &Schedules, secs: u64) -> Concurrent {
    let (out, err) = (file.with_extension("out"), file.with_extension("err"));
    let mode = Mode { noalloc: false, borrows: false };
    let mut c = cargo(mode);
    let flags = format!(
        "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-provenance-gc=0 \
         -Zmiri-preemption-rate=0.03 -Zmiri-many-seeds={}..{}",
        s.first,
        s.first + s.count
    );
    let status = (|| {
        let mut child = c
            .arg(file)
            .env("MIRIFLAGS", flags)
            .stdout(Stdio::from(std::fs::File::create(&out).ok()?))
            .stderr(Stdio::from(std::fs::File::create(&err).ok()?))
            .spawn()
            .ok()?;
        Some(supervise::wait_for(&mut child, secs))
    })();
    let text = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    let (stdout, stderr) = (text(&out), text(&err));
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&err);
    if let Some(why) = stdout.lines().find_map(|l| l.strip_prefix("F ")?.split_once(' ').map(|x| x.1)) {
        return Concurrent::Broken(format!("under a Miri schedule: {why}"));
    }
    if let Some(ub) = stderr.lines().find(|l| l.contains("Undefined Behavior")) {
        return Concurrent::Broken(format!("under a Miri schedule: {}", ub.trim()));
    }
    if let Some(l) = stderr.lines().find(|l| l.contains("deadlock")) {
        return Concurrent::Broken(format!("under a Miri schedule: {}", l.trim()));
    }
    match status {
        Some(Some(s)) if s.success() => Concurrent::Held,
        Some(None) => Concurrent::Late,
        _ => Concurrent::Error(stderr.lines().filter(|l| l.contains("error")).take(3).collect::<Vec<_>>().join("; ")),
    }
}

fn kill_late(c: Concurrent, what: &str) -> Result<Option<String>, i32> {
    match c {
        Concurrent::Held | Concurrent::Late => Ok(None),
        Concurrent::Broken(why) => Ok(Some(why)),
        Concurrent::Error(e) => {
            eprintln!("C25: Miri stopped ({what}): {e}");
            Err(2)
        }
    }
}

/// After the worker has held: adds to its evidence.
pub fn concurrent(run: &Run) -> i32 {
    let (files, seeds, per) = if run.thorough { (48, 64, 40) } else { (6, 8, 24) };
    let mut runner = engine::runner_for(run, "schedules", 0, 1);
    let strategy = gen::concurrent_case();
    let mut cases_run = 0u64;
    let mut late = 0u64;
    let mut samples = Vec::new();
    let mut bad: Option<Failure> = None;
    let systems = Sys::all();
    for k in 0..files {
        if !run.thorough && engine::elapsed() > 300.0 {
            late += (files - k) as u64;
            break;
        }
        // Every system is first used by several threads at once.
        let mut cases = Vec::new();
        for i in 0..per {
            let mut case = strategy.new_tree(&mut runner).expect("no filters").current();
            if let Case::Calls { calls, .. } = &mut case {
                let sys = systems[(k * 31 + i * 7 + usize::from(k % 2 == 1) * i) % systems.len()];
                for c in calls.iter_mut() {
                    c.0 = sys;
                    c.2 .0 %= crate::model::cap(sys, 20).min(c.1.max()).saturating_add(1).max(1);
                }
            }
            cases.push(case);
        }
        samples.push(cases[0].clone());
        let path = write_cases(run, &format!("schedules-{k}"), &cases);
        let s = Schedules { first: run.seed.wrapping_mul(1000) % 1_000_000 + 100 * k as u64, count: seeds };
        let r = run_schedules(&path, &s, if run.thorough { 1800 } else { 100 });
        let _ = std::fs::remove_file(&path);
        match r {
            Concurrent::Late => late += 1,
            _ => cases_run += cases.len() as u64 * seeds,
        }
        match kill_late(r, "schedules") {
            Err(code) => return code,
            Ok(None) => {}
            Ok(Some(why)) => {
                bad = Some(shrink_schedules(run, cases, why, &s));
                break;
            }
        }
    }
    let path = run.root.join("evidence/C25.json");
    if let Some(mut e) = std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) {
        e["coverage"]["miri_schedules"] = serde_json::json!({
            "programs": files, "seeds_each": seeds, "concurrent_cases_run": cases_run, "programs_cut_short": late,
            "samples": samples.iter().take(3).collect::<Vec<_>>(),
        });
        e["violations"] = serde_json::json!(u32::from(bad.is_some()));
        e["wall_s"] = serde_json::json!(e["wall_s"].as_f64().unwrap_or(0.0) + engine::elapsed());
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&e).unwrap() + "\n");
    }
    match bad {
        None => {
            println!("C25: held in {cases_run} concurrent cases under {seeds} Miri schedules each of {files} programs");
            0
        }
        Some(f) => {
            let path = engine::save_replay(run, &f.case, &f.why);
            supervise::report(run, &path, &format!("{:?}: {}", f.case, f.why));
            1
        }
    }
}

/// Finds one case that fails in a program of its own.
fn shrink_schedules(run: &Run, cases: Vec<Case>, why: String, s: &Schedules) -> Failure {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(90);
    let broken = |cases: &[Case]| -> Option<String> {
        let path = write_cases(run, "schedules-shrink", cases);
        let r = run_schedules(&path, &Schedules { first: s.first, count: 16 }, 40);
        let _ = std::fs::remove_file(&path);
        match r {
            Concurrent::Broken(why) => Some(why),
            _ => None,
        }
    };
    let mut best = cases;
    let mut why = why;
    while best.len() > 1 && std::time::Instant::now() < end {
        let (a, b) = best.split_at(best.len() / 2);
        if let Some(w) = broken(a) {
            (best, why) = (a.to_vec(), w);
        } else if let Some(w) = broken(b) {
            (best, why) = (b.to_vec(), w);
        } else {
            break;
        }
    }
    // Several cases that fail only together become one.
    let mut case = best[0].clone();
    for more in &best[1..] {
        if let (Case::Calls { calls, .. }, Case::Calls { calls: m, .. }) = (&mut case, more) {
            calls.extend(m.iter().copied());
        }
    }
    'smaller: while std::time::Instant::now() < end {
        for cand in case.smaller().into_iter().take(6) {
            if !matches!(cand, Case::Calls { threads, .. } if threads > 1) {
                continue;
            }
            if let Some(w) = broken(std::slice::from_ref(&cand)) {
                (case, why) = (cand, w);
                continue 'smaller;
            }
        }
        break;
    }
    Failure { case, why }
}

/// A saved concurrent case: natively first (by the caller), then here.
pub fn replay_schedules(r: &Replay) -> i32 {
    let run = Run { prop: "C25".into(), seed: 1, thorough: false, root: "".into(), part: 1 };
    let path = write_cases(&run, "replay", std::slice::from_ref(&r.case));
    let got = run_schedules(&path, &Schedules { first: 0, count: 256 }, 600);
    let _ = std::fs::remove_file(&path);
    match kill_late(got, "replay") {
        Ok(None) => {
            println!("holds on this case");
            0
        }
        Ok(Some(why)) => {
            println!("FAILS {why}");
            1
        }
        Err(code) => code,
    }
}
