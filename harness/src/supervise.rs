//! The parent side of a check: runs the exploration in a child process, so
//! that a case that crashes, hangs or eats memory can be reported and shrunk.
use crate::cases::{Case, Wide};
use crate::colls::{Coll, Fall, FixColl, FixLeaf, Wrap};
use crate::engine::{self, Failure, Outcome, Replay, Run, Stats};
use crate::num::Ty;
use crate::props;
use crate::systems::Sys;
use std::io::{BufRead, BufReader};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn myself() -> Command {
    Command::new(std::env::current_exe().expect("own path"))
}

/// Waits, killing the child after `secs`. None if it was killed.
pub fn wait_for(child: &mut Child, secs: u64) -> Option<std::process::ExitStatus> {
    let end = Instant::now() + Duration::from_secs(secs);
    loop {
        if let Ok(Some(s)) = child.try_wait() {
            return Some(s);
        }
        if Instant::now() > end {
            // SAFETY: signals the child's own group, if it leads one.
            unsafe { libc::kill(-(child.id() as libc::pid_t), libc::SIGKILL) };
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn report(run: &Run, path: &Path, why: &str) {
    println!("{why}");
    println!("VIOLATION property={} replay={}", run.prop, path.display());
}

// ------------------------------------------------------------------ worker

pub fn worker(run: &Run) -> i32 {
    engine::init(run);
    let mut out = Outcome { stats: Stats::default(), failure: None, phases: Vec::new() };
    props::explore(run, &mut out);
    finish(run, out, serde_json::json!({}))
}

/// Evidence, and the violation if there is one.
pub fn finish(run: &Run, mut out: Outcome, extra: serde_json::Value) -> i32 {
    let plan = props::plan(&run.prop);
    let failure = out.failure.take().map(|f| engine::minimise(&run.prop, f));
    engine::write_evidence(run, &out, plan.rule, plan.assumptions, extra, u32::from(failure.is_some()));
    match failure {
        None => {
            println!(
                "{}: held on {} cases, {} of them non-trivial{}",
                run.prop, out.stats.evaluations, out.stats.nontrivial,
                if engine::RELEASE { " (without debug assertions)" } else { "" }
            );
            0
        }
        Some(f) => {
            let path = engine::save_replay(run, &f.case, &f.why);
            report(run, &path, &format!("{:?}: {}", f.case, f.why));
            1
        }
    }
}

// ------------------------------------------------------------------- check

pub fn check(run: &Run) -> i32 {
    if run.prop == "C23" {
        return crate::miri::check(run);
    }
    if run.prop == "C27" {
        return crate::foreign::check(run);
    }
    if (run.prop == "C24") == cfg!(feature = "alloc") {
        eprintln!("{} needs the other build", run.prop);
        return 2;
    }
    let started = Instant::now();
    let mut child = match myself().args(["worker", &run.prop]).stdout(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start the worker: {e}");
            return 2;
        }
    };
    let pipe = BufReader::new(child.stdout.take().unwrap());
    let reader = std::thread::spawn(move || {
        let mut fatal = None;
        for line in pipe.lines().map_while(Result::ok) {
            if let Some(rest) = line.strip_prefix("FATAL ") {
                fatal = rest.split_once(' ').map(|(p, w)| (p.to_string(), w.to_string()));
            } else {
                println!("{line}");
            }
        }
        fatal
    });
    let limit = if run.thorough { 6 * 3600 } else { 800 };
    let status = wait_for(&mut child, limit);
    let fatal = reader.join().unwrap_or(None);
    let Some(status) = status else {
        eprintln!("{}: the exploration did not finish in {limit} s", run.prop);
        return 2;
    };
    if let Some((path, why)) = fatal {
        return fatal_case(run, &path, &why, started);
    }
    let code = match status.code() {
        Some(c) => c,
        None => {
            use std::os::unix::process::ExitStatusExt;
            let sig = status.signal().unwrap_or(0);
            if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGALRM].contains(&sig) {
                // The process died before it could write the case down; the
                // same run is the reproduction.
                let dir = run.root.join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!("{}-crash.json", run.prop));
                let text = serde_json::json!({
                    "property": run.prop, "why": format!("the run dies with signal {sig}"),
                    "seed": run.seed, "thorough": run.thorough, "part": run.part, "release": engine::RELEASE,
                });
                let _ = std::fs::write(&path, text.to_string() + "\n");
                crash_evidence(run, started);
                report(run, &path, &format!("the run died with signal {sig}"));
                return 1;
            }
            eprintln!("{}: worker killed by signal {sig}", run.prop);
            return 2;
        }
    };
    if code == 0 && run.prop == "C19" && !engine::RELEASE {
        return known_runaways(run);
    }
    if code == 0 && run.prop == "C25" && !engine::RELEASE {
        engine::init(run);
        return crate::miri::concurrent(run);
    }
    code
}

fn crash_evidence(run: &Run, started: Instant) {
    let plan = props::plan(&run.prop);
    engine::init(run);
    let out = Outcome { stats: Stats::default(), failure: None, phases: Vec::new() };
    engine::write_evidence(
        run,
        &out,
        plan.rule,
        plan.assumptions,
        serde_json::json!({"note": "the exploration ended with a case that cannot be survived; its counts are lost",
            "samples": [], "wall_until_crash_s": started.elapsed().as_secs_f64()}),
        1,
    );
}

fn load(path: &Path) -> Option<Replay> {
    serde_json::from_str(&std::fs::read_to_string(path).ok()?).ok()
}

/// Evaluates a case in a child; Some(why) if it fails there.
pub fn fails_in_child(run: &Run, case: &Case, cpu: u64, id: usize) -> Option<String> {
    let path = run.root.join("replays").join(format!(".try-{}-{}-{id}.json", run.prop, std::process::id()));
    let r = Replay { property: run.prop.clone(), why: String::new(), case: case.clone(), noalloc: !cfg!(feature = "alloc"), release: engine::RELEASE, foreign: None };
    std::fs::write(&path, serde_json::to_string(&r).unwrap()).ok()?;
    let out = myself()
        .args(["replay", path.to_str().unwrap()])
        .env("NOMCHECK_CASE_CPU", cpu.to_string())
        .env("NOMCHECK_QUIET", "1")
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let r = out.ok().and_then(|mut c| {
        let status = wait_for(&mut c, cpu * 4 + 20);
        let mut text = String::new();
        if let Some(mut o) = c.stdout.take() {
            use std::io::Read;
            let _ = o.read_to_string(&mut text);
        }
        match status {
            Some(s) if s.success() || s.code() == Some(2) => None,
            Some(_) => Some(text.lines().find_map(|l| l.strip_prefix("FATAL - ").or(l.strip_prefix("FAILS "))).unwrap_or("crash").to_string()),
            None => Some("hang".into()),
        }
    });
    let _ = std::fs::remove_file(&path);
    r
}

fn fatal_case(run: &Run, path: &str, why: &str, started: Instant) -> i32 {
    let original = Path::new(path);
    crash_evidence(run, started);
    let Some(first) = load(original) else {
        report(run, original, why);
        return 1;
    };
    // Greedy shrinking, a batch of candidates at a time.
    let end = Instant::now() + Duration::from_secs(90);
    let mut best = Failure { case: first.case.clone(), why: why.to_string() };
    let mut tries = 300usize;
    'shrink: loop {
        let candidates = best.case.smaller();
        for batch in candidates.chunks(8) {
            if tries < batch.len() || Instant::now() > end {
                break 'shrink;
            }
            tries -= batch.len();
            let results: Vec<Option<String>> = std::thread::scope(|s| {
                let hs: Vec<_> = batch
                    .iter()
                    .enumerate()
                    .map(|(i, c)| s.spawn(move || fails_in_child(run, c, 4, i)))
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
            });
            if let Some((i, why)) = results.into_iter().enumerate().find_map(|(i, r)| r.map(|w| (i, w))) {
                best = Failure { case: batch[i].clone(), why };
                continue 'shrink;
            }
        }
        break;
    }
    let mut path = original.to_path_buf();
    if best.case != first.case && fails_in_child(run, &best.case, engine::CASE_CPU_SECS, 99).is_some() {
        path = engine::save_replay(run, &best.case, &best.why);
        if path != original {
            let _ = std::fs::remove_file(original);
        }
    } else {
        best = Failure { case: first.case, why: why.to_string() };
    }
    report(run, &path, &format!("{:?}: {}", best.case, best.why));
    1
}

// ------------------------------------------------------------------ replay

pub fn replay(file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let Ok(r) = serde_json::from_str::<Replay>(&text) else {
        // A whole run.
        let Ok(v) = serde_json::from_str::<serde_json::Value>(&text) else {
            eprintln!("{file} is no replay file");
            return 2;
        };
        return worker(&Run {
            prop: v["property"].as_str().unwrap_or("").to_string(),
            seed: v["seed"].as_u64().unwrap_or(1),
            thorough: v["thorough"].as_bool().unwrap_or(false),
            root: std::env::temp_dir(),
            part: v["part"].as_u64().unwrap_or(1),
        });
    };
    if r.property == "C23" {
        return crate::miri::replay(&r);
    }
    if r.property == "C27" {
        return crate::foreign::replay(&r);
    }
    if (r.property == "C24") == cfg!(feature = "alloc") {
        eprintln!("{} needs the other build", r.property);
        return 2;
    }
    engine::init(&Run { prop: r.property.clone(), seed: 1, thorough: false, root: "".into(), part: 1 });
    match engine::on_worker(|| engine::eval(&r.property, &r.case)) {
        Ok(_) if r.property == "C25" && !r.release && matches!(r.case, Case::Calls { threads, .. } if threads > 1) => {
            crate::miri::replay_schedules(&r)
        }
        Ok(_) => {
            println!("holds on this case");
            0
        }
        Err(why) => {
            println!("FAILS {why}");
            1
        }
    }
}

// ---------------------------------------------------------- known findings

/// C19: numerals that need one symbol per fixed amount, asked for a nominal
/// of 64 bits. Each is named so that known_findings.txt can list it.
fn runaways() -> Vec<(String, Case)> {
    let n = u128::from(u64::MAX);
    let mut v: Vec<(String, Case)> = Sys::named(&[
        "RomanUpper", "RomanLower", "ArmenianUpper", "ArmenianLower", "Georgian", "JapaneseFormal",
        "JapaneseInformal", "HangeulFormal", "HanjaInformal", "HanjaFormal", "Hebrew",
    ])
    .into_iter()
    .map(|sys| (sys.name(), Case::Fmt { sys, ty: Ty::u64, n }))
    .collect();
    v.push(("AdditiveSet[(I,1)]".into(), Case::Additive { set: vec![(0, Wide(1))], ty: Ty::u64, n }));
    let coll = Coll::User { len: 1, zero: false, zero_based: true, base: 0 };
    v.push(("one-symbol-alphabet".into(), Case::Coll { coll, ty: Ty::u64, n, at: 0 }));
    let mut v: Vec<_> = v.into_iter().map(|(name, c)| (format!("{name}@u64::MAX"), c)).collect();
    let leaf = FixLeaf::User { len: 2, zero: false, zero_based: true, base: 0, fall: Fall::Itself };
    let coll = FixColl { leaf, wrap: Wrap::Bare };
    v.push(("fixed-falling-back-to-itself@7".into(), Case::Fixed { coll, ty: Ty::u32, n: 7 }));
    v
}

fn known_runaways(run: &Run) -> i32 {
    let listed = std::fs::read_to_string(run.root.join("known_findings.txt")).unwrap_or_default();
    let listed: Vec<&str> = listed
        .lines()
        .filter_map(|l| l.strip_prefix("known: property=C19 input="))
        .filter_map(|l| l.split_whitespace().next())
        .collect();
    let all = runaways();
    let results: Vec<Option<i32>> = std::thread::scope(|s| {
        let hs: Vec<_> = all
            .iter()
            .map(|(name, _)| {
                s.spawn(move || {
                    let mut c = myself()
                        .args(["probe", name])
                        .stdout(Stdio::null())
                        .stderr(Stdio::null())
                        .env("NOMCHECK_CASE_CPU", "6")
                        .spawn()
                        .ok()?;
                    wait_for(&mut c, 120).map_or(Some(3), |s| s.code())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
    });
    let mut code = 0;
    for ((name, case), r) in all.iter().zip(results) {
        match r {
            Some(0) => {}
            Some(3) if listed.contains(&name.as_str()) => {
                let why = if name.ends_with("u64::MAX") {
                    "its numeral needs more symbols than memory can hold"
                } else {
                    "the fallback is asked for over and over"
                };
                println!("KNOWN-FINDING: property=C19 {name} never returns: {why}");
            }
            Some(3 | 1) => {
                let why = if r == Some(3) { "never returns" } else { "panics" };
                let path = engine::save_replay(run, case, why);
                report(run, &path, &format!("{name} {why}"));
                code = 1;
            }
            other => {
                eprintln!("probe {name} ended with {other:?}");
                code = code.max(2);
            }
        }
    }
    code
}

/// Runs one runaway in this process: exit 0 it returned, 1 panic, 3 runaway.
pub fn probe(name: &str) -> i32 {
    let Some((_, case)) = runaways().into_iter().find(|r| r.0 == name) else {
        return 2;
    };
    engine::init(&Run { prop: "C19".into(), seed: 1, thorough: false, root: "".into(), part: 1 });
    match engine::on_worker(|| engine::eval("C19-giant", &case)) {
        Ok(_) => 0,
        Err(_) => 1,
    }
}
