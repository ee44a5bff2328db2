//! The coverage-guided part of a check: several libFuzzer processes (nomfuzz)
//! over the same oracles. What they find counts if it fails here too.
use crate::bytes;
use crate::cases::Case;
use crate::engine::{self, Replay, Run};
use crate::supervise::{fails_in_child, myself, report, wait_for};
use serde_json::{json, Value};
use std::fs;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::Instant;

/// Address space of one process.
const SPACE: u64 = 6 << 30;

fn start(run: &Run, bin: &str, dir: &Path, i: u64) -> std::io::Result<Child> {
    let (runs, secs) = if run.thorough { (200_000_000, 240) } else { (2_000_000, 10) };
    let log = fs::File::create(dir.join(format!("{i}.log")))?;
    let mut c = Command::new(bin);
    c.current_dir(dir)
        .env("NOMFUZZ_PROP", &run.prop)
        .env("NOMFUZZ_OUT", dir.join(i.to_string()))
        .arg(format!("-seed_inputs=@{}", dir.join("seeds.txt").display()))
        .arg(format!("-artifact_prefix={}/{i}-", dir.display()))
        .arg(format!("-seed={}", run.seed % 1_000_000 * 100 + i + 1))
        .arg(format!("-runs={runs}"))
        .arg(format!("-max_total_time={secs}"))
        // Some steer by how close comparisons come, too.
        .arg(format!("-use_value_profile={}", u8::from(i % 4 == 3)))
        .arg(format!("-max_len={}", [64, 160, 400][i as usize % 3]))
        .args(["-len_control=0", "-rss_limit_mb=3000", "-timeout=60", "-verbosity=1"])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(log)
        .process_group(0);
    // SAFETY: setrlimit is async-signal-safe.
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: SPACE, rlim_max: SPACE };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
    c.spawn()
}

/// What process `i` left behind that failed there.
fn left(run: &Run, dir: &Path, i: u64) -> Option<(Case, String)> {
    let bad = fs::read_to_string(dir.join(format!("{i}.bad"))).ok();
    if let Some(v) = bad.and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
        let case = serde_json::from_value(v["case"].clone()).ok()?;
        return Some((case, v["why"].as_str().unwrap_or("").to_string()));
    }
    let systems = bytes::systems_of(&run.prop);
    let mut names: Vec<PathBuf> = fs::read_dir(dir).ok()?.flatten().map(|e| e.path()).collect();
    names.sort();
    names.into_iter().find_map(|path| {
        let name = path.file_name()?.to_str()?.strip_prefix(&format!("{i}-"))?.to_string();
        let case = bytes::case(&run.prop, &systems, &fs::read(&path).ok()?)?;
        Some((case, name.split('-').next().unwrap_or("").to_string()))
    })
}

fn explore(run: &Run, bin: &str, dir: &Path) -> Result<(Value, Option<(Case, String)>), String> {
    let seeds = bytes::seeds(&run.prop, &bytes::systems_of(&run.prop));
    let mut list = Vec::new();
    for (i, s) in seeds.iter().enumerate() {
        let path = dir.join(format!("seed{i}"));
        fs::write(&path, s).map_err(|e| e.to_string())?;
        list.push(path.display().to_string());
    }
    fs::write(dir.join("seeds.txt"), list.join(",")).map_err(|e| e.to_string())?;
    let count = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 8) as u64;
    let mut children = Vec::new();
    for i in 0..count {
        children.push(start(run, bin, dir, i).map_err(|e| e.to_string())?);
    }
    let limit = if run.thorough { 600 } else { 150 };
    let ended: Vec<_> = children.iter_mut().map(|c| wait_for(c, limit)).collect();
    let mut sum = json!({"engine": "libFuzzer", "processes": count, "seed_inputs": seeds.len()});
    let mut whole = 0;
    let (mut covered, mut features) = (0, 0);
    let mut samples = Vec::new();
    let mut found = None;
    for i in 0..count {
        let stats = fs::read_to_string(dir.join(format!("{i}.stats"))).ok();
        if let Some(v) = stats.and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
            whole += 1;
            for k in ["evaluations", "nontrivial", "unread"] {
                sum[k] = json!(sum[k].as_u64().unwrap_or(0) + v[k].as_u64().unwrap_or(0));
            }
            for (k, n) in v["classes"].as_object().into_iter().flatten() {
                let c = &mut sum["classes"][k];
                *c = json!(c.as_u64().unwrap_or(0) + n.as_u64().unwrap_or(0));
            }
            samples.extend(v["samples"].as_array().and_then(|a| a.last().cloned()));
        }
        let log = fs::read_to_string(dir.join(format!("{i}.log"))).unwrap_or_default();
        let last = |key: &str| {
            log.rsplit(key).next().and_then(|t| t.split_whitespace().next()).and_then(|t| t.parse::<u64>().ok()).unwrap_or(0)
        };
        covered = covered.max(last("cov: "));
        features = features.max(last("ft: "));
        if found.is_none() {
            found = left(run, dir, i);
        }
        if found.is_none() && ended[i as usize].is_none_or(|s| !s.success()) {
            eprintln!("fuzzing process {i}: {:?}\n{}", ended[i as usize], log.lines().rev().take(3).collect::<Vec<_>>().join("\n"));
        }
    }
    samples.truncate(4);
    sum["processes_that_finished"] = json!(whole);
    sum["most_edges_covered"] = json!(covered);
    sum["most_features"] = json!(features);
    sum["samples"] = json!(samples);
    Ok((sum, found))
}

pub fn check(run: &Run, bin: &str) -> i32 {
    if bytes::kinds(&run.prop).is_empty() {
        return 0;
    }
    let started = Instant::now();
    engine::init(run);
    let dir = std::env::temp_dir().join(format!("nomfuzz-{}-{}", run.prop, std::process::id()));
    let result = fs::create_dir_all(&dir).map_err(|e| e.to_string()).and_then(|()| explore(run, bin, &dir));
    let _ = fs::remove_dir_all(&dir);
    let (sum, found) = match result {
        Ok(r) => r,
        Err(why) => (json!({"engine": "libFuzzer", "did_not_run": why}), None),
    };
    let confirmed = found.and_then(|(case, why)| {
        match fails_in_child(run, &case, engine::CASE_CPU_SECS, 0) {
            Some(why) => Some((case, why)),
            None => {
                eprintln!("{case:?} failed under libFuzzer ({why}) but holds here");
                None
            }
        }
    });
    engine::add_evidence(run, &sum, started.elapsed().as_secs_f64(), u32::from(confirmed.is_some()));
    let Some((case, why)) = confirmed else {
        println!("{}: held on {} cases of libFuzzer", run.prop, sum["evaluations"]);
        return 0;
    };
    let mut path = engine::save_replay(run, &case, &why);
    let (mut case, mut why) = (case, why);
    let child = myself().args(["shrink", path.to_str().unwrap()]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
    if let Ok(mut c) = child {
        let ok = wait_for(&mut c, 120).is_some_and(|s| s.success());
        let mut text = String::new();
        if let Some(mut o) = c.stdout.take() {
            use std::io::Read;
            let _ = o.read_to_string(&mut text);
        }
        let small = Path::new(text.trim());
        let r = fs::read_to_string(small).ok().and_then(|t| serde_json::from_str::<Replay>(&t).ok());
        if let (true, Some(r)) = (ok, r) {
            if small != path {
                let _ = fs::remove_file(&path);
            }
            (path, case, why) = (small.to_path_buf(), r.case, r.why);
        }
    }
    report(run, &path, &format!("{case:?}: {why} (found by libFuzzer)"));
    1
}

/// Shrinks a saved case that can be survived; prints where the result is.
pub fn shrink(run: &Run, file: &str) -> i32 {
    let Some(r) = fs::read_to_string(file).ok().and_then(|t| serde_json::from_str::<Replay>(&t).ok()) else {
        return 2;
    };
    let run = Run { prop: r.property.clone(), ..run.clone() };
    // A fatal candidate ends this process without a file.
    engine::init(&Run { root: "".into(), ..run.clone() });
    let small = engine::minimise(&run.prop, engine::Failure { case: r.case, why: r.why });
    println!("{}", engine::save_replay(&run, &small.case, &small.why).display());
    0
}
