//! nomcheck: property-based checks of the nominals crate.
//!
//!   nomcheck check <ID> [--root DIR]   explore one property
//!   nomcheck replay <FILE>             evaluate one saved case
#![allow(non_upper_case_globals)]
mod bytes;
mod cases;
mod colls;
mod counting;
mod engine;
mod foreign;
mod fuzz;
mod gen;
#[cfg(feature = "alloc")]
mod heap;
mod miri;
mod model;
mod num;
mod props;
mod strings;
mod supervise;
mod systems;
mod values;
#[allow(dead_code)]
mod wire;

#[global_allocator]
static ALLOC: engine::Guarded = engine::Guarded;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var_os("NOMCHECK_ROOT")
        .map_or_else(|| std::path::PathBuf::from("."), std::path::PathBuf::from);
    let prop = || args.get(2).expect("an id or a file").clone();
    let run = |prop: String| engine::Run {
        prop,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        root: root.clone(),
        part: std::env::var("NOMCHECK_PART").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
    };
    let code = match args.get(1).map(String::as_str) {
        Some("check") => supervise::check(&run(prop())),
        Some("worker") => supervise::worker(&run(prop())),
        Some("warm") => miri::warm(&run("C23".into())).max(foreign::warm(&run("C27".into()))),
        Some("replay") => supervise::replay(&prop()),
        Some("fuzz") => fuzz::check(&run(prop()), &args[3]),
        Some("shrink") => fuzz::shrink(&run(String::new()), &prop()),
        Some("probe") => supervise::probe(&prop()),
        _ => {
            eprintln!("usage: nomcheck check ID | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
