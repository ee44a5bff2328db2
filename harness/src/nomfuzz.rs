//! The coverage-guided engine: a libFuzzer target whose bytes are read as a
//! case of the property NOMFUZZ_PROP names. A case whose oracle fails is
//! written to NOMFUZZ_OUT.bad, the counts to NOMFUZZ_OUT.stats.
#![no_main]
#![allow(dead_code, unused_imports, non_upper_case_globals)]
mod bytes;
mod cases;
mod colls;
mod counting;
#[cfg(feature = "alloc")]
mod heap;
mod model;
mod num;
mod strings;
mod systems;
mod values;

/// The parts of the engine that the oracles use.
mod engine {
    pub struct Obs {
        pub nontrivial: bool,
        pub label: &'static str,
    }
    pub fn obs(nontrivial: bool, label: &'static str) -> Obs {
        Obs { nontrivial, label }
    }
    pub type Res = Result<Obs, String>;
    #[cfg(feature = "alloc")]
    pub use crate::counting::{allocations, kept};
}

#[global_allocator]
static ALLOC: counting::Counting = counting::Counting;

use std::collections::BTreeMap;
use std::sync::{Mutex, OnceLock};

extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
    fn _exit(code: i32) -> !;
}

struct Setup {
    prop: String,
    out: String,
    systems: Vec<systems::Sys>,
}
static SETUP: OnceLock<Setup> = OnceLock::new();

#[derive(Default)]
struct Count {
    evaluations: u64,
    nontrivial: u64,
    unread: u64,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<cases::Case>,
}
static COUNT: Mutex<Option<Count>> = Mutex::new(None);

extern "C" fn finish() {
    let Ok(mut c) = COUNT.lock() else { return };
    let Some(c) = c.take() else { return };
    let text = serde_json::json!({
        "evaluations": c.evaluations, "nontrivial": c.nontrivial, "unread": c.unread,
        "classes": c.classes, "samples": c.samples,
    });
    let _ = std::fs::write(format!("{}.stats", SETUP.get().unwrap().out), text.to_string());
}

fn setup() -> &'static Setup {
    SETUP.get_or_init(|| {
        let prop = std::env::var("NOMFUZZ_PROP").expect("NOMFUZZ_PROP");
        let out = std::env::var("NOMFUZZ_OUT").expect("NOMFUZZ_OUT");
        std::panic::set_hook(Box::new(|_| {}));
        *COUNT.lock().unwrap() = Some(Count::default());
        // SAFETY: registers a plain function.
        unsafe { atexit(finish) };
        let systems = bytes::systems_of(&prop);
        Setup { prop, out, systems }
    })
}

#[no_mangle]
pub extern "C" fn LLVMFuzzerTestOneInput(data: *const u8, len: usize) -> i32 {
    let s = setup();
    // SAFETY: libFuzzer hands over `len` readable bytes.
    let data = if len == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(data, len) } };
    let Some(case) = bytes::case(&s.prop, &s.systems, data) else {
        if let Some(c) = COUNT.lock().unwrap().as_mut() {
            c.unread += 1;
        }
        // Not worth keeping.
        return -1;
    };
    let result = std::panic::catch_unwind(|| cases::check(&s.prop, &case));
    match result {
        Ok(Ok(o)) => {
            if let Some(c) = COUNT.lock().unwrap().as_mut() {
                c.evaluations += 1;
                c.nontrivial += u64::from(o.nontrivial);
                *c.classes.entry(o.label).or_default() += 1;
                if o.nontrivial && c.evaluations.is_power_of_two() && c.evaluations > 1 << 12 {
                    c.samples.push(case);
                }
            }
            0
        }
        bad => {
            let why = match bad {
                Ok(Err(why)) => why,
                _ => "panic".to_string(),
            };
            let text = serde_json::json!({"case": case, "why": why});
            let _ = std::fs::write(format!("{}.bad", s.out), text.to_string());
            // SAFETY: ends the process, nothing else.
            unsafe { _exit(3) }
        }
    }
}
