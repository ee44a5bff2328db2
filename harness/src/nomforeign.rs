//! Evaluates the cases of a file, "PROPERTY JSON" per line; run under Miri for
//! targets other than the host. Prints "S i" before case i, "F i why" when its
//! oracle fails, and "E" at the end.
#![allow(dead_code, unused_imports, non_upper_case_globals)]
mod cases;
mod colls;
#[cfg(feature = "alloc")]
mod heap;
mod model;
mod num;
mod strings;
mod systems;
mod values;

/// The parts of the engine that the oracles use.
mod engine {
    pub struct Obs {
        pub nontrivial: bool,
        pub label: &'static str,
    }
    pub fn obs(nontrivial: bool, label: &'static str) -> Obs {
        Obs { nontrivial, label }
    }
    pub type Res = Result<Obs, String>;
    /// Nothing is counted here.
    pub fn allocations<R>(f: impl FnOnce() -> R) -> (R, u64) {
        (f(), 0)
    }
    pub fn kept(f: impl FnOnce()) -> isize {
        f();
        0
    }
}

fn main() {
    let path = std::env::args().nth(1).expect("a case file");
    let text = std::fs::read_to_string(path).unwrap();
    std::panic::set_hook(Box::new(|info| println!("P {}", info.to_string().replace('\n', " "))));
    for (i, line) in text.lines().enumerate() {
        println!("S {i}");
        let (prop, json) = line.split_once(' ').expect("a property and a case");
        let case: cases::Case = serde_json::from_str(json).expect("a case");
        match std::panic::catch_unwind(|| cases::check(prop, &case)) {
            Ok(Ok(o)) => {
                if o.nontrivial {
                    println!("N");
                }
            }
            Ok(Err(why)) => {
                println!("F {i} {}", why.replace('\n', " "));
                return;
            }
            Err(_) => {
                println!("F {i} panic");
                return;
            }
        }
    }
    println!("E");
}
