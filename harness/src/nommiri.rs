//! Executes the cases of a file; run under Miri. Prints "S i" before case i,
//! so that the parent knows where undefined behaviour stopped the process,
//! and "F i why" when its oracle fails (the parent only looks for invalid
//! UTF-8: wrong text is another property), and "E" at the end.
#![allow(dead_code, non_upper_case_globals)]
mod num;
mod strings;
mod systems;
mod wire;

use num::Num;
use wire::Line;

fn formatted<T: Num>(sys: systems::Sys, n: u128) -> Result<(), String> {
    let v = T::of(n);
    let r = systems::try_format(sys, v);
    let s = systems::to(sys, v);
    for t in r.iter().chain([&s]) {
        if std::str::from_utf8(t.as_bytes()).is_err() {
            return Err("invalid UTF-8".into());
        }
    }
    // Reading through every access path.
    let mut m = s;
    m.make_ascii_lowercase();
    if m.chars().count() > m.len() {
        return Err("more characters than bytes".into());
    }
    Ok(())
}

fn called<T: Num>(c: &wire::Call) -> Result<(), String> {
    use nominals::Error;
    let v = T::of(c.n);
    let r = systems::try_format(c.sys, v);
    let s = systems::to(c.sys, v);
    let same = match (&r, c.kind) {
        (Ok(t), 0) => t.as_bytes() == c.text.as_bytes(),
        (Err(Error::NoZeroSymbol), 1) => true,
        (Err(Error::OutOfBounds(x)), 2) => *x == v,
        _ => false,
    };
    if !same || s.as_bytes() != c.text.as_bytes() {
        return Err(format!(
            "one of the concurrent calls, {} of {:?}, gives {r:?} and {:?}; on its own {:?}",
            c.sys.name(), v, &*s, c.text
        ));
    }
    Ok(())
}

/// Every thread makes all the calls, each starting elsewhere.
fn at_once(calls: &[wire::Call], threads: u8) -> Result<(), String> {
    let barrier = std::sync::Barrier::new(threads as usize);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads as usize)
            .map(|t| {
                let barrier = &barrier;
                s.spawn(move || {
                    barrier.wait();
                    for k in 0..calls.len() {
                        let c = &calls[(t * 5 + k) % calls.len()];
                        with_ty!(c.ty, T => called::<T>(c))?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("panic in a thread".into()))).collect()
    })
}

/// "S i", without the cost of println! under Miri.
fn mark(i: usize) {
    extern "C" {
        fn write(fd: i32, buf: *const std::ffi::c_void, count: usize) -> isize;
    }
    let mut buf = [b'\n'; 16];
    let (mut at, mut n) = (15, i);
    loop {
        at -= 1;
        buf[at] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    buf[at - 1] = b' ';
    buf[at - 2] = b'S';
    // SAFETY: the buffer is live for the call. Everything else is printed
    // through the line-buffered stdout, which is empty between lines.
    unsafe { write(1, buf[at - 2..].as_ptr().cast(), 16 - (at - 2)) };
}

fn main() {
    let path = std::env::args().nth(1).expect("a case file");
    let from: usize = std::env::args().nth(2).map_or(0, |s| s.parse().unwrap());
    let mut cases = wire::read_file(&std::fs::read(path).unwrap());
    std::panic::set_hook(Box::new(|info| println!("P {}", info.to_string().replace('\n', " "))));
    for (i, bytes) in cases.iter_mut().enumerate().skip(from) {
        mark(i);
        let bytes = std::mem::take(bytes);
        let r = std::panic::catch_unwind(|| match Line::decode(bytes) {
            Line::Calls(calls, threads) => at_once(&calls, threads),
            Line::History(init, ops) => strings::history(&init, &ops).map(|_| ()),
            Line::Fmt(sys, ty, n) => with_ty!(ty, T => formatted::<T>(sys, n)),
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(why)) => {
                println!("F {i} {why}");
            }
            Err(_) => {
                println!("F {i} panic");
            }
        }
    }
    println!("E");
}
