//! What may touch the heap.
use crate::engine::allocations;
use crate::strings::{Op, Outcome, LIMIT};
use nominals::NominalString;
use std::fmt::Write;

/// C26: while the text fits the inline buffer, building, copying, comparing
/// and printing it needs no heap memory.
pub fn without_heap(seed: &str, ops: &[Op]) -> Result<Outcome, String> {
    struct Fixed([u8; 128], usize);
    impl Write for Fixed {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            let end = self.1 + s.len();
            self.0.get_mut(self.1..end).ok_or(std::fmt::Error)?.copy_from_slice(s.as_bytes());
            self.1 = end;
            Ok(())
        }
    }

    let mut t = String::from(seed);
    let mut all: Vec<(&str, NominalString)> = Vec::new();
    let mut make = |name: &'static str, f: &dyn Fn() -> Result<NominalString, nominals::OutOfMemoryError>| {
        let (s, calls) = allocations(f);
        let s = s.map_err(|_| format!("{name}: push failed"))?;
        if calls > 0 && seed.len() <= LIMIT {
            return Err(format!("{name}: {calls} heap allocations for {} bytes", seed.len()));
        }
        all.push((name, s));
        Ok(())
    };
    make("from &str", &|| Ok(NominalString::from(seed)))?;
    make("from &String", &|| Ok(NominalString::from(&t)))?;
    make("new", &|| {
        let mut s = NominalString::new();
        s.try_push_str(seed).map(|()| s)
    })?;
    make("new_reverse", &|| {
        let mut s = NominalString::new_reverse();
        s.try_push_str(seed).map(|()| s)
    })?;
    make("new_reverse, by characters from the front", &|| {
        let mut s = NominalString::new_reverse();
        for c in seed.chars().rev() {
            s.try_push_front(c)?;
        }
        Ok(s)
    })?;
    make("default, by characters", &|| {
        let mut s = NominalString::default();
        for c in seed.chars() {
            s.try_push(c)?;
        }
        Ok(s)
    })?;
    if let Some(c) = t.chars().next().filter(|c| c.len_utf8() == t.len()) {
        make("from char", &|| Ok(NominalString::from(c)))?;
    }
    let mut max_len = t.len();
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Push(c) => t.push(*c),
            Op::PushStr(x) => t.push_str(x),
            Op::PushFront(c) => t.insert(0, *c),
            _ => {}
        }
        max_len = max_len.max(t.len());
        for (name, s) in &mut all {
            let (r, calls) = allocations(|| match op {
                Op::Push(c) => s.try_push(*c),
                Op::PushStr(x) => s.try_push_str(x),
                Op::PushFront(c) => s.try_push_front(*c),
                Op::CloneSwap => {
                    *s = s.clone();
                    Ok(())
                }
                _ => Ok(()),
            });
            r.map_err(|_| format!("{name}: step {i} ({op:?}) failed"))?;
            if t.len() > LIMIT {
                continue;
            }
            if calls > 0 || !s.is_inline() {
                return Err(format!(
                    "{name}: step {i} ({op:?}) makes {} bytes with {calls} heap allocations, is_inline() {}",
                    t.len(), s.is_inline()
                ));
            }
        }
    }
    for (name, s) in &all {
        if t.len() <= LIMIT {
            let mut sink = Fixed([0; 128], 0);
            let ((fine, same, eq), calls) = allocations(|| {
                let fine = write!(sink, "{s}").is_ok();
                (fine, sink.0[..sink.1] == *t.as_bytes(), *s == t)
            });
            if calls > 0 || !fine || !same || !eq {
                return Err(format!(
                    "{name}: printing and comparing takes {calls} heap allocations, prints {:?}, equal {eq}; the text is {t:?}",
                    String::from_utf8_lossy(&sink.0[..sink.1])
                ));
            }
        } else if s.is_inline() {
            return Err(format!("{name}: {} bytes, is_inline()", t.len()));
        }
    }
    Ok(Outcome { max_len, mixed_width: !t.is_ascii(), spilled: t.len() > LIMIT })
}
