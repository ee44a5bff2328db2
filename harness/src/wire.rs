//! The cases Miri executes, in a binary form that takes few steps to read:
//! anything more comfortable costs more there than the case itself.
use crate::num::{Ty, TYPES};
use crate::strings::{Init, Op};
use crate::systems::{Sys, Zh};

#[derive(Clone, Debug, PartialEq)]
pub enum Line {
    History(Init, Vec<Op>),
    Fmt(Sys, Ty, u128),
    /// Calls made by that many threads at once.
    Calls(Vec<Call>, u8),
}

/// A call and what it gives on its own.
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub sys: Sys,
    pub ty: Ty,
    pub n: u128,
    /// 0 text, 1 no zero symbol, 2 out of bounds
    pub kind: u8,
    /// What the infallible call gives.
    pub text: String,
}

#[derive(Default)]
struct Out(Vec<u8>);

impl Out {
    fn text(&mut self, s: &str) {
        self.0.extend((s.len() as u32).to_le_bytes());
        self.0.extend(s.as_bytes());
    }
    fn ch(&mut self, c: char) {
        self.0.extend(u32::from(c).to_le_bytes());
    }
    fn fmt(&mut self, s: Sys, t: Ty, n: u128) {
        let code = match s {
            Sys::B(i) => u16::from(i),
            Sys::Zh(z) => {
                1000 + u16::from(z.trad) + 2 * u16::from(z.formal) + 4 * u16::from(z.fin) + 8 * u16::from(z.scale)
            }
        };
        self.0.extend(code.to_le_bytes());
        self.0.push(TYPES.iter().position(|x| *x == t).unwrap() as u8);
        self.0.extend(n.to_le_bytes());
    }
    fn op(&mut self, op: &Op) {
        let tag = match op {
            Op::Push(_) => 0,
            Op::PushStr(_) => 1,
            Op::PushFront(_) => 2,
            Op::Upper => 3,
            Op::Lower => 4,
            Op::UpperPart(..) => 5,
            Op::Clone => 6,
            Op::CloneSwap => 7,
            Op::CloneFrom(_) => 8,
            Op::ThroughString => 9,
            Op::TryInto => 10,
            Op::ThroughStr => 11,
        };
        self.0.push(tag);
        match op {
            Op::Push(c) | Op::PushFront(c) => self.ch(*c),
            Op::PushStr(s) | Op::CloneFrom(s) => self.text(s),
            Op::UpperPart(a, b) => self.0.extend([*a, *b]),
            _ => {}
        }
    }
}

struct In {
    bytes: Vec<u8>,
    at: usize,
}

impl In {
    fn byte(&mut self) -> u8 {
        self.at += 1;
        self.bytes[self.at - 1]
    }
    fn take<const N: usize>(&mut self) -> [u8; N] {
        let a: [u8; N] = self.bytes[self.at..self.at + N].try_into().unwrap();
        self.at += N;
        a
    }
    fn text(&mut self) -> String {
        let n = u32::from_le_bytes(self.take()) as usize;
        let s = self.bytes[self.at..self.at + n].to_vec();
        self.at += n;
        // SAFETY: written by Out::text from a str.
        unsafe { String::from_utf8_unchecked(s) }
    }
    fn ch(&mut self) -> char {
        char::from_u32(u32::from_le_bytes(self.take())).unwrap()
    }
    fn fmt(&mut self) -> (Sys, Ty, u128) {
        let code = u16::from_le_bytes(self.take());
        let sys = if code < 1000 {
            Sys::B(code as u8)
        } else {
            let k = code - 1000;
            Sys::Zh(Zh { trad: k & 1 == 1, formal: k & 2 == 2, fin: k & 4 == 4, scale: (k / 8) as u8 })
        };
        let ty = TYPES[self.byte() as usize];
        (sys, ty, u128::from_le_bytes(self.take()))
    }
    fn op(&mut self) -> Op {
        match self.byte() {
            0 => Op::Push(self.ch()),
            1 => Op::PushStr(self.text()),
            2 => Op::PushFront(self.ch()),
            3 => Op::Upper,
            4 => Op::Lower,
            5 => Op::UpperPart(self.byte(), self.byte()),
            6 => Op::Clone,
            7 => Op::CloneSwap,
            8 => Op::CloneFrom(self.text()),
            9 => Op::ThroughString,
            10 => Op::TryInto,
            11 => Op::ThroughStr,
            other => panic!("bad op {other}"),
        }
    }
}

impl Line {
    pub fn encode(&self) -> Vec<u8> {
        let mut out = Out::default();
        match self {
            Line::Calls(calls, threads) => {
                out.0.extend([9, *threads]);
                out.0.extend((calls.len() as u32).to_le_bytes());
                for c in calls {
                    out.fmt(c.sys, c.ty, c.n);
                    out.0.push(c.kind);
                    out.text(&c.text);
                }
            }
            Line::Fmt(s, t, n) => {
                out.0.push(0);
                out.fmt(*s, *t, *n);
            }
            Line::History(init, ops) => {
                let tag = match init {
                    Init::New => 1,
                    Init::NewReverse => 2,
                    Init::Default => 3,
                    Init::Char(_) => 4,
                    Init::Str(_) => 5,
                    Init::Owned(_) => 6,
                    Init::Ref(_) => 7,
                    Init::Formatted(..) => 8,
                };
                out.0.push(tag);
                match init {
                    Init::Char(c) => out.ch(*c),
                    Init::Str(s) | Init::Owned(s) | Init::Ref(s) => out.text(s),
                    Init::Formatted(s, t, n) => out.fmt(*s, *t, *n),
                    _ => {}
                }
                out.0.extend((ops.len() as u32).to_le_bytes());
                for op in ops {
                    out.op(op);
                }
            }
        }
        out.0
    }

    pub fn decode(bytes: Vec<u8>) -> Line {
        let mut i = In { bytes, at: 0 };
        let init = match i.byte() {
            0 => {
                let (s, t, n) = i.fmt();
                return Line::Fmt(s, t, n);
            }
            1 => Init::New,
            2 => Init::NewReverse,
            3 => Init::Default,
            4 => Init::Char(i.ch()),
            5 => Init::Str(i.text()),
            6 => Init::Owned(i.text()),
            7 => Init::Ref(i.text()),
            8 => {
                let (s, t, n) = i.fmt();
                Init::Formatted(s, t, n)
            }
            9 => {
                let threads = i.byte();
                let n = u32::from_le_bytes(i.take()) as usize;
                let mut calls = Vec::with_capacity(n);
                while calls.len() < n {
                    let (sys, ty, n) = i.fmt();
                    calls.push(Call { sys, ty, n, kind: i.byte(), text: i.text() });
                }
                return Line::Calls(calls, threads);
            }
            other => panic!("bad init {other}"),
        };
        let n = u32::from_le_bytes(i.take()) as usize;
        let mut ops = Vec::with_capacity(n);
        while ops.len() < n {
            ops.push(i.op());
        }
        Line::History(init, ops)
    }
}

/// A file of cases, each with its length in front.
pub fn write_file(cases: &[Line]) -> Vec<u8> {
    let mut out = Vec::new();
    for c in cases {
        let b = c.encode();
        out.extend((b.len() as u32).to_le_bytes());
        out.extend(b);
    }
    out
}

/// The bytes of each case, in allocations of their own: Miri tracks borrows
/// per allocation.
pub fn read_file(bytes: &[u8]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut at = 0;
    while at < bytes.len() {
        let n = u32::from_le_bytes(bytes[at..at + 4].try_into().unwrap()) as usize;
        at += 4;
        out.push(bytes[at..at + n].to_vec());
        at += n;
    }
    out
}
