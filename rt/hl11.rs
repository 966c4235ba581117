//! Runtime for token patterns: what each symbolic token is classified as, and the parts selected from it.
#![allow(static_mut_refs)]
use crate::hl::*;

pub const MAXT: usize = 8;
pub const MAXP: usize = 6;

#[derive(Clone, Copy, PartialEq)]
pub struct Class {
    pub term: u32,
    pub n: usize,
    pub parts: [u64; MAXP],
}

pub fn class(term: u32, parts: &[u64]) -> Class {
    let mut c = Class { term, n: parts.len(), parts: [0; MAXP] };
    for (i, p) in parts.iter().enumerate() {
        c.parts[i] = *p;
    }
    c
}

/// A component as a number.
pub trait Num {
    fn num(&self) -> u64;
}
macro_rules! ints {
    ($($t:ty),*) => { $(impl Num for $t { fn num(&self) -> u64 { *self as u64 } })* };
}
ints!(u8, u16, u32, u64, i32, bool, char, usize);
impl<'a> Num for &'a str {
    fn num(&self) -> u64 {
        let mut v = 1;
        for b in self.as_bytes() {
            v = v * 256 + *b as u64;
        }
        v
    }
}
impl Num for String {
    fn num(&self) -> u64 {
        self.as_str().num()
    }
}
impl<T: Num> Num for Box<T> {
    fn num(&self) -> u64 {
        (**self).num() + 1000
    }
}
impl<T: Num> Num for Option<T> {
    fn num(&self) -> u64 {
        match self {
            None => 5000,
            Some(x) => 6000 + x.num(),
        }
    }
}
impl<A: Num, B: Num> Num for (A, B) {
    fn num(&self) -> u64 {
        self.0.num() * 65536 + self.1.num() + (1 << 40)
    }
}
impl Num for Vec<u8> {
    fn num(&self) -> u64 {
        let mut v = 2;
        for b in self {
            v = v * 256 + *b as u64;
        }
        v
    }
}

struct Log {
    n: u32,
    ntok: usize,
    toks: [Class; MAXT],
    ended: bool,
    nlog: usize,
    log: [Class; MAXT],
}
const C0: Class = Class { term: 0, n: 0, parts: [0; MAXP] };
static mut L: Log = Log { n: 0, ntok: 0, toks: [C0; MAXT], ended: false, nlog: 0, log: [C0; MAXT] };

/// A semantic action for terminal `term` with the parts bound.
#[inline(never)]
pub fn put(term: u32, parts: &[u64]) {
    let l = unsafe { &mut L };
    if l.nlog < MAXT {
        l.log[l.nlog] = class(term, parts);
    }
    l.nlog += 1;
}

/// Bytes for the fields of the token being made.
pub fn byte(k: u32) -> u8 {
    any_u8(1000 + unsafe { L.ntok as u32 } * 20 + k)
}
pub fn choose(n: u32, k: u32) -> u32 {
    any_below(n, 1000 + unsafe { L.ntok as u32 } * 20 + k)
}

pub struct It<T> {
    pub make: fn() -> (T, Class),
}

impl<T> Iterator for It<T> {
    type Item = Result<T, u8>;
    #[inline(never)]
    fn next(&mut self) -> Option<Result<T, u8>> {
        let l = unsafe { &mut L };
        if l.ended || l.ntok as u32 >= l.n || any_below(2, l.ntok as u32) == 0 {
            l.ended = true;
            return None;
        }
        let (t, c) = (self.make)();
        l.toks[l.ntok] = c;
        l.ntok += 1;
        Some(Ok(t))
    }
}

pub enum Out {
    Ok,
    Lex,
    Syn(&'static str, &'static str),
}

fn same(a: &str, b: &str) -> bool {
    let a = a.as_bytes();
    let b = b.as_bytes();
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return false;
        }
    }
    true
}

/// terms: texts; used: the terminals the list of tokens may consist of, in declaration order
/// last: whether the list has to end with (and only with) terminal 0
#[inline(never)]
pub fn run(n: u32, terms: &[&str], used: &[bool], f: fn() -> Out) {
    let l = unsafe { &mut L };
    l.n = n;
    panic_mode(0);
    limit(400_000);
    let r = f();
    limit(0);
    // how far the input is a list of usable tokens
    let mut good = 0;
    while good < l.ntok && used[l.toks[good].term as usize] {
        good += 1;
    }
    observe(l.ntok as u64 * 100 + l.nlog as u64);
    for i in 0..l.nlog {
        observe(l.log[i].term as u64);
        for j in 0..l.log[i].n {
            observe(l.log[i].parts[j]);
        }
    }
    let ok = matches!(r, Out::Ok);
    match r {
        Out::Ok => {
            cover(50);
            check(good == l.ntok && l.ended, 140);
        }
        Out::Lex => check(false, 147),
        Out::Syn(found, expected) => {
            check(good < l.ntok, 141);
            check(good + 1 == l.ntok, 144);
            cover(51);
            check(same(found, terms[l.toks[good].term as usize]), 145);
            let mut e = expected;
            let mut first = true;
            for i in 0..terms.len() {
                if used[i] {
                    if !first {
                        check(e.len() >= 2 && same(&e[..2], ", "), 146);
                        e = &e[2..];
                    }
                    first = false;
                    check(e.len() >= terms[i].len() && same(&e[..terms[i].len()], terms[i]), 146);
                    e = &e[terms[i].len()..];
                }
            }
            check(e.is_empty(), 146);
        }
    }
    // before an error the last usable token may not have been acted on yet
    check(l.nlog == good || !ok && l.nlog + 1 == good, 142);
    for i in 0..l.nlog {
        check(l.log[i].term == l.toks[i].term, 142);
        check(l.log[i].n == l.toks[i].n, 143);
        for j in 0..l.log[i].n {
            cover(52);
            check(l.log[i].parts[j] == l.toks[i].parts[j], 143);
        }
    }
}
