//! Harness around the whole macro (C14): the same input expanded again and again.
#![allow(dead_code)]

use crate::hs::{self, check, conc, cover, observe, panic_mode, Shape, MAXNT};
use crate::ht::*;

extern "C" {
    /// The surroundings of the process from here on: keys of hash maps, clock, process number, environment.
    fn sym_world(n: u32);
}
fn world(n: u32) {
    unsafe { sym_world(n) }
}

const TERMS: [&str; 12] = ["\"a\"", "\"b\"", "\"c\"", "\"d\"", "\"e\"", "\"f\"", "\"g\"", "\"h\"", "\"i\"", "\"j\"", "\"k\"", "\"l\""];
const VARS: [&str; 12] = ["Aa", "Bb", "Cc", "Dd", "Ee", "Ff", "Gg", "Hh", "Ii", "Jj", "Kk", "Ll"];
const NTS: [&str; 16] = ["Expr", "Expr1", "Expr11", "Term", "Term1", "Expr_1", "Expr2", "Term_", "Expr0", "Opt", "_Expr", "Args", "Num", "Key", "Val", "Pair"];
const TYS: [&str; 4] = ["u32", "( )", "String", "Vec < u8 >"];
const ACTS: [&str; 4] = ["1", "{ f ( ) }", "x", "a + b"];

pub fn write(g: &hs::Gr, s: &Shape) -> Ts {
    let mut t = text("enum Token {");
    let mut e = vec![];
    for i in 0..s.nt {
        e.extend(text(TERMS[i]));
        arrow(&mut e);
        e.extend(text("Token :: "));
        e.push(id(VARS[i]));
        e.push(p(','));
    }
    t = text("enum Token");
    t.push(brace(e));
    let mut q = 0;
    for a in 0..s.nnt {
        // (entries are productions of their own)
        if s.pubs >> a & 1 == 1 {
            t.push(id("pub"));
        }
        t.push(id(NTS[a]));
        t.push(p(':'));
        t.extend(text(TYS[a % 4]));
        t.push(p('='));
        let mut b = vec![];
        let me = g.num[a] as usize;
        for k in 0..g.pn[me] as usize {
            let r = g.p0[me] as usize + k;
            for j in 0..g.len[r] as usize {
                let c = conc(g.raw[r][j]) as usize;
                let y = if c < s.nnt { id(NTS[c]) } else { text(TERMS[c - s.nnt]).remove(0) };
                if (q + j) % 3 == 0 {
                    b.push(p('<'));
                    if j % 2 == 1 {
                        b.push(id("mut"));
                    }
                    b.push(id(["x", "y", "z"][j % 3]));
                    b.push(p(':'));
                    b.push(y);
                    b.push(p('>'));
                } else {
                    b.push(y);
                }
            }
            arrow(&mut b);
            b.extend(text(ACTS[q % 4]));
            b.push(p(','));
            q += 1;
        }
        t.push(brace(b));
        t.push(p(';'));
    }
    t
}

/// the work of the generator ends
fn ends(t: &Ts) {
    panic_mode(1);
    let a = expand(t);
    cover(if rejected() { 72 } else { 71 });
    observe(a.len() as u64);
}

fn twice(t: &Ts) {
    // (a refused text is refused: nothing to compare)
    panic_mode(1);
    world(0);
    let a = expand(t);
    if rejected() {
        return;
    }
    panic_mode(0);
    cover(70);
    observe(a.len() as u64);
    let mut keep = vec![];
    for w in 1..3 {
        world(w);
        // other things in memory
        keep.push(vec![w as u8; 1000 * w as usize + 24]);
        let b = expand(t);
        check(!rejected(), 160);
        check(same(&a, &b), 161);
    }
    core::mem::forget(keep);
}

/// a grammar of the catalogue with some productions free, as b_lr_sk
#[no_mangle]
pub extern "C" fn c_twice(k: u32, holes: u32, ml: u32, lo: u32) {
    let b = &crate::bases::BASES[k as usize];
    let mut np = [0u8; MAXNT];
    np[..b.nnt].copy_from_slice(b.np);
    let s = Shape { nnt: b.nnt, np, ml: ml as usize, lo: lo as usize, nt: b.nt, pubs: b.pubs, sorted: false, entry_first: false, base: Some(b), holes: holes as u64 };
    let g = hs::make(&s);
    let t = write(&g, &s);
    twice(&t);
}

/// a small grammar: nnt non-terminals, productions as digits, all free
#[no_mangle]
pub extern "C" fn c_twice_free(nnt: u32, npd: u32, ml: u32, lo: u32, nt: u32, pubs: u32) {
    let mut np = [0u8; MAXNT];
    let mut d = npd;
    for i in 0..nnt as usize {
        np[nnt as usize - 1 - i] = (d % 10) as u8;
        d /= 10;
    }
    let s = Shape { nnt: nnt as usize, np, ml: ml as usize, lo: lo as usize, nt: nt as usize, pubs, sorted: false, entry_first: false, base: None, holes: 0 };
    let g = hs::make(&s);
    let t = write(&g, &s);
    twice(&t);
}

/// a fixed text
#[no_mangle]
pub extern "C" fn c_twice_text(k: u32) {
    twice(&text(TEXTS[k as usize]));
}

/// a grammar of the catalogue with some productions free, as b_lr_sk
#[no_mangle]
pub extern "C" fn c_ends(k: u32, holes: u32, ml: u32, lo: u32) {
    let b = &crate::bases::BASES[k as usize];
    let mut np = [0u8; MAXNT];
    np[..b.nnt].copy_from_slice(b.np);
    let s = Shape { nnt: b.nnt, np, ml: ml as usize, lo: lo as usize, nt: b.nt, pubs: b.pubs, sorted: false, entry_first: false, base: Some(b), holes: holes as u64 };
    let g = hs::make(&s);
    let t = write(&g, &s);
    ends(&t);
}

/// a small grammar: nnt non-terminals, productions as digits, all free
#[no_mangle]
pub extern "C" fn c_ends_free(nnt: u32, npd: u32, ml: u32, lo: u32, nt: u32, pubs: u32) {
    let mut np = [0u8; MAXNT];
    let mut d = npd;
    for i in 0..nnt as usize {
        np[nnt as usize - 1 - i] = (d % 10) as u8;
        d /= 10;
    }
    let s = Shape { nnt: nnt as usize, np, ml: ml as usize, lo: lo as usize, nt: nt as usize, pubs, sorted: false, entry_first: false, base: None, holes: 0 };
    let g = hs::make(&s);
    let t = write(&g, &s);
    ends(&t);
}

const TEXTS: [&str; 3] = [
    "enum Token < 'input > { \"n\" => Tok :: Num ( < u64 > ) , \"s\" => Tok :: Str ( < & 'input str > , _ , < u8 > ) , \"1\" => Tok :: Lit { a : 1 , b : < u8 > , .. } , \"p\" => ( < A > , B ) , \"_\" => _ , } pub Main : ( ) = \"n\" < x : \"s\" > < mut y : \"1\" > \"p\" => ( ) , pub Other : u64 = { < a : \"n\" > => a , \"_\" < x : Other > => x , } ;",
    "type State = u32 ; enum T { \"a\" => A , \"b\" => B , \"c\" => C , \"(\" => L , \")\" => R } pub S : u32 = { < l : S > \"a\" < r : M > => l + r , < m : M > => m , } ; M : u32 = { < l : M > \"b\" < r : P > => l * r , < p : P > => p , } ; P : u32 = { \"(\" < s : S > \")\" => s , \"c\" => 1 , } ;",
    "enum T { \"a\" => A , } pub S : u32 = { => 1 , < x : S > \"a\" => x , } ; pub R : u32 = { => 1 , < x : R > \"a\" => x , } ;",
];
