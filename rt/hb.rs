//! Harness around the generator's own code: symbolic grammars.
//!
//! (grammars and symbolic values: hs.rs)
#![allow(dead_code)]

use crate::first::generate_first_table;
use crate::grammar::{BoundSymbol, Grammar, NonTerminalIdx, Symbol, TerminalIdx};
use crate::lr1::{build_lr1_table, generate_lr1_automaton};
use crate::lr_common::{LRAction, StateIdx};
pub use crate::hr::*;
pub use crate::hs::*;

#[inline(always)]
fn symbol(nnt: u32, code: u32) -> Symbol {
    if code < nnt {
        Symbol::NonTerminal(NonTerminalIdx::from_usize(code as usize))
    } else {
        Symbol::Terminal(TerminalIdx::from_usize((code - nnt) as usize))
    }
}

fn name(c: u8, k: usize) -> String {
    let mut s = String::with_capacity(2);
    s.push(c as char);
    s.push((b'a' + k as u8) as char);
    s
}

fn ty() -> syn::Type {
    syn::Type::Verbatim(Default::default())
}

/// The generator's own grammar. Actions: number of the production.
pub fn real(g: &Gr) -> Grammar<u32> {
    let mut r: Grammar<u32> = Grammar::new();
    for t in 0..g.nt {
        r.new_terminal(name(b't', t));
    }
    for n in 0..g.nnt {
        r.add_non_terminal(name(b'N', n), ty(), g.public[n]);
    }
    for p in 0..g.np {
        let mut v: Vec<BoundSymbol> = Vec::with_capacity(g.len[p] as usize);
        for j in 0..g.len[p] as usize {
            v.push(BoundSymbol { binder: None, symbol: symbol(g.nnt as u32, g.rhs[p][j]) });
        }
        r.add_production(NonTerminalIdx::from_usize(g.lhs[p] as usize), v, p as u32);
    }
    r
}

// ------------------------------------------------------------------ FIRST and emptiness (C07)

pub fn c07(s: &Shape) {
    let g = make(s);
    let r = real(&g);
    must_end(300_000_000);
    let t = generate_first_table(&r);
    must_end(0);
    let (f, e) = first_sets(&g);
    let mut any_e = false;
    let mut any_f = false;
    for n in 0..g.nnt {
        let x = t.get_first(NonTerminalIdx::from_usize(n));
        let mut m = 0u32;
        for k in x.terminals().iter() {
            m |= 1u32 << k.as_usize();
        }
        observe((m as u64) << 1 | x.has_empty() as u64);
        check(m & !f[n] == 0, 70);
        check(f[n] & !m == 0, 71);
        check(!x.has_empty() || e[n], 72);
        check(x.has_empty() || !e[n], 73);
        any_e |= e[n];
        any_f |= f[n] != 0;
    }
    if any_e {
        cover(20);
    }
    if any_f {
        cover(21);
    }
    core::mem::forget(t);
    core::mem::forget(r);
}

#[derive(Clone, Copy, PartialEq)]
pub enum Act {
    None,
    Shift(usize),
    Reduce(usize),
    Accept,
}

/// what: 8 tables against the reference (conflict-free grammars), 9 refusals and resolutions
pub fn lr(s: &Shape, what: u32) {
    let mut g = make(s);
    settle(&mut g);
    let r = real(&g);
    panic_mode(1);
    let reference = Lr::new(&g);
    if what == 8 && (reference.rr || reference.sr) {
        kill();
        return;
    }
    if reference.rr {
        cover(30);
    } else if reference.sr {
        cover(31);
    } else {
        cover(32);
    }
    // a panic is a refusal
    panic_mode(if reference.rr || reference.sr { 1 } else { 0 });
    must_end(300_000_000);
    let first = generate_first_table(&r);
    let (automaton, entries) = generate_lr1_automaton(&r, &first);
    let table = build_lr1_table(&r, &automaton);
    must_end(0);
    // accepted
    panic_mode(0);
    if what == 9 {
        check(!reference.rr, 90);
        if !reference.sr {
            observe(table.n_states() as u64);
            core::mem::forget((table, automaton, entries, first, r, reference));
            return;
        }
    }
    // lockstep
    let ns = table.n_states();
    observe(ns as u64);
    let mut to_ref: Vec<u16> = vec![0xffff; ns];
    let mut from_ref: Vec<u16> = vec![0xffff; reference.sets.len()];
    let mut todo: Vec<usize> = Vec::with_capacity(64);
    if what == 8 {
        check(entries.len() == reference.starts.len(), 80);
    }
    for &(n, i) in &reference.starts {
        match entries.get(&NonTerminalIdx::from_usize(n)) {
            None => check(false, 80),
            Some(st) => pair(st.as_usize(), i, &mut to_ref, &mut from_ref, &mut todo, what),
        }
    }
    while let Some(st) = todo.pop() {
        let i = to_ref[st] as usize;
        for a in 0..=g.nt {
            let t = if a < g.nt { Some(TerminalIdx::from_usize(a)) } else { None };
            let real = match table.get_action(StateIdx(st), t) {
                None => Act::None,
                Some(LRAction::Shift(s)) => Act::Shift(s.as_usize()),
                Some(LRAction::Reduce(n, p, act)) => {
                    let q = g.p0[n.as_usize()] as usize + p.as_usize();
                    if what == 8 {
                        check(q as u32 == *act, 86);
                    }
                    Act::Reduce(q)
                }
                Some(LRAction::Accept) => Act::Accept,
            };
            match real {
                Act::None => observe(0),
                Act::Shift(s) => observe(1000 + s as u64),
                Act::Reduce(p) => observe(2000 + p as u64),
                Act::Accept => observe(3000),
            }
            let shift = a < g.nt && reference.next[i][g.nnt + a] != 0xffff;
            if shift {
                let j = reference.next[i][g.nnt + a] as usize;
                match real {
                    Act::Shift(x) => pair(x, j, &mut to_ref, &mut from_ref, &mut todo, what),
                    _ => check(false, if what == 9 { 91 } else { 81 }),
                }
            } else if what == 8 {
                let mut want = Act::None;
                for p in 0..g.np {
                    if reference.sets[i].get(reference.item(p, g.len[p] as usize, a)) {
                        want = if g.public[g.lhs[p] as usize] { Act::Accept } else { Act::Reduce(p) };
                    }
                }
                check(!(want == Act::None && real != Act::None), 82);
                check(!(want != Act::None && real == Act::None), 83);
                check(want == real, 84);
            }
        }
        for n in 0..g.nnt {
            let real = table.get_goto_table().get(&StateIdx(st)).and_then(|m| m.get(&NonTerminalIdx::from_usize(n)));
            let j = reference.next[i][n];
            match real {
                None => check(j == 0xffff, if what == 9 { 92 } else { 85 }),
                Some(x) => {
                    observe(4000 + x.as_usize() as u64);
                    if j == 0xffff {
                        if what == 8 {
                            check(false, 87);
                        }
                    } else {
                        pair(x.as_usize(), j as usize, &mut to_ref, &mut from_ref, &mut todo, what);
                    }
                }
            }
        }
    }
    if what == 8 {
        // every canonical state is there, and nothing else
        for x in &from_ref {
            check(*x != 0xffff, 88);
        }
        check(ns == reference.sets.len(), 89);
    }
    core::mem::forget((table, automaton, entries, first, r, reference));
}

fn pair(st: usize, i: usize, to: &mut Vec<u16>, from: &mut Vec<u16>, todo: &mut Vec<usize>, what: u32) {
    check(st < to.len(), 78);
    if to[st] == 0xffff && from[i] == 0xffff {
        to[st] = i as u16;
        from[i] = st as u16;
        todo.push(st);
    } else if what == 8 {
        check(to[st] == i as u16 && from[i] == st as u16, 79);
    }
}

// ------------------------------------------------------------------ entries

fn shape(nnt: u32, np: u32, ml: u32, lo: u32, nt: u32, pubs: u32, flags: u32) -> Shape {
    let mut a = [0u8; MAXNT];
    for i in 0..nnt as usize {
        // np: decimal digits, last digit for the last non-terminal
        let mut d = np;
        for _ in 0..nnt as usize - 1 - i {
            d /= 10;
        }
        a[i] = (d % 10) as u8;
    }
    Shape { nnt: nnt as usize, np: a, ml: ml as usize, lo: lo as usize, nt: nt as usize, pubs, sorted: flags & 1 != 0, entry_first: flags & 2 != 0, base: None, holes: 0 }
}

#[no_mangle]
pub extern "C" fn b_first(nnt: u32, np: u32, ml: u32, lo: u32, nt: u32, pubs: u32, flags: u32) {
    c07(&shape(nnt, np, ml, lo, nt, pubs, flags))
}

#[no_mangle]
pub extern "C" fn b_lr(what: u32, nnt: u32, np: u32, ml: u32, lo: u32, nt: u32, pubs: u32, flags: u32) {
    lr(&shape(nnt, np, ml, lo, nt, pubs, flags), what)
}

/// Grammar number k of the catalogue with the productions in `holes` symbolic, of length lo to ml.
fn sketch(k: u32, holes: u32, ml: u32, lo: u32, flags: u32) -> Shape {
    let b = &crate::bases::BASES[k as usize];
    let mut a = [0u8; MAXNT];
    for i in 0..b.nnt {
        a[i] = b.np[i];
    }
    Shape { nnt: b.nnt, np: a, ml: ml as usize, lo: lo as usize, nt: b.nt, pubs: b.pubs, sorted: false, entry_first: flags & 2 != 0, base: Some(b), holes: holes as u64 }
}

#[no_mangle]
pub extern "C" fn b_first_sk(k: u32, holes: u32, ml: u32, lo: u32, flags: u32) {
    c07(&sketch(k, holes, ml, lo, flags))
}

#[no_mangle]
pub extern "C" fn b_lr_sk(what: u32, k: u32, holes: u32, ml: u32, lo: u32, flags: u32) {
    lr(&sketch(k, holes, ml, lo, flags), what)
}
