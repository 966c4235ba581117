//! Judging the front end (C15) by the syntax tree it makes.
#![allow(dead_code)]

use crate::ast;
use crate::hs::{below, check, cover, observe, panic_mode};
use crate::ht::*;
use crate::ht::Ev::*;
use crate::ht::No::*;

fn ev_pattern(x: &ast::Pattern, o: &mut Evs) {
    match x {
        ast::Pattern::Enum(path, ps) => {
            o.push(Tag(50));
            toks(path, o);
            for y in ps {
                ev_pattern(y, o);
            }
            o.push(Tag(59));
        }
        ast::Pattern::Struct(path, fs, dots) => {
            o.push(Tag(51));
            toks(path, o);
            for f in fs {
                o.push(Tag(60));
                o.push(Str(f.field_name.to_string()));
                ev_pattern(&f.pattern, o);
            }
            o.push(Tag(if *dots { 61 } else { 62 }));
            o.push(Tag(59));
        }
        ast::Pattern::Tuple(ps) => {
            o.push(Tag(52));
            for y in ps {
                ev_pattern(y, o);
            }
            o.push(Tag(59));
        }
        ast::Pattern::Path(path) => {
            o.push(Tag(53));
            toks(path, o);
        }
        ast::Pattern::Underscore => o.push(Tag(54)),
        ast::Pattern::DotDot => o.push(Tag(55)),
        ast::Pattern::Lit(l) => {
            o.push(Tag(56));
            toks(l, o);
        }
        ast::Pattern::Choose(t) => {
            o.push(Tag(57));
            toks(t, o);
        }
    }
}

fn ev_symbol(x: &ast::Symbol, o: &mut Evs) {
    match x {
        ast::Symbol::Terminal(s) => {
            o.push(Tag(30));
            o.push(Str(s.value()));
        }
        ast::Symbol::NonTerminal(i) => {
            o.push(Tag(31));
            o.push(Str(i.to_string()));
        }
        ast::Symbol::Repeat(r) => {
            o.push(Tag(match r.op {
                ast::RepeatOp::Plus => 32,
                ast::RepeatOp::Star => 33,
                ast::RepeatOp::Question => 34,
            }));
            ev_symbol(&r.symbol, o);
        }
        ast::Symbol::NamedSymbol(n, s) => {
            o.push(Tag(if n.mutable { 36 } else { 35 }));
            o.push(Str(n.name.to_string()));
            ev_symbol(s, o);
        }
    }
}

pub fn ev(g: &ast::Parser) -> Evs {
    let mut o = vec![];
    for i in &g.items {
        match i {
            ast::GrammarItem::TypeDef(t) => {
                match t.kind {
                    ast::TypeDefKind::State => o.push(Tag(1)),
                }
                toks(&t.ty, &mut o);
            }
            ast::GrammarItem::TokenEnum(e) => {
                o.push(Tag(2));
                o.push(Str(e.type_name.to_string()));
                for l in &e.type_lifetimes {
                    o.push(Tag(3));
                    o.push(Str(l.ident.to_string()));
                }
                for c in &e.conversions {
                    o.push(Tag(4));
                    o.push(Str(c.from.clone()));
                    ev_pattern(&c.to, &mut o);
                }
            }
            ast::GrammarItem::NonTerminal(n) => {
                o.push(Tag(if n.visibility.is_pub() { 5 } else { 6 }));
                o.push(Str(n.name.to_string()));
                toks(&n.type_decl, &mut o);
                for q in &n.productions {
                    o.push(Tag(7));
                    for s in &q.symbols {
                        ev_symbol(s, &mut o);
                    }
                    match &q.action {
                        ast::Action::Infallible(e) => {
                            o.push(Tag(8));
                            toks(e, &mut o);
                        }
                        ast::Action::Fallible(e) => {
                            o.push(Tag(9));
                            toks(e, &mut o);
                        }
                    }
                }
            }
        }
    }
    o
}

/// The front end on these tokens against the notation.
pub fn judge(t: &Ts) {
    // (reading Rust types and expressions never panics on what is explored)
    panic_mode(0);
    let want = rd_items(t);
    match &want {
        Ok(_) => cover(60),
        Err(Refuse) => {
            cover(61);
            panic_mode(1);
        }
        Err(Free) => {
            cover(62);
            return;
        }
    }
    crate::hs::must_end(100_000_000);
    let got = syn::parse2::<ast::Parser>(stream(t));
    crate::hs::must_end(0);
    match got {
        Ok(g) => {
            panic_mode(0);
            match want {
                Ok(w) => {
                    check(same(&w, &ev(&g)), 151);
                    observe(w.len() as u64);
                }
                Err(_) => check(false, 152),
            }
            core::mem::forget(g);
        }
        Err(_) => {
            panic_mode(0);
            check(want.is_err(), 150);
            observe(1000);
        }
    }
}


/// any string of n characters as the text of a terminal: read as it is, at both places
#[no_mangle]
pub extern "C" fn c_string(n: u32, m: u32) {
    let s = |n: u32, k: u32| -> String {
        let mut b = vec![];
        for i in 0..n {
            // printable
            b.push(b' ' + below(95, k + i) as u8);
        }
        unsafe { String::from_utf8_unchecked(b) }
    };
    let (a, b) = (s(n, 10), s(m, 50));
    let mut w = vec![lit(&a)];
    arrow(&mut w);
    w.push(id("A"));
    let mut t = text("enum Token");
    t.push(brace(w));
    t.extend(text("S : u32 ="));
    let mut w = vec![lit(&b)];
    arrow(&mut w);
    w.push(id("x"));
    t.push(brace(w));
    t.push(p(';'));
    panic_mode(0);
    match syn::parse2::<ast::Parser>(stream(&t)) {
        Ok(g) => {
            let mut k = 0;
            for i in &g.items {
                match i {
                    ast::GrammarItem::TokenEnum(e) => {
                        check(e.conversions.len() == 1, 153);
                        check(e.conversions[0].from == a, 153);
                        k += 1;
                    }
                    ast::GrammarItem::NonTerminal(n) => match &n.productions[0].symbols[0] {
                        ast::Symbol::Terminal(x) => {
                            check(x.value() == b, 153);
                            k += 1;
                        }
                        _ => check(false, 153),
                    },
                    _ => check(false, 153),
                }
            }
            check(k == 2, 153);
            cover(63);
            core::mem::forget(g);
        }
        Err(_) => check(false, 150),
    }
}

