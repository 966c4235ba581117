//! Harness around lowering (C12): symbolic declarations and references.
#![allow(dead_code)]

use crate::ast;
use crate::grammar::{Grammar, Symbol};
use crate::hb::{assume, below, check, conc, cover, observe, panic_mode};
use proc_macro2::Span;

// names: with those that the generator makes up; that differ in case, blanks and underscores only; long, or beyond ASCII
const NT_NAMES: [[&str; 5]; 3] = [["A", "B", "A1", "A11", "B1"], ["A", "a", "A_", "_A", "Aa"], ["Abcdefghijklmnopqrstuvwxyzabcdefghijklm1", "Abcdefghijklmnopqrstuvwxyzabcdefghijklm2", "\u{c9}", "\u{e9}", "E"]];
const T_NAMES: [[&str; 5]; 3] = [["a", "b", "A", "", "a1"], ["a", "A", " a", "a ", "\n"], ["\"", "\\", "{}", "\u{e9}", "e\u{301}"]];
const BINDERS: [&str; 3] = ["x", "y", "A"];

fn ident(s: &str) -> syn::Ident {
    syn::Ident::new(s, Span::call_site())
}

fn pick<'a>(a: &[&'a str], n: u32) -> &'a str {
    a[n as usize]
}

/// Action number k: a literal no other action has.
fn action(k: u32) -> syn::Expr {
    let mut s = String::from("act");
    s.push((b'a' + k as u8) as char);
    path_expr(&s)
}

fn path_expr(s: &str) -> syn::Expr {
    let mut segments = syn::punctuated::Punctuated::new();
    segments.push(syn::PathSegment { ident: ident(s), arguments: syn::PathArguments::None });
    syn::Expr::Path(syn::ExprPath { attrs: vec![], qself: None, path: syn::Path { leading_colon: None, segments } })
}

fn is_path(e: &syn::Expr, s: &str) -> bool {
    match e {
        syn::Expr::Path(p) => p.path.segments.len() == 1 && p.path.segments[0].ident == s,
        _ => false,
    }
}

/// Type number k, told apart by the identifier.
fn ty(k: u32) -> syn::Type {
    let mut s = String::from("Ty");
    s.push((b'a' + k as u8) as char);
    let mut segments = syn::punctuated::Punctuated::new();
    segments.push(syn::PathSegment { ident: ident(&s), arguments: syn::PathArguments::None });
    syn::Type::Path(syn::TypePath { qself: None, path: syn::Path { leading_colon: None, segments } })
}

#[derive(Clone, Copy, Default)]
struct Sym {
    term: bool,
    name: u32,
    /// 0 none, 1 named, 2 named and mutable
    bind: u32,
    binder: u32,
}

const MAXS: usize = 4;
const MAXQ: usize = 12;

/// ndecl non-terminals, np productions each as digits, up to ml symbols each; pool: set of names * 10 + how many of them.
/// what: 1 names of declarations and references symbolic, 2 binders symbolic, 3 visibility too
#[no_mangle]
pub extern "C" fn b_lower(ndecl: u32, npd: u32, ml: u32, nterm: u32, pool: u32, what: u32) {
    let n = ndecl as usize;
    let (set, pool) = ((pool / 10) as usize, pool % 10);
    let (nt_names, t_names) = (&NT_NAMES[set], &T_NAMES[set]);
    let names = what & 1 != 0;
    let binders = what & 2 != 0;
    let vis = what & 4 != 0;
    let tnames = what & 8 != 0;
    // declarations
    let mut decl = [0u32; 5];
    let mut public = [false; 5];
    for i in 0..n {
        decl[i] = if names { conc(below(pool, i as u32)) } else { i as u32 };
        for j in 0..i {
            assume(decl[j] != decl[i]);
        }
        public[i] = vis && conc(below(2, 10 + i as u32)) == 1;
    }
    let mut tdecl = [0u32; 5];
    let mut twice = false;
    for i in 0..nterm as usize {
        tdecl[i] = if tnames { conc(below(pool, 20 + i as u32)) } else { i as u32 };
        for j in 0..i {
            twice |= tdecl[j] == tdecl[i];
        }
    }
    // productions
    let mut lhs = [0usize; MAXQ];
    let mut len = [0usize; MAXQ];
    let mut sym = [[Sym::default(); MAXS]; MAXQ];
    let mut nq = 0;
    let mut unknown = false;
    for i in 0..n {
        let mut d = npd;
        for _ in 0..n - 1 - i {
            d /= 10;
        }
        for _ in 0..d % 10 {
            let q = nq as u32;
            lhs[nq] = i;
            len[nq] = if names || binders { conc(below(ml + 1, 30 + q)) as usize } else { ml as usize };
            for k in 0..len[nq] {
                let id = 100 + q * 32 + k as u32 * 8;
                let mut s = Sym::default();
                s.term = conc(below(2, id)) == 1;
                let avail = if s.term { if tnames { pool } else { nterm } } else if names { pool } else { n as u32 };
                s.name = conc(below(avail, id + 1));
                if binders {
                    s.bind = conc(below(3, id + 2));
                    if s.bind != 0 {
                        s.binder = conc(below(3, id + 3));
                    }
                }
                let mut known = false;
                if s.term {
                    for j in 0..nterm as usize {
                        known |= tdecl[j] == s.name;
                    }
                } else {
                    for j in 0..n {
                        known |= decl[j] == s.name;
                    }
                }
                unknown |= !known;
                sym[nq][k] = s;
            }
            nq += 1;
        }
    }
    // the syntax tree
    let mut convs: Vec<ast::Conversion> = Vec::new();
    for i in 0..nterm as usize {
        convs.push(ast::Conversion { span: Span::call_site(), from: pick(t_names, tdecl[i]).to_string(), to: ast::Pattern::Underscore });
    }
    let mut nts: Vec<ast::NonTerminal> = Vec::new();
    for i in 0..n {
        let mut ps: Vec<ast::Production> = Vec::new();
        for q in 0..nq {
            if lhs[q] != i {
                continue;
            }
            let mut ss: Vec<ast::Symbol> = Vec::new();
            for k in 0..len[q] {
                let s = sym[q][k];
                let x = if s.term {
                    ast::Symbol::Terminal(syn::LitStr::new(pick(t_names, s.name), Span::call_site()))
                } else {
                    ast::Symbol::NonTerminal(ident(pick(nt_names, s.name)))
                };
                ss.push(if s.bind == 0 { x } else { ast::Symbol::NamedSymbol(ast::Name { mutable: s.bind == 2, name: ident(pick(&BINDERS, s.binder)) }, Box::new(x)) });
            }
            ps.push(ast::Production { symbols: ss, action: ast::Action::Infallible(action(q as u32)) });
        }
        nts.push(ast::NonTerminal {
            visibility: if public[i] { ast::Visibility::Pub } else { ast::Visibility::Priv },
            name: ident(pick(nt_names, decl[i])),
            type_decl: ty(i as u32),
            productions: ps,
        });
    }
    let refuse = unknown || twice;
    panic_mode(if refuse { 1 } else { 0 });
    crate::hs::must_end(50_000_000);
    let g: Grammar<syn::Expr> = crate::lower::lower(nts, &convs);
    crate::hs::must_end(0);
    panic_mode(0);
    check(!twice, 121);
    check(!unknown, 120);
    cover(40);
    // terminals in order
    check(g.n_terminals() == nterm as usize, 122);
    for (i, t) in g.terminal_indices().enumerate() {
        check(g.get_terminal(t) == pick(t_names, tdecl[i]), 122);
        check(t.as_usize() == i, 122);
    }
    // where the declarations went: the non-terminal with the first production of each
    let total = g.non_terminals().len();
    let mut home = [usize::MAX; 5];
    let mut entry = [usize::MAX; 5];
    let mut npub = 0;
    for i in 0..n {
        let nm = pick(nt_names, decl[i]);
        if public[i] {
            npub += 1;
            // the entry: public, with this name
            for (k, (_, x)) in g.non_terminal_indices().enumerate() {
                if x.public && x.non_terminal == nm {
                    check(entry[i] == usize::MAX, 123);
                    entry[i] = k;
                }
            }
            check(entry[i] != usize::MAX, 123);
            let e = &g.non_terminals()[entry[i]];
            check(e.productions().len() == 1, 124);
            let p = &e.productions()[0];
            check(p.symbols().len() == 1, 124);
            let b = &p.symbols()[0];
            match (&b.symbol, &b.binder) {
                (Symbol::NonTerminal(k), Some(bn)) => {
                    home[i] = k.as_usize();
                    let s = bn.name.to_string();
                    check(is_path(&p.action, &s), 125);
                }
                _ => check(false, 124),
            }
            check(e.return_ty == ty(i as u32), 126);
            check(home[i] < total, 124);
            check(!g.non_terminals()[home[i]].public, 124);
        } else {
            // by its actions below; the type tells it
            for (k, (_, x)) in g.non_terminal_indices().enumerate() {
                if !x.public && x.return_ty == ty(i as u32) {
                    check(home[i] == usize::MAX, 123);
                    home[i] = k;
                }
            }
            check(home[i] != usize::MAX, 123);
            check(g.non_terminals()[home[i]].non_terminal == nm, 123);
        }
        check(g.non_terminals()[home[i]].return_ty == ty(i as u32), 126);
        for j in 0..i {
            check(home[i] != home[j], 127);
        }
    }
    check(total == n + npub, 128);
    let mut seen = 0;
    for i in 0..n {
        let x = &g.non_terminals()[home[i]];
        let mut mine = 0;
        for q in 0..nq {
            if lhs[q] == i {
                mine += 1;
            }
        }
        check(x.productions().len() == mine, 129);
        for q in 0..nq {
            if lhs[q] != i {
                continue;
            }
            let mut s = String::from("act");
            s.push((b'a' + q as u8) as char);
            let mut found = 0;
            for (_, p) in x.production_indices() {
                if !is_path(&p.action, &s) {
                    continue;
                }
                found += 1;
                check(p.symbols().len() == len[q], 130);
                for k in 0..len[q] {
                    let b = &p.symbols()[k];
                    let want = sym[q][k];
                    match &b.symbol {
                        Symbol::Terminal(t) => {
                            check(want.term, 131);
                            check(tdecl[t.as_usize()] == want.name, 132);
                        }
                        Symbol::NonTerminal(y) => {
                            check(!want.term, 131);
                            let mut ok = false;
                            for j in 0..n {
                                ok |= decl[j] == want.name && home[j] == y.as_usize();
                            }
                            check(ok, 133);
                        }
                    }
                    match &b.binder {
                        None => check(want.bind == 0, 134),
                        Some(nm) => {
                            check(want.bind != 0, 134);
                            check(nm.mutable == (want.bind == 2), 135);
                            check(nm.name == pick(&BINDERS, want.binder), 136);
                        }
                    }
                    seen += 1;
                }
            }
            check(found == 1, 137);
        }
    }
    if seen > 0 {
        cover(41);
    }
    observe(total as u64);
    observe(seen);
    core::mem::forget(g);
}
