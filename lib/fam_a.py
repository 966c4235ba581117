"""Harness crate for generated parsers: one module per catalogue grammar."""
import os
import re
import shutil
from oracle import minimise

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RTY = {'N': 'TyN', 'B': 'TyB', 'P': 'TyP', 'S': 'TyS', 'U': 'TyU',
       # types that differ in one place only
       'Vn': 'Vec<TyN>', 'Vb': 'Vec<TyB>', 'On': 'Option<TyN>', 'Oo': 'Option<Option<TyN>>', 'A1': '[TyN; 1]', 'A2': '[TyN; 2]', 'Ma': 'ma::T', 'Mb': 'mb::T',
       'Tu': '(TyN, TyU)', 'Tn': '(TyN, TyN)', 'Bd': 'Box<dyn Node1>', 'Be': 'Box<dyn Node2>', 'Fn': 'fn(u32) -> TyN', 'Fu': 'fn(u32) -> TyU', 'Rs': "&'static [TyU]", 'Rn': "&'static [TyU; 1]"}


# names that the generated code might use itself
BINDERS = ['value_stack', 'token', 'state_stack', 'input', 'f', 'state', 'terminal_idx', 'x', 'next_state', 'r#type', 'n_symbols', 'v', 'action_idx']


def rstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def entry(g, r):
    return 'a_%s_%s' % (g.name, g.nts[r][0].replace('#', '_'))


def arr(xs):
    return '&[' + ', '.join(str(x) for x in xs) + ']'


def grammar_text(g):
    """The parser! text of a grammar."""
    o = []
    o.append('        enum Token {')
    for i, t in enumerate(g.terms):
        o.append('            %s => Token::T%d%s,' % (rstr(t), i, '(<u8>)' if g.payload[i] else ''))
    o.append('        }')
    for i, (nm, pub, ty, prods) in enumerate(g.nts):
        o.append('        %s%s: %s = {' % ('pub ' if pub else '', nm, RTY[ty]))
        for j, p in enumerate(prods):
            syms = []
            pre = []
            args = []
            same = 'same' in g.tags
            for k, (kind, name, bound, mut) in enumerate(p.syms):
                x = rstr(name) if kind == 't' else name
                if bound:
                    b = BINDERS[(len(args) + j) % len(BINDERS)] if 'binders' in g.tags else 'v%d' % (len(args) if same else k)
                    syms.append('<%s%s:%s>' % ('mut ' if mut else '', b, x))
                    if mut:
                        pre.append('touch(&mut %s); ' % b)
                    args.append('%s.enc()' % b)
                else:
                    syms.append(x)
            o.append('            %s => { %sact::<%s>(%d, &[%s]) },' % (' '.join(syms), ''.join(pre), RTY[ty], 0xffff if same else g.pbase[i] + j, ', '.join(args)))
        o.append('        };')
    return '\n'.join(o)


def module(g, roots, n, history=False):
    """Rust text of the module for g; roots: indices of public non-terminals to make entries for.

    n = 0: without an automaton (for grammars of which only the absence of panics is checked)."""
    o = []
    o.append('use crate::hl::*;')
    o.append('#[derive(Debug, Clone, Copy, PartialEq)]')
    wide = len(g.terms) > 250
    o.append('#[repr(%s)]' % ('u16' if wide else 'u8'))
    o.append('pub enum Token { %s }' % ', '.join('T%d%s' % (i, '(u8)' if p else '') for i, p in enumerate(g.payload)))
    anyp = any(g.payload)
    if wide and anyp:
        o.append('#[repr(C)] struct Raw { kind: u16, pay: u8 }')
        o.append('impl Tok for Token { fn make(kind: u16, pay: u8) -> Token { unsafe { core::mem::transmute::<Raw, Token>(Raw { kind, pay }) } } }')
    elif wide:
        o.append('impl Tok for Token { fn make(kind: u16, _pay: u8) -> Token { unsafe { core::mem::transmute::<u16, Token>(kind) } } }')
    elif anyp:
        o.append('impl Tok for Token { fn make(kind: u16, pay: u8) -> Token { unsafe { core::mem::transmute::<[u8; 2], Token>([kind as u8, pay]) } } }')
    elif len(g.terms) == 1:
        o.append('impl Tok for Token { fn make(_kind: u16, _pay: u8) -> Token { Token::T0 } }')
    else:
        o.append('impl Tok for Token { fn make(kind: u16, _pay: u8) -> Token { unsafe { core::mem::transmute::<u8, Token>(kind as u8) } } }')
    for mod in 'pqr' if history else 'p':
        o.append('pub mod %s {' % mod)
        o.append('    use super::Token;')
        o.append('    use crate::hl::{act, ma, mb, touch, Enc, Node1, Node2, TyB, TyN, TyP, TyS, TyU};')
        o.append('    parsegen::parser! {')
        o.append(grammar_text(g))
        o.append('    }')
        o.append('}')
    o.append('static G: Gr = Gr {')
    o.append('    terms: %s,' % arr(rstr(t) for t in g.terms))
    o.append('    pays: %s,' % arr(str(p).lower() for p in g.payload))
    o.append('    has_pay: %s,' % str(anyp).lower())
    o.append('    prods: &[')
    for i, (nm, pub, ty, prods) in enumerate(g.nts):
        for j, p in enumerate(prods):
            rhs = [s if s >= 0 else s for s in g.gram.prods[i][j]]
            a = []
            k = 0
            for s in p.syms:
                if s[2]:
                    a.append(k)
                    k += 1
                else:
                    a.append(0xffff)
            o.append('        Pr { lhs: %d, rhs: %s, arg: %s },' % (i, arr(rhs), arr(a)))
    o.append('    ],')
    o.append('};')
    T = len(g.terms)
    for r in roots:
        if history:
            states, start = [(True, {}, set())], 0
        else:
            states, start = g.auto(n) if g.auto else minimise(g.gram.dfa(r, n)) if n else ([(True, {}, set())], 0)
        # start first
        order = [start] + [i for i in range(len(states)) if i != start]
        num = {s: i for i, s in enumerate(order)}
        tr, acc, exp = [], [], []
        for s in order:
            a, t, e = states[s]
            # at the bound itself no token is asked for, any transition is out of reach
            tr += [num[t[k]] if k in t else 'NO' if n else 0 for k in range(T)]
            acc.append(1 if a else 0)
            exp.append(', '.join(g.terms[k] for k in sorted(e)))
        o.append('static R%d: Root = Root { nt: %d, trans: %s, acc: %s, exp: %s, head: %d, tail: %d, turn: %d };' % (r, r, arr(tr), arr(acc), arr(rstr(x) for x in exp), g.head, g.tail, g.turn))
        nm = g.nts[r][0]
        for mod in 'pqr' if history else 'p':
            o.append('#[inline(never)]')
            o.append('fn parse%d%s() -> Res {' % (r, '' if mod == 'p' else '_' + mod))
            o.append('    let r: Result<%s, %s::ParseError<u8>> = %s::%s::parse(input::<Token>());' % (RTY[g.nts[r][2]], mod, mod, nm))
            o.append('    match r { Ok(v) => Res::Ok(v.enc()), Err(%s::ParseError::LexerError(e)) => Res::Lex(e), Err(%s::ParseError::ParserError { found, expected }) => Res::Syn(found, expected) }' % (mod, mod))
            o.append('}')
        if history:
            o.append('#[no_mangle] pub extern "C" fn %s(n: u32, m: u32) { history(&G, n, m, parse%d_r, parse%d, &ALONE, &OTHERS) }' % (entry(g, r), r, r))
            continue
        o.append('#[no_mangle] pub extern "C" fn %s(mode: u32, n: u32) { run(&G, &R%d, mode, n, parse%d) }' % (entry(g, r), r, r))
    if history:
        o.append('static ALONE: [fn() -> Res; %d] = [%s];' % (len(roots), ', '.join('parse%d_q' % r for r in roots)))
        o.append('static OTHERS: [fn() -> Res; %d] = [%s];' % (len(roots), ', '.join('parse%d' % r for r in roots)))
    return '\n'.join(o) + '\n'


CARGO = '''[package]
name = "%s"
version = "0.0.0"
edition = "2018"

[lib]
crate-type = ["cdylib"]
path = "src/lib.rs"

[dependencies]
parsegen = { path = "/repo" }

[profile.release]
opt-level = 1
lto = "fat"
codegen-units = 1
panic = "abort"
overflow-checks = true
debug = 0
incremental = false

[workspace]
'''


def write_crate(d, name, mods, extra_files=(), sizes=(), profile=''):
    """mods: list of (module name, text); sizes: (constant of hl.rs, value)."""
    src = os.path.join(d, 'src')
    os.makedirs(src, exist_ok=True)
    for f in os.listdir(src):
        os.unlink(os.path.join(src, f))
    open(os.path.join(d, 'Cargo.toml'), 'w').write(CARGO % name + profile)
    shutil.copy(os.path.join(VERIF, 'lib', 'Cargo.lock.a'), os.path.join(d, 'Cargo.lock'))
    lock = open(os.path.join(d, 'Cargo.lock')).read()
    open(os.path.join(d, 'Cargo.lock'), 'w').write(lock.replace('name = "HARNESS"', 'name = "%s"' % name))
    shutil.copy(os.path.join(VERIF, 'rt', 'hl.rs'), os.path.join(src, 'hl.rs'))
    if sizes:
        hl = open(os.path.join(src, 'hl.rs')).read()
        for k, v in sizes:
            hl, cnt = re.subn(r'pub const %s: usize = \d+;' % k, 'pub const %s: usize = %d;' % (k, v), hl)
            assert cnt == 1, k
        open(os.path.join(src, 'hl.rs'), 'w').write(hl)
    o = ['#![allow(dead_code, unused, unreachable_patterns, static_mut_refs, non_snake_case)]', 'pub mod hl;']
    for x in extra_files:
        shutil.copy(os.path.join(VERIF, 'rt', x + '.rs'), os.path.join(src, x + '.rs'))
        o.append('pub mod %s;' % x)
    for m, t in mods:
        o.append('pub mod %s;' % m)
        open(os.path.join(src, m + '.rs'), 'w').write(t)
    open(os.path.join(src, 'lib.rs'), 'w').write('\n'.join(o) + '\n')
