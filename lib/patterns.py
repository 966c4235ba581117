"""Catalogue of token types and patterns (C11).

Each entry: name, declarations (the token type and `fn make() -> (Token, Class)`, which builds an arbitrary token and
says, independently, which terminal it is and what its parts are), terminals (text, pattern, number of parts, used).
"""
PATS = []


def p(name, decl, terms, ty='Token', params=''):
    PATS.append((name, decl, terms, ty, params))


p('lits', '''
#[derive(Debug)]
pub enum Token { Kw(u8), Op(char), Num(u16), Flag(bool), End }
fn make() -> (Token, Class) {
    let b = byte(1);
    match choose(5, 0) {
        0 => (Token::Kw(b), if b == 1 { class(0, &[]) } else if b == 255 { class(1, &[]) } else { class(2, &[b as u64]) }),
        1 => (Token::Op(b as char), if b == 43 { class(3, &[]) } else { class(4, &[b as u64]) }),
        2 => { let n = b as u16 * 3; (Token::Num(n), if n == 300 { class(5, &[]) } else { class(6, &[]) }) }
        3 => (Token::Flag(b & 1 == 1), if b & 1 == 1 { class(7, &[]) } else { class(8, &[0]) }),
        _ => (Token::End, class(9, &[])),
    }
}
''', [('one', 'Token::Kw(1)', 0, 1), ('max', 'Token::Kw(255)', 0, 1), ('kw', 'Token::Kw(<u8>)', 1, 1), ('+', "Token::Op('+')", 0, 0), ('op', 'Token::Op(<char>)', 1, 1),
      ('300', 'Token::Num(300)', 0, 1), ('num', 'Token::Num(_)', 0, 1), ('yes', 'Token::Flag(true)', 0, 1), ('flag', 'Token::Flag(<bool>)', 1, 1), ('end', 'Token::End', 0, 1)])

p('overlap', '''
#[derive(Debug)]
pub enum Token { Pair(u8, u8), Other(u8) }
fn make() -> (Token, Class) {
    let (a, b) = (byte(1), byte(2));
    match choose(2, 0) {
        0 => (Token::Pair(a, b), if b == 0 { class(0, &[a as u64]) } else if a == 0 { class(1, &[b as u64]) } else if a == 7 { class(3, &[]) } else { class(4, &[a as u64, b as u64]) }),
        _ => (Token::Other(a), class(5, &[])),
    }
}
''', [('x0', 'Token::Pair(<u8>, 0)', 1, 1), ('0x', 'Token::Pair(0, <u8>)', 1, 1), ('00', 'Token::Pair(0, 0)', 0, 1), ('7x', 'Token::Pair(7, _)', 0, 0),
      ('xx', 'Token::Pair(<u8>, <u8>)', 2, 1), ('any', '_', 0, 1), ('never', 'Token::Other(<u8>)', 1, 1)])

p('tuple_ty', '''
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind { A, B, C }
pub type Token = (Kind, u8, bool);
fn make() -> (Token, Class) {
    let (a, b) = (byte(1), byte(2) & 1 == 1);
    match choose(3, 0) {
        0 => ((Kind::A, a, b), if b { class(0, &[a as u64]) } else { class(1, &[a as u64, 0]) }),
        1 => ((Kind::B, a, b), if a == 9 { class(2, &[b as u64]) } else { class(4, &[]) }),
        _ => ((Kind::C, a, b), class(3, &[Kind::C as u64 + 70, a as u64])),
    }
}
impl Num for Kind { fn num(&self) -> u64 { *self as u64 + 70 } }
''', [('at', '(Kind::A, <u8>, true)', 1, 1), ('a', '(Kind::A, <u8>, <bool>)', 2, 1), ('b9', '(Kind::B, 9, <bool>)', 1, 1), ('c', '(Kind::C, _, _)', 0, 1), ('rest', '(..)', 0, 0)])
# "c" selects nothing here; see tuple_ty2 for whole components of an enum type
PATS[-1] = (PATS[-1][0], PATS[-1][1].replace('class(3, &[Kind::C as u64 + 70, a as u64])', 'class(3, &[])'), PATS[-1][2], 'Token', '')

p('tuple_ty2', '''
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind { A, B }
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Span { pub lo: u8, pub hi: u8 }
pub type Token = (Kind, (u8, u8), Span);
impl Num for Kind { fn num(&self) -> u64 { *self as u64 + 70 } }
impl Num for Span { fn num(&self) -> u64 { self.lo as u64 * 1000 + self.hi as u64 } }
fn make() -> (Token, Class) {
    let (a, b, c, d) = (byte(1), byte(2), byte(3), byte(4));
    let k = if choose(2, 0) == 0 { Kind::A } else { Kind::B };
    let s = Span { lo: c, hi: d };
    let cl = if k == Kind::A && c == d { class(0, &[a as u64, b as u64, c as u64]) } else { class(0, &[]) };
    let cl = if a == 1 { class(0, &[70 + k as u64, b as u64, s.num()]) }
        else if d == 2 { class(1, &[(a, b).num(), c as u64]) }
        else if k == Kind::B { class(2, &[d as u64, c as u64]) }
        else { class(3, &[]) };
    ((k, (a, b), s), cl)
}
''', [('whole', '(<Kind>, (1, <u8>), <Span>)', 3, 1), ('hi2', '(_, <(u8, u8)>, Span { hi: 2, lo: <u8> })', 2, 1), ('swap', '(Kind::B, _, Span { hi: <u8>, lo: <u8> })', 2, 1), ('rest', '_', 0, 0)])

p('struct_ty', '''
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind { X, Y, Z }
#[derive(Debug)]
pub struct Token { pub kind: Kind, pub a: u8, pub b: u8, pub c: u8 }
fn make() -> (Token, Class) {
    let (a, b, c) = (byte(1), byte(2), byte(3));
    let kind = match choose(3, 0) { 0 => Kind::X, 1 => Kind::Y, _ => Kind::Z };
    let cl = match kind {
        Kind::X => class(0, &[a as u64]),
        Kind::Y => if c == 4 { class(1, &[b as u64, a as u64]) } else { class(2, &[c as u64, a as u64, b as u64]) },
        Kind::Z => if a == 3 && b == 3 { class(3, &[]) } else { class(4, &[]) },
    };
    (Token { kind, a, b, c }, cl)
}
''', [('x', 'Token { kind: Kind::X, a: <u8>, .. }', 1, 1), ('y4', 'Token { c: 4, b: <u8>, kind: Kind::Y, a: <u8> }', 2, 1), ('y', 'Token { kind: Kind::Y, c: <u8>, a: <u8>, b: <u8> }', 3, 1),
      ('z33', 'Token { b: 3, a: 3, .. }', 0, 0), ('z', 'Token { kind: Kind::Z, a: _, b: _, c: _ }', 0, 1), ('odd', 'Token { .. }', 0, 1)])
# X with a == b == 3 is still x: the first pattern is tried first

p('nested', '''
#[derive(Debug)]
pub struct Pt { pub x: u8, pub y: u8 }
#[derive(Debug)]
pub enum Inner { Pair(u8, Pt), One(Pt), Named { p: Pt, q: (u8, u8) }, Nil }
#[derive(Debug)]
pub enum Token { Wrap(Inner), Two(Inner, u8), Plain { inner: Inner, n: u8 } }
fn make() -> (Token, Class) {
    let (a, b, c, d) = (byte(1), byte(2), byte(3), byte(4));
    match choose(6, 0) {
        0 => (Token::Wrap(Inner::Pair(a, Pt { x: b, y: c })), if c == 5 { class(0, &[a as u64, b as u64]) } else { class(1, &[c as u64, b as u64]) }),
        1 => (Token::Wrap(Inner::Named { p: Pt { x: a, y: b }, q: (c, d) }), if b == c { class(2, &[d as u64, a as u64]) } else { class(2, &[d as u64, a as u64]) }),
        2 => (Token::Two(Inner::One(Pt { x: a, y: b }), c), if a == 1 { class(3, &[c as u64]) } else { class(4, &[a as u64, b as u64, c as u64]) }),
        3 => (Token::Two(Inner::Nil, a), class(6, &[])),
        4 => (Token::Plain { inner: Inner::Pair(a, Pt { x: b, y: c }), n: d }, if d == 8 { class(5, &[a as u64, c as u64]) } else { class(7, &[]) }),
        _ => (Token::Plain { inner: Inner::Nil, n: d }, class(7, &[])),
    }
}
''', [('p5', 'Token::Wrap(Inner::Pair(<u8>, Pt { x: <u8>, y: 5 }))', 2, 1), ('p', 'Token::Wrap(Inner::Pair(_, Pt { y: <u8>, x: <u8> }))', 2, 1),
      ('n', 'Token::Wrap(Inner::Named { q: (_, <u8>), p: Pt { x: <u8>, .. } })', 2, 1), ('o1', 'Token::Two(Inner::One(Pt { x: 1, .. }), <u8>)', 1, 0),
      ('o', 'Token::Two(Inner::One(Pt { x: <u8>, y: <u8> }), <u8>)', 3, 1), ('pl', 'Token::Plain { n: 8, inner: Inner::Pair(<u8>, Pt { x: _, y: <u8> }) }', 2, 1),
      ('nil', 'Token::Two(Inner::Nil, ..)', 0, 1), ('rest', '_', 0, 1)])

p('life', '''
#[derive(Debug, Clone, PartialEq)]
pub enum Token<'a> { Id(&'a str), Text { text: &'a str, n: u8 }, Sep }
fn make() -> (Token<'static>, Class) {
    let b = byte(1);
    let s = match choose(4, 2) { 0 => "if", 1 => "i", 2 => "iff", _ => "" };
    match choose(3, 0) {
        0 => (Token::Id(s), if s.len() == 2 { class(0, &[]) } else if s.len() == 0 { class(1, &[]) } else { class(2, &[s.num()]) }),
        1 => (Token::Text { text: s, n: b }, if b == 0 { class(3, &[s.num()]) } else if s.len() == 2 { class(4, &[b as u64]) } else { class(5, &[b as u64, s.num()]) }),
        _ => (Token::Sep, class(6, &[])),
    }
}
''', [('if', 'Token::Id("if")', 0, 1), ('empty', 'Token::Id("")', 0, 0), ('id', "Token::Id(<&'a str>)", 1, 1), ('t0', "Token::Text { n: 0, text: <&'a str> }", 1, 1),
      ('tif', 'Token::Text { text: "if", n: <u8> }', 1, 1), ('t', "Token::Text { n: <u8>, text: <&'a str> }", 2, 1), ('sep', 'Token::Sep', 0, 1)], "Token<'static>", "<'a>")

p('life2', '''
#[derive(Debug, Clone, PartialEq)]
pub enum Token<'a, 'b> { A(&'a str), B(&'b str), C(&'a str, &'b u8) }
static BS: [u8; 2] = [11, 12];
fn make() -> (Token<'static, 'static>, Class) {
    let i = choose(2, 2) as usize;
    let s = if i == 0 { "x" } else { "yy" };
    match choose(3, 0) {
        0 => (Token::A(s), class(0, &[s.num()])),
        1 => (Token::B(s), class(1, &[s.num()])),
        _ => (Token::C(s, &BS[i]), class(2, &[s.num(), 11 + i as u64])),
    }
}
''', [('a', "Token::A(<&'a str>)", 1, 1), ('b', "Token::B(<&'b str>)", 1, 1), ('c', "Token::C(<&'a str>, <&'b u8>)", 2, 1), ('d', 'Token::C(..)', 0, 1)], "Token<'static, 'static>", "<'a, 'b>")

p('dots', '''
#[derive(Debug)]
pub enum Token { T3(u8, u8, u8), T2(u8, (u8, u8, u8)), T0() }
fn make() -> (Token, Class) {
    let (a, b, c, d) = (byte(1), byte(2), byte(3), byte(4));
    match choose(3, 0) {
        0 => (Token::T3(a, b, c), if a == 1 { class(0, &[c as u64]) } else if c == 2 { class(1, &[a as u64]) } else if b == 3 { class(2, &[c as u64]) } else { class(3, &[a as u64, c as u64]) }),
        1 => (Token::T2(a, (b, c, d)), if d == 4 { class(4, &[b as u64]) } else if a == 5 { class(5, &[]) } else { class(6, &[d as u64]) }),
        _ => (Token::T0(), class(7, &[])),
    }
}
''', [('1', 'Token::T3(1, .., <u8>)', 1, 1), ('2', 'Token::T3(<u8>, .., 2)', 1, 1), ('3', 'Token::T3(_, 3, <u8>)', 1, 1), ('ac', 'Token::T3(<u8>, _, <u8>)', 2, 1),
      ('b4', 'Token::T2(_, (<u8>, .., 4))', 1, 1), ('5', 'Token::T2(5, ..)', 0, 0), ('d', 'Token::T2(.., (.., <u8>))', 1, 1), ('t0', 'Token::T0()', 0, 1)])

p('paths', '''
pub const LOW: u8 = 10;
pub struct Lim;
impl Lim { pub const HIGH: u8 = 200; }
#[derive(Debug)]
pub struct Unit;
#[derive(Debug)]
pub enum Token { N(u8), U(Unit, u8), M(self::sub::Deep) }
pub mod sub { #[derive(Debug)] pub enum Deep { P, Q(u8) } }
use sub::Deep;
fn make() -> (Token, Class) {
    let a = byte(1);
    match choose(4, 0) {
        0 => (Token::N(a), if a == 10 { class(0, &[]) } else if a == 200 { class(1, &[]) } else { class(2, &[a as u64]) }),
        1 => (Token::U(Unit, a), class(3, &[a as u64])),
        2 => (Token::M(Deep::P), class(4, &[])),
        _ => (Token::M(Deep::Q(a)), class(5, &[a as u64])),
    }
}
''', [('low', 'Token::N(LOW)', 0, 1), ('high', 'Token::N(Lim::HIGH)', 0, 1), ('n', 'Token::N(<u8>)', 1, 1), ('u', 'Token::U(Unit, <u8>)', 1, 1), ('p', 'Token::M(sub::Deep::P)', 0, 0),
      ('q', 'Token::M(sub::Deep::Q(<u8>))', 1, 1)])

p('many', '''
#[derive(Debug)]
pub enum Token { Many(u8, u16, bool, char, (u8, u8)), Few(u8, u8, u8, u8) }
fn make() -> (Token, Class) {
    let (a, b, c, d) = (byte(1), byte(2), byte(3), byte(4));
    match choose(2, 0) {
        0 => (Token::Many(a, b as u16 + 256, c & 1 == 1, d as char, (a, c)), class(0, &[a as u64, b as u64 + 256, (c & 1) as u64, d as u64, a as u64, c as u64])),
        _ => (Token::Few(a, b, c, d), if a == 0 { class(1, &[d as u64, 0]) } else { class(2, &[a as u64, b as u64, c as u64, d as u64]) }),
    }
}
''', [('many', 'Token::Many(<u8>, <u16>, <bool>, <char>, (<u8>, <u8>))', 6, 1), ('zero', 'Token::Few(0, _, _, <u8>)', 1, 1), ('few', 'Token::Few(<u8>, <u8>, <u8>, <u8>)', 4, 1)])
PATS[-1] = (PATS[-1][0], PATS[-1][1].replace('class(1, &[d as u64, 0])', 'class(1, &[d as u64])'), PATS[-1][2], 'Token', '')

p('owned', '''
#[derive(Debug)]
pub enum Token { S(String), B(Box<u8>, u8), V { v: Vec<u8>, s: String }, O(Option<u8>) }
fn make() -> (Token, Class) {
    let (a, b) = (byte(1), byte(2));
    match choose(4, 0) {
        0 => { let s = if b & 1 == 1 { String::from("ab") } else { String::new() }; let n = s.num(); (Token::S(s), class(0, &[n])) }
        1 => (Token::B(Box::new(a), b), if b == 6 { class(1, &[a as u64 + 1000]) } else { class(2, &[a as u64 + 1000, b as u64]) }),
        2 => (Token::V { v: vec![a, b], s: String::from("z") }, class(3, &["z".num(), (2 * 256 + a as u64) * 256 + b as u64])),
        _ => if b & 1 == 1 { (Token::O(Some(a)), if a == 0 { class(4, &[6000]) } else { class(5, &[a as u64]) }) } else { (Token::O(None), class(6, &[])) },
    }
}
''', [('s', 'Token::S(<String>)', 1, 1), ('b6', 'Token::B(<Box<u8>>, 6)', 1, 1), ('b', 'Token::B(<Box<u8>>, <u8>)', 2, 1), ('v', 'Token::V { s: <String>, v: <Vec<u8>> }', 2, 1),
      ('o0', 'Token::O(Some(0))', 0, 0), ('o', 'Token::O(Some(<u8>))', 1, 1), ('none', 'Token::O(None)', 0, 1)])
PATS[-1] = (PATS[-1][0], PATS[-1][1].replace('class(4, &[6000])', 'class(4, &[])'), PATS[-1][2], 'Token', '')

p('whole', '''
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Token { A(u8), B }
impl Num for Token { fn num(&self) -> u64 { match self { Token::A(x) => *x as u64 + 1, Token::B => 9999 } } }
fn make() -> (Token, Class) {
    let a = byte(1);
    match choose(2, 0) {
        0 => (Token::A(a), if a == 128 { class(0, &[]) } else { class(1, &[a as u64 + 1]) }),
        _ => (Token::B, class(1, &[9999])),
    }
}
''', [('hi', 'Token::A(0x80)', 0, 1), ('tok', '<Token>', 1, 1), ('b', 'Token::B', 0, 1)])

p('bytes', '''
#[derive(Debug)]
pub enum Token { C(u8, i32), D([u8; 2]), R(&'static [u8; 2]) }
fn make() -> (Token, Class) {
    let (a, b) = (byte(1), byte(2));
    match choose(2, 0) {
        0 => (Token::C(a, b as i32), if a == 97 { class(0, &[b as u64]) } else if b == 10 { class(1, &[a as u64]) } else { class(2, &[]) }),
        _ => (Token::D([a, b]), class(3, &[])),
    }
}
''', [('a', "Token::C(b'a', <i32>)", 1, 1), ('ten', 'Token::C(<u8>, 10_i32)', 1, 1), ('c', 'Token::C(_, _)', 0, 1), ('d', 'Token::D(_)', 0, 0), ('r', 'Token::R(b"ab")', 0, 1), ('rr', 'Token::R(_)', 0, 1)])

p('single', '''
#[derive(Debug)]
pub enum Token { T((u8,)), U(u8), V { t: (u8,), s: u8 } }
fn make() -> (Token, Class) {
    let (a, b) = (byte(1), byte(2));
    match choose(3, 0) {
        0 => (Token::T((a,)), if a == 3 { class(0, &[]) } else { class(1, &[a as u64]) }),
        1 => (Token::U(a), class(2, &[a as u64])),
        _ => (Token::V { t: (a,), s: b }, class(3, &[b as u64, a as u64])),
    }
}
''', [('t3', 'Token::T((3,))', 0, 1), ('t', 'Token::T((<u8>,))', 1, 1), ('u', 'Token::U(<u8>,)', 1, 1), ('v', 'Token::V { s: <u8>, t: (<u8>,) }', 2, 1)])

p('keywords', '''
#[derive(Debug, Clone, Copy)]
pub struct Token(pub u8, pub u8);
fn make() -> (Token, Class) {
    let (a, b) = (byte(1), byte(2));
    let c = if a == 0 { class(0, &[]) } else if a == 1 { class(1, &[]) } else if b == 0 { class(2, &[a as u64]) } else if a == 2 { class(3, &[b as u64]) }
        else if a == 3 { class(4, &[]) } else if b == 1 { class(5, &[]) } else { class(6, &[b as u64, a as u64]) };
    let c = if c.term == 6 { class(6, &[a as u64, b as u64]) } else { c };
    (Token(a, b), c)
}
''', [('k0', 'Token(0, _)', 0, 1), ('k1', 'Token(1, ..)', 0, 1), ('b0', 'Token(<u8>, 0)', 1, 1), ('k2', 'Token(2, <u8>)', 1, 1), ('k3', 'Token(3, _)', 0, 0), ('b1', 'Token(_, 1)', 0, 1),
      ('ab', 'Token(<u8>, <u8>)', 2, 1)])


def rstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def module(pat):
    name, decl, terms, ty, params = pat
    o = ['use crate::hl11::*;', decl]
    o.append('pub mod p {')
    o.append('    use super::*;')
    o.append('    parsegen::parser! {')
    tyname = 'Token'
    o.append('        enum %s%s {' % (tyname, params))
    for t, pt, n, used in terms:
        o.append('            %s => %s,' % (rstr(t), pt))
    o.append('        }')
    o.append('        pub List: () = { => (), List Item => (), };')
    o.append('        Item: () = {')
    for i, (t, pt, n, used) in enumerate(terms):
        if used:
            if n == 0 and i % 2:
                o.append('            %s => put(%d, &[]),' % (rstr(t), i))
            else:
                parts = [] if n == 0 else ['v.num()'] if n == 1 else ['v.%d.num()' % k for k in range(n)]
                o.append('            <v:%s> => { %sput(%d, &[%s]) },' % (rstr(t), 'let () = v; ' if n == 0 else '', i, ', '.join(parts)))
    o.append('        };')
    o.append('    }')
    o.append('}')
    o.append('#[inline(never)]')
    o.append('fn parse() -> Out {')
    o.append('    match p::List::parse(It { make: make as fn() -> (%s, Class) }) { Ok(()) => Out::Ok, Err(p::ParseError::LexerError(_)) => Out::Lex, Err(p::ParseError::ParserError { found, expected }) => Out::Syn(found, expected) }' % ty)
    o.append('}')
    o.append('#[no_mangle] pub extern "C" fn c_%s(n: u32) { run(n, &[%s], &[%s], parse) }' % (name, ', '.join(rstr(t[0]) for t in terms), ', '.join('true' if t[3] else 'false' for t in terms)))
    return '\n'.join(o) + '\n'


def parser_text(pat):
    return 'enum Token%s { %s }' % (pat[4], ' '.join('%s => %s,' % (rstr(t[0]), t[1]) for t in pat[2]))
