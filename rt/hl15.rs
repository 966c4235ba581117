//! The front end (C15): free, edited and well-formed token sequences.
#![allow(dead_code)]

use crate::hj::*;
use crate::hs::{assume, below, check, conc, cover, observe, panic_mode};
use crate::ht::*;
use proc_macro2::*;

/// One of the characters, undecided.
fn punct(set: &[u8], k: u32) -> TokenTree {
    let i = below(set.len() as u32, k) as usize;
    p(set[i] as char)
}
/// One of the words (of equal length), undecided.
fn word(set: &[[u8; 3]], k: u32) -> TokenTree {
    let i = below(set.len() as u32, k) as usize;
    let w = set[i];
    id(core::str::from_utf8(&w).unwrap_or("foo"))
}

/// A free token of the context.
fn token(ctx: u32, k: u32, v: &mut Ts) {
    match ctx {
        // productions
        1 => match conc(below(4, k)) {
            0 => v.push(punct(b"<>:+*?,=", k + 1)),
            1 => v.push(word(&[*b"foo", *b"mut", *b"let"], k + 1)),
            2 => arrow(v),
            _ => v.push(lit("a")),
        },
        // items
        2 => match conc(below(5, k)) {
            0 => v.push(punct(b":=;,<", k + 1)),
            1 => v.push(word(&[*b"foo", *b"pub", *b"u32", *b"dyn"], k + 1)),
            2 => arrow(v),
            3 => v.push(brace(text("\"a\" => foo ,"))),
            _ => v.push(lit("a")),
        },
        // between `enum Token` and its braces
        3 => match conc(below(4, k)) {
            0 => v.push(punct(b"<>,:", k + 1)),
            1 => {
                v.push(pj('\''));
                v.push(word(&[*b"foo", *b"bar", *b"let"], k + 1))
            }
            2 => v.push(word(&[*b"foo", *b"mut"], k + 1)),
            _ => v.push(brace(vec![])),
        },
        // a pattern
        _ => match conc(below(9, k)) {
            0 => v.push(punct(b"<>,:=", k + 1)),
            1 => v.push(word(&[*b"foo", *b"mut", *b"bar"], k + 1)),
            2 => {
                v.push(pj(':'));
                v.push(p(':'))
            }
            3 => {
                v.push(pj('.'));
                v.push(p('.'))
            }
            4 => v.push(id("_")),
            5 => v.push(lit("a")),
            6 => v.push(TokenTree::Literal(Literal::u32_unsuffixed(7))),
            x => {
                let mut w = vec![];
                if ctx < 20 {
                    let n = conc(below(if ctx == 5 { 4 } else { 3 }, k + 2));
                    for j in 0..n {
                        token(20, k + 100 * (j + 1), &mut w);
                    }
                }
                v.push(if x == 7 { paren(w) } else { brace(w) })
            }
        },
    }
}

/// n free tokens inside a fixed frame
#[no_mangle]
pub extern "C" fn c_free(ctx: u32, n: u32) {
    let mut v = vec![];
    for k in 0..n {
        token(ctx, 1000 * (k + 1), &mut v);
    }
    let t = match ctx {
        1 => {
            let mut t = text("S : u32 =");
            t.push(brace(v));
            t.push(p(';'));
            t
        }
        2 => v,
        3 => {
            let mut t = text("enum Token");
            t.extend(v);
            t.extend(text("{ \"a\" => A }"));
            t
        }
        _ => {
            let mut w = text("\"a\" =>");
            w.extend(v);
            let mut t = text("enum Token");
            t.push(brace(w));
            t
        }
    };
    judge(&t);
}

const BASES: [&str; 6] = [
    "enum Token < 'a , 'b > { \"a\" => Token :: A , \"b\" => Token :: B ( < u32 > , _ ) , } pub S : u32 = { < x : \"a\" > T => x , => { 1 } , } ; T : ( ) = < mut y : \"b\" > => f ( y ) ,",
    "type State = Vec < u32 > ; enum Token { \"a\" => X :: Y { f : ( _ , < & 'a str > ) , g : Q , .. } , \"b\" => ( A , .. ) } pub S : Vec < Vec < u8 > > = { \"a\" + * ? S ? => ? a + b , } ;",
    "pub A : u32 = < x : < y : B * > > => match x { _ => 1 } , B : Box < dyn Fn ( u32 ) > = { } ; pub C : [ u8 ; 4 ] = { => x } ;",
    "enum T { } type State = ( ) ; S : & 'x str = { < mut a : \"+\" > < b : S > \"*\" => | | a + b , \"(\" < x : S > \")\" => x , } ;",
    "enum Tok < 'input > { \"n\" => Tok :: Num ( < u64 > ) , \"s\" => Tok :: Str ( < & 'input str > ) , \"1\" => Tok :: Lit ( 1 ) , \"_\" => _ , } pub Main : ( ) = \"n\" \"s\" => ( ) , pub Other : u64 = { < a : \"n\" > => a , } ;",
    "S : X :: Y = => X { a : 1 } , T : u8 = { \"x\" => { let y = 1 ; y } , \"y\" => if a { b } else { c } , } ;",
];

/// Number of places in a token sequence: before every token, nested ones included, and at the ends.
fn places(v: &Ts) -> u32 {
    let mut n = 1;
    for t in v {
        n += 1;
        if let TokenTree::Group(g) = t {
            n += places(&g.stream().into_iter().collect());
        }
    }
    n
}

/// The sequence with an edit at place k (counted as `places` does); op 0 leave the token out, 1 twice, 2 swap with the next,
/// 3 in its place another, 4 another before it, 5 end here
fn edit(v: &Ts, k: &mut i64, op: u32, with: &Ts) -> Ts {
    let mut o = vec![];
    let mut skip = false;
    let mut i = 0;
    while i < v.len() {
        let t = &v[i];
        *k -= 1;
        if *k == -1 {
            match op {
                0 => (),
                1 => {
                    o.push(t.clone());
                    o.push(t.clone());
                }
                2 => {
                    if i + 1 < v.len() {
                        o.push(v[i + 1].clone());
                        o.push(t.clone());
                        i += 1;
                    } else {
                        o.push(t.clone());
                    }
                }
                3 => o.extend(with.iter().cloned()),
                4 => {
                    o.extend(with.iter().cloned());
                    o.push(t.clone());
                }
                _ => {
                    skip = true;
                }
            }
            if skip {
                return o;
            }
            i += 1;
            continue;
        }
        match t {
            TokenTree::Group(g) if *k >= 0 => {
                let w = edit(&g.stream().into_iter().collect(), k, op, with);
                o.push(grp(g.delimiter(), w));
            }
            _ => o.push(t.clone()),
        }
        i += 1;
    }
    *k -= 1;
    if *k == -1 && (op == 4 || op == 3) {
        o.extend(with.iter().cloned());
    }
    o
}

/// a fixed text with one edit at any place
#[no_mangle]
pub extern "C" fn c_edit(base: u32, op: u32, from: u32, to: u32) {
    let v = text(BASES[base as usize]);
    let n = places(&v);
    let to = if to < n { to } else { n };
    if from >= to {
        return;
    }
    let k = from + conc(below(to - from, 1));
    let mut with = vec![];
    if op == 3 || op == 4 {
        match conc(below(5, 2)) {
            0 => with.push(punct(b":=;,<>+*?.", 3)),
            1 => with.push(word(&[*b"foo", *b"pub", *b"mut", *b"dyn"], 3)),
            2 => arrow(&mut with),
            3 => with.push(brace(vec![])),
            _ => with.push(lit("a")),
        }
    }
    let mut k = k as i64;
    let w = edit(&v, &mut k, op, &with);
    judge(&w);
}

/// a fixed text as it is
#[no_mangle]
pub extern "C" fn c_text(base: u32) {
    let v = text(BASES[base as usize]);
    let w = rd_items(&v);
    check(w.is_ok(), 159);
    judge(&v);
}

fn words(all: &[&str], k: u32) -> Ts {
    text(all[conc(below(all.len() as u32, k)) as usize])
}

/// A well-formed symbol.
fn gen_symbol(depth: u32, k: u32, v: &mut Ts) {
    match conc(below(if depth > 0 { 3 } else { 2 }, k)) {
        0 => v.push(lit("a")),
        1 => v.push(word(&[*b"foo", *b"bar"], k + 1)),
        _ => {
            v.push(p('<'));
            if conc(below(2, k + 2)) == 1 {
                v.push(id("mut"));
            }
            v.push(word(&[*b"one", *b"two"], k + 3));
            v.push(p(':'));
            gen_symbol(depth - 1, k + 100, v);
            v.push(p('>'));
        }
    }
    if conc(below(2, k + 4)) == 1 {
        v.push(punct(b"+*?", k + 5));
        if depth > 1 && conc(below(2, k + 6)) == 1 {
            v.push(punct(b"+*?", k + 7));
        }
    }
}

const ACTIONS: [&str; 7] = ["x", "{ 1 }", "f ( a , b )", "A { b : 2 , .. c }", "match x { 0 => a , _ => { b } }", "< u32 > :: f :: < T > ( x )", "| a , b | a < b"];

/// well-formed productions: np of them with up to ns symbols
#[no_mangle]
pub extern "C" fn c_prods(np: u32, ns: u32, depth: u32, acts: u32) {
    let single = np == 0;
    let mut body = vec![];
    let np = if single { 1 } else { np };
    for q in 0..np {
        let b = 10000 * (q + 1);
        let n = conc(below(ns + 1, b));
        for s in 0..n {
            gen_symbol(depth, b + 1000 * (s + 1), &mut body);
        }
        arrow(&mut body);
        if acts > 1 && conc(below(2, b + 1)) == 1 {
            body.push(p('?'));
        }
        body.extend(text(ACTIONS[conc(below(acts, b + 2)) as usize]));
        if q + 1 < np || single || conc(below(2, b + 3)) == 1 {
            body.push(p(','));
        }
    }
    let mut t = text(if conc(below(2, 5)) == 1 { "pub S : u32 =" } else { "S : u32 =" });
    if single {
        t.extend(body);
    } else {
        t.push(brace(body));
        t.push(p(';'));
    }
    t.extend(text("T : u8 = => 1 ,"));
    judge_ok(&t);
}

/// a well-formed text
fn judge_ok(t: &Ts) {
    panic_mode(0);
    let w = rd_items(t);
    check(w.is_ok(), 159);
    judge(t);
}

const TYPES: [&str; 9] = ["u32", "( )", "Vec < Vec < u8 > >", "& 'a str", "( A , B )", "[ u8 ; 4 ]", "Box < dyn Fn ( u32 ) -> u8 >", "a :: B < 'x , C >", "fn ( A ) -> B"];

/// sequences of items: n of them, every kind, with the types
#[no_mangle]
pub extern "C" fn c_items(n: u32, types: u32) {
    let mut t = vec![];
    for i in 0..n {
        let b = 1000 * (i + 1);
        let kind = conc(below(5, b));
        let ty = if kind == 1 { vec![] } else { text(TYPES[conc(below(types, b + 1)) as usize]) };
        match kind {
            0 => {
                t.extend(text("type State ="));
                t.extend(ty);
                t.push(p(';'));
            }
            1 => {
                t.push(id("enum"));
                t.push(word(&[*b"Tok", *b"Xyz"], b + 2));
                t.extend(words(&["", "< >", "< 'a >", "< 'a , 'b >", "< 'a , >"], b + 3));
                t.extend(words(&["{ }", "{ \"a\" => A }", "{ \"a\" => A , \"b\" => _ , }", "{ \"b\" => ( .. ) , \"a\" => 1 }"], b + 4));
            }
            k => {
                if k % 2 == 1 {
                    t.push(id("pub"));
                }
                t.push(word(&[*b"foo", *b"Bar"], b + 2));
                t.push(p(':'));
                t.extend(ty);
                t.push(p('='));
                if conc(below(2, b + 3)) == 1 {
                    t.extend(text("\"a\" => x ,"));
                } else {
                    t.extend(words(&["{ } ;", "{ => x } ;", "{ => x , \"a\" => y , } ;"], b + 4));
                }
            }
        }
    }
    judge_ok(&t);
}

/// A well-formed pattern.
fn gen_pattern(depth: u32, width: u32, k: u32, v: &mut Ts) {
    let c = conc(below(if depth > 0 { 9 } else { 5 }, k));
    match c {
        0 => v.push(id("_")),
        1 => v.push(match conc(below(4, k + 1)) {
            0 => lit("a"),
            1 => TokenTree::Literal(Literal::character('x')),
            2 => TokenTree::Literal(Literal::u32_unsuffixed(7)),
            _ => id("true"),
        }),
        2 => {
            v.push(p('<'));
            v.extend(words(&["u32", "& 'a str", "Vec < Vec < u8 > >"], k + 1));
            v.push(p('>'));
        }
        3 => {
            v.push(pj('.'));
            v.push(p('.'));
        }
        4 => v.extend(words(&["A", "a :: B", "a :: < u8 > :: B"], k + 1)),
        5 | 6 => {
            let mut w = vec![];
            if c == 6 {
                v.extend(words(&["A", "a :: B"], k + 1));
            }
            let n = conc(below(width + 1, k + 2));
            for i in 0..n {
                gen_pattern(depth - 1, width, k + 20 * (i + 1) * (1 + 9 * depth), &mut w);
                if i + 1 < n || conc(below(2, k + 3)) == 1 {
                    w.push(p(','));
                }
            }
            v.push(paren(w));
        }
        _ => {
            v.push(word(&[*b"Foo", *b"Bar"], k + 1));
            let mut w = vec![];
            let n = conc(below(width + 1, k + 2));
            for i in 0..n {
                w.push(word(&[*b"one", *b"two"], k + 4 + i));
                w.push(p(':'));
                gen_pattern(depth - 1, width, k + 20 * (i + 1) * (1 + 9 * depth), &mut w);
                if i + 1 < n || c == 8 || conc(below(2, k + 3)) == 1 {
                    w.push(p(','));
                }
            }
            if c == 8 {
                w.push(pj('.'));
                w.push(p('.'));
            }
            v.push(brace(w));
        }
    }
}

/// well-formed patterns
#[no_mangle]
pub extern "C" fn c_pats(n: u32, depth: u32, width: u32) {
    let mut w = vec![];
    for i in 0..n {
        w.push(lit(if i == 0 { "a" } else { "b" }));
        arrow(&mut w);
        gen_pattern(depth, width, 10000 * (i + 1), &mut w);
        if i + 1 < n || conc(below(2, 1)) == 1 {
            w.push(p(','));
        }
    }
    let mut t = text("enum Token");
    t.push(brace(w));
    judge_ok(&t);
}

fn letters(n: u32, k: u32, upper: bool) -> String {
    let mut b = vec![];
    for i in 0..n {
        b.push(if upper && i == 0 { b'A' } else { b'a' } + below(26, k + i) as u8);
    }
    unsafe { String::from_utf8_unchecked(b) }
}

/// any word of n letters at one of the places a name stands
#[no_mangle]
pub extern "C" fn c_word(place: u32, n: u32, upper: u32) {
    let w = id(&letters(n, 10, upper == 1));
    let src = match place {
        0 => "W : u32 = { => x , } ;",
        1 => "pub W : u32 = => x ,",
        2 => "S : u32 = { W => x , \"a\" W => y } ;",
        3 => "S : u32 = { < W : \"a\" > => x } ;",
        4 => "S : u32 = { < mut W : A + > => x } ;",
        5 => "enum W { \"a\" => A }",
        6 => "enum T < 'W > { \"a\" => A }",
        7 => "type W = u32 ;",
        8 => "enum T { \"a\" => W }",
        9 => "enum T { \"a\" => X { W : _ } }",
        10 => "enum T { \"a\" => W ( _ ) }",
        _ => "W Token = { } ;",
    };
    fn put(v: Ts, w: &TokenTree) -> Ts {
        let mut o = vec![];
        for t in v {
            match &t {
                TokenTree::Ident(i) if i == "W" => o.push(w.clone()),
                TokenTree::Group(g) => o.push(grp(g.delimiter(), put(g.stream().into_iter().collect(), w))),
                _ => o.push(t),
            }
        }
        o
    }
    judge(&put(text(src), &w));
}

/// what may be declared once, and what must be
#[no_mangle]
pub extern "C" fn c_decls(n: u32) {
    let (mut t, mut nts, mut head) = (vec![], vec![], vec![]);
    let (mut e, mut ty) = (0, 0);
    let (en, st) = (text("enum Token { \"a\" => A , \"b\" => B , }"), text("type State = u32 ;"));
    let mut used = [false; 3];
    for i in 0..n {
        match conc(below(5, i)) {
            0 => {
                e += 1;
                t.extend(en.iter().cloned());
                head.splice(0..0, en.iter().cloned());
            }
            1 => {
                ty += 1;
                t.extend(st.iter().cloned());
                head.extend(st.iter().cloned());
            }
            k => {
                let k = k as usize - 2;
                // (nothing is said about a name declared twice)
                assume(!used[k]);
                used[k] = true;
                let x = text(["pub S : u32 = { \"a\" => 1 , } ;", "T : u32 = < x : \"b\" > => 2 ,", "pub R : u32 = { => 3 , \"b\" \"a\" => 4 } ;"][k]);
                t.extend(x.iter().cloned());
                nts.extend(x);
            }
        }
    }
    let ok = e == 1 && ty <= 1;
    panic_mode(if ok { 0 } else { 1 });
    let o = expand(&t);
    panic_mode(0);
    if rejected() {
        check(!ok, 154);
        return;
    }
    check(ok, 155);
    cover(64);
    // where the other items stand does not matter
    head.extend(nts);
    let q = expand(&head);
    check(!rejected(), 156);
    check(same(&o, &q), 156);
    observe(o.len() as u64);
}

/// Ways to write the same thing: all give the same parser.
#[no_mangle]
pub extern "C" fn c_forms(what: u32) {
    const ENUM: [&str; 3] = ["enum Token < 'a > { \"a\" => Token :: A ( < u8 > ) , \"b\" => B , }", "enum Token < 'a > { \"a\" => Token :: A ( < u8 > ) , \"b\" => B }", "enum Token < 'a , > { \"a\" => Token :: A ( < u8 > , ) , \"b\" => B , }"];
    const S: [&str; 4] = ["pub S : u32 = { < x : \"a\" > T => f ( x , 1 ) , } ;", "pub S : u32 = { < x : \"a\" > T => f ( x , 1 ) } ;", "pub S : u32 = < x : \"a\" > T => f ( x , 1 ) ,", "pub S : u32 = < x : \"a\" > T => f ( x , 1 ) ,"];
    const T: [&str; 2] = ["T : Vec < u8 > = { => A , \"b\" < mut y : T > => { y } , } ;", "T : Vec < u8 > = { => A , \"b\" < mut y : T > => { y } } ;"];
    const ST: [&str; 2] = ["", "type State = u32 ;"];
    panic_mode(0);
    let plain = text("");
    let mut a = plain.clone();
    for x in [ENUM[0], S[0], T[0]] {
        a.extend(text(x));
    }
    let (e, s, t, d) = (conc(below(3, 0)), conc(below(4, 1)), conc(below(2, 2)), conc(below(2, 3)));
    let place = conc(below(3, 4));
    let first = conc(below(2, 5));
    let mut parts = vec![];
    if first == 0 {
        parts = vec![text(S[s as usize]), text(T[t as usize])];
        parts.insert(place as usize, text(ENUM[e as usize]));
    } else {
        parts.push(text(ENUM[e as usize]));
        parts.push(text(S[s as usize]));
        parts.insert(place as usize, text(ST[d as usize]));
        parts.push(text(T[t as usize]));
    }
    let mut b = plain;
    for x in parts {
        b.extend(x);
    }
    let x = expand(&a);
    check(!rejected(), 150);
    let y = expand(&b);
    check(!rejected(), 150);
    check(same(&x, &y), 157);
    cover(65);
    observe(x.len() as u64 + what as u64);
}

/// a terminal is declared and used by any strings of n and m characters: a parser for equal strings only
#[no_mangle]
pub extern "C" fn c_string2(n: u32, m: u32) {
    let s = |n: u32, k: u32| -> String {
        let mut b = vec![];
        for i in 0..n {
            b.push(b' ' + below(95, k + i) as u8);
        }
        unsafe { String::from_utf8_unchecked(b) }
    };
    let (a, b) = (s(n, 10), s(m, 50));
    let mut w = vec![lit(&a)];
    arrow(&mut w);
    w.push(id("A"));
    let mut t = text("enum Token");
    t.push(brace(w));
    t.extend(text("pub S : u32 ="));
    let mut w = vec![lit(&b)];
    arrow(&mut w);
    w.push(id("x"));
    t.push(brace(w));
    t.push(p(';'));
    let eq = crate::hs::is(a == b);
    panic_mode(if eq { 0 } else { 1 });
    let o = expand(&t);
    panic_mode(0);
    check(!rejected() == eq, 158);
    cover(66);
    observe(o.len() as u64);
}
