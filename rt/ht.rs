//! Token sequences: building, listing, reading them independently of the front end; expanding them.
#![allow(dead_code)]

use proc_macro2::*;
use quote::ToTokens;
use syn::parse::{ParseStream, Parser as _};

// ---------------------------------------------------------------- building token sequences

pub type Ts = Vec<TokenTree>;

pub fn id(s: &str) -> TokenTree {
    TokenTree::Ident(Ident::new(s, Span::call_site()))
}
pub fn p(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Alone))
}
pub fn pj(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Joint))
}
pub fn lit(s: &str) -> TokenTree {
    TokenTree::Literal(Literal::string(s))
}
pub fn grp(d: Delimiter, v: Ts) -> TokenTree {
    TokenTree::Group(Group::new(d, v.into_iter().collect()))
}
pub fn brace(v: Ts) -> TokenTree {
    grp(Delimiter::Brace, v)
}
pub fn paren(v: Ts) -> TokenTree {
    grp(Delimiter::Parenthesis, v)
}
pub fn arrow(v: &mut Ts) {
    v.push(pj('='));
    v.push(p('>'));
}
pub fn stream(v: &[TokenTree]) -> TokenStream {
    v.iter().cloned().collect()
}
/// Blank separated tokens; { } ( ) nest; 'x' lifetimes and "x" strings (no blanks inside).
pub fn text(s: &str) -> Ts {
    let mut stack: Vec<Ts> = vec![vec![]];
    for w in s.split(' ') {
        let b = w.as_bytes();
        if b.is_empty() {
            continue;
        }
        match b[0] {
            b'{' | b'(' | b'[' => stack.push(vec![]),
            b'}' | b')' | b']' => {
                let v = stack.pop().unwrap();
                let d = match b[0] {
                    b'}' => Delimiter::Brace,
                    b')' => Delimiter::Parenthesis,
                    _ => Delimiter::Bracket,
                };
                stack.last_mut().unwrap().push(grp(d, v));
            }
            b'"' => stack.last_mut().unwrap().push(lit(&w[1..w.len() - 1])),
            b'\'' if b.len() > 1 => {
                stack.last_mut().unwrap().push(pj('\''));
                stack.last_mut().unwrap().push(id(&w[1..]));
            }
            b'0'..=b'9' => stack.last_mut().unwrap().push(TokenTree::Literal(Literal::u32_unsuffixed((b[0] - b'0') as u32))),
            c if c == b'_' || (c as char).is_ascii_alphabetic() => stack.last_mut().unwrap().push(id(w)),
            _ => {
                for (k, c) in w.chars().enumerate() {
                    let t = if k + 1 < b.len() { pj(c) } else { p(c) };
                    stack.last_mut().unwrap().push(t);
                }
            }
        }
    }
    stack.pop().unwrap()
}

// ---------------------------------------------------------------- what was read

/// A description of a grammar text: a list of marks.
#[derive(Clone)]
pub enum Ev {
    Tag(u8),
    Str(String),
}
use Ev::*;
pub type Evs = Vec<Ev>;

pub fn same(a: &Evs, b: &Evs) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for (x, y) in a.iter().zip(b) {
        let ok = match (x, y) {
            (Tag(m), Tag(n)) => m == n,
            (Str(m), Str(n)) => m == n,
            _ => false,
        };
        if !ok {
            return false;
        }
    }
    true
}

pub fn flat(ts: TokenStream, o: &mut Evs) {
    for t in ts {
        flat1(&t, o);
    }
}
fn flat1(t: &TokenTree, o: &mut Evs) {
    match t {
        TokenTree::Group(g) => {
            // (groups without delimiters only hold together what they contain)
            let k = match g.delimiter() {
                Delimiter::Parenthesis => 240,
                Delimiter::Brace => 241,
                Delimiter::Bracket => 242,
                Delimiter::None => 0,
            };
            if k != 0 {
                o.push(Tag(k));
            }
            flat(g.stream(), o);
            if k != 0 {
                o.push(Tag(249));
            }
        }
        TokenTree::Punct(c) => {
            o.push(Tag(200));
            o.push(Str(c.as_char().to_string()));
        }
        TokenTree::Ident(i) => {
            o.push(Tag(201));
            o.push(Str(i.to_string()));
        }
        TokenTree::Literal(l) => {
            o.push(Tag(202));
            o.push(Str(l.to_string()));
        }
    }
}
pub fn toks<T: ToTokens>(t: &T, o: &mut Evs) {
    o.push(Tag(230));
    flat(t.to_token_stream(), o);
    o.push(Tag(231));
}

// ---------------------------------------------------------------- the notation, read independently

/// Why there is no reading.
#[derive(Clone, Copy, PartialEq)]
pub enum No {
    /// outside the notation
    Refuse,
    /// nothing is said about this text (separators left out or doubled, patterns that Rust has but the notation does not mention)
    Free,
}
use No::*;
type Rd<T> = Result<T, No>;

const KEYWORDS: [&str; 48] = [
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self",
    "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof",
    "unsized", "virtual", "yield", "_",
];

fn keyword(s: &str) -> bool {
    for k in KEYWORDS {
        if k == s {
            return true;
        }
    }
    false
}

struct Cur<'a> {
    t: &'a [TokenTree],
}

impl<'a> Cur<'a> {
    fn word(&self, w: &str) -> bool {
        match self.t.first() {
            Some(TokenTree::Ident(i)) => i == w,
            _ => false,
        }
    }
    fn at(&self, c: char) -> bool {
        match self.t.first() {
            Some(TokenTree::Punct(q)) => q.as_char() == c,
            _ => false,
        }
    }
    /// two characters written together
    fn at2(&self, c: char, d: char) -> bool {
        match (self.t.first(), self.t.get(1)) {
            (Some(TokenTree::Punct(q)), Some(TokenTree::Punct(r))) => q.as_char() == c && q.spacing() == Spacing::Joint && r.as_char() == d,
            _ => false,
        }
    }
    fn skip(&mut self, n: usize) {
        self.t = &self.t[n..];
    }
    fn take(&mut self, c: char) -> Rd<()> {
        if !self.at(c) {
            return Err(Refuse);
        }
        self.skip(1);
        Ok(())
    }
    fn ident(&mut self) -> Rd<String> {
        match self.t.first() {
            Some(TokenTree::Ident(i)) => {
                let s = i.to_string();
                if keyword(&s) {
                    return Err(Refuse);
                }
                // (a keyword in some editions only)
                if matches!(s.as_str(), "try" | "gen" | "async" | "await" | "dyn" | "proc") {
                    return Err(Free);
                }
                self.skip(1);
                Ok(s)
            }
            _ => Err(Refuse),
        }
    }
    fn group(&mut self, d: Delimiter) -> Option<Ts> {
        match self.t.first() {
            Some(TokenTree::Group(g)) if g.delimiter() == d => {
                let v = g.stream().into_iter().collect();
                self.skip(1);
                Some(v)
            }
            _ => None,
        }
    }
    /// a string literal
    fn string(&mut self) -> Option<String> {
        if let Some(TokenTree::Literal(_)) = self.t.first() {
            let s = syn::parse2::<syn::LitStr>(stream(&self.t[..1]));
            if let Ok(s) = s {
                self.skip(1);
                return Some(s.value());
            }
        }
        None
    }
    /// a Rust type, expression or path: as syn reads it
    fn rust<T: ToTokens + syn::parse::Parse>(&mut self, o: &mut Evs) -> Rd<()> {
        let f = |i: ParseStream| -> syn::Result<(T, TokenStream)> {
            let t: T = i.parse()?;
            let rest: TokenStream = i.parse()?;
            Ok((t, rest))
        };
        match f.parse2(stream(self.t)) {
            Ok((t, rest)) => {
                let mut n = 0;
                for _ in rest {
                    n += 1;
                }
                self.skip(self.t.len() - n);
                toks(&t, o);
                Ok(())
            }
            Err(_) => Err(Refuse),
        }
    }
}

pub fn rd_items(t: &[TokenTree]) -> Rd<Evs> {
    let mut o = vec![];
    let mut c = Cur { t };
    while !c.t.is_empty() {
        if c.word("type") {
            c.skip(1);
            if c.ident()? != "State" {
                return Err(Refuse);
            }
            o.push(Tag(1));
            c.take('=')?;
            c.rust::<syn::Type>(&mut o)?;
            c.take(';')?;
        } else if c.word("enum") {
            c.skip(1);
            o.push(Tag(2));
            o.push(Str(c.ident()?));
            if c.at('<') {
                c.skip(1);
                let mut first = true;
                loop {
                    if c.at('>') {
                        c.skip(1);
                        break;
                    }
                    if !first && !c.at(',') {
                        // two lifetimes side by side, or something else
                        return Err(if c.at('\'') { Free } else { Refuse });
                    }
                    if !first {
                        c.skip(1);
                        if c.at('>') {
                            continue;
                        }
                    }
                    if !c.at('\'') {
                        return Err(Refuse);
                    }
                    // whatever word follows the quote
                    c.skip(1);
                    match c.t.first() {
                        Some(TokenTree::Ident(i)) => {
                            o.push(Tag(3));
                            o.push(Str(i.to_string()));
                            c.skip(1);
                        }
                        _ => return Err(Refuse),
                    }
                    first = false;
                }
            }
            let v = c.group(Delimiter::Brace).ok_or(Refuse)?;
            let mut d = Cur { t: &v };
            while !d.t.is_empty() {
                o.push(Tag(4));
                let s = d.string().ok_or(Refuse)?;
                o.push(Str(s));
                if !d.at2('=', '>') {
                    return Err(Refuse);
                }
                d.skip(2);
                rd_pattern(&mut d, &mut o)?;
                if !d.t.is_empty() {
                    d.take(',')?;
                }
            }
        } else {
            let public = c.word("pub");
            if public {
                c.skip(1);
            }
            o.push(Tag(if public { 5 } else { 6 }));
            o.push(Str(c.ident()?));
            c.take(':')?;
            c.rust::<syn::Type>(&mut o)?;
            c.take('=')?;
            if let Some(v) = c.group(Delimiter::Brace) {
                let mut d = Cur { t: &v };
                while !d.t.is_empty() {
                    rd_production(&mut d, &mut o)?;
                    if !d.t.is_empty() {
                        if !d.at(',') {
                            return Err(Free);
                        }
                        d.skip(1);
                    }
                }
                c.take(';')?;
            } else {
                rd_production(&mut c, &mut o)?;
                c.take(',')?;
            }
        }
    }
    Ok(o)
}

fn rd_production(c: &mut Cur, o: &mut Evs) -> Rd<()> {
    o.push(Tag(7));
    while !c.at2('=', '>') {
        let s = rd_symbol(c)?;
        o.extend(s);
    }
    c.skip(2);
    if c.at('?') {
        c.skip(1);
        o.push(Tag(9));
    } else {
        o.push(Tag(8));
    }
    c.rust::<syn::Expr>(o)
}

fn rd_symbol(c: &mut Cur) -> Rd<Evs> {
    let mut o = vec![];
    if let Some(s) = c.string() {
        o.push(Tag(30));
        o.push(Str(s));
    } else if c.at('<') {
        c.skip(1);
        let m = c.word("mut");
        if m {
            c.skip(1);
        }
        o.push(Tag(if m { 36 } else { 35 }));
        o.push(Str(c.ident()?));
        c.take(':')?;
        o.extend(rd_symbol(c)?);
        c.take('>')?;
    } else {
        o.push(Tag(31));
        o.push(Str(c.ident()?));
    }
    // operators after it, the last one outermost
    loop {
        let k = if c.at('+') {
            32
        } else if c.at('*') {
            33
        } else if c.at('?') {
            34
        } else {
            return Ok(o);
        };
        c.skip(1);
        o.insert(0, Tag(k));
    }
}

fn rd_patterns(v: &Ts, o: &mut Evs) -> Rd<()> {
    let mut d = Cur { t: v };
    while !d.t.is_empty() {
        rd_pattern(&mut d, o)?;
        if !d.t.is_empty() {
            d.take(',')?;
        }
    }
    o.push(Tag(59));
    Ok(())
}

fn rd_pattern(c: &mut Cur, o: &mut Evs) -> Rd<()> {
    if c.at2('.', '.') {
        // (`..=` and the like are not in the notation)
        if let Some(TokenTree::Punct(q)) = c.t.get(1) {
            if q.spacing() == Spacing::Joint {
                return Err(Free);
            }
        }
        c.skip(2);
        o.push(Tag(55));
        return Ok(());
    }
    if c.word("_") {
        c.skip(1);
        o.push(Tag(54));
        return Ok(());
    }
    match c.t.first() {
        Some(TokenTree::Literal(_)) => {
            o.push(Tag(56));
            o.push(Tag(230));
            flat1(&c.t[0], o);
            o.push(Tag(231));
            c.skip(1);
            return Ok(());
        }
        _ => (),
    }
    if c.word("true") || c.word("false") {
        o.push(Tag(56));
        o.push(Tag(230));
        flat1(&c.t[0], o);
        o.push(Tag(231));
        c.skip(1);
        return Ok(());
    }
    if let Some(v) = c.group(Delimiter::Parenthesis) {
        o.push(Tag(52));
        return rd_patterns(&v, o);
    }
    if c.at('<') {
        c.skip(1);
        o.push(Tag(57));
        c.rust::<syn::Type>(o)?;
        return c.take('>');
    }
    match c.t.first() {
        Some(TokenTree::Ident(i)) => {
            let s = i.to_string();
            if s == "self" || s == "Self" || s == "super" || s == "crate" {
                return Err(Free);
            }
            if keyword(&s) {
                return Err(Refuse);
            }
        }
        Some(TokenTree::Punct(q)) => {
            let ch = q.as_char();
            return Err(if ch == '-' || ch == ':' || ch == '&' { Free } else { Refuse });
        }
        _ => return Err(Refuse),
    }
    let mut path = vec![];
    c.rust::<syn::ExprPath>(&mut path)?;
    if let Some(v) = c.group(Delimiter::Parenthesis) {
        o.push(Tag(50));
        o.extend(path);
        rd_patterns(&v, o)
    } else if let Some(v) = c.group(Delimiter::Brace) {
        o.push(Tag(51));
        o.extend(path);
        let mut d = Cur { t: &v };
        let mut dots = false;
        let mut sep = true;
        while !d.t.is_empty() {
            if d.at2('.', '.') {
                if !sep {
                    return Err(Free);
                }
                d.skip(2);
                dots = true;
                if !d.t.is_empty() {
                    return Err(Refuse);
                }
            } else {
                if !sep {
                    return Err(Refuse);
                }
                o.push(Tag(60));
                o.push(Str(d.ident()?));
                d.take(':')?;
                rd_pattern(&mut d, o)?;
                sep = d.at(',');
                if sep {
                    d.skip(1);
                }
            }
        }
        o.push(Tag(if dots { 61 } else { 62 }));
        o.push(Tag(59));
        Ok(())
    } else {
        o.push(Tag(53));
        o.extend(path);
        Ok(())
    }
}

// ---------------------------------------------------------------- the whole macro

pub fn rejected() -> bool {
    unsafe { crate::HB_REJECTED }
}

/// many times what an expansion of what is explored takes
const BUDGET: u64 = 500_000_000;

pub fn expand(t: &Ts) -> Evs {
    let mut o = vec![];
    crate::hs::must_end(BUDGET);
    let e = crate::parser(stream(t));
    crate::hs::must_end(0);
    flat(e, &mut o);
    o
}

