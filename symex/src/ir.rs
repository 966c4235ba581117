//! Textual LLVM IR: just enough of a parser for what rustc emits.
//!
//! Functions are decoded lazily (on first call), so constructs in unreached code do not matter.
//! Anything not understood becomes `Inst::Unsupported`, which is an error only when executed.

use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Float(u32),
    Void,
    Array(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Box<Ty>),
    Meta,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    /// Size in bytes when stored in memory, including tail padding (alloc size).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                let mut al = 1;
                for t in ts {
                    if !packed {
                        off = align_up(off, t.align());
                        al = al.max(t.align());
                    }
                    off += t.size();
                }
                if *packed { off } else { align_up(off, al) }
            }
            Ty::Vector(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Void | Ty::Meta => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
            Ty::Vector(..) => self.size().max(1).next_power_of_two(),
            Ty::Void | Ty::Meta => 1,
        }
    }
    /// Width in bits of a scalar.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
    pub fn field_off(&self, idx: u64) -> (u64, Ty) {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => (idx * t.size(), (**t).clone()),
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                for (i, t) in ts.iter().enumerate() {
                    if !packed {
                        off = align_up(off, t.align());
                    }
                    if i as u64 == idx {
                        return (off, t.clone());
                    }
                    off += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field_off of scalar"),
        }
    }
}

/// Constants as they appear in operands and initialisers.
#[derive(Debug, Clone)]
pub enum Const {
    Int(u128),
    Global(String, i64),
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Splat(Box<Const>),
    /// unsupported constant expression
    Bad(String),
}

#[derive(Debug, Clone)]
pub enum Opnd {
    Reg(u32),
    C(u64),
    K(u32),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cast { ZExt, SExt, Trunc, Same }

#[derive(Debug, Clone)]
pub enum Callee {
    Name(u32), // index into callee-name table
    Op(Opnd),
}

#[derive(Debug, Clone)]
pub enum Inst {
    Bin { op: Bin, ty: Ty, w: u32, dst: u32, a: Opnd, b: Opnd },
    Icmp { p: Pred, ty: Ty, w: u32, dst: u32, a: Opnd, b: Opnd },
    Select { dst: u32, vec: bool, c: Opnd, a: Opnd, b: Opnd, w: u32 },
    Cast { k: Cast, fw: u32, tw: u32, from: Ty, to: Ty, dst: u32, a: Opnd },
    Load { dst: u32, ty: Ty, w: u32, p: Opnd },
    Store { ty: Ty, w: u32, v: Opnd, p: Opnd },
    Gep { dst: u32, base: Opnd, off: i64, idx: Vec<(Opnd, i64, u32)> },
    Alloca { dst: u32, size: u64, align: u64 },
    Call { dst: Option<u32>, callee: Callee, args: Vec<(Ty, Opnd)>, ret: Ty, normal: Option<u32> },
    ExtractValue { dst: u32, a: Opnd, path: Vec<u32> },
    InsertValue { dst: u32, a: Opnd, aty: Ty, v: Opnd, path: Vec<u32> },
    ExtractElement { dst: u32, a: Opnd, i: Opnd },
    InsertElement { dst: u32, a: Opnd, aty: Ty, v: Opnd, i: Opnd },
    Shuffle { dst: u32, aty: Ty, a: Opnd, b: Opnd, mask: Vec<u32> },
    AtomicRmw { dst: u32, op: String, ty: Ty, p: Opnd, v: Opnd },
    CmpXchg { dst: u32, ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    Br { t: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Opnd> },
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Debug, Clone)]
pub struct Phi {
    pub dst: u32,
    /// indexed like `Block::preds`
    pub inc: Vec<(u32, Opnd)>,
}

#[derive(Debug, Clone, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub consts: Vec<(Ty, Const)>,
    pub callees: Vec<String>,
}

#[derive(Debug, Clone)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub align: u64,
    pub constant: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    /// name -> (start of `define` line, end)
    pub funcs: HashMap<String, (usize, usize)>,
    pub func_order: Vec<String>,
    pub aliases: HashMap<String, String>,
    pub declares: Vec<String>,
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    types: &'a HashMap<String, Ty>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    pub fn new(s: &'a [u8], i: usize, types: &'a HashMap<String, Ty>) -> Self {
        P { s, i, types }
    }
    fn ch(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn ws(&mut self) {
        loop {
            while matches!(self.ch(), b' ' | b'\t' | b'\n' | b'\r') {
                self.i += 1;
            }
            if self.ch() == b';' {
                self.eol();
            } else {
                break;
            }
        }
    }
    /// skip blanks on this line only
    fn sp(&mut self) {
        while matches!(self.ch(), b' ' | b'\t') {
            self.i += 1;
        }
    }
    fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let e = (self.i + 80).min(self.s.len());
        Err(format!("{} at: {:?}", m, String::from_utf8_lossy(&self.s[self.i..e])))
    }
    fn eat(&mut self, c: u8) -> bool {
        let sv = self.i;
        self.ws();
        if self.ch() == c {
            self.i += 1;
            true
        } else {
            self.i = sv; // do not run on to the next line
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) { Ok(()) } else { self.err(&format!("expected {:?}", c as char)) }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while matches!(self.ch(), b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.' | b'-' | b'$') {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let sv = self.i; // before the blanks: a failed look must not run on to the next line
        let w = self.word();
        self.i = sv;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    fn expect_word(&mut self, w: &str) -> R<()> {
        if self.eat_word(w) { Ok(()) } else { self.err(&format!("expected {}", w)) }
    }
    fn balanced(&mut self) {
        // at an opening bracket
        let mut depth = 0i32;
        loop {
            match self.ch() {
                b'(' | b'[' | b'{' | b'<' => depth += 1,
                b')' | b']' | b'}' | b'>' => {
                    depth -= 1;
                    if depth == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.ch() != b'"' && self.ch() != 0 {
                        self.i += 1;
                    }
                }
                0 => return,
                _ => {}
            }
            self.i += 1;
        }
    }
    fn ident(&mut self) -> R<String> {
        // after sigil % or @
        if self.ch() == b'"' {
            self.i += 1;
            let st = self.i;
            while self.ch() != b'"' {
                if self.ch() == 0 {
                    return self.err("eof in quoted");
                }
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            Ok(r)
        } else {
            let st = self.i;
            while matches!(self.ch(), b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.' | b'-' | b'$') {
                self.i += 1;
            }
            Ok(String::from_utf8_lossy(&self.s[st..self.i]).to_string())
        }
    }
    fn is_ty_word(w: &str) -> bool {
        matches!(w, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "bfloat" | "label" | "metadata" | "token")
            || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
    }
    fn at_ty(&mut self) -> bool {
        self.ws();
        match self.ch() {
            b'[' | b'{' | b'<' | b'%' => true,
            _ => Self::is_ty_word(self.peek_word()),
        }
    }
    /// Skip attributes and other keywords up to a type.
    fn skip_to_ty(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.at_ty() {
                return Ok(());
            }
            if self.ch() == b'#' || self.ch() == b'"' {
                if self.ch() == b'"' {
                    self.i += 1;
                    self.i -= 1;
                    let _ = self.ident()?;
                } else {
                    self.i += 1;
                    self.word();
                }
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                return self.err("no type");
            }
            if self.ch() == b'(' {
                self.balanced();
            } else if w == "align" || w == "cc" {
                self.word();
            }
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        self.ws();
        let mut t = match self.ch() {
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().map_err(|_| "array len".to_string())?;
                self.expect_word("x")?;
                let t = self.ty()?;
                self.expect(b']')?;
                Ty::Array(n, Box::new(t))
            }
            b'{' => {
                self.i += 1;
                let ts = self.ty_list(b'}')?;
                Ty::Struct(ts, false)
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.ch() == b'{' {
                    self.i += 1;
                    let ts = self.ty_list(b'}')?;
                    self.expect(b'>')?;
                    Ty::Struct(ts, true)
                } else {
                    let n: u64 = self.word().parse().map_err(|_| "vector len".to_string())?;
                    self.expect_word("x")?;
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vector(n, Box::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.ident()?;
                match self.types.get(&n) {
                    Some(t) => t.clone(),
                    None => return Err(format!("unknown type %{}", n)),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.balanced();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "half" | "bfloat" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" | "x86_fp80" => Ty::Float(128),
                    "metadata" | "label" | "token" => Ty::Meta,
                    _ if Self::is_ty_word(w) => Ty::Int(w[1..].parse().unwrap()),
                    _ => return self.err("type"),
                }
            }
        };
        // function type "ty (args)" : only in old-style calls; skip
        self.sp();
        if self.ch() == b'*' {
            self.i += 1;
            t = Ty::Ptr;
        }
        Ok(t)
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        loop {
            if self.eat(end) {
                return Ok(v);
            }
            v.push(self.ty()?);
            if !self.eat(b',') {
                self.expect(end)?;
                return Ok(v);
            }
        }
    }
    fn cstring(&mut self) -> R<Vec<u8>> {
        // at c"
        self.i += 2;
        let mut v = vec![];
        loop {
            match self.ch() {
                b'"' => {
                    self.i += 1;
                    return Ok(v);
                }
                b'\\' => {
                    if self.s[self.i + 1] == b'\\' {
                        v.push(b'\\');
                        self.i += 2;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                        self.i += 3;
                    }
                }
                0 => return self.err("eof in string"),
                c => {
                    v.push(c);
                    self.i += 1;
                }
            }
        }
    }
    pub fn konst(&mut self, ty: &Ty) -> R<Const> {
        self.ws();
        match self.ch() {
            b'@' => {
                self.i += 1;
                Ok(Const::Global(self.ident()?, 0))
            }
            b'c' if self.s[self.i + 1] == b'"' => Ok(Const::Bytes(self.cstring()?)),
            b'[' => {
                self.i += 1;
                Ok(Const::Agg(self.const_list(b']')?))
            }
            b'{' => {
                self.i += 1;
                Ok(Const::Agg(self.const_list(b'}')?))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.ch() == b'{' {
                    self.i += 1;
                    let l = self.const_list(b'}')?;
                    self.expect(b'>')?;
                    Ok(Const::Agg(l))
                } else {
                    Ok(Const::Agg(self.const_list(b'>')?))
                }
            }
            b'0'..=b'9' | b'-' => {
                let w = self.word();
                if matches!(ty, Ty::Float(_)) {
                    if let Some(h) = w.strip_prefix("0x") {
                        if let Ok(v) = u128::from_str_radix(h, 16) {
                            if *ty == Ty::Float(64) {
                                return Ok(Const::Int(v));
                            }
                            if *ty == Ty::Float(32) {
                                let d = f64::from_bits(v as u64) as f32;
                                return Ok(Const::Int(d.to_bits() as u128));
                            }
                        }
                        return Ok(Const::Bad(w.to_string()));
                    }
                    // decimal float, e.g. 1.000000e+00 ('+' not in word())
                    let mut t = w.to_string();
                    if self.ch() == b'+' {
                        self.i += 1;
                        t.push('+');
                        t.push_str(self.word());
                    }
                    return Ok(match (t.parse::<f64>(), ty) {
                        (Ok(d), Ty::Float(64)) => Const::Int(d.to_bits() as u128),
                        (Ok(d), Ty::Float(32)) => Const::Int((d as f32).to_bits() as u128),
                        _ => Const::Bad(t),
                    });
                }
                let v = if let Some(n) = w.strip_prefix('-') {
                    (n.parse::<u128>().map_err(|e| format!("{} {}", e, w))?).wrapping_neg()
                } else {
                    w.parse::<u128>().map_err(|e| format!("{} {}", e, w))?
                };
                let b = ty.bits();
                let v = if b > 0 && b < 128 { v & ((1u128 << b) - 1) } else { v };
                Ok(Const::Int(v))
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Ok(Const::Int(1)),
                    "false" => Ok(Const::Int(0)),
                    "null" | "zeroinitializer" | "none" => Ok(Const::Zero),
                    "undef" | "poison" => Ok(Const::Undef),
                    "splat" => {
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let c = self.konst(&t)?;
                        self.expect(b')')?;
                        Ok(Const::Splat(Box::new(c)))
                    }
                    "getelementptr" => {
                        while self.ch() != b'(' {
                            self.ws();
                            if self.ch() == b'(' {
                                break;
                            }
                            let w = self.word();
                            if w == "inrange" {
                                self.balanced();
                            }
                        }
                        self.expect(b'(')?;
                        let mut t = self.ty()?;
                        self.expect(b',')?;
                        let pt = self.ty()?;
                        let base = self.konst(&pt)?;
                        let mut off = 0i64;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty()?;
                            let k = self.konst(&it)?;
                            let k = match k {
                                Const::Int(v) => sext(v, it.bits()) as i64,
                                Const::Zero => 0,
                                _ => return self.err("gep index"),
                            };
                            if first {
                                off += k * t.size() as i64;
                                first = false;
                            } else {
                                let (o, nt) = match &t {
                                    Ty::Array(_, e) | Ty::Vector(_, e) => (k * e.size() as i64, (**e).clone()),
                                    _ => {
                                        let (o, nt) = t.field_off(k as u64);
                                        (o as i64, nt)
                                    }
                                };
                                off += o;
                                t = nt;
                            }
                        }
                        self.expect(b')')?;
                        Ok(match base {
                            Const::Global(n, o) => Const::Global(n, o + off),
                            Const::Zero => Const::Int(off as u64 as u128),
                            Const::Int(v) => Const::Int((v as u64).wrapping_add(off as u64) as u128),
                            _ => Const::Bad("gep".into()),
                        })
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let c = self.konst(&t)?;
                        self.expect_word("to")?;
                        let _ = self.ty()?;
                        self.expect(b')')?;
                        Ok(c)
                    }
                    "add" | "sub" => {
                        while self.ch() != b'(' {
                            self.ws();
                            if self.ch() == b'(' {
                                break;
                            }
                            self.word();
                        }
                        self.expect(b'(')?;
                        let t1 = self.ty()?;
                        let a = self.konst(&t1)?;
                        self.expect(b',')?;
                        let t2 = self.ty()?;
                        let b = self.konst(&t2)?;
                        self.expect(b')')?;
                        Ok(match (w, a, b) {
                            ("add", Const::Global(n, o), Const::Int(k)) | ("add", Const::Int(k), Const::Global(n, o)) => Const::Global(n, o.wrapping_add(k as i64)),
                            ("sub", Const::Global(n, o), Const::Int(k)) => Const::Global(n, o.wrapping_sub(k as i64)),
                            _ => Const::Bad(w.to_string()),
                        })
                    }
                    _ => {
                        if w.is_empty() {
                            return self.err("constant");
                        }
                        self.ws();
                        if self.ch() == b'(' {
                            self.balanced();
                        }
                        Ok(Const::Bad(w.to_string()))
                    }
                }
            }
        }
    }
    fn const_list(&mut self, end: u8) -> R<Vec<(Ty, Const)>> {
        let mut v = vec![];
        loop {
            if self.eat(end) {
                return Ok(v);
            }
            let t = self.ty()?;
            let c = self.konst(&t)?;
            v.push((t, c));
            if !self.eat(b',') {
                self.expect(end)?;
                return Ok(v);
            }
        }
    }
}

pub fn sext(v: u128, bits: u32) -> i128 {
    if bits == 0 || bits >= 128 {
        return v as i128;
    }
    let s = 128 - bits;
    ((v << s) as i128) >> s
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut m = Module {
            text,
            types: HashMap::new(),
            globals: vec![],
            funcs: HashMap::new(),
            func_order: vec![],
            aliases: HashMap::new(),
            declares: vec![],
        };
        let text = std::mem::take(&mut m.text);
        let mut i = 0;
        let n = text.len();
        let mut glob_pos = vec![];
        let mut type_pos = vec![];
        while i < n {
            let e = text[i..].iter().position(|c| *c == b'\n').map(|p| i + p).unwrap_or(n);
            let line = &text[i..e];
            if line.starts_with(b"define ") {
                // find end
                let mut j = e + 1;
                loop {
                    let e2 = text[j..].iter().position(|c| *c == b'\n').map(|p| j + p).unwrap_or(n);
                    if &text[j..e2] == b"}" {
                        j = e2;
                        break;
                    }
                    if e2 >= n {
                        j = n;
                        break;
                    }
                    j = e2 + 1;
                }
                let at = line.iter().position(|c| *c == b'@').ok_or("define without name")?;
                let empty = HashMap::new();
                let mut p = P::new(line, at + 1, &empty);
                let name = p.ident()?;
                m.funcs.insert(name.clone(), (i, j));
                m.func_order.push(name);
                i = j + 1;
                continue;
            } else if line.starts_with(b"@") {
                glob_pos.push((i, e));
            } else if line.starts_with(b"%") {
                type_pos.push((i, e));
            } else if line.starts_with(b"declare ") {
                if let Some(at) = line.iter().position(|c| *c == b'@') {
                    let empty = HashMap::new();
                    let mut p = P::new(line, at + 1, &empty);
                    m.declares.push(p.ident()?);
                }
            }
            i = e + 1;
        }
        for (s, e) in type_pos {
            let types = m.types.clone();
            let mut p = P::new(&text[s..e], 1, &types);
            let name = p.ident()?;
            p.expect(b'=')?;
            p.expect_word("type")?;
            if p.peek_word() == "opaque" {
                continue;
            }
            let t = p.ty()?;
            m.types.insert(name, t);
        }
        let types = m.types.clone();
        for (s, e) in glob_pos {
            let mut p = P::new(&text[s..e], 1, &types);
            let name = p.ident()?;
            p.expect(b'=')?;
            // linkage etc.
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                p.ws();
                let w = p.word();
                match w {
                    "global" => break,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "alias" | "ifunc" => {
                        alias = true;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    "" => return p.err("global"),
                    _ => {
                        if p.ch() == b'(' {
                            p.balanced();
                        }
                    }
                }
            }
            if alias {
                let _ = p.ty()?;
                p.expect(b',')?;
                let t = p.ty()?;
                if let Const::Global(n, 0) = p.konst(&t)? {
                    m.aliases.insert(name, n);
                }
                continue;
            }
            let ty = p.ty()?;
            let init = if external {
                None
            } else {
                p.sp();
                Some(p.konst(&ty)?)
            };
            let mut align = ty.align();
            let rest = String::from_utf8_lossy(&text[s + p.i..e]).to_string();
            if let Some(k) = rest.find("align ") {
                if let Ok(a) = rest[k + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse::<u64>() {
                    align = align.max(a);
                }
            }
            m.globals.push(Global { name, ty, init, align, constant });
        }
        m.text = text;
        Ok(m)
    }

    pub fn decode(&self, name: &str) -> R<Func> {
        let (s, e) = *self.funcs.get(name).ok_or_else(|| format!("no function {}", name))?;
        let mut d = Dec {
            p: P::new(&self.text[..e], s, &self.types),
            regs: HashMap::new(),
            defined: Default::default(),
            labels: HashMap::new(),
            blocks: vec![],
            consts: vec![],
            callees: vec![],
            callee_ix: HashMap::new(),
        };
        d.func(name).map_err(|e| format!("{}: {}", name, e))
    }
}

struct Dec<'a> {
    p: P<'a>,
    regs: HashMap<String, u32>,
    defined: std::collections::HashSet<u32>,
    labels: HashMap<String, u32>,
    blocks: Vec<Option<Block>>,
    consts: Vec<(Ty, Const)>,
    callees: Vec<String>,
    callee_ix: HashMap<String, u32>,
}

impl<'a> Dec<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn label(&mut self, n: String) -> u32 {
        let l = self.labels.len() as u32;
        let r = *self.labels.entry(n).or_insert(l);
        while self.blocks.len() <= r as usize {
            self.blocks.push(None);
        }
        r
    }
    fn opnd(&mut self, ty: &Ty) -> R<Opnd> {
        self.p.ws();
        if self.p.ch() == b'%' {
            self.p.i += 1;
            let n = self.p.ident()?;
            return Ok(Opnd::Reg(self.reg(n)));
        }
        let c = self.p.konst(ty)?;
        match (&c, ty) {
            (Const::Int(v), Ty::Int(w)) if *w <= 64 => return Ok(Opnd::C(*v as u64)),
            (Const::Int(v), Ty::Ptr) => return Ok(Opnd::C(*v as u64)),
            (Const::Zero | Const::Undef, Ty::Int(w)) if *w <= 64 => return Ok(Opnd::C(0)),
            (Const::Zero | Const::Undef, Ty::Ptr) => return Ok(Opnd::C(0)),
            _ => {}
        }
        self.consts.push((ty.clone(), c));
        Ok(Opnd::K(self.consts.len() as u32 - 1))
    }
    fn ty_opnd(&mut self) -> R<(Ty, Opnd)> {
        let t = self.p.ty()?;
        let o = self.opnd(&t)?;
        Ok((t, o))
    }
    fn label_ref(&mut self) -> R<u32> {
        self.p.expect_word("label")?;
        self.p.expect(b'%')?;
        let n = self.p.ident()?;
        Ok(self.label(n))
    }
    fn skip_flags(&mut self) {
        loop {
            let w = self.p.peek_word();
            match w {
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "samesign" | "nneg" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast"
                | "tail" | "musttail" | "notail" | "volatile" | "atomic" | "weak" => {
                    self.p.word();
                }
                _ => return,
            }
        }
    }
    fn func(&mut self, name: &str) -> R<Func> {
        self.p.expect_word("define")?;
        self.p.skip_to_ty()?;
        let _ret = self.p.ty()?;
        self.p.expect(b'@')?;
        self.p.ident()?;
        self.p.expect(b'(')?;
        let mut params = vec![];
        loop {
            if self.p.eat(b')') {
                break;
            }
            self.p.ws();
            if self.p.ch() == b'.' {
                while self.p.ch() == b'.' {
                    self.p.i += 1;
                }
                continue;
            }
            let _t = self.p.ty()?;
            // attributes until %name
            loop {
                self.p.ws();
                if self.p.ch() == b'%' {
                    break;
                }
                if matches!(self.p.ch(), b',' | b')') {
                    break;
                }
                if self.p.ch() == b'"' {
                    self.p.ident()?;
                    continue;
                }
                if self.p.ch() == b'=' {
                    self.p.i += 1;
                    continue;
                }
                let w = self.p.word();
                if w.is_empty() {
                    return self.p.err("param");
                }
                if self.p.ch() == b'(' {
                    self.p.balanced();
                } else if w == "align" {
                    self.p.word();
                }
            }
            if self.p.ch() == b'%' {
                self.p.i += 1;
                let n = self.p.ident()?;
                let r = self.reg(n);
                self.defined.insert(r);
                params.push(r);
            } else {
                let k = params.len();
                let r = self.reg(k.to_string());
                self.defined.insert(r);
                params.push(r);
            }
            self.p.eat(b',');
        }
        // to the '{' at end of line
        let st = self.p.i;
        self.p.eol();
        if !self.p.s[st..self.p.i].contains(&b'{') {
            return self.p.err("no body");
        }
        let mut cur: Option<u32> = None;
        let mut block = Block::default();
        let mut first = true;
        loop {
            self.p.ws();
            if self.p.i >= self.p.s.len() || self.p.ch() == b'}' {
                break;
            }
            // label?
            let sv = self.p.i;
            let is_label = {
                let ok = if self.p.ch() == b'"' {
                    self.p.ident().is_ok()
                } else {
                    matches!(self.p.ch(), b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.' | b'-' | b'$') && {
                        self.p.word();
                        true
                    }
                };
                ok && self.p.ch() == b':'
            };
            self.p.i = sv;
            if is_label {
                let n = self.p.ident()?;
                self.p.i += 1; // ':'
                self.p.eol();
                if let Some(c) = cur {
                    self.blocks[c as usize] = Some(std::mem::take(&mut block));
                }
                cur = Some(self.label(n));
                first = false;
                continue;
            }
            if first {
                // unnamed entry block: numbered after params
                let n = params.len().to_string();
                cur = Some(self.label(n));
                first = false;
            }
            let st = self.p.i;
            if let Err(e) = self.inst(&mut block) {
                self.p.i = st;
                self.p.eol();
                let t = String::from_utf8_lossy(&self.p.s[st..self.p.i]).to_string();
                // multi-line remains (switch tables, landingpad clauses) are skipped line by line
                if std::env::var("SYMEX_DEBUG").is_ok() {
                    eprintln!("unsupported in {}: {} :: {}", name, e, t);
                }
                block.insts.push(Inst::Unsupported(format!("{} [{}]", t.trim(), e)));
            }
        }
        if let Some(c) = cur {
            self.blocks[c as usize] = Some(block);
        }
        if self.defined.len() != self.regs.len() {
            return Err(format!("{}: a register is used that no parsed instruction defines", name));
        }
        let mut blocks = vec![];
        for b in self.blocks.drain(..) {
            blocks.push(b.unwrap_or_else(|| Block { phis: vec![], insts: vec![Inst::Unsupported("missing block".into())] }));
        }
        Ok(Func {
            name: name.to_string(),
            params,
            nregs: self.regs.len() as u32,
            blocks,
            consts: std::mem::take(&mut self.consts),
            callees: std::mem::take(&mut self.callees),
        })
    }

    fn inst(&mut self, block: &mut Block) -> R<()> {
        self.p.ws();
        let line_start = self.p.i;
        let mut dst = None;
        if self.p.ch() == b'%' {
            self.p.i += 1;
            let n = self.p.ident()?;
            self.p.expect(b'=')?;
            let r = self.reg(n);
            self.defined.insert(r);
            dst = Some(r);
        }
        let mut w = self.p.word();
        while matches!(w, "tail" | "musttail" | "notail") {
            w = self.p.word();
        }
        let d = dst.unwrap_or(u32::MAX);
        let inst = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let op = match w {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    _ => Bin::Xor,
                };
                self.skip_flags();
                let (ty, a) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let b = self.opnd(&ty)?;
                let w = elem_bits(&ty);
                if w == 0 {
                    return self.p.err("binop type");
                }
                Inst::Bin { op, w, ty, dst: d, a, b }
            }
            "icmp" => {
                self.skip_flags();
                let p = match self.p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return self.p.err("icmp pred"),
                };
                let (ty, a) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let b = self.opnd(&ty)?;
                let w = elem_bits(&ty);
                Inst::Icmp { p, w, ty, dst: d, a, b }
            }
            "select" => {
                self.skip_flags();
                let (ct, c) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let (t, a) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let (_, b) = self.ty_opnd()?;
                Inst::Select { dst: d, vec: matches!(ct, Ty::Vector(..)), c, a, b, w: t.bits() }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "freeze" | "addrspacecast" => {
                self.skip_flags();
                let (from, a) = self.ty_opnd()?;
                let to = if w == "freeze" {
                    from.clone()
                } else {
                    self.p.expect_word("to")?;
                    self.p.ty()?
                };
                let k = match w {
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "trunc" => Cast::Trunc,
                    "ptrtoint" | "inttoptr" => {
                        let (f, t) = (from.bits(), to.bits());
                        if f == t {
                            Cast::Same
                        } else if f < t {
                            Cast::ZExt
                        } else {
                            Cast::Trunc
                        }
                    }
                    _ => Cast::Same,
                };
                Inst::Cast { k, fw: elem_bits(&from), tw: elem_bits(&to), from, to, dst: d, a }
            }
            "load" => {
                self.skip_flags();
                let ty = self.p.ty()?;
                self.p.expect(b',')?;
                let (_, p) = self.ty_opnd()?;
                Inst::Load { dst: d, w: ty.bits(), ty, p }
            }
            "store" => {
                self.skip_flags();
                let (ty, v) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let (_, p) = self.ty_opnd()?;
                Inst::Store { w: ty.bits(), ty, v, p }
            }
            "alloca" => {
                let ty = self.p.ty()?;
                let mut align = ty.align();
                let st = self.p.i;
                self.p.eol();
                let rest = String::from_utf8_lossy(&self.p.s[st..self.p.i]).to_string();
                if let Some(k) = rest.find("align ") {
                    align = align.max(rest[k + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(1));
                }
                if rest.trim_start_matches(',').trim_start().starts_with('i') {
                    return self.p.err("variable alloca");
                }
                Inst::Alloca { dst: d, size: ty.size(), align }
            }
            "getelementptr" => {
                self.skip_flags();
                if self.p.peek_word() == "inrange" {
                    self.p.word();
                    self.p.balanced();
                }
                let mut t = self.p.ty()?;
                self.p.expect(b',')?;
                let (pt, base) = self.ty_opnd()?;
                if pt != Ty::Ptr {
                    return self.p.err("vector gep");
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                while self.p.eat(b',') {
                    self.p.ws();
                    if self.p.ch() == b'!' {
                        break;
                    }
                    let (it, o) = self.ty_opnd()?;
                    if first {
                        first = false;
                        let sz = t.size() as i64;
                        match o {
                            Opnd::C(c) => off = off.wrapping_add((sext(c as u128, it.bits()) as i64).wrapping_mul(sz)),
                            o => idx.push((o, sz, it.bits())),
                        }
                        continue;
                    }
                    match (&t, o) {
                        (Ty::Struct(..), Opnd::C(c)) => {
                            let (fo, nt) = t.field_off(c);
                            off += fo as i64;
                            t = nt;
                        }
                        (Ty::Array(_, e) | Ty::Vector(_, e), Opnd::C(c)) => {
                            off = off.wrapping_add((sext(c as u128, it.bits()) as i64).wrapping_mul(e.size() as i64));
                            t = (**e).clone();
                        }
                        (Ty::Array(_, e) | Ty::Vector(_, e), o) => {
                            idx.push((o, e.size() as i64, it.bits()));
                            t = (**e).clone();
                        }
                        _ => return self.p.err("gep"),
                    }
                }
                Inst::Gep { dst: d, base, off, idx }
            }
            "call" | "invoke" => {
                self.skip_flags();
                self.p.skip_to_ty()?;
                let ret = self.p.ty()?;
                self.p.ws();
                if self.p.ch() == b'(' {
                    // function type of a varargs callee
                    self.p.balanced();
                    self.p.ws();
                }
                let callee;
                if self.p.ch() == b'@' {
                    self.p.i += 1;
                    let n = self.p.ident()?;
                    let l = self.callees.len() as u32;
                    let ix = *self.callee_ix.entry(n.clone()).or_insert(l);
                    if ix == l {
                        self.callees.push(n);
                    }
                    callee = Callee::Name(ix);
                } else if self.p.ch() == b'%' {
                    callee = Callee::Op(self.opnd(&Ty::Ptr)?);
                } else if self.p.peek_word() == "asm" {
                    if ret == Ty::Void {
                        self.p.eol();
                        block.insts.push(Inst::Nop);
                        return Ok(());
                    }
                    return self.p.err("inline asm");
                } else {
                    callee = Callee::Op(self.opnd(&Ty::Ptr)?);
                }
                self.p.expect(b'(')?;
                let mut args = vec![];
                loop {
                    if self.p.eat(b')') {
                        break;
                    }
                    let t = self.p.ty()?;
                    if t == Ty::Meta {
                        // skip to , or ) at depth 0
                        let mut depth = 0;
                        loop {
                            match self.p.ch() {
                                b'(' | b'{' | b'[' => depth += 1,
                                b')' if depth == 0 => break,
                                b')' | b'}' | b']' => depth -= 1,
                                b',' if depth == 0 => break,
                                0 => break,
                                _ => {}
                            }
                            self.p.i += 1;
                        }
                        self.p.eat(b',');
                        continue;
                    }
                    // attributes
                    loop {
                        self.p.ws();
                        let c = self.p.ch();
                        if matches!(c, b'%' | b'@' | b'-' | b'0'..=b'9' | b'{' | b'[' | b'<') || (c == b'c' && self.p.s[self.p.i + 1] == b'"') {
                            break;
                        }
                        if c == b'"' {
                            self.p.ident()?;
                            continue;
                        }
                        if c == b'=' {
                            self.p.i += 1;
                            continue;
                        }
                        let w = self.p.peek_word();
                        if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "none" | "trunc" | "add" | "sub") {
                            break;
                        }
                        if w.is_empty() {
                            return self.p.err("call arg");
                        }
                        self.p.word();
                        if self.p.ch() == b'(' {
                            self.p.balanced();
                        } else if w == "align" {
                            self.p.word();
                        }
                    }
                    let o = self.opnd(&t)?;
                    args.push((t, o));
                    self.p.eat(b',');
                }
                let mut normal = None;
                if w == "invoke" {
                    loop {
                        self.p.ws();
                        if self.p.peek_word() == "to" {
                            break;
                        }
                        if matches!(self.p.ch(), b'[' | b'(') {
                            self.p.balanced();
                            continue;
                        }
                        if self.p.ch() == b'#' {
                            self.p.i += 1;
                            continue;
                        }
                        if self.p.ch() == b'"' {
                            self.p.ident()?;
                            continue;
                        }
                        if self.p.word().is_empty() {
                            return self.p.err("invoke");
                        }
                    }
                    self.p.expect_word("to")?;
                    normal = Some(self.label_ref()?);
                    self.p.expect_word("unwind")?;
                    let _ = self.label_ref()?;
                }
                Inst::Call { dst: if ret == Ty::Void { None } else { dst }, callee, args, ret, normal }
            }
            "extractvalue" => {
                let (_, a) = self.ty_opnd()?;
                let mut path = vec![];
                while self.p.eat(b',') {
                    self.p.ws();
                    if self.p.ch() == b'!' {
                        break;
                    }
                    path.push(self.p.word().parse().map_err(|_| "index".to_string())?);
                }
                Inst::ExtractValue { dst: d, a, path }
            }
            "insertvalue" => {
                let (aty, a) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let (_, v) = self.ty_opnd()?;
                let mut path = vec![];
                while self.p.eat(b',') {
                    self.p.ws();
                    if self.p.ch() == b'!' {
                        break;
                    }
                    path.push(self.p.word().parse().map_err(|_| "index".to_string())?);
                }
                Inst::InsertValue { dst: d, a, aty, v, path }
            }
            "extractelement" => {
                let (_, a) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let (_, i) = self.ty_opnd()?;
                Inst::ExtractElement { dst: d, a, i }
            }
            "insertelement" => {
                let (aty, a) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let (_, v) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let (_, i) = self.ty_opnd()?;
                Inst::InsertElement { dst: d, a, aty, v, i }
            }
            "shufflevector" => {
                let (aty, a) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let (_, b) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let mt = self.p.ty()?;
                let n = match mt {
                    Ty::Vector(n, _) => n,
                    _ => return self.p.err("mask"),
                };
                let m = self.p.konst(&mt)?;
                let mask = match m {
                    Const::Zero | Const::Undef => vec![0; n as usize],
                    Const::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(k) => *k as u32,
                            _ => 0,
                        })
                        .collect(),
                    Const::Splat(c) => match *c {
                        Const::Int(k) => vec![k as u32; n as usize],
                        _ => vec![0; n as usize],
                    },
                    _ => return self.p.err("mask"),
                };
                Inst::Shuffle { dst: d, aty, a, b, mask }
            }
            "atomicrmw" => {
                self.skip_flags();
                let op = self.p.word().to_string();
                let (_, p) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let (ty, v) = self.ty_opnd()?;
                Inst::AtomicRmw { dst: d, op, ty, p, v }
            }
            "cmpxchg" => {
                self.skip_flags();
                let (_, p) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let (ty, c) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let (_, n) = self.ty_opnd()?;
                Inst::CmpXchg { dst: d, ty, p, c, n }
            }
            "fence" => Inst::Nop,
            "phi" => {
                self.skip_flags();
                let ty = self.p.ty()?;
                let mut inc = vec![];
                loop {
                    self.p.expect(b'[')?;
                    let o = self.opnd(&ty)?;
                    self.p.expect(b',')?;
                    self.p.expect(b'%')?;
                    let n = self.p.ident()?;
                    let l = self.label(n);
                    self.p.expect(b']')?;
                    inc.push((l, o));
                    self.p.sp();
                    if self.p.ch() == b',' {
                        self.p.i += 1;
                        self.p.sp();
                        if self.p.ch() == b'!' {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                self.p.eol();
                block.phis.push(Phi { dst: d, inc });
                return Ok(());
            }
            "br" => {
                self.p.ws();
                if self.p.peek_word() == "label" {
                    let t = self.label_ref()?;
                    Inst::Br { t }
                } else {
                    let (_, c) = self.ty_opnd()?;
                    self.p.expect(b',')?;
                    let t = self.label_ref()?;
                    self.p.expect(b',')?;
                    let f = self.label_ref()?;
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.ty_opnd()?;
                self.p.expect(b',')?;
                let def = self.label_ref()?;
                self.p.expect(b'[')?;
                let mut cases = vec![];
                loop {
                    if self.p.eat(b']') {
                        break;
                    }
                    let (_, k) = self.ty_opnd()?;
                    self.p.expect(b',')?;
                    let l = self.label_ref()?;
                    match k {
                        Opnd::C(c) => cases.push((c, l)),
                        _ => return self.p.err("wide switch"),
                    }
                }
                Inst::Switch { w: ty.bits(), v, def, cases }
            }
            "ret" => {
                let t = self.p.ty()?;
                if t == Ty::Void {
                    Inst::Ret { v: None }
                } else {
                    let o = self.opnd(&t)?;
                    Inst::Ret { v: Some(o) }
                }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" | "resume" | "cleanupret" | "catchswitch" => {
                // never executed (panics end the path); skip clauses on the following lines
                self.p.eol();
                loop {
                    let sv = self.p.i;
                    self.p.ws();
                    if matches!(self.p.peek_word(), "cleanup" | "catch" | "filter") {
                        self.p.eol();
                    } else {
                        self.p.i = sv;
                        break;
                    }
                }
                Inst::Unsupported(w.to_string())
            }
            _ => return self.p.err(&format!("instruction {}", w)),
        };
        block.insts.push(inst);
        if !matches!(w, "switch" | "landingpad" | "invoke" | "callbr") && self.p.s[line_start..self.p.i].contains(&b'\n') {
            block.insts.pop();
            return self.p.err("the parser ran past the instruction");
        }
        self.p.eol();
        Ok(())
    }
}

pub fn elem_bits(t: &Ty) -> u32 {
    match t {
        Ty::Vector(_, e) => e.bits(),
        t => t.bits(),
    }
}
