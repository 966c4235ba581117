//! Hash-consed bit-vector expressions. Widths 1..=128; width-1 values double as booleans.

use crate::ir::{Bin, sext};
use std::collections::HashMap;

pub type Id = u32;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Op {
    Const,
    /// `lo` = variable index
    Var,
    Bin(Bin),
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    /// `lo` = low bit
    Extract,
    ZExt,
    SExt,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub lo: u32,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

pub const NVARW: usize = 8;
pub const MAXVARS: usize = NVARW * 64;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct VarSet(pub [u64; NVARW]);

impl VarSet {
    pub fn one(i: u32) -> VarSet {
        let mut s = VarSet::default();
        s.0[i as usize / 64] |= 1 << (i % 64);
        s
    }
    pub fn or(&self, o: &VarSet) -> VarSet {
        let mut r = *self;
        for i in 0..NVARW {
            r.0[i] |= o.0[i];
        }
        r
    }
    pub fn meets(&self, o: &VarSet) -> bool {
        (0..NVARW).any(|i| self.0[i] & o.0[i] != 0)
    }
    pub fn within(&self, o: &VarSet) -> bool {
        (0..NVARW).all(|i| self.0[i] & !o.0[i] == 0)
    }
    pub fn has(&self, i: u32) -> bool {
        self.0[i as usize / 64] >> (i % 64) & 1 == 1
    }
    pub fn iter(&self) -> Vec<u32> {
        let mut v = vec![];
        for i in 0..NVARW {
            let mut x = self.0[i];
            while x != 0 {
                v.push((i * 64) as u32 + x.trailing_zeros());
                x &= x - 1;
            }
        }
        v
    }
}

#[derive(Clone, Copy)]
pub struct Info {
    pub zeros: u128,
    pub ones: u128,
    pub lo: u128,
    pub hi: u128,
    /// all leaves of a tree of Ite are constants (number of leaves), else 0
    pub leaves: u32,
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    pub sup: Vec<VarSet>,
    ix: HashMap<Node, Id, std::hash::BuildHasherDefault<Fx>>,
    memo: HashMap<(u8, u32, Id, u128), Id, std::hash::BuildHasherDefault<Fx>>,
    pub eval_cache: HashMap<Id, u128, std::hash::BuildHasherDefault<Fx>>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}

pub fn fold(op: Bin, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(
        match op {
            Bin::Add => a.wrapping_add(b),
            Bin::Sub => a.wrapping_sub(b),
            Bin::Mul => a.wrapping_mul(b),
            Bin::UDiv => return if b == 0 { None } else { Some(a / b) },
            Bin::URem => return if b == 0 { None } else { Some(a % b) },
            Bin::SDiv => {
                if b == 0 {
                    return None;
                }
                sext(a, w).wrapping_div(sext(b, w)) as u128
            }
            Bin::SRem => {
                if b == 0 {
                    return None;
                }
                sext(a, w).wrapping_rem(sext(b, w)) as u128
            }
            Bin::Shl => if b >= w as u128 { 0 } else { a << b },
            Bin::LShr => if b >= w as u128 { 0 } else { a >> b },
            Bin::AShr => {
                let s = sext(a, w);
                (if b >= w as u128 { s >> 127 } else { s >> b }) as u128
            }
            Bin::And => a & b,
            Bin::Or => a | b,
            Bin::Xor => a ^ b,
        } & m,
    )
}

const MAXLEAVES: u32 = 600;

impl Exprs {
    pub fn new() -> Self {
        Exprs { nodes: vec![], info: vec![], sup: vec![], ix: Default::default(), memo: Default::default(), eval_cache: Default::default() }
    }
    pub fn w(&self, i: Id) -> u32 {
        self.nodes[i as usize].w
    }
    pub fn is_const(&self, i: Id) -> Option<u128> {
        let n = &self.nodes[i as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    fn mk(&mut self, n: Node) -> Id {
        if let Some(i) = self.ix.get(&n) {
            return *i;
        }
        let info = self.info_of(&n);
        if n.op != Op::Const {
            // fully determined?
            let m = mask(n.w);
            if info.lo == info.hi {
                return self.cst(info.lo, n.w);
            }
            if (info.zeros | info.ones) & m == m {
                return self.cst(info.ones, n.w);
            }
        }
        let mut s = VarSet::default();
        match n.op {
            Op::Const => {}
            Op::Var => s = VarSet::one(n.lo),
            Op::Extract | Op::ZExt | Op::SExt => s = self.sup[n.a as usize],
            Op::Ite => s = self.sup[n.a as usize].or(&self.sup[n.b as usize]).or(&self.sup[n.c as usize]),
            _ => s = self.sup[n.a as usize].or(&self.sup[n.b as usize]),
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.info.push(info);
        self.sup.push(s);
        self.ix.insert(n, id);
        id
    }
    fn info_of(&self, n: &Node) -> Info {
        let m = mask(n.w);
        let mut r = Info { zeros: 0, ones: 0, lo: 0, hi: m, leaves: 0 };
        let g = |i: Id| self.info[i as usize];
        match n.op {
            Op::Const => {
                r = Info { zeros: !n.k & m, ones: n.k, lo: n.k, hi: n.k, leaves: 1 };
            }
            Op::Var => {
                r.hi = n.k;
            }
            Op::Ite => {
                let (b, c) = (g(n.b), g(n.c));
                r.zeros = b.zeros & c.zeros;
                r.ones = b.ones & c.ones;
                r.lo = b.lo.min(c.lo);
                r.hi = b.hi.max(c.hi);
                if b.leaves > 0 && c.leaves > 0 && b.leaves + c.leaves <= MAXLEAVES {
                    r.leaves = b.leaves + c.leaves;
                }
            }
            Op::Concat => {
                let (a, b) = (g(n.a), g(n.b));
                let wb = self.w(n.b);
                r.zeros = (a.zeros << wb) | b.zeros;
                r.ones = (a.ones << wb) | b.ones;
                r.lo = (a.lo << wb) + b.lo;
                r.hi = (a.hi << wb) + b.hi;
            }
            Op::Extract => {
                let a = g(n.a);
                r.zeros = (a.zeros >> n.lo) & m;
                r.ones = (a.ones >> n.lo) & m;
                if a.hi >> n.lo <= m {
                    r.hi = a.hi >> n.lo;
                    r.lo = a.lo >> n.lo;
                }
            }
            Op::ZExt => {
                let a = g(n.a);
                r.zeros = a.zeros | (m & !mask(self.w(n.a)));
                r.ones = a.ones;
                r.lo = a.lo;
                r.hi = a.hi;
            }
            Op::Bin(op) => {
                let (a, b) = (g(n.a), g(n.b));
                match op {
                    Bin::And => {
                        r.zeros = a.zeros | b.zeros;
                        r.ones = a.ones & b.ones;
                        r.hi = a.hi.min(b.hi);
                    }
                    Bin::Or => {
                        r.zeros = a.zeros & b.zeros;
                        r.ones = a.ones | b.ones;
                        r.lo = a.lo.max(b.lo);
                    }
                    Bin::Xor => {
                        r.zeros = (a.zeros & b.zeros) | (a.ones & b.ones);
                        r.ones = (a.zeros & b.ones) | (a.ones & b.zeros);
                    }
                    Bin::Add => {
                        if let Some(h) = a.hi.checked_add(b.hi) {
                            if h <= m {
                                r.hi = h;
                                r.lo = a.lo + b.lo;
                            }
                        }
                    }
                    Bin::Mul => {
                        if let Some(h) = a.hi.checked_mul(b.hi) {
                            if h <= m {
                                r.hi = h;
                                r.lo = a.lo * b.lo;
                            }
                        }
                    }
                    Bin::Sub => {
                        if a.lo >= b.hi {
                            r.lo = a.lo - b.hi;
                            r.hi = a.hi - b.lo;
                        }
                    }
                    Bin::UDiv => {
                        if b.lo > 0 {
                            r.hi = a.hi / b.lo;
                            r.lo = a.lo / b.hi;
                        }
                    }
                    Bin::URem => {
                        if b.lo > 0 {
                            r.hi = a.hi.min(b.hi - 1);
                        }
                    }
                    Bin::LShr => {
                        r.hi = a.hi;
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        // combine
        if n.op != Op::Const {
            r.lo = r.lo.max(r.ones);
            r.hi = r.hi.min(m & !r.zeros);
            // leading zeros from the range
            if r.hi < m {
                let top = 128 - r.hi.leading_zeros();
                r.zeros |= m & !mask(top);
            }
        }
        r
    }
    pub fn cst(&mut self, k: u128, w: u32) -> Id {
        debug_assert!(w >= 1 && w <= 128);
        let n = Node { op: Op::Const, w, lo: 0, a: 0, b: 0, c: 0, k: k & mask(w) };
        self.mk(n)
    }
    /// variable with values 0..=hi
    pub fn var(&mut self, i: u32, w: u32, hi: u128) -> Id {
        self.mk(Node { op: Op::Var, w, lo: i, a: 0, b: 0, c: 0, k: hi })
    }
    fn n2(&mut self, op: Op, w: u32, a: Id, b: Id) -> Id {
        self.mk(Node { op, w, lo: 0, a, b, c: 0, k: 0 })
    }
    /// map a unary function over the constant leaves of an Ite tree
    fn map_leaves(&mut self, tag: (u8, u32), a: Id, k: u128, w: u32, f: &dyn Fn(u128) -> Option<u128>) -> Option<Id> {
        if let Some(c) = self.is_const(a) {
            let v = f(c)?;
            return Some(self.cst(v, w));
        }
        if let Some(r) = self.memo.get(&(tag.0, tag.1 << 8 | w, a, k)) {
            return Some(*r);
        }
        let n = self.nodes[a as usize];
        let x = self.map_leaves(tag, n.b, k, w, f)?;
        let y = self.map_leaves(tag, n.c, k, w, f)?;
        let r = self.ite(n.a, x, y);
        self.memo.insert((tag.0, tag.1 << 8 | w, a, k), r);
        Some(r)
    }
    fn tree(&self, a: Id) -> bool {
        let l = self.info[a as usize].leaves;
        l > 1
    }
    pub fn not(&mut self, a: Id) -> Id {
        debug_assert_eq!(self.w(a), 1);
        let one = self.cst(1, 1);
        self.bin(Bin::Xor, a, one)
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.bin(Bin::And, a, b)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.bin(Bin::Or, a, b)
    }
    pub fn bin(&mut self, op: Bin, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        let (mut a, mut b) = (a, b);
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = fold(op, w, x, y) {
                return self.cst(r, w);
            }
            return self.n2(Op::Bin(op), w, a, b);
        }
        let comm = matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor);
        // constants right; otherwise order by id
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let ca = self.is_const(a);
        let cb = self.is_const(b);
        if let Some(k) = cb {
            if self.tree(a) {
                if let Some(r) = self.map_leaves((op as u8, w), a, k, w, &|x| fold(op, w, x, k)) {
                    return r;
                }
            }
            match op {
                Bin::Add => {
                    if k == 0 {
                        return a;
                    }
                    let n = self.nodes[a as usize];
                    if n.op == Op::Bin(Bin::Add) {
                        if let Some(k2) = self.is_const(n.b) {
                            let c = self.cst(k.wrapping_add(k2), w);
                            return self.bin(Bin::Add, n.a, c);
                        }
                    }
                }
                Bin::Sub => {
                    let c = self.cst(k.wrapping_neg(), w);
                    if k == 0 {
                        return a;
                    }
                    // keep ranges precise: only turn into Add when it cannot matter
                    if self.info[a as usize].lo < k {
                        return self.bin(Bin::Add, a, c);
                    }
                }
                Bin::Mul => {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let c = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Bin::Shl, a, c);
                    }
                }
                Bin::UDiv if k.is_power_of_two() => {
                    let c = self.cst(k.trailing_zeros() as u128, w);
                    return self.bin(Bin::LShr, a, c);
                }
                Bin::URem if k.is_power_of_two() => {
                    let c = self.cst(k - 1, w);
                    return self.bin(Bin::And, a, c);
                }
                Bin::And => {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // bits that may be set
                    let may = m & !self.info[a as usize].zeros;
                    if may & !k == 0 {
                        return a;
                    }
                    let ones = k.trailing_ones();
                    if k == mask(ones) && ones < w {
                        let e = self.extract(a, 0, ones);
                        return self.zext(e, w);
                    }
                }
                Bin::Or => {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                Bin::Xor => {
                    if k == 0 {
                        return a;
                    }
                    let n = self.nodes[a as usize];
                    if n.op == Op::Bin(Bin::Xor) {
                        if let Some(k2) = self.is_const(n.b) {
                            let c = self.cst(k ^ k2, w);
                            return self.bin(Bin::Xor, n.a, c);
                        }
                    }
                }
                Bin::Shl => {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let lowpart = self.extract(a, 0, w - k as u32);
                    let z = self.cst(0, k as u32);
                    return self.concat(lowpart, z);
                }
                Bin::LShr => {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let e = self.extract(a, k as u32, w - k as u32);
                    return self.zext(e, w);
                }
                Bin::AShr => {
                    if k == 0 {
                        return a;
                    }
                    if k < w as u128 {
                        let e = self.extract(a, k as u32, w - k as u32);
                        return self.sext(e, w);
                    }
                }
                _ => {}
            }
        }
        if let Some(k) = ca {
            if self.tree(b) {
                if let Some(r) = self.map_leaves((op as u8 + 32, w), b, k, w, &|x| fold(op, w, k, x)) {
                    return r;
                }
            }
            if k == 0 && matches!(op, Bin::Shl | Bin::LShr | Bin::AShr) {
                return a;
            }
        }
        if a == b {
            match op {
                Bin::And | Bin::Or => return a,
                Bin::Xor | Bin::Sub => return self.cst(0, w),
                _ => {}
            }
        }
        if w == 1 {
            match op {
                Bin::Add | Bin::Sub => return self.bin(Bin::Xor, a, b),
                Bin::Mul => return self.bin(Bin::And, a, b),
                Bin::And | Bin::Or => {
                    // x & !x
                    if self.is_not_of(a, b) {
                        return self.cst((op == Bin::Or) as u128, 1);
                    }
                }
                Bin::Xor => {
                    if self.is_not_of(a, b) {
                        return self.cst(1, 1);
                    }
                }
                _ => {}
            }
        }
        if op == Bin::Or && cb.is_none() {
            // disjoint pieces: (x << k) | zext(y) with y narrower than k  ->  concat
            for (p, q) in [(a, b), (b, a)] {
                let n = self.nodes[p as usize];
                let nq = self.nodes[q as usize];
                if n.op == Op::Concat && nq.op == Op::ZExt {
                    if let Some(0) = self.is_const(n.b) {
                        let lw = self.w(n.b);
                        let qw = self.w(nq.a);
                        if qw <= lw {
                            let lo = self.zext(nq.a, lw);
                            return self.concat(n.a, lo);
                        }
                    }
                }
                if n.op == Op::ZExt {
                    // zext(concat(x, 0_k)) | zext(y)
                    let n2 = self.nodes[n.a as usize];
                    if n2.op == Op::Concat && nq.op == Op::ZExt {
                        if let Some(0) = self.is_const(n2.b) {
                            let lw = self.w(n2.b);
                            let qw = self.w(nq.a);
                            if qw <= lw {
                                let lo = self.zext(nq.a, lw);
                                let c = self.concat(n2.a, lo);
                                return self.zext(c, w);
                            }
                        }
                    }
                }
            }
        }
        self.n2(Op::Bin(op), w, a, b)
    }
    fn is_not_of(&self, a: Id, b: Id) -> bool {
        let f = |x: Id, y: Id| {
            let n = &self.nodes[x as usize];
            n.op == Op::Bin(Bin::Xor) && n.a == y && self.is_const(n.b) == Some(1)
        };
        f(a, b) || f(b, a)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.cst(1, 1);
        }
        let (mut a, mut b) = (a, b);
        if self.is_const(a).is_some() || (self.is_const(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst((x == y) as u128, 1);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi < ib.lo || ib.hi < ia.lo || ia.ones & ib.zeros != 0 || ia.zeros & ib.ones != 0 {
            return self.cst(0, 1);
        }
        if let Some(k) = self.is_const(b) {
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            if self.tree(a) {
                if let Some(r) = self.map_leaves((100, w), a, k, 1, &|x| Some((x == k) as u128)) {
                    return r;
                }
            }
            let n = self.nodes[a as usize];
            match n.op {
                Op::ZExt => {
                    let aw = self.w(n.a);
                    if k & !mask(aw) != 0 {
                        return self.cst(0, 1);
                    }
                    let c = self.cst(k, aw);
                    return self.eq(n.a, c);
                }
                Op::SExt => {
                    let aw = self.w(n.a);
                    if sext(k & mask(aw), aw) as u128 & mask(w) != k {
                        return self.cst(0, 1);
                    }
                    let c = self.cst(k, aw);
                    return self.eq(n.a, c);
                }
                Op::Concat => {
                    let wb = self.w(n.b);
                    let kb = self.cst(k, wb);
                    let ka = self.cst(k >> wb, w - wb);
                    let x = self.eq(n.b, kb);
                    let y = self.eq(n.a, ka);
                    return self.and(x, y);
                }
                Op::Bin(Bin::Add) => {
                    if let Some(k2) = self.is_const(n.b) {
                        let c = self.cst(k.wrapping_sub(k2), w);
                        return self.eq(n.a, c);
                    }
                }
                Op::Bin(Bin::Sub) => {
                    if let Some(k2) = self.is_const(n.b) {
                        let c = self.cst(k.wrapping_add(k2), w);
                        return self.eq(n.a, c);
                    }
                    if k == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Bin(Bin::Xor) => {
                    if let Some(k2) = self.is_const(n.b) {
                        let c = self.cst(k ^ k2, w);
                        return self.eq(n.a, c);
                    }
                    if k == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Ite => {
                    // one side constant and different
                    if let Some(x) = self.is_const(n.b) {
                        let r = self.eq(n.c, b);
                        return if x == k { self.or(n.a, r) } else { let na = self.not(n.a); self.and(na, r) };
                    }
                    if let Some(x) = self.is_const(n.c) {
                        let r = self.eq(n.b, b);
                        return if x == k { let na = self.not(n.a); self.or(na, r) } else { self.and(n.a, r) };
                    }
                }
                _ => {}
            }
        } else if w == 1 {
            let x = self.bin(Bin::Xor, a, b);
            return self.not(x);
        } else {
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
        }
        self.n2(Op::Eq, 1, a, b)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.cst(0, 1);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi < ib.lo {
            return self.cst(1, 1);
        }
        if ia.lo >= ib.hi {
            return self.cst(0, 1);
        }
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        if let Some(k) = kb {
            if k == 1 {
                let z = self.cst(0, w);
                return self.eq(a, z);
            }
            if self.tree(a) {
                if let Some(r) = self.map_leaves((101, w), a, k, 1, &|x| Some((x < k) as u128)) {
                    return r;
                }
            }
            let n = self.nodes[a as usize];
            if n.op == Op::ZExt {
                let aw = self.w(n.a);
                // ranges above guarantee k fits
                if k <= mask(aw) {
                    let c = self.cst(k, aw);
                    return self.ult(n.a, c);
                }
            }
        }
        if let Some(k) = ka {
            if self.tree(b) {
                if let Some(r) = self.map_leaves((102, w), b, k, 1, &|x| Some((k < x) as u128)) {
                    return r;
                }
            }
            if k == 0 {
                let r = self.eq(b, a);
                return self.not(r);
            }
            let n = self.nodes[b as usize];
            if n.op == Op::ZExt {
                let bw = self.w(n.a);
                if k <= mask(bw) {
                    let c = self.cst(k, bw);
                    return self.ult(c, n.a);
                }
            }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        self.n2(Op::Ult, 1, a, b)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.cst(0, 1);
        }
        let half = 1u128 << (w - 1);
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let sign = |i: &Info| if i.hi < half || i.zeros & half != 0 { Some(false) } else if i.lo >= half || i.ones & half != 0 { Some(true) } else { None };
        match (sign(&ia), sign(&ib)) {
            (Some(x), Some(y)) if x == y => return self.ult(a, b),
            (Some(x), Some(_)) => return self.cst(x as u128, 1),
            _ => {}
        }
        if let Some(k) = self.is_const(b) {
            if self.tree(a) {
                if let Some(r) = self.map_leaves((103, w), a, k, 1, &|x| Some((sext(x, w) < sext(k, w)) as u128)) {
                    return r;
                }
            }
            if k == 0 {
                return self.extract(a, w - 1, 1);
            }
        }
        if let Some(k) = self.is_const(a) {
            if self.tree(b) {
                if let Some(r) = self.map_leaves((104, w), b, k, 1, &|x| Some((sext(k, w) < sext(x, w)) as u128)) {
                    return r;
                }
            }
        }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst((sext(x, w) < sext(y, w)) as u128, 1);
        }
        self.n2(Op::Slt, 1, a, b)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let n = self.nodes[c as usize];
        if n.op == Op::Bin(Bin::Xor) && self.is_const(n.b) == Some(1) {
            return self.ite(n.a, b, a);
        }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        // ite(c, x, ite(c, _, y)) -> ite(c, x, y)
        let nb = self.nodes[b as usize];
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = self.nodes[a as usize];
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let d = self.or(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        // ite(var == k, k, var): identity pattern
        if n.op == Op::Eq && ((n.a == b && n.b == a) || (n.a == a && n.b == b)) {
            return b;
        }
        self.mk(Node { op: Op::Ite, w, lo: 0, a: c, b: a, c: b, k: 0 })
    }
    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.is_const(hi), self.is_const(lo)) {
            return self.cst(x << wl | y, w);
        }
        if self.is_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        // sources of adjacent extracts
        let src = |n: &Node, id: Id, w: u32| if n.op == Op::Extract { (n.a, n.lo, w) } else { (id, 0, w) };
        let (sh, lh, _) = src(&nh, hi, wh);
        let (sl, ll, _) = src(&nl, lo, wl);
        if sh == sl && lh == ll + wl && nh.op == Op::Extract {
            return self.extract(sh, ll, w);
        }
        if nh.op == Op::ZExt {
            // concat(zext(x), y) = zext(concat(x, y))
            let c = self.concat(nh.a, lo);
            return self.zext(c, w);
        }
        if nl.op == Op::Concat {
            // right-associate: try to merge hi with the top of lo
            let nh_src = if nh.op == Op::Extract { Some((nh.a, nh.lo)) } else { None };
            let top = self.nodes[nl.a as usize];
            let t = if top.op == Op::Extract { (top.a, top.lo) } else { (nl.a, 0) };
            if let Some((s, l)) = nh_src {
                if s == t.0 && l == t.1 + self.w(nl.a) {
                    let m = self.extract(s, t.1, wh + self.w(nl.a));
                    return self.concat(m, nl.b);
                }
            }
            if self.is_const(hi).is_some() && self.is_const(nl.a).is_some() {
                let m = self.concat(hi, nl.a);
                return self.concat(m, nl.b);
            }
        }
        // tree next to constant
        if let Some(k) = self.is_const(lo) {
            if self.tree(hi) {
                if let Some(r) = self.map_leaves((110, wl), hi, k, w, &|x| Some(x << wl | k)) {
                    return r;
                }
            }
        }
        if let Some(k) = self.is_const(hi) {
            if self.tree(lo) {
                if let Some(r) = self.map_leaves((111, wl), lo, k, w, &|x| Some(k << wl | x)) {
                    return r;
                }
            }
        }
        // extracts of the same ite tree condition: ite(c,a,b) ++ ite(c,d,e)
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        self.n2(Op::Concat, w, hi, lo)
    }
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.cst(k >> lo, w);
        }
        let inf = self.info[a as usize];
        let m = mask(w);
        if (inf.zeros >> lo) & m == m {
            return self.cst(0, w);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, n.lo + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            Op::ZExt | Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if n.op == Op::ZExt {
                    if lo >= wi {
                        return self.cst(0, w);
                    }
                    let e = self.extract(n.a, lo, wi - lo);
                    return self.zext(e, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Ite => {
                if self.tree(a) {
                    if let Some(r) = self.map_leaves((112, lo), a, 0, w, &|x| Some(x >> lo & m)) {
                        return r;
                    }
                }
            }
            Op::Bin(op @ (Bin::And | Bin::Or | Bin::Xor)) => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(op, x, y);
            }
            Op::Bin(op @ (Bin::Add | Bin::Sub | Bin::Mul)) if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(op, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, lo, a, b: 0, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        debug_assert!(aw <= w);
        if aw == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.cst(k, w);
        }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Extract && n.lo == 0 && self.w(n.a) == w && self.info[n.a as usize].hi <= mask(aw) {
            return n.a;
        }
        if self.tree(a) {
            if let Some(r) = self.map_leaves((113, aw), a, 0, w, &|x| Some(x)) {
                return r;
            }
        }
        self.mk(Node { op: Op::ZExt, w, lo: 0, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.cst(sext(k, aw) as u128, w);
        }
        let half = 1u128 << (aw - 1);
        if self.info[a as usize].hi < half {
            return self.zext(a, w);
        }
        if self.tree(a) {
            if let Some(r) = self.map_leaves((114, aw), a, 0, w, &|x| Some(sext(x, aw) as u128 & mask(w))) {
                return r;
            }
        }
        self.mk(Node { op: Op::SExt, w, lo: 0, a, b: 0, c: 0, k: 0 })
    }
    /// split a conjunction
    pub fn conjuncts(&self, c: Id, out: &mut Vec<Id>) {
        let n = &self.nodes[c as usize];
        if n.w == 1 && n.op == Op::Bin(Bin::And) {
            self.conjuncts(n.a, out);
            self.conjuncts(n.b, out);
        } else {
            out.push(c);
        }
    }
    pub fn eval(&mut self, e: Id, model: &[u128]) -> u128 {
        self.eval_cache.clear();
        self.ev(e, model)
    }
    fn ev(&mut self, e: Id, model: &[u128]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.lo as usize).copied().unwrap_or(0).min(n.k),
            _ => {}
        }
        if let Some(v) = self.eval_cache.get(&e) {
            return *v;
        }
        let m = mask(n.w);
        let r = match n.op {
            Op::Ite => if self.ev(n.a, model) == 1 { self.ev(n.b, model) } else { self.ev(n.c, model) },
            Op::Bin(op) => {
                let (x, y) = (self.ev(n.a, model), self.ev(n.b, model));
                fold(op, n.w, x, y).unwrap_or_else(|| match op {
                    // SMT-LIB semantics of division by zero
                    Bin::UDiv => m,
                    Bin::URem | Bin::SRem => x,
                    _ => if sext(x, n.w) < 0 { 1 } else { m },
                })
            }
            Op::Eq => (self.ev(n.a, model) == self.ev(n.b, model)) as u128,
            Op::Ult => (self.ev(n.a, model) < self.ev(n.b, model)) as u128,
            Op::Slt => {
                let w = self.w(n.a);
                (sext(self.ev(n.a, model), w) < sext(self.ev(n.b, model), w)) as u128
            }
            Op::Concat => {
                let wl = self.w(n.b);
                self.ev(n.a, model) << wl | self.ev(n.b, model)
            }
            Op::Extract => self.ev(n.a, model) >> n.lo & m,
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => {
                let w = self.w(n.a);
                sext(self.ev(n.a, model), w) as u128 & m
            }
            _ => unreachable!(),
        };
        self.eval_cache.insert(e, r);
        r
    }
}
