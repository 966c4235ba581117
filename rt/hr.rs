//! The reference for grammars (not the code under test): what begins a phrase, what can be empty, canonical LR(1) sets and conflicts.
#![allow(dead_code)]

use crate::hs::*;

/// (possible first terminals, empty), from the definition
pub fn first_sets(g: &Gr) -> ([u32; MAXNT], [bool; MAXNT]) {
    let mut f = [0u32; MAXNT];
    let mut e = [false; MAXNT];
    loop {
        let mut ch = false;
        for p in 0..g.np {
            let x = g.lhs[p] as usize;
            let mut all = true;
            for j in 0..g.len[p] as usize {
                let c = conc(g.rhs[p][j]) as usize;
                if c >= g.nnt {
                    let b = 1u32 << (c - g.nnt);
                    if f[x] & b == 0 {
                        f[x] |= b;
                        ch = true;
                    }
                    all = false;
                    break;
                }
                if f[x] | f[c] != f[x] {
                    f[x] |= f[c];
                    ch = true;
                }
                if !e[c] {
                    all = false;
                    break;
                }
            }
            if all && !e[x] {
                e[x] = true;
                ch = true;
            }
        }
        if !ch {
            return (f, e);
        }
    }
}

// ------------------------------------------------------------------ canonical LR(1) (C08, C09)

pub const W: usize = 16;
#[derive(Clone, Copy, PartialEq)]
pub struct Items([u64; W]);

impl Items {
    fn none() -> Items {
        Items([0; W])
    }
    pub fn get(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 != 0
    }
    fn set(&mut self, i: usize) -> bool {
        let o = self.get(i);
        self.0[i / 64] |= 1 << (i % 64);
        !o
    }
    fn empty(&self) -> bool {
        self.0 == [0; W]
    }
}

/// Items are numbered (production, position, lookahead); lookahead nt is the end of input.
pub struct Lr {
    pub g: Gr,
    pub la: usize,
    pub base: [usize; MAXP + 1],
    pub f: [u32; MAXNT],
    pub e: [bool; MAXNT],
    pub sets: Vec<Items>,
    /// for a set: per symbol the target (0xffff: none)
    pub next: Vec<Vec<u16>>,
    pub starts: Vec<(usize, usize)>,
    pub rr: bool,
    pub sr: bool,
}

impl Lr {
    pub fn item(&self, p: usize, d: usize, a: usize) -> usize {
        self.base[p] + d * self.la + a
    }

    fn closure(&self, s: &mut Items) {
        let g = &self.g;
        let mut todo: Vec<(usize, usize, usize)> = Vec::with_capacity(64);
        for p in 0..g.np {
            for d in 0..=g.len[p] as usize {
                for a in 0..self.la {
                    if s.get(self.item(p, d, a)) {
                        todo.push((p, d, a));
                    }
                }
            }
        }
        while let Some((p, d, a)) = todo.pop() {
            let l = g.len[p] as usize;
            if d == l {
                continue;
            }
            let c = conc(g.rhs[p][d]) as usize;
            if c >= g.nnt {
                continue;
            }
            let mut m = 0u32;
            let mut open = true;
            let mut j = d + 1;
            while j < l {
                let x = conc(g.rhs[p][j]) as usize;
                if x >= g.nnt {
                    m |= 1 << (x - g.nnt);
                    open = false;
                    break;
                }
                m |= self.f[x];
                if !self.e[x] {
                    open = false;
                    break;
                }
                j += 1;
            }
            if open {
                m |= 1 << a;
            }
            for q in g.p0[c] as usize..(g.p0[c] + g.pn[c]) as usize {
                for b in 0..self.la {
                    if m >> b & 1 != 0 && s.set(self.item(q, 0, b)) {
                        todo.push((q, 0, b));
                    }
                }
            }
        }
    }

    fn goto(&self, s: &Items, x: usize) -> Items {
        let g = &self.g;
        let mut n = Items::none();
        for p in 0..g.np {
            for d in 0..g.len[p] as usize {
                for a in 0..self.la {
                    if s.get(self.item(p, d, a)) && conc(g.rhs[p][d]) as usize == x {
                        n.set(self.item(p, d + 1, a));
                    }
                }
            }
        }
        if !n.empty() {
            self.closure(&mut n);
        }
        n
    }

    fn add(&mut self, s: Items) -> usize {
        for i in 0..self.sets.len() {
            if self.sets[i] == s {
                return i;
            }
        }
        self.sets.push(s);
        self.next.push(vec![0xffff; self.g.nnt + self.g.nt]);
        self.sets.len() - 1
    }

    pub fn new(g: &Gr) -> Lr {
        let (f, e) = first_sets(g);
        let mut l = Lr { g: *g, la: g.nt + 1, base: [0; MAXP + 1], f, e, sets: vec![], next: vec![], starts: vec![], rr: false, sr: false };
        for p in 0..g.np {
            l.base[p + 1] = l.base[p] + (g.len[p] as usize + 1) * l.la;
        }
        if l.base[g.np] > W * 64 {
            panic!("too many items for the reference");
        }
        for n in 0..g.nnt {
            if g.public[n] {
                let mut s = Items::none();
                s.set(l.item(g.p0[n] as usize, 0, g.nt));
                l.closure(&mut s);
                let i = l.add(s);
                l.starts.push((n, i));
            }
        }
        let mut i = 0;
        while i < l.sets.len() {
            let s = l.sets[i];
            for x in 0..g.nnt + g.nt {
                let n = l.goto(&s, x);
                if !n.empty() {
                    let j = l.add(n);
                    l.next[i][x] = j as u16;
                }
            }
            // conflicts
            for a in 0..l.la {
                let mut red = 0;
                for p in 0..g.np {
                    if s.get(l.item(p, g.len[p] as usize, a)) {
                        red += 1;
                    }
                }
                if red > 1 {
                    l.rr = true;
                }
                if red > 0 && a < g.nt && l.next[i][g.nnt + a] != 0xffff {
                    l.sr = true;
                }
            }
            i += 1;
        }
        l
    }
}

