//! What harnesses share: symbolic values, symbolic grammars. Knows nothing of the generator's inside.
//!
//! A symbolic grammar: non-terminals, productions and lengths within a shape; every symbol is a
//! symbolic number (below the number of non-terminals: that one; otherwise a terminal).
#![allow(dead_code)]

extern "C" {
    pub fn sym_range(n: u32, id: u32) -> u32;
    pub fn sym_assume(ok: bool);
    pub fn sym_assert(ok: bool, id: u32);
    pub fn sym_cover(id: u32);
    pub fn sym_panic_mode(n: u32);
    pub fn sym_observe(v: u64);
    pub fn sym_conc(v: u64) -> u64;
    pub fn sym_kill();
    pub fn sym_branch(b: bool) -> bool;
    pub fn sym_limit(n: u64);
}

pub fn check(ok: bool, id: u32) {
    unsafe { sym_assert(ok, id) }
}
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
pub fn assume(ok: bool) {
    unsafe { sym_assume(ok) }
}
pub fn panic_mode(n: u32) {
    unsafe { sym_panic_mode(n) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn below(n: u32, id: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    unsafe { sym_range(n, id) }
}
/// Forks over the values of v.
pub fn conc(v: u32) -> u32 {
    unsafe { sym_conc(v as u64) as u32 }
}
/// Forks over a condition.
pub fn is(b: bool) -> bool {
    unsafe { sym_branch(b) }
}
/// What comes must end before `n` instructions, even where panics are allowed (0: it has).
pub fn must_end(n: u64) {
    unsafe { sym_limit(if n == 0 { 0 } else { n | 1 << 63 }) }
}
pub fn kill() {
    unsafe { sym_kill() }
}

pub const MAXNT: usize = 16;
pub const MAXP: usize = 40;
pub const MAXL: usize = 6;

/// A grammar over numbers: production p is lhs[p] -> rhs[p][..len[p]].
/// Symbols below nnt are non-terminals, the others terminals (from nnt on).
#[derive(Clone, Copy)]
pub struct Gr {
    pub nnt: usize,
    pub nt: usize,
    pub np: usize,
    pub lhs: [u8; MAXP],
    pub idx: [u8; MAXP],
    pub len: [u8; MAXP],
    pub rhs: [[u32; MAXL]; MAXP],
    /// the same, counting user non-terminals only
    pub raw: [[u32; MAXL]; MAXP],
    pub num: [u8; MAXNT],
    pub nuser: u32,
    pub public: [bool; MAXNT],
    /// productions of a non-terminal: first and count
    pub p0: [u8; MAXNT],
    pub pn: [u8; MAXNT],
}

/// A grammar of the catalogue, by user non-terminals; productions in order of the non-terminals.
pub struct Base {
    pub nnt: usize,
    pub nt: usize,
    pub np: &'static [u8],
    pub pubs: u32,
    pub rhs: &'static [&'static [u8]],
}

/// The shape: user non-terminals (`np[i]` productions each, up to `ml` symbols each), `nt`
/// terminals; `pubs`: bit set of the public ones. Lowered as the generator does: for a public
/// one, first the non-terminal itself, then its entry.
pub struct Shape {
    pub nnt: usize,
    pub np: [u8; MAXNT],
    pub ml: usize,
    /// minimal length
    pub lo: usize,
    pub nt: usize,
    pub pubs: u32,
    /// productions of one non-terminal in increasing order (their order does not matter)
    pub sorted: bool,
    /// entries before (false) or after their non-terminal
    pub entry_first: bool,
    /// all productions but those of the bit set are those of the catalogue grammar
    pub base: Option<&'static Base>,
    pub holes: u64,
}

/// Makes the grammar, symbols symbolic, lengths forked over.
pub fn make(s: &Shape) -> Gr {
    let mut g = Gr {
        nnt: 0,
        nt: s.nt,
        np: 0,
        lhs: [0; MAXP],
        idx: [0; MAXP],
        len: [0; MAXP],
        rhs: [[0; MAXL]; MAXP],
        raw: [[0; MAXL]; MAXP],
        num: [0; MAXNT],
        nuser: s.nnt as u32,
        public: [false; MAXNT],
        p0: [0; MAXNT],
        pn: [0; MAXNT],
    };
    let mut num = [0u32; MAXNT];
    for i in 0..s.nnt {
        let p = s.pubs >> i & 1 != 0;
        if p && s.entry_first {
            g.nnt += 1;
        }
        num[i] = g.nnt as u32;
        g.nnt += 1;
        if p && !s.entry_first {
            g.nnt += 1;
        }
    }
    let nnt = g.nnt as u32;
    for i in 0..s.nnt {
        g.num[i] = num[i] as u8;
    }
    let mut id = 0;
    for i in 0..s.nnt {
        let p = s.pubs >> i & 1 != 0;
        let me = num[i] as usize;
        for step in 0..2 {
            if (step == 0) == (p && s.entry_first) {
                // the entry
                if p {
                    let e = if s.entry_first { me - 1 } else { me + 1 };
                    g.public[e] = true;
                    g.p0[e] = g.np as u8;
                    g.pn[e] = 1;
                    g.lhs[g.np] = e as u8;
                    g.len[g.np] = 1;
                    g.rhs[g.np][0] = me as u32;
                    g.np += 1;
                }
            } else {
                g.p0[me] = g.np as u8;
                g.pn[me] = s.np[i];
                for k in 0..s.np[i] {
                    let q = g.np;
                    g.lhs[q] = me as u8;
                    g.idx[q] = k;
                    let hole = s.base.is_none() || s.holes >> id & 1 != 0;
                    let l = if hole { s.lo as u32 + conc(below((s.ml - s.lo) as u32 + 1, 1000 + id)) } else { s.base.unwrap().rhs[id as usize].len() as u32 };
                    g.len[q] = l as u8;
                    if s.sorted && k > 0 {
                        assume(g.len[q - 1] <= g.len[q]);
                    }
                    for j in 0..l {
                        let c = if hole { below((s.nnt + s.nt) as u32, id * 8 + j) } else { s.base.unwrap().rhs[id as usize][j as usize] as u32 };
                        g.raw[q][j as usize] = c;
                        // c counts user non-terminals, then terminals
                        let mut v = (c as u32).wrapping_sub(s.nnt as u32).wrapping_add(nnt);
                        if s.pubs == 0 {
                            v = c;
                        }
                        for u in 0..if s.pubs == 0 { 0 } else { s.nnt } {
                            v = if c == u as u32 { num[u] } else { v };
                        }
                        g.rhs[q][j as usize] = v;
                    }
                    if s.sorted && k > 0 && g.len[q - 1] == g.len[q] && l > 0 {
                        // the first symbols in order
                        assume(g.rhs[q - 1][0] <= g.rhs[q][0]);
                    }
                    id += 1;
                    g.np += 1;
                }
            }
        }
    }
    g
}

/// Forks over the symbols of everything reachable from the entries.
pub fn settle(g: &mut Gr) {
    let mut seen = [false; MAXNT];
    let mut todo: Vec<usize> = Vec::with_capacity(16);
    for n in 0..g.nnt {
        if g.public[n] {
            seen[n] = true;
            todo.push(n);
        }
    }
    while let Some(n) = todo.pop() {
        for p in g.p0[n] as usize..(g.p0[n] + g.pn[n]) as usize {
            for j in 0..g.len[p] as usize {
                if !g.public[n] {
                    let c = conc(g.raw[p][j]);
                    g.rhs[p][j] = if c < g.nuser { g.num[c as usize] as u32 } else { c - g.nuser + g.nnt as u32 };
                }
                let x = g.rhs[p][j] as usize;
                if x < g.nnt && !seen[x] {
                    seen[x] = true;
                    todo.push(x);
                }
            }
        }
    }
}

