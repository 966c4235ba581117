//! Runtime of the harnesses for generated parsers.
//!
//! `sym_*` are primitives of the symbolic executor (and, for replay, of /verif/rt/replay.c).
#![allow(static_mut_refs)]

extern "C" {
    fn sym_u8(id: u32) -> u8;
    fn sym_range(n: u32, id: u32) -> u32;
    fn sym_assert(ok: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_panic_mode(n: u32);
    fn sym_limit(n: u64);
    fn sym_observe(v: u64);
    fn sym_conc(v: u64) -> u64;
}

pub fn check(ok: bool, id: u32) {
    unsafe { sym_assert(ok, id) }
}

pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}

pub fn panic_mode(n: u32) {
    unsafe { sym_panic_mode(n) }
}

pub fn limit(n: u64) {
    unsafe { sym_limit(n) }
}

/// Something a native run on the same inputs must show as well (checks the symbolic executor).
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}

pub fn any_u8(id: u32) -> u8 {
    unsafe { sym_u8(id) }
}

pub fn any_below(n: u32, id: u32) -> u32 {
    unsafe { sym_range(n, id) }
}

// ------------------------------------------------------------------ values of the semantic actions

pub const NODE: u32 = 0x1000;

pub trait Enc {
    fn enc(&self) -> u32;
}

pub trait Node: Enc + core::fmt::Debug {
    fn mk(id: u32) -> Self;
}

#[derive(Debug, Clone, PartialEq)]
pub struct TyN(pub u32);
pub type TyB = Box<TyN>;
pub type TyP = (bool, TyN);
pub type TyS = String;
pub type TyU = u16;

impl Enc for TyN {
    fn enc(&self) -> u32 {
        self.0
    }
}
impl Node for TyN {
    fn mk(id: u32) -> TyN {
        TyN(id)
    }
}
impl Enc for TyB {
    fn enc(&self) -> u32 {
        self.0
    }
}
impl Node for TyB {
    fn mk(id: u32) -> TyB {
        Box::new(TyN(id))
    }
}
impl Enc for TyP {
    fn enc(&self) -> u32 {
        if self.0 == ((self.1).0 & 1 != 0) {
            (self.1).0
        } else {
            1
        }
    }
}
impl Node for TyP {
    fn mk(id: u32) -> TyP {
        (id & 1 != 0, TyN(id))
    }
}
impl Enc for TyS {
    fn enc(&self) -> u32 {
        let mut v = 0u32;
        for b in self.as_bytes() {
            v = (v << 4) | ((*b - b'a') as u32);
        }
        v
    }
}
impl Node for TyS {
    fn mk(id: u32) -> TyS {
        let mut s = String::new();
        let mut sh = 12;
        loop {
            s.push((b'a' + ((id >> sh) & 15) as u8) as char);
            if sh == 0 {
                return s;
            }
            sh -= 4;
        }
    }
}
impl Enc for TyU {
    fn enc(&self) -> u32 {
        *self as u32
    }
}
impl Node for TyU {
    fn mk(id: u32) -> TyU {
        id as u16
    }
}
impl<T: Node> Node for Vec<T> {
    fn mk(id: u32) -> Self {
        vec![T::mk(id)]
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(&self) -> u32 {
        self[0].enc()
    }
}
impl<T: Node> Node for Option<T> {
    fn mk(id: u32) -> Self {
        Some(T::mk(id))
    }
}
impl<T: Enc> Enc for Option<T> {
    fn enc(&self) -> u32 {
        match self {
            Some(x) => x.enc(),
            None => 1,
        }
    }
}
impl<T: Node, const L: usize> Node for [T; L] {
    fn mk(id: u32) -> Self {
        core::array::from_fn(|_| T::mk(id))
    }
}
impl<T: Enc, const L: usize> Enc for [T; L] {
    fn enc(&self) -> u32 {
        self[L - 1].enc()
    }
}
impl<T: Node> Node for (TyN, T) {
    fn mk(id: u32) -> Self {
        (TyN(0), T::mk(id))
    }
}
impl<T: Enc> Enc for (TyN, T) {
    fn enc(&self) -> u32 {
        self.1.enc()
    }
}
pub mod ma {
    #[derive(Debug)]
    pub struct T(pub u32);
}
pub mod mb {
    #[derive(Debug)]
    pub struct T(pub u32);
}
impl Node for ma::T {
    fn mk(id: u32) -> Self {
        ma::T(id)
    }
}
impl Enc for ma::T {
    fn enc(&self) -> u32 {
        self.0
    }
}
impl Node for mb::T {
    fn mk(id: u32) -> Self {
        mb::T(id)
    }
}
impl Enc for mb::T {
    fn enc(&self) -> u32 {
        self.0
    }
}
pub trait Node1: Enc + core::fmt::Debug {}
pub trait Node2: Enc + core::fmt::Debug {}
impl Node1 for TyN {}
impl Node2 for TyN {}
impl Node for Box<dyn Node1> {
    fn mk(id: u32) -> Self {
        Box::new(TyN(id))
    }
}
impl Enc for Box<dyn Node1> {
    fn enc(&self) -> u32 {
        (**self).enc()
    }
}
impl Node for Box<dyn Node2> {
    fn mk(id: u32) -> Self {
        Box::new(TyN(id))
    }
}
impl Enc for Box<dyn Node2> {
    fn enc(&self) -> u32 {
        (**self).enc()
    }
}
impl Enc for u8 {
    fn enc(&self) -> u32 {
        *self as u32
    }
}
impl Enc for () {
    fn enc(&self) -> u32 {
        0
    }
}

/// Needs a mutable binding at the call site.
pub fn touch<T>(_x: &mut T) {}

// ------------------------------------------------------------------ history of one run

/// no transition
pub const NO: u32 = 0xffff_ffff;
pub const MAXN: usize = 64;
pub const MAXLOG: usize = 256;
/// arguments of all actions together
pub const MAXARGS: usize = 1024;
/// 1: take token kinds one by one from the start (for large grammars)
pub const CONC: usize = 0;
/// symbols pending in a derivation
pub const MAXST: usize = 128;

#[derive(Clone, Copy)]
pub struct Entry {
    pub prod: u32,
    pub polls: u32,
    pub nargs: usize,
    /// where its arguments are in `args`
    pub at: usize,
}

#[derive(Clone, Copy)]
pub struct Ctx {
    /// number of its first input for the executor
    pub base: u32,
    /// 0: the input is free, 1: as in `WAS[0]`, 2: as in `WAS[1]`
    pub script: u32,
    /// another parse happens when this item (counted from 1) is asked for, or (from 1000000) in this action
    pub nest: u32,
    // what the input may contain
    pub n: u32,
    pub lexerr: bool,
    pub mode: u32,
    // what happened
    pub polls: u32,
    pub ntok: usize,
    pub kinds: [u16; MAXN],
    pub pays: [u8; MAXN],
    /// 0 running, 1 end reported, 2 error reported
    pub ended: u32,
    pub err: u8,
    pub nlog: usize,
    pub log: [Entry; MAXLOG],
    pub nargs: usize,
    pub args: [u32; MAXARGS],
    // oracle automaton, advanced with the input
    pub dfa: usize,
    pub dead: bool,
    pub dead_before_last: bool,
    pub prev_state: usize,
}

const E0: Entry = Entry { prod: 0, polls: 0, nargs: 0, at: 0 };

const C0: Ctx = Ctx {
    base: 0,
    script: 0,
    nest: 0,
    n: 0,
    lexerr: false,
    mode: 0,
    polls: 0,
    ntok: 0,
    kinds: [0; MAXN],
    pays: [0; MAXN],
    ended: 0,
    err: 0,
    nlog: 0,
    log: [E0; MAXLOG],
    nargs: 0,
    args: [0; MAXARGS],
    dfa: 0,
    dead: false,
    dead_before_last: false,
    prev_state: 0,
};
static mut CTX: Ctx = C0;

pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut CTX }
}

static mut GRAMMAR: Option<&'static Gr> = None;
static mut ROOT: Option<&'static Root> = None;

/// A semantic action: production number and the values it was given.
#[inline(never)]
pub fn act<T: Node>(prod: u32, args: &[u32]) -> T {
    let c = ctx();
    if c.nlog >= MAXLOG || c.nargs + args.len() > MAXARGS {
        // more actions than any derivation within the bounds has
        check(false, 39);
        panic!("log overflow");
    }
    let i = c.nlog;
    if c.nest == 1_000_000 + i as u32 {
        nested();
        cover(79);
    }
    let e = &mut c.log[i];
    e.prod = prod;
    e.polls = c.polls;
    e.nargs = args.len();
    e.at = c.nargs;
    for a in args {
        c.args[c.nargs] = *a;
        c.nargs += 1;
    }
    c.nlog = i + 1;
    T::mk(NODE + i as u32)
}

// ------------------------------------------------------------------ the input

pub trait Tok: Sized {
    fn make(kind: u16, pay: u8) -> Self;
}

pub struct It<T>(pub core::marker::PhantomData<T>);

pub fn input<T: Tok>() -> It<T> {
    It(core::marker::PhantomData)
}

#[inline(never)]
fn advance() -> u32 {
    let c = ctx();
    let g = unsafe { GRAMMAR.unwrap() };
    if c.mode == 5 {
        check(c.ended != 1, 50);
        check(c.ended != 2, 51);
    }
    if c.ended != 0 {
        return 1000;
    }
    c.polls += 1;
    if c.nest == c.polls {
        nested();
    }
    if c.script != 0 {
        return from_script();
    }
    c.dead_before_last = c.dead;
    let nt = g.terms.len() as u32;
    let id = c.base + c.polls - 1;
    let k = if c.ntok as u32 >= c.n {
        // the bound: the input ends here (or fails here)
        if c.lexerr {
            nt + any_below(2, id)
        } else {
            nt
        }
    } else if c.ntok >= unsafe { ROOT.unwrap() }.head && c.ntok < unsafe { ROOT.unwrap() }.tail {
        follow()
    } else {
        any_below(if c.lexerr { nt + 2 } else { nt + 1 }, id)
    };
    let k = if CONC == 1 { unsafe { sym_conc(k as u64) as u32 } } else { k };
    if k == nt {
        c.ended = 1;
        set_panic_mode();
        return 1000;
    }
    if k == nt + 1 {
        c.ended = 2;
        c.err = any_u8(1000 + id);
        return 2000;
    }
    c.kinds[c.ntok] = k as u16;
    let fixed = c.ntok >= unsafe { ROOT.unwrap() }.head && c.ntok < unsafe { ROOT.unwrap() }.tail;
    c.pays[c.ntok] = if !g.has_pay {
        0
    } else if fixed {
        (c.ntok as u8).wrapping_mul(37)
    } else {
        any_u8(1000 + id)
    };
    c.ntok += 1;
    if c.mode != 9 {
        step_dfa(k as usize);
        set_panic_mode();
    }
    k
}

// ------------------------------------------------------------------ parses before and inside others

static mut WAS: [Ctx; 2] = [C0, C0];
static mut RES: [Res; 2] = [Res::Ok(0), Res::Ok(0)];
static mut OTHER: Option<fn() -> Res> = None;

/// The same item as in the earlier run.
fn from_script() -> u32 {
    let c = ctx();
    let w = unsafe { &WAS[c.script as usize - 1] };
    let i = c.ntok;
    if i < w.ntok {
        c.kinds[i] = w.kinds[i];
        c.pays[i] = w.pays[i];
        c.ntok += 1;
        return c.kinds[i] as u32;
    }
    // it must not read further than before
    check(w.ended != 0, 170);
    c.ended = w.ended;
    c.err = w.err;
    if w.ended == 1 {
        1000
    } else {
        2000
    }
}

fn compare(res: &Res) {
    let c = ctx();
    let w = unsafe { &WAS[c.script as usize - 1] };
    let was = unsafe { &RES[c.script as usize - 1] };
    let d = 10 * (c.script - 1);
    match (*res, *was) {
        (Res::Ok(a), Res::Ok(b)) => check(a == b, 172 + d),
        (Res::Lex(a), Res::Lex(b)) => check(a == b, 173 + d),
        (Res::Syn(a, b), Res::Syn(x, y)) => check(same(a, x) && same(b, y), 174 + d),
        _ => check(false, 171 + d),
    }
    check(c.polls == w.polls && c.ntok == w.ntok, 175 + d);
    check(c.nlog == w.nlog && c.nargs == w.nargs, 176 + d);
    let mut i = 0;
    while i < c.nlog {
        let (a, b) = (&c.log[i], &w.log[i]);
        check(a.prod == b.prod && a.polls == b.polls && a.nargs == b.nargs, 176 + d);
        i += 1;
    }
    i = 0;
    while i < c.nargs {
        check(c.args[i] == w.args[i], 177 + d);
        i += 1;
    }
}

/// Another parse, in the middle of this one.
fn nested() {
    let c = ctx();
    let save = *c;
    *c = C0;
    c.mode = 9;
    c.script = 2;
    let res = unsafe { OTHER.unwrap()() };
    compare(&res);
    cover(76);
    *c = save;
    c.nest = 0;
}

/// Each of two parses alone, in copies of the module of their own (so that what one leaves behind is not there for the
/// other); then both in one module, one after the other and one inside the other: it must not matter.
#[inline(never)]
pub fn history(g: &'static Gr, n: u32, m: u32, alone: fn() -> Res, f: fn() -> Res, others_alone: &'static [fn() -> Res], others: &'static [fn() -> Res]) {
    let c = ctx();
    unsafe { GRAMMAR = Some(g) };
    unsafe { ROOT = Some(&FREE) };
    limit(60_000 + 20_000 * (n + 2 * m) as u64);
    *c = C0;
    c.mode = 9;
    c.n = n;
    c.lexerr = true;
    unsafe {
        RES[0] = alone();
        WAS[0] = *c;
    }
    let other = any_below(others.len() as u32, 30000) as usize;
    *c = C0;
    c.mode = 9;
    c.base = 10000;
    c.n = m;
    c.lexerr = true;
    unsafe {
        OTHER = Some(others[other]);
        RES[1] = others_alone[other]();
        WAS[1] = *c;
    }
    let polls = unsafe { WAS[0].polls };
    let acts = unsafe { WAS[0].nlog } as u32;
    *c = C0;
    nested();
    *c = C0;
    c.mode = 9;
    c.script = 1;
    // 0: only before
    let at = any_below(polls + acts + 1, 30001);
    c.nest = if at > polls { 1_000_000 + at - polls - 1 } else { at };
    let res = f();
    limit(0);
    compare(&res);
    observe(c.polls as u64 * 1000 + c.nlog as u64);
    cover(if c.nlog > 2 { 75 } else { 74 });
    match unsafe { RES[1] } {
        Res::Ok(_) => cover(77),
        _ => cover(78),
    }
}

static FREE: Root = Root { nt: 0, trans: &[], acc: &[], exp: &[], head: 1 << 30, tail: 1 << 30, turn: 1 << 30 };

/// The first (or last) terminal that can come next, or the end.
fn follow() -> u32 {
    let c = ctx();
    let r = unsafe { ROOT.unwrap() };
    let nt = unsafe { GRAMMAR.unwrap() }.terms.len();
    if c.dead {
        return nt as u32;
    }
    let mut k = 0;
    while k < nt && r.trans[c.dfa * nt + k] == NO {
        k += 1;
    }
    if c.ntok >= r.turn && k < nt {
        k = nt - 1;
        while r.trans[c.dfa * nt + k] == NO {
            k -= 1;
        }
    }
    k as u32
}

fn step_dfa(k: usize) {
    let c = ctx();
    let r = unsafe { ROOT.unwrap() };
    let g = unsafe { GRAMMAR.unwrap() };
    if !c.dead {
        c.prev_state = c.dfa;
        let to = r.trans[c.dfa * g.terms.len() + k];
        if to == NO {
            c.dead = true;
        } else {
            c.dfa = to as usize;
        }
    }
}

/// A panic is the business of C06; it breaks C02 on (what can become) a sentence and C04 on the others.
fn set_panic_mode() {
    let c = ctx();
    if c.mode == 9 {
        return;
    }
    let r = unsafe { ROOT.unwrap() };
    let sentence = !c.dead && (c.ended == 0 || r.acc[c.dfa] != 0);
    match c.mode {
        2 => panic_mode(if sentence { 0 } else { 90 }),
        4 => panic_mode(if sentence { 90 } else { 0 }),
        _ => {}
    }
}

impl<T: Tok> Iterator for It<T> {
    type Item = Result<T, u8>;
    #[inline(never)]
    fn next(&mut self) -> Option<Result<T, u8>> {
        let k = advance();
        if k == 1000 {
            None
        } else if k == 2000 {
            Some(Err(ctx().err))
        } else {
            let i = ctx().ntok - 1;
            Some(Ok(T::make(ctx().kinds[i], ctx().pays[i])))
        }
    }
}

// ------------------------------------------------------------------ the grammar as the oracle sees it

pub struct Pr {
    pub lhs: u32,
    /// t >= 0 terminal, -1-n non-terminal
    pub rhs: &'static [i32],
    /// argument number of each symbol, 0xffff: unnamed
    pub arg: &'static [u16],
}

pub struct Gr {
    pub terms: &'static [&'static str],
    pub pays: &'static [bool],
    pub has_pay: bool,
    pub prods: &'static [Pr],
}

pub struct Root {
    pub nt: u32,
    pub trans: &'static [u32],
    pub acc: &'static [u8],
    pub exp: &'static [&'static str],
    /// tokens from number `head` up to `tail` are not free: they are the first that can follow
    pub head: usize,
    pub tail: usize,
    /// from this one on they are the last that can follow
    pub turn: usize,
}

#[derive(Clone, Copy)]
pub enum Res {
    Ok(u32),
    Lex(u8),
    Syn(&'static str, &'static str),
}

fn same(a: &str, b: &str) -> bool {
    let a = a.as_bytes();
    let b = b.as_bytes();
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

const ROOT_USER: u32 = 0xffff_ffff;
const NO_USER: u32 = 0xffff_fffe;

/// Reads the log backwards as a rightmost derivation of the input from `root`.
/// `ends[i]` receives the number of tokens up to the end of node i.
fn replay(g: &'static Gr, root: u32, value: u32, ends: &mut [u32; MAXLOG]) {
    let c = ctx();
    let mut pos = c.ntok;
    let mut k = c.nlog;
    // pending symbols, rightmost last; (symbol, value it was passed on as: entry and argument)
    let mut st: [(i32, u32, u32); MAXST] = [(0, 0, 0); MAXST];
    let mut sp = 1;
    st[0] = (-1 - (root as i32), ROOT_USER, 0);
    while sp > 0 {
        sp -= 1;
        let (sym, user, arg) = st[sp];
        let val;
        if sym >= 0 {
            if pos == 0 {
                check(false, 30);
                return;
            }
            pos -= 1;
            check(c.kinds[pos] as i32 == sym, 31);
            val = if g.pays[sym as usize] { c.pays[pos] as u32 } else { 0 };
        } else {
            if k == 0 {
                check(false, 34);
                return;
            }
            k -= 1;
            let e = &c.log[k];
            let p = &g.prods[e.prod as usize];
            check(p.lhs as i32 == -1 - sym, 35);
            ends[k] = pos as u32;
            val = NODE + k as u32;
            let mut nargs = 0;
            let mut i = 0;
            while i < p.rhs.len() {
                let a = p.arg[i];
                if sp >= MAXST {
                    check(false, 36);
                    return;
                }
                st[sp] = (p.rhs[i], if a == 0xffff { NO_USER } else { k as u32 }, a as u32);
                sp += 1;
                if a != 0xffff {
                    nargs += 1;
                }
                i += 1;
            }
            check(nargs == e.nargs, 37);
        }
        if user == ROOT_USER {
            check(val == value, 33);
        } else if user != NO_USER {
            check(c.args[c.log[user as usize].at + arg as usize] == val, 32);
        }
    }
    check(pos == 0, 38);
    check(k == 0, 39);
}

/// Action whose production the text of the action does not tell.
pub const ANY: u32 = 0xffff;

/// Finds the productions of the `ANY` actions: the ones with which the log is a derivation of the input, read backwards.
fn fit(g: &'static Gr, mut st: [i32; MAXST], mut sp: usize, mut pos: usize, mut k: usize) -> bool {
    let c = ctx();
    while sp > 0 {
        sp -= 1;
        let sym = st[sp];
        if sym >= 0 {
            if pos == 0 {
                return false;
            }
            pos -= 1;
            if c.kinds[pos] as i32 != sym {
                return false;
            }
            continue;
        }
        if k == 0 {
            return false;
        }
        k -= 1;
        let lhs = (-1 - sym) as u32;
        let any = c.log[k].prod == ANY;
        let mut q = if any { 0 } else { c.log[k].prod as usize };
        let last = if any { g.prods.len() - 1 } else { q };
        while q <= last {
            let p = &g.prods[q];
            let mut nargs = 0;
            for a in p.arg {
                if *a != 0xffff {
                    nargs += 1;
                }
            }
            if p.lhs == lhs && nargs == c.log[k].nargs && sp + p.rhs.len() <= MAXST {
                let mut st2 = st;
                let mut sp2 = sp;
                for s in p.rhs {
                    st2[sp2] = *s;
                    sp2 += 1;
                }
                if any {
                    c.log[k].prod = q as u32;
                    if fit(g, st2, sp2, pos, k) {
                        return true;
                    }
                    c.log[k].prod = ANY;
                } else {
                    st = st2;
                    sp = sp2;
                    break;
                }
            }
            q += 1;
        }
        if any || q > last {
            return false;
        }
    }
    pos == 0 && k == 0
}

fn infer(g: &'static Gr, root: u32) {
    let c = ctx();
    let mut i = 0;
    while i < c.nlog {
        if c.log[i].prod == ANY {
            let mut st = [0i32; MAXST];
            st[0] = -1 - (root as i32);
            if !fit(g, st, 1, c.ntok, c.nlog) {
                check(false, 35);
            }
            return;
        }
        i += 1;
    }
}

#[inline(never)]
pub fn run(g: &'static Gr, r: &'static Root, mode: u32, n: u32, f: fn() -> Res) {
    let c = ctx();
    c.n = n;
    c.mode = mode;
    c.lexerr = mode == 5 || mode == 6;
    unsafe {
        GRAMMAR = Some(g);
        ROOT = Some(r);
    }
    match mode {
        1 | 3 | 5 | 8 => panic_mode(91),
        _ => {}
    }
    set_panic_mode();
    limit(60_000 + 20_000 * n as u64);
    let res = f();
    limit(0);
    panic_mode(0);
    observe(match res {
        Res::Ok(v) => v as u64,
        Res::Lex(e) => 0x10000 + e as u64,
        Res::Syn(f, e) => 0x20000 + 256 * f.len() as u64 + e.len() as u64,
    });
    observe(c.polls as u64 * 1000 + c.nlog as u64);
    if c.nlog > 0 {
        let e = &c.log[c.nlog - 1];
        observe(e.prod as u64 * 1000 + if e.nargs > 0 { c.args[e.at] as u64 } else { 999 });
    }
    let accept = c.ended == 1 && !c.dead && r.acc[c.dfa] != 0;
    match res {
        Res::Ok(_) => cover(1),
        Res::Lex(_) => cover(3),
        Res::Syn(..) => cover(2),
    }
    if mode == 7 {
        let mut m = 1;
        while m <= 4 {
            judge(g, r, m, accept, &res);
            m += 1;
        }
    } else {
        judge(g, r, mode, accept, &res);
    }
}

fn judge(g: &'static Gr, r: &'static Root, mode: u32, accept: bool, res: &Res) {
    let c = ctx();
    let res = *res;
    match mode {
        1 => {
            if let Res::Ok(_) = res {
                check(c.ended == 1, 11);
                check(accept, 10);
            }
        }
        2 => match res {
            Res::Ok(_) => {}
            _ => {
                if c.ended == 1 {
                    check(!accept, 20);
                } else {
                    check(c.dead, 21);
                }
            }
        },
        3 => {
            if let Res::Ok(v) = res {
                // what is not a sentence has no derivation; accepting it is C01's business
                if accept {
                    let mut ends = [0; MAXLOG];
                    infer(g, r.nt);
                    replay(g, r.nt, v, &mut ends);
                    cover(if c.nlog > 3 { 5 } else { 4 });
                }
            }
        }
        4 => match res {
            Res::Ok(_) => check(accept, 40),
            Res::Lex(_) => check(accept || (c.ended == 0 && !c.dead), 44),
            Res::Syn(found, expected) => {
                if c.ended == 1 {
                    // rejected at the end of the input
                    check(!c.dead, 41);
                    check(r.acc[c.dfa] == 0, 45);
                    check(same(found, "end-of-input"), 42);
                    check(same(expected, r.exp[c.dfa]), 43);
                    cover(6);
                } else {
                    check(c.ntok > 0, 41);
                    check(!c.dead_before_last, 41);
                    check(c.dead, 45);
                    check(same(found, g.terms[c.kinds[c.ntok - 1] as usize]), 42);
                    check(same(expected, r.exp[c.prev_state]), 43);
                    cover(7);
                }
            }
        },
        5 => {
            if c.ended == 2 {
                cover(8);
                match res {
                    Res::Lex(e) => check(e == c.err, 53),
                    _ => check(false, 52),
                }
            } else if let Res::Lex(_) = res {
                check(false, 54);
            }
            match res {
                Res::Ok(v) if accept => {
                    let mut ends = [NO; MAXLOG];
                    ends_only(g, r.nt, v, &mut ends);
                    let mut i = 0;
                    while i < c.nlog {
                        if ends[i] != NO {
                            check(c.log[i].polls <= ends[i] + 1, 55);
                        }
                        i += 1;
                    }
                }
                Res::Syn(found, _) => {
                    // it says (rightly) that an earlier token was wrong, yet it has read on
                    if c.dead_before_last {
                        let i = if c.ended == 0 { c.ntok - 1 } else { c.ntok };
                        let last = if c.ended == 0 { g.terms[c.kinds[c.ntok - 1] as usize] } else { "end-of-input" };
                        let mut j = 0;
                        let mut named = false;
                        while j < i {
                            named = named || same(found, g.terms[c.kinds[j] as usize]);
                            j += 1;
                        }
                        check(!(named && !same(found, last)), 56);
                    }
                }
                _ => {}
            }
        }
        8 => {
            // a token that cannot follow has no reduction
            if let Res::Syn(..) = res {
                if c.nlog > 0 && (c.ended == 0 && c.dead && !c.dead_before_last || c.ended == 1 && !c.dead && r.acc[c.dfa] == 0) {
                    check(c.log[c.nlog - 1].polls < c.polls, 57);
                    cover(9);
                }
            }
        }
        _ => {}
    }
}

/// The part of `replay` that finds where each node ends; gives up quietly on anything odd (C03's business).
fn ends_only(g: &'static Gr, root: u32, _value: u32, ends: &mut [u32; MAXLOG]) {
    let c = ctx();
    let mut pos = c.ntok;
    let mut k = c.nlog;
    let mut st: [i32; MAXST] = [0; MAXST];
    let mut sp = 1;
    st[0] = -1 - (root as i32);
    let mut tmp: [u32; MAXLOG] = [NO; MAXLOG];
    while sp > 0 {
        sp -= 1;
        let sym = st[sp];
        if sym >= 0 {
            if pos == 0 || c.kinds[pos - 1] as i32 != sym {
                return;
            }
            pos -= 1;
        } else {
            if k == 0 {
                return;
            }
            k -= 1;
            if c.log[k].prod == ANY {
                return;
            }
            let p = &g.prods[c.log[k].prod as usize];
            if p.lhs as i32 != -1 - sym {
                return;
            }
            tmp[k] = pos as u32;
            for s in p.rhs {
                if sp >= MAXST {
                    return;
                }
                st[sp] = *s;
                sp += 1;
            }
        }
    }
    if pos == 0 && k == 0 {
        *ends = tmp;
    }
}
