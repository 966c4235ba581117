//! The symbolic executor: explicit frames, copy-on-write states, decisions by the solver.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::Solver;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(Id),
    W(Rc<u128>),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Dec {
    /// value of a branch condition; whether it had to be added to the path condition
    Br(bool, bool),
    Eq(u64, bool),
    Ne(u64),
    /// address is one of these (fork by loaded value)
    In(Arc<Vec<u64>>),
    /// all feasible addresses (no fork)
    All(Arc<Vec<u64>>),
}

#[derive(Clone, Debug)]
pub struct DecAt {
    at: u64,
    d: Dec,
}

#[derive(Clone, Debug)]
pub struct VarDecl {
    pub id: u32,
    pub w: u32,
    pub hi: u128,
}

struct Frame {
    f: &'static CFunc,
    regs: Vec<Val>,
    block: u32,
    ip: u32,
    dst: Option<u32>,
    normal: Option<u32>,
    sp: u64,
}

impl Clone for Frame {
    fn clone(&self) -> Self {
        Frame { f: self.f, regs: self.regs.clone(), block: self.block, ip: self.ip, dst: self.dst, normal: self.normal, sp: self.sp }
    }
}

/// no sym_world so far
const NO_WORLD: u64 = u64::MAX;
/// input numbers of what a world holds
const WORLD_VAR: u32 = 0x7000_0000;

#[derive(Clone)]
pub struct State {
    mem: Mem,
    frames: Vec<Frame>,
    sp: u64,
    brk: u64,
    keys: Vec<u64>,
    /// what differs between processes: hash keys, clock, process number, environment
    world: u64,
    /// process number and clock of this world: any, once the harness has named a world and the code asks
    env: [Option<Val>; 2],
    pc: Vec<Id>,
    fixed: VarSet,
    model: Vec<u128>,
    vars: Vec<VarDecl>,
    trail: Vec<DecAt>,
    forced: VecDeque<DecAt>,
    steps: u64,
    limit: u64,
    limit_user: bool,
    /// also where panics are allowed
    limit_strict: bool,
    limit_from: u64,
    obs: Vec<Val>,
    panic_ok: Option<u32>,
    // marks at the start of the current instruction
    m_trail: usize,
    m_pc: usize,
    m_fixed: VarSet,
}

pub struct CFunc {
    pub id: u32,
    pub f: Func,
    pub kvals: Vec<Val>,
    pub callees: Vec<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Defined,
    Panic,
    Other,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub inputs: Vec<(u32, u32, u128)>,
    pub kind: &'static str,
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub paths: u64,
    pub completed: u64,
    pub killed: u64,
    pub panics_ok: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub covers: BTreeMap<u32, u64>,
    pub violations: BTreeMap<String, Violation>,
    pub funcs: BTreeSet<String>,
    pub errors: Vec<String>,
    pub max_vars: usize,
    /// most instructions under a limit
    pub max_span: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub solver_us: u64,
    pub max_query_us: u64,
    pub incomplete: bool,
    pub sample: Vec<(Vec<(u32, u32, u128)>, Vec<u128>)>,
}

pub struct Job {
    trail: Vec<DecAt>,
    model: Vec<u128>,
}

pub struct Shared {
    pub q: Mutex<(Vec<Job>, usize, bool)>,
    pub cv: Condvar,
    pub hungry: AtomicBool,
    pub stop: AtomicBool,
    pub paths: AtomicU64,
    pub nworkers: AtomicUsize,
    pub deadline: Instant,
    pub max_paths: u64,
    pub max_viol: usize,
    pub viol_keys: Mutex<std::collections::HashSet<String>>,
    pub total_steps: AtomicU64,
}

enum Stop {
    /// path finished
    End(End),
    Fatal(String),
}
#[derive(PartialEq)]
enum End {
    Done,
    Killed,
    Violation,
    PanicOk,
}

type R<T> = Result<T, Stop>;

fn fatal<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Fatal(s.into()))
}

fn m64(w: u32) -> u64 {
    if w >= 64 { !0 } else { (1u64 << w) - 1 }
}

pub struct Engine {
    m: Arc<Module>,
    pub ex: Exprs,
    pub sv: Solver,
    names: Vec<String>,
    ids: HashMap<String, u32>,
    kinds: Vec<Kind>,
    cfs: Vec<Option<&'static CFunc>>,
    gaddr: HashMap<String, u64>,
    base: Mem,
    pub rep: Report,
    stack: Vec<State>,
    shared: Arc<Shared>,
    enums: HashMap<Vec<Id>, Option<Arc<Vec<u64>>>>,
    step_limit: u64,
    verbose: bool,
    vinst: bool,
    seen: Vec<bool>,
}

impl Engine {
    pub fn new(m: Arc<Module>, shared: Arc<Shared>, tag: usize, step_limit: u64) -> Result<Engine, String> {
        let mut names = vec![];
        let mut ids = HashMap::new();
        let mut kinds = vec![];
        for n in m.func_order.iter().chain(m.declares.iter()) {
            if !ids.contains_key(n) {
                ids.insert(n.clone(), names.len() as u32);
                names.push(n.clone());
                let panic = (n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("rust_oom") || n.contains("handle_alloc_error")) && !n.contains("panic_count");
                kinds.push(if panic {
                    Kind::Panic
                } else if m.funcs.contains_key(n) {
                    Kind::Defined
                } else {
                    Kind::Other
                });
            }
        }
        let mut ex = Exprs::new();
        let z = ex.cst(0, 1);
        assert_eq!(z, 0); // id 0 is reserved: "no symbolic byte"
        let mut e = Engine {
            m: m.clone(),
            ex,
            sv: Solver::new(tag),
            cfs: vec![None; names.len()],
            seen: vec![false; names.len()],
            names,
            ids,
            kinds,
            gaddr: HashMap::new(),
            base: Mem::new(),
            rep: Report::default(),
            stack: vec![],
            shared,
            enums: HashMap::new(),
            step_limit,
            verbose: std::env::var("SYMEX_TRACE").is_ok(),
            vinst: std::env::var("SYMEX_INST").is_ok(),
        };
        let mut a = GLOBAL_BASE;
        for g in &m.globals {
            let al = g.align.max(8);
            a = (a + al - 1) / al * al;
            e.gaddr.insert(g.name.clone(), a);
            a += g.ty.size().max(1);
        }
        e.base.map(GLOBAL_BASE, a + 16);
        for g in &m.globals {
            if let Some(c) = &g.init {
                let at = e.gaddr[&g.name];
                e.write_const(at, &g.ty, c)?;
            }
        }
        Ok(e)
    }

    fn sym_addr(&mut self, n: &str) -> Result<u64, String> {
        if let Some(a) = self.gaddr.get(n) {
            return Ok(*a);
        }
        if let Some(t) = self.m.aliases.get(n).cloned() {
            return self.sym_addr(&t);
        }
        if let Some(i) = self.ids.get(n) {
            return Ok(FN_BASE + 16 * *i as u64);
        }
        Err(format!("unknown global {}", n))
    }

    fn write_const(&mut self, at: u64, ty: &Ty, c: &Const) -> Result<(), String> {
        match (ty, c) {
            (_, Const::Zero | Const::Undef) => {}
            (_, Const::Bytes(b)) => {
                for (i, x) in b.iter().enumerate() {
                    if *x != 0 {
                        self.base.write_byte(at + i as u64, *x, 0);
                    }
                }
            }
            (_, Const::Int(v)) => {
                for i in 0..ty.size().min(16) {
                    let b = (*v >> (8 * i)) as u8;
                    if b != 0 {
                        self.base.write_byte(at + i, b, 0);
                    }
                }
            }
            (_, Const::Global(n, o)) => {
                let a = match self.sym_addr(n) {
                    Ok(a) => a,
                    Err(_) => return Ok(()),
                }
                .wrapping_add(*o as u64);
                for i in 0..8 {
                    self.base.write_byte(at + i, (a >> (8 * i)) as u8, 0);
                }
            }
            (_, Const::Agg(v)) => {
                let mut o = 0;
                for (t, x) in v.iter() {
                    if !matches!(ty, Ty::Struct(_, true)) {
                        o = (o + t.align() - 1) / t.align() * t.align();
                    }
                    self.write_const(at + o, t, x)?;
                    o += t.size();
                }
            }
            (Ty::Array(n, t) | Ty::Vector(n, t), Const::Splat(x)) => {
                for i in 0..*n {
                    self.write_const(at + i * t.size(), t, x)?;
                }
            }
            (_, Const::Splat(_)) => return Err("splat".into()),
            (_, Const::Bad(_)) => {}
        }
        Ok(())
    }

    fn cval(&mut self, ty: &Ty, c: &Const) -> Result<Val, String> {
        Ok(match (ty, c) {
            (Ty::Array(n, t) | Ty::Vector(n, t), Const::Zero | Const::Undef) => {
                let v = self.cval(t, c)?;
                Val::Agg(Rc::new(vec![v; *n as usize]))
            }
            (Ty::Struct(ts, _), Const::Zero | Const::Undef) => {
                let mut v = vec![];
                for t in ts {
                    v.push(self.cval(t, c)?);
                }
                Val::Agg(Rc::new(v))
            }
            (_, Const::Zero | Const::Undef) => Val::C(0),
            (_, Const::Int(v)) => {
                if ty.bits() > 64 { Val::W(Rc::new(*v)) } else { Val::C(*v as u64) }
            }
            (_, Const::Global(n, o)) => Val::C(self.sym_addr(n)?.wrapping_add(*o as u64)),
            (_, Const::Bytes(b)) => Val::Agg(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
            (_, Const::Agg(v)) => {
                let mut r = vec![];
                for (t, x) in v {
                    r.push(self.cval(t, x)?);
                }
                Val::Agg(Rc::new(r))
            }
            (Ty::Array(n, t) | Ty::Vector(n, t), Const::Splat(x)) => {
                let v = self.cval(t, x)?;
                Val::Agg(Rc::new(vec![v; *n as usize]))
            }
            (_, Const::Bad(s)) => return Err(format!("constant {}", s)),
            _ => return Err("constant".into()),
        })
    }

    fn cfunc(&mut self, id: u32) -> R<&'static CFunc> {
        if let Some(f) = self.cfs[id as usize] {
            return Ok(f);
        }
        let name = self.names[id as usize].clone();
        let f = match self.m.clone().decode(&name) {
            Ok(f) => f,
            Err(e) => return fatal(format!("decode: {}", e)),
        };
        let mut kvals = vec![];
        for (t, c) in &f.consts {
            kvals.push(match self.cval(t, c) {
                Ok(v) => v,
                Err(_) => Val::C(0xdead_dead_dead),
            });
        }
        let mut callees = vec![];
        for c in &f.callees {
            let c = self.m.aliases.get(c).cloned().unwrap_or(c.clone());
            let id = match self.ids.get(&c) {
                Some(i) => *i,
                None => {
                    let i = self.names.len() as u32;
                    self.names.push(c.clone());
                    self.ids.insert(c.clone(), i);
                    self.kinds.push(Kind::Other);
                    self.cfs.push(None);
                    self.seen.push(false);
                    i
                }
            };
            callees.push(id);
        }
        let r: &'static CFunc = Box::leak(Box::new(CFunc { id, f, kvals, callees }));
        self.cfs[id as usize] = Some(r);
        Ok(r)
    }

    // ---------------------------------------------------------------- values

    fn id(&mut self, v: &Val, w: u32) -> Id {
        match v {
            Val::C(k) => self.ex.cst(*k as u128, w),
            Val::W(k) => self.ex.cst(**k, w),
            Val::E(e) => {
                debug_assert_eq!(self.ex.w(*e), w, "width");
                *e
            }
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn val(&self, e: Id) -> Val {
        let n = &self.ex.nodes[e as usize];
        if n.op == Op::Const {
            if n.w <= 64 { Val::C(n.k as u64) } else { Val::W(Rc::new(n.k)) }
        } else {
            Val::E(e)
        }
    }
    fn mkc(k: u128, w: u32) -> Val {
        let k = k & mask(w);
        if w <= 64 { Val::C(k as u64) } else { Val::W(Rc::new(k)) }
    }
    fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = m64(w);
                let r = match op {
                    Bin::Add => x.wrapping_add(*y),
                    Bin::Sub => x.wrapping_sub(*y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Mul => x.wrapping_mul(*y),
                    Bin::Shl => if *y >= w as u64 { 0 } else { x << y },
                    Bin::LShr => if *y >= w as u64 { 0 } else { x >> y },
                    _ => match fold(op, w, *x as u128, *y as u128) {
                        Some(r) => r as u64,
                        None => return fatal("division by zero"),
                    },
                };
                return Ok(Val::C(r & m));
            }
        }
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
            let mut r = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                r.push(self.bin(op, w, p, q)?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let e = self.ex.bin(op, x, y);
        Ok(self.val(e))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let (sx, sy) = (sext(x as u128, w), sext(y as u128, w));
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => sx > sy,
                    Pred::Sge => sx >= sy,
                    Pred::Slt => sx < sy,
                    Pred::Sle => sx <= sy,
                };
                return Val::C(r as u64);
            }
        }
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
            let r = x.iter().zip(y.iter()).map(|(p1, q)| self.icmp(p, w, p1, q)).collect();
            return Val::Agg(Rc::new(r));
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let e = match p {
            Pred::Eq => self.ex.eq(x, y),
            Pred::Ne => {
                let e = self.ex.eq(x, y);
                self.ex.not(e)
            }
            Pred::Ult => self.ex.ult(x, y),
            Pred::Ugt => self.ex.ult(y, x),
            Pred::Ule => {
                let e = self.ex.ult(y, x);
                self.ex.not(e)
            }
            Pred::Uge => {
                let e = self.ex.ult(x, y);
                self.ex.not(e)
            }
            Pred::Slt => self.ex.slt(x, y),
            Pred::Sgt => self.ex.slt(y, x),
            Pred::Sle => {
                let e = self.ex.slt(y, x);
                self.ex.not(e)
            }
            Pred::Sge => {
                let e = self.ex.slt(x, y);
                self.ex.not(e)
            }
        };
        self.val(e)
    }
    fn select(&mut self, c: Id, a: &Val, b: &Val) -> R<Val> {
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
            let mut r = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                r.push(self.select(c, p, q)?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        let w = match (a, b) {
            (Val::E(e), _) | (_, Val::E(e)) => self.ex.w(*e),
            _ => return fatal("select width"),
        };
        let (x, y) = (self.id(a, w), self.id(b, w));
        let e = self.ex.ite(c, x, y);
        Ok(self.val(e))
    }
    fn select_w(&mut self, c: Id, a: &Val, b: &Val, w: u32) -> R<Val> {
        if w == 0 || matches!(a, Val::Agg(_)) {
            return self.select(c, a, b);
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let e = self.ex.ite(c, x, y);
        Ok(self.val(e))
    }
    fn cast(&mut self, k: Cast, fw: u32, tw: u32, a: &Val) -> Val {
        if let Val::Agg(v) = a {
            let r = v.iter().map(|x| self.cast(k, fw, tw, x)).collect();
            return Val::Agg(Rc::new(r));
        }
        match (k, a) {
            (Cast::Same, v) => v.clone(),
            (Cast::ZExt, Val::C(x)) if tw <= 64 => Val::C(*x),
            (Cast::Trunc, Val::C(x)) => Val::C(x & m64(tw)),
            (Cast::SExt, Val::C(x)) => Self::mkc(sext(*x as u128, fw) as u128, tw),
            (Cast::ZExt, Val::C(x)) => Self::mkc(*x as u128, tw),
            (Cast::Trunc, Val::W(x)) => Self::mkc(**x, tw),
            _ => {
                let i = self.id(a, fw);
                let e = match k {
                    Cast::ZExt => self.ex.zext(i, tw),
                    Cast::SExt => self.ex.sext(i, tw),
                    _ => self.ex.extract(i, 0, tw),
                };
                self.val(e)
            }
        }
    }

    // ---------------------------------------------------------------- decisions

    fn vars(st: &State) -> Vec<(u32, u128)> {
        st.vars.iter().map(|v| (v.w, v.hi)).collect()
    }
    fn add_pc(&mut self, st: &mut State, c: Id) {
        let mut v = vec![];
        self.ex.conjuncts(c, &mut v);
        for c in v {
            if self.ex.is_const(c).is_some() || st.pc.contains(&c) {
                continue;
            }
            let n = self.ex.nodes[c as usize];
            // a variable pinned to a constant
            if n.op == Op::Eq && self.ex.is_const(n.b).is_some() && self.ex.nodes[n.a as usize].op == Op::Var {
                st.fixed = st.fixed.or(&VarSet::one(self.ex.nodes[n.a as usize].lo));
            }
            if n.op == Op::Var && n.w == 1 {
                st.fixed = st.fixed.or(&VarSet::one(n.lo));
            }
            if n.op == Op::Bin(Bin::Xor) && n.w == 1 && self.ex.is_const(n.b) == Some(1) {
                let x = self.ex.nodes[n.a as usize];
                if x.op == Op::Var {
                    st.fixed = st.fixed.or(&VarSet::one(x.lo));
                }
            }
            st.pc.push(c);
        }
    }
    fn query(&mut self, st: &State, extra: Id) -> R<Option<Rc<crate::solver::Model>>> {
        let vars = Self::vars(st);
        match self.sv.check(&mut self.ex, &st.pc, extra, &vars) {
            Ok(r) => Ok(r),
            Err(e) => fatal(e),
        }
    }
    fn with_model(model: &[u128], m: &crate::solver::Model) -> Vec<u128> {
        let mut r = model.to_vec();
        for (i, v) in m {
            while r.len() <= *i as usize {
                r.push(0);
            }
            r[*i as usize] = *v;
        }
        r
    }
    /// Queue a sibling that re-executes the current instruction with one more forced decision.
    fn fork(&mut self, st: &State, d: Dec, m: &crate::solver::Model) {
        let mut s = st.clone();
        s.forced = s.trail[s.m_trail..].iter().cloned().collect();
        s.forced.push_back(DecAt { at: st.steps, d });
        s.trail.truncate(s.m_trail);
        s.pc.truncate(s.m_pc);
        s.fixed = s.m_fixed;
        s.model = Self::with_model(&s.model, m);
        s.steps -= 1; // the instruction is executed again
        self.rep.forks += 1;
        self.stack.push(s);
    }
    fn forced(st: &mut State) -> Option<Dec> {
        if let Some(f) = st.forced.front() {
            if f.at == st.steps {
                return st.forced.pop_front().map(|x| x.d);
            }
        }
        None
    }
    fn push(st: &mut State, d: Dec) {
        let at = st.steps;
        st.trail.push(DecAt { at, d });
    }
    fn is_fixed(&self, st: &State, e: Id) -> bool {
        self.ex.sup[e as usize].within(&st.fixed)
    }
    fn branch(&mut self, st: &mut State, c: Id) -> R<bool> {
        if let Some(k) = self.ex.is_const(c) {
            return Ok(k == 1);
        }
        if self.is_fixed(st, c) {
            return Ok(self.ex.eval(c, &st.model) == 1);
        }
        if let Some(d) = Self::forced(st) {
            match d {
                Dec::Br(v, add) => {
                    if add {
                        let k = if v { c } else { self.ex.not(c) };
                        self.add_pc(st, k);
                    }
                    Self::push(st, Dec::Br(v, add));
                    return Ok(v);
                }
                _ => return fatal("decision mismatch (branch)"),
            }
        }
        let mv = self.ex.eval(c, &st.model) == 1;
        let nc = self.ex.not(c);
        let (mine, other) = if mv { (c, nc) } else { (nc, c) };
        match self.query(st, other)? {
            None => {
                Self::push(st, Dec::Br(mv, false));
            }
            Some(m) => {
                self.fork(st, Dec::Br(!mv, true), &m);
                Self::push(st, Dec::Br(mv, true));
                self.add_pc(st, mine);
            }
        }
        Ok(mv)
    }
    fn branch_val(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(k) => Ok(*k & 1 == 1),
            Val::E(e) => self.branch(st, *e),
            _ => fatal("branch on aggregate"),
        }
    }
    /// Make a value concrete, forking over its feasible values.
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        let e = match v {
            Val::C(k) => return Ok(*k),
            Val::E(e) => *e,
            Val::W(k) => return Ok(**k as u64),
            Val::Agg(_) => return fatal("concretise aggregate"),
        };
        let _ = w;
        if self.is_fixed(st, e) {
            return Ok(self.ex.eval(e, &st.model) as u64);
        }
        let w = self.ex.w(e);
        loop {
            match Self::forced(st) {
                Some(Dec::Eq(k, add)) => {
                    if add {
                        let kc = self.ex.cst(k as u128, w);
                        let c = self.ex.eq(e, kc);
                        self.add_pc(st, c);
                    }
                    Self::push(st, Dec::Eq(k, add));
                    return Ok(k);
                }
                Some(Dec::Ne(k)) => {
                    let kc = self.ex.cst(k as u128, w);
                    let c = self.ex.eq(e, kc);
                    let c = self.ex.not(c);
                    self.add_pc(st, c);
                    Self::push(st, Dec::Ne(k));
                    continue;
                }
                Some(_) => return fatal("decision mismatch (value)"),
                None => {}
            }
            let k = self.ex.eval(e, &st.model);
            let kc = self.ex.cst(k, w);
            let c = self.ex.eq(e, kc);
            let nc = self.ex.not(c);
            match self.query(st, nc)? {
                None => {
                    Self::push(st, Dec::Eq(k as u64, false));
                }
                Some(m) => {
                    self.fork(st, Dec::Ne(k as u64), &m);
                    Self::push(st, Dec::Eq(k as u64, true));
                    self.add_pc(st, c);
                }
            }
            return Ok(k as u64);
        }
    }
    /// All feasible values of e, if at most `cap`.
    fn enum_vals(&mut self, st: &State, e: Id, cap: usize) -> R<Option<Arc<Vec<u64>>>> {
        let sup = self.ex.sup[e as usize];
        let mut key: Vec<Id> = st.pc.iter().copied().filter(|c| self.ex.sup[*c as usize].meets(&sup)).collect();
        // transitive closure is not needed for a sound key if we include everything when in doubt
        let mut all = sup;
        for k in &key {
            all = all.or(&self.ex.sup[*k as usize]);
        }
        if !all.within(&sup) {
            key = st.pc.clone();
        }
        key.sort();
        key.push(u32::MAX);
        key.push(e);
        if let Some(r) = self.enums.get(&key) {
            return Ok(r.clone());
        }
        let w = self.ex.w(e);
        let mut out = vec![];
        let mut v = self.ex.eval(e, &st.model);
        let mut cond = self.ex.cst(1, 1);
        let r = loop {
            out.push(v as u64);
            if out.len() > cap {
                break None;
            }
            let k = self.ex.cst(v, w);
            let c = self.ex.eq(e, k);
            let nc = self.ex.not(c);
            cond = self.ex.and(cond, nc);
            match self.query(st, cond)? {
                None => {
                    out.sort();
                    break Some(Arc::new(out));
                }
                Some(m) => {
                    let mm = Self::with_model(&st.model, &m);
                    v = self.ex.eval(e, &mm);
                }
            }
        };
        self.enums.insert(key, r.clone());
        Ok(r)
    }

    // ---------------------------------------------------------------- memory

    fn ld(&mut self, st: &State, a: u64, w: u32) -> R<Val> {
        let n = (w as u64 + 7) / 8;
        if n <= 8 {
            if let Some(v) = st.mem.fast_read(a, n) {
                return Ok(Val::C(if w % 8 == 0 { v } else { v & m64(w) }));
            }
        }
        let mut acc: Option<Id> = None;
        let mut k: u128 = 0;
        let mut any = false;
        let mut bytes = vec![];
        for i in 0..n {
            match st.mem.read_byte(a + i) {
                Some((b, id)) => {
                    any |= id != 0;
                    k |= (b as u128) << (8 * i);
                    bytes.push((b, id));
                }
                None => return fatal(format!("read of unmapped address {:#x}", a)),
            }
        }
        if !any {
            return Ok(Self::mkc(k, w));
        }
        for (b, id) in bytes.iter() {
            let e = if *id != 0 { *id } else { self.ex.cst(*b as u128, 8) };
            acc = Some(match acc {
                None => e,
                Some(lo) => self.ex.concat(e, lo),
            });
        }
        let mut e = acc.unwrap();
        if (n * 8) as u32 != w {
            e = self.ex.extract(e, 0, w);
        }
        Ok(self.val(e))
    }
    fn ld_ty(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Struct(ts, _) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    let (o, t) = ty.field_off(i as u64);
                    v.push(self.ld_ty(st, a + o, &t)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Vector(n, t) if **t == Ty::Int(1) => {
                let x = self.ld(st, a, *n as u32)?;
                self.split(&x, *n as u32, *n as usize)
            }
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.ld_ty(st, a + i * t.size(), t)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => self.ld(st, a, ty.bits()),
        }
    }
    fn st_(&mut self, st: &mut State, a: u64, w: u32, v: &Val) -> R<()> {
        let n = (w as u64 + 7) / 8;
        match v {
            Val::C(k) if n <= 8 => {
                if st.mem.fast_write(a, n, *k) {
                    return Ok(());
                }
                for i in 0..n {
                    if !st.mem.write_byte(a + i, (*k >> (8 * i)) as u8, 0) {
                        return fatal(format!("write to unmapped address {:#x}", a));
                    }
                }
                Ok(())
            }
            Val::Agg(_) => fatal("store of aggregate as scalar"),
            v => {
                let mut e = self.id(v, w);
                if n as u32 * 8 != w {
                    e = self.ex.zext(e, n as u32 * 8);
                }
                for i in 0..n {
                    let b = self.ex.extract(e, 8 * i as u32, 8);
                    let ok = match self.ex.is_const(b) {
                        Some(k) => st.mem.write_byte(a + i, k as u8, 0),
                        None => st.mem.write_byte(a + i, 0, b),
                    };
                    if !ok {
                        return fatal(format!("write to unmapped address {:#x}", a));
                    }
                }
                Ok(())
            }
        }
    }
    fn st_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Vector(n, t), _) if **t == Ty::Int(1) => {
                let x = self.join(v, 1)?;
                self.st_(st, a, *n as u32, &x)
            }
            (Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..), Val::Agg(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, t) = ty.field_off(i as u64);
                    self.st_ty(st, a + o, &t, x)?;
                }
                Ok(())
            }
            _ => self.st_(st, a, ty.bits(), v),
        }
    }
    /// split an integer into n elements (low first)
    fn split(&mut self, v: &Val, w: u32, n: usize) -> R<Val> {
        let ew = w / n as u32;
        let mut r = vec![];
        for i in 0..n {
            r.push(match v {
                Val::C(k) => Val::C(if i as u32 * ew >= 64 { 0 } else { k >> (i as u32 * ew) & m64(ew) }),
                Val::W(k) => Self::mkc(**k >> (i as u32 * ew), ew),
                _ => {
                    let e = self.id(v, w);
                    let e = self.ex.extract(e, i as u32 * ew, ew);
                    self.val(e)
                }
            });
        }
        Ok(Val::Agg(Rc::new(r)))
    }
    /// join elements of width ew into an integer
    fn join(&mut self, v: &Val, ew: u32) -> R<Val> {
        let vs = match v {
            Val::Agg(vs) => vs.clone(),
            _ => return Ok(v.clone()),
        };
        let w = ew * vs.len() as u32;
        if vs.iter().all(|x| matches!(x, Val::C(_))) && w <= 128 {
            let mut k = 0u128;
            for (i, x) in vs.iter().enumerate() {
                if let Val::C(c) = x {
                    k |= (*c as u128) << (i as u32 * ew);
                }
            }
            return Ok(Self::mkc(k, w));
        }
        if w > 128 {
            return fatal("wide vector");
        }
        let mut acc: Option<Id> = None;
        for x in vs.iter() {
            let e = self.id(x, ew);
            acc = Some(match acc {
                None => e,
                Some(lo) => self.ex.concat(e, lo),
            });
        }
        Ok(self.val(acc.unwrap()))
    }
    fn same_val(a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Val::C(x), Val::C(y)) => x == y,
            (Val::E(x), Val::E(y)) => x == y,
            (Val::W(x), Val::W(y)) => x == y,
            _ => false,
        }
    }
    /// Load through a symbolic address.
    fn sym_load(&mut self, st: &mut State, e: Id, w: u32) -> R<Val> {
        if self.is_fixed(st, e) {
            let a = self.ex.eval(e, &st.model) as u64;
            return self.ld(st, a, w);
        }
        let addrs = match Self::forced(st) {
            Some(Dec::In(l)) => {
                let c = self.member(e, &l);
                self.add_pc(st, c);
                Self::push(st, Dec::In(l.clone()));
                return self.ld(st, l[0], w);
            }
            Some(Dec::All(l)) => l,
            Some(d @ (Dec::Eq(..) | Dec::Ne(_))) => {
                // fell back to concretisation
                let at = st.steps;
                st.forced.push_front(DecAt { at, d });
                let a = self.conc(st, &Val::E(e), 64)?;
                return self.ld(st, a, w);
            }
            Some(_) => return fatal("decision mismatch (load)"),
            None => match self.enum_vals(st, e, 600)? {
                Some(l) => l,
                None => {
                    let a = self.conc(st, &Val::E(e), 64)?;
                    return self.ld(st, a, w);
                }
            },
        };
        let mut vals = vec![];
        for a in addrs.iter() {
            vals.push(self.ld(st, *a, w)?);
        }
        let mut groups: Vec<(Val, Vec<u64>)> = vec![];
        let mut gi: HashMap<u64, usize> = HashMap::new();
        for (a, v) in addrs.iter().zip(vals.iter()) {
            let g = match v {
                Val::C(k) => gi.get(k).copied(),
                _ => groups.iter().position(|(x, _)| Self::same_val(x, v)),
            };
            match g {
                Some(i) => groups[i].1.push(*a),
                None => {
                    if let Val::C(k) = v {
                        gi.insert(*k, groups.len());
                    }
                    groups.push((v.clone(), vec![*a]));
                }
            }
        }
        if groups.len() == 1 {
            Self::push(st, Dec::All(addrs));
            return Ok(groups[0].0.clone());
        }
        let consts = vals.iter().all(|v| matches!(v, Val::C(_)));
        if !consts || groups.len() == addrs.len() {
            // merge into one expression
            Self::push(st, Dec::All(addrs.clone()));
            let mut acc = self.id(&vals[0], w);
            for (a, v) in addrs.iter().zip(vals.iter()).skip(1) {
                let k = self.ex.cst(*a as u128, 64);
                let c = self.ex.eq(e, k);
                let x = self.id(v, w);
                acc = self.ex.ite(c, x, acc);
            }
            return Ok(self.val(acc));
        }
        // fork by loaded value; follow the group of the current model
        let cur = self.ex.eval(e, &st.model) as u64;
        let me = groups.iter().position(|(_, l)| l.contains(&cur));
        let me = match me {
            Some(i) => i,
            None => return fatal("model outside enumerated addresses"),
        };
        for (i, (_, l)) in groups.iter().enumerate() {
            if i != me {
                let c = self.member(e, l);
                match self.query(st, c)? {
                    Some(m) => self.fork(st, Dec::In(Arc::new(l.clone())), &m),
                    None => {}
                }
            }
        }
        let l = Arc::new(groups[me].1.clone());
        let c = self.member(e, &l);
        self.add_pc(st, c);
        Self::push(st, Dec::In(l));
        Ok(groups[me].0.clone())
    }
    fn member(&mut self, e: Id, l: &[u64]) -> Id {
        let w = self.ex.w(e);
        let mut r = self.ex.cst(0, 1);
        for a in l {
            let k = self.ex.cst(*a as u128, w);
            let c = self.ex.eq(e, k);
            r = self.ex.or(r, c);
        }
        r
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> R<u64> {
        if size > 1 << 28 {
            return fatal(format!("allocation of {} bytes", size));
        }
        let al = align.max(16);
        let a = (st.brk + 16 + al - 1) / al * al;
        st.brk = a + size.max(1);
        if st.brk > HEAP_BASE + 0x3f00_0000 {
            return fatal("heap exhausted");
        }
        st.mem.map(a - 16, st.brk);
        st.mem.fast_write(a - 8, 8, size);
        Ok(a)
    }

    // ---------------------------------------------------------------- running

    fn inputs(st: &State) -> Vec<(u32, u32, u128)> {
        st.vars.iter().enumerate().map(|(i, v)| (v.id, v.w, st.model.get(i).copied().unwrap_or(0).min(v.hi))).collect()
    }
    fn violate(&mut self, st: &State, kind: &'static str, key: String, msg: String) {
        if !self.rep.violations.contains_key(&key) {
            self.rep.violations.insert(key.clone(), Violation { key: key.clone(), msg, inputs: Self::inputs(st), kind });
            let n = {
                let mut g = self.shared.viol_keys.lock().unwrap();
                g.insert(key.clone());
                g.len()
            };
            // what does not end costs too much to meet again
            if n >= self.shared.max_viol || kind == "steps" {
                self.shared.stop.store(true, Ordering::Relaxed);
            }
        }
    }

    fn initial(&mut self, entry: &str, args: &[u64]) -> R<State> {
        let id = match self.ids.get(entry) {
            Some(i) => *i,
            None => return fatal(format!("no entry {}", entry)),
        };
        let f = self.cfunc(id)?;
        let mut regs = vec![Val::C(0); f.f.nregs as usize];
        for (p, a) in f.f.params.iter().zip(args) {
            regs[*p as usize] = Val::C(*a);
        }
        let mem = self.base.clone();
        self.seen[id as usize] = true;
        Ok(State {
            mem,
            frames: vec![Frame { f, regs, block: 0, ip: 0, dst: None, normal: None, sp: STACK_BASE }],
            sp: STACK_BASE + 64,
            brk: HEAP_BASE,
            keys: vec![],
            world: NO_WORLD,
            env: [None, None],
            pc: vec![],
            fixed: VarSet::default(),
            model: vec![],
            vars: vec![],
            trail: vec![],
            forced: VecDeque::new(),
            steps: 0,
            limit: self.step_limit,
            limit_user: false,
            limit_strict: false,
            limit_from: 0,
            obs: vec![],
            panic_ok: None,
            m_trail: 0,
            m_pc: 0,
            m_fixed: VarSet::default(),
        })
    }

    /// Worker main loop.
    pub fn work(&mut self, entry: &str, args: &[u64]) {
        let sh = self.shared.clone();
        loop {
            let job = {
                let mut g = sh.q.lock().unwrap();
                loop {
                    if g.2 || sh.stop.load(Ordering::Relaxed) {
                        g.2 = true;
                        sh.cv.notify_all();
                        break None;
                    }
                    if let Some(j) = g.0.pop() {
                        sh.hungry.store(false, Ordering::Relaxed);
                        break Some(j);
                    }
                    g.1 += 1;
                    if g.1 == sh.nworkers.load(Ordering::Relaxed) {
                        g.2 = true;
                        sh.cv.notify_all();
                        break None;
                    }
                    sh.hungry.store(true, Ordering::Relaxed);
                    let (g2, _) = sh.cv.wait_timeout(g, Duration::from_millis(200)).unwrap();
                    g = g2;
                    g.1 -= 1;
                }
            };
            let job = match job {
                Some(j) => j,
                None => break,
            };
            match self.initial(entry, args) {
                Ok(mut s) => {
                    s.forced = job.trail.into();
                    s.model = job.model;
                    self.stack.push(s);
                }
                Err(Stop::Fatal(e)) => {
                    self.rep.errors.push(e);
                    sh.stop.store(true, Ordering::Relaxed);
                }
                Err(_) => {}
            }
            while let Some(mut s) = self.stack.pop() {
                if sh.stop.load(Ordering::Relaxed) {
                    self.rep.incomplete = true;
                    self.stack.clear();
                    break;
                }
                self.one_path(&mut s);
                self.rep.max_vars = self.rep.max_vars.max(s.vars.len());
                let n = sh.paths.fetch_add(1, Ordering::Relaxed) + 1;
                if n >= sh.max_paths || Instant::now() > sh.deadline {
                    if !sh.stop.swap(true, Ordering::Relaxed) {
                        self.rep.errors.push(format!("exploration budget reached after {} paths", n));
                    }
                }
                self.donate();
            }
        }
        for i in 0..self.seen.len() {
            if self.seen[i] {
                self.rep.funcs.insert(self.names[i].clone());
            }
        }
        let s = &self.sv.stats;
        self.rep.queries = s.queries;
        self.rep.sat = s.sat;
        self.rep.unsat = s.unsat;
        self.rep.cached = s.cached;
        self.rep.solver_us = s.time_us;
        self.rep.max_query_us = s.max_us;
    }

    fn donate(&mut self) {
        if !self.shared.hungry.load(Ordering::Relaxed) || self.stack.is_empty() {
            return;
        }
        let mut g = self.shared.q.lock().unwrap();
        while g.0.len() < g.1 + 1 && self.stack.len() > 1 {
            let s = self.stack.remove(0);
            let mut trail = s.trail;
            trail.extend(s.forced);
            g.0.push(Job { trail, model: s.model });
            self.shared.cv.notify_one();
        }
        self.shared.hungry.store(false, Ordering::Relaxed);
    }

    fn one_path(&mut self, st: &mut State) {
        let s0 = st.steps;
        let r = self.exec(st);
        self.rep.steps += st.steps - s0;
        self.rep.paths += 1;
        let done = matches!(r, Ok(()) | Err(Stop::End(End::Done)));
        match r {
            Ok(()) => self.rep.completed += 1,
            Err(Stop::End(End::Done)) => self.rep.completed += 1,
            Err(Stop::End(End::Killed)) => self.rep.killed += 1,
            Err(Stop::End(End::PanicOk)) => self.rep.panics_ok += 1,
            Err(Stop::End(End::Violation)) => {}
            Err(Stop::Fatal(e)) => {
                let mut bt = String::new();
                for f in st.frames.iter().rev().take(8) {
                    bt.push_str("\n    in ");
                    bt.push_str(&f.f.f.name);
                }
                self.rep.errors.push(format!("{}{}\n    inputs {:?}", e, bt, Self::inputs(st)));
                self.shared.stop.store(true, Ordering::Relaxed);
            }
        }
        if done && (self.rep.completed.is_power_of_two() || self.rep.completed % 97 == 0) && self.rep.sample.len() < 24 {
            let mut seen = vec![];
            for v in st.obs.clone() {
                seen.push(match v {
                    Val::C(c) => c as u128,
                    other => {
                        let e = self.id(&other, 64);
                        let m: Vec<u128> = st.vars.iter().enumerate().map(|(i, v)| st.model.get(i).copied().unwrap_or(0).min(v.hi)).collect();
                        self.ex.eval(e, &m)
                    }
                });
            }
            self.rep.sample.push((Self::inputs(st), seen));
        }
    }

    fn exec(&mut self, st: &mut State) -> R<()> {
        loop {
            // (re)load the frame
            let depth = st.frames.len();
            if depth == 0 {
                return Err(Stop::End(End::Done));
            }
            let fr = st.frames.last_mut().unwrap() as *mut Frame;
            // SAFETY: `fr` is refreshed whenever frames are pushed or popped.
            let fr = unsafe { &mut *fr };
            let func = fr.f;
            let mut blk = &func.f.blocks[fr.block as usize];
            macro_rules! op {
                ($o:expr) => {
                    match $o {
                        Opnd::Reg(r) => fr.regs[*r as usize].clone(),
                        Opnd::C(k) => Val::C(*k),
                        Opnd::K(k) => func.kvals[*k as usize].clone(),
                    }
                };
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    if $d != u32::MAX {
                        fr.regs[$d as usize] = v;
                    }
                }};
            }
            macro_rules! goto {
                ($t:expr) => {{
                    let t: u32 = $t;
                    let nb = &func.f.blocks[t as usize];
                    if !nb.phis.is_empty() {
                        if nb.phis.len() == 1 {
                            let p = &nb.phis[0];
                            match p.inc.iter().find(|(l, _)| *l == fr.block) {
                                Some((_, o)) => {
                                    let v = op!(o);
                                    fr.regs[p.dst as usize] = v;
                                }
                                None => return fatal("phi"),
                            }
                        } else {
                            let mut tmp = Vec::with_capacity(nb.phis.len());
                            for p in &nb.phis {
                                match p.inc.iter().find(|(l, _)| *l == fr.block) {
                                    Some((_, o)) => tmp.push(op!(o)),
                                    None => return fatal("phi"),
                                }
                            }
                            for (p, v) in nb.phis.iter().zip(tmp) {
                                fr.regs[p.dst as usize] = v;
                            }
                        }
                    }
                    fr.block = t;
                    fr.ip = 0;
                    blk = nb;
                }};
            }
            let mut reframe = false;
            while !reframe {
                st.steps += 1;
                if st.steps & 0xfffff == 0 && (self.shared.stop.load(Ordering::Relaxed) || Instant::now() > self.shared.deadline) {
                    if !self.shared.stop.swap(true, Ordering::Relaxed) {
                        self.rep.errors.push("exploration budget reached inside a path".into());
                    }
                    self.rep.incomplete = true;
                    return Err(Stop::End(End::Killed));
                }
                if st.steps > st.limit {
                    let mut bt = vec![];
                    for f in st.frames.iter().rev().take(4) {
                        bt.push(f.f.f.name.clone());
                    }
                    if !st.limit_user {
                        return fatal(format!("path longer than {} instructions; in {}", st.limit, bt.join(" < ")));
                    }
                    if let (Some(c), false) = (st.panic_ok, st.limit_strict) {
                        *self.rep.covers.entry(c).or_insert(0) += 1;
                        return Err(Stop::End(End::PanicOk));
                    }
                    self.violate(st, "steps", "step-limit".into(), format!("no end after {} instructions; in {}", st.limit, bt.join(" < ")));
                    return Err(Stop::End(End::Violation));
                }
                st.m_trail = st.trail.len();
                st.m_pc = st.pc.len();
                st.m_fixed = st.fixed;
                let inst = match blk.insts.get(fr.ip as usize) {
                    Some(i) => i,
                    None => return fatal("fell off block"),
                };
                if self.vinst {
                    eprintln!("  [{}] {:?}", fr.block, inst);
                }
                match inst {
                    Inst::Bin { op, w, dst, a, b, .. } => {
                        let (x, y) = (op!(a), op!(b));
                        let v = self.bin(*op, *w, &x, &y)?;
                        set!(*dst, v);
                    }
                    Inst::Icmp { p, w, dst, a, b, .. } => {
                        let (x, y) = (op!(a), op!(b));
                        let v = self.icmp(*p, *w, &x, &y);
                        set!(*dst, v);
                    }
                    Inst::Select { dst, vec, c, a, b, w } => {
                        let c = op!(c);
                        let (x, y) = (op!(a), op!(b));
                        let v = match (&c, vec) {
                            (Val::C(k), _) => if *k & 1 == 1 { x } else { y },
                            (Val::E(e), _) => self.select_w(*e, &x, &y, *w)?,
                            (Val::Agg(cs), _) => match (&x, &y) {
                                (Val::Agg(xs), Val::Agg(ys)) => {
                                    let mut r = vec![];
                                    for i in 0..cs.len() {
                                        r.push(match &cs[i] {
                                            Val::C(k) => if *k & 1 == 1 { xs[i].clone() } else { ys[i].clone() },
                                            Val::E(e) => self.select(*e, &xs[i], &ys[i])?,
                                            _ => return fatal("select"),
                                        });
                                    }
                                    Val::Agg(Rc::new(r))
                                }
                                _ => return fatal("select"),
                            },
                            _ => return fatal("select"),
                        };
                        set!(*dst, v);
                    }
                    Inst::Cast { k, fw, tw, from, to, dst, a } => {
                        let x = op!(a);
                        let v = if *k == Cast::Same && from != to {
                            // bitcast between vectors and integers
                            match (from, to) {
                                (Ty::Vector(..), Ty::Vector(n, t)) => {
                                    let j = self.join(&x, elem_bits(from))?;
                                    self.split(&j, t.bits() * *n as u32, *n as usize)?
                                }
                                (Ty::Vector(..), _) => self.join(&x, elem_bits(from))?,
                                (_, Ty::Vector(n, _)) => self.split(&x, from.bits(), *n as usize)?,
                                _ => x,
                            }
                        } else {
                            self.cast(*k, *fw, *tw, &x)
                        };
                        set!(*dst, v);
                    }
                    Inst::Load { dst, ty, w, p } => {
                        let p = op!(p);
                        let v = match p {
                            Val::C(a) => {
                                if *w != 0 { self.ld(st, a, *w)? } else { self.ld_ty(st, a, ty)? }
                            }
                            Val::E(e) => {
                                if *w != 0 {
                                    self.sym_load(st, e, *w)?
                                } else {
                                    let a = self.conc(st, &p, 64)?;
                                    self.ld_ty(st, a, ty)?
                                }
                            }
                            _ => return fatal("load address"),
                        };
                        set!(*dst, v);
                    }
                    Inst::Store { ty, w, v, p } => {
                        let p = op!(p);
                        let v = op!(v);
                        let a = match p {
                            Val::C(a) => a,
                            p => self.conc(st, &p, 64)?,
                        };
                        if *w != 0 {
                            self.st_(st, a, *w, &v)?;
                        } else {
                            self.st_ty(st, a, ty, &v)?;
                        }
                    }
                    Inst::Gep { dst, base, off, idx } => {
                        let mut b = op!(base);
                        let mut k = *off;
                        for (o, s, w) in idx {
                            let x = op!(o);
                            match x {
                                Val::C(c) => k = k.wrapping_add((sext(c as u128, *w) as i64).wrapping_mul(*s)),
                                x => {
                                    let x = self.cast(Cast::SExt, *w, 64, &x);
                                    let y = self.bin(Bin::Mul, 64, &x, &Val::C(*s as u64))?;
                                    b = self.bin(Bin::Add, 64, &b, &y)?;
                                }
                            }
                        }
                        let v = match b {
                            Val::C(c) => Val::C(c.wrapping_add(k as u64)),
                            b => self.bin(Bin::Add, 64, &b, &Val::C(k as u64))?,
                        };
                        set!(*dst, v);
                    }
                    Inst::Alloca { dst, size, align } => {
                        let al = (*align).max(1);
                        let a = (st.sp + al - 1) / al * al;
                        st.sp = a + size;
                        if st.sp > STACK_BASE + 0x2000_0000 {
                            return fatal("stack exhausted");
                        }
                        st.mem.map(a, st.sp + 16);
                        set!(*dst, Val::C(a));
                    }
                    Inst::ExtractValue { dst, a, path } => {
                        let mut v = op!(a);
                        for p in path {
                            v = match &v {
                                Val::Agg(vs) => vs[*p as usize].clone(),
                                _ => return fatal("extractvalue"),
                            };
                        }
                        set!(*dst, v);
                    }
                    Inst::InsertValue { dst, a, v, path, .. } => {
                        let a = op!(a);
                        let v = op!(v);
                        let r = insert(&a, path, v);
                        match r {
                            Some(r) => set!(*dst, r),
                            None => return fatal("insertvalue"),
                        }
                    }
                    Inst::ExtractElement { dst, a, i } => {
                        let (a, i) = (op!(a), op!(i));
                        let i = self.conc(st, &i, 64)?;
                        match &a {
                            Val::Agg(v) if (i as usize) < v.len() => set!(*dst, v[i as usize].clone()),
                            _ => return fatal("extractelement"),
                        }
                    }
                    Inst::InsertElement { dst, a, v, i, .. } => {
                        let (a, v, i) = (op!(a), op!(v), op!(i));
                        let i = self.conc(st, &i, 64)?;
                        match insert(&a, &[i as u32], v) {
                            Some(r) => set!(*dst, r),
                            None => return fatal("insertelement"),
                        }
                    }
                    Inst::Shuffle { dst, a, b, mask, .. } => {
                        let (a, b) = (op!(a), op!(b));
                        match (&a, &b) {
                            (Val::Agg(x), Val::Agg(y)) => {
                                let r = mask
                                    .iter()
                                    .map(|m| {
                                        let m = *m as usize;
                                        if m < x.len() { x[m].clone() } else { y.get(m - x.len()).cloned().unwrap_or(Val::C(0)) }
                                    })
                                    .collect();
                                set!(*dst, Val::Agg(Rc::new(r)));
                            }
                            _ => return fatal("shuffle"),
                        }
                    }
                    Inst::AtomicRmw { dst, op, ty, p, v } => {
                        let (p, v) = (op!(p), op!(v));
                        let a = self.conc(st, &p, 64)?;
                        let w = ty.bits();
                        let old = self.ld(st, a, w)?;
                        let new = match op.as_str() {
                            "xchg" => v,
                            "add" => self.bin(Bin::Add, w, &old, &v)?,
                            "sub" => self.bin(Bin::Sub, w, &old, &v)?,
                            "and" => self.bin(Bin::And, w, &old, &v)?,
                            "or" => self.bin(Bin::Or, w, &old, &v)?,
                            "xor" => self.bin(Bin::Xor, w, &old, &v)?,
                            _ => return fatal("atomicrmw"),
                        };
                        self.st_(st, a, w, &new)?;
                        set!(*dst, old);
                    }
                    Inst::CmpXchg { dst, ty, p, c, n } => {
                        let (p, c, n) = (op!(p), op!(c), op!(n));
                        let a = self.conc(st, &p, 64)?;
                        let w = ty.bits();
                        let old = self.ld(st, a, w)?;
                        let e = self.icmp(Pred::Eq, w, &old, &c);
                        let same = self.branch_val(st, &e)?;
                        if same {
                            self.st_(st, a, w, &n)?;
                        }
                        set!(*dst, Val::Agg(Rc::new(vec![old, Val::C(same as u64)])));
                    }
                    Inst::Br { t } => {
                        goto!(*t);
                        continue;
                    }
                    Inst::CondBr { c, t, f } => {
                        let c = op!(c);
                        let b = match c {
                            Val::C(k) => k & 1 == 1,
                            c => self.branch_val(st, &c)?,
                        };
                        let x = if b { *t } else { *f };
                        goto!(x);
                        continue;
                    }
                    Inst::Switch { w, v, def, cases } => {
                        let v = op!(v);
                        let t = match v {
                            Val::C(k) => cases.iter().find(|(c, _)| *c == k).map_or(*def, |c| c.1),
                            Val::E(e) => {
                                let mut targets: Vec<(u32, Vec<u64>)> = vec![];
                                for (k, t) in cases {
                                    if t == def {
                                        continue;
                                    }
                                    match targets.iter_mut().find(|x| x.0 == *t) {
                                        Some(x) => x.1.push(*k),
                                        None => targets.push((*t, vec![*k])),
                                    }
                                }
                                let mut r = *def;
                                for (t, ks) in targets {
                                    let c = self.member(e, &ks);
                                    if self.branch(st, c)? {
                                        r = t;
                                        break;
                                    }
                                }
                                r
                            }
                            _ => return fatal(format!("switch width {}", w)),
                        };
                        goto!(t);
                        continue;
                    }
                    Inst::Ret { v } => {
                        let r = v.as_ref().map(|v| op!(v));
                        let f = st.frames.pop().unwrap();
                        st.sp = f.sp;
                        match st.frames.last_mut() {
                            None => return Err(Stop::End(End::Done)),
                            Some(p) => {
                                if let (Some(d), Some(v)) = (f.dst, r) {
                                    p.regs[d as usize] = v;
                                }
                                if let Some(n) = f.normal {
                                    self.jump(p, n)?;
                                } else {
                                    p.ip += 1;
                                }
                            }
                        }
                        reframe = true;
                        continue;
                    }
                    Inst::Call { dst, callee, args, ret, normal } => {
                        let id = match callee {
                            Callee::Name(i) => func.callees[*i as usize],
                            Callee::Op(o) => {
                                let v = op!(o);
                                let a = self.conc(st, &v, 64)?;
                                if a < FN_BASE || (a - FN_BASE) / 16 >= self.names.len() as u64 {
                                    return fatal(format!("call of {:#x}", a));
                                }
                                ((a - FN_BASE) / 16) as u32
                            }
                        };
                        match self.kinds[id as usize] {
                            Kind::Defined => {
                                let f = self.cfunc(id)?;
                                self.seen[id as usize] = true;
                                let mut regs = vec![Val::C(0); f.f.nregs as usize];
                                for (p, (_, a)) in f.f.params.iter().zip(args) {
                                    regs[*p as usize] = op!(a);
                                }
                                let sp = st.sp;
                                if st.frames.len() > 20000 {
                                    if let (Some(c), false) = (st.panic_ok, st.limit_strict) {
                                        *self.rep.covers.entry(c).or_insert(0) += 1;
                                        return Err(Stop::End(End::PanicOk));
                                    }
                                    self.violate(st, "steps", "recursion".into(), "call depth over 20000".into());
                                    return Err(Stop::End(End::Violation));
                                }
                                if self.verbose {
                                    eprintln!("{}{}", " ".repeat(st.frames.len()), self.names[id as usize]);
                                }
                                st.frames.push(Frame { f, regs, block: 0, ip: 0, dst: *dst, normal: *normal, sp });
                                reframe = true;
                                continue;
                            }
                            Kind::Panic => {
                                let av: Vec<Val> = args.iter().map(|(_, a)| op!(a)).collect();
                                return self.panicked(st, id, &av);
                            }
                            Kind::Other => {
                                let av: Vec<Val> = args.iter().map(|(_, a)| op!(a)).collect();
                                let r = self.external(st, id, args, &av, ret)?;
                                if let (Some(d), Some(v)) = (dst, r) {
                                    fr.regs[*d as usize] = v;
                                }
                                if let Some(n) = normal {
                                    goto!(*n);
                                    continue;
                                }
                            }
                        }
                    }
                    Inst::Unreachable => return fatal("reached `unreachable`"),
                    Inst::Nop => {}
                    Inst::Unsupported(s) => return fatal(format!("unsupported instruction: {}", s)),
                }
                fr.ip += 1;
            }
        }
    }

    fn jump(&mut self, p: &mut Frame, t: u32) -> R<()> {
        let nb = &p.f.f.blocks[t as usize];
        let mut tmp = vec![];
        for ph in &nb.phis {
            match ph.inc.iter().find(|(l, _)| *l == p.block) {
                Some((_, o)) => tmp.push(match o {
                    Opnd::Reg(r) => p.regs[*r as usize].clone(),
                    Opnd::C(k) => Val::C(*k),
                    Opnd::K(k) => p.f.kvals[*k as usize].clone(),
                }),
                None => return fatal("phi"),
            }
        }
        for (ph, v) in nb.phis.iter().zip(tmp) {
            p.regs[ph.dst as usize] = v;
        }
        p.block = t;
        p.ip = 0;
        Ok(())
    }

    fn read_str(&self, st: &State, a: u64, n: u64) -> String {
        let mut s = vec![];
        for i in 0..n.min(400) {
            match st.mem.read_byte(a + i) {
                Some((b, 0)) => s.push(b),
                _ => break,
            }
        }
        String::from_utf8_lossy(&s).to_string()
    }

    fn panicked(&mut self, st: &mut State, id: u32, args: &[Val]) -> R<()> {
        if let Some(c) = st.panic_ok {
            *self.rep.covers.entry(c).or_insert(0) += 1;
            return Err(Stop::End(End::PanicOk));
        }
        let name = self.names[id as usize].clone();
        let mut loc = String::new();
        let mut msg = String::new();
        // Location is the last pointer argument
        if let Some(Val::C(p)) = args.last() {
            if let (Some(f), Some(n), Some(l)) = (st.mem.fast_read(*p, 8), st.mem.fast_read(*p + 8, 8), st.mem.fast_read(*p + 16, 4)) {
                if n < 400 && f >= GLOBAL_BASE && f < HEAP_BASE {
                    loc = format!("{}:{}", self.read_str(st, f, n), l);
                }
            }
        }
        if args.len() >= 3 {
            if let (Val::C(p), Val::C(n)) = (&args[0], &args[1]) {
                if *n < 400 && *p >= GLOBAL_BASE && *p < STACK_BASE {
                    msg = self.read_str(st, *p, *n);
                }
            }
        }
        let mut bt = vec![];
        for f in st.frames.iter().rev().take(4) {
            bt.push(f.f.f.name.clone());
        }
        self.violate(st, "panic", format!("panic@{}", loc), format!("panic ({}) {} at {} in {}", name, msg, loc, bt.join(" < ")));
        Err(Stop::End(End::Violation))
    }

    fn new_var(&mut self, st: &mut State, id: u32, w: u32, hi: u128) -> R<Val> {
        let i = st.vars.len();
        if i >= MAXVARS {
            return fatal("too many symbolic variables on a path");
        }
        st.vars.push(VarDecl { id, w, hi });
        while st.model.len() <= i {
            st.model.push(0);
        }
        let e = self.ex.var(i as u32, w, hi);
        Ok(self.val(e))
    }

    /// Process number (0) or seconds on the clock (1) in the present world.
    fn surroundings(&mut self, st: &mut State, which: usize) -> R<Val> {
        let base = Val::C([1, 1_700_000_000][which]);
        if st.world == NO_WORLD {
            return Ok(base);
        }
        if let Some(v) = &st.env[which] {
            return Ok(v.clone());
        }
        let v = self.new_var(st, WORLD_VAR + st.world as u32 * 2 + which as u32, 64, [0x7fff, 0xfff_ffff][which])?;
        let v = self.bin(Bin::Add, 64, &v, &base)?;
        st.env[which] = Some(v.clone());
        Ok(v)
    }

    fn external(&mut self, st: &mut State, id: u32, args: &[(Ty, Opnd)], a: &[Val], ret: &Ty) -> R<Option<Val>> {
        let name: &str = unsafe { &*(self.names[id as usize].as_str() as *const str) };
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, args, a, ret);
        }
        if name.starts_with("sym_") {
            return self.sym_call(st, name, a);
        }
        let c = |e: &mut Self, st: &mut State, i: usize| -> R<u64> { e.conc(st, &a[i], 64) };
        if name.contains("___rust_no_alloc_shim") || name.contains("__rust_no_alloc_shim") {
            return Ok(None);
        }
        if name.contains("___rust_alloc_zeroed") || name.contains("___rust_alloc") || name.contains("__rust_alloc") {
            let (n, al) = (c(self, st, 0)?, c(self, st, 1)?);
            return Ok(Some(Val::C(self.alloc(st, n, al)?)));
        }
        Ok(match name {
            "malloc" => {
                let n = c(self, st, 0)?;
                Some(Val::C(self.alloc(st, n, 16)?))
            }
            "calloc" => {
                let n = c(self, st, 0)?.wrapping_mul(c(self, st, 1)?);
                Some(Val::C(self.alloc(st, n, 16)?))
            }
            "aligned_alloc" | "memalign" => {
                let (al, n) = (c(self, st, 0)?, c(self, st, 1)?);
                Some(Val::C(self.alloc(st, n, al)?))
            }
            "posix_memalign" => {
                let (p, al, n) = (c(self, st, 0)?, c(self, st, 1)?, c(self, st, 2)?);
                let r = self.alloc(st, n, al)?;
                self.st_(st, p, 64, &Val::C(r))?;
                Some(Val::C(0))
            }
            "realloc" => {
                let (p, n) = (c(self, st, 0)?, c(self, st, 1)?);
                let r = self.alloc(st, n, 16)?;
                if p != 0 {
                    let old = st.mem.fast_read(p - 8, 8).unwrap_or(0);
                    if !st.mem.copy(r, p, old.min(n)) {
                        return fatal("realloc copy");
                    }
                }
                Some(Val::C(r))
            }
            "free" => {
                let p = c(self, st, 0)?;
                if p != 0 {
                    if let Some(n) = st.mem.fast_read(p - 8, 8) {
                        if n >= 4 * PS {
                            st.mem.unmap(p, p + n);
                        }
                    }
                }
                None
            }
            "bcmp" | "memcmp" => {
                let (p, q, n) = (c(self, st, 0)?, c(self, st, 1)?, c(self, st, 2)?);
                Some(self.memcmp(st, p, q, n, name == "bcmp")?)
            }
            "memcpy" | "memmove" => {
                let (p, q, n) = (c(self, st, 0)?, c(self, st, 1)?, c(self, st, 2)?);
                if n > 0 && !st.mem.copy(p, q, n) {
                    return fatal("memcpy of unmapped memory");
                }
                Some(Val::C(p))
            }
            "strlen" => {
                let p = c(self, st, 0)?;
                let mut n = 0;
                loop {
                    match st.mem.read_byte(p + n) {
                        Some((0, 0)) => break,
                        Some((_, 0)) => n += 1,
                        _ => return fatal("strlen"),
                    }
                }
                Some(Val::C(n))
            }
            "write" | "writev" => {
                let n = c(self, st, 2)?;
                Some(Val::C(n))
            }
            "getenv" | "secure_getenv" => {
                // unset, or (in other worlds) a string that differs
                if st.world == 0 || st.world == NO_WORLD {
                    Some(Val::C(0))
                } else {
                    let p = self.alloc(st, 8, 8)?;
                    st.mem.set(p, 8, 0);
                    st.mem.set(p, 1, b'0' + st.world as u8);
                    Some(Val::C(p))
                }
            }
            "clock_gettime" | "gettimeofday" => {
                let p = if name == "gettimeofday" { c(self, st, 0)? } else { c(self, st, 1)? };
                let s = self.surroundings(st, 1)?;
                self.st_(st, p, 64, &s)?;
                self.st_(st, p + 8, 64, &Val::C(1))?;
                Some(Val::C(0))
            }
            "time" => Some(self.surroundings(st, 1)?),
            "__cxa_thread_atexit_impl" | "__cxa_atexit" | "pthread_mutex_lock" | "pthread_mutex_unlock" => Some(Val::C(0)),
            "pthread_key_create" => {
                let p = c(self, st, 0)?;
                st.keys.push(0);
                let n = st.keys.len() as u64;
                if !st.mem.fast_write(p, 4, n) {
                    return fatal("pthread_key_create");
                }
                Some(Val::C(0))
            }
            "pthread_key_delete" => Some(Val::C(0)),
            "pthread_getspecific" => {
                let k = c(self, st, 0)? as u32;
                Some(Val::C(st.keys.get((k as usize).wrapping_sub(1)).copied().unwrap_or(0)))
            }
            "pthread_setspecific" => {
                let (k, v) = (c(self, st, 0)? as u32, c(self, st, 1)?);
                match st.keys.get_mut((k as usize).wrapping_sub(1)) {
                    Some(x) => *x = v,
                    None => return fatal("pthread_setspecific"),
                }
                Some(Val::C(0))
            }
            "pthread_self" => Some(Val::C(1)),
            "getpid" | "gettid" | "getppid" => {
                let v = self.surroundings(st, 0)?;
                Some(self.cast(Cast::Trunc, 64, 32, &v))
            }
            "getrandom" => {
                let (p, n) = (c(self, st, 0)?, c(self, st, 1)?);
                st.mem.set(p, n, if st.world == NO_WORLD { 0 } else { st.world as u8 });
                Some(Val::C(n))
            }
            "syscall" => {
                let nr = c(self, st, 0)?;
                if nr == 318 {
                    let (p, n) = (c(self, st, 1)?, c(self, st, 2)?);
                    st.mem.set(p, n, if st.world == NO_WORLD { 0 } else { st.world as u8 });
                    Some(Val::C(n))
                } else {
                    return fatal(format!("syscall {}", nr));
                }
            }
            "abort" | "exit" | "_exit" => {
                self.violate(st, "panic", "abort".into(), format!("{} called", name));
                return Err(Stop::End(End::Violation));
            }
            _ => return fatal(format!("external function {}", name)),
        })
    }

    fn byte_id(&mut self, st: &State, a: u64) -> R<Id> {
        match st.mem.read_byte(a) {
            Some((b, 0)) => Ok(self.ex.cst(b as u128, 8)),
            Some((_, i)) => Ok(i),
            None => fatal(format!("read of unmapped address {:#x}", a)),
        }
    }
    fn memcmp(&mut self, st: &State, p: u64, q: u64, n: u64, eq_only: bool) -> R<Val> {
        if n > 1 << 20 {
            return fatal("memcmp size");
        }
        if eq_only {
            let mut r = self.ex.cst(1, 1);
            for i in 0..n {
                let (x, y) = (self.byte_id(st, p + i)?, self.byte_id(st, q + i)?);
                let e = self.ex.eq(x, y);
                r = self.ex.and(r, e);
                if self.ex.is_const(r) == Some(0) {
                    break;
                }
            }
            let r = self.ex.not(r);
            let r = self.ex.zext(r, 32);
            return Ok(self.val(r));
        }
        let mut r = self.ex.cst(0, 32);
        let m1 = self.ex.cst(0xffff_ffff, 32);
        let p1 = self.ex.cst(1, 32);
        for i in (0..n).rev() {
            let (x, y) = (self.byte_id(st, p + i)?, self.byte_id(st, q + i)?);
            let e = self.ex.eq(x, y);
            let l = self.ex.ult(x, y);
            let d = self.ex.ite(l, m1, p1);
            r = self.ex.ite(e, r, d);
        }
        Ok(self.val(r))
    }

    fn sym_call(&mut self, st: &mut State, name: &str, a: &[Val]) -> R<Option<Val>> {
        let k = |i: usize| match &a[i] {
            Val::C(k) => Ok(*k),
            _ => fatal::<u64>("symbolic argument of sym_ function"),
        };
        Ok(match name {
            "sym_u8" => Some(self.new_var(st, k(0)? as u32, 8, 0xff)?),
            "sym_u16" => Some(self.new_var(st, k(0)? as u32, 16, 0xffff)?),
            "sym_u32" => Some(self.new_var(st, k(0)? as u32, 32, 0xffff_ffff)?),
            "sym_u64" => Some(self.new_var(st, k(0)? as u32, 64, u64::MAX as u128)?),
            "sym_bool" => {
                let v = self.new_var(st, k(0)? as u32, 8, 1)?;
                Some(self.cast(Cast::Trunc, 8, 1, &v))
            }
            // (n, id) -> 0..n
            "sym_range" => {
                let n = k(0)?;
                if n == 0 {
                    return fatal("sym_range(0)");
                }
                Some(self.new_var(st, k(1)? as u32, 32, n as u128 - 1)?)
            }
            "sym_assume" => match &a[0] {
                Val::C(x) => {
                    if x & 1 == 0 {
                        return Err(Stop::End(End::Killed));
                    }
                    None
                }
                v => {
                    let c = self.id(v, 1);
                    if self.ex.eval(c, &st.model) != 1 || self.pending(st) {
                        if self.is_fixed(st, c) {
                            if self.ex.eval(c, &st.model) != 1 {
                                return Err(Stop::End(End::Killed));
                            }
                            return Ok(None);
                        }
                        if !self.pending(st) {
                            match self.query(st, c)? {
                                None => return Err(Stop::End(End::Killed)),
                                Some(m) => st.model = Self::with_model(&st.model, &m),
                            }
                        }
                    }
                    self.add_pc(st, c);
                    None
                }
            },
            "sym_assert" => {
                self.rep.asserts += 1;
                let id = k(1)?;
                match &a[0] {
                    Val::C(x) => {
                        if x & 1 == 0 {
                            self.violate(st, "assert", format!("assert#{}", id), format!("assertion {} is false", id));
                            return Err(Stop::End(End::Violation));
                        }
                    }
                    v => {
                        let c = self.id(v, 1);
                        let nc = self.ex.not(c);
                        self.rep.assert_queries += 1;
                        if let Some(m) = self.query(st, nc)? {
                            let keep = st.model.clone();
                            st.model = Self::with_model(&st.model, &m);
                            self.violate(st, "assert", format!("assert#{}", id), format!("assertion {} can be false", id));
                            st.model = keep;
                            if !self.pending(st) {
                                match self.query(st, c)? {
                                    None => return Err(Stop::End(End::Violation)),
                                    Some(m) => st.model = Self::with_model(&st.model, &m),
                                }
                            }
                            self.add_pc(st, c);
                        }
                    }
                }
                None
            }
            "sym_cover" => {
                *self.rep.covers.entry(k(0)? as u32).or_insert(0) += 1;
                None
            }
            // 0: a panic is a violation; n > 0: a panic ends the path and counts as cover n
            "sym_panic_mode" => {
                let n = k(0)? as u32;
                st.panic_ok = if n == 0 { None } else { Some(n) };
                None
            }
            // a value of this run that a native run on the same inputs must show too
            "sym_observe" => {
                st.obs.push(a[0].clone());
                None
            }
            "sym_world" => {
                st.world = k(0)?;
                st.env = [None, None];
                None
            }
            "sym_kill" => return Err(Stop::End(End::Killed)),
            "sym_limit" => {
                let n = k(0)?;
                if n == 0 && st.limit_user {
                    self.rep.max_span = self.rep.max_span.max(st.steps - st.limit_from);
                }
                st.limit_strict = n >> 63 != 0;
                let n = n & !(1 << 63);
                st.limit_user = n != 0;
                st.limit_from = st.steps;
                st.limit = if n == 0 { self.step_limit } else { st.steps + n };
                None
            }
            "sym_conc" => Some(Val::C(self.conc(st, &a[0], 64)?)),
            "sym_branch" => Some(Val::C(self.branch_val(st, &a[0])? as u64)),
            "sym_active" => Some(Val::C(1)),
            "sym_print" => {
                if self.verbose || std::env::var("SYMEX_PRINT").is_ok() {
                    eprintln!("print {:?} = {}", a.first(), match &a[0] { Val::E(e) => self.show(*e, 6), _ => String::new() });
                }
                None
            }
            _ => return fatal(format!("unknown {}", name)),
        })
    }
    /// still replaying a recorded prefix
    fn pending(&self, st: &State) -> bool {
        !st.forced.is_empty()
    }

    pub fn show(&self, e: Id, d: u32) -> String {
        let n = &self.ex.nodes[e as usize];
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{}", n.k),
            Op::Var => format!("v{}", n.lo),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.lo, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Ite => format!("ite({}, {}, {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[(Ty, Opnd)], a: &[Val], ret: &Ty) -> R<Option<Val>> {
        let base = n;
        if base.starts_with("lifetime") || base.starts_with("dbg") || base.starts_with("experimental.noalias") || base.starts_with("donothing") || base.starts_with("assume") || base.starts_with("prefetch") {
            return Ok(None);
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let len = self.conc(st, &a[2], 64)?;
            if len == 0 {
                return Ok(None);
            }
            let (p, q) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?);
            if !st.mem.copy(p, q, len) {
                return fatal(format!("memcpy of unmapped memory {:#x} <- {:#x} ({})", p, q, len));
            }
            return Ok(None);
        }
        if base.starts_with("memset") {
            let (p, len) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[2], 64)?);
            match &a[1] {
                Val::C(k) => {
                    if !st.mem.set(p, len, *k as u8) {
                        return fatal("memset of unmapped memory");
                    }
                }
                v => {
                    let e = self.id(v, 8);
                    for i in 0..len {
                        if !st.mem.write_byte(p + i, 0, e) {
                            return fatal("memset of unmapped memory");
                        }
                    }
                }
            }
            return Ok(None);
        }
        if base.starts_with("expect") {
            return Ok(Some(a[0].clone()));
        }
        if base.starts_with("threadlocal.address") || base.starts_with("launder") || base.starts_with("strip") {
            return Ok(Some(a[0].clone()));
        }
        if base.starts_with("is.constant") {
            return Ok(Some(Val::C(0)));
        }
        if base.starts_with("objectsize") {
            return Ok(Some(Val::C(!0)));
        }
        if base.starts_with("trap") || base.starts_with("ubsantrap") {
            if let Some(c) = st.panic_ok {
                *self.rep.covers.entry(c).or_insert(0) += 1;
                return Err(Stop::End(End::PanicOk));
            }
            self.violate(st, "panic", "trap".into(), "trap".into());
            return Err(Stop::End(End::Violation));
        }
        if base.starts_with("x86.sse2.pmovmskb") {
            let vs = match &a[0] {
                Val::Agg(v) => v.clone(),
                _ => return fatal("pmovmskb"),
            };
            let mut bits = vec![];
            for v in vs.iter() {
                bits.push(match v {
                    Val::C(k) => Val::C(k >> 7 & 1),
                    v => {
                        let e = self.id(v, 8);
                        let e = self.ex.extract(e, 7, 1);
                        self.val(e)
                    }
                });
            }
            let j = self.join(&Val::Agg(Rc::new(bits)), 1)?;
            return Ok(Some(self.cast(Cast::ZExt, vs.len() as u32, 32, &j)));
        }
        if let Some(r) = base.strip_prefix("vector.reduce.") {
            let vs = match &a[0] {
                Val::Agg(v) => v.clone(),
                _ => return fatal("reduce"),
            };
            let w = elem_bits(&args[0].0);
            let k = r.split('.').next().unwrap();
            let mut acc = vs[0].clone();
            for v in vs.iter().skip(1) {
                acc = match k {
                    "or" => self.bin(Bin::Or, w, &acc, v)?,
                    "and" => self.bin(Bin::And, w, &acc, v)?,
                    "add" => self.bin(Bin::Add, w, &acc, v)?,
                    "xor" => self.bin(Bin::Xor, w, &acc, v)?,
                    "umax" | "umin" => {
                        let c = self.icmp(if k == "umax" { Pred::Ugt } else { Pred::Ult }, w, &acc, v);
                        self.pick(&c, &acc, v, w)?
                    }
                    _ => return fatal(format!("intrinsic {}", n)),
                };
            }
            return Ok(Some(acc));
        }
        // elementwise on vectors
        let ty = args.first().map(|x| x.0.clone()).unwrap_or(Ty::Void);
        if let Ty::Vector(cnt, et) = &ty {
            let mut out = vec![];
            for i in 0..*cnt as usize {
                let mut aa = vec![];
                let mut at = vec![];
                for (j, v) in a.iter().enumerate() {
                    match v {
                        Val::Agg(vs) => {
                            aa.push(vs[i].clone());
                            at.push(((**et).clone(), args[j].1.clone()));
                        }
                        v => {
                            aa.push(v.clone());
                            at.push(args[j].clone());
                        }
                    }
                }
                match self.scalar_intr(st, n, &at, &aa)? {
                    Some(v) => out.push(v),
                    None => return fatal(format!("vector intrinsic {}", n)),
                }
            }
            return Ok(Some(Val::Agg(Rc::new(out))));
        }
        let _ = ret;
        match self.scalar_intr(st, n, args, a)? {
            Some(v) => Ok(Some(v)),
            None => fatal(format!("intrinsic {}", n)),
        }
    }
    fn pick(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> R<Val> {
        match c {
            Val::C(k) => Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }),
            Val::E(e) => self.select_w(*e, a, b, w),
            _ => fatal("pick"),
        }
    }
    fn scalar_intr(&mut self, st: &mut State, n: &str, args: &[(Ty, Opnd)], a: &[Val]) -> R<Option<Val>> {
        let _ = &st;
        let w = args.first().map(|x| x.0.bits()).unwrap_or(0);
        let k: Vec<&str> = n.split('.').collect();
        Ok(Some(match k[0] {
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let op = match &k[0][1..] {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    _ => Bin::Mul,
                };
                let signed = k[0].starts_with('s');
                let r = self.bin(op, w, &a[0], &a[1])?;
                let ov = match (&a[0], &a[1]) {
                    (Val::C(x), Val::C(y)) if w <= 64 => {
                        let o = if signed {
                            let (x, y) = (sext(*x as u128, w), sext(*y as u128, w));
                            let t = match op {
                                Bin::Add => x + y,
                                Bin::Sub => x - y,
                                _ => x * y,
                            };
                            t != sext(t as u128 & mask(w), w)
                        } else {
                            let (x, y) = (*x as u128, *y as u128);
                            match op {
                                Bin::Add => x + y > mask(w),
                                Bin::Sub => x < y,
                                _ => x * y > mask(w),
                            }
                        };
                        Val::C(o as u64)
                    }
                    _ => match (op, signed) {
                        (Bin::Add, false) => {
                            let (i, j) = (self.id(&a[0], w), self.id(&a[1], w));
                            let (ii, jj) = (self.ex.info[i as usize], self.ex.info[j as usize]);
                            if ii.hi.checked_add(jj.hi).map_or(false, |h| h <= mask(w)) {
                                Val::C(0)
                            } else {
                                self.icmp(Pred::Ult, w, &r, &a[0])
                            }
                        }
                        (Bin::Sub, false) => self.icmp(Pred::Ult, w, &a[0], &a[1]),
                        _ => {
                            let nw = if op == Bin::Mul { 2 * w } else { w + 1 };
                            if nw > 128 {
                                return fatal("wide overflow arithmetic");
                            }
                            let ck = if signed { Cast::SExt } else { Cast::ZExt };
                            let (x, y) = (self.cast(ck, w, nw, &a[0]), self.cast(ck, w, nw, &a[1]));
                            let t = self.bin(op, nw, &x, &y)?;
                            let back = self.cast(ck, w, nw, &r);
                            self.icmp(Pred::Ne, nw, &t, &back)
                        }
                    },
                };
                if k.get(1) == Some(&"sat") {
                    if signed {
                        return fatal("signed saturation");
                    }
                    let lim = if op == Bin::Sub { Val::C(0) } else { Self::mkc(mask(w), w) };
                    self.pick(&ov, &lim, &r, w)?
                } else {
                    Val::Agg(Rc::new(vec![r, ov]))
                }
            }
            "umin" | "umax" | "smin" | "smax" => {
                let p = match k[0] {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, w, &a[0], &a[1]);
                self.pick(&c, &a[0], &a[1], w)?
            }
            "ucmp" | "scmp" => {
                let (l, g) = if k[0] == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                // result width from the suffix: llvm.ucmp.i8.i64
                let rw: u32 = k[1][1..].parse().unwrap_or(8);
                let c = self.icmp(l, w, &a[0], &a[1]);
                let d = self.icmp(g, w, &a[0], &a[1]);
                let z = self.pick(&d, &Val::C(1), &Val::C(0), rw)?;
                self.pick(&c, &Val::C(m64(rw)), &z, rw)?
            }
            "abs" => {
                let neg = self.bin(Bin::Sub, w, &Val::C(0), &a[0])?;
                let c = self.icmp(Pred::Slt, w, &a[0], &Val::C(0));
                self.pick(&c, &neg, &a[0], w)?
            }
            "ptrmask" => self.bin(Bin::And, 64, &a[0], &a[1])?,
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => match &a[0] {
                Val::C(x) => {
                    let x = *x;
                    Val::C(match k[0] {
                        "ctpop" => x.count_ones() as u64,
                        "ctlz" => (x.leading_zeros() as u64).saturating_sub(64 - w as u64),
                        "cttz" => (x.trailing_zeros() as u64).min(w as u64),
                        "bswap" => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    })
                }
                v => {
                    let e = self.id(v, w);
                    match k[0] {
                        "cttz" | "ctlz" => {
                            let mut r = self.ex.cst(w as u128, w);
                            for i in 0..w {
                                // outermost test must be the lowest (cttz) / highest (ctlz) bit
                                let bit = if k[0] == "cttz" { w - 1 - i } else { i };
                                let b = self.ex.extract(e, bit, 1);
                                let pos = if k[0] == "cttz" { bit } else { w - 1 - bit };
                                let c = self.ex.cst(pos as u128, w);
                                r = self.ex.ite(b, c, r);
                            }
                            self.val(r)
                        }
                        "ctpop" => {
                            let mut r = self.ex.cst(0, w);
                            for i in 0..w {
                                let b = self.ex.extract(e, i, 1);
                                let z = self.ex.zext(b, w);
                                r = self.ex.bin(Bin::Add, r, z);
                            }
                            self.val(r)
                        }
                        "bswap" => {
                            let mut acc: Option<Id> = None;
                            for i in (0..w / 8).rev() {
                                let b = self.ex.extract(e, i * 8, 8);
                                acc = Some(match acc {
                                    None => b,
                                    Some(lo) => self.ex.concat(b, lo),
                                });
                            }
                            self.val(acc.unwrap())
                        }
                        _ => return Ok(None),
                    }
                }
            },
            "fshl" | "fshr" => {
                let s = match &a[2] {
                    Val::C(s) => (*s % w as u64) as u32,
                    _ => return fatal("symbolic funnel shift"),
                };
                let s = if k[0] == "fshl" { s } else { (w - s) % w };
                // fshl by s: high w bits of (a:b) << s ; fshr by t = fshl by w-t except t == 0 gives b
                if s == 0 {
                    return Ok(Some(if k[0] == "fshl" { a[0].clone() } else { a[1].clone() }));
                }
                let x = self.bin(Bin::Shl, w, &a[0], &Val::C(s as u64))?;
                let y = self.bin(Bin::LShr, w, &a[1], &Val::C((w - s) as u64))?;
                self.bin(Bin::Or, w, &x, &y)?
            }
            _ => return Ok(None),
        }))
    }
}

fn insert(a: &Val, path: &[u32], v: Val) -> Option<Val> {
    match a {
        Val::Agg(vs) => {
            let mut r = (**vs).clone();
            let i = path[0] as usize;
            if i >= r.len() {
                return None;
            }
            r[i] = if path.len() == 1 { v } else { insert(&r[i], &path[1..], v)? };
            Some(Val::Agg(Rc::new(r)))
        }
        _ => None,
    }
}

impl Job {
    pub fn root() -> Job {
        Job { trail: vec![], model: vec![] }
    }
}
