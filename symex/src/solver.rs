//! Thin FFI to libz3 plus slicing, caching and statistics.

use crate::expr::*;
use crate::ir::Bin;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3", kind = "dylib")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, id: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}", a, b, c)
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub type Model = Vec<(u32, u128)>;

pub struct Solver {
    c: P,
    s: P,
    bools: HashMap<Id, P>,
    bvs: HashMap<Id, P>,
    cache: HashMap<Vec<Id>, Option<std::rc::Rc<Model>>>,
    pub stats: Stats,
    pub dump: Option<String>,
    pub dump_every: u64,
    pub dumped: u64,
    pub tag: usize,
}

impl Solver {
    pub fn new(tag: usize) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let set = |k: &str, v: &str| {
                let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
                Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            };
            set("model", "true");
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Solver {
                c,
                s,
                bools: HashMap::new(),
                bvs: HashMap::new(),
                cache: HashMap::new(),
                stats: Stats::default(),
                dump: None,
                dump_every: 1,
                dumped: 0,
                tag,
            }
        }
    }
    fn num(&self, k: u128, w: u32) -> P {
        unsafe {
            let t = Z3_mk_bv_sort(self.c, w);
            if k <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, k as u64, t)
            } else {
                let s = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), t)
            }
        }
    }
    fn b(&mut self, ex: &Exprs, e: Id) -> P {
        if let Some(p) = self.bools.get(&e) {
            return *p;
        }
        let n = ex.nodes[e as usize];
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Bin(Bin::And) => {
                    let v = [self.b(ex, n.a), self.b(ex, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Bin(Bin::Or) => {
                    let v = [self.b(ex, n.a), self.b(ex, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Bin(Bin::Xor) => {
                    let x = self.b(ex, n.a);
                    if ex.is_const(n.b) == Some(1) {
                        Z3_mk_not(c, x)
                    } else {
                        let y = self.b(ex, n.b);
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Eq => {
                    if ex.w(n.a) == 1 {
                        let (x, y) = (self.b(ex, n.a), self.b(ex, n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.v(ex, n.a), self.v(ex, n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.v(ex, n.a), self.v(ex, n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.v(ex, n.a), self.v(ex, n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Ite => {
                    let (g, x, y) = (self.b(ex, n.a), self.b(ex, n.b), self.b(ex, n.c));
                    Z3_mk_ite(c, g, x, y)
                }
                _ => {
                    let x = self.v(ex, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.bools.insert(e, r);
        r
    }
    fn v(&mut self, ex: &Exprs, e: Id) -> P {
        if let Some(p) = self.bvs.get(&e) {
            return *p;
        }
        let n = ex.nodes[e as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => {
                    let s = CString::new(format!("v{}_{}", n.lo, n.w)).unwrap();
                    let s = Z3_mk_string_symbol(c, s.as_ptr());
                    let t = Z3_mk_bv_sort(c, n.w);
                    Z3_mk_const(c, s, t)
                }
                Op::Concat => {
                    let (x, y) = (self.v(ex, n.a), self.v(ex, n.b));
                    Z3_mk_concat(c, x, y)
                }
                Op::Extract => {
                    let x = self.v(ex, n.a);
                    Z3_mk_extract(c, n.lo + n.w - 1, n.lo, x)
                }
                Op::ZExt => {
                    let x = self.v(ex, n.a);
                    Z3_mk_zero_ext(c, n.w - ex.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.v(ex, n.a);
                    Z3_mk_sign_ext(c, n.w - ex.w(n.a), x)
                }
                Op::Bin(op) if n.w > 1 || !matches!(op, Bin::And | Bin::Or | Bin::Xor) => {
                    let (x, y) = (self.v(ex, n.a), self.v(ex, n.b));
                    match op {
                        Bin::Add => Z3_mk_bvadd(c, x, y),
                        Bin::Sub => Z3_mk_bvsub(c, x, y),
                        Bin::Mul => Z3_mk_bvmul(c, x, y),
                        Bin::UDiv => Z3_mk_bvudiv(c, x, y),
                        Bin::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Bin::URem => Z3_mk_bvurem(c, x, y),
                        Bin::SRem => Z3_mk_bvsrem(c, x, y),
                        Bin::Shl => Z3_mk_bvshl(c, x, y),
                        Bin::LShr => Z3_mk_bvlshr(c, x, y),
                        Bin::AShr => Z3_mk_bvashr(c, x, y),
                        Bin::And => Z3_mk_bvand(c, x, y),
                        Bin::Or => Z3_mk_bvor(c, x, y),
                        Bin::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                Op::Ite if n.w > 1 => {
                    let (g, x, y) = (self.b(ex, n.a), self.v(ex, n.b), self.v(ex, n.c));
                    Z3_mk_ite(c, g, x, y)
                }
                _ => {
                    let g = self.b(ex, e);
                    let (x, y) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, g, x, y)
                }
            }
        };
        self.bvs.insert(e, r);
        r
    }

    /// Constraints of `pc` transitively connected to `sup` by shared variables.
    fn slice(ex: &Exprs, pc: &[Id], sup: &VarSet) -> Vec<Id> {
        let mut s = *sup;
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if !used[i] {
                    let cs = &ex.sup[*c as usize];
                    if cs.meets(&s) {
                        used[i] = true;
                        out.push(*c);
                        if !cs.within(&s) {
                            s = s.or(cs);
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out.sort();
        out.dedup();
        out
    }

    /// Is `pc && extra` satisfiable? Returns values for the variables involved.
    /// `vars` gives (width, hi) of every variable of the path.
    pub fn check(&mut self, ex: &mut Exprs, pc: &[Id], extra: Id, vars: &[(u32, u128)]) -> Result<Option<std::rc::Rc<Model>>, String> {
        if let Some(k) = ex.is_const(extra) {
            return Ok(if k == 1 { Some(std::rc::Rc::new(vec![])) } else { None });
        }
        let mut key = Self::slice(ex, pc, &ex.sup[extra as usize]);
        key.push(extra);
        if let Some(r) = self.cache.get(&key) {
            self.stats.cached += 1;
            return Ok(r.clone());
        }
        let mut sup = VarSet::default();
        for k in &key {
            sup = sup.or(&ex.sup[*k as usize]);
        }
        let t0 = Instant::now();
        let res = unsafe {
            let c = self.c;
            Z3_solver_push(c, self.s);
            for k in &key {
                let a = self.b(ex, *k);
                Z3_solver_assert(c, self.s, a);
            }
            let mut vs = vec![];
            for i in sup.iter() {
                let (w, hi) = vars[i as usize];
                let v = ex.var(i, w, hi);
                let p = self.v(ex, v);
                if hi < mask(w) {
                    let h = self.num(hi, w);
                    let a = Z3_mk_bvule(c, p, h);
                    Z3_solver_assert(c, self.s, a);
                }
                vs.push((i, p));
            }
            let r = Z3_solver_check(c, self.s);
            if let Some(d) = &self.dump {
                if self.stats.queries % self.dump_every == 0 && self.dumped < 400 {
                    let t = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().to_string();
                    let st = match r {
                        1 => "sat",
                        -1 => "unsat",
                        _ => "unknown",
                    };
                    let _ = std::fs::write(
                        format!("{}/q{}_{}.smt2", d, self.tag, self.stats.queries),
                        format!("(set-info :status {})\n(set-logic QF_BV)\n{}\n(check-sat)\n", st, t),
                    );
                    self.dumped += 1;
                }
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut vals = vec![];
                    for (i, p) in vs {
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, p, true, &mut o);
                        let mut u = 0u64;
                        let val = if Z3_get_numeral_uint64(c, o, &mut u) {
                            u as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(c, o)).to_string_lossy().parse::<u128>().unwrap_or(0)
                        };
                        vals.push((i, val));
                    }
                    Z3_model_dec_ref(c, m);
                    Ok(Some(std::rc::Rc::new(vals)))
                }
                -1 => Ok(None),
                _ => Err("solver returned unknown".to_string()),
            };
            Z3_solver_pop(c, self.s, 1);
            out
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        let res = res?;
        if res.is_some() {
            self.stats.sat += 1;
        } else {
            self.stats.unsat += 1;
        }
        if self.cache.len() > 2_000_000 {
            self.cache.clear();
        }
        self.cache.insert(key, res.clone());
        Ok(res)
    }
}
