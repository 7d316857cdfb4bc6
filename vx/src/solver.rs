//! z3 back end (C API) with independence slicing, model reuse and a query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint};
use std::rc::Rc;

type P = *mut u8;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, s: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_true(c: P) -> P; fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P; fn Z3_mk_not(c: P, a: P) -> P; fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P; fn Z3_mk_bvsub(c: P, a: P, b: P) -> P; fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvurem(c: P, a: P, b: P) -> P; fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P; fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P; fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P; fn Z3_mk_bvor(c: P, a: P, b: P) -> P; fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P; fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P; fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P; fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_fresh_const(c: P, p: *const c_char, s: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P; fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P; fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

pub type Model = HashMap<u32, Vec<u64>>;
#[derive(Clone, Debug)]
pub enum Res { Sat(Rc<Model>), Unsat, Unknown }

extern "C" fn on_err(c: P, e: c_uint) {
    unsafe { eprintln!("vx: z3 error {}", CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy()); }
    std::process::exit(3);
}

pub struct Solver {
    ctx: P,
    bv: HashMap<E, P>,
    bo: HashMap<E, P>,
    cache: HashMap<Vec<E>, Res>,
    shapes: HashMap<Vec<u64>, Res>,
    pub queries: u64,
    pub cached: u64,
    pub nanos: u64,
    pub max_ns: u64,
    pub rlimit: u32,
    pub seed: u32,
    pub fallbacks: u64,
    pub int_queries: u64,
    int_text: String, bv_text: String,
    pub guessed: u64,
    recent: Vec<Rc<Model>>,
    rng: u64,
}

impl Solver {
    pub fn new(rlimit: u32, seed: u32) -> Self {
        let mut s = Solver { ctx: std::ptr::null_mut(), bv: HashMap::new(), bo: HashMap::new(), cache: HashMap::new(), shapes: HashMap::new(),
            queries: 0, cached: 0, nanos: 0, max_ns: 0, rlimit, seed, fallbacks: 0, int_queries: 0, int_text: String::new(), bv_text: String::new(), guessed: 0, recent: vec![], rng: 0x9e3779b97f4a7c15 ^ seed as u64 };
        s.reset_ctx(); s
    }
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    fn reset_ctx(&mut self) {
        unsafe {
            if !self.ctx.is_null() { Z3_del_context(self.ctx); }
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
        }
        self.bv.clear(); self.bo.clear();
    }
    fn num(&self, v: &[u64], w: u32) -> P { unsafe {
        let s = Z3_mk_bv_sort(self.ctx, w);
        if v.len() == 1 || v[1..].iter().all(|x| *x == 0) { return Z3_mk_unsigned_int64(self.ctx, v[0], s); }
        // build from 64-bit pieces
        let mut r: P = std::ptr::null_mut(); let mut done = 0;
        for x in v { let n = 64.min(w - done); let p = Z3_mk_unsigned_int64(self.ctx, *x, Z3_mk_bv_sort(self.ctx, n)); r = if done == 0 { p } else { Z3_mk_concat(self.ctx, p, r) }; done += n; }
        r
    } }
    fn as_bool(&mut self, x: &Exprs, e: E) -> P {
        if let Some(p) = self.bo.get(&e) { return *p; }
        let c = self.ctx;
        use Node::*;
        let n = x.node(e).clone();
        let r = unsafe { match n {
            C(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            Eq(a, b) => if x.w(a) == 1 { let (p, q) = (self.as_bool(x, a), self.as_bool(x, b)); Z3_mk_eq(c, p, q) } else { let (p, q) = (self.as_bv(x, a), self.as_bv(x, b)); Z3_mk_eq(c, p, q) },
            Ult(a, b) => { let (p, q) = (self.as_bv(x, a), self.as_bv(x, b)); Z3_mk_bvult(c, p, q) }
            Slt(a, b) => { let (p, q) = (self.as_bv(x, a), self.as_bv(x, b)); Z3_mk_bvslt(c, p, q) }
            And(a, b) => { let v = [self.as_bool(x, a), self.as_bool(x, b)]; Z3_mk_and(c, 2, v.as_ptr()) }
            Or(a, b) => { let v = [self.as_bool(x, a), self.as_bool(x, b)]; Z3_mk_or(c, 2, v.as_ptr()) }
            Xor(a, b) => if x.cval(b) == Some(1) { let p = self.as_bool(x, a); Z3_mk_not(c, p) } else { let (p, q) = (self.as_bool(x, a), self.as_bool(x, b)); Z3_mk_xor(c, p, q) },
            Ite(i, a, b) => { let (i, p, q) = (self.as_bool(x, i), self.as_bool(x, a), self.as_bool(x, b)); Z3_mk_ite(c, i, p, q) }
            _ => { let p = self.as_bv(x, e); let one = self.num(&[1], 1); Z3_mk_eq(c, p, one) }
        } };
        self.bo.insert(e, r); r
    }
    fn as_bv(&mut self, x: &Exprs, e: E) -> P {
        if let Some(p) = self.bv.get(&e) { return *p; }
        let c = self.ctx;
        use Node::*;
        let w = x.w(e);
        let n = x.node(e).clone();
        macro_rules! b2 { ($f:ident, $a:expr, $b:expr) => {{ let (p, q) = (self.as_bv(x, $a), self.as_bv(x, $b)); $f(c, p, q) }} }
        let r = unsafe { match n {
            C(v) => self.num(&[v as u64, (v >> 64) as u64], w),
            W(v) => self.num(&v, w),
            Sym(i) => Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), Z3_mk_bv_sort(c, w)),
            Eq(..) | Ult(..) | Slt(..) => { let p = self.as_bool(x, e); Z3_mk_ite(c, p, self.num(&[1], 1), self.num(&[0], 1)) }
            And(..) | Or(..) | Xor(..) | Ite(..) if w == 1 => { let p = self.as_bool(x, e); Z3_mk_ite(c, p, self.num(&[1], 1), self.num(&[0], 1)) }
            Add(a, b) => b2!(Z3_mk_bvadd, a, b), Sub(a, b) => b2!(Z3_mk_bvsub, a, b), Mul(a, b) => b2!(Z3_mk_bvmul, a, b),
            UDiv(a, b) => b2!(Z3_mk_bvudiv, a, b), URem(a, b) => b2!(Z3_mk_bvurem, a, b), SDiv(a, b) => b2!(Z3_mk_bvsdiv, a, b), SRem(a, b) => b2!(Z3_mk_bvsrem, a, b),
            Shl(a, b) => b2!(Z3_mk_bvshl, a, b), LShr(a, b) => b2!(Z3_mk_bvlshr, a, b), AShr(a, b) => b2!(Z3_mk_bvashr, a, b),
            And(a, b) => b2!(Z3_mk_bvand, a, b), Or(a, b) => b2!(Z3_mk_bvor, a, b), Xor(a, b) => b2!(Z3_mk_bvxor, a, b),
            Ite(i, a, b) => { let (i, p, q) = (self.as_bool(x, i), self.as_bv(x, a), self.as_bv(x, b)); Z3_mk_ite(c, i, p, q) }
            Concat(a, b) => b2!(Z3_mk_concat, a, b),
            Extract(a, lo) => { let p = self.as_bv(x, a); Z3_mk_extract(c, lo + w - 1, lo, p) }
            ZExt(a) => { let k = w - x.w(a); let p = self.as_bv(x, a); Z3_mk_zero_ext(c, k, p) }
            SExt(a) => { let k = w - x.w(a); let p = self.as_bv(x, a); Z3_mk_sign_ext(c, k, p) }
        } };
        self.bv.insert(e, r); r
    }

    /// Constraints of `pc` connected to `seed` through shared symbols.
    pub fn slice(x: &Exprs, pc: &[E], seed: &[E]) -> Vec<E> {
        let mut syms: std::collections::HashSet<u32> = Default::default();
        for s in seed { syms.extend(x.deps(*s).iter()); }
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let d = x.deps(*c);
                if d.iter().any(|s| syms.contains(s)) { used[i] = true; ch = true; syms.extend(d.iter()); }
            }
            if !ch { break; }
        }
        pc.iter().zip(used).filter(|(_, u)| *u).map(|(c, _)| *c).collect()
    }

    /// Is pc (assumed satisfiable by itself) together with `cond` satisfiable?
    pub fn check(&mut self, x: &Exprs, pc: &[E], cond: E) -> Res {
        match x.cval(cond) { Some(0) => return Res::Unsat, Some(_) => return Res::Sat(Rc::new(HashMap::new())), None => {} }
        let mut q = Self::slice(x, pc, &[cond]);
        q.push(cond); q.sort(); q.dedup();
        if let Some(r) = self.cache.get(&q) { self.cached += 1; return r.clone(); }
        // the same query over other symbols has the same verdict
        let shape = Self::shape(x, &q);
        if let Some((k, syms)) = &shape {
            if let Some(r) = self.shapes.get(k) {
                self.cached += 1;
                let r = match r { Res::Sat(m) => Res::Sat(Rc::new(m.iter().map(|(i, v)| (syms[*i as usize], v.clone())).collect())), o => o.clone() };
                self.cache.insert(q, r.clone());
                return r;
            }
        }
        let r = self.solve(x, &q);
        if let Some((k, syms)) = shape {
            match &r {
                Res::Sat(m) => { let pos: HashMap<u32, u32> = syms.iter().enumerate().map(|(i, s)| (*s, i as u32)).collect(); self.shapes.insert(k, Res::Sat(Rc::new(m.iter().filter_map(|(i, v)| pos.get(i).map(|p| (*p, v.clone()))).collect()))); }
                Res::Unsat => { self.shapes.insert(k, Res::Unsat); }
                Res::Unknown => {}
            }
        }
        self.cache.insert(q, r.clone());
        r
    }
    /// The query with its symbols numbered in order of appearance, and these symbols; None if it is large.
    fn shape(x: &Exprs, q: &[E]) -> Option<(Vec<u64>, Vec<u32>)> {
        fn go(x: &Exprs, e: E, seen: &mut HashMap<E, u64>, syms: &mut Vec<u32>, out: &mut Vec<u64>) -> bool {
            if let Some(i) = seen.get(&e) { out.push(1000 + i); return true; }
            if out.len() > 800 { return false; }
            use crate::expr::Node::*;
            let (t, kids, extra): (u64, [Option<E>; 3], u64) = match x.node(e) {
                C(v) => { out.extend([1, *v as u64, (*v >> 64) as u64]); (2, [None; 3], 0) }
                W(v) => { out.push(3); out.extend(v.iter()); (4, [None; 3], 0) }
                Sym(i) => { out.push(5); let k = syms.iter().position(|s| s == i).unwrap_or_else(|| { syms.push(*i); syms.len() - 1 }); out.push(k as u64); (6, [None; 3], 0) }
                Add(a, b) => (7, [Some(*a), Some(*b), None], 0), Sub(a, b) => (8, [Some(*a), Some(*b), None], 0), Mul(a, b) => (9, [Some(*a), Some(*b), None], 0),
                UDiv(a, b) => (10, [Some(*a), Some(*b), None], 0), URem(a, b) => (11, [Some(*a), Some(*b), None], 0), SDiv(a, b) => (12, [Some(*a), Some(*b), None], 0), SRem(a, b) => (13, [Some(*a), Some(*b), None], 0),
                Shl(a, b) => (14, [Some(*a), Some(*b), None], 0), LShr(a, b) => (15, [Some(*a), Some(*b), None], 0), AShr(a, b) => (16, [Some(*a), Some(*b), None], 0),
                And(a, b) => (17, [Some(*a), Some(*b), None], 0), Or(a, b) => (18, [Some(*a), Some(*b), None], 0), Xor(a, b) => (19, [Some(*a), Some(*b), None], 0),
                Eq(a, b) => (20, [Some(*a), Some(*b), None], 0), Ult(a, b) => (21, [Some(*a), Some(*b), None], 0), Slt(a, b) => (22, [Some(*a), Some(*b), None], 0),
                Ite(a, b, c) => (23, [Some(*a), Some(*b), Some(*c)], 0), Concat(a, b) => (24, [Some(*a), Some(*b), None], 0),
                Extract(a, l) => (25, [Some(*a), None, None], *l as u64), ZExt(a) => (26, [Some(*a), None, None], 0), SExt(a) => (27, [Some(*a), None, None], 0),
            };
            out.extend([t, x.w(e) as u64, extra]);
            for k in kids.into_iter().flatten() { if !go(x, k, seen, syms, out) { return false; } }
            let n = seen.len() as u64; seen.insert(e, n);
            true
        }
        let (mut seen, mut syms, mut out) = (HashMap::new(), vec![], vec![]);
        for e in q { if !go(x, *e, &mut seen, &mut syms, &mut out) { return None; } out.push(999); }
        Some((out, syms))
    }
    pub fn solve(&mut self, x: &Exprs, q: &[E]) -> Res {
        if self.bv.len() + self.bo.len() > 400_000 { self.reset_ctx(); }
        self.queries += 1;
        let t = std::time::Instant::now();
        self.int_text.clear();
        if q.iter().any(|e| x.info[*e as usize].nl) {
            let r = match self.guess(x, q) { Some(m) => { self.guessed += 1; Res::Sat(m) } None => self.solve_int(x, q) };
            if !matches!(r, Res::Unknown) { let ns = t.elapsed().as_nanos() as u64; self.nanos += ns; self.max_ns = self.max_ns.max(ns); return r; }
        }
        let nl = q.iter().any(|e| x.info[*e as usize].nl);
        let mut res = self.solve_bv(x, q, if nl { self.rlimit } else { self.rlimit / 16 });
        let few = { let mut d: Vec<u32> = q.iter().flat_map(|e| x.deps(*e).iter().cloned().collect::<Vec<_>>()).collect(); d.sort(); d.dedup(); d.len() <= 40 };
        if !nl && res.is_none() && !few { res = self.solve_bv(x, q, self.rlimit); }
        else if !nl && res.is_none() {
            // long sums are easier as integers
            res = match self.solve_int(x, q) { Res::Unknown => None, r => Some(r) };
            if res.is_none() { res = self.solve_bv(x, q, self.rlimit); }
        }
        let res = match res { Some(r) => r, None => { let (txt, it) = (std::mem::take(&mut self.bv_text), std::mem::take(&mut self.int_text)); self.fallbacks += 1; self.portfolio(&txt, &it) } };
        let ns = t.elapsed().as_nanos() as u64;
        if std::env::var("VX_Q").is_ok() { eprintln!("Q {}us n={} {}", ns / 1000, q.len(), q.iter().map(|e| x.show(*e, 14)).collect::<Vec<_>>().join(" && ")); }
        self.nanos += ns; self.max_ns = self.max_ns.max(ns);
        res
    }
    /// None: gave up (the query is left in bv_text)
    fn solve_bv(&mut self, x: &Exprs, q: &[E], rlimit: u32) -> Option<Res> {
        let c = self.ctx;
        unsafe {
            let logic = CString::new("QF_BV").unwrap();
            let s = if q.len() < 40 && rlimit < self.rlimit { Z3_mk_simple_solver(c) } else { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, logic.as_ptr())) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.seed);
            Z3_solver_set_params(c, s, p);
            Z3_params_dec_ref(c, p);
            for e in q { let b = self.as_bool(x, *e); Z3_solver_assert(c, s, b); }
            let r = match Z3_solver_check(c, s) {
                -1 => Some(Res::Unsat),
                1 => {
                    let m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
                    let mut syms: Vec<u32> = q.iter().flat_map(|e| x.deps(*e).iter().cloned().collect::<Vec<_>>()).collect();
                    syms.sort(); syms.dedup();
                    let mut mm = HashMap::new();
                    for i in syms {
                        let w = x.syms[i as usize].w;
                        let t = self.as_bv(x, x.sym_expr[i as usize]);
                        let mut v: P = std::ptr::null_mut();
                        if !Z3_model_eval(c, m, t, true, &mut v) { eprintln!("vx: model eval failed"); std::process::exit(3); }
                        let d = CStr::from_ptr(Z3_get_numeral_string(c, v)).to_str().unwrap().to_string();
                        mm.insert(i, dec_limbs(&d, w));
                    }
                    Z3_model_dec_ref(c, m);
                    let m = Rc::new(mm); self.recent.push(m.clone()); if self.recent.len() > 16 { self.recent.remove(0); }
                    Some(Res::Sat(m))
                }
                _ => {
                    if std::env::var("VX_DUMP").is_ok() { let s = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy(); let _ = std::fs::write(format!("/tmp/vx-unknown-{}-{}.smt2", std::process::id(), self.queries), format!("{}\n(check-sat)\n", s)); }
                    self.bv_text = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    None
                }
            };
            Z3_solver_dec_ref(c, s);
            r
        }
    }
    fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }
    fn holds(x: &Exprs, q: &[E], m: &Model) -> usize { let mut memo = HashMap::new(); q.iter().filter(|e| x.eval(**e, m, &mut memo)[0] == 1).count() }
    /// Looks for a model by evaluating candidates (arithmetic over unknown products is hard for the solver, easy to evaluate).
    fn guess(&mut self, x: &Exprs, q: &[E]) -> Option<Rc<Model>> {
        let mut syms: Vec<u32> = q.iter().flat_map(|e| x.deps(*e).iter().cloned().collect::<Vec<_>>()).collect();
        syms.sort(); syms.dedup();
        let bounds = |s: u32| { let i = &x.info[x.sym_expr[s as usize] as usize]; (i.lo, i.hi) };
        let dflt = |s: u32| { let w = x.syms[s as usize].w; let mut v = vec![bounds(s).0 as u64, (bounds(s).0 >> 64) as u64]; v.resize(limbs(w).max(2), 0); v.truncate(limbs(w)); v };
        let mut best: Model = HashMap::new();
        for m in self.recent.iter().rev() { for s in &syms { if !best.contains_key(s) { if let Some(v) = m.get(s) { best.insert(*s, v.clone()); } } } }
        for s in &syms { best.entry(*s).or_insert_with(|| dflt(*s)); }
        let mut score = Self::holds(x, q, &best);
        if score == q.len() { return Some(Rc::new(best)); }
        for round in 0..240 {
            let mut m = best.clone();
            let k = 1 + self.rnd() % 3;
            for _ in 0..k {
                let s = syms[(self.rnd() % syms.len() as u64) as usize];
                let w = x.syms[s as usize].w; let (lo, hi) = bounds(s);
                let r = self.rnd();
                let mut v: Vec<u64> = match r % 8 {
                    0 => vec![r >> 8 & 3], 1 => vec![r >> 8 & 15], 2 => vec![r >> 8 & 1023], 3 => { let b = self.rnd() % w as u64; let y = self.rnd(); wshl(&{ let mut z = vec![y & 1 | 1]; z.resize(limbs(w), 0); z }, b as u32, w) }
                    4 => { let y = self.rnd(); let b = self.rnd() % 64; vec![y >> b] }
                    5 => { let o = syms[(self.rnd() % syms.len() as u64) as usize]; m[&o].clone() }
                    6 => { let d = if r >> 8 & 1 == 0 { 1 } else { u64::MAX }; let mut z = m[&s].clone(); let (t, c) = z[0].overflowing_add(d); z[0] = t; if z.len() > 1 && d == 1 && c { z[1] = z[1].wrapping_add(1); } z }
                    _ => { let y = if r >> 8 & 1 == 0 { lo } else { hi }; vec![y as u64, (y >> 64) as u64] } };
                v.resize(limbs(w).max(2), 0);
                if w <= 128 && (lo > 0 || hi < mask(w)) { let y = v[0] as u128 | (v[1] as u128) << 64; if y < lo || y > hi { let span = hi - lo; let y = if span == u128::MAX { y } else { lo + y % (span + 1) }; v = vec![y as u64, (y >> 64) as u64]; } }
                v.resize(limbs(w), 0); wmask(&mut v, w);
                m.insert(s, v);
            }
            let sc = Self::holds(x, q, &m);
            if sc == q.len() { let m = Rc::new(m); self.recent.push(m.clone()); if self.recent.len() > 16 { self.recent.remove(0); } return Some(m); }
            if sc > score || (sc == score && self.rnd() % 3 == 0) { score = sc; best = m; }
            let _ = round;
        }
        None
    }

    /// The query over mathematical integers with explicit ranges and wrap-around (exact, not an approximation).
    fn solve_int(&mut self, x: &Exprs, q: &[E]) -> Res {
        self.int_queries += 1;
        let c = self.ctx;
        unsafe {
            let s = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
            for (k, v) in [("rlimit", self.rlimit / 4), ("random_seed", self.seed)] { let k = CString::new(k).unwrap(); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), v); }
            Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
            let mut ie = IntEnc { c, x, i: HashMap::new(), b: HashMap::new(), sb: HashMap::new(), dv: HashMap::new(), side: vec![], syms: vec![], nz: Default::default() };
            for e in q { ie.facts(*e); }
            let mut ok = true; let mut fs = vec![];
            for e in q { match ie.boo(*e) { Some(f) => fs.push(f), None => { ok = false; break; } } }
            let mut r = Res::Unknown;
            if ok {
                for f in fs.iter().chain(ie.side.iter()) { Z3_solver_assert(c, s, *f); }
                if std::env::var("VX_DUMP").is_ok() { let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy(); let _ = std::fs::write(format!("/tmp/vx-int-{}-{}.smt2", std::process::id(), self.queries), format!("{}\n(check-sat)\n", t)); }
                match Z3_solver_check(c, s) {
                    -1 => r = Res::Unsat,
                    1 => {
                        let m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
                        let mut mm = HashMap::new();
                        for (i, t) in &ie.syms { let mut v: P = std::ptr::null_mut(); if Z3_model_eval(c, m, *t, true, &mut v) { let d = CStr::from_ptr(Z3_get_numeral_string(c, v)).to_str().unwrap().to_string(); if d.bytes().all(|b| b.is_ascii_digit()) { mm.insert(*i, dec_limbs(&d, x.syms[*i as usize].w)); } } }
                        Z3_model_dec_ref(c, m);
                        for e in q { for i in x.deps(*e).iter() { mm.entry(*i).or_insert_with(|| { let w = x.syms[*i as usize].w; let lo = x.info[x.sym_expr[*i as usize] as usize].lo; let mut v = vec![lo as u64, (lo >> 64) as u64]; v.resize(limbs(w), 0); v }); } }
                        if Self::holds(x, q, &mm) == q.len() { let m = Rc::new(mm); self.recent.push(m.clone()); if self.recent.len() > 16 { self.recent.remove(0); } r = Res::Sat(m); }
                        else if std::env::var("VX_DUMP").is_ok() { eprintln!("vx: integer model does not evaluate"); }
                    }
                    _ => { self.int_text = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned(); }
                }
            }
            Z3_solver_dec_ref(c, s);
            r
        }
    }
    /// A query the in-process solver gave up on goes to cvc5 (integer encoding) as text; only unsat answers are used.
    fn portfolio(&mut self, txt: &str, int_txt: &str) -> Res {
        let secs = 60u32;
        let base = format!("{}/vxq-{}-{}", std::env::temp_dir().display(), std::process::id(), self.queries);
        let (f, g) = (format!("{}.smt2", base), format!("{}i.smt2", base));
        if std::fs::write(&f, format!("(set-logic ALL)\n{}\n(check-sat)\n", txt)).is_err() { return Res::Unknown; }
        let lim = format!("--tlimit={}", secs as u64 * 1000);
        let mut tries: Vec<(&str, Vec<String>)> = vec![("z3-new", vec![format!("-T:{}", secs), f.clone()])];
        if int_txt.is_empty() { tries.push(("cvc5", vec!["--solve-bv-as-int=sum".into(), lim.clone(), f.clone()])); }
        else {
            if std::fs::write(&g, format!("(set-logic ALL)\n{}\n(check-sat)\n", int_txt)).is_err() { return Res::Unknown; }
            tries.push(("cvc5", vec![lim.clone(), g.clone()]));
            tries.push(("z3-new", vec![format!("-T:{}", secs), g.clone()]));
        }
        let mut kids = vec![];
        for (b, a) in tries { if let Ok(k) = std::process::Command::new(b).args(a).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn() { kids.push(k); } }
        let mut r = Res::Unknown;
        while !kids.is_empty() {
            let mut i = 0;
            while i < kids.len() {
                if let Ok(Some(_)) = kids[i].try_wait() {
                    let o = kids.remove(i).wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
                    if o.trim() == "unsat" { r = Res::Unsat; }
                } else { i += 1; }
            }
            if matches!(r, Res::Unsat) { for mut k in kids.drain(..) { let _ = k.kill(); let _ = k.wait(); } break; }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        let _ = std::fs::remove_file(&f); let _ = std::fs::remove_file(&g);
        r
    }
}

pub fn dec_limbs(d: &str, w: u32) -> Vec<u64> {
    let mut v = vec![0u64; limbs(w)];
    for ch in d.bytes() {
        let mut c = (ch - b'0') as u128;
        for x in v.iter_mut() { let s = *x as u128 * 10 + c; *x = s as u64; c = s >> 64; }
    }
    v
}

/// Bit-vector expressions as integers in [0, 2^w).
struct IntEnc<'a> { c: P, x: &'a Exprs, i: HashMap<E, P>, b: HashMap<E, P>, sb: HashMap<E, u32>, dv: HashMap<(P, P, u32), (P, P)>, side: Vec<P>, syms: Vec<(u32, P)>, nz: std::collections::HashSet<E> }
impl<'a> IntEnc<'a> {
    fn pow(&self, k: u32) -> P { let mut d = vec![1u8]; for _ in 0..k { let mut c = 0; for z in d.iter_mut() { let t = *z * 2 + c; *z = t % 10; c = t / 10; } if c > 0 { d.push(c); } } self.dec(&d.iter().rev().map(|z| (z + b'0') as char).collect::<String>()) }
    fn dec(&self, s: &str) -> P { let t = CString::new(s).unwrap(); unsafe { Z3_mk_numeral(self.c, t.as_ptr(), Z3_mk_int_sort(self.c)) } }
    fn num(&self, v: &[u64]) -> P {
        let mut v = v.to_vec(); let mut ds = vec![];
        while v.iter().any(|z| *z != 0) { let mut r = 0u128; for z in v.iter_mut().rev() { let t = r << 64 | *z as u128; *z = (t / 10) as u64; r = t % 10; } ds.push((b'0' + r as u8) as char); }
        if ds.is_empty() { ds.push('0'); }
        self.dec(&ds.iter().rev().collect::<String>())
    }
    fn add(&self, a: P, b: P) -> P { unsafe { Z3_mk_add(self.c, 2, [a, b].as_ptr()) } }
    fn sub(&self, a: P, b: P) -> P { unsafe { Z3_mk_sub(self.c, 2, [a, b].as_ptr()) } }
    fn mul(&self, a: P, b: P) -> P { unsafe { Z3_mk_mul(self.c, 2, [a, b].as_ptr()) } }
    fn lt(&self, a: P, b: P) -> P { unsafe { Z3_mk_lt(self.c, a, b) } }
    /// upper bound on the significant bits
    fn bits(&mut self, e: E) -> u32 {
        if let Some(r) = self.sb.get(&e) { return *r; }
        use Node::*;
        let w = self.x.w(e);
        let base = self.x.active(e);
        let r = match *self.x.node(e) {
            Add(a, b) => self.bits(a).max(self.bits(b)) + 1, Mul(a, b) => self.bits(a) + self.bits(b), UDiv(a, b) => if self.nonzero(b) { self.bits(a) } else { w },
            URem(a, _) => self.bits(a),
            ZExt(a) => self.bits(a), Concat(a, b) => { let k = self.bits(a); if k == 0 { self.bits(b) } else { k + self.x.w(b) } } Ite(_, a, b) => self.bits(a).max(self.bits(b)),
            Extract(a, lo) => self.bits(a).saturating_sub(lo), And(a, b) => self.bits(a).min(self.bits(b)), Or(a, b) | Xor(a, b) => self.bits(a).max(self.bits(b)), _ => w };
        let r = r.min(base).min(w); self.sb.insert(e, r); r
    }
    /// expressions the query says are not zero
    fn facts(&mut self, e: E) {
        use Node::*;
        match *self.x.node(e) {
            And(a, b) if self.x.w(e) == 1 => { self.facts(a); self.facts(b); }
            Xor(a, o) if self.x.cval(o) == Some(1) => if let Eq(p, q) = *self.x.node(a) { if self.x.cval(q) == Some(0) { self.nz.insert(p); } },
            Ult(_, b) => { self.nz.insert(b); }
            _ => {}
        }
    }
    fn nonzero(&self, e: E) -> bool {
        if self.x.info[e as usize].lo > 0 || self.nz.contains(&e) { return true; }
        match *self.x.node(e) { Node::ZExt(a) | Node::SExt(a) => self.nonzero(a), Node::C(v) => v != 0, Node::W(ref v) => v.iter().any(|z| *z != 0), Node::Concat(a, b) => self.nonzero(a) || self.nonzero(b), _ => false }
    }
    fn boo(&mut self, e: E) -> Option<P> {
        if let Some(r) = self.b.get(&e) { return Some(*r); }
        use Node::*;
        let c = self.c;
        let x = self.x;
        let r = unsafe { match *x.node(e) {
            C(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            Eq(a, b) => if x.w(a) == 1 { Z3_mk_eq(c, self.boo(a)?, self.boo(b)?) } else { self.eqz(a, b)? },
            Ult(a, b) => { let (p, q) = (self.int(a)?, self.int(b)?); self.lt(p, q) }
            Slt(a, b) => { let (p, q) = (self.sint(a)?, self.sint(b)?); self.lt(p, q) }
            And(a, b) => { let v = [self.boo(a)?, self.boo(b)?]; Z3_mk_and(c, 2, v.as_ptr()) }
            Or(a, b) => { let v = [self.boo(a)?, self.boo(b)?]; Z3_mk_or(c, 2, v.as_ptr()) }
            Xor(a, b) => Z3_mk_xor(c, self.boo(a)?, self.boo(b)?),
            Ite(i, a, b) => Z3_mk_ite(c, self.boo(i)?, self.boo(a)?, self.boo(b)?),
            _ => { let p = self.int(e)?; Z3_mk_eq(c, p, self.num(&[1])) }
        } };
        self.b.insert(e, r); Some(r)
    }
    fn sint(&mut self, e: E) -> Option<P> { let w = self.x.w(e); let p = self.int(e)?; if self.bits(e) < w { return Some(p); } let h = self.pow(w - 1); let k = self.pow(w); let d = self.sub(p, k); let l = self.lt(p, h); Some(unsafe { Z3_mk_ite(self.c, l, p, d) }) }
    /// equality; a slice compared with zero is split off the integer it comes from
    fn eqz(&mut self, a: E, b: E) -> Option<P> { let (p, q) = (self.int(a)?, self.int(b)?); Some(unsafe { Z3_mk_eq(self.c, p, q) }) }
    fn divrem(&mut self, a: E, b: E) -> Option<(P, P)> {
        let c = self.c;
        let w = self.x.w(a);
        let (p, d) = (self.int(a)?, self.int(b)?);
        let key = (p, d, if self.nonzero(b) { 0 } else { w }); // the quotient depends on the width only for a zero divisor
        if let Some(r) = self.dv.get(&key) { return Some(*r); }
        let r = unsafe {
            let zero = self.num(&[0]);
            let n = CString::new("d").unwrap();
            let (q, r) = (Z3_mk_fresh_const(c, n.as_ptr(), Z3_mk_int_sort(c)), Z3_mk_fresh_const(c, n.as_ptr(), Z3_mk_int_sort(c)));
            let prod = self.mul(q, d); let sum = self.add(prod, r);
            let sure = self.nonzero(b);
            let is0 = Z3_mk_eq(c, d, zero);
            let ones = { let k = self.pow(w); self.sub(k, self.num(&[1])) };
            let z = [Z3_mk_eq(c, q, ones), Z3_mk_eq(c, r, p)];
            let nz = [Z3_mk_eq(c, p, sum), Z3_mk_le(c, zero, r), Z3_mk_lt(c, r, d), Z3_mk_le(c, zero, q), Z3_mk_le(c, q, p)];
            let body = if sure { Z3_mk_and(c, 5, nz.as_ptr()) } else { Z3_mk_ite(c, is0, Z3_mk_and(c, 2, z.as_ptr()), Z3_mk_and(c, 5, nz.as_ptr())) };
            self.side.push(body);
            (q, r)
        };
        self.dv.insert(key, r); Some(r)
    }
    fn int(&mut self, e: E) -> Option<P> {
        if let Some(r) = self.i.get(&e) { return Some(*r); }
        use Node::*;
        let c = self.c; let x = self.x; let w = x.w(e);
        let r = unsafe { match x.node(e).clone() {
            C(v) => self.num(&[v as u64, (v >> 64) as u64]),
            W(v) => self.num(&v),
            Sym(i) => {
                let t = Z3_mk_const(c, Z3_mk_string_symbol(c, CString::new(format!("i{}", i)).unwrap().as_ptr()), Z3_mk_int_sort(c));
                self.syms.push((i, t));
                let inf = &x.info[e as usize];
                let lo = self.num(&[inf.lo as u64, (inf.lo >> 64) as u64]); self.side.push(Z3_mk_le(c, lo, t));
                if w <= 128 { let hi = self.num(&[inf.hi as u64, (inf.hi >> 64) as u64]); self.side.push(Z3_mk_le(c, t, hi)); } else { let k = self.pow(w); self.side.push(Z3_mk_lt(c, t, k)); }
                t
            }
            Eq(..) | Ult(..) | Slt(..) => { let p = self.boo(e)?; Z3_mk_ite(c, p, self.num(&[1]), self.num(&[0])) }
            And(..) | Or(..) | Xor(..) if w == 1 => { let p = self.boo(e)?; Z3_mk_ite(c, p, self.num(&[1]), self.num(&[0])) }
            Add(a, b) => { let (p, q) = (self.int(a)?, self.int(b)?); let s = self.add(p, q); if self.bits(a).max(self.bits(b)) < w || (w <= 128 && x.info[a as usize].hi.checked_add(x.info[b as usize].hi).map(|h| h <= mask(w)).unwrap_or(false)) { s } else { let k = self.pow(w); let d = self.sub(s, k); Z3_mk_ite(c, self.lt(s, k), s, d) } }
            Sub(a, b) => { let (p, q) = (self.int(a)?, self.int(b)?); let d = self.sub(p, q); if w <= 128 && x.info[a as usize].lo >= x.info[b as usize].hi { d } else { let k = self.pow(w); let u = self.add(d, k); Z3_mk_ite(c, self.lt(p, q), u, d) } }
            Mul(a, b) => { let (p, q) = (self.int(a)?, self.int(b)?); let m = self.mul(p, q); if self.bits(a) + self.bits(b) <= w || (w <= 128 && x.info[a as usize].hi.checked_mul(x.info[b as usize].hi).map(|h| h <= mask(w)).unwrap_or(false)) { m } else { let k = self.pow(w); Z3_mk_mod(c, m, k) } }
            UDiv(a, b) => if x.is_const(b) && !x.wide(b).unwrap().iter().all(|z| *z == 0) { let (p, d) = (self.int(a)?, self.int(b)?); Z3_mk_div(c, p, d) } else { self.divrem(a, b)?.0 },
            URem(a, b) => if x.is_const(b) && !x.wide(b).unwrap().iter().all(|z| *z == 0) { let (p, d) = (self.int(a)?, self.int(b)?); Z3_mk_mod(c, p, d) } else { self.divrem(a, b)?.1 },
            Ite(i, a, b) => { let (i, p, q) = (self.boo(i)?, self.int(a)?, self.int(b)?); Z3_mk_ite(c, i, p, q) }
            Concat(a, b) => { let (p, q) = (self.int(a)?, self.int(b)?); let k = self.pow(x.w(b)); let h = self.mul(p, k); self.add(h, q) }
            Extract(a, lo) => {
                let p = self.int(a)?; let n = self.bits(a);
                let h = if lo == 0 { p } else if lo >= n { self.num(&[0]) } else { let k = self.pow(lo); Z3_mk_div(c, p, k) };
                if n.saturating_sub(lo) <= w { h } else { let k = self.pow(w); Z3_mk_mod(c, h, k) }
            }
            ZExt(a) => self.int(a)?,
            SExt(a) => { let aw = x.w(a); let p = self.int(a)?; if self.bits(a) < aw { p } else { let h = self.pow(aw - 1); let d = self.sub(self.pow(w), self.pow(aw)); let u = self.add(p, d); Z3_mk_ite(c, self.lt(p, h), p, u) } }
            Shl(a, b) if x.is_const(b) => { let k = x.cval(b)?.min(w as u128) as u32; if k >= w { self.num(&[0]) } else { let p = self.int(a)?; let m = self.mul(p, self.pow(k)); if self.bits(a) + k <= w { m } else { Z3_mk_mod(c, m, self.pow(w)) } } }
            LShr(a, b) if x.is_const(b) => { let k = x.cval(b)?.min(w as u128) as u32; if k >= w { self.num(&[0]) } else { let p = self.int(a)?; Z3_mk_div(c, p, self.pow(k)) } }
            _ => return None,
        } };
        self.i.insert(e, r); Some(r)
    }
}
