//! Path-exploring interpreter.
use crate::expr::*;
use crate::ll::*;
use crate::solver::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub data: Box<[u8]>, pub sym: Option<Box<[E]>> } // sym[i] = 0: concrete byte

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>, pub regs: Vec<Val>, pub bb: u32, pub prev: u32, pub ip: usize,
    pub dst: u32, pub allocas: Vec<u32>, pub is_try: bool, pub after: u32,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: Vec<Option<Rc<Obj>>>, pub free: Vec<u32>,
    pub pc: Vec<E>, pub model: Rc<Model>,
    pub inputs: Vec<E>, // symbols in creation order (one per vx input)
    pub observed: Vec<(String, Val, u32)>,
    pub reached: Vec<String>,
    pub hashes: Vec<(Vec<E>, Vec<E>)>,
    pub steps: u64, pub forks: u32, pub panics: u32, pub entry: u32, pub flat_hash: bool,
}

pub enum End { Done, Panic(String), Err(String), Violation(String), Infeasible }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sp {
    None, Alloc, AllocZ, Dealloc, Realloc, Malloc, Calloc, Free, MRealloc, Memcpy, Memset, Bcmp, Memcmp, Strlen,
    Panic, Abort, FmtInt, ParseU64, HashOne, FlatHash, RandKeys, Ret0, RetM1, Errno, Memalign,
    Sym, Range, Assume, Assert, Reach, Concrete, On, Try, Observe, F1600, BigOp, IsSym, Simp, Bool, Choose, Trace,
    Bswap, Ctlz, Cttz, Ctpop, Fshl, Fshr, UMax, UMin, SMax, SMin, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, USubSat, UAddSat, Abs, Expect, TlsAddr, RedAdd, RedOr, Pause, LoadRel, BitRev, PMovmsk,
}

pub struct Limits { pub max_steps: u64, pub deadline: std::time::Instant, pub stop: &'static std::sync::atomic::AtomicU64 }

pub struct Engine {
    pub x: Exprs, pub m: Module, pub s: Solver,
    sp: Vec<Sp>,
    pub pending: Vec<State>,
    pub steps: u64, pub paths: u64, pub asserts: u64, pub assert_queries: u64, pub forks: u64, pub unknowns: u64,
    pub funcs_used: HashMap<u32, u64>,
    pub lim: Limits,
    pub verbose: bool,
    fork_sites: HashMap<(u32, u32), u64>,
    pub hash_uses: u64, pub bigops: u64, pub fmts: u64,
}

type R<T> = Result<T, End>;
fn err<T>(s: impl Into<String>) -> R<T> { Err(End::Err(s.into())) }

impl Engine {
    pub fn new(m: Module, x: Exprs, s: Solver, lim: Limits) -> Self {
        let sp = m.funcs.iter().map(|f| special(&f.name)).collect();
        Engine { x, m, s, sp, pending: vec![], steps: 0, paths: 0, asserts: 0, assert_queries: 0, forks: 0, unknowns: 0, funcs_used: HashMap::new(), lim, verbose: false, fork_sites: HashMap::new(), hash_uses: 0, bigops: 0, fmts: 0 }
    }
    pub fn initial(&mut self, entry: u32) -> State {
        let n = GLOBAL_BASE as usize + self.m.globals.len();
        let mut objs: Vec<Option<Rc<Obj>>> = vec![None; n];
        for (i, g) in self.m.globals.iter().enumerate() { objs[GLOBAL_BASE as usize + i] = Some(Rc::new(Obj { data: g.bytes.clone().into_boxed_slice(), sym: None })); }
        let mut st = State { frames: vec![], objs, free: vec![], pc: vec![], model: Rc::new(HashMap::new()), inputs: vec![], observed: vec![], reached: vec![], hashes: vec![], steps: 0, forks: 0, panics: 0, entry: 0, flat_hash: false };
        self.push_frame(&mut st, entry, vec![], u32::MAX, u32::MAX, false);
        st
    }
    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: u32, after: u32, is_try: bool) {
        let b = self.m.body(f, &mut self.x);
        *self.funcs_used.entry(f).or_insert(0) += 1;
        let mut regs = args; regs.resize(b.nregs as usize, Val::C(0));
        st.frames.push(Frame { f: b, regs, bb: 0, prev: 0, ip: 0, dst, allocas: vec![], is_try, after });
    }
    pub fn backtrace(&self, st: &State) -> String {
        st.frames.iter().rev().take(14).map(|f| demangle(&self.m.funcs[f.f.id as usize].name)).collect::<Vec<_>>().join(" < ")
    }

    // ---- values ------------------------------------------------------------------------
    fn v(&mut self, e: E) -> Val { match self.x.cval(e) { Some(c) => Val::C(c), None => Val::S(e) } }
    fn e(&mut self, v: &Val, w: u32) -> E { match v { Val::C(c) => self.x.c(*c, w), Val::S(e) => *e, Val::A(_) => panic!("aggregate where scalar expected") } }

    // ---- memory ------------------------------------------------------------------------
    fn new_obj(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > 64 << 20 { return err(format!("allocation of {} bytes", n)); }
        let o = Rc::new(Obj { data: vec![0u8; n as usize].into_boxed_slice(), sym: None });
        let id = match st.free.pop() { Some(i) => { st.objs[i as usize] = Some(o); i } None => { st.objs.push(Some(o)); st.objs.len() as u32 - 1 } };
        Ok((id as u64) << 32)
    }
    fn del_obj(&mut self, st: &mut State, a: u64) { let i = (a >> 32) as usize; if i < st.objs.len() && st.objs[i].is_some() { st.objs[i] = None; st.free.push(i as u32); } }
    fn obj<'a>(&self, st: &'a State, a: u64, n: u64) -> R<(&'a Obj, usize)> {
        let (i, o) = ((a >> 32) as usize, (a & 0xffff_ffff) as usize);
        match st.objs.get(i).and_then(|x| x.as_ref()) {
            Some(b) if o + n as usize <= b.data.len() => Ok((b, o)),
            _ => err(format!("memory access of {} bytes at {:#x} in {}", n, a, self.backtrace(st))),
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, a: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let (i, o) = ((a >> 32) as usize, (a & 0xffff_ffff) as usize);
        let ok = matches!(st.objs.get(i), Some(Some(b)) if o + n as usize <= b.data.len());
        if !ok { return err(format!("memory write of {} bytes at {:#x} in {}", n, a, self.backtrace(st))); }
        Ok((Rc::make_mut(st.objs[i].as_mut().unwrap()), o))
    }
    /// n bytes as an integer of 8*n bits
    fn read_int(&mut self, st: &State, a: u64, n: u64) -> R<Val> {
        if n == 0 { return Ok(Val::C(0)); }
        let (ob, o) = self.obj(st, a, n)?;
        let conc = match &ob.sym { None => true, Some(s) => s[o..o + n as usize].iter().all(|e| *e == 0) };
        if conc && n <= 16 {
            let mut b = [0u8; 16]; b[..n as usize].copy_from_slice(&ob.data[o..o + n as usize]);
            return Ok(Val::C(u128::from_le_bytes(b)));
        }
        let mut r: Option<E> = None;
        for i in 0..n as usize {
            let s = ob.sym.as_ref().map_or(0, |s| s[o + i]);
            let e = if s != 0 { s } else { self.x.c(ob.data[o + i] as u128, 8) };
            r = Some(match r { None => e, Some(l) => self.x.concat(e, l) });
        }
        let e = r.unwrap(); Ok(self.v(e))
    }
    fn write_int(&mut self, st: &mut State, a: u64, n: u64, v: &Val) -> R<()> {
        if n == 0 { return Ok(()); }
        match v {
            Val::C(c) => {
                let (ob, o) = self.obj_mut(st, a, n)?;
                let b = c.to_le_bytes(); let k = (n as usize).min(16);
                ob.data[o..o + k].copy_from_slice(&b[..k]);
                for i in 16..n as usize { ob.data[o + i] = 0; }
                if let Some(s) = &mut ob.sym { for i in o..o + n as usize { s[i] = 0; } }
            }
            Val::S(e) => {
                let w = self.x.w(*e);
                let ee = if (w as u64) < n * 8 { self.x.zext(*e, n as u32 * 8) } else { *e };
                let mut parts = Vec::with_capacity(n as usize);
                for i in 0..n as u32 { parts.push(self.x.extract(ee, i * 8, 8)); }
                let pv: Vec<(E, Option<u128>)> = parts.iter().map(|p| (*p, self.x.cval(*p))).collect();
                let (ob, o) = self.obj_mut(st, a, n)?;
                let len = ob.data.len();
                let s = ob.sym.get_or_insert_with(|| vec![0; len].into_boxed_slice());
                for (i, (p, c)) in pv.iter().enumerate() { match c { Some(c) => { ob.data[o + i] = *c as u8; s[o + i] = 0; } None => { s[o + i] = *p; } } }
            }
            Val::A(_) => return err("aggregate store as int"),
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &State, t: TyId, a: u64) -> R<Val> {
        match self.m.types[t as usize].clone() {
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as u64;
                let v = self.read_int(st, a, n)?;
                if w % 8 == 0 { Ok(v) } else { match v { Val::C(c) => Ok(Val::C(c & mask(w))), Val::S(e) => { let t = self.x.trunc(e, w); Ok(self.v(t)) } v => Ok(v) } }
            }
            Ty::Ptr | Ty::Float(64) => self.read_int(st, a, 8),
            Ty::Float(w) => self.read_int(st, a, w as u64 / 8),
            Ty::Struct(f, _) => { let l = self.m.layout(t); let mut v = vec![]; for (i, ft) in f.iter().enumerate() { v.push(self.load_ty(st, *ft, a + l.2[i])?); } Ok(Val::A(Rc::new(v))) }
            Ty::Arr(n, e) | Ty::Vec(n, e) => { let sz = self.m.size(e); let mut v = vec![]; for i in 0..n { v.push(self.load_ty(st, e, a + i * sz)?); } Ok(Val::A(Rc::new(v))) }
            o => err(format!("load of {:?}", o)),
        }
    }
    fn store_ty(&mut self, st: &mut State, t: TyId, a: u64, v: &Val) -> R<()> {
        match self.m.types[t as usize].clone() {
            Ty::Int(w) => self.write_int(st, a, ((w + 7) / 8) as u64, v),
            Ty::Ptr | Ty::Float(64) => self.write_int(st, a, 8, v),
            Ty::Float(w) => self.write_int(st, a, w as u64 / 8, v),
            Ty::Struct(f, _) => { let l = self.m.layout(t); if let Val::A(vs) = v { for (i, ft) in f.iter().enumerate() { self.store_ty(st, *ft, a + l.2[i], &vs[i])?; } } Ok(()) }
            Ty::Arr(_, e) | Ty::Vec(_, e) => { let sz = self.m.size(e); if let Val::A(vs) = v { for (i, x) in vs.iter().enumerate() { self.store_ty(st, e, a + i as u64 * sz, x)?; } } Ok(()) }
            o => err(format!("store of {:?}", o)),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (ob, o) = self.obj(st, s, n)?;
        let data = ob.data[o..o + n as usize].to_vec();
        let sym = ob.sym.as_ref().map(|x| x[o..o + n as usize].to_vec()).filter(|x| x.iter().any(|e| *e != 0));
        let (ob, o) = self.obj_mut(st, d, n)?;
        ob.data[o..o + n as usize].copy_from_slice(&data);
        match (sym, &mut ob.sym) {
            (None, None) => {}
            (None, Some(t)) => for i in 0..n as usize { t[o + i] = 0; },
            (Some(v), t) => { let len = ob.data.len(); let t = t.get_or_insert_with(|| vec![0; len].into_boxed_slice()); t[o..o + n as usize].copy_from_slice(&v); }
        }
        Ok(())
    }
    fn byte(&mut self, st: &State, a: u64) -> R<E> { let v = self.read_int(st, a, 1)?; Ok(self.e(&v, 8)) }
    fn bytes(&self, st: &State, a: u64, n: u64) -> R<Vec<u8>> { if n == 0 { return Ok(vec![]); } let (ob, o) = self.obj(st, a, n)?; Ok(ob.data[o..o + n as usize].to_vec()) }
    fn text(&self, st: &State, a: u64, n: u64) -> R<String> { Ok(String::from_utf8_lossy(&self.bytes(st, a, n)?).into_owned()) }

    // ---- path condition ----------------------------------------------------------------
    fn holds(&self, st: &State, c: E) -> bool { self.x.eval(c, &st.model, &mut HashMap::new())[0] == 1 }
    fn merge(&self, st: &State, m: &Model) -> Rc<Model> { let mut n = (*st.model).clone(); for (k, v) in m { n.insert(*k, v.clone()); } Rc::new(n) }
    fn add(&mut self, st: &mut State, c: E) -> R<bool> { // false: infeasible
        match self.x.cval(c) { Some(1) => return Ok(true), Some(_) => return Ok(false), None => {} }
        if !self.holds(st, c) {
            match self.s.check(&self.x, &st.pc, c) {
                Res::Sat(m) => st.model = self.merge(st, &m),
                Res::Unsat => return Ok(false),
                Res::Unknown => { self.unknowns += 1; return err("solver gave up on an assumption"); }
            }
        }
        self.push_pc(st, c); Ok(true)
    }
    fn push_pc(&mut self, st: &mut State, c: E) {
        if let Node::And(a, b) = *self.x.node(c) { self.push_pc(st, a); self.push_pc(st, b); return; }
        if !st.pc.contains(&c) { st.pc.push(c); }
    }
    /// Decide a condition, forking when both sides are possible. `other` prepares the sibling state.
    fn branch(&mut self, st: &mut State, c: E, other: impl FnOnce(&mut State, bool)) -> R<bool> {
        if let Some(v) = self.x.cval(c) { return Ok(v == 1); }
        if st.pc.contains(&c) { return Ok(true); }
        let nc = self.x.not(c);
        if st.pc.contains(&nc) { return Ok(false); }
        if let Some((_, t)) = self.x.table(c) { if t.iter().all(|v| *v == 1) { return Ok(true); } if t.iter().all(|v| *v == 0) { return Ok(false); } }
        let v = self.holds(st, c);
        let (here, there) = if v { (c, nc) } else { (nc, c) };
        match self.s.check(&self.x, &st.pc, there) {
            Res::Unsat => Ok(v),
            Res::Sat(m) => {
                let mut o = st.clone();
                o.model = self.merge(st, &m);
                self.push_pc(&mut o, there); self.push_pc(st, here);
                o.forks += 1; st.forks += 1; self.forks += 1;
                if self.verbose { let f = st.frames.last().unwrap(); let k = (f.f.id, f.bb); *self.fork_sites.entry(k).or_insert(0) += 1;
                    if std::env::var("VX_FORKS").is_ok() { eprintln!("fork on {} at {}", self.x.show(c, 6), self.backtrace(st)); } }
                other(&mut o, !v);
                self.pending.push(o);
                Ok(v)
            }
            Res::Unknown => { self.unknowns += 1; err(format!("solver gave up on a branch: {}", self.x.show(c, 4))) }
        }
    }
    /// Force a value to be concrete: one sibling state keeps all other values and re-executes the current instruction.
    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u128> {
        let e = match v { Val::C(c) => return Ok(*c), Val::S(e) => *e, _ => return err("concretize aggregate") };
        let m = self.x.eval(e, &st.model, &mut HashMap::new());
        let w = self.x.w(e);
        if w > 128 { return err("concretize wide"); }
        let val = m[0] as u128 | (*m.get(1).unwrap_or(&0) as u128) << 64;
        let k = self.x.c(val, w);
        let c = self.x.eq(e, k);
        let t = self.branch(st, c, |o, _| { let f = o.frames.last_mut().unwrap(); f.ip -= 1; })?;
        debug_assert!(t);
        Ok(val)
    }
    fn addr(&mut self, st: &mut State, o: &Opd) -> R<u64> {
        let v = self.get(st, o);
        match v { Val::C(c) => Ok(c as u64), v => { let c = self.concretize(st, &v)?; if let Opd::L(r) = o { st.frames.last_mut().unwrap().regs[*r as usize] = Val::C(c); } Ok(c as u64) } }
    }
    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val { match o { Opd::L(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    fn conc_arg(&mut self, st: &mut State, v: &Val) -> R<u64> { Ok(self.concretize(st, v)? as u64) }

    // ---- scalar operations ---------------------------------------------------------------
    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 128 {
                let (x, y) = (*x, *y); let m = mask(w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u128 { 0 } else { x << y }, BinOp::LShr => if y >= w as u128 { 0 } else { x >> y },
                    BinOp::AShr => (sext128(x, w) >> (y.min(127) as u32)) as u128,
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return err("division by zero"),
                    BinOp::UDiv => x / y, BinOp::URem => x % y,
                    BinOp::SDiv => sext128(x, w).wrapping_div(sext128(y, w)) as u128, BinOp::SRem => sext128(x, w).wrapping_rem(sext128(y, w)) as u128,
                };
                return Ok(Val::C(r & m));
            }
        }
        let (p, q) = (self.e(a, w), self.e(b, w));
        let x = &mut self.x;
        let r = match op {
            BinOp::Add => x.add(p, q), BinOp::Sub => x.sub(p, q), BinOp::Mul => x.mul(p, q), BinOp::UDiv => x.udiv(p, q), BinOp::URem => x.urem(p, q),
            BinOp::SDiv => x.sdiv(p, q), BinOp::SRem => x.srem(p, q), BinOp::Shl => x.shl(p, q), BinOp::LShr => x.lshr(p, q), BinOp::AShr => x.ashr(p, q),
            BinOp::And => x.and(p, q), BinOp::Or => x.or(p, q), BinOp::Xor => x.xor(p, q),
        };
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) { if w <= 128 {
            let (x, y) = (*x, *y); let (s, t) = (sext128(x, w), sext128(y, w));
            return Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => s < t, Pred::Sle => s <= t, Pred::Sgt => s > t, Pred::Sge => s >= t } as u128);
        } }
        let (s, t) = (self.e(a, w), self.e(b, w)); let x = &mut self.x;
        let r = match p { Pred::Eq => x.eq(s, t), Pred::Ne => { let r = x.eq(s, t); x.not(r) } Pred::Ult => x.ult(s, t), Pred::Ule => x.ule(s, t), Pred::Ugt => x.ult(t, s), Pred::Uge => x.ule(t, s),
            Pred::Slt => x.slt(s, t), Pred::Sle => x.sle(s, t), Pred::Sgt => x.slt(t, s), Pred::Sge => x.sle(t, s) };
        self.v(r)
    }
    fn cast(&mut self, k: CastOp, f: u32, t: u32, a: &Val) -> Val {
        match (k, a) {
            (CastOp::Same, v) => v.clone(),
            (CastOp::Trunc, Val::C(c)) => Val::C(c & mask(t)),
            (CastOp::ZExt, Val::C(c)) if t <= 128 => Val::C(*c),
            (CastOp::SExt, Val::C(c)) if t <= 128 => Val::C(sext128(*c, f) as u128 & mask(t)),
            _ => { let e = self.e(a, f); let r = match k { CastOp::Trunc => self.x.trunc(e, t), CastOp::ZExt => self.x.zext(e, t), _ => self.x.sext(e, t) }; self.v(r) }
        }
    }
    /// flatten a value of type t into one bit-vector
    fn flat(&mut self, t: TyId, v: &Val) -> E {
        match self.m.types[t as usize].clone() {
            Ty::Vec(n, et) => { let vs = if let Val::A(vs) = v { vs.clone() } else { panic!() }; let mut r: Option<E> = None;
                for i in 0..n as usize { let e = self.flat(et, &vs[i]); r = Some(match r { None => e, Some(l) => self.x.concat(e, l) }); } r.unwrap() }
            _ => { let w = self.m.bits(t); self.e(v, w) }
        }
    }
    fn unflat(&mut self, t: TyId, e: E) -> Val {
        match self.m.types[t as usize].clone() {
            Ty::Vec(n, et) => { let w = self.m.bits(et); let v = (0..n as u32).map(|i| { let p = self.x.extract(e, i * w, w); self.unflat(et, p) }).collect(); Val::A(Rc::new(v)) }
            _ => self.v(e),
        }
    }
    fn ite_val(&mut self, t: TyId, c: E, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(p), Val::A(q)) => {
                let tys: Vec<TyId> = match self.m.types[t as usize].clone() { Ty::Struct(f, _) => f, Ty::Arr(n, e) | Ty::Vec(n, e) => vec![e; n as usize], _ => panic!() };
                let v = (0..p.len()).map(|i| self.ite_val(tys[i], c, &p[i], &q[i])).collect(); Val::A(Rc::new(v))
            }
            _ => { let w = self.m.bits(t); let (p, q) = (self.e(a, w), self.e(b, w)); let r = self.x.ite(c, p, q); self.v(r) }
        }
    }

    // ---- main loop -------------------------------------------------------------------------
    pub fn run(&mut self, st: &mut State) -> End {
        loop {
            match self.step(st) { Ok(None) => {} Ok(Some(e)) => return e,
                Err(End::Panic(msg)) => { match self.unwind(st, msg) { Ok(()) => {} Err(e) => return e } }
                Err(e) => return e }
        }
    }
    fn unwind(&mut self, st: &mut State, msg: String) -> R<()> {
        st.panics += 1;
        while let Some(f) = st.frames.pop() {
            for a in f.allocas { self.del_obj(st, (a as u64) << 32); }
            if f.is_try {
                let c = st.frames.last_mut().unwrap();
                if f.dst != u32::MAX { c.regs[f.dst as usize] = Val::C(1); }
                return Ok(());
            }
        }
        Err(End::Violation(format!("uncaught panic: {}", msg)))
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last_mut().unwrap();
        f.prev = f.bb; f.bb = to; f.ip = 0;
        let fc = f.f.clone();
        let phis = &fc.blocks[to as usize].phis;
        if !phis.is_empty() {
            let prev = f.prev;
            if phis.len() == 1 {
                let (d, vs) = &phis[0];
                let o = &vs.iter().find(|(b, _)| *b == prev).unwrap().1;
                let v = match o { Opd::L(r) => f.regs[*r as usize].clone(), Opd::K(v) => v.clone() };
                f.regs[*d as usize] = v;
            } else {
                let vals: Vec<(u32, Val)> = phis.iter().map(|(d, vs)| { let o = &vs.iter().find(|(b, _)| *b == prev).unwrap().1; (*d, match o { Opd::L(r) => f.regs[*r as usize].clone(), Opd::K(v) => v.clone() }) }).collect();
                for (d, v) in vals { f.regs[d as usize] = v; }
            }
        }
    }
    fn ret_to(&mut self, st: &mut State, v: Option<Val>) -> R<Option<End>> {
        let f = st.frames.pop().unwrap();
        for a in &f.allocas { self.del_obj(st, (*a as u64) << 32); }
        if st.frames.is_empty() { return Ok(Some(End::Done)); }
        if f.is_try { if f.dst != u32::MAX { st.frames.last_mut().unwrap().regs[f.dst as usize] = Val::C(0); } return Ok(None); }
        if f.dst != u32::MAX { if let Some(v) = v { st.frames.last_mut().unwrap().regs[f.dst as usize] = v; } }
        if f.after != u32::MAX { self.jump(st, f.after); }
        Ok(None)
    }

    fn step(&mut self, st: &mut State) -> R<Option<End>> {
        // execute a run of instructions of the current frame
        let fc = st.frames.last().unwrap().f.clone();
        let depth = st.frames.len();
        loop {
            st.steps += 1; self.steps += 1;
            if self.steps & 0x3fff == 0 {
                if st.steps > self.lim.max_steps { return err(format!("step limit in {}", self.backtrace(st))); }
                if std::time::Instant::now() > self.lim.deadline { return err("time limit"); }
                if self.lim.stop.load(std::sync::atomic::Ordering::SeqCst) != 0 { return err("stopped"); }
            }
            let fr = st.frames.last_mut().unwrap();
            let (bb, ip) = (fr.bb as usize, fr.ip);
            let inst = &fc.blocks[bb].insts[ip];
            fr.ip += 1;
            let dst = inst.dst;
            macro_rules! set { ($v:expr) => {{ let v = $v; st.frames.last_mut().unwrap().regs[dst as usize] = v; }} }
            match &inst.op {
                Op::Bin(op, w, 0, a, b) => { let (a, b) = (self.get(st, a), self.get(st, b)); let r = self.bin(*op, *w, &a, &b)?; set!(r) }
                Op::Bin(op, w, _, a, b) => { let (a, b) = (self.get(st, a), self.get(st, b)); if let (Val::A(p), Val::A(q)) = (a, b) { let mut v = vec![]; for i in 0..p.len() { v.push(self.bin(*op, *w, &p[i], &q[i])?); } set!(Val::A(Rc::new(v))) } }
                Op::Icmp(p, w, 0, a, b) => { let (a, b) = (self.get(st, a), self.get(st, b)); let r = self.icmp(*p, *w, &a, &b); set!(r) }
                Op::Icmp(p, w, _, a, b) => { let (a, b) = (self.get(st, a), self.get(st, b)); if let (Val::A(s), Val::A(t)) = (a, b) { let v = (0..s.len()).map(|i| self.icmp(*p, *w, &s[i], &t[i])).collect(); set!(Val::A(Rc::new(v))) } }
                Op::Cast(k, f, t, 0, a) => { let a = self.get(st, a); let r = self.cast(*k, *f, *t, &a); set!(r) }
                Op::Cast(k, f, t, _, a) => { if let Val::A(s) = self.get(st, a) { let v = s.iter().map(|x| self.cast(*k, *f, *t, x)).collect(); set!(Val::A(Rc::new(v))) } }
                Op::Bitcast(f, t, a) => { let a = self.get(st, a); let e = self.flat(*f, &a); let r = self.unflat(*t, e); set!(r) }
                Op::Copy(a) => { let a = self.get(st, a); set!(a) }
                Op::Gep(b, off, dy) => {
                    let mut r = self.get(st, b);
                    if *off != 0 { r = match r { Val::C(c) => Val::C((c as u64).wrapping_add(*off) as u128), v => self.bin(BinOp::Add, 64, &v, &Val::C(*off as u128))? }; }
                    for (o, w, scale) in dy {
                        let i = self.get(st, o);
                        match (&r, &i) {
                            (Val::C(a), Val::C(c)) => r = Val::C((*a as u64).wrapping_add((sext128(*c, *w) as i64 as u64).wrapping_mul(*scale)) as u128),
                            _ => { let i = if *w < 64 { self.cast(CastOp::SExt, *w, 64, &i) } else if *w > 64 { self.cast(CastOp::Trunc, *w, 64, &i) } else { i };
                                let m = self.bin(BinOp::Mul, 64, &i, &Val::C(*scale as u128))?; r = self.bin(BinOp::Add, 64, &r, &m)?; }
                        }
                    }
                    set!(r)
                }
                Op::Load(t, p) => {
                    let a = match self.get(st, p) { Val::C(c) => c as u64, Val::S(e) => {
                        if let Some(v) = self.table_read(st, *t, e)? { set!(v); continue; }
                        self.addr(st, p)? } _ => return err("load address") };
                    let v = self.load_ty(st, *t, a)?; set!(v)
                }
                Op::Store(t, v, p) => { let a = self.addr(st, p)?; let v = self.get(st, v); self.store_ty(st, *t, a, &v)?; }
                Op::Alloca(n) => { let a = self.new_obj(st, *n)?; let fr = st.frames.last_mut().unwrap(); fr.allocas.push((a >> 32) as u32); fr.regs[dst as usize] = Val::C(a as u128); }
                Op::Select(t, c, a, b, lanes) => {
                    let c = self.get(st, c);
                    if *lanes > 0 {
                        let (a, b) = (self.get(st, a), self.get(st, b));
                        if let (Val::A(cs), Val::A(p), Val::A(q)) = (c, a, b) { let et = self.m.lanes(*t).1; let mut v = vec![]; for i in 0..cs.len() { let ce = self.e(&cs[i], 1); v.push(self.ite_val(et, ce, &p[i], &q[i])); } set!(Val::A(Rc::new(v))) }
                    } else { match c {
                        Val::C(c) => { let v = if c == 1 { self.get(st, a) } else { self.get(st, b) }; set!(v) }
                        Val::S(ce) => {
                            let (av, bv) = (self.get(st, a), self.get(st, b));
                            if self.has_ptr(*t) {
                                let r = self.branch(st, ce, |o, v| { let f = o.frames.last_mut().unwrap(); f.regs[dst as usize] = if v { av.clone() } else { bv.clone() }; })?;
                                set!(if r { av } else { bv })
                            } else { let r = self.ite_val(*t, ce, &av, &bv); set!(r) }
                        }
                        _ => return err("select condition"),
                    } }
                }
                Op::Extract(a, ix) => { let mut v = self.get(st, a); for i in ix { v = match v { Val::A(vs) => vs[*i as usize].clone(), _ => return err("extractvalue of scalar") }; } set!(v) }
                Op::Insert(a, b, ix) => { let a = self.get(st, a); let b = self.get(st, b); let r = insert(&a, &b, ix); set!(r) }
                Op::VExtract(a, i) => { let v = self.get(st, a); let i = self.get(st, i); let i = self.concretize(st, &i)?; if let Val::A(vs) = v { set!(vs[i as usize].clone()) } }
                Op::VInsert(a, b, i) => { let v = self.get(st, a); let b = self.get(st, b); let i = self.get(st, i); let i = self.concretize(st, &i)?; if let Val::A(vs) = v { let mut n = (*vs).clone(); n[i as usize] = b; set!(Val::A(Rc::new(n))) } }
                Op::Shuffle(a, b, mk, n) => { if let (Val::A(p), Val::A(q)) = (self.get(st, a), self.get(st, b)) { let v = mk.iter().map(|i| if *i < 0 { Val::C(0) } else if (*i as u64) < *n { p[*i as usize].clone() } else { q[*i as usize - *n as usize].clone() }).collect(); set!(Val::A(Rc::new(v))) } }
                Op::Rmw(k, t, p, v) => {
                    let a = self.addr(st, p)?; let v = self.get(st, v); let old = self.load_ty(st, *t, a)?; let w = self.m.bits(*t);
                    let new = match k.as_str() { "add" => self.bin(BinOp::Add, w, &old, &v)?, "sub" => self.bin(BinOp::Sub, w, &old, &v)?, "xchg" => v, "and" => self.bin(BinOp::And, w, &old, &v)?, "or" => self.bin(BinOp::Or, w, &old, &v)?, "xor" => self.bin(BinOp::Xor, w, &old, &v)?, o => return err(format!("atomicrmw {}", o)) };
                    self.store_ty(st, *t, a, &new)?; if dst != u32::MAX { set!(old) }
                }
                Op::CmpXchg(t, p, c, n) => {
                    let a = self.addr(st, p)?; let (c, n) = (self.get(st, c), self.get(st, n)); let old = self.load_ty(st, *t, a)?; let w = self.m.bits(*t);
                    let eq = self.icmp(Pred::Eq, w, &old, &c);
                    let eqc = match eq { Val::C(v) => v, _ => return err("symbolic cmpxchg") };
                    if eqc == 1 { self.store_ty(st, *t, a, &n)?; }
                    set!(Val::A(Rc::new(vec![old, Val::C(eqc)])))
                }
                Op::Br(b) => { let b = *b; self.jump(st, b); if let Some(()) = None { return Ok(None); } }
                Op::CondBr(c, a, b) => {
                    let (a, b) = (*a, *b);
                    match self.get(st, c) {
                        Val::C(c) => self.jump(st, if c == 1 { a } else { b }),
                        Val::S(e) => {
                            let before = self.pending.len();
                            let t = self.branch(st, e, |_, _| {})?;
                            if self.pending.len() > before { let mut o = self.pending.pop().unwrap(); self.jump(&mut o, if t { b } else { a }); self.pending.push(o); }
                            self.jump(st, if t { a } else { b });
                        }
                        _ => return err("br condition"),
                    }
                }
                Op::Switch(w, o, d, cs) => {
                    let (w, d) = (*w, *d);
                    match self.get(st, o) {
                        Val::C(c) => { let t = cs.iter().find(|(k, _)| *k == c).map_or(d, |x| x.1); self.jump(st, t); }
                        Val::S(e) => {
                            let mut target = None;
                            // group cases by target
                            let mut groups: Vec<(u32, Vec<u128>)> = vec![];
                            for (k, t) in cs { match groups.iter_mut().find(|g| g.0 == *t) { Some(g) => g.1.push(*k), None => groups.push((*t, vec![*k])) } }
                            for (t, ks) in groups {
                                let mut c = self.x.ff();
                                for k in ks { let kk = self.x.c(k, w); let q = self.x.eq(e, kk); c = self.x.or(c, q); }
                                let before = self.pending.len();
                                let r = self.branch(st, c, |_, _| {})?;
                                if self.pending.len() > before {
                                    // sibling took the opposite decision
                                    if r { // sibling: not this target; it re-executes the switch
                                        let o = self.pending.last_mut().unwrap(); o.frames.last_mut().unwrap().ip -= 1;
                                    } else { let mut o = self.pending.pop().unwrap(); self.jump(&mut o, t); self.pending.push(o); }
                                }
                                if r { target = Some(t); break; }
                            }
                            self.jump(st, target.unwrap_or(d));
                        }
                        _ => return err("switch operand"),
                    }
                }
                Op::Ret(o) => { let v = o.as_ref().map(|o| self.get(st, o)); return self.ret_to(st, v); }
                Op::Unreachable => return err(format!("unreachable executed in {}", self.backtrace(st))),
                Op::Nop => {}
                Op::Unsupported(s) => return err(format!("unsupported: {} in {}", s, self.backtrace(st))),
                Op::Call(callee, args, tys, ret) => {
                    let mut after = u32::MAX;
                    let mut n = args.len();
                    if tys.last() == Some(&u32::MAX) { n -= 1; if let Opd::K(Val::C(l)) = &args[n] { after = *l as u32; } }
                    let fid = match callee { Callee::Fn(f) => *f, Callee::Ind(o) => {
                        let a = self.addr(st, o)?;
                        if a < FN_BASE { return err(format!("indirect call to {:#x} in {}", a, self.backtrace(st))); }
                        ((a - FN_BASE) / 16) as u32 }
                        Callee::Nop => continue };
                    let vals: Vec<Val> = args[..n].iter().map(|o| self.get(st, o)).collect();
                    let sp = self.sp[fid as usize];
                    if sp != Sp::None {
                        match self.builtin(st, sp, fid, &vals, &tys[..n], *ret, dst, after)? {
                            Some(v) => { if dst != u32::MAX { set!(v) } if after != u32::MAX { self.jump(st, after); } }
                            None => { if st.frames.len() != depth { return Ok(None); } }
                        }
                        continue;
                    }
                    if !self.m.funcs[fid as usize].defined { return err(format!("external function {} in {}", self.m.funcs[fid as usize].name, self.backtrace(st))); }
                    self.push_frame(st, fid, vals, dst, after, false);
                    return Ok(None);
                }
            }
        }
    }
    fn has_ptr(&self, t: TyId) -> bool { match &self.m.types[t as usize] { Ty::Ptr => true, Ty::Struct(f, _) => f.iter().any(|x| self.has_ptr(*x)), Ty::Arr(_, e) | Ty::Vec(_, e) => self.has_ptr(*e), _ => false } }

    /// read with a symbolic address inside one object: if-then-else over the possible offsets
    fn table_read(&mut self, st: &State, t: TyId, e: E) -> R<Option<Val>> {
        if !matches!(self.m.types[t as usize], Ty::Int(_)) { return Ok(None); }
        let (lo, hi, kz) = { let i = &self.x.info[e as usize]; (i.lo, i.hi, i.kz) };
        let n = self.m.size(t);
        let (base, lo, hi) = if lo >> 32 == hi >> 32 && hi - lo <= 4096 { (0u128, lo, hi) } else { return Ok(None); };
        let _ = base;
        let step = 1u128 << (kz.trailing_ones().min(5));
        let mut opts: Vec<(u128, Val)> = vec![];
        let mut a = lo;
        let (ob, _) = match self.obj(st, lo as u64, 0) { Ok(x) => x, Err(_) => return Ok(None) };
        let len = ob.data.len() as u128;
        while a <= hi {
            if (a & 0xffff_ffff) + n as u128 > len { break; }
            let v = self.load_ty(st, t, a as u64)?; opts.push((a, v)); a += step;
            if opts.len() > 1100 { return Ok(None); }
        }
        if opts.is_empty() { return Ok(None); }
        let w = self.m.bits(t);
        let es: Vec<(u128, E)> = opts.iter().map(|(a, v)| (*a, match v { Val::C(c) => { let c = *c; (c, 0) } Val::S(e) => (0, *e), _ => (0, 0) })).map(|(a, (c, e))| (a, if e != 0 { e } else { self.x.c(c, w) })).collect();
        // most common value last
        let mut cnt: HashMap<E, usize> = HashMap::new(); for (_, v) in &es { *cnt.entry(*v).or_insert(0) += 1; }
        let dflt = *cnt.iter().max_by_key(|(k, n)| (**n, **k)).unwrap().0;
        let mut r = dflt;
        for (a, v) in es { if v == dflt { continue; } let k = self.x.c(a, 64); let c = self.x.eq(e, k); r = self.x.ite(c, v, r); }
        Ok(Some(self.v(r)))
    }

    fn builtin(&mut self, st: &mut State, sp: Sp, fid: u32, a: &[Val], tys: &[TyId], ret: TyId, dst: u32, after: u32) -> R<Option<Val>> {
        let done = Ok(Some(Val::C(0)));
        let w0 = |s: &Self| { let (_, et) = s.m.lanes(tys[0]); s.m.bits(et) };
        macro_rules! conc { ($i:expr) => { self.conc_arg(st, &a[$i])? } }
        macro_rules! lanewise { ($f:expr) => {{
            let f = $f;
            match &a[0] {
                Val::A(v0) => { let v1 = a.get(1).cloned(); let mut out = vec![]; for i in 0..v0.len() { let y = match &v1 { Some(Val::A(v)) => v[i].clone(), _ => Val::C(0) }; out.push(f(self, &v0[i], &y)?); } Ok(Some(Val::A(Rc::new(out)))) }
                _ => { let y = a.get(1).cloned().unwrap_or(Val::C(0)); let r = f(self, &a[0], &y)?; Ok(Some(r)) }
            }
        }} }
        match sp {
            Sp::Alloc | Sp::Malloc => { let n = conc!(0); let p = self.new_obj(st, n)?; Ok(Some(Val::C(p as u128))) }
            Sp::AllocZ => { let n = conc!(0); let p = self.new_obj(st, n)?; Ok(Some(Val::C(p as u128))) }
            Sp::Calloc => { let n = conc!(0) * conc!(1); let p = self.new_obj(st, n)?; Ok(Some(Val::C(p as u128))) }
            Sp::Memalign => { let n = conc!(2); let p = self.new_obj(st, n)?; let d = conc!(0); self.write_int(st, d, 8, &Val::C(p as u128))?; done }
            Sp::Dealloc | Sp::Free => { let p = conc!(0); self.del_obj(st, p); done }
            Sp::Realloc | Sp::MRealloc => {
                let p = conc!(0); let n = if sp == Sp::Realloc { conc!(3) } else { conc!(1) };
                let q = self.new_obj(st, n)?;
                if p != 0 { let old = self.obj(st, p, 0)?.0.data.len() as u64; self.copy(st, q, p, old.min(n))?; self.del_obj(st, p); }
                Ok(Some(Val::C(q as u128)))
            }
            Sp::Memcpy => { let n = conc!(2); if n > 0 { let (d, s) = (conc!(0), conc!(1)); self.copy(st, d, s, n)?; } Ok(Some(a[0].clone())) }
            Sp::Memset => {
                let n = conc!(2); if n > 0 { let d = conc!(0);
                    match &a[1] { Val::C(c) => { let (ob, o) = self.obj_mut(st, d, n)?; for i in 0..n as usize { ob.data[o + i] = *c as u8; } if let Some(s) = &mut ob.sym { for i in 0..n as usize { s[o + i] = 0; } } }
                        v => { let e = self.e(v, 8); for i in 0..n { self.write_int(st, d + i, 1, &Val::S(e))?; } } } }
                Ok(Some(a[0].clone()))
            }
            Sp::Bcmp => {
                let n = conc!(2); if n == 0 { return done; }
                let (p, q) = (conc!(0), conc!(1));
                let mut c = self.x.tt();
                for i in 0..n { let (x, y) = (self.byte(st, p + i)?, self.byte(st, q + i)?); let e = self.x.eq(x, y); if self.x.cval(e) == Some(0) { return Ok(Some(Val::C(1))); } c = self.x.and(c, e); }
                let nc = self.x.not(c); let r = self.x.zext(nc, 32); Ok(Some(self.v(r)))
            }
            Sp::Memcmp => {
                let n = conc!(2); if n == 0 { return done; }
                let (p, q) = (conc!(0), conc!(1));
                let mut bs = vec![];
                for i in 0..n { let (x, y) = (self.byte(st, p + i)?, self.byte(st, q + i)?); let e = self.x.eq(x, y); bs.push((x, y, e)); if self.x.cval(e) == Some(0) { break; } }
                let mut r = self.x.c(0, 32);
                for (x, y, e) in bs.into_iter().rev() { let (m1, p1) = (self.x.c(mask(32), 32), self.x.c(1, 32)); let l = self.x.ult(x, y); let d = self.x.ite(l, m1, p1); r = self.x.ite(e, r, d); }
                Ok(Some(self.v(r)))
            }
            Sp::Strlen => { let p = conc!(0); let mut n = 0; loop { let b = self.byte(st, p + n)?; if self.x.cval(b) == Some(0) { break; } n += 1; } Ok(Some(Val::C(n as u128))) }
            Sp::Panic => { let b = self.backtrace(st); Err(End::Panic(b)) }
            Sp::Abort => { let b = self.backtrace(st); Err(End::Panic(format!("abort: {}", b))) }
            Sp::Ret0 | Sp::Pause => Ok(Some(self.zero_of(ret))),
            Sp::RetM1 => Ok(Some(Val::C(mask(self.m.bits(ret))))),
            Sp::Errno => { let p = self.new_obj(st, 8)?; self.write_int(st, p, 4, &Val::C(38))?; Ok(Some(Val::C(p as u128))) }
            Sp::RandKeys => Ok(Some(Val::A(Rc::new(vec![Val::C(0x0123456789abcdef), Val::C(0xfedcba9876543210)])))),
            Sp::TlsAddr => Ok(Some(a[0].clone())),
            Sp::FmtInt => {
                // Display of a symbolic integer: a lossless fixed-width letter encoding instead of digits
                let p = conc!(0);
                let name = self.m.funcs[fid as usize].name.clone();
                let n: u64 = int_bytes(&name);
                let v = self.read_int(st, p, n)?;
                if let Val::S(e) = v {
                    self.fmts += 1;
                    let pi = match self.m.funcs.iter().position(|f| f.name.starts_with("_ZN4core3fmt9Formatter12pad_integral17h") && f.defined) { Some(i) => i as u32, None => return err("pad_integral not found") };
                    let len = 1 + 2 * n;
                    let buf = self.new_obj(st, len)?;
                    self.write_int(st, buf, 1, &Val::C(b'~' as u128))?;
                    for i in 0..2 * n { let nib = self.x.extract(e, (2 * n - 1 - i) as u32 * 4, 4); let z = self.x.zext(nib, 8); let k = self.x.c(97, 8); let b = self.x.add(z, k); let b = self.v(b); self.write_int(st, buf + 1 + i, 1, &b)?; }
                    // pad_integral(f, is_nonnegative, prefix, prefix_len, buf, len)
                    self.push_frame(st, pi, vec![a[1].clone(), Val::C(1), Val::C(1), Val::C(0), Val::C(buf as u128), Val::C(len as u128)], dst, after, false);
                    return Ok(None);
                }
                self.push_frame(st, fid, a.to_vec(), dst, after, false); Ok(None)
            }
            Sp::ParseU64 => {
                // text that starts with '~' is the form written by FmtInt: parsed by the harness library
                let mut to = fid;
                let (p, n) = (conc!(a.len() - 2), conc!(a.len() - 1));
                if n > 0 { if let Val::C(c) = self.read_int(st, p, 1)? { if c == b'~' as u128 { let h = format!("vx_parse_{}", int_from_str(&self.m.funcs[fid as usize].name).unwrap()); if let Some(i) = self.m.funcs.iter().position(|f| f.name == h && f.defined) { to = i as u32; } } } }
                self.push_frame(st, to, a.to_vec(), dst, after, false); Ok(None)
            }
            // hash maps over symbolic keys: every key gets the same hash, so that only equality decides (one of the functions a random seed could give)
            Sp::HashOne => { if st.flat_hash { return Ok(Some(Val::C(0))); } self.push_frame(st, fid, a.to_vec(), dst, after, false); Ok(None) }
            Sp::FlatHash => { st.flat_hash = true; done }
            // ---- harness interface ----
            Sp::On => Ok(Some(Val::C(1))),
            Sp::IsSym => { let (p, n) = (conc!(0), conc!(1)); if n == 0 { return done; } let (ob, o) = self.obj(st, p, n)?; let s = ob.sym.as_ref().map_or(false, |s| s[o..o + n as usize].iter().any(|e| *e != 0)); Ok(Some(Val::C(s as u128))) }
            // a byte that is a narrow value in disguise
            Sp::Simp => { if let Val::S(e) = &a[0] { if let Some((atoms, t)) = self.x.table(*e) { if atoms.len() == 1 && t.iter().enumerate().all(|(i, v)| i as u128 == *v) { let w = self.x.w(*e); let z = self.x.zext(atoms[0], w); let v = self.v(z); return Ok(Some(v)); } } } Ok(Some(a[0].clone())) }
            Sp::Sym => { // (out, nbytes, name, len)
                let (o, n) = (conc!(0), conc!(1)); let (p, l) = (conc!(2), conc!(3)); let name = self.text(st, p, l)?;
                let e = self.x.sym(&name, n as u32 * 8); st.inputs.push(e);
                self.write_int(st, o, n, &Val::S(e))?; done
            }
            Sp::Bool => { let (p, l) = (conc!(0), conc!(1)); let name = self.text(st, p, l)?; let e = self.x.sym(&name, 1); st.inputs.push(e); let w = self.m.bits(ret); let z = self.x.zext(e, w); Ok(Some(Val::S(z))) }
            Sp::Range => { // (lo, hi, name, len) -> u64
                let (lo, hi) = (conc!(0), conc!(1)); let (p, l) = (conc!(2), conc!(3)); let name = self.text(st, p, l)?;
                if lo == hi { let e = self.x.sym_range(&name, 64, lo as u128, hi as u128); st.inputs.push(e); let k = self.x.c(lo as u128, 64); let c = self.x.intern_eq(e, k); st.pc.push(c); return Ok(Some(Val::C(lo as u128))); }
                let e = self.x.sym_range(&name, 64, lo as u128, hi as u128); st.inputs.push(e);
                // the range constraint itself must not be simplified away by the range it defines
                let (kl, kh) = (self.x.c(lo as u128, 64), self.x.c(hi as u128, 64));
                if lo > 0 { let c = self.x.raw_ule(kl, e); st.pc.push(c); }
                if hi < u64::MAX { let c = self.x.raw_ule(e, kh); st.pc.push(c); }
                Ok(Some(Val::S(e)))
            }
            Sp::Choose => { // (n, name, len) -> 0..n, forked
                let n = conc!(0); 
                let key = st.inputs.len();
                let _ = key;
                let (p, l) = (conc!(1), conc!(2)); let name = self.text(st, p, l)?;
                let e = self.x.sym_range(&name, 64, 0, n as u128 - 1);
                st.inputs.push(e);
                let kh = self.x.c(n as u128 - 1, 64); let c = self.x.raw_ule(e, kh); st.pc.push(c);
                for i in (1..n).rev() {
                    let mut o = st.clone();
                    let k = self.x.c(i as u128, 64); let c = self.x.eq(e, k);
                    if self.x.cval(c) != Some(1) { o.pc.push(c); }
                    let mut m = (*o.model).clone(); if let Node::Sym(s) = *self.x.node(e) { m.insert(s, vec![i]); } o.model = Rc::new(m);
                    if dst != u32::MAX { o.frames.last_mut().unwrap().regs[dst as usize] = Val::C(i as u128); }
                    if after != u32::MAX { self.jump(&mut o, after); }
                    o.forks += 1; self.forks += 1;
                    self.pending.push(o);
                }
                if n > 1 { let k = self.x.c(0, 64); let c = self.x.eq(e, k); st.pc.push(c); let mut m = (*st.model).clone(); if let Node::Sym(s) = *self.x.node(e) { m.insert(s, vec![0]); } st.model = Rc::new(m); }
                Ok(Some(Val::C(0)))
            }
            Sp::Assume => { let e = self.bool_arg(&a[0], tys[0]); if self.add(st, e)? { done } else { Err(End::Infeasible) } }
            Sp::Assert => {
                let e = self.bool_arg(&a[0], tys[0]); let (p, l) = (conc!(1), conc!(2));
                self.asserts += 1;
                match self.x.cval(e) {
                    Some(1) => done,
                    Some(_) => { let t = self.text(st, p, l)?; Err(End::Violation(t)) }
                    None => {
                        self.assert_queries += 1;
                        let ne = self.x.not(e);
                        match self.s.check(&self.x, &st.pc, ne) {
                            Res::Unsat => done,
                            Res::Sat(m) => { st.model = self.merge(st, &m); let t = self.text(st, p, l)?; self.push_pc(st, ne); Err(End::Violation(t)) }
                            Res::Unknown => { self.unknowns += 1; let t = self.text(st, p, l)?; err(format!("solver gave up on assertion: {}", t)) }
                        }
                    }
                }
            }
            Sp::Reach => { let (p, l) = (conc!(0), conc!(1)); let t = self.text(st, p, l)?; if !st.reached.contains(&t) { st.reached.push(t); } done }
            Sp::Trace => { let (p, l) = (conc!(0), conc!(1)); let t = self.text(st, p, l)?; eprintln!("trace: {} {}", t, match &a[2] { Val::C(c) => format!("{}", c), Val::S(e) => self.x.show(*e, 6), _ => "agg".into() }); done }
            Sp::Concrete => { let c = self.concretize(st, &a[0])?; Ok(Some(Val::C(c))) }
            Sp::Observe => { let (p, l) = (conc!(0), conc!(1)); let t = self.text(st, p, l)?; let w = self.m.bits(tys[2]); st.observed.push((t, a[2].clone(), w)); done }
            Sp::Try => {
                let f = conc!(0);
                if f < FN_BASE { return err("vx_try target"); }
                let id = ((f - FN_BASE) / 16) as u32;
                self.push_frame(st, id, vec![a[1].clone()], dst, after, true);
                Ok(None)
            }
            Sp::F1600 => {
                let p = conc!(0);
                let mut ins = vec![]; let mut conc = true;
                for i in 0..25 { let v = self.read_int(st, p + 8 * i, 8)?; if !matches!(v, Val::C(_)) { conc = false; } ins.push(self.e(&v, 64)); }
                if conc { // computed here; recorded so that symbolic uses relate to it
                    let mut a = [0u64; 25]; for i in 0..25 { a[i] = self.x.cval(ins[i]).unwrap() as u64; }
                    keccak_f(&mut a);
                    let outs: Vec<E> = a.iter().map(|v| self.x.c(*v as u128, 64)).collect();
                    for (i, o) in a.iter().enumerate() { self.write_int(st, p + 8 * i as u64, 8, &Val::C(*o as u128))?; }
                    if !st.hashes.iter().any(|(i, _)| *i == ins) {
                        let hs = st.hashes.clone();
                        for (pi, po) in &hs {
                            if po.iter().all(|o| self.x.cval(*o).is_some()) { continue; }
                            let c = self.hash_axiom(&hs, &ins, &outs, pi, po);
                            if !self.add(st, c)? { return err("hash axioms infeasible"); }
                        }
                        st.hashes.push((ins, outs));
                    }
                    return Ok(Some(Val::C(1)));
                }
                self.hash_uses += 1;
                // ideal permutation: equal inputs <=> equal first output lanes, and then equal outputs
                let mut outs = vec![];
                if let Some((_, o)) = st.hashes.iter().find(|(i, _)| *i == ins) { outs = o.clone(); }
                else {
                    for i in 0..25 { let e = self.x.sym(&format!("keccak{}_{}", st.hashes.len(), i), 64); outs.push(e); }
                    let hs = st.hashes.clone();
                    { // values for the new outputs that satisfy all that follows
                        let mut memo = HashMap::new();
                        let mut vals = None;
                        for (pi, po) in &hs {
                            let same = self.same_block(&hs, &ins, pi);
                            if self.x.cval(same) == Some(0) { continue; }
                            if self.x.eval(same, &st.model, &mut memo)[0] == 1 { vals = Some(po.iter().map(|o| self.x.eval(*o, &st.model, &mut memo)).collect::<Vec<_>>()); break; }
                        }
                        let vals = vals.unwrap_or_else(|| { let mut a = [0u64; 25]; for i in 0..25 { a[i] = self.x.eval(ins[i], &st.model, &mut memo)[0]; } keccak_f(&mut a); a.iter().map(|v| vec![*v]).collect() });
                        let mut m = Model::new();
                        for (o, v) in outs.iter().zip(vals) { if let Node::Sym(i) = self.x.node(*o) { m.insert(*i, v); } }
                        st.model = self.merge(st, &m);
                    }
                    for (pi, po) in &hs {
                        let c = self.hash_axiom(&hs, &ins, &outs, pi, po);
                        if !self.add(st, c)? { return err("hash axioms infeasible"); }
                    }
                    st.hashes.push((ins, outs.clone()));
                }
                for (i, o) in outs.iter().enumerate() { let v = Val::S(*o); self.write_int(st, p + 8 * i as u64, 8, &v)?; }
                Ok(Some(Val::C(1)))
            }
            Sp::BigOp => { // (op, out, a, b, nbytes_in, nbytes_out) -> 1 if done symbolically, 0: caller computes
                let op = conc!(0); let (o, p, q, ni, no) = (conc!(1), conc!(2), conc!(3), conc!(4), conc!(5));
                let (x, y) = (self.read_int(st, p, ni)?, self.read_int(st, q, ni)?);
                let w = ni as u32 * 8; let wo = no as u32 * 8;
                let (x, y) = (self.e(&x, w), self.e(&y, w));
                if self.x.is_const(x) && self.x.is_const(y) { return Ok(Some(Val::C(0))); }
                self.bigops += 1;
                let (x, y) = if wo > w { (self.x.zext(x, wo), self.x.zext(y, wo)) } else { (x, y) };
                let r = match op { 0 => self.x.add(x, y), 1 => self.x.sub(x, y), 2 => self.x.mul(x, y), 3 => self.x.udiv(x, y), 4 => self.x.urem(x, y), 5 => { let c = self.x.ult(x, y); self.x.zext(c, wo.max(w)) } 6 => { let c = self.x.eq(x, y); self.x.zext(c, wo.max(w)) } _ => return err("bigop") };
                let r = self.x.trunc(r, wo);
                let v = self.v(r); let v = match v { Val::C(c) if wo > 128 => Val::S(self.x.c(c, wo)), v => v };
                self.write_int(st, o, no, &v)?;
                Ok(Some(Val::C(1)))
            }
            // ---- llvm intrinsics ----
            Sp::Bswap => { let w = w0(self); lanewise!(|s: &mut Self, x: &Val, _: &Val| -> R<Val> { let e = s.e(x, w); let mut r: Option<E> = None; for i in 0..w / 8 { let b = s.x.extract(e, i * 8, 8); r = Some(match r { None => b, Some(h) => s.x.concat(h, b) }); } let r = r.unwrap(); Ok(s.v(r)) }) }
            Sp::BitRev => { let w = w0(self); lanewise!(|s: &mut Self, x: &Val, _: &Val| -> R<Val> { let e = s.e(x, w); let mut r: Option<E> = None; for i in 0..w { let b = s.x.extract(e, i, 1); r = Some(match r { None => b, Some(h) => s.x.concat(h, b) }); } let r = r.unwrap(); Ok(s.v(r)) }) }
            Sp::Ctlz | Sp::Cttz => {
                let w = w0(self);
                match &a[0] { Val::C(c) => { let n = if *c == 0 { w } else if sp == Sp::Cttz { c.trailing_zeros() } else { w - (128 - c.leading_zeros()) }; Ok(Some(Val::C(n as u128))) }
                    Val::S(_) => { let e = self.e(&a[0], w); let mut r = self.x.c(w as u128, w);
                        let it: Vec<u32> = if sp == Sp::Cttz { (0..w).rev().collect() } else { (0..w).collect() };
                        for i in it { let b = self.x.extract(e, i, 1); let k = self.x.c(if sp == Sp::Cttz { i } else { w - 1 - i } as u128, w); r = self.x.ite(b, k, r); } Ok(Some(self.v(r))) }
                    _ => err("vector ctlz") }
            }
            Sp::Ctpop => { let w = w0(self); lanewise!(|s: &mut Self, x: &Val, _: &Val| -> R<Val> { let e = s.e(x, w); let mut r = s.x.c(0, w); for i in 0..w { let b = s.x.extract(e, i, 1); let z = s.x.zext(b, w); r = s.x.add(r, z); } Ok(s.v(r)) }) }
            Sp::Fshl | Sp::Fshr => {
                let w = w0(self);
                let one = |s: &mut Self, p: &Val, q: &Val, k: &Val| -> R<Val> {
                    let k = match k { Val::C(c) => (*c % w as u128) as u32, _ => return err("symbolic funnel shift") };
                    if let (Val::C(x), Val::C(y)) = (p, q) { if w <= 64 { let t = x << w | y; let r = if sp == Sp::Fshl { (t << k) >> w } else { t >> k }; return Ok(Val::C(r & mask(w))); } }
                    let (x, y) = (s.e(p, w), s.e(q, w)); let t = s.x.concat(x, y);
                    let r = if sp == Sp::Fshl { s.x.extract(t, w - k, w) } else { s.x.extract(t, k, w) }; Ok(s.v(r)) };
                match (&a[0], &a[1], &a[2]) { (Val::A(p), Val::A(q), Val::A(k)) => { let mut v = vec![]; for i in 0..p.len() { v.push(one(self, &p[i], &q[i], &k[i])?); } Ok(Some(Val::A(Rc::new(v)))) } _ => Ok(Some(one(self, &a[0], &a[1], &a[2])?)) }
            }
            Sp::UMax | Sp::UMin | Sp::SMax | Sp::SMin => { let w = w0(self); lanewise!(|s: &mut Self, x: &Val, y: &Val| -> R<Val> {
                let (p, q) = (s.e(x, w), s.e(y, w)); let c = match sp { Sp::UMax | Sp::UMin => s.x.ult(p, q), _ => s.x.slt(p, q) };
                let r = match sp { Sp::UMax | Sp::SMax => s.x.ite(c, q, p), _ => s.x.ite(c, p, q) }; Ok(s.v(r)) }) }
            Sp::UAddSat | Sp::USubSat => { let w = w0(self); lanewise!(|s: &mut Self, x: &Val, y: &Val| -> R<Val> {
                let (p, q) = (s.e(x, w), s.e(y, w));
                let r = if sp == Sp::USubSat { let c = s.x.ult(p, q); let z = s.x.c(0, w); let d = s.x.sub(p, q); s.x.ite(c, z, d) } else { let d = s.x.add(p, q); let c = s.x.ult(d, p); let m = s.x.c(mask(w), w); s.x.ite(c, m, d) }; Ok(s.v(r)) }) }
            Sp::Abs => { let w = w0(self); lanewise!(|s: &mut Self, x: &Val, _: &Val| -> R<Val> { let p = s.e(x, w); let z = s.x.c(0, w); let n = s.x.sub(z, p); let c = s.x.slt(p, z); let r = s.x.ite(c, n, p); Ok(s.v(r)) }) }
            Sp::UAddO | Sp::USubO | Sp::UMulO | Sp::SAddO | Sp::SSubO | Sp::SMulO => {
                let w = w0(self);
                if w > 128 { return err("wide overflow op"); }
                let (p, q) = (self.e(&a[0], w), self.e(&a[1], w)); let x = &mut self.x;
                let (r, o) = match sp {
                    Sp::UAddO => { let r = x.add(p, q); let (ph, qh) = (x.info[p as usize].hi, x.info[q as usize].hi);
                        let o = if ph.checked_add(qh).map_or(false, |h| h <= mask(w)) { x.ff() } else { x.ult(r, p) }; (r, o) }
                    Sp::USubO => { let r = x.sub(p, q); (r, x.ult(p, q)) }
                    Sp::UMulO => {
                        let n = x.active(p) + x.active(q);
                        let r = x.mul(p, q);
                        if n <= w { (r, x.ff()) } else { let (pp, qq) = (x.zext(p, 2 * w), x.zext(q, 2 * w)); let f = x.mul(pp, qq); let h = x.extract(f, w, w); let z = x.c(0, w); let e = x.eq(h, z); (r, x.not(e)) }
                    }
                    Sp::SAddO | Sp::SSubO => { let (pp, qq) = (x.sext(p, w + 1), x.sext(q, w + 1)); let f = if sp == Sp::SAddO { x.add(pp, qq) } else { x.sub(pp, qq) }; let r = x.trunc(f, w); let b = x.sext(r, w + 1); let e = x.eq(b, f); (r, x.not(e)) }
                    _ => { let (pp, qq) = (x.sext(p, 2 * w), x.sext(q, 2 * w)); let f = x.mul(pp, qq); let r = x.trunc(f, w); let b = x.sext(r, 2 * w); let e = x.eq(b, f); (r, x.not(e)) }
                };
                let (r, o) = (self.v(r), self.v(o));
                Ok(Some(Val::A(Rc::new(vec![r, o]))))
            }
            Sp::Expect => Ok(Some(a[0].clone())),
            Sp::RedAdd | Sp::RedOr => { let w = w0(self); if let Val::A(v) = &a[0] { let mut r = Val::C(0); for x in v.iter() { r = self.bin(if sp == Sp::RedAdd { BinOp::Add } else { BinOp::Or }, w, &r, x)?; } Ok(Some(r)) } else { err("reduce") } }
            Sp::PMovmsk => { if let Val::A(v) = &a[0] { let mut r = Val::C(0); for (i, x) in v.iter().enumerate() { let e = self.e(x, 8); let b = self.x.extract(e, 7, 1); let b = self.x.zext(b, 32); let b = self.v(b); let s = self.bin(BinOp::Shl, 32, &b, &Val::C(i as u128))?; r = self.bin(BinOp::Or, 32, &r, &s)?; } Ok(Some(r)) } else { err("pmovmsk") } }
            Sp::LoadRel => { let (p, o) = (conc!(0), conc!(1)); match self.read_int(st, p.wrapping_add(o), 4)? { Val::C(c) => Ok(Some(Val::C(p.wrapping_add(sext128(c, 32) as i64 as u64) as u128))), _ => err("load.relative") } }
            Sp::None => unreachable!(),
        }
    }
    fn bool_arg(&mut self, v: &Val, t: TyId) -> E { let w = self.m.bits(t); let e = self.e(v, w); if w == 1 { e } else { let z = self.x.c(0, w); let q = self.x.eq(e, z); self.x.not(q) } }
    fn zero_of(&self, t: TyId) -> Val { match &self.m.types[t as usize] { Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| self.zero_of(*x)).collect())), _ => Val::C(0) } }
    pub fn report_forks(&self) {
        let mut v: Vec<_> = self.fork_sites.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in v.into_iter().take(15) { eprintln!("  {} forks in {} bb{}", n, demangle(&self.m.funcs[*f as usize].name), b); }
    }
}
impl Engine {
    /// are two inputs of the permutation equal? The capacity lanes come from the start state or from an earlier block, and those
    /// are equal only for equal earlier blocks (no inner collisions)
    /// Two blocks of an ideal permutation: equal inputs <=> equal first output lanes, and then all lanes are equal.
    fn hash_axiom(&mut self, hs: &[(Vec<E>, Vec<E>)], ins: &[E], outs: &[E], pi: &[E], po: &[E]) -> E {
        let same_in = self.same_block(hs, ins, pi);
        let same_out = self.x.eq(outs[0], po[0]);
        if self.x.cval(same_in) == Some(0) { return self.x.not(same_out); }
        let mut all = self.x.tt();
        for k in 1..25 { let c = self.x.eq(outs[k], po[k]); all = self.x.and(all, c); }
        let rest = self.x.not(same_in);
        let rest = self.x.or(rest, all);
        let c = self.x.eq(same_in, same_out);
        self.x.and(c, rest)
    }
    fn same_block(&mut self, hs: &[(Vec<E>, Vec<E>)], a: &[E], b: &[E]) -> E {
        if a == b { return self.x.tt(); }
        let zero = |s: &Self, v: &[E]| v[17..25].iter().all(|e| s.x.cval(*e) == Some(0));
        let from = |v: &[E]| hs.iter().position(|(_, o)| o[17..25] == v[17..25]);
        let mut r = self.x.tt();
        let (p, q) = if zero(self, a) && zero(self, b) { (None, None) } else {
            match (from(a), from(b)) {
                (None, None) => { for k in 17..25 { let c = self.x.eq(a[k], b[k]); r = self.x.and(r, c); } (None, None) }
                (None, Some(_)) if zero(self, a) => return self.x.ff(),
                (Some(_), None) if zero(self, b) => return self.x.ff(),
                (Some(i), Some(j)) => {
                    if i != j { r = self.same_block(hs, &hs[i].0, &hs[j].0); }
                    if self.x.cval(r) == Some(0) { return r; }
                    (Some(i), Some(j))
                }
                _ => { for k in 17..25 { let c = self.x.eq(a[k], b[k]); r = self.x.and(r, c); } (None, None) }
            }
        };
        for k in 0..17 {
            let (x, y) = match (p, q) { (Some(i), Some(j)) => (self.x.xor(a[k], hs[i].1[k]), self.x.xor(b[k], hs[j].1[k])), _ => (a[k], b[k]) };
            let c = self.x.eq(x, y);
            r = self.x.and(r, c);
        }
        r
    }
}
pub fn keccak_f(a: &mut [u64; 25]) {
    let (mut lfsr, rot) = (1u8, |x: u64, n: u32| x.rotate_left(n));
    for _ in 0..24 {
        let mut c = [0u64; 5]; for x in 0..5 { c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]; }
        for x in 0..5 { let d = c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1); for y in 0..5 { a[x + 5 * y] ^= d; } }
        let (mut x, mut y, mut cur) = (1, 0, a[1]);
        for t in 0..24u32 { let r = (t + 1) * (t + 2) / 2; let ny = (2 * x + 3 * y) % 5; x = y; y = ny; let k = x + 5 * y; let old = a[k]; a[k] = rot(cur, r % 64); cur = old; }
        for y in 0..5 { let row: Vec<u64> = (0..5).map(|x| a[x + 5 * y]).collect(); for x in 0..5 { a[x + 5 * y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]); } }
        for j in 0..7u32 { let bit = lfsr & 1 == 1; lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 }); if bit { a[0] ^= 1u64 << ((1u32 << j) - 1); } }
    }
}
fn insert(a: &Val, b: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() { return b.clone(); }
    if let Val::A(v) = a { let mut n = (**v).clone(); n[ix[0] as usize] = insert(&n[ix[0] as usize], b, &ix[1..]); Val::A(Rc::new(n)) } else { panic!("insertvalue") }
}
fn int_bytes(n: &str) -> u64 {
    let k = n.find("Display$u20$for$u20$").unwrap() + "Display$u20$for$u20$".len();
    match &n[k + 1..n[k..].find('$').unwrap() + k] { "8" => 1, "16" => 2, "32" => 4, "64" | "size" => 8, "128" => 16, o => panic!("int {}", o) }
}
fn special(n: &str) -> Sp {
    if n.starts_with("vx_") {
        return match n { "vx_sym" => Sp::Sym, "vx_range" => Sp::Range, "vx_assume" => Sp::Assume, "vx_assert" => Sp::Assert, "vx_reach" => Sp::Reach, "vx_concrete" => Sp::Concrete, "vx_on" => Sp::On, "vx_try" => Sp::Try,
            "vx_observe" => Sp::Observe, "vx_f1600" => Sp::F1600, "vx_bigop" => Sp::BigOp, "vx_issym" => Sp::IsSym, "vx_simp" => Sp::Simp, "vx_bool" => Sp::Bool, "vx_choose" => Sp::Choose, "vx_trace" => Sp::Trace, "vx_flat_hash" => Sp::FlatHash, _ => Sp::None };
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("memcpy") || p("memmove") { Sp::Memcpy } else if p("memset") { Sp::Memset } else if p("bswap") { Sp::Bswap } else if p("ctlz") { Sp::Ctlz } else if p("cttz") { Sp::Cttz } else if p("ctpop") { Sp::Ctpop }
            else if p("fshl") { Sp::Fshl } else if p("fshr") { Sp::Fshr } else if p("umax") { Sp::UMax } else if p("umin") { Sp::UMin } else if p("smax") { Sp::SMax } else if p("smin") { Sp::SMin }
            else if p("uadd.with") { Sp::UAddO } else if p("usub.with") { Sp::USubO } else if p("umul.with") { Sp::UMulO } else if p("sadd.with") { Sp::SAddO } else if p("ssub.with") { Sp::SSubO } else if p("smul.with") { Sp::SMulO }
            else if p("usub.sat") { Sp::USubSat } else if p("uadd.sat") { Sp::UAddSat } else if p("abs.") { Sp::Abs } else if p("expect") { Sp::Expect } else if p("threadlocal.address") { Sp::TlsAddr } else if p("vector.reduce.add") { Sp::RedAdd } else if p("vector.reduce.or") { Sp::RedOr }
            else if p("trap") { Sp::Abort } else if p("x86.sse2.pause") { Sp::Pause } else if p("load.relative") { Sp::LoadRel } else if p("bitreverse") { Sp::BitRev } else if p("x86.sse2.pmovmskb") { Sp::PMovmsk } else if p("x86.xgetbv") || p("prefetch") { Sp::Ret0 } else { Sp::None };
    }
    match n {
        "__rust_alloc" | "__rdl_alloc" => return Sp::Alloc, "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => return Sp::AllocZ, "__rust_dealloc" | "__rdl_dealloc" => return Sp::Dealloc, "__rust_realloc" | "__rdl_realloc" => return Sp::Realloc,
        "malloc" => return Sp::Malloc, "calloc" => return Sp::Calloc, "free" => return Sp::Free, "realloc" => return Sp::MRealloc, "posix_memalign" => return Sp::Memalign,
        "memcpy" | "memmove" => return Sp::Memcpy, "memset" => return Sp::Memset, "bcmp" => return Sp::Bcmp, "memcmp" => return Sp::Memcmp, "strlen" => return Sp::Strlen,
        "rust_begin_unwind" => return Sp::Panic, "abort" => return Sp::Abort,
        "getenv" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_getspecific" | "pthread_setspecific" | "pthread_key_create" | "write" | "sched_yield" | "__cxa_thread_atexit_impl" => return Sp::Ret0,
        "syscall" => return Sp::RetM1, "__errno_location" => return Sp::Errno,
        _ => {}
    }
    if n.starts_with("_ZN4core9panicking9panic_fmt17h") || n.starts_with("_ZN4core9panicking14panic_nounwind") || n.starts_with("_ZN3std9panicking20rust_panic_with_hook") || n.starts_with("_ZN3std7process5abort") || n.starts_with("_ZN5alloc5alloc18handle_alloc_error") || n.starts_with("_ZN4core6result13unwrap_failed17h") { return Sp::Panic; }
    if int_from_str(n).is_some() { return Sp::ParseU64; }
    if n.starts_with("_ZN4core4hash11BuildHasher8hash_one17h") { return Sp::HashOne; }
    if n.contains("hashmap_random_keys") { return Sp::RandKeys; }
    if n.contains("num") && n.contains("core..fmt..Display$u20$for$u20$") && n.contains("$GT$3fmt17h") {
        let k = n.find("Display$u20$for$u20$").unwrap() + 20; let t = &n[k..n[k..].find('$').unwrap() + k];
        if matches!(t, "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize") { return Sp::FmtInt; }
    }
    Sp::None
}
pub fn demangle(n: &str) -> String {
    let n0 = n;
    let Some(r) = n.strip_prefix("_ZN") else { return n0.to_string() };
    let mut out: Vec<String> = vec![]; let b = r.as_bytes(); let mut i = 0;
    while i < b.len() && b[i].is_ascii_digit() {
        let s = i; while b[i].is_ascii_digit() { i += 1; }
        let l: usize = r[s..i].parse().unwrap(); if i + l > r.len() { return n0.to_string(); }
        let mut p = r[i..i + l].to_string(); i += l;
        if p.starts_with('h') && p.len() == 17 && i + 1 >= b.len() { break; }
        for (k, v) in [("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$u7b$", "{"), ("$u7d$", "}"), ("$C$", ","), ("$u5b$", "["), ("$u5d$", "]"), ("$LP$", "("), ("$RP$", ")"), ("$u27$", "'"), ("$u3b$", ";"), ("$u2b$", "+"), ("$u3d$", "="), ("$BP$", "*"), ("..", "::")] { p = p.replace(k, v); }
        if let Some(q) = p.strip_prefix("_<") { p = format!("<{}", q); }
        out.push(p);
    }
    out.join("::")
}

/// the integer type whose FromStr this is
fn int_from_str(n: &str) -> Option<&str> {
    let n = &n[n.find("core..str..traits..FromStr$u20$for$u20$")? + 39..];
    let t = &n[..n.find("$GT$8from_str17h")?];
    matches!(t, "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize").then_some(t)
}
