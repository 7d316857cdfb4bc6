//! Bit-vector expressions: hash-consed DAG with a rewriting constructor layer.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    C(u128),       // width <= 128
    W(Vec<u64>),   // width > 128, little-endian limbs, masked
    Sym(u32),
    Add(E, E), Sub(E, E), Mul(E, E), UDiv(E, E), URem(E, E), SDiv(E, E), SRem(E, E),
    Shl(E, E), LShr(E, E), AShr(E, E),
    And(E, E), Or(E, E), Xor(E, E),
    Eq(E, E), Ult(E, E), Slt(E, E), // Ule(a,b) = not Ult(b,a)
    Ite(E, E, E),
    Concat(E, E),      // high, low
    Extract(E, u32),   // low bit index; width = node width
    ZExt(E), SExt(E),
}
use Node::*;

pub struct Info {
    pub w: u32,
    pub lo: u128, // unsigned range, meaningful for every width (hi saturates at u128::MAX when wider)
    pub hi: u128,
    pub kz: u128, // known-zero bits among the low 128
    pub deps: u32, // index of symbol set
    pub nl: bool,  // contains a multiplication or division of two unknowns
}

pub struct SymInfo { pub name: String, pub w: u32 }

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<(Node, u32), E>,
    pub syms: Vec<SymInfo>,
    pub sym_expr: Vec<E>,
    pub depsets: Vec<Rc<Vec<u32>>>,
    depmap: HashMap<Rc<Vec<u32>>, u32>,
    depmerge: HashMap<(u32, u32), u32>,
    tables: HashMap<E, Option<(Vec<E>, Vec<u128>)>>,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
fn bits(x: u128) -> u32 { 128 - x.leading_zeros() }

// ---- wide arithmetic on limbs -------------------------------------------------------------
pub fn limbs(w: u32) -> usize { ((w + 63) / 64) as usize }
pub fn wmask(v: &mut Vec<u64>, w: u32) {
    v.resize(limbs(w), 0);
    if w % 64 != 0 { let l = v.len() - 1; v[l] &= (1u64 << (w % 64)) - 1; }
}
fn wadd(a: &[u64], b: &[u64], w: u32) -> Vec<u64> {
    let mut r = vec![]; let mut c = 0u128;
    for i in 0..limbs(w) { let s = a[i] as u128 + b[i] as u128 + c; r.push(s as u64); c = s >> 64; }
    wmask(&mut r, w); r
}
fn wneg(a: &[u64], w: u32) -> Vec<u64> {
    let n: Vec<u64> = a.iter().map(|x| !x).collect();
    let mut one = vec![0; limbs(w)]; one[0] = 1;
    wadd(&n, &one, w)
}
fn wmul(a: &[u64], b: &[u64], w: u32) -> Vec<u64> {
    let n = limbs(w); let mut r = vec![0u64; n];
    for i in 0..n { let mut c = 0u128; for j in 0..n - i {
        let s = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c; r[i + j] = s as u64; c = s >> 64; } }
    wmask(&mut r, w); r
}
pub fn wcmp(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
    for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]); } }
    std::cmp::Ordering::Equal
}
fn wbit(a: &[u64], i: u32) -> bool { a[(i / 64) as usize] >> (i % 64) & 1 == 1 }
pub fn wshl(a: &[u64], k: u32, w: u32) -> Vec<u64> {
    let mut r = vec![0u64; limbs(w)];
    for i in k..w { if wbit(a, i - k) { r[(i / 64) as usize] |= 1 << (i % 64); } }
    r
}
pub fn wextract(a: &[u64], lo: u32, w: u32) -> Vec<u64> {
    let mut r = vec![0u64; limbs(w)];
    for i in 0..w { if ((i + lo) / 64) < a.len() as u32 && wbit(a, i + lo) { r[(i / 64) as usize] |= 1 << (i % 64); } }
    r
}
fn wdivrem(a: &[u64], b: &[u64], w: u32) -> (Vec<u64>, Vec<u64>) {
    let n = limbs(w); let mut q = vec![0u64; n]; let mut r = vec![0u64; n + 1];
    let mut bb = b.to_vec(); bb.push(0);
    for i in (0..w).rev() {
        for j in (1..=n).rev() { r[j] = r[j] << 1 | r[j - 1] >> 63; }
        r[0] = r[0] << 1 | wbit(a, i) as u64;
        if wcmp(&r, &bb) != std::cmp::Ordering::Less {
            let mut br = 0i128;
            for j in 0..=n { let s = r[j] as i128 - bb[j] as i128 + br; r[j] = s as u64; br = s >> 64; }
            q[(i / 64) as usize] |= 1 << (i % 64);
        }
    }
    r.truncate(n); (q, r)
}

pub fn sext128(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fold2(n: &Node, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    (match n {
        Add(..) => a.wrapping_add(b),
        Sub(..) => a.wrapping_sub(b),
        Mul(..) => a.wrapping_mul(b),
        UDiv(..) => if b == 0 { m } else { a / b },
        URem(..) => if b == 0 { a } else { a % b },
        SDiv(..) => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        SRem(..) => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Shl(..) => if b >= w as u128 { 0 } else { a << b },
        LShr(..) => if b >= w as u128 { 0 } else { a >> b },
        AShr(..) => { let s = sext128(a, w); (s >> (b.min(127).min(w as u128 - 1) as u32)) as u128 }
        And(..) => a & b, Or(..) => a | b, Xor(..) => a ^ b,
        Eq(..) => (a == b) as u128,
        Ult(..) => (a < b) as u128,
        Slt(..) => (sext128(a, w) < sext128(b, w)) as u128,
        _ => unreachable!(),
    }) & m
}
/// Wide result of a binary operation; comparisons return one limb.
pub fn wfold2(n: &Node, a: &[u64], b: &[u64], w: u32) -> Vec<u64> {
    let bl = |x: bool| vec![x as u64];
    let sh = |b: &[u64]| -> u32 { if b[1..].iter().any(|x| *x != 0) || b[0] >= w as u64 { w } else { b[0] as u32 } };
    match n {
        Add(..) => wadd(a, b, w),
        Sub(..) => wadd(a, &wneg(b, w), w),
        Mul(..) => wmul(a, b, w),
        UDiv(..) => if b.iter().all(|x| *x == 0) { let mut v = vec![u64::MAX; limbs(w)]; wmask(&mut v, w); v } else { wdivrem(a, b, w).0 },
        URem(..) => if b.iter().all(|x| *x == 0) { a.to_vec() } else { wdivrem(a, b, w).1 },
        Shl(..) => wshl(a, sh(b), w),
        LShr(..) => { let k = sh(b); if k >= w { vec![0; limbs(w)] } else { let mut v = wextract(a, k, w - k); v.resize(limbs(w), 0); v } }
        And(..) => a.iter().zip(b).map(|(x, y)| x & y).collect(),
        Or(..) => a.iter().zip(b).map(|(x, y)| x | y).collect(),
        Xor(..) => a.iter().zip(b).map(|(x, y)| x ^ y).collect(),
        Eq(..) => bl(a == b),
        Ult(..) => bl(wcmp(a, b).is_lt()),
        Slt(..) => { let (x, y) = (wbit(a, w - 1), wbit(b, w - 1)); bl(if x != y { x } else { wcmp(a, b).is_lt() }) }
        _ => panic!("unsupported wide op {:?}", n),
    }
}

impl Exprs {
    pub fn new() -> Self {
        let mut x = Exprs { nodes: vec![], info: vec![], map: HashMap::new(), syms: vec![], sym_expr: vec![],
            depsets: vec![], depmap: HashMap::new(), depmerge: HashMap::new(), tables: HashMap::new() };
        let e = Rc::new(vec![]); x.depsets.push(e.clone()); x.depmap.insert(e, 0);
        // index 0 is reserved (0 = "concrete" in memory objects)
        x.nodes.push(C(0)); x.info.push(Info { w: 1, lo: 0, hi: 0, kz: u128::MAX, deps: 0, nl: false });
        x
    }
    pub fn w(&self, e: E) -> u32 { self.info[e as usize].w }
    pub fn node(&self, e: E) -> &Node { &self.nodes[e as usize] }
    pub fn cval(&self, e: E) -> Option<u128> { match &self.nodes[e as usize] { C(v) => Some(*v), _ => None } }
    pub fn is_const(&self, e: E) -> bool { matches!(self.nodes[e as usize], C(_) | W(_)) }
    pub fn wide(&self, e: E) -> Option<Vec<u64>> {
        let w = self.w(e);
        match &self.nodes[e as usize] {
            W(v) => Some(v.clone()),
            C(v) => { let mut r = vec![*v as u64, (*v >> 64) as u64]; r.resize(limbs(w), 0); Some(r) }
            _ => None }
    }
    pub fn deps(&self, e: E) -> Rc<Vec<u32>> { self.depsets[self.info[e as usize].deps as usize].clone() }

    fn depset(&mut self, s: Vec<u32>) -> u32 {
        if let Some(i) = self.depmap.get(&s) { return *i; }
        let r = Rc::new(s); let i = self.depsets.len() as u32;
        self.depsets.push(r.clone()); self.depmap.insert(r, i); i
    }
    fn merge(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; } if a == 0 { return b; }
        let k = (a.min(b), a.max(b));
        if let Some(r) = self.depmerge.get(&k) { return *r; }
        let mut v: Vec<u32> = self.depsets[a as usize].iter().chain(self.depsets[b as usize].iter()).cloned().collect();
        v.sort(); v.dedup();
        let r = self.depset(v); self.depmerge.insert(k, r); r
    }

    fn intern(&mut self, n: Node, w: u32) -> E {
        if let Some(e) = self.map.get(&(n.clone(), w)) { return *e; }
        let (lo, hi, mut kz) = self.range(&n, w);
        // the range implies leading zero bits
        kz |= !mask(bits(hi)); if hi == u128::MAX && w > 128 { kz &= u128::MAX; }
        let d = |s: &Self, e: E| s.info[e as usize].deps;
        let deps = match n {
            C(_) | W(_) => 0,
            Sym(i) => self.depset(vec![i]),
            Add(a, b) | Sub(a, b) | Mul(a, b) | UDiv(a, b) | URem(a, b) | SDiv(a, b) | SRem(a, b) | Shl(a, b) | LShr(a, b)
            | AShr(a, b) | And(a, b) | Or(a, b) | Xor(a, b) | Eq(a, b) | Ult(a, b) | Slt(a, b) | Concat(a, b) => { let (x, y) = (d(self, a), d(self, b)); self.merge(x, y) }
            Ite(a, b, c) => { let (x, y, z) = (d(self, a), d(self, b), d(self, c)); let t = self.merge(x, y); self.merge(t, z) }
            Extract(a, _) | ZExt(a) | SExt(a) => d(self, a),
        };
        let g = |e: E| self.info[e as usize].nl;
        let nl = match n {
            C(_) | W(_) | Sym(_) => false,
            Mul(a, b) => g(a) || g(b) || match self.cval(b) { Some(c) => c.count_ones() > 5, None => true }, // (a constant is on the right)
            UDiv(a, b) | URem(a, b) | SDiv(a, b) | SRem(a, b) => g(a) || g(b) || !self.is_const(b) || w > 64,
            Add(a, b) | Sub(a, b) | Shl(a, b) | LShr(a, b) | AShr(a, b) | And(a, b) | Or(a, b) | Xor(a, b) | Eq(a, b) | Ult(a, b) | Slt(a, b) | Concat(a, b) => g(a) || g(b),
            Ite(a, b, c) => g(a) || g(b) || g(c),
            Extract(a, _) | ZExt(a) | SExt(a) => g(a),
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n.clone()); self.info.push(Info { w, lo, hi, kz, deps, nl });
        self.map.insert((n, w), e);
        e
    }

    fn range(&self, n: &Node, w: u32) -> (u128, u128, u128) {
        let m = mask(w);
        let full = (0u128, m, !m);
        let i = |e: E| &self.info[e as usize];
        if w > 128 {
            // hi saturates at u128::MAX meaning "unknown"
            return match n {
                ZExt(a) if i(*a).w <= 128 => (i(*a).lo, i(*a).hi, i(*a).kz),
                W(v) => { if v[2..].iter().all(|x| *x == 0) { let x = v[0] as u128 | (v[1] as u128) << 64; (x, x, !x) } else { (0, u128::MAX, 0) } }
                _ => (0, u128::MAX, 0),
            };
        }
        let wide_arg = |a: &E| i(*a).w > 128;
        match n {
            C(v) => (*v, *v, !*v),
            Sym(_) => full,
            ZExt(a) => (i(*a).lo, i(*a).hi, i(*a).kz),
            Concat(a, b) => {
                let k = i(*b).w;
                (i(*a).lo << k | i(*b).lo, i(*a).hi << k | i(*b).hi, (i(*a).kz << k) | (i(*b).kz & mask(k)))
            }
            Extract(a, lo) if wide_arg(a) => { let x = i(*a); if *lo == 0 && x.hi != u128::MAX && x.hi <= m { (x.lo, x.hi, x.kz) } else { full } }
            Extract(a, lo) => {
                let x = i(*a); let kz = (x.kz >> lo) | !m;
                let (l, h) = (x.lo >> lo, x.hi >> lo);
                if h <= m { (l, h, kz) } else { (0, m & !kz, kz) }
            }
            And(a, b) => { let kz = i(*a).kz | i(*b).kz; (0, i(*a).hi.min(i(*b).hi).min(m & !kz), kz) }
            Or(a, b) => { let kz = i(*a).kz & i(*b).kz; (i(*a).lo.max(i(*b).lo), m & !kz & mask(bits(i(*a).hi | i(*b).hi)), kz) }
            Xor(a, b) => { let kz = i(*a).kz & i(*b).kz; (0, m & !kz & mask(bits(i(*a).hi | i(*b).hi)), kz) }
            Add(a, b) => match i(*a).hi.checked_add(i(*b).hi) {
                Some(h) if h <= m => (i(*a).lo + i(*b).lo, h, !mask(bits(h)) | low_zeros(i(*a).kz, i(*b).kz)),
                _ => {
                    // all values wrap (e.g. subtraction of a constant): lo side also exceeds
                    if w < 128 && i(*a).lo + i(*b).lo > m && i(*a).hi + i(*b).hi <= 2 * m + 1 { ((i(*a).lo + i(*b).lo) & m, (i(*a).hi + i(*b).hi) & m, !m) } else { full }
                }
            },
            Sub(a, b) => if i(*a).lo >= i(*b).hi { (i(*a).lo - i(*b).hi, i(*a).hi - i(*b).lo, !m) } else { full },
            Mul(a, b) => match i(*a).hi.checked_mul(i(*b).hi) { Some(h) if h <= m => (i(*a).lo * i(*b).lo, h, !m), _ => full },
            UDiv(a, b) => if i(*b).lo > 0 { (i(*a).lo / i(*b).hi, i(*a).hi / i(*b).lo, !m) } else { full },
            URem(a, b) => if i(*b).lo > 0 { (0, i(*a).hi.min(i(*b).hi - 1), !m) } else { (0, i(*a).hi, !m) },
            LShr(a, _) => (0, i(*a).hi, !m),
            Ite(_, a, b) => (i(*a).lo.min(i(*b).lo), i(*a).hi.max(i(*b).hi), i(*a).kz & i(*b).kz),
            Eq(..) | Ult(..) | Slt(..) => (0, 1, !1),
            _ => full,
        }
    }

    /// number of low bits that can be non-zero
    pub fn active(&self, e: E) -> u32 {
        let i = &self.info[e as usize];
        if i.w <= 128 { bits(i.hi & !i.kz).min(i.w) } else if i.hi != u128::MAX { bits(i.hi) } else {
            match &self.nodes[e as usize] { ZExt(a) => self.active(*a), W(v) => { let mut n = 0; for (k, x) in v.iter().enumerate() { if *x != 0 { n = k as u32 * 64 + 64 - x.leading_zeros(); } } n }
                Concat(a, b) => { let x = self.active(*a); if x == 0 { self.active(*b) } else { x + self.w(*b) } }
                _ => i.w } }
    }

    pub fn c(&mut self, v: u128, w: u32) -> E {
        if w <= 128 { self.intern(C(v & mask(w)), w) } else { let mut l = vec![v as u64, (v >> 64) as u64]; wmask(&mut l, w); self.intern(W(l), w) }
    }
    pub fn cw(&mut self, mut v: Vec<u64>, w: u32) -> E {
        if w <= 128 { let lo = v[0] as u128 | (*v.get(1).unwrap_or(&0) as u128) << 64; return self.c(lo, w); }
        wmask(&mut v, w); self.intern(W(v), w)
    }
    pub fn tt(&mut self) -> E { self.c(1, 1) }
    pub fn ff(&mut self) -> E { self.c(0, 1) }
    pub fn sym(&mut self, name: &str, w: u32) -> E {
        let i = self.syms.len() as u32;
        self.syms.push(SymInfo { name: name.to_string(), w });
        let e = self.intern(Sym(i), w); self.sym_expr.push(e); e
    }
    /// symbol with a known range (the caller also adds the range to the path condition)
    pub fn sym_range(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> E {
        let e = self.sym(name, w);
        let i = &mut self.info[e as usize]; i.lo = lo; i.hi = hi; i.kz = !mask(bits(hi));
        e
    }

    fn bin(&mut self, n: Node, a: E, b: E) -> Option<E> {
        // constant folding
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", n);
        if self.is_const(a) && self.is_const(b) {
            let cmp = matches!(n, Eq(..) | Ult(..) | Slt(..));
            if w <= 128 {
                let r = fold2(&n, self.cval(a).unwrap(), self.cval(b).unwrap(), w);
                return Some(self.c(r, if cmp { 1 } else { w }));
            }
            if matches!(n, SDiv(..) | SRem(..) | AShr(..)) { return None; }
            let (x, y) = (self.wide(a).unwrap(), self.wide(b).unwrap());
            let r = wfold2(&n, &x, &y, w);
            return Some(if cmp { self.c(r[0] as u128, 1) } else { self.cw(r, w) });
        }
        None
    }
    fn is0(&self, e: E) -> bool { match &self.nodes[e as usize] { C(v) => *v == 0, W(v) => v.iter().all(|x| *x == 0), _ => false } }
    fn is1(&self, e: E) -> bool { match &self.nodes[e as usize] { C(v) => *v == 1, W(v) => v[0] == 1 && v[1..].iter().all(|x| *x == 0), _ => false } }
    fn isones(&self, e: E) -> bool { let w = self.w(e); match &self.nodes[e as usize] { C(v) => *v == mask(w), _ => false } }

    pub fn add(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(Add(a, b), a, b) { return r; }
        if self.is0(a) { return b; } if self.is0(b) { return a; }
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        if self.is_const(b) {
            if let Add(x, c1) = *self.node(a) { if self.is_const(c1) { let c = self.add(c1, b); return self.add(x, c); } }
            // zext(x) + c stays; concat with zero low bits etc. handled below
        }
        // (x - y) + y
        if let Sub(x, y) = *self.node(a) { if y == b { return x; } }
        if let Sub(x, y) = *self.node(b) { if y == a { return x; } }
        // disjoint bits: add is or
        if w <= 128 && (self.info[a as usize].kz | self.info[b as usize].kz) | !mask(w) == u128::MAX { return self.or(a, b); }
        // narrow wide additions
        if w > 128 {
            let n = self.active(a).max(self.active(b)) + 1;
            if n <= 128 { let (x, y) = (self.trunc(a, n), self.trunc(b, n)); let r = self.add(x, y); return self.zext(r, w); }
        }
        let (a, b) = if !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        self.intern(Add(a, b), w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(Sub(a, b), a, b) { return r; }
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        if self.is0(b) { return a; }
        if self.is_const(b) { let z = self.c(0, w); let nb = self.sub(z, b); return self.add(a, nb); }
        if let Add(x, y) = *self.node(a) { if x == b { return y; } if y == b { return x; }
            if let Add(p, q) = *self.node(b) { if q == y { return self.sub(x, p); } } }
        if w > 128 {
            let n = self.active(a).max(self.active(b));
            // only when no borrow is possible is zero extension right
            if n <= 128 { let (x, y) = (self.trunc(a, n), self.trunc(b, n)); if self.info[x as usize].lo >= self.info[y as usize].hi { let r = self.sub(x, y); return self.zext(r, w); } }
        }
        self.intern(Sub(a, b), w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(Mul(a, b), a, b) { return r; }
        if self.is0(a) || self.is1(b) { return a; } if self.is0(b) || self.is1(a) { return b; }
        let w = self.w(a);
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if w <= 128 { if let Some(c) = self.cval(b) { if c.is_power_of_two() { let k = self.c(c.trailing_zeros() as u128, w); return self.shl(a, k); } } }
        // (x * c1) * c2 = x * (c1 * c2), also below a zero extension when the inner product cannot overflow
        if w <= 128 { if let Some(c2) = self.cval(b) {
            let (i, ext) = match self.nodes[a as usize] { ZExt(i) => (i, true), _ => (a, false) };
            if let Mul(x, c1) = self.nodes[i as usize] { if let Some(c1) = self.cval(c1) {
                let iw = self.w(i);
                let fits = !ext || { let h = self.info[x as usize].hi; h.checked_mul(c1).map_or(false, |v| v <= mask(iw)) };
                if let (true, Some(c)) = (fits, c1.checked_mul(c2)) { let x = if ext { self.zext(x, w) } else { x }; let c = self.c(c & mask(w), w); return self.mul(x, c); }
            } }
        } }
        let n = self.active(a) + self.active(b);
        if n < w { let n = n.max(1); let (x, y) = (self.trunc(a, n), self.trunc(b, n)); let r = self.mul_raw(x, y); return self.zext(r, w); }
        self.mul_raw(a, b)
    }
    fn mul_raw(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(Mul(a, b), a, b) { return r; }
        let w = self.w(a);
        let (a, b) = if !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        self.intern(Mul(a, b), w)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(UDiv(a, b), a, b) { return r; }
        let w = self.w(a);
        if self.is1(b) { return a; }
        if w <= 128 {
            if let Some(c) = self.cval(b) { if c.is_power_of_two() { let k = self.c(c.trailing_zeros() as u128, w); return self.lshr(a, k); } }
            let (i, j) = (&self.info[a as usize], &self.info[b as usize]);
            if i.hi < j.lo { return self.c(0, w); }
        }
        // floor division by a non-zero divisor fits the narrower width; with a zero divisor the result is all ones, so keep width then
        let n = self.active(a).max(self.active(b)).max(1);
        if n < w && self.nonzero(b) { let (x, y) = (self.trunc(a, n), self.trunc(b, n)); let r = self.intern_div(UDiv(x, y), x, y); return self.zext(r, w); }
        self.intern_div(UDiv(a, b), a, b)
    }
    fn nonzero(&self, e: E) -> bool { self.info[e as usize].lo > 0 || (self.is_const(e) && !self.is0(e)) }
    fn intern_div(&mut self, n: Node, a: E, b: E) -> E { if let Some(r) = self.bin(n.clone(), a, b) { return r; } let w = self.w(a); self.intern(n, w) }
    pub fn urem(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(URem(a, b), a, b) { return r; }
        let w = self.w(a);
        if self.is1(b) { return self.c(0, w); }
        if w <= 128 {
            if let Some(c) = self.cval(b) { if c.is_power_of_two() { let m = self.c(c - 1, w); return self.and(a, m); } }
            let (i, j) = (&self.info[a as usize], &self.info[b as usize]);
            if i.hi < j.lo { return a; }
        }
        let n = self.active(a).max(self.active(b)).max(1);
        if n < w { let (x, y) = (self.trunc(a, n), self.trunc(b, n)); let r = self.intern_div(URem(x, y), x, y); return self.zext(r, w); }
        self.intern_div(URem(a, b), a, b)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E { if let Some(r) = self.bin(SDiv(a, b), a, b) { return r; } let w = self.w(a);
        if w <= 128 { let h = mask(w) >> 1; if self.info[a as usize].hi <= h && self.info[b as usize].hi <= h && self.nonzero(b) { return self.udiv(a, b); } }
        self.intern(SDiv(a, b), w) }
    pub fn srem(&mut self, a: E, b: E) -> E { if let Some(r) = self.bin(SRem(a, b), a, b) { return r; } let w = self.w(a);
        if w <= 128 { let h = mask(w) >> 1; if self.info[a as usize].hi <= h && self.info[b as usize].hi <= h && self.nonzero(b) { return self.urem(a, b); } }
        self.intern(SRem(a, b), w) }

    pub fn shl(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(Shl(a, b), a, b) { return r; }
        let w = self.w(a);
        if self.is0(a) { return a; }
        if let Some(k) = self.small_const(b) {
            if k >= w { return self.c(0, w); } if k == 0 { return a; }
            let t = self.trunc(a, w - k); let z = self.c(0, k); return self.concat(t, z);
        }
        self.intern(Shl(a, b), w)
    }
    fn small_const(&self, e: E) -> Option<u32> { match &self.nodes[e as usize] { C(v) => Some((*v).min(1 << 20) as u32), W(v) => if v[1..].iter().all(|x| *x == 0) { Some(v[0].min(1 << 20) as u32) } else { Some(1 << 20) }, _ => None } }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(LShr(a, b), a, b) { return r; }
        let w = self.w(a);
        if self.is0(a) { return a; }
        if let Some(k) = self.small_const(b) {
            if k >= w { return self.c(0, w); } if k == 0 { return a; }
            let t = self.extract(a, k, w - k); return self.zext(t, w);
        }
        self.intern(LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        if w_const(self, a) && w_const(self, b) { if let Some(r) = self.bin(AShr(a, b), a, b) { return r; } }
        let w = self.w(a);
        if let Some(k) = self.small_const(b) {
            let k = k.min(w - 1); if k == 0 { return a; }
            let t = self.extract(a, k, w - k); return self.sext(t, w);
        }
        self.intern(AShr(a, b), w)
    }

    /// Decompose into (piece, width) from the low end; None = zero piece
    fn slices(&self, e: E, out: &mut Vec<(Option<E>, u32)>) {
        match *self.node(e) {
            Concat(h, l) => { self.slices(l, out); self.slices(h, out); }
            ZExt(x) => { self.slices(x, out); out.push((None, self.w(e) - self.w(x))); }
            _ => if self.is0(e) { out.push((None, self.w(e))) } else { out.push((Some(e), self.w(e))) }
        }
    }

    /// x[i..j] == c and x[j..k] == d as one comparison
    fn merge_eq(&mut self, a: E, b: E) -> Option<E> {
        let (Eq(p, c), Eq(q, d)) = (self.node(a).clone(), self.node(b).clone()) else { return None };
        if !self.is_const(c) || !self.is_const(d) { return None; }
        let f = |s: &Self, e: E| match *s.node(e) { Extract(x, l) => (x, l), _ => (e, 0) };
        let ((x, lx), (y, ly)) = (f(self, p), f(self, q));
        if x != y { return None; }
        let (wp, wq) = (self.w(p), self.w(q));
        let (lo, k) = if lx + wp == ly { (lx, self.concat(d, c)) } else if ly + wq == lx { (ly, self.concat(c, d)) } else { return None };
        let t = self.extract(x, lo, wp + wq);
        Some(self.eq(t, k))
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(And(a, b), a, b) { return r; }
        if a == b { return a; }
        let w = self.w(a);
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if self.is0(b) { return b; } if self.isones(b) { return a; }
        if w == 1 {
            if let Some(x) = self.not_of(a) { if x == b { return self.c(0, 1); } }
            if let Some(x) = self.not_of(b) { if x == a { return self.c(0, 1); } }
            if let Some(r) = self.merge_eq(a, b) { return r; }
            for (p, q) in [(a, b), (b, a)] { if let And(u, v) = *self.node(p) {
                if u == q || v == q { return p; }
                if let Some(r) = self.merge_eq(u, q) { return self.and(r, v); }
                if let Some(r) = self.merge_eq(v, q) { return self.and(u, r); }
            } }
            let (a, b) = (a.min(b), a.max(b));
            return self.intern(And(a, b), 1);
        }
        if w <= 128 {
            if let Some(m) = self.cval(b) {
                let kz = self.info[a as usize].kz;
                let m = m & !kz;
                if m == 0 { return self.c(0, w); }
                if m == mask(w) & !kz { return a; }
                // contiguous runs -> extract/concat (up to 3 runs)
                let runs = runs_of(m);
                if runs.len() <= 4 {
                    let mut r: Option<E> = None; let mut pos = 0;
                    for (lo, len) in runs {
                        if lo > pos { let z = self.c(0, lo - pos); r = Some(match r { None => z, Some(x) => self.concat(z, x) }); }
                        let p = self.extract(a, lo, len); r = Some(match r { None => p, Some(x) => self.concat(p, x) }); pos = lo + len;
                    }
                    let r = r.unwrap(); return self.zext(r, w);
                }
            }
            // bits that can be set in both
            let both = !self.info[a as usize].kz & !self.info[b as usize].kz & mask(w);
            if both == 0 { return self.c(0, w); }
            let n = bits(both);
            if n < w { let (x, y) = (self.trunc(a, n), self.trunc(b, n)); let r = self.and(x, y); return self.zext(r, w); }
        }
        let (a, b) = if !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        self.intern(And(a, b), w)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(Or(a, b), a, b) { return r; }
        if a == b { return a; }
        let w = self.w(a);
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if self.is0(b) { return a; } if self.isones(b) { return b; }
        if w == 1 {
            if let Some(x) = self.not_of(a) { if x == b { return self.c(1, 1); } }
            if let Some(x) = self.not_of(b) { if x == a { return self.c(1, 1); } }
            let (a, b) = (a.min(b), a.max(b));
            return self.intern(Or(a, b), 1);
        }
        // disjoint slices -> concat
        let disjoint = w <= 128 && (self.info[a as usize].kz | self.info[b as usize].kz) | !mask(w) == u128::MAX;
        if disjoint || w > 128 {
            let (mut sa, mut sb) = (vec![], vec![]);
            self.slices(a, &mut sa); self.slices(b, &mut sb);
            // cut both at the union of the cut points
            let mut cuts: Vec<u32> = vec![]; 
            for s in [&sa, &sb] { let mut p = 0; for (_, l) in s { p += l; cuts.push(p); } }
            cuts.sort(); cuts.dedup();
            let find = |s: &Vec<(Option<E>, u32)>, lo: u32| -> (Option<E>, u32) { let mut p = 0; for (e, l) in s { if lo < p + l { return (*e, lo - p); } p += l; } (None, 0) };
            let mut ok = true; let mut plan = vec![]; let mut p = 0;
            for c in &cuts {
                let (x, y) = (find(&sa, p), find(&sb, p));
                match (x.0, y.0) { (None, None) => plan.push((None, 0, c - p)), (Some(e), None) => plan.push((Some(e), x.1, c - p)), (None, Some(e)) => plan.push((Some(e), y.1, c - p)), _ => { ok = false; break; } }
                p = *c;
            }
            if ok {
                let mut r: Option<E> = None;
                for (e, lo, len) in plan {
                    let p = match e { None => self.c(0, len), Some(e) => self.extract(e, lo, len) };
                    r = Some(match r { None => p, Some(x) => self.concat(p, x) });
                }
                return r.unwrap();
            }
        }
        if w <= 128 {
            let n = self.active(a).max(self.active(b));
            if n < w && n > 0 { let (x, y) = (self.trunc(a, n), self.trunc(b, n)); let r = self.or(x, y); return self.zext(r, w); }
        }
        let (a, b) = if !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        self.intern(Or(a, b), w)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(Xor(a, b), a, b) { return r; }
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if self.is0(b) { return a; }
        if let Xor(x, y) = *self.node(a) { if x == b { return y; } if y == b { return x; } }
        if let Xor(x, y) = *self.node(b) { if x == a { return y; } if y == a { return x; } }
        if self.is_const(b) { if let Xor(x, c) = *self.node(a) { if self.is_const(c) { let k = self.xor(c, b); return self.xor(x, k); } } }
        if w > 1 && w <= 128 {
            let n = self.active(a).max(self.active(b));
            if n < w && n > 0 { let (x, y) = (self.trunc(a, n), self.trunc(b, n)); let r = self.xor(x, y); return self.zext(r, w); }
        }
        let (a, b) = if !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        self.intern(Xor(a, b), w)
    }
    pub fn not_of(&self, e: E) -> Option<E> { if let Xor(x, c) = *self.node(e) { if self.isones(c) { return Some(x); } } None }
    pub fn not(&mut self, a: E) -> E { let w = self.w(a); let o = if w <= 128 { self.c(mask(w), w) } else { self.cw(vec![u64::MAX; limbs(w)], w) }; self.xor(a, o) }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(Eq(a, b), a, b) { return r; }
        if a == b { return self.tt(); }
        let w = self.w(a);
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if w == 1 {
            if let Some(v) = self.cval(b) { return if v == 1 { a } else { self.not(a) }; }
            let x = self.xor(a, b); return self.not(x);
        }
        if w <= 128 {
            let (i, j) = (&self.info[a as usize], &self.info[b as usize]);
            if i.hi < j.lo || j.hi < i.lo { return self.ff(); }
        }
        if self.is_const(b) {
            match *self.node(a) {
                Add(x, c) if self.is_const(c) => { let k = self.sub(b, c); return self.eq(x, k); }
                Xor(x, c) if self.is_const(c) => { let k = self.xor(b, c); return self.eq(x, k); }
                Sub(x, y) if self.is0(b) => return self.eq(x, y),
                Xor(x, y) if self.is0(b) => return self.eq(x, y),
                Or(x, y) if self.is0(b) => { let z = b; let p = self.eq(x, z); let q = self.eq(y, z); return self.and(p, q); }
                ZExt(x) => {
                    let n = self.w(x);
                    let hi = self.extract(b, n, w - n);
                    if !self.is0(hi) { return self.ff(); }
                    let l = self.trunc(b, n); return self.eq(x, l);
                }
                SExt(x) => {
                    let n = self.w(x);
                    let l = self.trunc(b, n); let back = self.sext(l, w);
                    if back != b { return self.ff(); }
                    return self.eq(x, l);
                }
                Concat(h, l) => {
                    let n = self.w(l);
                    let bl = self.trunc(b, n); let bh = self.extract(b, n, w - n);
                    let p = self.eq(h, bh); if self.is0(p) { return p; }
                    let q = self.eq(l, bl); return self.and(p, q);
                }
                Ite(c, x, y) if self.is_const(x) || self.is_const(y) => {
                    let p = self.eq(x, b); let q = self.eq(y, b);
                    return self.ite(c, p, q);
                }
                _ => {}
            }
        } else {
            match (self.node(a).clone(), self.node(b).clone()) {
                (ZExt(x), ZExt(y)) => { let n = self.w(x).max(self.w(y)); let (p, q) = (self.trunc(a, n), self.trunc(b, n)); return self.eq(p, q); }
                (Concat(h1, l1), Concat(h2, l2)) if self.w(l1) == self.w(l2) => { let p = self.eq(h1, h2); if self.is0(p) { return p; } let q = self.eq(l1, l2); return self.and(p, q); }
                (Add(x, c), Add(y, d)) if c == d => return self.eq(x, y),
                (Add(x, y), _) if x == b => { let z = self.c(0, w); return self.eq(y, z); }
                (Add(x, y), _) if y == b => { let z = self.c(0, w); return self.eq(x, z); }
                (_, Add(x, y)) if x == a => { let z = self.c(0, w); return self.eq(y, z); }
                (_, Add(x, y)) if y == a => { let z = self.c(0, w); return self.eq(x, z); }
                _ => {}
            }
            let n = self.active(a).max(self.active(b)).max(1);
            if n < w { let (p, q) = (self.trunc(a, n), self.trunc(b, n)); return self.eq(p, q); }
        }
        let (a, b) = if !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        self.intern(Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(Ult(a, b), a, b) { return r; }
        if a == b { return self.ff(); }
        let w = self.w(a);
        if self.is0(b) { return self.ff(); }
        if self.is1(b) { let z = self.c(0, w); return self.eq(a, z); }
        if self.is0(a) { let e = self.eq(b, a); return self.not(e); }
        if w <= 128 {
            let (i, j) = (&self.info[a as usize], &self.info[b as usize]);
            if i.hi < j.lo { return self.tt(); } if i.lo >= j.hi { return self.ff(); }
        }
        let n = self.active(a).max(self.active(b)).max(1);
        if n < w { let (p, q) = (self.trunc(a, n), self.trunc(b, n)); return self.ult(p, q); }
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        // ite with constant arms against constant
        if self.is_const(b) { if let Ite(c, x, y) = *self.node(a) { if self.is_const(x) || self.is_const(y) { let p = self.ult(x, b); let q = self.ult(y, b); return self.ite(c, p, q); } } }
        if self.is_const(a) { if let Ite(c, x, y) = *self.node(b) { if self.is_const(x) || self.is_const(y) { let p = self.ult(a, x); let q = self.ult(a, y); return self.ite(c, p, q); } } }
        if let (Concat(h1, l1), Concat(h2, l2)) = (self.node(a).clone(), self.node(b).clone()) {
            if h1 == h2 { return self.ult(l1, l2); }
            if l1 == l2 { return self.ult(h1, h2); }
        }
        self.intern(Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.bin(Slt(a, b), a, b) { return r; }
        let w = self.w(a);
        if a == b { return self.ff(); }
        if w <= 128 {
            let h = mask(w) >> 1;
            let (i, j) = (&self.info[a as usize], &self.info[b as usize]);
            let (an, bn) = (i.hi <= h, j.hi <= h);
            if an && bn { return self.ult(a, b); }
            let (ag, bg) = (i.lo > h, j.lo > h);
            if an && bg { return self.ff(); } if ag && bn { return self.tt(); } if ag && bg { return self.ult(a, b); }
            if self.is0(b) { let s = self.extract(a, w - 1, 1); return s; }
        }
        if let Ite(c, x, y) = *self.node(a) { if self.is_const(b) && (self.is_const(x) || self.is_const(y)) { let p = self.slt(x, b); let q = self.slt(y, b); return self.ite(c, p, q); } }
        self.intern(Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E { let x = self.slt(b, a); self.not(x) }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        if let Some(n) = self.not_of(c) { return self.ite(n, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        if self.is1(a) && self.is0(b) { return self.zext(c, w); }
        if self.is0(a) && self.is1(b) { let n = self.not(c); return self.zext(n, w); }
        if let Ite(c2, x, _) = *self.node(a) { if c2 == c { return self.ite(c, x, b); } }
        if let Ite(c2, _, y) = *self.node(b) { if c2 == c { return self.ite(c, a, y); } }
        if w > 1 { if let (ZExt(x), ZExt(y)) = (self.node(a).clone(), self.node(b).clone()) { if self.w(x) == self.w(y) { let r = self.ite(c, x, y); return self.zext(r, w); } } }
        self.intern(Ite(c, a, b), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        if self.is_const(h) && self.is_const(l) {
            if w <= 128 { let v = self.cval(h).unwrap() << self.w(l) | self.cval(l).unwrap(); return self.c(v, w); }
            let (mut x, mut y) = (self.wide(h).unwrap(), self.wide(l).unwrap());
            x.resize(limbs(w), 0); y.resize(limbs(w), 0);
            let lw = self.w(l); let x = wshl(&x, lw, w);
            let r = x.iter().zip(&y).map(|(a, b)| a | b).collect(); return self.cw(r, w);
        }
        if self.is0(h) { return self.zext(l, w); }
        // adjacent extracts
        if let (Extract(x, lx), Extract(y, ly)) = (self.node(h).clone(), self.node(l).clone()) {
            if x == y && lx == ly + self.w(l) { return self.extract(x, ly, w); }
        }
        if let Extract(x, lx) = *self.node(h) { if x == l && lx == self.w(l) && false { return x; } }
        // right-nested: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if let Concat(a, b) = *self.node(h) { let t = self.concat(b, l); return self.concat(a, t); }
        if let ZExt(x) = *self.node(h) { let t = self.concat(x, l); return self.zext(t, w); }
        // h adjacent to the head of l
        if let Concat(a, b) = *self.node(l) {
            if self.is_const(h) && self.is_const(a) { let t = self.concat(h, a); return self.concat(t, b); }
            if let (Extract(x, lx), Extract(y, ly)) = (self.node(h).clone(), self.node(a).clone()) {
                if x == y && lx == ly + self.w(a) { let n = self.w(h) + self.w(a); let t = self.extract(x, ly, n); return self.concat(t, b); }
            }
        }
        // extract(x, hi part) over x truncated: l is trunc(x) represented as Extract(x,0) already handled
        self.intern(Concat(h, l), w)
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E { self.extract(a, 0, w) }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw && w > 0, "extract {} {} of {}", lo, w, aw);
        if w == aw { return a; }
        match self.node(a).clone() {
            C(v) => return self.c(v >> lo, w),
            W(v) => { let r = wextract(&v, lo, w); return self.cw(r, w); }
            Extract(x, l2) => return self.extract(x, lo + l2, w),
            Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw { return self.extract(l, lo, w); }
                if lo >= lw { return self.extract(h, lo - lw, w); }
                let x = self.extract(h, 0, lo + w - lw); let y = self.extract(l, lo, lw - lo);
                return self.concat(x, y);
            }
            ZExt(x) => {
                let n = self.w(x);
                if lo >= n { return self.c(0, w); }
                if lo + w <= n { return self.extract(x, lo, w); }
                let t = self.extract(x, lo, n - lo); return self.zext(t, w);
            }
            SExt(x) => {
                let n = self.w(x);
                if lo + w <= n { return self.extract(x, lo, w); }
                if lo < n { let t = self.extract(x, lo, n - lo); return self.sext(t, w); }
                let t = self.extract(x, n - 1, 1); return self.sext(t, w);
            }
            Ite(c, x, y) if self.is_const(x) || self.is_const(y) || w <= 8 => { let p = self.extract(x, lo, w); let q = self.extract(y, lo, w); return self.ite(c, p, q); }
            And(x, y) => { let p = self.extract(x, lo, w); let q = self.extract(y, lo, w); return self.and(p, q); }
            Or(x, y) => { let p = self.extract(x, lo, w); let q = self.extract(y, lo, w); return self.or(p, q); }
            Xor(x, y) => { let p = self.extract(x, lo, w); let q = self.extract(y, lo, w); return self.xor(p, q); }
            _ => {}
        }
        if aw <= 128 {
            let kz = self.info[a as usize].kz;
            if (kz >> lo) & mask(w) == mask(w) { return self.c(0, w); }
            // drop known leading zeros
            let act = self.active(a);
            if lo + w > act { let n = act - lo; let t = self.extract(a, lo, n); return self.zext(t, w); }
        }
        self.intern(Extract(a, lo), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if w == aw { return a; }
        debug_assert!(w > aw);
        match self.node(a).clone() {
            C(v) => return self.c(v, w),
            W(v) => return self.cw(v, w),
            ZExt(x) => return self.zext(x, w),
            _ => {}
        }
        self.intern(ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if w == aw { return a; }
        if let C(v) = *self.node(a) { if w <= 128 { let s = sext128(v, aw) as u128; return self.c(s, w); } }
        if aw <= 128 && self.info[a as usize].hi <= mask(aw) >> 1 { return self.zext(a, w); }
        if let SExt(x) = *self.node(a) { return self.sext(x, w); }
        self.intern(SExt(a), w)
    }

    /// Evaluate under a model (symbol index -> limbs); missing symbols are zero.
    pub fn eval(&self, e: E, model: &HashMap<u32, Vec<u64>>, memo: &mut HashMap<E, Vec<u64>>) -> Vec<u64> {
        if let Some(v) = memo.get(&e) { return v.clone(); }
        let w = self.w(e);
        let g = |s: &Self, x: E, m: &mut HashMap<E, Vec<u64>>| s.eval(x, model, m);
        let n = self.node(e).clone();
        let r: Vec<u64> = match n {
            C(v) => { let mut r = vec![v as u64, (v >> 64) as u64]; r.resize(limbs(w), 0); r }
            W(v) => v,
            Sym(i) => { let mut v = model.get(&i).cloned().unwrap_or_else(|| { let lo = self.info[e as usize].lo; vec![lo as u64, (lo >> 64) as u64] }); wmask(&mut v, w); v }
            Add(a, b) | Sub(a, b) | Mul(a, b) | UDiv(a, b) | URem(a, b) | SDiv(a, b) | SRem(a, b) | Shl(a, b) | LShr(a, b) | AShr(a, b)
            | And(a, b) | Or(a, b) | Xor(a, b) | Eq(a, b) | Ult(a, b) | Slt(a, b) => {
                let aw = self.w(a);
                let (x, y) = (g(self, a, memo), g(self, b, memo));
                if aw <= 128 {
                    let p = |v: &Vec<u64>| v[0] as u128 | (*v.get(1).unwrap_or(&0) as u128) << 64;
                    let r = fold2(&n, p(&x), p(&y), aw);
                    let mut v = vec![r as u64, (r >> 64) as u64]; v.resize(limbs(w), 0); v
                } else { wfold2(&n, &x, &y, aw) }
            }
            Ite(c, a, b) => if g(self, c, memo)[0] == 1 { g(self, a, memo) } else { g(self, b, memo) },
            Concat(h, l) => { let (mut x, mut y) = (g(self, h, memo), g(self, l, memo)); x.resize(limbs(w), 0); y.resize(limbs(w), 0);
                let x = wshl(&x, self.w(l), w); x.iter().zip(&y).map(|(a, b)| a | b).collect() }
            Extract(a, lo) => { let x = g(self, a, memo); wextract(&x, lo, w) }
            ZExt(a) => { let mut x = g(self, a, memo); x.resize(limbs(w), 0); x }
            SExt(a) => { let mut x = g(self, a, memo); let aw = self.w(a); let neg = wbit(&x, aw - 1); x.resize(limbs(w), 0);
                if neg { for i in aw..w { x[(i / 64) as usize] |= 1 << (i % 64); } } x }
        };
        memo.insert(e, r.clone());
        r
    }
    /// e as a function of a few narrow sub-expressions (taken as unconstrained): these and the table of all values.
    pub fn table(&mut self, e: E) -> Option<(Vec<E>, Vec<u128>)> {
        if let Some(r) = self.tables.get(&e) { return r.clone(); }
        let r = self.table_of(e);
        self.tables.insert(e, r.clone());
        r
    }
    fn table_of(&self, e: E) -> Option<(Vec<E>, Vec<u128>)> {
        let (mut order, mut atoms, mut bits) = (vec![], vec![], 0);
        let mut stack = vec![(e, false)];
        let mut seen = std::collections::HashSet::new();
        while let Some((x, done)) = stack.pop() {
            if done { order.push(x); continue; }
            if !seen.insert(x) { continue; }
            if seen.len() > 64 || self.w(x) > 64 { return None; }
            match self.node(x) {
                C(_) => { order.push(x); continue }
                Extract(a, _) if self.w(x) <= 8 && x != e && (self.w(*a) > 16 || matches!(self.node(*a), Sym(_))) => { bits += self.w(x); if bits > 8 { return None; } atoms.push(x); continue }
                Sym(_) if self.w(x) <= 8 && x != e => { bits += self.w(x); if bits > 8 { return None; } atoms.push(x); continue }
                _ => {}
            }
            stack.push((x, true));
            match *self.node(x) {
                Add(a, b) | Sub(a, b) | Mul(a, b) | Shl(a, b) | LShr(a, b) | AShr(a, b) | And(a, b) | Or(a, b) | Xor(a, b) | Eq(a, b) | Ult(a, b) | Slt(a, b) | Concat(a, b) => { stack.push((a, false)); stack.push((b, false)); }
                Ite(c, a, b) => { stack.push((c, false)); stack.push((a, false)); stack.push((b, false)); }
                Extract(a, _) | ZExt(a) | SExt(a) => stack.push((a, false)),
                _ => return None,
            }
        }
        if atoms.is_empty() { return None; }
        let mut out = vec![];
        let mut val: HashMap<E, u128> = HashMap::new();
        for k in 0..1u128 << bits {
            let mut sh = 0;
            for a in &atoms { let w = self.w(*a); val.insert(*a, k >> sh & mask(w)); sh += w; }
            for x in &order {
                let w = self.w(*x);
                let g = |y: E| val[&y];
                let v = match self.node(*x).clone() {
                    C(v) => v,
                    ref n @ (Add(a, b) | Sub(a, b) | Mul(a, b) | Shl(a, b) | LShr(a, b) | AShr(a, b) | And(a, b) | Or(a, b) | Xor(a, b) | Eq(a, b) | Ult(a, b) | Slt(a, b)) => fold2(n, g(a), g(b), self.w(a)),
                    Ite(c, a, b) => if g(c) == 1 { g(a) } else { g(b) },
                    Concat(h, l) => g(h) << self.w(l) | g(l),
                    Extract(a, lo) => g(a) >> lo,
                    ZExt(a) => g(a),
                    SExt(a) => sext128(g(a), self.w(a)) as u128,
                    _ => return None,
                };
                val.insert(*x, v & mask(w));
            }
            out.push(val[&e]);
        }
        Some((atoms, out))
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 { return "..".into(); }
        let s = |x: E| self.show(x, depth - 1);
        match self.node(e).clone() {
            C(v) => format!("{:#x}:{}", v, self.w(e)),
            W(v) => format!("{:x?}:{}", v, self.w(e)),
            Sym(i) => self.syms[i as usize].name.clone(),
            Add(a, b) => format!("({} + {})", s(a), s(b)), Sub(a, b) => format!("({} - {})", s(a), s(b)), Mul(a, b) => format!("({} * {})", s(a), s(b)),
            UDiv(a, b) => format!("({} / {})", s(a), s(b)), URem(a, b) => format!("({} % {})", s(a), s(b)),
            And(a, b) => format!("({} & {})", s(a), s(b)), Or(a, b) => format!("({} | {})", s(a), s(b)), Xor(a, b) => format!("({} ^ {})", s(a), s(b)),
            Eq(a, b) => format!("({} == {})", s(a), s(b)), Ult(a, b) => format!("({} < {})", s(a), s(b)), Slt(a, b) => format!("({} <s {})", s(a), s(b)),
            Ite(c, a, b) => format!("({} ? {} : {})", s(c), s(a), s(b)), Concat(a, b) => format!("({} ++ {})", s(a), s(b)),
            Extract(a, lo) => format!("{}[{}+:{}]", s(a), lo, self.w(e)), ZExt(a) => format!("zx{}({})", self.w(e), s(a)), SExt(a) => format!("sx{}({})", self.w(e), s(a)),
            o => format!("{:?}", o),
        }
    }
}
fn w_const(x: &Exprs, e: E) -> bool { x.w(e) <= 128 }
fn low_zeros(a: u128, b: u128) -> u128 { let t = (a & b).trailing_ones(); if t >= 128 { u128::MAX } else { (1u128 << t) - 1 } }
fn runs_of(m: u128) -> Vec<(u32, u32)> {
    let mut v = vec![]; let mut i = 0;
    while i < 128 { if m >> i & 1 == 1 { let s = i; while i < 128 && m >> i & 1 == 1 { i += 1; } v.push((s, i - s)); } else { i += 1; } }
    v
}
impl Exprs {
    /// a <= b without range-based simplification (used for the constraint that defines a range)
    pub fn raw_ule(&mut self, a: E, b: E) -> E { let lt = self.intern(Node::Ult(b, a), 1); let i = &mut self.info[lt as usize]; i.lo = 0; i.hi = 1; let one = self.c(1, 1); self.intern(Node::Xor(lt, one), 1) }
    pub fn intern_eq(&mut self, a: E, b: E) -> E { self.intern(Node::Eq(a, b), 1) }
}
