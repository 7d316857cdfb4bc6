//! Parser for the textual LLVM IR rustc emits (opaque pointers). Function bodies are decoded on first use.
use crate::expr::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(E), A(Rc<Vec<Val>>) }

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), Ptr, Float(u32), Arr(u64, TyId), Vec(u64, TyId), Struct(Vec<TyId>, bool), Opaque, Meta }

#[derive(Clone, Debug)]
pub enum Opd { L(u32), K(Val) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp { Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastOp { Trunc, ZExt, SExt, Same }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(Opd), Nop }

#[derive(Clone, Debug)]
pub enum Op {
    Bin(BinOp, u32, u32, Opd, Opd),        // op, width, lanes (0 = scalar)
    Icmp(Pred, u32, u32, Opd, Opd),
    Cast(CastOp, u32, u32, u32, Opd),      // from w, to w, lanes
    Bitcast(TyId, TyId, Opd),
    Gep(Opd, u64, Vec<(Opd, u32, u64)>),   // base, constant offset, (index, width, scale)
    Load(TyId, Opd),
    Store(TyId, Opd, Opd),                 // value, pointer
    Alloca(u64),
    Select(TyId, Opd, Opd, Opd, u32),      // lanes of the condition
    Call(Callee, Vec<Opd>, Vec<TyId>, TyId),
    Extract(Opd, Vec<u32>),
    Insert(Opd, Opd, Vec<u32>),
    VExtract(Opd, Opd),
    VInsert(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i64>, u64),      // mask, lanes of the inputs
    Copy(Opd),
    Rmw(String, TyId, Opd, Opd),
    CmpXchg(TyId, Opd, Opd, Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Nop,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub op: Op } // dst u32::MAX = none

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub insts: Vec<Inst> }
pub struct Func { pub id: u32, pub nargs: u32, pub nregs: u32, pub blocks: Vec<Block>, pub ret: TyId }

pub struct FuncDecl { pub name: String, pub start: usize, pub end: usize, pub defined: bool, pub body: Option<Rc<Func>>, pub calls: u64 }
pub struct GlobalDecl { pub name: String, pub bytes: Vec<u8>, pub constant: bool }

pub struct Module {
    pub text: Rc<String>,
    pub types: Vec<Ty>, tymap: HashMap<Ty, TyId>,
    tyinfo: RefCell<Vec<Option<Rc<(u64, u64, Vec<u64>)>>>>,
    named: HashMap<String, String>, named_id: HashMap<String, TyId>,
    pub funcs: Vec<FuncDecl>, pub fmap: HashMap<String, u32>,
    pub globals: Vec<GlobalDecl>, pub gmap: HashMap<String, u64>, // name -> address
    aliases: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;
pub const GLOBAL_BASE: u64 = 0x10; // object numbers of globals start here (address = obj << 32)

#[derive(Clone, Debug, PartialEq)]
enum Tok { W(String), L(String), G(String), N(String), Str(Vec<u8>), Q(String), P(u8), M, Dots }

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut v = vec![]; let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1] != b'\\' { let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap(); v.push(u8::from_str_radix(h, 16).unwrap()); i += 3; }
        else if b[i] == b'\\' && b.get(i + 1) == Some(&b'\\') { v.push(b'\\'); i += 2; }
        else { v.push(b[i]); i += 1; }
    }
    v
}
fn quoted(b: &[u8], i: &mut usize) -> Vec<u8> { // at opening quote
    let s = *i + 1; let mut j = s; while b[j] != b'"' { j += 1; } *i = j + 1; b[s..j].to_vec()
}
fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes(); let mut i = 0; let mut v = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' { String::from_utf8(unescape(&quoted(b, &mut i))).unwrap() } else { let s = i; while i < b.len() && idc(b[i]) { i += 1; } std::str::from_utf8(&b[s..i]).unwrap().to_string() };
                v.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'!' => { i += 1; while i < b.len() && (idc(b[i])) { i += 1; } if i < b.len() && b[i] == b'{' { let mut d = 0; loop { if b[i] == b'{' { d += 1 } if b[i] == b'}' { d -= 1 } i += 1; if d == 0 { break; } } } v.push(Tok::M); }
            b'#' => { i += 1; while i < b.len() && b[i].is_ascii_digit() { i += 1; } }
            b'"' => { let q = quoted(b, &mut i); v.push(Tok::Q(String::from_utf8_lossy(&q).into_owned())); }
            b'c' if b.get(i + 1) == Some(&b'"') => { i += 1; let q = quoted(b, &mut i); v.push(Tok::Str(unescape(&q))); }
            b'.' if b[i..].starts_with(b"...") => { i += 3; v.push(Tok::Dots); }
            b'0'..=b'9' | b'-' => { let s = i; i += 1; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && b[i - 1] == b'e')) { i += 1; } v.push(Tok::N(s_of(&b[s..i]))); }
            _ if idc(c) => { let s = i; while i < b.len() && idc(b[i]) { i += 1; } v.push(Tok::W(s_of(&b[s..i]))); }
            _ => { v.push(Tok::P(c)); i += 1; }
        }
    }
    v
}
fn s_of(b: &[u8]) -> String { std::str::from_utf8(b).unwrap().to_string() }

struct Cur<'a> { t: &'a [Tok], i: usize }
impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> Tok { let t = self.t.get(self.i).cloned().unwrap_or(Tok::Dots); self.i += 1; t }
    fn is(&self, c: u8) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::W(x)) if x == w) }
    fn eat(&mut self, c: u8) -> bool { if self.is(c) { self.i += 1; true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: u8) { if !self.eat(c) { panic!("expected {} at {} in {:?}", c as char, self.i, self.t); } }
    fn word(&mut self) -> String { match self.next() { Tok::W(w) => w, t => panic!("expected word, got {:?} in {:?}", t, self.t) } }
    fn skip_parens(&mut self) { let mut d = 0; loop { match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => { d -= 1; if d == 0 { return; } } _ => {} } } }
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let i = self.types.len() as TyId; self.types.push(t.clone()); self.tymap.insert(t, i); self.tyinfo.borrow_mut().push(None); i
    }
    pub fn layout(&self, t: TyId) -> Rc<(u64, u64, Vec<u64>)> {
        if let Some(r) = &self.tyinfo.borrow()[t as usize] { return r.clone(); }
        let r = match &self.types[t as usize] {
            Ty::Void | Ty::Opaque | Ty::Meta => (0, 1, vec![]),
            Ty::Int(w) | Ty::Float(w) => { let n = ((*w + 7) / 8) as u64; let a = n.next_power_of_two().min(8); ((n + a - 1) / a * a, a, vec![]) }
            Ty::Ptr => (8, 8, vec![]),
            Ty::Arr(n, e) => { let l = self.layout(*e); (l.0 * n, l.1, vec![]) }
            Ty::Vec(n, e) => { let l = match &self.types[*e as usize] { Ty::Int(w) => (*w as u64 * n + 7) / 8, _ => self.layout(*e).0 * n }; (l, l.next_power_of_two().max(1), vec![]) }
            Ty::Struct(f, packed) => {
                let (mut o, mut al, mut v) = (0u64, 1u64, vec![]);
                for x in f { let l = self.layout(*x); let a = if *packed { 1 } else { l.1 }; o = (o + a - 1) / a * a; v.push(o); o += l.0; al = al.max(a); }
                ((o + al - 1) / al * al, al, v)
            }
        };
        let r = Rc::new(r); self.tyinfo.borrow_mut()[t as usize] = Some(r.clone()); r
    }
    pub fn size(&self, t: TyId) -> u64 { self.layout(t).0 }
    pub fn bits(&self, t: TyId) -> u32 { match &self.types[t as usize] { Ty::Int(w) | Ty::Float(w) => *w, Ty::Ptr => 64, Ty::Vec(n, e) => *n as u32 * self.bits(*e), t => panic!("bits of {:?}", t) } }
    pub fn lanes(&self, t: TyId) -> (u32, TyId) { match &self.types[t as usize] { Ty::Vec(n, e) => (*n as u32, *e), _ => (0, t) } }

    fn is_type(&self, c: &Cur) -> bool {
        match c.peek() {
            Some(Tok::W(w)) => matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" | "opaque") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit())),
            Some(Tok::L(_)) => true,
            Some(Tok::P(b'{')) | Some(Tok::P(b'[')) | Some(Tok::P(b'<')) => true,
            _ => false,
        }
    }
    fn parse_ty(&mut self, c: &mut Cur) -> TyId {
        match c.next() {
            Tok::W(w) => match w.as_str() {
                "void" => self.ty(Ty::Void), "ptr" => { if c.eatw("addrspace") { c.skip_parens(); } self.ty(Ty::Ptr) }
                "float" => self.ty(Ty::Float(32)), "double" => self.ty(Ty::Float(64)), "half" => self.ty(Ty::Float(16)), "fp128" => self.ty(Ty::Float(128)), "x86_fp80" => self.ty(Ty::Float(80)),
                "metadata" | "label" | "token" => self.ty(Ty::Meta), "opaque" => self.ty(Ty::Opaque),
                _ => { let n: u32 = w[1..].parse().unwrap_or_else(|_| panic!("type {} in {:?}", w, c.t)); self.ty(Ty::Int(n)) }
            },
            Tok::L(n) => {
                if let Some(i) = self.named_id.get(&n) { return *i; }
                let text = self.named.get(&n).unwrap_or_else(|| panic!("unknown type {}", n)).clone();
                let t = lex(&text); let mut cc = Cur { t: &t, i: 0 };
                let id = self.parse_ty(&mut cc); self.named_id.insert(n, id); id
            }
            Tok::P(b'{') => self.parse_struct(c, false),
            Tok::P(b'[') => { let n = c.next(); let n: u64 = if let Tok::N(n) = n { n.parse().unwrap() } else { panic!() }; c.word(); let e = self.parse_ty(c); c.exp(b']'); self.ty(Ty::Arr(n, e)) }
            Tok::P(b'<') => {
                if c.eat(b'{') { let t = self.parse_struct(c, true); c.exp(b'>'); t }
                else { let n = c.next(); let n: u64 = if let Tok::N(n) = n { n.parse().unwrap() } else { panic!() }; c.word(); let e = self.parse_ty(c); c.exp(b'>'); self.ty(Ty::Vec(n, e)) }
            }
            t => panic!("type expected, got {:?} in {:?}", t, c.t),
        }
    }
    fn parse_struct(&mut self, c: &mut Cur, packed: bool) -> TyId {
        let mut f = vec![];
        if !c.eat(b'}') { loop { f.push(self.parse_ty(c)); if c.eat(b'}') { break; } c.exp(b','); } }
        self.ty(Ty::Struct(f, packed))
    }

    pub fn addr_of(&self, name: &str) -> u64 {
        let mut n = name;
        while let Some(a) = self.aliases.get(n) { n = a; }
        if let Some(a) = self.gmap.get(n) { return *a; }
        if let Some(f) = self.fmap.get(n) { return FN_BASE + *f as u64 * 16; }
        panic!("unknown global {}", name)
    }

    fn zero(&self, t: TyId) -> Val {
        match &self.types[t as usize] {
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            Ty::Arr(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            _ => Val::C(0),
        }
    }
    /// Constant value of type t
    fn parse_const(&mut self, c: &mut Cur, t: TyId, x: &mut Exprs) -> Val {
        match c.next() {
            Tok::N(n) => {
                match self.types[t as usize].clone() {
                    Ty::Int(w) => {
                        let (neg, d) = if let Some(d) = n.strip_prefix('-') { (true, d) } else { (false, &n[..]) };
                        if w <= 128 { let v: u128 = d.parse().unwrap(); Val::C((if neg { v.wrapping_neg() } else { v }) & mask(w)) }
                        else {
                            let mut l = crate::solver::dec_limbs(d, w);
                            if neg { let mut cy = true; for q in l.iter_mut() { let (v, o) = (!*q).overflowing_add(cy as u64); *q = v; cy = o && cy; } }
                            wmask(&mut l, w); Val::S(x.cw(l, w))
                        }
                    }
                    Ty::Float(64) => { if let Some(h) = n.strip_prefix("0x") { Val::C(u64::from_str_radix(h, 16).unwrap() as u128) } else { Val::C(n.parse::<f64>().unwrap().to_bits() as u128) } }
                    Ty::Float(32) => { if let Some(h) = n.strip_prefix("0x") { Val::C((f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u128) } else { Val::C(n.parse::<f32>().unwrap().to_bits() as u128) } }
                    tt => panic!("number of type {:?}", tt),
                }
            }
            Tok::W(w) => match w.as_str() {
                "true" => Val::C(1), "false" => Val::C(0), "null" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" | "none" => { let w = match &self.types[t as usize] { Ty::Int(w) => *w, _ => 0 }; if w > 128 { Val::S(x.c(0, w)) } else { self.zero(t) } }
                "getelementptr" => {
                    c.eatw("inbounds"); c.exp(b'(');
                    let bt = self.parse_ty(c); c.exp(b',');
                    let pt = self.parse_ty(c); let base = self.parse_const(c, pt, x);
                    let mut off = 0u64; let mut cur = bt; let mut first = true;
                    while c.eat(b',') {
                        c.eatw("inrange");
                        let it = self.parse_ty(c); let iv = self.parse_const(c, it, x);
                        let w = self.bits(it);
                        let i = match iv { Val::C(v) => sext128(v, w) as i64 as u64, _ => panic!() };
                        if first { off = off.wrapping_add(i.wrapping_mul(self.size(cur))); first = false; }
                        else { match self.types[cur as usize].clone() {
                            Ty::Struct(f, _) => { off = off.wrapping_add(self.layout(cur).2[i as usize]); cur = f[i as usize]; }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => { off = off.wrapping_add(i.wrapping_mul(self.size(e))); cur = e; }
                            o => panic!("gep into {:?}", o) } }
                    }
                    c.exp(b')');
                    match base { Val::C(b) => Val::C((b as u64).wrapping_add(off) as u128), _ => panic!() }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" => {
                    c.exp(b'('); let ft = self.parse_ty(c); let v = self.parse_const(c, ft, x); c.word(); let tt = self.parse_ty(c); c.exp(b')');
                    match v { Val::C(v) if self.types[tt as usize] != Ty::Void => { let w = self.bits(tt); Val::C(v & mask(w)) } v => v }
                }
                "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" => {
                    while c.isw("nuw") || c.isw("nsw") { c.i += 1; }
                    c.exp(b'('); let t1 = self.parse_ty(c); let a = self.parse_const(c, t1, x); c.exp(b','); let t2 = self.parse_ty(c); let b = self.parse_const(c, t2, x); c.exp(b')');
                    let bw = self.bits(t1);
                    match (a, b) { (Val::C(a), Val::C(b)) => Val::C(match w.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, "mul" => a.wrapping_mul(b), _ => a << b } & mask(bw)), _ => panic!() }
                }
                "icmp" => {
                    let p = c.word(); c.exp(b'('); let t1 = self.parse_ty(c); let a = self.parse_const(c, t1, x); c.exp(b','); let t2 = self.parse_ty(c); let b = self.parse_const(c, t2, x); c.exp(b')');
                    match (a, b) { (Val::C(a), Val::C(b)) => Val::C(match p.as_str() { "eq" => a == b, "ne" => a != b, "ult" => a < b, "ugt" => a > b, o => panic!("const icmp {}", o) } as u128), _ => panic!() }
                }
                "dso_local_equivalent" | "no_cfi" => self.parse_const(c, t, x),
                o => panic!("constant {} in {:?}", o, c.t),
            },
            Tok::G(n) => Val::C(self.addr_of(&n) as u128),
            Tok::Str(s) => Val::A(Rc::new(s.iter().map(|b| Val::C(*b as u128)).collect())),
            Tok::P(b'{') => { let mut v = vec![]; if !c.eat(b'}') { loop { let et = self.parse_ty(c); v.push(self.parse_const(c, et, x)); if c.eat(b'}') { break; } c.exp(b','); } } Val::A(Rc::new(v)) }
            Tok::P(b'[') => { let mut v = vec![]; if !c.eat(b']') { loop { let et = self.parse_ty(c); v.push(self.parse_const(c, et, x)); if c.eat(b']') { break; } c.exp(b','); } } Val::A(Rc::new(v)) }
            Tok::P(b'<') => {
                let st = c.eat(b'{');
                let end = if st { b'}' } else { b'>' };
                let mut v = vec![]; if !c.eat(end) { loop { let et = self.parse_ty(c); v.push(self.parse_const(c, et, x)); if c.eat(end) { break; } c.exp(b','); } }
                if st { c.exp(b'>'); }
                Val::A(Rc::new(v))
            }
            t => panic!("constant expected, got {:?} in {:?}", t, c.t),
        }
    }
    fn write_const(&self, t: TyId, v: &Val, out: &mut [u8]) {
        match (&self.types[t as usize], v) {
            (Ty::Struct(f, _), Val::A(vs)) => { let l = self.layout(t); for (i, (ft, fv)) in f.iter().zip(vs.iter()).enumerate() { let o = l.2[i] as usize; let n = self.size(*ft) as usize; self.write_const(*ft, fv, &mut out[o..o + n]); } }
            (Ty::Arr(_, e), Val::A(vs)) | (Ty::Vec(_, e), Val::A(vs)) => { let n = self.size(*e) as usize; for (i, x) in vs.iter().enumerate() { self.write_const(*e, x, &mut out[i * n..i * n + n]); } }
            (_, Val::C(v)) => { let b = v.to_le_bytes(); let n = out.len().min(16); out[..n].copy_from_slice(&b[..n]); }
            (t, v) => panic!("cannot write {:?} {:?}", t, v),
        }
    }

    pub fn load(path: &str, x: &mut Exprs) -> Module {
        let text = Rc::new(std::fs::read_to_string(path).expect("read IR"));
        let mut m = Module { text: text.clone(), types: vec![], tymap: HashMap::new(), tyinfo: RefCell::new(vec![]), named: HashMap::new(), named_id: HashMap::new(),
            funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), aliases: HashMap::new() };
        let mut gl: Vec<(String, &str)> = vec![];
        let mut pos = 0;
        let b = text.as_bytes();
        while pos < b.len() {
            let e = memchr(b, pos, b'\n');
            let line = &text[pos..e];
            match b[pos] {
                b'%' => { if let Some(k) = line.find(" = type ") { let n = name_of(&line[1..k]); m.named.insert(n, line[k + 8..].to_string()); } }
                b'@' => {
                    let k = line.find(" = ").unwrap(); let n = name_of(&line[1..k]); let rest = &line[k + 3..];
                    if rest.contains(" alias ") || rest.starts_with("alias ") {
                        let t = lex(rest); if let Some(Tok::G(a)) = t.iter().rev().find(|t| matches!(t, Tok::G(_))) { m.aliases.insert(n, a.clone()); }
                    } else { gl.push((n, rest)); }
                }
                b'd' if line.starts_with("define ") || line.starts_with("declare ") => {
                    let at = line.find('@').unwrap(); let mut i = at + 1; let lb = line.as_bytes();
                    let n = if lb[i] == b'"' { let q = quoted(lb, &mut i); String::from_utf8(unescape(&q)).unwrap() } else { let s = i; while lb[i] != b'(' { i += 1; } line[s..i].to_string() };
                    let defined = line.starts_with("define");
                    let mut end = e;
                    if defined { // until a line that is exactly "}"
                        let mut p = e + 1;
                        loop { let q = memchr(b, p, b'\n'); if &b[p..q] == b"}" { end = q; break; } p = q + 1; }
                    }
                    let id = m.funcs.len() as u32;
                    m.fmap.insert(n.clone(), id);
                    m.funcs.push(FuncDecl { name: n, start: pos, end, defined, body: None, calls: 0 });
                    pos = end + 1; continue;
                }
                _ => {}
            }
            pos = e + 1;
        }
        for (i, (n, _)) in gl.iter().enumerate() { m.gmap.insert(n.clone(), (GLOBAL_BASE + i as u64) << 32); }
        for (n, rest) in gl {
            let t = lex(rest); let mut c = Cur { t: &t, i: 0 };
            let mut external = false;
            let constant = loop {
                match c.next() {
                    Tok::W(w) if w == "global" => break false, Tok::W(w) if w == "constant" => break true,
                    Tok::W(w) => { if w == "external" || w == "extern_weak" { external = true; } if c.is(b'(') { c.skip_parens(); } }
                    t => panic!("global {} {:?}", n, t),
                }
            };
            let ty = m.parse_ty(&mut c);
            let mut bytes = vec![0u8; m.size(ty) as usize];
            if !external { let v = m.parse_const(&mut c, ty, x); m.write_const(ty, &v, &mut bytes); }
            m.globals.push(GlobalDecl { name: n, bytes, constant });
        }
        m
    }

    pub fn body(&mut self, f: u32, x: &mut Exprs) -> Rc<Func> {
        if let Some(b) = &self.funcs[f as usize].body { return b.clone(); }
        let r = Rc::new(self.decode(f, x));
        self.funcs[f as usize].body = Some(r.clone()); r
    }

    fn decode(&mut self, f: u32, x: &mut Exprs) -> Func {
        let text = self.text.clone();
        let (s, e) = (self.funcs[f as usize].start, self.funcs[f as usize].end);
        let src = &text[s..e];
        let nl = src.find('\n').unwrap();
        let head = lex(&src[..nl]);
        let mut c = Cur { t: &head, i: 1 };
        // skip linkage and attributes up to the return type
        while !self.is_type(&c) || (matches!(c.peek(), Some(Tok::P(b'<'))) && false) { if let Tok::W(_) = c.next() { if c.is(b'(') { c.skip_parens(); } } }
        let ret = self.parse_ty(&mut c);
        c.next(); // name
        c.exp(b'(');
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut nargs = 0; let mut unnamed = 0;
        if !c.eat(b')') { loop {
            if c.peek() == Some(&Tok::Dots) { c.i += 1; c.exp(b')'); break; }
            self.parse_ty(&mut c); self.skip_attrs(&mut c);
            let name = match c.peek() { Some(Tok::L(n)) => { let n = n.clone(); c.i += 1; n } _ => { unnamed.to_string() } };
            if name.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; }
            regs.insert(name, nargs); nargs += 1;
            if c.eat(b')') { break; } c.exp(b',');
        } }
        // split into blocks and logical lines
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut lines = src[nl + 1..].lines().peekable();
        while let Some(l) = lines.next() {
            if l.is_empty() { continue; }
            let lb = l.as_bytes();
            if lb[0] != b' ' {
                if lb[0] == b';' { continue; } if lb[0] == b'}' { break; }
                let mut i = 0;
                let n = if lb[0] == b'"' { String::from_utf8(unescape(&quoted(lb, &mut i))).unwrap() } else { l[..l.find(':').unwrap()].to_string() };
                blocks.push((n, vec![])); continue;
            }
            if blocks.is_empty() { blocks.push((unnamed.to_string(), vec![])); }
            let mut t = l.trim().to_string();
            if t.starts_with(';') { continue; }
            if (t.starts_with("switch ") ) && !t.contains(']') { while let Some(n) = lines.next() { t.push(' '); t.push_str(n.trim()); if n.trim_start().starts_with(']') { break; } } }
            else if t.starts_with("invoke ") || t.contains(" = invoke ") { let n = lines.next().unwrap(); t.push(' '); t.push_str(n.trim()); }
            else if t.contains(" = landingpad ") { while let Some(n) = lines.peek() { let q = n.trim_start(); if q.starts_with("cleanup") || q.starts_with("catch ") || q.starts_with("filter ") { lines.next(); } else { break; } } }
            blocks.last_mut().unwrap().1.push(t);
        }
        let bmap: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        // registers
        let mut nregs = nargs;
        for (_, ls) in &blocks { for l in ls { if l.starts_with('%') { let mut i = 1; let lb = l.as_bytes(); let n = if lb[1] == b'"' { String::from_utf8(unescape(&quoted(lb, &mut i))).unwrap() } else { l[1..l.find(' ').unwrap()].to_string() }; regs.insert(n, nregs); nregs += 1; } } }
        let mut out = vec![];
        for (_, ls) in &blocks {
            let mut bl = Block { phis: vec![], insts: vec![] };
            for l in ls {
                let toks = lex(l);
                let mut c = Cur { t: &toks, i: 0 };
                let mut dst = u32::MAX;
                if let (Some(Tok::L(n)), Some(Tok::P(b'='))) = (toks.get(0), toks.get(1)) { dst = regs[n]; c.i = 2; }
                if c.isw("phi") {
                    c.i += 1; let t = self.parse_ty(&mut c);
                    let mut v = vec![];
                    loop { c.exp(b'['); let o = self.opd(&mut c, t, &regs, x); c.exp(b','); let b = if let Tok::L(b) = c.next() { bmap[&b] } else { panic!() }; c.exp(b']'); v.push((b, o)); if !c.eat(b',') || !c.is(b'[') { break; } }
                    bl.phis.push((dst, v)); continue;
                }
                let op = self.inst(&mut c, &regs, &bmap, x, l);
                if let Op::Nop = op { continue; }
                bl.insts.push(Inst { dst, op });
            }
            out.push(bl);
        }
        Func { id: f, nargs, nregs, blocks: out, ret }
    }
    fn skip_attrs(&mut self, c: &mut Cur) {
        loop { match c.peek() {
            Some(Tok::W(w)) => {
                let w = w.clone();
                if matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" | "icmp" | "trunc" | "zext" | "none" | "asm") { return; }
                c.i += 1;
                if w == "align" { if !c.is(b'(') { c.i += 1; } else { c.skip_parens(); } } else if c.is(b'(') { c.skip_parens(); }
            }
            _ => return } }
    }
    fn opd(&mut self, c: &mut Cur, t: TyId, regs: &HashMap<String, u32>, x: &mut Exprs) -> Opd {
        if let Some(Tok::L(n)) = c.peek() { let r = *regs.get(n).unwrap_or_else(|| panic!("reg {} in {:?}", n, c.t)); c.i += 1; return Opd::L(r); }
        if let Some(Tok::M) = c.peek() { c.i += 1; return Opd::K(Val::C(0)); }
        Opd::K(self.parse_const(c, t, x))
    }
    fn topd(&mut self, c: &mut Cur, regs: &HashMap<String, u32>, x: &mut Exprs) -> (TyId, Opd) {
        let t = self.parse_ty(c); self.skip_attrs(c);
        if self.types[t as usize] == Ty::Meta { // metadata argument
            let mut d = 0; loop { match c.peek() { Some(Tok::P(b'(')) => d += 1, Some(Tok::P(b')')) => { if d == 0 { break; } d -= 1; } Some(Tok::P(b',')) if d == 0 => break, None => break, _ => {} } c.i += 1; }
            return (t, Opd::K(Val::C(0)));
        }
        let o = self.opd(c, t, regs, x); (t, o)
    }
    fn label(&mut self, c: &mut Cur, bmap: &HashMap<String, u32>) -> u32 { if !c.eatw("label") { panic!("label expected {:?}", c.t); } match c.next() { Tok::L(n) => bmap[&n], t => panic!("{:?}", t) } }

    fn inst(&mut self, c: &mut Cur, regs: &HashMap<String, u32>, bmap: &HashMap<String, u32>, x: &mut Exprs, line: &str) -> Op {
        let mut w = c.word();
        while matches!(w.as_str(), "tail" | "musttail" | "notail") { w = c.word(); }
        let bin = |s: &str| Some(match s { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "urem" => BinOp::URem, "sdiv" => BinOp::SDiv, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, _ => return None });
        if let Some(op) = bin(&w) {
            while c.isw("nuw") || c.isw("nsw") || c.isw("exact") || c.isw("disjoint") { c.i += 1; }
            let (t, a) = self.topd(c, regs, x); c.exp(b','); let b = self.opd(c, t, regs, x);
            let (l, et) = self.lanes(t);
            return Op::Bin(op, self.bits(et), l, a, b);
        }
        match w.as_str() {
            "icmp" => {
                let p = match c.word().as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, o => panic!("{}", o) };
                let (t, a) = self.topd(c, regs, x); c.exp(b','); let b = self.opd(c, t, regs, x);
                let (l, et) = self.lanes(t);
                Op::Icmp(p, self.bits(et), l, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" => {
                let (t, a) = self.topd(c, regs, x); c.word(); let tt = self.parse_ty(c);
                let (l, et) = self.lanes(t); let (_, ett) = self.lanes(tt);
                let (f, g) = (self.bits(et), self.bits(ett));
                let k = match w.as_str() { "sext" => CastOp::SExt, _ => if g < f { CastOp::Trunc } else if g > f { CastOp::ZExt } else { CastOp::Same } };
                Op::Cast(k, f, g, l, a)
            }
            "bitcast" => { let (t, a) = self.topd(c, regs, x); c.word(); let tt = self.parse_ty(c); Op::Bitcast(t, tt, a) }
            "freeze" => { let (_, a) = self.topd(c, regs, x); Op::Copy(a) }
            "getelementptr" => {
                c.eatw("inbounds"); let bt = self.parse_ty(c); c.exp(b',');
                let (_, base) = self.topd(c, regs, x);
                let mut off = 0u64; let mut dy = vec![]; let mut cur = bt; let mut first = true;
                while c.eat(b',') {
                    if !self.is_type(c) { break; }
                    let (it, io) = self.topd(c, regs, x);
                    let iw = self.bits(it);
                    let scale;
                    if first { scale = self.size(cur); first = false; }
                    else { match self.types[cur as usize].clone() {
                        Ty::Struct(f, _) => { let i = match &io { Opd::K(Val::C(v)) => *v as usize, _ => panic!() }; off = off.wrapping_add(self.layout(cur).2[i]); cur = f[i]; continue; }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => { scale = self.size(e); cur = e; }
                        o => panic!("gep {:?}", o) } }
                    match &io { Opd::K(Val::C(v)) => off = off.wrapping_add((sext128(*v, iw) as i64 as u64).wrapping_mul(scale)), _ => dy.push((io, iw, scale)) }
                }
                Op::Gep(base, off, dy)
            }
            "load" => { c.eatw("atomic"); c.eatw("volatile"); let t = self.parse_ty(c); c.exp(b','); let (_, p) = self.topd(c, regs, x); Op::Load(t, p) }
            "store" => { c.eatw("atomic"); c.eatw("volatile"); let (t, v) = self.topd(c, regs, x); c.exp(b','); let (_, p) = self.topd(c, regs, x); Op::Store(t, v, p) }
            "alloca" => {
                let t = self.parse_ty(c); let mut n = 1;
                if c.eat(b',') && self.is_type(c) { let it = self.parse_ty(c); match self.parse_const(c, it, x) { Val::C(v) => n = v as u64, _ => panic!() } }
                Op::Alloca(self.size(t) * n)
            }
            "select" => {
                let (ct, cv) = self.topd(c, regs, x); c.exp(b','); let (t, a) = self.topd(c, regs, x); c.exp(b','); let (_, b) = self.topd(c, regs, x);
                let (l, _) = self.lanes(ct); Op::Select(t, cv, a, b, l)
            }
            "extractvalue" => { let (_, a) = self.topd(c, regs, x); let mut v = vec![]; while c.eat(b',') { match c.next() { Tok::N(n) => v.push(n.parse().unwrap()), _ => break } } Op::Extract(a, v) }
            "insertvalue" => { let (_, a) = self.topd(c, regs, x); c.exp(b','); let (_, b) = self.topd(c, regs, x); let mut v = vec![]; while c.eat(b',') { match c.next() { Tok::N(n) => v.push(n.parse().unwrap()), _ => break } } Op::Insert(a, b, v) }
            "extractelement" => { let (_, a) = self.topd(c, regs, x); c.exp(b','); let (_, b) = self.topd(c, regs, x); Op::VExtract(a, b) }
            "insertelement" => { let (_, a) = self.topd(c, regs, x); c.exp(b','); let (_, b) = self.topd(c, regs, x); c.exp(b','); let (_, i) = self.topd(c, regs, x); Op::VInsert(a, b, i) }
            "shufflevector" => {
                let (t, a) = self.topd(c, regs, x); c.exp(b','); let (_, b) = self.topd(c, regs, x); c.exp(b',');
                let mt = self.parse_ty(c); let n = self.lanes(mt).0;
                let mk = match c.peek() { Some(Tok::W(_)) => { c.i += 1; vec![0i64; n as usize] } _ => { c.exp(b'<'); let mut v = vec![]; loop { self.parse_ty(c); match c.next() { Tok::N(n) => v.push(n.parse().unwrap()), _ => v.push(-1) } if c.eat(b'>') { break; } c.exp(b','); } v } };
                Op::Shuffle(a, b, mk, self.lanes(t).0 as u64)
            }
            "call" | "invoke" => {
                // flags, calling convention and return attributes
                while !self.is_type(c) { if let Tok::W(_) = c.next() { if c.is(b'(') { c.skip_parens(); } else if let Some(Tok::N(_)) = c.peek() { c.i += 1; } } }
                let ret = self.parse_ty(c);
                if c.is(b'(') { c.skip_parens(); } // function type of a varargs callee
                if c.isw("asm") { // inline assembly: barriers are no-ops, cpuid returns zeros
                    return if self.types[ret as usize] == Ty::Void { Op::Nop } else { Op::Copy(Opd::K(self.zero(ret))) };
                }
                let callee = match c.next() {
                    Tok::G(n) => {
                        if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n == "llvm.assume" || n.starts_with("llvm.invariant") { return Op::Nop; }
                        let mut n = n; while let Some(a) = self.aliases.get(&n) { n = a.clone(); }
                        Callee::Fn(self.fmap[&n])
                    }
                    Tok::L(n) => Callee::Ind(Opd::L(regs[&n])),
                    t => return Op::Unsupported(format!("callee {:?}", t)),
                };
                c.exp(b'(');
                let (mut args, mut tys) = (vec![], vec![]);
                if !c.eat(b')') { loop { let (t, o) = self.topd(c, regs, x); args.push(o); tys.push(t); if c.eat(b')') { break; } c.exp(b','); } }
                if w == "invoke" {
                    while !c.isw("to") { c.i += 1; }
                    c.i += 1;
                    let l = self.label(c, bmap);
                    // represented as a call followed by a branch: the caller splits it
                    return Op::Call(callee, { args.push(Opd::K(Val::C(l as u128))); args }, { tys.push(u32::MAX); tys }, ret);
                }
                Op::Call(callee, args, tys, ret)
            }
            "br" => {
                if c.isw("label") { return Op::Br(self.label(c, bmap)); }
                let (_, o) = self.topd(c, regs, x); c.exp(b','); let a = self.label(c, bmap); c.exp(b','); let b = self.label(c, bmap);
                Op::CondBr(o, a, b)
            }
            "switch" => {
                let (t, o) = self.topd(c, regs, x); c.exp(b','); let d = self.label(c, bmap); c.exp(b'[');
                let mut v = vec![];
                while !c.eat(b']') { let ct = self.parse_ty(c); let k = match self.parse_const(c, ct, x) { Val::C(v) => v, _ => panic!() }; c.exp(b','); v.push((k, self.label(c, bmap))); }
                Op::Switch(self.bits(t), o, d, v)
            }
            "ret" => { if c.isw("void") { Op::Ret(None) } else { let (_, o) = self.topd(c, regs, x); Op::Ret(Some(o)) } }
            "unreachable" => Op::Unreachable,
            "fence" => Op::Nop,
            "atomicrmw" => { c.eatw("volatile"); let k = c.word(); let (_, p) = self.topd(c, regs, x); c.exp(b','); let (t, v) = self.topd(c, regs, x); Op::Rmw(k, t, p, v) }
            "cmpxchg" => { c.eatw("weak"); c.eatw("volatile"); let (_, p) = self.topd(c, regs, x); c.exp(b','); let (t, a) = self.topd(c, regs, x); c.exp(b','); let (_, b) = self.topd(c, regs, x); Op::CmpXchg(t, p, a, b) }
            "landingpad" | "resume" => Op::Unsupported(w),
            _ => Op::Unsupported(line.to_string()),
        }
    }
}
fn memchr(b: &[u8], from: usize, c: u8) -> usize { let mut i = from; while i < b.len() && b[i] != c { i += 1; } i }
fn name_of(s: &str) -> String { if s.starts_with('"') { String::from_utf8(unescape(s[1..s.len() - 1].as_bytes())).unwrap() } else { s.to_string() } }
