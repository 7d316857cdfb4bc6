//! Harness library: symbolic inputs, assertions, transactions over the real contracts.
use cosmwasm_std::*;
use serde::de::DeserializeOwned;
use std::collections::BTreeMap;

mod ffi {
    extern "C" {
        pub fn vx_sym(out: *mut u8, n: u64, name: *const u8, l: u64);
        pub fn vx_range(lo: u64, hi: u64, name: *const u8, l: u64) -> u64;
        pub fn vx_bool(name: *const u8, l: u64) -> bool;
        pub fn vx_choose(n: u64, name: *const u8, l: u64) -> u64;
        pub fn vx_assume(c: bool);
        pub fn vx_assert(c: bool, m: *const u8, l: u64);
        pub fn vx_reach(m: *const u8, l: u64);
        pub fn vx_concrete(v: u64) -> u64;
        pub fn vx_observe(m: *const u8, l: u64, v: u64);
        pub fn vx_trace(m: *const u8, l: u64, v: u64);
        pub fn vx_flat_hash();
        pub fn vx_try(f: extern "C" fn(*mut u8), d: *mut u8) -> i32;
    }
}
pub use vxs::on;

// ---- inputs ----------------------------------------------------------------------------------
pub fn bytes<const N: usize>(name: &str) -> [u8; N] { let mut b = [0u8; N]; unsafe { ffi::vx_sym(b.as_mut_ptr(), N as u64, name.as_ptr(), name.len() as u64) }; b }
pub fn any_u8(name: &str) -> u8 { u8::from_le_bytes(bytes(name)) }
pub fn any_u32(name: &str) -> u32 { u32::from_le_bytes(bytes(name)) }
pub fn any_u64(name: &str) -> u64 { u64::from_le_bytes(bytes(name)) }
pub fn any_u128(name: &str) -> u128 { u128::from_le_bytes(bytes(name)) }
pub fn any_u256(name: &str) -> Uint256 { let mut b: [u8; 32] = bytes(name); b.reverse(); Uint256::from_be_bytes(b) }
/// any value in lo..=hi
pub fn range(lo: u64, hi: u64, name: &str) -> u64 { unsafe { ffi::vx_range(lo, hi, name.as_ptr(), name.len() as u64) } }
pub fn flag(name: &str) -> bool { unsafe { ffi::vx_bool(name.as_ptr(), name.len() as u64) } }
/// 0..n, one explored path per value
pub fn choose(n: u64, name: &str) -> u64 { unsafe { ffi::vx_choose(n, name.as_ptr(), name.len() as u64) } }
/// a decision that is explored both ways
pub fn decide(name: &str) -> bool { choose(2, name) == 1 }
pub fn pick<'a, T>(xs: &'a [T], name: &str) -> &'a T { &xs[choose(xs.len() as u64, name) as usize] }
pub fn concrete(v: u64) -> u64 { unsafe { ffi::vx_concrete(v) } }

// ---- judgement -------------------------------------------------------------------------------
pub fn assume(c: bool) { unsafe { ffi::vx_assume(c) } }
pub fn check(c: bool, m: &str) { unsafe { ffi::vx_assert(c, m.as_ptr(), m.len() as u64) } }
pub fn reach(m: &str) { unsafe { ffi::vx_reach(m.as_ptr(), m.len() as u64) } }
pub fn observe(m: &str, v: u64) { unsafe { ffi::vx_observe(m.as_ptr(), m.len() as u64, v) } }
pub fn trace(m: &str, v: u64) { unsafe { ffi::vx_trace(m.as_ptr(), m.len() as u64, v) } }
/// hash maps with symbolic keys: all keys hash alike from here on (no effect natively)
pub fn flat_hash() { unsafe { ffi::vx_flat_hash() } }

/// Runs f; None if it panicked.
pub fn attempt<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    struct D<F, R> { f: Option<F>, r: Option<R> }
    extern "C" fn call<R, F: FnOnce() -> R>(p: *mut u8) { let d = unsafe { &mut *(p as *mut D<F, R>) }; let f = d.f.take().unwrap(); d.r = Some(f()); }
    let mut d = D { f: Some(f), r: None };
    let rc = unsafe { ffi::vx_try(call::<R, F>, &mut d as *mut D<F, R> as *mut u8) };
    if rc == 0 { d.r.take() } else { std::mem::forget(d); None }
}

#[macro_export]
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        /// u64 from the text form the executor prints symbolic integers in
        #[no_mangle] pub fn vx_parse_u8(s: &str) -> Result<u8, std::num::ParseIntError> { $crate::parse_wide(s).and_then(|v| <u8>::try_from(v).map_err(|_| $crate::parse_wide("~").unwrap_err())) }
        #[no_mangle] pub fn vx_parse_u16(s: &str) -> Result<u16, std::num::ParseIntError> { $crate::parse_wide(s).and_then(|v| <u16>::try_from(v).map_err(|_| $crate::parse_wide("~").unwrap_err())) }
        #[no_mangle] pub fn vx_parse_u32(s: &str) -> Result<u32, std::num::ParseIntError> { $crate::parse_wide(s).and_then(|v| <u32>::try_from(v).map_err(|_| $crate::parse_wide("~").unwrap_err())) }
        #[no_mangle] pub fn vx_parse_u64(s: &str) -> Result<u64, std::num::ParseIntError> { $crate::parse_wide(s).and_then(|v| <u64>::try_from(v).map_err(|_| $crate::parse_wide("~").unwrap_err())) }
        #[no_mangle] pub fn vx_parse_u128(s: &str) -> Result<u128, std::num::ParseIntError> { $crate::parse_wide(s) }
        #[no_mangle] pub fn vx_parse_usize(s: &str) -> Result<usize, std::num::ParseIntError> { $crate::parse_wide(s).and_then(|v| <usize>::try_from(v).map_err(|_| $crate::parse_wide("~").unwrap_err())) }
        #[no_mangle] pub fn vx_parse_i8(s: &str) -> Result<i8, std::num::ParseIntError> { $crate::parse_wide(s).and_then(|v| <i8>::try_from(v).map_err(|_| $crate::parse_wide("~").unwrap_err())) }
        #[no_mangle] pub fn vx_parse_i16(s: &str) -> Result<i16, std::num::ParseIntError> { $crate::parse_wide(s).and_then(|v| <i16>::try_from(v).map_err(|_| $crate::parse_wide("~").unwrap_err())) }
        #[no_mangle] pub fn vx_parse_i32(s: &str) -> Result<i32, std::num::ParseIntError> { $crate::parse_wide(s).and_then(|v| <i32>::try_from(v).map_err(|_| $crate::parse_wide("~").unwrap_err())) }
        #[no_mangle] pub fn vx_parse_i64(s: &str) -> Result<i64, std::num::ParseIntError> { $crate::parse_wide(s).and_then(|v| <i64>::try_from(v).map_err(|_| $crate::parse_wide("~").unwrap_err())) }
        #[no_mangle] pub fn vx_parse_i128(s: &str) -> Result<i128, std::num::ParseIntError> { $crate::parse_wide(s).and_then(|v| <i128>::try_from(v).map_err(|_| $crate::parse_wide("~").unwrap_err())) }
        #[no_mangle] pub fn vx_parse_isize(s: &str) -> Result<isize, std::num::ParseIntError> { $crate::parse_wide(s).and_then(|v| <isize>::try_from(v).map_err(|_| $crate::parse_wide("~").unwrap_err())) }
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            match a.as_str() { $(stringify!($n) => $n(),)* _ => { println!("unknown entry"); std::process::exit(64) } }
            println!("VXDONE");
        }
    };
}

// ---- chain environment -----------------------------------------------------------------------
/// Contract storage: a sorted map, cloned to roll a failed transaction back.
#[derive(Clone, Default)]
pub struct Store(pub BTreeMap<Vec<u8>, Vec<u8>>);
impl Store { pub fn new() -> Self { Store(BTreeMap::new()) } }
impl Storage for Store {
    fn get(&self, k: &[u8]) -> Option<Vec<u8>> { self.0.get(k).cloned() }
    fn set(&mut self, k: &[u8], v: &[u8]) { if v.is_empty() { panic!("empty storage value") } self.0.insert(k.to_vec(), v.to_vec()); }
    fn remove(&mut self, k: &[u8]) { self.0.remove(k); }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound::*;
        if let (Some(s), Some(e)) = (start, end) { if s >= e { return Box::new(std::iter::empty()); } }
        let r = self.0.range::<[u8], _>((start.map_or(Unbounded, Included), end.map_or(Unbounded, Excluded))).map(|(k, v)| (k.clone(), v.clone()));
        match order { Order::Ascending => Box::new(r), Order::Descending => Box::new(r.rev()) }
    }
}

/// Addresses: lower case ASCII, 3 to 90 characters (as the chain's address codec after normalisation).
#[derive(Clone, Copy, Default)]
pub struct VxApi;
impl Api for VxApi {
    fn addr_validate(&self, s: &str) -> StdResult<Addr> {
        if s.len() < 3 || s.len() > 90 || s.bytes().any(|b| b.is_ascii_uppercase()) { return Err(StdError::generic_err("Invalid input: bad address")); }
        Ok(Addr::unchecked(s))
    }
    fn addr_canonicalize(&self, s: &str) -> StdResult<CanonicalAddr> { Ok(CanonicalAddr::from(s.as_bytes())) }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> { Ok(Addr::unchecked(String::from_utf8(c.to_vec()).map_err(|_| StdError::generic_err("bad address"))?)) }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> { unimplemented!() }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> { unimplemented!() }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> { unimplemented!() }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> { unimplemented!() }
    fn debug(&self, _: &str) {}
}

/// Answers smart queries through a closure: (contract, query message) -> binary answer.
pub struct Q<'a>(pub &'a dyn Fn(&str, &Binary) -> StdResult<Binary>);
impl<'a> Querier for Q<'a> {
    fn raw_query(&self, req: &[u8]) -> QuerierResult {
        let r: QueryRequest<Empty> = match from_slice(req) { Ok(r) => r, Err(_) => return SystemResult::Err(SystemError::InvalidRequest { error: "parse".into(), request: Binary::default() }) };
        match r {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => match (self.0)(&contract_addr, &msg) {
                Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
                Err(e) => SystemResult::Ok(ContractResult::Err(e.to_string())),
            },
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "query".into() }),
        }
    }
}
pub fn no_query(_: &str, _: &Binary) -> StdResult<Binary> { Err(StdError::generic_err("no such contract")) }

pub fn env(height: u64, seconds: u64, contract: &str) -> Env {
    Env { block: BlockInfo { height, time: Timestamp::from_seconds(seconds), chain_id: "axelar".into() }, transaction: Some(TransactionInfo { index: 0 }), contract: ContractInfo { address: Addr::unchecked(contract) } }
}
pub fn info(sender: &str) -> MessageInfo { MessageInfo { sender: Addr::unchecked(sender), funds: vec![] } }
pub fn paid(sender: &str, funds: Vec<Coin>) -> MessageInfo { MessageInfo { sender: Addr::unchecked(sender), funds } }

/// One transaction: on an error or a panic the storage is left as before and None is returned.
pub fn tx<R, E>(st: &mut Store, q: &dyn Fn(&str, &Binary) -> StdResult<Binary>, f: impl FnOnce(DepsMut) -> Result<R, E>) -> Option<R> {
    let mut work = st.clone();
    let r = attempt(|| {
        let querier = Q(q);
        let r = f(DepsMut { storage: &mut work, api: &VxApi, querier: QuerierWrapper::new(&querier) });
        match r { Ok(v) => Some(v), Err(e) => { std::mem::forget(e); None } }
    });
    match r { Some(Some(v)) => { *st = work; Some(v) } _ => { std::mem::forget(work); None } }
}
/// One query; None on error or panic.
pub fn ask<T: DeserializeOwned, E>(st: &Store, q: &dyn Fn(&str, &Binary) -> StdResult<Binary>, f: impl FnOnce(Deps) -> Result<Binary, E>) -> Option<T> {
    attempt(|| {
        let querier = Q(q);
        let r = f(Deps { storage: st, api: &VxApi, querier: QuerierWrapper::new(&querier) });
        match r { Ok(v) => from_binary::<T>(&v).ok(), Err(e) => { std::mem::forget(e); None } }
    }).flatten()
}

// ---- reading responses -----------------------------------------------------------------------
/// (contract, decoded message) of every wasm execute sub-message, in order
pub fn wasm_msgs(r: &Response) -> Vec<(String, Binary)> {
    r.messages.iter().filter_map(|m| match &m.msg { CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) => Some((contract_addr.clone(), msg.clone())), _ => None }).collect()
}
pub fn bank_sends(r: &Response) -> Vec<(String, Vec<Coin>)> {
    r.messages.iter().filter_map(|m| match &m.msg { CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => Some((to_address.clone(), amount.clone())), _ => None }).collect()
}
pub fn event<'a>(r: &'a Response, ty: &str) -> Option<&'a Event> { r.events.iter().find(|e| e.ty == ty) }
pub fn events<'a>(r: &'a Response, ty: &str) -> Vec<&'a Event> { r.events.iter().filter(|e| e.ty == ty).collect() }
pub fn attr<'a>(e: &'a Event, k: &str) -> Option<&'a str> { e.attributes.iter().find(|a| a.key == k).map(|a| a.value.as_str()) }

/// the value in the low bytes of `out`, little endian; None if malformed or too large
fn parse_text(s: &str, out: &mut [u8]) -> Option<()> {
    let b = s.as_bytes();
    if b.len() < 2 || b[0] != b'~' { return None; }
    // an even length: with a width tag
    if b.len() % 2 == 0 { return match vxs::dec_all(s, out) { Some(true) => Some(()), _ => None }; }
    let n = (b.len() - 1) / 2;
    let mut bad = 0u8;
    for i in 0..n {
        let (h, l) = (b[1 + 2 * (n - 1 - i)].wrapping_sub(b'a'), b[2 + 2 * (n - 1 - i)].wrapping_sub(b'a'));
        bad |= (h | l) & 0xf0;
        let v = h << 4 | l;
        if i < out.len() { out[i] = v; } else { bad |= v; }
    }
    if bad != 0 { None } else { Some(()) }
}
#[inline(never)]
pub fn parse_u64(s: &str) -> Result<u64, std::num::ParseIntError> {
    let mut o = [0u8; 8];
    match parse_text(s, &mut o) { Some(()) => Ok(u64::from_le_bytes(o)), None => "x".parse() }
}
#[inline(never)]
pub fn parse_wide(s: &str) -> Result<u128, std::num::ParseIntError> {
    let mut o = [0u8; 16];
    match parse_text(s, &mut o) { Some(()) => Ok(u128::from_le_bytes(o)), None => "x".parse() }
}
