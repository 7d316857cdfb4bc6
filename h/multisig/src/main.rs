//! Harnesses over contracts/multisig.
use axelar_wasm_std::nonempty;
use cosmwasm_std::*;
use multisig::contract as ms;
use multisig::key::{KeyType, PublicKey};
use multisig::msg::{ExecuteMsg, InstantiateMsg, Multisig, QueryMsg, Signer};
use multisig::state::{SIGNING_SESSIONS, SIGNING_SESSION_COUNTER, WORKER_SETS};
use multisig::types::MultisigState;
use multisig::worker_set::WorkerSet;
use std::collections::{BTreeMap, BTreeSet};
use vxlib::attr;
use vxlib::*;

const SELF: &str = "multisig";
const REWARDS: &str = "rewards";
const GOV: &str = "governance";
const P: [&str; 2] = ["proverone", "provertwo"];
const W: [&str; 24] = ["workerone", "workertwo", "workerthree", "workerfour", "workera", "workerb", "workerc", "workerd", "workere", "workerf", "workerg", "workerh", "workeri", "workerj", "workerk", "workerl", "workerm", "workern", "workero", "workerp", "workerq", "workerr", "workers", "workert"];
const CHAIN: [&str; 2] = ["alpha", "beta"];

// ---- keys and signatures -------------------------------------------------------------------
/// key pairs: numbers below 4 are ecdsa, the others ed25519; the private keys are [n + 1; 32]
#[derive(Clone, Copy, PartialEq, Eq)]
struct Key(usize);
const EC0: &str = "031b84c5567b126440995d3ed5aaba0565d71e1834604819ff9c17f5e9d5dd078f";
const EC1: &str = "024d4b6cd1361032ca9bd2aeb9d900aa4d45d9ead80ac9423374c451a7254d0766";
const EC2: &str = "02531fe6068134503d2723133227c867ac8fa6c83c537e9a44c3c5bdbdcb1fe337";
const EC3: &str = "03462779ad4aad39514614751a71085f2f10e1c7a593e4e030efb5b8721ce55b0b";
const ED0: &str = "6e7a1cdd29b0b78fd13af4c5598feff4ef2a97166e3ca6f2e4fbfccd80505bf1";
const ED1: &str = "8a875fff1eb38451577acd5afee405456568dd7c89e090863a0557bc7af49f17";
const ED2: &str = "ea4a6c63e29c520abef5507b132ec5f9954776aebebe7b92421eea691446d22c";
const ED3: &str = "1398f62c6d1a457c51ba6a4b5f3dbd2f69fca93216218dc8997e416bd17d93ca";
const EC: [&str; 4] = [EC0, EC1, EC2, EC3];
const ED: [&str; 4] = [ED0, ED1, ED2, ED3];
fn unhex(s: &str) -> Vec<u8> { let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 }; s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect() }
impl Key {
    fn ty(self) -> KeyType { if self.0 < 4 { KeyType::Ecdsa } else { KeyType::Ed25519 } }
    fn bytes(self) -> Vec<u8> { unhex(if self.0 < 4 { EC[self.0] } else { ED[self.0 - 4] }) }
    fn public(self) -> PublicKey { PublicKey::try_from((self.ty(), HexBinary::from(self.bytes()))).unwrap() }
    fn sign(self, msg: &[u8]) -> Vec<u8> {
        if vxs::on() { let mut s = vec![7u8; 64]; s[0] = vxs::sig_tag(msg, &self.bytes()); return s; }
        let secret = [self.0 as u8 + 1; 32];
        if self.0 < 4 {
            use k256::ecdsa::signature::hazmat::PrehashSigner;
            let k = k256::ecdsa::SigningKey::from_slice(&secret).unwrap();
            assert!(k.verifying_key().to_encoded_point(true).as_bytes() == self.bytes(), "key {} is {}", self.0, HexBinary::from(k.verifying_key().to_encoded_point(true).as_bytes()));
            let s: k256::ecdsa::Signature = k.sign_prehash(msg).unwrap();
            s.to_vec()
        } else {
            let k = ed25519_zebra::SigningKey::from(secret);
            let p: [u8; 32] = ed25519_zebra::VerificationKey::from(&k).into();
            assert!(p.as_slice() == self.bytes(), "key {} is {}", self.0, HexBinary::from(p.as_slice()));
            let s: [u8; 64] = k.sign(msg).into();
            s.to_vec()
        }
    }
}
/// ways to make a signature; only the first one is valid
const KINDS: u64 = 6;
fn signature(kind: u64, key: Key, other: Key, msg: &[u8], other_msg: &[u8]) -> Vec<u8> {
    let good = key.sign(msg);
    let s = match kind {
        0 => good.clone(),
        1 => other.sign(msg),
        2 => key.sign(other_msg),
        3 => { let mut s = good.clone(); s[0] ^= 1; s }
        4 => { let mut s = good.clone(); s.push(0); s }
        _ => good[..63].to_vec(),
    };
    check(kind == 0 || s != good, "two signatures of this harness are the same");
    s
}

// ---- the contract --------------------------------------------------------------------------
fn new_multisig(grace_period: u64) -> Store {
    let mut st = Store::new();
    let m = InstantiateMsg { governance_address: GOV.into(), rewards_address: REWARDS.into(), grace_period };
    check(tx(&mut st, &no_query, |d| ms::instantiate(d, env(1, 1, SELF), info("creator"), m)).is_some(), "instantiation refused");
    st
}
fn ex(st: &mut Store, height: u64, sender: &str, m: ExecuteMsg) -> Option<Response> { tx(st, &no_query, |d| ms::execute(d, env(height, 1, SELF), info(sender), m)) }
fn session(st: &Store, id: u64) -> Option<Multisig> { ask(st, &no_query, |d| ms::query(d, env(1, 1, SELF), QueryMsg::GetMultisig { session_id: id.into() })) }
fn worker_set(st: &Store, id: &str) -> Option<WorkerSet> { ask(st, &no_query, |d| ms::query(d, env(1, 1, SELF), QueryMsg::GetWorkerSet { worker_set_id: id.into() })) }
fn public_key(st: &Store, who: &str, ty: KeyType) -> Option<PublicKey> { ask(st, &no_query, |d| ms::query(d, env(1, 1, SELF), QueryMsg::GetPublicKey { worker_address: who.into(), key_type: ty })) }
/// workers with their keys and weights
fn set(of: &[(usize, Key, Uint256)], threshold: Uint256, created_at: u64) -> WorkerSet {
    WorkerSet { signers: of.iter().map(|(i, k, w)| (W[*i].to_string(), Signer { address: Addr::unchecked(W[*i]), weight: *w, pub_key: k.public() })).collect(), threshold, created_at }
}
fn authorize(st: &mut Store, who: &str) { check(ex(st, 1, GOV, ExecuteMsg::AuthorizeCaller { contract_address: Addr::unchecked(who) }).is_some(), "governance cannot authorize a caller"); }
fn start(st: &mut Store, who: &str, set_id: &str, msg: &[u8], chain: &str) -> Option<Response> {
    ex(st, 2, who, ExecuteMsg::StartSigningSession { worker_set_id: set_id.into(), msg: HexBinary::from(msg), chain_name: chain.parse().unwrap(), sig_verifier: None })
}
fn started(r: &Response) -> u64 { match r.data.as_ref().map(|d| from_binary::<Uint64>(d)) { Some(Ok(i)) => i.u64(), _ => { check(false, "no session id in the answer"); 0 } } }
fn number(s: &str) -> Option<u64> { if s.starts_with('~') { parse_u64(s).ok() } else { s.parse().ok() } }

/// a session as this harness sees it
#[derive(Clone)]
struct S { id: u64, msg: [u8; 32], of: Vec<(usize, Key, Uint256)>, threshold: Uint256, signed: BTreeMap<usize, Vec<u8>>, done: Option<u64> }
impl S {
    fn open(st: &mut Store, of: &[(usize, Key, Uint256)], threshold: Uint256, msg: [u8; 32]) -> S {
        // registered with other weights and threshold, so that its id is concrete
        let plain: Vec<_> = of.iter().map(|(i, k, _)| (*i, *k, Uint256::one())).collect();
        let ws = set(&plain, Uint256::one(), msg[0] as u64);
        check(ex(st, 1, "anyone", ExecuteMsg::RegisterWorkerSet { worker_set: ws.clone() }).is_some(), "worker set refused");
        let id = match start(st, P[0], &ws.id(), &msg, CHAIN[0]) { Some(r) => started(&r), None => { check(false, "session refused"); 0 } };
        WORKER_SETS.save(st, &ws.id(), &set(of, threshold, msg[0] as u64)).unwrap();
        S { id, msg, of: of.to_vec(), threshold, signed: BTreeMap::new(), done: None }
    }
    fn key(&self, who: usize) -> Option<Key> { self.of.iter().find(|x| x.0 == who).map(|x| x.1) }
    fn weight(&self) -> Uint256 { let mut t = Uint256::zero(); for (i, _, w) in &self.of { if self.signed.contains_key(i) { t += *w; } } t }
    /// the signature of a participant was accepted
    fn accept(&mut self, who: usize, sig: Vec<u8>, height: u64) -> bool {
        self.signed.insert(who, sig);
        let now = self.done.is_none() && self.weight() >= self.threshold;
        if now { self.done = Some(height); }
        now
    }
    /// the contract reports exactly this
    fn same(&self, st: &Store) {
        let m = match session(st, self.id) { Some(m) => m, None => { check(false, "session cannot be queried"); return } };
        match (&m.state, self.done) {
            (MultisigState::Pending, None) => (),
            (MultisigState::Completed { completed_at }, Some(h)) => check(*completed_at == h, "completed at another height"),
            (MultisigState::Pending, _) => check(false, "session pending in spite of enough weight"),
            _ => check(false, "session completed without enough weight"),
        }
        check(m.quorum == self.threshold, "threshold reported for a session");
        check(m.signers.len() == self.of.len(), "signers reported for a session");
        for (s, sig) in &m.signers {
            match self.of.iter().find(|x| s.address == W[x.0]) {
                Some((i, k, w)) => {
                    check(s.weight == *w && s.pub_key == k.public(), "weight or key reported for a signer");
                    match (sig, self.signed.get(i)) {
                        (None, None) => (),
                        (Some(a), Some(b)) => check(a.as_ref() == &b[..], "another signature than the accepted one is reported"),
                        (Some(_), None) => check(false, "a signature is reported that was not accepted"),
                        (None, Some(_)) => check(false, "an accepted signature is not reported"),
                    }
                }
                None => check(false, "signers reported for a session"),
            }
        }
    }
}
fn submit(st: &mut Store, height: u64, who: &str, id: u64, sig: &[u8]) -> Option<Response> { ex(st, height, who, ExecuteMsg::SubmitSignature { session_id: id.into(), signature: HexBinary::from(sig) }) }
/// what an accepted signature has to cause
fn accepted(r: &Response, s: &S, who: usize, sig: &[u8], height: u64, completes: bool) {
    let w = wasm_msgs(r);
    check(w.len() == 1 && r.messages.len() == 1 && w[0].0 == REWARDS, "not exactly one participation record per signature");
    match w.get(0).map(|m| from_binary(&m.1)) {
        Some(Ok(rewards::msg::ExecuteMsg::RecordParticipation { event_id, worker_address })) => {
            let e: &nonempty::String = &event_id;
            check(worker_address == W[who] && **e == s.id.to_string(), "participation recorded for another worker or session");
        }
        _ => check(false, "not exactly one participation record per signature"),
    }
    let e = events(r, "signature_submitted");
    check(e.len() == 1 && attr(e[0], "participant") == Some(W[who]) && attr(e[0], "session_id").and_then(number) == Some(s.id) && attr(e[0], "signature") == Some(&HexBinary::from(sig).to_hex()), "event of a signature");
    let c = events(r, "signing_completed");
    check(c.len() == completes as usize, "a completion is announced at the wrong time");
    if let Some(c) = c.get(0) { check(attr(c, "session_id").and_then(number) == Some(s.id) && attr(c, "completed_at").and_then(number) == Some(height), "event of a completion"); }
}
const fn msg(i: u8) -> [u8; 32] { let mut m = [0x33; 32]; m[0] = i; m[31] = 2 * i + 1; m }
const MSG: [[u8; 32]; 3] = [msg(1), msg(2), msg(3)];
fn weights(n: usize) -> Vec<Uint256> { (0..n).map(|_| Uint256::from(any_u128("weight"))).collect() }
fn any_threshold() -> Uint256 { let t = Uint256::from(any_u128("threshold.lo")) + (Uint256::from(range(0, 5, "threshold.hi")) << 128); assume(!t.is_zero()); t }
/// ecdsa and ed25519 keys mixed
const KEYS: [Key; 4] = [Key(0), Key(5), Key(2), Key(7)];

// ---- C19 -------------------------------------------------------------------------------------
/// all orders in which workers can sign, any weights, threshold and heights
fn orders(n: usize) {
    let grace = any_u64("grace period");
    let mut st = new_multisig(grace);
    authorize(&mut st, P[0]);
    let of: Vec<_> = weights(n).into_iter().enumerate().map(|(i, w)| (i, KEYS[i], w)).collect();
    let mut s = S::open(&mut st, &of, any_threshold(), MSG[0]);
    let idle = S::open(&mut st, &[(0, KEYS[0], Uint256::one()), (1, KEYS[1], Uint256::one())], Uint256::one(), MSG[1]);
    check(s.id != idle.id, "two sessions share an id");
    s.same(&st);
    let mut h = any_u64("height");
    let mut left: Vec<usize> = (0..n).collect();
    while !left.is_empty() {
        let k = choose(left.len() as u64 + 1, "who signs next") as usize;
        if k == left.len() { break; }
        let who = left.remove(k);
        let next = any_u64("height");
        assume(next >= h);
        h = next;
        if let Some(d) = s.done { assume(d.checked_add(grace).map_or(false, |e| h <= e)); }
        let sig = KEYS[who].sign(&s.msg);
        match submit(&mut st, h, W[who], s.id, &sig) {
            Some(r) => { let c = s.accept(who, sig.clone(), h); accepted(&r, &s, who, &sig, h, c); if c { reach("completed"); } else { reach("not completed by this one"); } }
            None => check(false, "valid signature of a participant refused"),
        }
        s.same(&st);
        idle.same(&st);
    }
}
#[no_mangle] pub extern "C" fn c19_orders2() { orders(2) }
#[no_mangle] pub extern "C" fn c19_orders3() { orders(3) }
#[no_mangle] pub extern "C" fn c19_orders4() { orders(4) }

// ---- C20 -------------------------------------------------------------------------------------
/// any valid signatures, then one submission of any kind
fn then_any(sessions_only: bool) {
    let grace = range(0, u64::MAX, "grace period");
    let mut st = new_multisig(grace);
    authorize(&mut st, P[0]);
    // both sessions have workers 0 and 1; worker 0 has another key in the second one
    let a: Vec<_> = weights(3).into_iter().enumerate().map(|(i, w)| (i, KEYS[i], w)).collect();
    let b = vec![(0, Key(4), Uint256::one()), (1, KEYS[1], Uint256::one()), (3, KEYS[3], Uint256::one())];
    let mut ss = [S::open(&mut st, &a, any_threshold(), MSG[0]), S::open(&mut st, &b, Uint256::from(2u64), MSG[1])];
    // registered later, and not used by these sessions
    check(ex(&mut st, 3, W[0], ExecuteMsg::RegisterPublicKey { public_key: Key(3).public() }).is_some(), "public key refused");
    let mut h = any_u64("height");
    for who in 0..3 {
        if !decide("signed before") { continue; }
        let next = any_u64("height");
        assume(next >= h);
        h = next;
        if let Some(d) = ss[0].done { assume(d.checked_add(grace).map_or(false, |e| h <= e)); }
        let sig = KEYS[who].sign(&MSG[0]);
        check(submit(&mut st, h, W[who], ss[0].id, &sig).is_some(), "valid signature of a participant refused");
        ss[0].accept(who, sig, h);
    }
    if sessions_only && decide("signed the other one") {
        let sig = KEYS[1].sign(&MSG[1]);
        check(submit(&mut st, h, W[1], ss[1].id, &sig).is_some(), "valid signature of a participant refused");
        ss[1].accept(1, sig, h);
    }
    let last = any_u64("height of the last one");
    assume(last >= h);
    let who = choose(5, "sender") as usize;
    let sender = if who < 4 { W[who] } else { P[0] };
    let k = choose(if sessions_only { 3 } else { 2 }, "session") as usize;
    let before = st.clone();
    if k == 2 {
        check(submit(&mut st, last, sender, 77, &KEYS[who & 3].sign(&MSG[0])).is_none(), "signature for an unknown session accepted");
        check(st.0 == before.0, "a refused signature changes the state");
        return;
    }
    let listed = ss[k].key(who);
    let key = listed.unwrap_or(if who < 4 { KEYS[who] } else { Key(1) });
    let kind = choose(KINDS, "kind of signature");
    let other = if kind != 1 { Key(3) } else { match choose(3, "other key") { 0 => ss[k].of[(ss[k].of.iter().position(|x| x.0 == who).unwrap_or(2) + 1) % 3].1, 1 => if k == 0 { Key(4) } else { Key(0) }, _ => Key(3) } };
    if kind == 1 && other == key { return; }
    let sig = signature(kind, key, other, &MSG[k], &MSG[1 - k]);
    let open = ss[k].done.map_or(true, |d| d.checked_add(grace).map_or(false, |e| last <= e));
    let closed = ss[k].done.map_or(false, |d| d.checked_add(grace).map_or(false, |e| last > e));
    let mine = listed.is_some() && kind == 0 && !ss[k].signed.contains_key(&who);
    match submit(&mut st, last, sender, ss[k].id, &sig) {
        Some(r) => {
            reach("accepted");
            check(listed.is_some(), "signature of somebody else than a participant accepted");
            check(kind == 0, "invalid signature accepted");
            check(!ss[k].signed.contains_key(&who), "second signature of a worker accepted");
            check(!closed, "signature accepted after the grace period");
            let c = ss[k].accept(who, sig.clone(), last);
            accepted(&r, &ss[k], who, &sig, last, c);
        }
        None => {
            reach("refused");
            check(!(mine && open), "valid signature of a participant refused");
            check(st.0 == before.0, "a refused signature changes the state");
        }
    }
    for s in &ss { s.same(&st); }
}
#[no_mangle] pub extern "C" fn c20_any() { then_any(false) }
#[no_mangle] pub extern "C" fn c20_any_sessions() { then_any(true) }

// ---- C21 -------------------------------------------------------------------------------------
struct M { allowed: BTreeSet<usize>, sessions: Vec<(u64, usize, [u8; 32], usize)>, keys: BTreeMap<(usize, usize), Key>, sets: Vec<WorkerSet>, known: Vec<bool> }
impl M {
    fn new() -> M {
        let of = |w: u64| vec![(0usize, KEYS[0], Uint256::from(w)), (1, KEYS[1], Uint256::from(3u64))];
        M { allowed: BTreeSet::new(), sessions: vec![], keys: BTreeMap::new(), sets: vec![set(&of(1), Uint256::from(2u64), 5), set(&of(2), Uint256::from(2u64), 5), set(&of(1), Uint256::from(2u64), 6)], known: vec![true, true, false] }
    }
    fn same(&self, st: &Store) {
        for (k, (id, set, msg, chain)) in self.sessions.iter().enumerate() {
            check(self.sessions[..k].iter().all(|x| x.0 != *id), "two sessions share an id");
            match SIGNING_SESSIONS.load(st, *id) {
                Ok(s) => { check(s.id.u64() == *id && s.worker_set_id == self.sets[*set].id(), "the worker set of a session changed"); check(s.msg.as_ref() == msg, "the message of a session changed"); }
                Err(_) => check(false, "a session vanished"),
            }
            let _ = chain;
            match session(st, *id) { Some(m) => check(m.state == MultisigState::Pending && m.quorum == self.sets[*set].threshold && m.signers.iter().all(|s| self.sets[*set].signers.get(s.0.address.as_str()) == Some(&s.0) && s.1.is_none()) && m.signers.len() == self.sets[*set].signers.len(), "a session changed"), None => check(false, "a session vanished") }
        }
        for (s, known) in self.sets.iter().zip(&self.known) { check(worker_set(st, &s.id()) == if *known { Some(s.clone()) } else { None }, "a registered worker set changed, or one that is not registered is reported"); }
        for who in 0..2 { for ty in 0..2 { check(public_key(st, W[who], [KeyType::Ecdsa, KeyType::Ed25519][ty]) == self.keys.get(&(who, ty)).map(|k| k.public()), "a public key changed, or one that is not registered is reported"); } }
    }
    fn try_start(&mut self, st: &mut Store, who: usize, set: usize, msg: &[u8], chain: usize) {
        let sender = if who < 2 { P[who] } else { GOV };
        let ok = self.allowed.contains(&who) && self.known[set] && msg.len() == 32;
        let r = start(st, sender, &self.sets[set].id(), msg, CHAIN[chain]);
        check(r.is_some() == ok, "a session is started without authority, worker set or well-formed message, or refused in spite of them");
        if let Some(r) = r {
            reach("started");
            let id = started(&r);
            let mut m = [0; 32];
            if msg.len() == 32 { m.copy_from_slice(msg); }
            let e = events(&r, "signing_started");
            check(e.len() == 1 && attr(e[0], "session_id").and_then(number) == Some(id) && attr(e[0], "worker_set_id") == Some(&self.sets[set].id()) && attr(e[0], "chain") == Some(CHAIN[chain]) && attr(e[0], "msg") == Some(&HexBinary::from(msg).to_hex()), "event of a session");
            self.sessions.push((id, set, m, chain));
        } else { reach("not started"); }
    }
    fn step(&mut self, st: &mut Store, ops: &[u64]) {
        let op = *pick(ops, "operation");
        let before = st.clone();
        let auth = |st: &mut Store, sender: &str, who: usize, on: bool| {
            let contract_address = Addr::unchecked(P[who]);
            ex(st, 3, sender, if on { ExecuteMsg::AuthorizeCaller { contract_address } } else { ExecuteMsg::UnauthorizeCaller { contract_address } }).is_some()
        };
        match op {
            0 | 1 => { check(auth(st, GOV, op as usize, true), "governance cannot authorize a caller"); self.allowed.insert(op as usize); }
            2 | 3 => { check(auth(st, GOV, op as usize - 2, false), "governance cannot revoke an authorization"); self.allowed.remove(&(op as usize - 2)); }
            4 | 5 => { let sender = *pick(&["anyone", P[0], SELF, REWARDS], "sender"); check(!auth(st, sender, 0, op == 4) && st.0 == before.0, "an authorization is changed by somebody else than the governance"); }
            6 => self.try_start(st, 0, 0, &MSG[0], 0),
            7 => self.try_start(st, 1, 1, &MSG[1], 1),
            8 => self.try_start(st, 0, 2, &MSG[2], 0),
            9 => self.try_start(st, 1, 0, &vec![0x11; *pick(&[31, 33, 0, 64], "length of the message")], 0),
            10 => self.try_start(st, 2, 0, &MSG[0], 1),
            11 | 12 | 13 | 14 => {
                let (who, ty) = (op as usize & 1, (op as usize - 11) / 2);
                let k = if decide("key") { Key(4 * ty + who) } else { Key(4 * ty + 2) };
                check(ex(st, 4, W[who], ExecuteMsg::RegisterPublicKey { public_key: k.public() }).is_some(), "public key refused");
                self.keys.insert((who, ty), k);
            }
            15 => { let s = self.sets[2].clone(); check(ex(st, 4, "anyone", ExecuteMsg::RegisterWorkerSet { worker_set: s }).is_some(), "worker set refused"); self.known[2] = true; }
            16 => { let s = self.sets[0].clone(); check(ex(st, 4, "anyone", ExecuteMsg::RegisterWorkerSet { worker_set: s }).is_some(), "worker set refused"); }
            17 => self.try_start(st, 1, 0, &bytes::<32>("message"), 0),
            _ => { let id = self.sessions.get(0).map_or(1, |s| s.0); check(submit(st, 5, W[2], id, &KEYS[2].sign(&MSG[0])).is_none() && st.0 == before.0, "signature of somebody else than a participant accepted"); }
        }
        self.same(st);
    }
}
fn starts(n: usize, ops: &[u64]) {
    let mut st = new_multisig(7);
    let mut m = M::new();
    for i in 0..2 { let s = m.sets[i].clone(); check(ex(&mut st, 1, "anyone", ExecuteMsg::RegisterWorkerSet { worker_set: s }).is_some(), "worker set refused"); }
    for i in 0..2 { if decide("authorized") { authorize(&mut st, P[i]); m.allowed.insert(i); } }
    for _ in 0..n { m.step(&mut st, ops); }
}
#[no_mangle] pub extern "C" fn c21_steps2() { starts(2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]) }
#[no_mangle] pub extern "C" fn c21_steps3() { starts(3, &[0, 2, 6, 7, 8, 15]) }
#[no_mangle] pub extern "C" fn c21_steps4() { starts(4, &[0, 2, 6, 7, 8, 15]) }
/// from any number of earlier sessions
#[no_mangle] pub extern "C" fn c21_fresh() {
    let mut st = new_multisig(7);
    let mut m = M::new();
    for i in 0..2 { let s = m.sets[i].clone(); ex(&mut st, 1, "anyone", ExecuteMsg::RegisterWorkerSet { worker_set: s }); }
    authorize(&mut st, P[0]);
    m.allowed.insert(0);
    m.try_start(&mut st, 0, 0, &MSG[0], 0);
    // any number of sessions between the two
    let n = any_u64("sessions so far");
    assume(n >= m.sessions[0].0 && n < u64::MAX - 2);
    SIGNING_SESSION_COUNTER.save(&mut st, &Uint64::new(n)).unwrap();
    let more = range(1, u64::MAX, "an earlier session");
    assume(more <= n);
    for _ in 0..2 {
        let r = start(&mut st, P[0], &m.sets[1].id(), &MSG[1], CHAIN[1]);
        match r { Some(r) => { let id = started(&r); check(id != more && m.sessions.iter().all(|s| s.0 != id), "a session id is used again"); m.sessions.push((id, 1, MSG[1], 1)); } None => check(false, "session refused") }
    }
    m.same(&st);
    reach("started");
}
/// worker sets that differ have different ids
#[no_mangle] pub extern "C" fn c21_sets() {
    let (w, t, x, u) = (any_u64("weight"), any_u64("threshold"), any_u64("other weight"), any_u64("other threshold"));
    let (c, k) = (choose(2, "created at"), choose(2, "key"));
    let a = set(&[(0, KEYS[0], Uint256::from(w)), (1, KEYS[1], Uint256::one())], Uint256::from(t), 5);
    let b = set(&[(0, KEYS[0], Uint256::from(x)), (1, if k == 0 { KEYS[1] } else { Key(6) }, Uint256::one())], Uint256::from(u), 5 + c);
    let same = (w == x) & (t == u) & (c == 0) & (k == 0);
    let (i, j) = (a.id(), b.id());
    let mut d = 0;
    for (x, y) in i.bytes().zip(j.bytes()) { d |= x ^ y; }
    check(i.len() == j.len() && (d == 0) == same, "two worker sets share an id");
    if same { reach("same set"); } else { reach("another set"); }
}

// ---- many signers and sessions ---------------------------------------------------------------
/// 24 signers that sign one after the other, of which one has any weight
#[no_mangle] pub extern "C" fn c19_large() {
    let n = 24;
    let mut st = new_multisig(5);
    authorize(&mut st, P[0]);
    let odd = *pick(&[0usize, 23][..], "the worker of another weight");
    let w = any_u64("weight");
    let of: Vec<_> = (0..n).map(|i| (i, Key(i % 8), if i == odd { Uint256::from(w) } else { Uint256::from(i as u64 + 1) })).collect();
    let mut s = S::open(&mut st, &of, Uint256::from(range(1, u64::MAX, "threshold")), MSG[0]);
    let reverse = decide("in reverse");
    for k in 0..n {
        let who = if reverse { n - 1 - k } else { k };
        let sig = Key(who % 8).sign(&s.msg);
        match submit(&mut st, 7, W[who], s.id, &sig) {
            Some(r) => { let c = s.accept(who, sig.clone(), 7); accepted(&r, &s, who, &sig, 7, c); if c { reach("completed"); } else { reach("not completed by this one"); } }
            None => check(false, "valid signature of a participant refused"),
        }
        if k % 8 == 7 { s.same(&st); }
    }
}
/// 24 sessions of one worker set, of which one is completed
#[no_mangle] pub extern "C" fn c21_large() {
    let n = 24;
    let mut st = new_multisig(5);
    authorize(&mut st, P[0]);
    let of: Vec<_> = (0..3).map(|i| (i, KEYS[i], Uint256::one())).collect();
    let ws = set(&of, Uint256::from(2u64), 1);
    check(ex(&mut st, 1, "anyone", ExecuteMsg::RegisterWorkerSet { worker_set: ws.clone() }).is_some(), "worker set refused");
    let mut all: Vec<S> = vec![];
    for i in 0..n {
        let m = msg(i as u8 + 1);
        let id = match start(&mut st, P[0], &ws.id(), &m, CHAIN[0]) { Some(r) => started(&r), None => { check(false, "session refused"); 0 } };
        check(all.iter().all(|s| s.id != id), "a session id is used again");
        all.push(S { id, msg: m, of: of.clone(), threshold: Uint256::from(2u64), signed: BTreeMap::new(), done: None });
    }
    let odd = choose(n as u64, "the session that is signed") as usize;
    for who in 0..2 {
        let sig = KEYS[who].sign(&all[odd].msg);
        check(submit(&mut st, 7 + who as u64, W[who], all[odd].id, &sig).is_some(), "valid signature of a participant refused");
        all[odd].accept(who, sig, 7 + who as u64);
    }
    for s in &all { s.same(&st); }
    reach("started");
}
/// worker sets of 24 that differ in one weight or in the creation time
#[no_mangle] pub extern "C" fn c21_large_sets() {
    let n = 24;
    let odd = *pick(&[0usize, 11, 22, 23][..], "worker");
    let (w, x, t, u, c, d) = (any_u64("weight"), any_u64("other weight"), any_u64("threshold"), any_u64("other threshold"), 5 + choose(2, "created at"), 5 + choose(2, "other created at"));
    let of = |w: u64| -> Vec<(usize, Key, Uint256)> { (0..n).map(|i| (i, Key(i % 8), Uint256::from(if i == odd { w } else { i as u64 + 1 }))).collect() };
    let (a, b) = (set(&of(w), Uint256::from(t), c), set(&of(x), Uint256::from(u), d));
    let same = (w == x) & (t == u) & (c == d);
    let mut diff = 0;
    for (x, y) in a.id().bytes().zip(b.id().bytes()) { diff |= x ^ y; }
    check((diff == 0) == same, "two worker sets share an id");
    if same { reach("same set"); } else { reach("another set"); }
}

/// two sessions whose ids are as close or as far apart as a narrower or overlapping storage key would need
#[no_mangle] pub extern "C" fn c19_far() {
    let k = *pick(&[0u32, 4, 7, 8, 16, 24, 31, 32, 40, 48, 56, 63][..], "distance of the ids");
    let mut st = new_multisig(1000);
    authorize(&mut st, P[0]);
    let of: Vec<_> = (0..3).map(|i| (i, Key(i), Uint256::from(1 + i as u128))).collect();
    let mut a = S::open(&mut st, &of, Uint256::from(4u128), msg(0));
    SIGNING_SESSION_COUNTER.save(&mut st, &Uint64::new(a.id + (1u64 << k) - 1)).unwrap();
    let mut b = S::open(&mut st, &of, Uint256::from(3u128), msg(1));
    check(b.id == a.id + (1u64 << k), "session id");
    let sa = choose(8, "signers of the first"); let sb = choose(8, "signers of the second");
    for i in 0..3usize {
        for (s, m) in [(&mut a, sa), (&mut b, sb)] {
            if m >> i & 1 == 1 {
                let sig = Key(i).sign(&s.msg);
                let h = 3 + i as u64;
                match submit(&mut st, h, W[i], s.id, &sig) {
                    Some(r) => { let c = s.accept(i, sig.clone(), h); accepted(&r, s, i, &sig, h, c); }
                    None => check(false, "a valid signature is refused"),
                }
            }
        }
        a.same(&st); b.same(&st);
    }
    reach("signed");
    if a.done.is_some() && b.done.is_none() { reach("one completed"); }
}

// ---- keys and signatures by themselves -------------------------------------------------------
const LENGTHS: [usize; 14] = [0, 1, 31, 32, 33, 34, 48, 63, 64, 65, 66, 97, 128, 320];
/// that many bytes, of which the first, middle and last one are arbitrary
fn some_bytes(n: usize) -> Vec<u8> {
    let mut b = vec![0x5a; n];
    for (i, what) in [(0, "first byte"), (n / 2, "middle byte"), (n.wrapping_sub(1), "last byte")] { if i < n { b[i] = any_u8(what); } }
    b
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut d = 0u8; for i in 0..a.len() { d |= a[i] ^ b[i]; } d == 0 }
fn ty(k: u64) -> KeyType { if k == 0 { KeyType::Ecdsa } else { KeyType::Ed25519 } }
#[no_mangle] pub extern "C" fn c36_key() {
    #[derive(serde::Serialize)]
    #[serde(rename_all = "snake_case")]
    enum Loose { Ecdsa(HexBinary), Ed25519(HexBinary) }
    let (k, n) = (choose(2, "key type"), *pick(&LENGTHS[..], "length"));
    let b = some_bytes(n);
    let good = if k == 0 { n == 33 || n == 65 } else { n == 32 };
    let key = PublicKey::try_from((ty(k), HexBinary::from(b.clone()))).ok();
    check(key.is_some() == good, "a public key of another length is accepted, or a good one refused");
    let t = to_vec(&if k == 0 { Loose::Ecdsa(HexBinary::from(b.clone())) } else { Loose::Ed25519(HexBinary::from(b.clone())) }).unwrap();
    let read = from_slice::<PublicKey>(&t).ok();
    check(read.is_some() == good, "a public key of another length is read from a message, or a good one refused");
    match (key, read) {
        (Some(a), Some(c)) => {
            use multisig::key::KeyTyped;
            for x in [&a, &c] { check(same_bytes(x.as_ref(), &b) && x.key_type() == ty(k), "a public key is not the one given"); check(same_bytes(HexBinary::from(x.clone()).as_slice(), &b), "a public key is not the one given"); }
            check(from_slice::<PublicKey>(&to_vec(&a).unwrap()).map_or(false, |d| d.key_type() == ty(k) && same_bytes(d.as_ref(), &b)), "a serialized public key does not read back");
            reach("accepted");
        }
        _ => reach("refused"),
    }
}
#[no_mangle] pub extern "C" fn c36_signature() {
    use multisig::key::{KeyTyped, Signature};
    let (k, n) = (choose(2, "key type"), *pick(&LENGTHS[..], "length"));
    let b = some_bytes(n);
    let good = if k == 0 { n == 64 || n == 65 } else { n == 64 };
    match Signature::try_from((ty(k), HexBinary::from(b.clone()))) {
        Ok(s) => {
            check(good, "a signature of another length is accepted");
            check(s.key_type() == ty(k) && same_bytes(s.as_ref(), &b), "a signature is not the one given");
            check(matches!((&s, k, n), (Signature::Ecdsa(_), 0, 64) | (Signature::EcdsaRecoverable(_), 0, 65) | (Signature::Ed25519(_), 1, 64)), "a signature is of another kind than its length says");
            check(from_slice::<Signature>(&to_vec(&s).unwrap()).map_or(false, |r| r == s), "a serialized signature does not read back");
            reach("accepted");
        }
        Err(_) => { check(!good, "a good signature is refused"); reach("refused"); }
    }
}
/// a signature never verifies under a key of another type, and under one of its type exactly when it is that key's for that message
#[no_mangle] pub extern "C" fn c36_verify() {
    use multisig::key::Signature;
    let keys = [Key(0), Key(1), Key(4), Key(5)];
    let (a, b) = (keys[choose(4, "signing key") as usize], keys[choose(4, "verifying key") as usize]);
    let (m, n) = (choose(2, "signed message") as u8, choose(2, "verified message") as u8);
    let s = Signature::try_from((a.ty(), HexBinary::from(a.sign(&msg(m))))).unwrap();
    let ok = matches!(s.verify(&multisig::types::MsgToSign::unchecked(HexBinary::from(msg(n).to_vec())), &b.public()), Ok(true));
    check(ok == (a == b && m == n), "a signature verifies that is not the key's for the message, or a good one does not");
    if ok { reach("valid") } else { reach("invalid") }
}
/// keys are returned for the worker and type they were registered for
#[no_mangle] pub extern "C" fn c36_registered() {
    let who = ["workerone", "workeronf", "workerone1"];
    let mut st = new_multisig(10);
    let mut known: BTreeMap<(usize, u64), Vec<u8>> = BTreeMap::new();
    for _ in 0..3 {
        let (w, k) = (choose(3, "worker") as usize, choose(2, "key type"));
        let b = some_bytes(if k == 1 { 32 } else { *pick(&[33usize, 65][..], "length") });
        let key = PublicKey::try_from((ty(k), HexBinary::from(b.clone()))).unwrap();
        if let Some(old) = known.get(&(w, k)) { if !same_bytes(old, &b) { reach("replaced"); } }
        check(ex(&mut st, 1, who[w], ExecuteMsg::RegisterPublicKey { public_key: key }).is_some(), "a good public key is refused");
        known.insert((w, k), b);
        for w in 0..3 { for k in 0..2 {
            use multisig::key::KeyTyped;
            match (public_key(&st, who[w], ty(k)), known.get(&(w, k))) {
                (Some(a), Some(b)) => check(a.key_type() == ty(k) && same_bytes(a.as_ref(), b), "another key is returned than the worker's own"),
                (None, None) => (),
                (Some(_), None) => check(false, "a key is returned that was not registered"),
                (None, Some(_)) => check(false, "a registered key is not returned"),
            }
        } }
    }
    reach("registered");
}

entries! { c36_key, c36_signature, c36_verify, c36_registered, c19_far, c19_orders2, c19_orders3, c19_orders4, c19_large, c21_large, c21_large_sets, c20_any, c20_any_sessions, c21_steps2, c21_steps3, c21_steps4, c21_fresh, c21_sets }
