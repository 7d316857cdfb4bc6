//! Harnesses over contracts/multisig-prover.
use axelar_wasm_std::operators::Operators;
use axelar_wasm_std::Threshold;
use connection_router::state::{CrossChainId, Message};
use cosmwasm_std::*;
use ethabi::{ParamType, Token};
use multisig::key::{KeyType, PublicKey, Signature};
use multisig::msg::{Multisig, Signer};
use multisig::types::MultisigState;
use multisig::worker_set::WorkerSet;
use multisig_prover::contract as pv;
use multisig_prover::encoding::{make_operators, CommandBatchBuilder, Data, Encoder};
use multisig_prover::msg::{ExecuteMsg, GetProofResponse, InstantiateMsg, ProofStatus, QueryMsg};
use multisig_prover::state::{COMMANDS_BATCH, MULTISIG_SESSION_BATCH};
use multisig_prover::types::{BatchId, Command, CommandBatch, CommandType};
use service_registry::state::{AuthorizationState, BondingState, Worker};
use sha3::{Digest, Keccak256};
use std::cell::RefCell;
use vxlib::*;

const SELF: &str = "prover";
const ADMIN: &str = "admin";
const GATEWAY: &str = "gateway";
const MULTISIG: &str = "multisig";
const REGISTRY: &str = "registry";
const VERIFIER: &str = "verifier";
const SERVICE: &str = "validators";
const CHAIN: &str = "omega";
const W: [&str; 26] = ["workerone", "workertwo", "workerthree", "workerfour", "workera", "workerb", "workerc", "workerd", "workere", "workerf", "workerg", "workerh", "workeri", "workerj", "workerk", "workerl", "workerm", "workern", "workero", "workerp", "workerq", "workerr", "workers", "workert", "workeru", "workerv"];

// ---- keys ----------------------------------------------------------------------------------
/// the private keys are [n + 1; 32]
const EC: [&str; 4] = [
    "031b84c5567b126440995d3ed5aaba0565d71e1834604819ff9c17f5e9d5dd078f",
    "024d4b6cd1361032ca9bd2aeb9d900aa4d45d9ead80ac9423374c451a7254d0766",
    "02531fe6068134503d2723133227c867ac8fa6c83c537e9a44c3c5bdbdcb1fe337",
    "03462779ad4aad39514614751a71085f2f10e1c7a593e4e030efb5b8721ce55b0b",
];
const ED: [&str; 4] = [
    "6e7a1cdd29b0b78fd13af4c5598feff4ef2a97166e3ca6f2e4fbfccd80505bf1",
    "8a875fff1eb38451577acd5afee405456568dd7c89e090863a0557bc7af49f17",
    "ea4a6c63e29c520abef5507b132ec5f9954776aebebe7b92421eea691446d22c",
    "1398f62c6d1a457c51ba6a4b5f3dbd2f69fca93216218dc8997e416bd17d93ca",
];
/// the accounts of the ecdsa keys on an EVM chain
const EVM: [&str; 4] = [
    "1a642f0e3c3af545e7acbd38b07251b3990914f1",
    "5050a4f4b3f9338c3472dcc01a87c76a144b3c9c",
    "3325a78425f17a7e487eb5666b2bfd93abb06c70",
    "c48b812bb43401392c037381aca934f4069c0517",
];
fn unhex(s: &str) -> Vec<u8> { let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 }; s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect() }
fn key(ty: KeyType, n: usize) -> PublicKey { PublicKey::try_from((ty, HexBinary::from(match ty { KeyType::Ecdsa => unhex(EC[n]), KeyType::Ed25519 => ed(n) }))).unwrap() }
/// beyond the first four, any bytes will do: nothing is verified with them here
fn ed(n: usize) -> Vec<u8> { if n < 4 { unhex(ED[n]) } else { let mut k = vec![(n * 37 % 256) as u8; 32]; k[31] = n as u8; k } }
fn keys(e: Encoder) -> std::ops::Range<usize> { match e { Encoder::Abi => 0..4, Encoder::Bcs => 0..30 } }
fn keccak(b: &[u8]) -> Vec<u8> { Keccak256::digest(b).to_vec() }


fn key_type(e: Encoder) -> KeyType { match e { Encoder::Abi => KeyType::Ecdsa, Encoder::Bcs => KeyType::Ed25519 } }
/// what the external gateway of the encoding knows an operator by
fn account(e: Encoder, n: usize) -> Vec<u8> { match e { Encoder::Abi => unhex(EVM[n]), Encoder::Bcs => ed(n) } }
fn worker_set(e: Encoder, of: &[(usize, usize, Uint256)], threshold: Uint256, created_at: u64) -> WorkerSet {
    WorkerSet { signers: of.iter().map(|(i, k, w)| (W[*i].to_string(), Signer { address: Addr::unchecked(W[*i]), weight: *w, pub_key: key(key_type(e), *k) })).collect(), threshold, created_at }
}

// ---- reading the encodings -------------------------------------------------------------------
fn u256(t: &Token) -> Uint256 { match t { Token::Uint(u) => { let mut b = [0u8; 32]; u.to_big_endian(&mut b); Uint256::from_be_bytes(b) } _ => bad() } }
fn blob(t: &Token) -> Vec<u8> { match t { Token::Bytes(b) | Token::FixedBytes(b) => b.clone(), Token::Address(a) => a.as_bytes().to_vec(), Token::String(s) => s.as_bytes().to_vec(), _ => bad() } }
fn list(t: &Token) -> &Vec<Token> { match t { Token::Array(v) => v, _ => bad() } }
fn bad() -> ! { check(false, "an encoding does not decode"); panic!() }
fn arr(t: ParamType) -> ParamType { ParamType::Array(Box::new(t)) }
fn abi(ty: &[ParamType], b: &[u8]) -> Vec<Token> { match ethabi::decode(ty, b) { Ok(t) => t, Err(_) => bad() } }
fn from_bcs<T: serde::de::DeserializeOwned>(b: &[u8]) -> T { match bcs::from_bytes(b) { Ok(t) => t, Err(_) => bad() } }

/// operators, weights and threshold of transfer-operatorship parameters
fn read_set(e: Encoder, b: &[u8]) -> (Vec<Vec<u8>>, Vec<Uint256>, Uint256) {
    match e {
        Encoder::Abi => { let t = abi(&[arr(ParamType::Address), arr(ParamType::Uint(256)), ParamType::Uint(256)], b); (list(&t[0]).iter().map(blob).collect(), list(&t[1]).iter().map(u256).collect(), u256(&t[2])) }
        Encoder::Bcs => { let (a, w, q): (Vec<Vec<u8>>, Vec<u128>, u128) = from_bcs(b); (a, w.into_iter().map(Uint256::from).collect(), Uint256::from(q)) }
    }
}
/// operators, weights, threshold and signatures of a proof
fn read_proof(e: Encoder, b: &[u8]) -> (Vec<Vec<u8>>, Vec<Uint256>, Uint256, Vec<Vec<u8>>) {
    match e {
        Encoder::Abi => {
            let t = abi(&[arr(ParamType::Address), arr(ParamType::Uint(256)), ParamType::Uint(256), arr(ParamType::Bytes)], b);
            (list(&t[0]).iter().map(blob).collect(), list(&t[1]).iter().map(u256).collect(), u256(&t[2]), list(&t[3]).iter().map(blob).collect())
        }
        Encoder::Bcs => { let (a, w, q, s): (Vec<Vec<u8>>, Vec<u128>, u128, Vec<Vec<u8>>) = from_bcs(b); (a, w.into_iter().map(Uint256::from).collect(), Uint256::from(q), s) }
    }
}
/// command data and proof of what is sent to the external gateway
fn read_execute(e: Encoder, b: &[u8]) -> (Vec<u8>, Vec<u8>) {
    match e {
        Encoder::Abi => {
            check(b.len() > 4 && b[..4] == keccak(b"execute(bytes)")[..4], "execute data is not a call of execute(bytes)");
            let t = abi(&[ParamType::Bytes], &b[4..]);
            let t = abi(&[ParamType::Bytes, ParamType::Bytes], &blob(&t[0]));
            (blob(&t[0]), blob(&t[1]))
        }
        Encoder::Bcs => from_bcs(b),
    }
}
/// chain id and commands (id, type, parameters)
fn read_data(e: Encoder, b: &[u8]) -> (Uint256, Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>) {
    let (c, ids, tys, ps): (Uint256, Vec<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<u8>>) = match e {
        Encoder::Abi => {
            let t = abi(&[ParamType::Uint(256), arr(ParamType::FixedBytes(32)), arr(ParamType::String), arr(ParamType::Bytes)], b);
            (u256(&t[0]), list(&t[1]).iter().map(blob).collect(), list(&t[2]).iter().map(blob).collect(), list(&t[3]).iter().map(blob).collect())
        }
        Encoder::Bcs => { let (c, i, t, p): (u64, Vec<[u8; 32]>, Vec<String>, Vec<Vec<u8>>) = from_bcs(b); (Uint256::from(c), i.iter().map(|x| x.to_vec()).collect(), t.into_iter().map(String::into_bytes).collect(), p) }
    };
    check(ids.len() == tys.len() && tys.len() == ps.len(), "the encoded commands lack ids, types or parameters");
    (c, ids.into_iter().zip(tys).zip(ps).map(|((a, b), c)| (a, b, c)).collect())
}
/// source chain, source address, destination address and payload hash of approval parameters
fn read_approval(e: Encoder, b: &[u8]) -> (Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>) {
    match e {
        Encoder::Abi => { let t = abi(&[ParamType::String, ParamType::String, ParamType::Address, ParamType::FixedBytes(32)], b); (blob(&t[0]), blob(&t[1]), blob(&t[2]), blob(&t[3])) }
        Encoder::Bcs => { let (a, b, c, d): (String, String, [u8; 32], Vec<u8>) = from_bcs(b); (a.into_bytes(), b.into_bytes(), c.to_vec(), d) }
    }
}
/// the digest that has to be signed for encoded commands
fn digest_of(e: Encoder, data: &[u8]) -> Vec<u8> {
    match e {
        Encoder::Abi => keccak(&[&b"\x19Ethereum Signed Message:\n32"[..], &keccak(data)[..]].concat()),
        Encoder::Bcs => keccak(&[&b"\x19Sui Signed Message:\n"[..], data].concat()),
    }
}
fn ty(c: &CommandType) -> &'static [u8] { match c { CommandType::ApproveContractCall => b"approveContractCall", CommandType::TransferOperatorship => b"transferOperatorship" } }
/// the encoded commands are these ones
fn same_data(e: Encoder, b: &[u8], d: &Data) {
    let (c, cs) = read_data(e, b);
    check(c == d.destination_chain_id, "another chain id is encoded");
    check(cs.len() == d.commands.len(), "another number of commands is encoded");
    for (x, y) in cs.iter().zip(&d.commands) { check((x.0 == y.id.as_slice()) & (x.1 == ty(&y.ty)) & (x.2 == y.params.as_slice()), "another command is encoded"); }
}

// ---- the contracts around the prover -----------------------------------------------------------
const SRC: [&str; 2] = ["alpha", "beta"];
fn dest(e: Encoder) -> &'static str { match e { Encoder::Abi => "0x00112233445566778899aabbccddeeff01020304", Encoder::Bcs => "0x00112233445566778899aabbccddeeff0102030405060708090a0b0c0d0e0f10" } }
fn id(chain: &str, i: &str) -> CrossChainId { CrossChainId { chain: chain.parse().unwrap(), id: i.parse().unwrap() } }
fn message(e: Encoder, chain: &str, i: &str, source: &str, to: &str, hash: [u8; 32]) -> Message {
    Message { cc_id: id(chain, i), source_address: source.parse().unwrap(), destination_chain: to.parse().unwrap(), destination_address: dest(e).parse().unwrap(), payload_hash: hash }
}
#[derive(Clone, Copy, PartialEq)]
enum Fault { None, Short, Extra, Refused }
struct World {
    e: Encoder,
    /// worker, key
    active: Vec<(usize, usize)>,
    messages: Vec<Message>,
    fault: Fault,
    verified: bool,
    asked: RefCell<Vec<Operators>>,
    session: RefCell<Option<Multisig>>,
}
impl World {
    fn new(e: Encoder) -> World { World { e, active: vec![], messages: vec![], fault: Fault::None, verified: false, asked: RefCell::new(vec![]), session: RefCell::new(None) } }
    fn answer(&self, to: &str, m: &Binary) -> StdResult<Binary> {
        match to {
            REGISTRY => match from_binary(m)? {
                service_registry::msg::QueryMsg::GetActiveWorkers { service_name, chain_name } => {
                    check(service_name == SERVICE && chain_name == CHAIN.parse::<connection_router::state::ChainName>().unwrap(), "workers of another service or chain are used");
                    to_binary(&self.active.iter().map(|(i, _)| Worker { address: Addr::unchecked(W[*i]), bonding_state: BondingState::Bonded { amount: Uint128::from(100u128 + *i as u128) }, authorization_state: AuthorizationState::Authorized, service_name: SERVICE.into() }).collect::<Vec<_>>())
                }
                _ => Err(StdError::generic_err("unexpected query")),
            },
            MULTISIG => match from_binary(m)? {
                multisig::msg::QueryMsg::GetPublicKey { worker_address, key_type: t } => match self.active.iter().find(|(i, _)| W[*i] == worker_address) {
                    Some((_, k)) if t == key_type(self.e) => to_binary(&key(t, *k)),
                    _ => Err(StdError::not_found("key")),
                },
                multisig::msg::QueryMsg::GetMultisig { .. } => match &*self.session.borrow() { Some(s) => to_binary(s), None => Err(StdError::not_found("session")) },
                _ => Err(StdError::generic_err("unexpected query")),
            },
            GATEWAY => match from_binary(m)? {
                gateway::msg::QueryMsg::GetMessages { message_ids } => {
                    if self.fault == Fault::Refused { return Err(StdError::not_found("message")); }
                    let mut v = vec![];
                    for i in message_ids { match self.messages.iter().find(|m| m.cc_id == i) { Some(m) => v.push(m.clone()), None => return Err(StdError::not_found("message")) } }
                    if self.fault == Fault::Short { v.pop(); }
                    if self.fault == Fault::Extra { v.push(self.messages[0].clone()); }
                    to_binary(&v)
                }
                _ => Err(StdError::generic_err("unexpected query")),
            },
            VERIFIER => match from_binary(m)? {
                voting_verifier::msg::QueryMsg::IsWorkerSetVerified { new_operators } => { self.asked.borrow_mut().push(new_operators); to_binary(&self.verified) }
                _ => Err(StdError::generic_err("unexpected query")),
            },
            _ => Err(StdError::generic_err("no such contract")),
        }
    }
    fn ex(&self, st: &mut Store, height: u64, sender: &str, m: ExecuteMsg) -> Option<Response> { tx(st, &|c, m| self.answer(c, m), |d| pv::execute(d, env(height, 1, SELF), info(sender), m)) }
    fn proof(&self, st: &Store, session: u64) -> Option<GetProofResponse> { ask(st, &|c, m| self.answer(c, m), |d| pv::query(d, env(1, 1, SELF), QueryMsg::GetProof { multisig_session_id: session.into() })) }
    fn current(&self, st: &Store) -> Option<WorkerSet> { ask(st, &|c, m| self.answer(c, m), |d| pv::query(d, env(1, 1, SELF), QueryMsg::GetWorkerSet {})) }
    /// the multisig opened a session for the request just made
    fn opened(&self, st: &mut Store, session: u64) -> Option<Response> {
        let mut data = vec![0x0au8];
        let json = to_binary(&Uint64::from(session)).unwrap();
        data.push(json.len() as u8);
        data.extend_from_slice(json.as_slice());
        let r = Reply { id: pv::START_MULTISIG_REPLY_ID, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(Binary(data)) }) };
        tx(st, &|c, m| self.answer(c, m), |d| pv::reply(d, env(1, 1, SELF), r))
    }
}
const SIGNING: (u64, u64) = (2, 3);
fn new_prover(e: Encoder, chain_id: Uint256, max_diff: u32) -> Store {
    let mut st = Store::new();
    let m = InstantiateMsg {
        admin_address: ADMIN.into(), gateway_address: GATEWAY.into(), multisig_address: MULTISIG.into(), service_registry_address: REGISTRY.into(), voting_verifier_address: VERIFIER.into(),
        destination_chain_id: chain_id, signing_threshold: Threshold::try_from(SIGNING).unwrap().try_into().unwrap(), service_name: SERVICE.into(), chain_name: CHAIN.into(),
        worker_set_diff_threshold: max_diff, encoder: e, key_type: key_type(e),
    };
    check(tx(&mut st, &no_query, |d| pv::instantiate(d, env(1, 1, SELF), info("creator"), m)).is_some(), "instantiation refused");
    st
}
fn encoder() -> Encoder { if decide("encoding") { Encoder::Bcs } else { Encoder::Abi } }
/// (worker set id, digest) that the multisig is asked to sign
fn sign_request(r: &Response) -> (String, Vec<u8>) {
    check(r.messages.len() == 1, "not exactly one message");
    check(r.messages[0].id == pv::START_MULTISIG_REPLY_ID && matches!(r.messages[0].reply_on, ReplyOn::Success | ReplyOn::Always), "the answer of the multisig would be lost");
    match &wasm_msgs(r)[..] {
        [(to, m)] => match from_binary(m) {
            Ok(multisig::msg::ExecuteMsg::StartSigningSession { worker_set_id, msg, chain_name, .. }) => {
                check(to == MULTISIG && chain_name == CHAIN.parse::<connection_router::state::ChainName>().unwrap(), "signing is requested from or for something else");
                (worker_set_id, msg.to_vec())
            }
            _ => bad(),
        },
        _ => bad(),
    }
}

// ---- C22 ---------------------------------------------------------------------------------------
fn one_batch(e: Encoder, st: &mut Store) -> CommandBatch {
    let mut b = CommandBatchBuilder::new(Uint256::from(5u8), e);
    b.add_message(message(e, "alpha", "0xaa-0", "0xsource", CHAIN, [7; 32])).unwrap();
    let b = b.build().unwrap();
    COMMANDS_BATCH.save(st, &b.id, &b).unwrap();
    MULTISIG_SESSION_BATCH.save(st, 9, &b.id).unwrap();
    b
}
const ORDERS: [[usize; 3]; 3] = [[0, 1, 2], [3, 1, 0], [2, 0, 3]];
/// the proof made of a finished session with these keys, weights and (maybe) signatures
fn judge(e: Encoder, w: &World, st: &Store, b: &CommandBatch, of: &[(usize, Uint256, Option<Signature>)], quorum: Uint256, own: &dyn Fn(usize, &[u8]) -> bool) -> bool {
    let r = match w.proof(st, 9) { Some(r) => r, None => return false };
    check(r.multisig_session_id == Uint64::from(9u64) && r.data == b.data && r.message_ids == b.message_ids, "another batch is reported for the session");
    let x = match r.status { ProofStatus::Completed { execute_data } => execute_data, _ => { check(false, "a finished session gives no proof"); return true } };
    let (data, proof) = read_execute(e, &x);
    same_data(e, &data, &b.data);
    let (accounts, weights, q, sigs) = read_proof(e, &proof);
    check(q == quorum, "another threshold is encoded");
    check(accounts.len() == of.len() && weights.len() == of.len(), "not all operators are in the proof");
    check(accounts.windows(2).all(|x| x[0] < x[1]), "operators are not in ascending order");
    let mut order = vec![];
    for (a, w) in accounts.iter().zip(&weights) {
        match of.iter().position(|x| &account(e, x.0) == a) { Some(i) => { check(of[i].1 == *w, "another weight is encoded"); order.push(i); } None => check(false, "an operator that is not in the worker set") }
    }
    // signatures follow the order of their operators
    let mut at = 0;
    let (mut sum, mut least) = (Uint256::zero(), Uint256::MAX);
    for s in &sigs {
        while at < order.len() && !(of[order[at]].2.is_some() && own(order[at], s)) { at += 1; }
        check(at < order.len(), "a signature that is not one the multisig accepted, or in the wrong place");
        if at == order.len() { break; }
        let wt = of[order[at]].1;
        sum += wt;
        if wt < least { least = wt; }
        at += 1;
    }
    check(!sigs.is_empty() && sum >= quorum, "the signatures do not reach the threshold");
    check(sigs.is_empty() || sum - least < quorum, "more signatures than needed");
    true
}
fn finished(e: Encoder, of: &[(usize, Uint256, Option<Signature>)], quorum: Uint256) -> Multisig {
    Multisig { state: MultisigState::Completed { completed_at: 3 }, quorum, signers: of.iter().enumerate().map(|(i, (k, w, s))| (Signer { address: Addr::unchecked(W[i]), weight: *w, pub_key: key(key_type(e), *k) }, s.clone())).collect() }
}
/// any weights and threshold, any subset of signers: the proof of a finished session, in both encodings
fn c22_proof(e: Encoder, wide: bool) {
    let mut st = new_prover(e, Uint256::from(5u8), 0);
    let b = one_batch(e, &mut st);
    let w = World::new(e);
    let order = pick(&ORDERS, "keys");
    let mut of = vec![];
    let mut total = Uint256::zero();
    for i in 0..3 {
        let wt = if wide { let x = any_u256("weight"); assume(x < Uint256::from_be_bytes([0x3f; 32])); x } else { Uint256::from(any_u64("weight")) };
        let signed = decide("signed");
        let mut s = vec![9u8; if e == Encoder::Abi { 65 } else { 64 }];
        let body: [u8; 8] = bytes("signature");
        s[8..16].copy_from_slice(&body);
        s[0] = i as u8 + 1;
        let s = Signature::try_from((key_type(e), HexBinary::from(s))).unwrap();
        if signed { total += wt; }
        of.push((order[i], wt, if signed { Some(s) } else { None }));
    }
    let quorum = if wide { any_u256("quorum") } else { Uint256::from(any_u64("quorum")) };
    assume((total >= quorum) & !quorum.is_zero());
    *w.session.borrow_mut() = Some(finished(e, &of, quorum));
    let of2 = of.clone();
    let made = judge(e, &w, &st, &b, &of, quorum, &|i, s| match &of2[i].2 { Some(x) => { let x = x.as_ref(); x[0] == s[0] && x == s } None => false });
    let max = Uint256::from(u128::MAX);
    let fits = e == Encoder::Abi || ((of[0].1 <= max) & (of[1].1 <= max) & (of[2].1 <= max) & (quorum <= max));
    check(made == fits, "a proof is refused although all values fit, or made although they do not");
    if made { reach("proof"); if of.iter().filter(|x| x.2.is_some()).count() == 3 { reach("all signed"); } } else { reach("too wide"); }
}
#[no_mangle] pub extern "C" fn c22_abi() { c22_proof(Encoder::Abi, true) }
#[no_mangle] pub extern "C" fn c22_bcs() { c22_proof(Encoder::Bcs, false) }
#[no_mangle] pub extern "C" fn c22_bcs_wide() { c22_proof(Encoder::Bcs, true) }

/// ecdsa signatures as workers submit them (without recovery byte): each proof signature recovers to its own operator
#[no_mangle] pub extern "C" fn c22_ecdsa() {
    use k256::ecdsa::signature::hazmat::PrehashSigner;
    let e = Encoder::Abi;
    let mut st = new_prover(e, Uint256::from(5u8), 0);
    let b = one_batch(e, &mut st);
    let w = World::new(e);
    let digest = digest_of(e, &b.data.encode(e));
    check(b.msg_digest().as_slice() == &digest[..], "another digest is signed");
    let first = choose(3, "key") as usize;
    let mut of = vec![];
    for i in 0..2 {
        let k = first + i;
        let s: k256::ecdsa::Signature = k256::ecdsa::SigningKey::from_slice(&[k as u8 + 1; 32]).unwrap().sign_prehash(&digest).unwrap();
        of.push((k, Uint256::from(any_u64("weight")), Some(Signature::try_from((KeyType::Ecdsa, HexBinary::from(s.to_vec()))).unwrap())));
    }
    let quorum = Uint256::from(any_u64("quorum"));
    assume((of[0].1 + of[1].1 >= quorum) & !quorum.is_zero());
    *w.session.borrow_mut() = Some(finished(e, &of, quorum));
    let made = judge(e, &w, &st, &b, &of, quorum, &|i, s| {
        if s.len() != 65 || (s[64] != 27 && s[64] != 28) || &s[..64] != of[i].2.as_ref().unwrap().as_ref() { return false; }
        let r = k256::ecdsa::VerifyingKey::recover_from_prehash(&digest, &k256::ecdsa::Signature::from_slice(&s[..64]).unwrap(), k256::ecdsa::RecoveryId::from_byte(s[64] - 27).unwrap());
        matches!(r, Ok(k) if k.to_encoded_point(true).as_bytes() == &unhex(EC[of[i].0])[..])
    });
    check(made, "no proof for a finished session");
    reach("proof");
}
/// no proof for an unfinished session, for another session, or from a batch of another encoding
#[no_mangle] pub extern "C" fn c22_pending() {
    let e = encoder();
    let mut st = new_prover(e, Uint256::from(5u8), 0);
    let b = one_batch(e, &mut st);
    let w = World::new(e);
    let sig = |i: u8| { let mut s = vec![9u8; if e == Encoder::Abi { 65 } else { 64 }]; s[0] = i; Signature::try_from((key_type(e), HexBinary::from(s))).unwrap() };
    let of: Vec<_> = (0..2).map(|i| (i, Uint256::from(any_u64("weight")), if decide("signed") { Some(sig(i as u8)) } else { None })).collect();
    let mut m = finished(e, &of, Uint256::from(any_u64("quorum")));
    m.state = MultisigState::Pending;
    *w.session.borrow_mut() = Some(m);
    match w.proof(&st, 9) {
        Some(r) => { check(r.status == ProofStatus::Pending, "an unfinished session gives a proof"); check(r.data == b.data && r.message_ids == b.message_ids, "another batch is reported for the session"); reach("pending"); }
        None => check(false, "an unfinished session cannot be queried"),
    }
    let other = any_u64("session");
    assume(other != 9);
    check(w.proof(&st, other).is_none(), "a proof for a session that was never opened");
}

// ---- C25 ---------------------------------------------------------------------------------------
/// operators, weights and threshold of a rotation, as commanded and as asked of the verifier
#[no_mangle] pub extern "C" fn c25_set() {
    let e = encoder();
    let order = pick(&ORDERS, "keys");
    let n = 1 + choose(3, "workers") as usize;
    let of: Vec<(usize, usize, Uint256)> = (0..n).map(|i| (i, order[i], any_u256("weight"))).collect();
    let ws = worker_set(e, &of, any_u256("threshold"), 4);
    let max = Uint256::from(u128::MAX);
    let mut fits = ws.threshold <= max;
    for x in &of { fits &= x.2 <= max; }
    let fits = (e == Encoder::Abi) | fits;
    let made = attempt(|| {
        let mut b = CommandBatchBuilder::new(Uint256::from(5u8), e);
        match b.add_new_worker_set(ws.clone()) { Ok(()) => b.build().ok(), Err(_) => None }
    }).flatten();
    check(made.is_some() == fits, "a worker set is refused although its values fit, or encoded although they do not");
    let of_key = |a: &[u8]| of.iter().find(|x| account(e, x.1) == a);
    if let Some(b) = made {
        check(b.data.commands.len() == 1 && b.data.commands[0].ty == CommandType::TransferOperatorship, "not one transfer command");
        let (accounts, weights, q) = read_set(e, &b.data.commands[0].params);
        check(q == ws.threshold, "another threshold is encoded");
        check(accounts.len() == n && weights.len() == n, "operators are missing or added");
        check(accounts.windows(2).all(|x| x[0] < x[1]), "operators are not in ascending order");
        for (a, w) in accounts.iter().zip(&weights) { match of_key(a) { Some(x) => check(x.2 == *w, "another weight is encoded"), None => check(false, "an operator that is not in the worker set") } }
        reach("encoded");
    } else { reach("too wide"); }
    let want = Operators::new(of.iter().map(|x| (HexBinary::from(account(e, x.1)), x.2)).collect(), ws.threshold);
    check(make_operators(ws, e) == want, "the verifier is asked about other operators");
}
/// command data with any ids, types, parameter bytes and chain id decodes to the same values, or is refused; and the digest is of that encoding
fn some_data(lens: &[u64]) -> Data {
    let n = choose(3, "commands");
    let commands = (0..n).map(|_| {
        let k = *pick(lens, "length") as usize;
        let body: [u8; 40] = bytes("params");
        let i: [u8; 32] = bytes("id");
        Command { id: HexBinary::from(&i[..]), ty: if decide("transfer") { CommandType::TransferOperatorship } else { CommandType::ApproveContractCall }, params: HexBinary::from(&body[..k]) }
    }).collect();
    Data { destination_chain_id: any_u256("chain id"), commands }
}
fn batch_of(e: Encoder, data: Data) -> CommandBatch { CommandBatch { id: BatchId::from(&[1u8][..]), message_ids: vec![], data, encoder: e } }
#[no_mangle] pub extern "C" fn c25_data() {
    let e = encoder();
    let d = some_data(&[0, 1, 32, 40]);
    let fits = (e == Encoder::Abi) | (d.destination_chain_id <= Uint256::from(u64::MAX));
    let b = batch_of(e, d);
    match attempt(|| (b.data.encode(e), b.msg_digest())) {
        Some((x, h)) => {
            check(fits, "a chain id that does not fit is encoded");
            same_data(e, &x, &b.data);
            check(h.as_slice() == &digest_of(e, &x)[..], "the digest to be signed is not that of the encoded commands");
            reach("encoded");
        }
        None => { check(!fits, "commands are refused although their values fit"); reach("too wide"); }
    }
}
/// two batches that differ in anything have different digests
#[no_mangle] pub extern "C" fn c25_digest() {
    let e = encoder();
    let (mut a, mut b) = (some_data(&[1, 33]), some_data(&[1, 33]));
    if e == Encoder::Bcs { a.destination_chain_id = Uint256::from(any_u64("chain")); b.destination_chain_id = Uint256::from(any_u64("chain")); }
    let mut same = (a.destination_chain_id == b.destination_chain_id) & (a.commands.len() == b.commands.len());
    for (x, y) in a.commands.iter().zip(&b.commands) { same &= (x.id == y.id) & (x.ty == y.ty) & (x.params == y.params); }
    let (x, y) = (batch_of(e, a).msg_digest(), batch_of(e, b).msg_digest());
    check((x == y) == same, "two different batches are signed under one digest, or one batch under two");
    reach("compared");
}
/// the parameters of an approval decode to the message; an address that does not fit the format is refused
#[no_mangle] pub extern "C" fn c25_approval() {
    let e = encoder();
    let n = 1 + choose(3, "source length") as usize;
    let src: String = (0..n).map(|_| range(0x20, 0x7e, "source") as u8 as char).collect();
    let hash: [u8; 32] = bytes("payload hash");
    let chain = *pick(&["alpha", "a"], "chain");
    let good = match e {
        Encoder::Abi => ["0x00112233445566778899aabbccddeeff01020304", "00112233445566778899AABBCCDDEEFF01020304"],
        Encoder::Bcs => ["0x00112233445566778899aabbccddeeff0102030405060708090a0b0c0d0e0f10", "00112233445566778899AABBCCDDEEFF0102030405060708090A0B0C0D0E0F10"],
    };
    let wrong = ["0x001122", "hello", "0x00112233445566778899aabbccddeeff0102030405", "0x00112233445566778899aabbccddeeff0102030405060708090a0b0c0d0e0fg0", "00112233445566778899aabbccddeeff0102030g", "0x00112233445566778899aabbccddeeff0102030405060708090a0b0c0d0e0f1011"];
    let k = choose(8, "destination") as usize;
    let to = if k < 2 { good[k] } else { wrong[k - 2] };
    let mut m = message(e, chain, "0xaa-0", &src, CHAIN, hash);
    m.destination_address = to.parse().unwrap();
    let mut b = CommandBatchBuilder::new(Uint256::from(5u8), e);
    match attempt(|| b.add_message(m.clone()).is_ok()) {
        Some(true) => {
            check(k < 2, "a message to an impossible address is encoded");
            let b = match b.build() { Ok(b) => b, Err(_) => { check(false, "batch refused"); return } };
            check(b.data.commands.len() == 1 && b.data.commands[0].ty == CommandType::ApproveContractCall, "not one approval");
            approves(e, &b.data.commands[0], &m);
            reach("encoded");
        }
        _ => { check(k >= 2, "a message is refused"); reach("impossible address"); }
    }
}
/// the command approves exactly this message
fn approves(e: Encoder, c: &Command, m: &Message) {
    let (chain, source, to, hash) = read_approval(e, &c.params);
    check(chain == m.cc_id.chain.to_string().as_bytes(), "another source chain is approved");
    check(source == m.source_address.as_bytes(), "another source address is approved");
    check(to == unhex(&dest(e)[2..]), "another destination address is approved");
    check(hash == m.payload_hash, "another payload is approved");
    check(c.id.as_slice() == &keccak(format!("{}:{}", m.cc_id.chain, *m.cc_id.id).as_bytes())[..], "an approval under another message id");
}

// ---- C24 ---------------------------------------------------------------------------------------
/// message ids: different lists have different batches, permutations the same one
#[no_mangle] pub extern "C" fn c24_ids() {
    let some = |chain: &str, n: usize| -> CrossChainId { let s: String = (0..n).map(|_| range(0x20, 0x7e, "id") as u8 as char).collect(); id(chain, &s) };
    let shape = choose(8, "lengths");
    let (a, b): (Vec<CrossChainId>, Vec<CrossChainId>) = match shape {
        0 => (vec![some("a", 1), some("a", 1)], vec![some("a", 1), some("a", 1)]),
        1 => (vec![some("a", 1), some("a", 1)], vec![some("a", 5)]),
        2 => (vec![some("a", 1), some("a", 1)], vec![some("a", 7)]),
        3 => (vec![some("a", 3)], vec![some("a", 3)]),
        4 => (vec![some("a", 1)], vec![some("b", 1)]),
        5 => (vec![some("a", 2), some("b", 1)], vec![some("b", 1), some("a", 2)]),
        6 => (vec![some("a", 1), some("a", 3)], vec![some("a", 3), some("a", 1)]),
        _ => (vec![some("a", 2)], vec![]),
    };
    let mut same = a.len() == b.len();
    if a.len() == 2 && b.len() == 2 { same = ((a[0] == b[0]) & (a[1] == b[1])) | ((a[0] == b[1]) & (a[1] == b[0])); }
    if a.len() == 1 && b.len() == 1 { same = a[0] == b[0]; }
    check((BatchId::new(&a, None) == BatchId::new(&b, None)) == same, "different message ids share a batch, or the same ones do not");
    reach("compared");
    if a.len() == 2 { let r = vec![a[1].clone(), a[0].clone()]; check(BatchId::new(&a, None) == BatchId::new(&r, None), "the batch depends on the order of the ids"); }
}
/// messages of the gateway: the last one is for another chain
fn outgoing(e: Encoder) -> Vec<Message> {
    let h = || bytes::<32>("payload hash");
    let s = || -> String { let t: String = (0..2).map(|_| range(97, 122, "source") as u8 as char).collect(); format!("0x{}", t) };
    vec![message(e, "alpha", "0xaa-0", &s(), CHAIN, h()), message(e, "alpha", "0xAA-0", &s(), CHAIN, h()), message(e, "beta", "0xaa-0", &s(), CHAIN, h()), message(e, "beta", "0xdd-3", "0xsource", "psi", [3; 32])]
}
/// what is reported for a session is what is signed in it, and commands exactly these messages
fn commanded(w: &World, st: &Store, session: u64, digest: &[u8], want: &[Message], rotation: Option<&WorkerSet>) -> Option<Data> {
    *w.session.borrow_mut() = Some(Multisig { state: MultisigState::Pending, quorum: Uint256::one(), signers: vec![] });
    let r = match w.proof(st, session) { Some(r) => r, None => { check(false, "the session has no batch"); return None } };
    check(r.status == ProofStatus::Pending, "an unfinished session gives a proof");
    let x = r.data.encode(w.e);
    check(digest_of(w.e, &x) == digest, "what is signed is not the digest of the batch of that session");
    same_data(w.e, &x, &r.data);
    let mut left: Vec<&Message> = want.iter().collect();
    let mut moved = 0;
    for c in &r.data.commands {
        match c.ty {
            CommandType::ApproveContractCall => match left.iter().position(|m| c.id.as_slice() == &keccak(format!("{}:{}", m.cc_id.chain, *m.cc_id.id).as_bytes())[..]) {
                Some(i) => approves(w.e, c, left.remove(i)),
                None => check(false, "a message is approved that was not requested"),
            },
            CommandType::TransferOperatorship => { moved += 1; if let Some(ws) = rotation { transfers(w.e, c, ws) } }
        }
    }
    check(left.is_empty(), "a requested message is not approved");
    check(moved == rotation.is_some() as usize, "a rotation is commanded that is not due, or a due one is not");
    let mut ids: Vec<String> = r.message_ids.iter().map(|i| i.to_string()).collect();
    let mut wanted: Vec<String> = want.iter().map(|m| m.cc_id.to_string()).collect();
    ids.sort(); wanted.sort();
    check(ids == wanted, "other message ids are reported");
    Some(r.data)
}
fn transfers(e: Encoder, c: &Command, ws: &WorkerSet) {
    let (a, w, q) = read_set(e, &c.params);
    let mut want: Vec<(Vec<u8>, Uint256)> = ws.signers.values().map(|s| { let k = keys(e).find(|k| key(key_type(e), *k) == s.pub_key).unwrap(); (account(e, k), s.weight) }).collect();
    want.sort();
    check(a.into_iter().zip(w).collect::<Vec<_>>() == want && q == ws.threshold, "a transfer to another worker set is commanded");
}
/// requests of any list of up to `n` messages, with any gateway answer; then the same list again in another order
fn c24_requests(e: Encoder, n: u64, due: bool) {
    let chain_id = Uint256::from(any_u64("chain id"));
    let mut st = new_prover(e, chain_id, 0);
    let mut w = World::new(e);
    w.active = vec![(0, 0), (1, 1)];
    w.messages = outgoing(e);
    check(w.ex(&mut st, 2, "anyone", ExecuteMsg::UpdateWorkerSet {}).is_some(), "first worker set refused");
    let current = expected_set(&w, 2);
    let list: Vec<usize> = (0..choose(n + 1, "messages")).map(|_| choose(4, "message") as usize).collect();
    let ids = |l: &[usize]| -> Vec<CrossChainId> { l.iter().map(|i| w.messages[*i].cc_id.clone()).collect() };
    let want: Vec<Message> = list.iter().map(|i| w.messages[*i].clone()).collect();
    let ids1 = ids(&list);
    let mut turned = list.clone();
    turned.reverse();
    let ids2 = ids(&turned);
    w.fault = *pick(&[Fault::None, Fault::Short, Fault::Extra, Fault::Refused], "gateway");
    if list.is_empty() && w.fault == Fault::Short { assume(false); }
    if due { w.active = vec![(0, 0), (1, 2)]; }
    let bad = w.fault != Fault::None || list.contains(&3);
    let before = st.0.clone();
    let r = w.ex(&mut st, 3, "anyone", ExecuteMsg::ConstructProof { message_ids: ids1 });
    if bad {
        check(r.is_none() && st.0 == before, "a proof is requested although the gateway does not have exactly these messages for this chain");
        reach("refused");
        return;
    }
    let r = match r { Some(r) => r, None => { check(false, "request refused"); return } };
    let rotation = if due { Some(expected_set(&w, 3)) } else { None };
    let (by, digest) = sign_request(&r);
    check(by == current.id(), "not signed by the current worker set");
    check(w.opened(&mut st, 11).is_some(), "the opened session is refused");
    let d = commanded(&w, &st, 11, &digest, &want, rotation.as_ref());
    check(d.map_or(false, |d| d.destination_chain_id == chain_id), "commands for another chain");
    // again, in another order, in the same block or later
    let height = if decide("same block") { 3 } else { 4 };
    let r = match w.ex(&mut st, height, "someone", ExecuteMsg::ConstructProof { message_ids: ids2 }) { Some(r) => r, None => { check(false, "repeated request refused"); return } };
    let (by, digest2) = sign_request(&r);
    check(by == current.id(), "not signed by the current worker set");
    check(w.opened(&mut st, 12).is_some(), "the opened session is refused");
    let rotation2 = if due { Some(expected_set(&w, height)) } else { None };
    commanded(&w, &st, 12, &digest2, &want, rotation2.as_ref());
    commanded(&w, &st, 11, &digest, &want, rotation.as_ref());
    if !due || height == 3 { check(digest == digest2, "the same messages give another batch"); reach("same batch"); }
    reach("twice");
}
#[no_mangle] pub extern "C" fn c24_construct() { c24_requests(encoder(), 2, false) }
#[no_mangle] pub extern "C" fn c24_construct3() { c24_requests(encoder(), 3, false) }
#[no_mangle] pub extern "C" fn c24_rotation() { c24_requests(encoder(), 2, true) }
/// messages with any id: commands, and what the batch reports, are for exactly that id
#[no_mangle] pub extern "C" fn c24_any_id() {
    let e = encoder();
    let n = 1 + choose(4, "length of the id") as usize;
    let s: String = (0..n).map(|_| range(0x20, 0x7e, "id") as u8 as char).collect();
    let mut st = new_prover(e, Uint256::from(5u8), 0);
    let mut w = World::new(e);
    w.active = vec![(0, 0), (1, 1)];
    w.messages = vec![message(e, "alpha", &s, "0xsource", CHAIN, [3; 32])];
    check(w.ex(&mut st, 2, "anyone", ExecuteMsg::UpdateWorkerSet {}).is_some(), "first worker set refused");
    let r = match w.ex(&mut st, 3, "anyone", ExecuteMsg::ConstructProof { message_ids: vec![w.messages[0].cc_id.clone()] }) { Some(r) => r, None => { check(false, "request refused"); return } };
    let (_, digest) = sign_request(&r);
    check(w.opened(&mut st, 11).is_some(), "the opened session is refused");
    commanded(&w, &st, 11, &digest, &w.messages, None);
    reach("commanded");
}
/// a batch keeps its content whatever the gateway says later; replies without a session id are refused
#[no_mangle] pub extern "C" fn c24_stable() {
    let e = encoder();
    let mut st = new_prover(e, Uint256::from(5u8), 0);
    let mut w = World::new(e);
    w.active = vec![(0, 0), (1, 1)];
    w.messages = outgoing(e);
    w.ex(&mut st, 2, "anyone", ExecuteMsg::UpdateWorkerSet {});
    let want = vec![w.messages[0].clone(), w.messages[2].clone()];
    let ids: Vec<CrossChainId> = want.iter().map(|m| m.cc_id.clone()).collect();
    let (_, digest) = match w.ex(&mut st, 3, "anyone", ExecuteMsg::ConstructProof { message_ids: ids.clone() }) { Some(r) => sign_request(&r), None => { check(false, "request refused"); return } };
    w.opened(&mut st, 11);
    w.messages = outgoing(e);
    if decide("membership changed") { w.active = vec![(0, 0), (1, 2)]; }
    let (_, digest2) = match w.ex(&mut st, 4, "anyone", ExecuteMsg::ConstructProof { message_ids: ids }) { Some(r) => sign_request(&r), None => { check(false, "repeated request refused"); return } };
    check(digest == digest2, "the same messages give another batch");
    // an answer without session id
    let junk = *pick(&[&b""[..], b"\x0a\x02{}", b"\x0a\x03abc"], "answer");
    let before = st.0.clone();
    let r = tx(&mut st, &no_query, |d| pv::reply(d, env(1, 1, SELF), Reply { id: pv::START_MULTISIG_REPLY_ID, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(Binary(junk.to_vec())) }) }));
    check(r.is_none() && st.0 == before, "an answer without a session id is accepted");
    w.opened(&mut st, 12);
    commanded(&w, &st, 12, &digest, &want, None);
    commanded(&w, &st, 11, &digest, &want, None);
    reach("stable");
}

// ---- C23 ---------------------------------------------------------------------------------------
/// the worker set that the active workers make up
fn expected_set(w: &World, height: u64) -> WorkerSet {
    let n = w.active.len() as u64;
    let of: Vec<_> = w.active.iter().map(|(i, k)| (*i, *k, Uint256::one())).collect();
    worker_set(w.e, &of, Uint256::from((n * SIGNING.0 + SIGNING.1 - 1) / SIGNING.1), height)
}
fn differences(a: &WorkerSet, b: &WorkerSet) -> u32 {
    (a.signers.values().filter(|s| !b.signers.values().any(|t| t == *s)).count() + b.signers.values().filter(|s| !a.signers.values().any(|t| t == *s)).count()) as u32
}
const MEMBERS: [&[(usize, usize)]; 5] = [&[(0, 0), (1, 1)], &[(1, 1)], &[(0, 0), (1, 2)], &[(2, 2), (0, 0), (1, 1)], &[]];
fn pending(st: &Store) -> Option<WorkerSet> { multisig_prover::state::NEXT_WORKER_SET.may_load(st).unwrap() }
fn registered(r: &Response) -> Option<WorkerSet> {
    match &wasm_msgs(r)[..] { [(to, m)] if to == MULTISIG && r.messages.len() == 1 => match from_binary(m) { Ok(multisig::msg::ExecuteMsg::RegisterWorkerSet { worker_set }) => Some(worker_set), _ => None }, _ => None }
}
fn rotations(e: Encoder, steps: usize, sets: &[usize]) {
    let max_diff = any_u32("max diff");
    let mut st = new_prover(e, Uint256::from(5u8), max_diff);
    let mut w = World::new(e);
    w.messages = vec![message(e, "alpha", "0xaa-0", "0xsource", CHAIN, [7; 32])];
    let (mut current, mut next): (Option<WorkerSet>, Option<WorkerSet>) = (None, None);
    let mut session = 0;
    for step in 0..steps {
        // the first step must set up something
        let op = if step == 0 { choose(3, "first call") } else { choose(4, "call") };
        let height = any_u64("height");
        let (before_set, before) = (next.clone(), st.0.clone());
        match op {
            0 | 1 => {
                w.active = if step == 0 { MEMBERS[0] } else { MEMBERS[*pick(sets, "members")] }.to_vec();
                let new = expected_set(&w, height);
                let due = match &current { Some(c) => differences(&new, c) > max_diff, None => false };
                let clash = match &next { Some(n) => n.signers != new.signers || n.threshold != new.threshold, None => false };
                let m = if op == 0 { ExecuteMsg::UpdateWorkerSet {} } else { ExecuteMsg::ConstructProof { message_ids: vec![w.messages[0].cc_id.clone()] } };
                let r = w.ex(&mut st, height, "anyone", m);
                let now = pending(&st);
                if op == 0 && current.is_none() {
                    match &r {
                        Some(r) => { check(!w.active.is_empty() && registered(r).as_ref() == Some(&new), "the first worker set is not registered for signing"); current = Some(new); reach("first set"); }
                        None => check(w.active.is_empty(), "the first worker set is refused"),
                    }
                } else if op == 0 {
                    let ok = !w.active.is_empty() & due & !clash;
                    check(r.is_some() == ok, "a rotation is proposed although it is not due or another one is pending, or refused although it is due");
                    if !due { reach("not due"); } else if clash { reach("another pending"); }
                    if r.is_some() { next = Some(new); }
                } else {
                    if current.is_none() { check(r.is_none(), "a proof is requested without a worker set"); }
                    // a rotation may come with the proof
                    if r.is_some() && now != before_set { check(due && !clash, "a rotation is proposed although it is not due or another one is pending"); next = Some(new); reach("rotation with a proof"); }
                }
                if let (Some(r), Some(c)) = (&r, &current) {
                    if registered(r).is_none() {
                        let (by, digest) = sign_request(r);
                        check(by == c.id(), "not signed by the current worker set");
                        session += 1;
                        check(w.opened(&mut st, session).is_some(), "the opened session is refused");
                        let rotation = if op == 0 || now != before_set { next.clone() } else { None };
                        if op == 0 { commanded(&w, &st, session, &digest, &[], rotation.as_ref()); reach("rotation proposed"); }
                    }
                } else if r.is_none() { check(st.0 == before, "a refused call changed the state"); }
            }
            _ => {
                w.verified = op == 2;
                w.asked.borrow_mut().clear();
                let r = w.ex(&mut st, height, "anyone", ExecuteMsg::ConfirmWorkerSet {});
                check(r.is_some() == (w.verified && next.is_some()), "a set is confirmed that the verifier did not report or that is not pending, or a confirmed set is refused");
                match r {
                    Some(r) => {
                        let n = next.take().unwrap();
                        let want = make(e, &n);
                        check(!w.asked.borrow().is_empty() && w.asked.borrow().iter().all(|o| *o == want), "the verifier is asked about another set");
                        check(registered(&r).as_ref() == Some(&n), "the confirmed set is not registered for signing");
                        current = Some(n);
                        reach("confirmed");
                    }
                    None => { check(st.0 == before, "a refused call changed the state"); reach("not confirmed"); }
                }
            }
        }
        check(w.current(&st) == current, "the current worker set is another one");
        check(pending(&st) == next, "another worker set is pending");
    }
}
fn make(e: Encoder, ws: &WorkerSet) -> Operators {
    Operators::new(ws.signers.values().map(|s| { let k = keys(e).find(|k| key(key_type(e), *k) == s.pub_key).unwrap(); (HexBinary::from(account(e, k)), s.weight) }).collect(), ws.threshold)
}
#[no_mangle] pub extern "C" fn c23_abi() { rotations(Encoder::Abi, 3, &[0, 1, 2, 3, 4]) }
#[no_mangle] pub extern "C" fn c23_bcs() { rotations(Encoder::Bcs, 3, &[0, 1, 2, 3, 4]) }
#[no_mangle] pub extern "C" fn c23_deep() { rotations(Encoder::Bcs, 4, &[0, 1]) }

// ---- many operators, commands, messages --------------------------------------------------------
/// 16 operators of which one has any weight and maybe one did not sign; any threshold
#[no_mangle] pub extern "C" fn c22_large() {
    let e = Encoder::Bcs;
    let n = 16;
    let mut st = new_prover(e, Uint256::from(5u8), 0);
    let b = one_batch(e, &mut st);
    let w = World::new(e);
    let (odd, missing) = *pick(&[(0usize, 9usize), (15, 16)][..], "the operator of another weight, and the one that did not sign");
    let x = range(1, u64::MAX, "weight");
    let mut total = Uint256::zero();
    let of: Vec<(usize, Uint256, Option<Signature>)> = (0..n).map(|i| {
        let wt = Uint256::from(if i == odd { x } else { i as u64 + 1 });
        let mut s = vec![9u8; 64];
        s[0] = i as u8 + 1;
        if i != missing { total += wt; }
        (i, wt, if i != missing { Some(Signature::try_from((KeyType::Ed25519, HexBinary::from(s))).unwrap()) } else { None })
    }).collect();
    let quorum = Uint256::from(any_u64("quorum"));
    assume((total >= quorum) & !quorum.is_zero());
    *w.session.borrow_mut() = Some(finished(e, &of, quorum));
    let of2 = of.clone();
    check(judge(e, &w, &st, &b, &of, quorum, &|i, s| match &of2[i].2 { Some(x) => { let x = x.as_ref(); x[0] == s[0] && x == s } None => false }), "a proof is refused although all values fit");
    reach("proof");
}
/// a set of 24 operators; a batch of 200 commands and long parameters
#[no_mangle] pub extern "C" fn c25_large() {
    let e = Encoder::Bcs;
    let n = 24;
    let odd = *pick(&[0usize, 12, 23][..], "the operator of another weight");
    let (x, t) = (Uint256::from(any_u128("weight")), Uint256::from(any_u128("threshold")));
    let of: Vec<(usize, usize, Uint256)> = (0..n).map(|i| (i, i, if i == odd { x } else { Uint256::from(i as u64 + 1) })).collect();
    let ws = worker_set(e, &of, t, 4);
    let mut b = CommandBatchBuilder::new(Uint256::from(5u8), e);
    let made = match b.add_new_worker_set(ws.clone()) { Ok(()) => b.build().ok(), Err(_) => None };
    match &made {
        Some(b) => {
            check(b.data.commands.len() == 1 && b.data.commands[0].ty == CommandType::TransferOperatorship, "not one transfer command");
            transfers(e, &b.data.commands[0], &ws);
        }
        None => check(false, "a worker set is refused although its values fit"),
    }
    let want = Operators::new(of.iter().map(|x| (HexBinary::from(account(e, x.1)), x.2)).collect(), ws.threshold);
    check(make_operators(ws, e) == want, "the verifier is asked about other operators");
    let e = encoder();
    let long = *pick(&[0usize, 127, 128, 129, 300][..], "length");
    let many = *pick(&[1usize, 127, 128, 200][..], "commands");
    let commands: Vec<Command> = (0..many).map(|i| {
        let mut id = [i as u8; 32];
        id[31] = any_u8("id");
        let mut params = vec![3u8; if i + 1 == many { long } else { 2 }];
        if let Some(p) = params.last_mut() { *p = any_u8("last parameter byte"); }
        Command { id: HexBinary::from(&id[..]), ty: if i % 3 == 0 { CommandType::TransferOperatorship } else { CommandType::ApproveContractCall }, params: HexBinary::from(params) }
    }).collect();
    let b = batch_of(e, Data { destination_chain_id: Uint256::from(any_u64("chain id")), commands });
    let d = b.data.encode(e);
    same_data(e, &d, &b.data);
    check(b.msg_digest().as_slice() == &digest_of(e, &d)[..], "the digest to be signed is not that of the encoded commands");
    reach("encoded");
}
/// a request for 40 messages, in order and in reverse
#[no_mangle] pub extern "C" fn c24_large() {
    let e = encoder();
    let n = *pick(&[10usize, 40][..], "messages");
    let mut st = new_prover(e, Uint256::from(5u8), 0);
    let mut w = World::new(e);
    w.active = vec![(0, 0), (1, 1)];
    w.messages = (0..n).map(|i| message(e, "alpha", &format!("0xaB-{}", i), "0xsource", CHAIN, [i as u8; 32])).collect();
    let odd = *pick(&[0usize, 1, n / 2, n - 1][..], "the message of another payload");
    w.messages[odd].payload_hash = bytes("payload hash");
    let elsewhere = decide("one is for another chain");
    if elsewhere { w.messages[odd].destination_chain = "psi".parse().unwrap(); }
    check(w.ex(&mut st, 2, "anyone", ExecuteMsg::UpdateWorkerSet {}).is_some(), "first worker set refused");
    let mut ids: Vec<CrossChainId> = w.messages.iter().map(|m| m.cc_id.clone()).collect();
    let mut first: Option<Vec<u8>> = None;
    for session in 11..13 {
        let r = w.ex(&mut st, session, "anyone", ExecuteMsg::ConstructProof { message_ids: ids.clone() });
        check(r.is_none() == elsewhere, "a request for messages to another chain is accepted, or a good one refused");
        let r = match r { Some(r) => r, None => { reach("refused"); return } };
        let (_, digest) = sign_request(&r);
        check(w.opened(&mut st, session).is_some(), "the opened session is refused");
        commanded(&w, &st, session, &digest, &w.messages, None);
        match &first { Some(d) => { check(*d == digest, "the same messages give another batch"); reach("same batch"); } None => first = Some(digest) }
        ids.reverse();
    }
}
/// twenty workers of which some are replaced by others
#[no_mangle] pub extern "C" fn c23_large() {
    let e = Encoder::Bcs;
    let max_diff = any_u32("max diff");
    let mut st = new_prover(e, Uint256::from(5u8), max_diff);
    let mut w = World::new(e);
    w.active = (0..20).map(|i| (i, i)).collect();
    check(w.ex(&mut st, 2, "anyone", ExecuteMsg::UpdateWorkerSet {}).is_some(), "first worker set refused");
    let current = expected_set(&w, 2);
    let (gone, added, rekeyed) = (*pick(&[0usize, 1, 6, 19][..], "workers that left"), choose(6, "new workers") as usize, choose(3, "workers with a new key") as usize);
    w.active = w.active.split_off(gone);
    for i in 0..added { w.active.push((20 + i, 20 + i)); }
    for i in 0..rekeyed.min(20 - gone) { w.active[i].1 = 26 + i; }
    let new = expected_set(&w, 9);
    let due = differences(&new, &current) > max_diff;
    let r = w.ex(&mut st, 9, "anyone", ExecuteMsg::UpdateWorkerSet {});
    check(r.is_some() == due, "a rotation is proposed although it is not due or another one is pending, or refused although it is due");
    match r {
        Some(r) => {
            let (by, digest) = sign_request(&r);
            check(by == current.id() && pending(&st).as_ref() == Some(&new), "not signed by the current worker set");
            check(w.opened(&mut st, 3).is_some(), "the opened session is refused");
            commanded(&w, &st, 3, &digest, &[], Some(&new));
            reach("rotation proposed");
        }
        None => { check(pending(&st).is_none(), "another worker set is pending"); reach("not due") }
    }
    check(w.current(&st).as_ref() == Some(&current), "the current worker set is another one");
}

entries! { c22_abi, c22_bcs, c22_bcs_wide, c22_ecdsa, c22_pending, c22_large, c25_large, c24_any_id, c24_large, c23_large, c25_set, c25_data, c25_digest, c25_approval, c24_ids, c24_construct, c24_construct3, c24_rotation, c24_stable, c23_abi, c23_bcs, c23_deep }
