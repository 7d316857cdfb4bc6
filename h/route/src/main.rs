//! Harnesses over contracts/connection-router, gateway, nexus-gateway, aggregate-verifier and batching.
use axelar_wasm_std::flagset::FlagSet;
use connection_router::contract as router;
use connection_router::msg as rmsg;
use connection_router::state::{chain_endpoints, ChainEndpoint, ChainName, CrossChainId, Gateway, GatewayDirection, Message};
use cosmwasm_std::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vxlib::attr;
use vxlib::*;

const ADMIN: &str = "admin";
const GOV: &str = "governance";
const NEXUS: &str = "nexusgateway";
const ROUTER: &str = "router";
/// chains; the last one is never registered
const C: [&str; 3] = ["alpha", "beta", "gamma"];
const GW: [&str; 3] = ["gatewayone", "gatewaytwo", "gatewaythree"];

fn chain(s: &str) -> ChainName { s.parse().unwrap() }
fn id(c: usize, i: &str) -> CrossChainId { CrossChainId { chain: chain(C[c]), id: i.parse().unwrap() } }
/// a message with two arbitrary bytes of payload hash
fn message(src: usize, i: &str, dest: usize) -> Message {
    let mut payload_hash = [7u8; 32];
    payload_hash[0] = any_u8("payload hash, first byte");
    payload_hash[31] = any_u8("payload hash, last byte");
    Message { cc_id: id(src, i), source_address: format!("from-{}-{}", src, i).parse().unwrap(), destination_chain: chain(C[dest]), destination_address: format!("to-{}-{}", dest, i).parse().unwrap(), payload_hash }
}
/// field by field, without short-circuits over the payload
fn same(a: &Message, b: &Message) -> bool {
    if a.cc_id != b.cc_id || a.source_address != b.source_address || a.destination_chain != b.destination_chain || a.destination_address != b.destination_address { return false; }
    same_hash(&a.payload_hash, &b.payload_hash)
}
fn same_hash(a: &[u8; 32], b: &[u8; 32]) -> bool { let mut d = 0u8; for i in 0..32 { d |= a[i] ^ b[i]; } d == 0 }
fn same_all(a: &[Message], b: &[Message]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)) }

// ---- router ----------------------------------------------------------------------------------
fn new_router() -> Store {
    let mut st = Store::new();
    let m = rmsg::InstantiateMsg { admin_address: ADMIN.into(), governance_address: GOV.into(), nexus_gateway: NEXUS.into() };
    check(tx(&mut st, &no_query, |d| router::instantiate(d, env(1, 1, ROUTER), info("creator"), m)).is_some(), "instantiation refused");
    st
}
fn rx(st: &mut Store, sender: &str, m: rmsg::ExecuteMsg) -> Option<Response> { tx(st, &no_query, |d| router::execute(d, env(1, 1, ROUTER), info(sender), m)) }
fn endpoint(st: &Store, c: &str) -> Option<ChainEndpoint> { ask(st, &no_query, |d| router::query(d, env(1, 1, ROUTER), rmsg::QueryMsg::GetChainInfo(chain(c)))) }
/// puts a registered chain with any freeze state (bit 0 incoming, bit 1 outgoing) into the store
fn registered(st: &mut Store, c: usize, gw: &str) -> u8 {
    let bits = any_u8("frozen directions");
    assume(bits < 4);
    let frozen_status: FlagSet<GatewayDirection> = from_slice(&to_vec(&bits).unwrap()).unwrap();
    let e = ChainEndpoint { name: chain(C[c]), gateway: Gateway { address: Addr::unchecked(gw) }, frozen_status };
    check(chain_endpoints().save(st, chain(C[c]), &e).is_ok(), "chain not stored");
    bits
}
fn bits(e: &ChainEndpoint) -> u8 { e.frozen_status.bits() }

/// messages per receiving contract, in order
fn delivered(r: &Response) -> Vec<(String, Vec<Message>)> {
    let w = wasm_msgs(r);
    check(w.len() == r.messages.len(), "the router sent something other than contract calls");
    let mut out: Vec<(String, Vec<Message>)> = vec![];
    for (to, b) in w {
        let ms = match from_binary(&b) { Ok(rmsg::ExecuteMsg::RouteMessages(ms)) => ms, _ => { check(false, "the router sent something other than messages"); vec![] } };
        match out.iter_mut().find(|o| o.0 == to) { Some(o) => o.1.extend(ms), None => out.push((to, ms)) }
    }
    out
}
const SENDERS: [&str; 8] = [GW[0], GW[1], NEXUS, GW[2], ADMIN, GOV, ROUTER, C[0]];
/// one batch of n messages from any sender over any freeze state of the two registered chains
fn route(n: usize, srcs: u64, same_source: bool) {
    let sender = if same_source { SENDERS[choose(3, "sender") as usize] } else { *pick(&SENDERS, "sender") };
    let own = own_chain(sender);
    route_batch(n, sender, |_| {
        let s = if same_source { own.unwrap_or(2) } else { choose(srcs, "source chain") as usize };
        let d = choose(3, "destination chain") as usize;
        (s, d, (if decide("second id") { "0xb:1" } else { "0xa:0" }).into())
    })
}
fn own_chain(sender: &str) -> Option<usize> { SENDERS.iter().take(2).position(|s| *s == sender) }
/// the i-th message of the batch has a source chain, a destination chain and an id
fn route_batch(n: usize, sender: &str, of: impl Fn(usize) -> (usize, usize, String)) {
    let mut st = new_router();
    let f = [registered(&mut st, 0, GW[0]), registered(&mut st, 1, GW[1])];
    let own = own_chain(sender);
    let mut batch = vec![];
    let mut src_ok = true;
    let mut dest_ok = true;
    for i in 0..n {
        let (s, d, id) = of(i);
        if let Some(o) = own { if o != s { src_ok = false; } }
        dest_ok = dest_ok & if d == 2 { sender != NEXUS } else { f[d] & 2 == 0 };
        batch.push((s, d, message(s, &id, d)));
    }
    let in_ok = sender == NEXUS || match own { Some(o) => (f[o] & 1 == 0) & src_ok, None => false };
    let r = rx(&mut st, sender, rmsg::ExecuteMsg::RouteMessages(batch.iter().map(|b| b.2.clone()).collect()));
    if r.is_some() {
        reach("accepted");
        check(in_ok, "batch accepted from a sender that may not route it");
        check(dest_ok, "batch accepted although a destination is frozen or unknown");
    } else {
        reach("refused");
        check(!(in_ok & dest_ok), "batch refused although it may be routed");
    }
    let r = match r { Some(r) => r, None => return };
    let got = delivered(&r);
    let receiver = |d: usize| if d == 2 { NEXUS } else { GW[d] };
    for d in 0..3 {
        let want: Vec<Message> = batch.iter().filter(|b| b.1 == d).map(|b| b.2.clone()).collect();
        let empty = vec![];
        let have = got.iter().find(|g| g.0 == receiver(d)).map_or(&empty, |g| &g.1);
        check(same_all(have, &want), "messages delivered to a destination are not those of the batch for it, in order");
        if !want.is_empty() { reach("delivered"); }
    }
    check(got.iter().all(|g| (0..3).any(|d| receiver(d) == g.0)), "delivery to a contract that serves no destination");
    // routing leaves the chains as they are
    for c in 0..2 {
        match endpoint(&st, C[c]) { Some(e) => check(bits(&e) == f[c] && e.gateway.address == GW[c], "routing changed a chain"), None => check(false, "routing removed a chain") }
    }
}
#[no_mangle] pub extern "C" fn c12_any_sender1() { route(1, 3, false) }
#[no_mangle] pub extern "C" fn c12_any_sender2() { route(2, 2, false) }
/// any mix of source chains in a batch
#[no_mangle] pub extern "C" fn c12_sources4() { let s = SENDERS[choose(3, "sender") as usize]; route_batch(4, s, |i| (choose(2, "source chain") as usize, 1, format!("0xa{}:0", i))) }
/// one message of another chain anywhere in a large batch
#[no_mangle] pub extern "C" fn c12_large() {
    let s = SENDERS[choose(3, "sender") as usize];
    let odd = *pick(&[0usize, 1, 15, 16, 63, 64, 127, 128, 129, 130][..], "position of the message of another chain");
    route_batch(130, s, |i| (if i == odd { 1 } else { 0 }, 1, format!("0xa{}:0", i)))
}
/// nexus may send messages of several chains, also under equal ids
#[no_mangle] pub extern "C" fn c13_nexus3() { route_batch(3, NEXUS, |_| (2 * choose(2, "source chain") as usize, choose(2, "destination chain") as usize, (if decide("second id") { "0xb:1" } else { "0xa:0" }).into())) }
#[no_mangle] pub extern "C" fn c13_large() {
    let to = choose(3, "destination of the others") as usize;
    let odd = choose(3, "position of the message to another chain") as usize * 64;
    let s = SENDERS[choose(3, "sender") as usize];
    let own = own_chain(s).unwrap_or(2);
    route_batch(130, s, |i| (own, if i == odd { 0 } else { to }, format!("0xa{}:0", i)))
}
#[no_mangle] pub extern "C" fn c13_batch2() { route(2, 0, true) }
#[no_mangle] pub extern "C" fn c13_batch3() { route(3, 0, true) }
#[no_mangle] pub extern "C" fn c13_batch4() { route(4, 0, true) }

/// authority follows freezing and upgrades made through the contract's own operations
#[no_mangle] pub extern "C" fn c12_history() {
    let mut st = new_router();
    let mut f = [0u8; 2];
    for c in 0..2 { check(rx(&mut st, GOV, rmsg::ExecuteMsg::RegisterChain { chain: chain(C[c]), gateway_address: GW[c].into() }).is_some(), "registration refused"); }
    let mut gw0 = GW[0];
    for _ in 0..2 {
        let c = choose(2, "chain") as usize;
        match choose(5, "operation") {
            0 => { check(rx(&mut st, ADMIN, rmsg::ExecuteMsg::FreezeChain { chain: chain(C[c]), direction: GatewayDirection::Incoming }).is_some(), "freeze refused"); f[c] |= 1; }
            1 => { check(rx(&mut st, ADMIN, rmsg::ExecuteMsg::FreezeChain { chain: chain(C[c]), direction: GatewayDirection::Outgoing }).is_some(), "freeze refused"); f[c] |= 2; }
            2 => { check(rx(&mut st, ADMIN, rmsg::ExecuteMsg::FreezeChain { chain: chain(C[c]), direction: GatewayDirection::Bidirectional }).is_some(), "freeze refused"); f[c] |= 3; }
            3 => { check(rx(&mut st, ADMIN, rmsg::ExecuteMsg::UnfreezeChain { chain: chain(C[c]), direction: GatewayDirection::Incoming }).is_some(), "unfreeze refused"); f[c] &= 2; }
            _ => if rx(&mut st, GOV, rmsg::ExecuteMsg::UpgradeGateway { chain: chain(C[0]), contract_address: GW[2].into() }).is_some() { gw0 = GW[2]; },
        }
    }
    let s = choose(3, "sender") as usize;
    let sender = GW[s];
    let src = choose(2, "source chain") as usize;
    let own = if sender == gw0 { Some(0) } else if s == 1 { Some(1) } else { None };
    let m = message(src, "0xa:0", 1 - src);
    let ok = own == Some(src) && f[src] & 1 == 0 && f[1 - src] & 2 == 0;
    let r = rx(&mut st, sender, rmsg::ExecuteMsg::RouteMessages(vec![m.clone()]));
    check(r.is_some() == ok, "batch accepted or refused against the current gateways and freeze states");
    match r {
        Some(r) => { reach("accepted"); let g = delivered(&r); check(g.len() == 1 && g[0].0 == (if src == 1 { gw0 } else { GW[1] }) && same_all(&g[0].1, &[m]), "message not delivered to the current gateway of its destination") }
        None => reach("refused"),
    }
}

// ---- C14 -------------------------------------------------------------------------------------
const DIRS: [(GatewayDirection, u8); 4] = [(GatewayDirection::None, 0), (GatewayDirection::Incoming, 1), (GatewayDirection::Outgoing, 2), (GatewayDirection::Bidirectional, 3)];
fn freeze_step(st: &mut Store, f: &mut [u8; 2]) {
    let (name, c) = *pick(&[("alpha", Some(0)), ("beta", Some(1)), ("ALPHA", Some(0)), ("gamma", None)], "chain");
    let (direction, d) = *pick(&DIRS, "direction");
    let freeze = decide("freeze");
    let m = if freeze { rmsg::ExecuteMsg::FreezeChain { chain: chain(name), direction } } else { rmsg::ExecuteMsg::UnfreezeChain { chain: chain(name), direction } };
    let r = rx(st, ADMIN, m);
    check(r.is_some() == c.is_some(), "freezing refused for a registered chain or accepted for an unknown one");
    if let (Some(r), Some(c)) = (r, c) {
        f[c] = if freeze { reach("frozen"); f[c] | d } else { reach("unfrozen"); f[c] & !d };
        let (ty, other) = if freeze { ("chain_frozen", "chain_unfrozen") } else { ("chain_unfrozen", "chain_frozen") };
        match event(&r, ty) { Some(e) => check(attr(e, "name").map_or(false, |n| n == C[c]), "event does not name the chain"), None => check(false, "no event of the operation's kind") }
        check(event(&r, other).is_none(), "event of the opposite kind");
        check(r.messages.is_empty(), "freezing sends messages");
    }
    for c in 0..2 {
        match endpoint(st, C[c]) {
            Some(e) => {
                check(bits(&e) == f[c], "frozen directions of a chain are not those of the operations on it");
                check(e.incoming_frozen() == (f[c] & 1 == 1) && e.outgoing_frozen() == (f[c] & 2 == 2), "a direction is reported frozen wrongly");
                check(e.gateway.address == GW[c] && e.name == chain(C[c]), "freezing changed a gateway");
            }
            None => check(false, "freezing removed a chain"),
        }
    }
    check(endpoint(st, C[2]).is_none(), "freezing registered a chain");
}
#[no_mangle] pub extern "C" fn c14_step() {
    let mut st = new_router();
    let mut f = [registered(&mut st, 0, GW[0]), registered(&mut st, 1, GW[1])];
    freeze_step(&mut st, &mut f);
}
fn freezes(n: usize) {
    let mut st = new_router();
    let mut f = [registered(&mut st, 0, GW[0]), registered(&mut st, 1, GW[1])];
    for _ in 0..n { freeze_step(&mut st, &mut f); }
}
#[no_mangle] pub extern "C" fn c14_history2() { freezes(2) }
#[no_mangle] pub extern "C" fn c14_history3() { freezes(3) }

// ---- C15 -------------------------------------------------------------------------------------
/// gateway and frozen directions per chain
type Reg = [Option<(usize, u8)>; 2];
fn registry_step(st: &mut Store, m: &mut Reg) {
    let (name, c) = *pick(&[("alpha", 0), ("beta", 1), ("ALPHA", 0)], "chain");
    let g = choose(3, "gateway") as usize;
    let served = m.iter().any(|x| x.map_or(false, |x| x.0 == g));
    if decide("register") {
        let r = rx(st, GOV, rmsg::ExecuteMsg::RegisterChain { chain: chain(name), gateway_address: GW[g].into() });
        let ok = m[c].is_none() && !served;
        check(r.is_some() == ok, "registration of a registered chain or serving gateway accepted, or a good one refused");
        if ok { reach("registered"); m[c] = Some((g, 0)); } else { reach("refused"); }
    } else {
        let r = rx(st, GOV, rmsg::ExecuteMsg::UpgradeGateway { chain: chain(name), contract_address: GW[g].into() });
        check(r.is_none() || m[c].is_some(), "gateway of an unknown chain upgraded");
        // upgrading a chain to the gateway it has may be refused or do nothing
        let own = m[c].map_or(false, |x| x.0 == g);
        check(own || r.is_some() == (m[c].is_some() && !served), "upgrade to a gateway that serves another chain accepted, or a good one refused");
        if let (Some(_), Some(x)) = (r, m[c]) { reach("upgraded"); m[c] = Some((g, x.1)); } else { reach("refused"); }
    }
    registry_holds(st, m);
}
fn registry_holds(st: &Store, m: &Reg) {
    for c in 0..2 {
        for name in [C[c].to_string(), C[c].to_uppercase()] {
            match (endpoint(st, &name), m[c]) {
                (None, None) => {}
                (Some(e), Some((g, f))) => check(e.gateway.address == GW[g] && bits(&e) == f && e.name == chain(C[c]), "a chain's gateway or freeze state is not the one its operations left"),
                _ => check(false, "a chain is registered without registration or lost"),
            }
        }
    }
    // exactly the current gateways have authority, each for its own chain
    for g in 0..3 {
        for c in 0..2 {
            let own = m[c].map_or(false, |x| x.0 == g && x.1 & 1 == 0);
            let mut work = st.clone();
            let r = rx(&mut work, GW[g], rmsg::ExecuteMsg::RouteMessages(vec![Message { payload_hash: [1; 32], ..fixed(c) }]));
            check(r.is_some() == own, "an address may route for a chain it is not the gateway of, or a gateway may not");
        }
    }
}
/// a concrete message to an unregistered chain
fn fixed(src: usize) -> Message { Message { cc_id: id(src, "0xa:0"), source_address: "from".parse().unwrap(), destination_chain: chain(C[2]), destination_address: "to".parse().unwrap(), payload_hash: [2; 32] } }
#[no_mangle] pub extern "C" fn c15_step() {
    let mut st = new_router();
    let mut m: Reg = [None, None];
    if decide("alpha registered") {
        // possibly after an upgrade away from gateway 2, in any freeze state
        let first = if decide("upgraded before") { 2 } else { 0 };
        let d = registered(&mut st, 0, GW[first]);
        if first == 2 { check(rx(&mut st, GOV, rmsg::ExecuteMsg::UpgradeGateway { chain: chain(C[0]), contract_address: GW[0].into() }).is_some(), "upgrade refused"); }
        m[0] = Some((0, d));
    }
    if decide("beta registered") {
        m[1] = Some((1, registered(&mut st, 1, GW[1])));
    }
    registry_step(&mut st, &mut m);
}
fn registrations(n: usize) { let mut st = new_router(); let mut m: Reg = [None, None]; for _ in 0..n { registry_step(&mut st, &mut m); } }
#[no_mangle] pub extern "C" fn c15_history2() { registrations(2) }
#[no_mangle] pub extern "C" fn c15_history3() { registrations(3) }

// ---- gateway ---------------------------------------------------------------------------------
const VERIFIER: &str = "verifier";
fn new_gateway() -> Store {
    let mut st = Store::new();
    check(tx(&mut st, &no_query, |d| gateway::contract::instantiate(d, env(1, 1, "gateway"), info("creator"), gateway::msg::InstantiateMsg { verifier_address: VERIFIER.into(), router_address: ROUTER.into() })).is_some(), "instantiation refused");
    st
}
type Asks<'a> = &'a dyn Fn(&str, &Binary) -> StdResult<Binary>;
fn gx(st: &mut Store, q: Asks, sender: &str, m: gateway::msg::ExecuteMsg) -> Option<Response> { tx(st, q, |d| gateway::contract::execute(d, env(1, 1, "gateway"), info(sender), m)) }
fn outgoing(st: &Store, ids: Vec<CrossChainId>) -> Option<Vec<Message>> { ask(st, &no_query, |d| gateway::contract::query(d, env(1, 1, "gateway"), gateway::msg::QueryMsg::GetMessages { message_ids: ids })) }

/// a is b in some order
fn same_set(a: &[Message], b: &[Message]) -> bool {
    if a.len() != b.len() { return false; }
    a.iter().all(|x| b.iter().filter(|y| y.cc_id == x.cc_id).count() == 1 && b.iter().any(|y| y.cc_id == x.cc_id && same(x, y)))
}
fn incoming(n: usize, kinds: u64, any_ids: bool) {
    if any_ids { flat_hash(); }
    let mut st = new_gateway();
    let mut batch = vec![];
    let mut ids = vec![];
    for i in 0..n {
        // the last message may repeat an id, or carry it on another chain
        let many = format!("0xa{}:{}", i, i % 3);
        let (c, name) = if any_ids { (i % 2 * (n - 2), "0xa:0") } else if n > 4 { (i % 2, &many[..]) } else if i + 1 == n { *pick(&[(0, "0xz:9"), (0, "0xa:0"), (1, "0xa:0")], "id of the last message") } else { (0, ["0xa:0", "0xb:1", "0xc:2"][i]) };
        let mut m = message(c, name, 1);
        if any_ids { m.cc_id.id = format!("0x{}:0", hex_text(&[any_u8("byte of the id")], false)).try_into().unwrap(); }
        m.source_address = format!("from-{}", i).parse().unwrap();
        ids.push(m.cc_id.clone());
        batch.push(m);
    }
    let duplicate = (0..n).any(|i| (0..i).any(|j| ids[i] == ids[j]));
    let kind = choose(kinds, "kind of answer");
    let says: Vec<bool> = if n > 4 { let k = *pick(&[0, 1, n / 2, n - 2, n - 1, n][..], "only one of another kind"); let all = decide("verified"); (0..n).map(|i| (i == k) != all).collect() } else { (0..n).map(|_| flag("verified")).collect() };
    let (b2, s2) = (batch.clone(), says.clone());
    let missing = if kind == 1 { choose(n as u64, "missing answer") as usize } else { n };
    // the verifier vouches only for a message it is asked about in full
    let q = move |to: &str, m: &Binary| -> StdResult<Binary> {
        if to != VERIFIER { return Err(StdError::generic_err("no such contract")); }
        let asked = match from_binary(m)? { aggregate_verifier::msg::QueryMsg::IsVerified { messages } => messages };
        let mut out: Vec<(CrossChainId, bool)> = vec![];
        for a in &asked {
            let v = b2.iter().zip(&s2).any(|(b, s)| *s && same(a, b));
            if missing < n && a.cc_id == b2[missing].cc_id { continue; }
            out.push((a.cc_id.clone(), v));
        }
        match kind {
            2 => out.reverse(),
            3 => { out.insert(0, (id(0, "0xother:5"), true)); out.push((id(1, "0xb:1"), true)) }
            4 => return Err(StdError::generic_err("verifier failed")),
            5 => return to_binary(&"not an answer"),
            6 => out.clear(),
            _ => {}
        }
        to_binary(&out)
    };
    let verified = |i: usize| says[i] && kind != 6 && !(missing < n && ids[i] == ids[missing]);
    let broken = kind == 4 || kind == 5;
    if decide("route") {
        let sender = *pick(&["relayer", VERIFIER, "gateway"], "sender");
        let r = gx(&mut st, &q, sender, gateway::msg::ExecuteMsg::RouteMessages(batch.clone()));
        check(r.is_some() == !(duplicate || broken), "batch with a repeated id or without an answer accepted, or a good one refused");
        let r = match r { Some(r) => r, None => { reach("refused"); return } };
        let mut forwarded = vec![];
        let w = wasm_msgs(&r);
        check(w.len() == r.messages.len(), "the gateway sent something other than contract calls");
        for (to, b) in w {
            check(to == ROUTER, "message to a contract other than the router");
            match from_binary(&b) { Ok(rmsg::ExecuteMsg::RouteMessages(ms)) => forwarded.extend(ms), _ => check(false, "the router is asked something else") }
        }
        let want: Vec<Message> = (0..n).filter(|i| verified(*i)).map(|i| batch[i].clone()).collect();
        check(same_set(&forwarded, &want), "messages passed to the router are not exactly the verified ones");
        if !want.is_empty() { reach("forwarded"); }
        for i in 0..n {
            let failed = events(&r, "message_routing_failed").iter().filter(|e| attr(e, "id").map_or(false, |x| x == *ids[i].id) && attr(e, "source_chain").map_or(false, |x| x == ids[i].chain.to_string())).count();
            if verified(i) { check(failed == 0, "verified message reported as not routed"); } else { check(failed == 1, "message that is not verified is not reported as not routed"); reach("reported"); }
        }
    } else {
        let sender = *pick(&["relayer", ROUTER], "sender");
        let r = gx(&mut st, &q, sender, gateway::msg::ExecuteMsg::VerifyMessages(batch.clone()));
        check(r.is_some() == !(duplicate || broken), "batch with a repeated id or without an answer accepted, or a good one refused");
        let r = match r { Some(r) => r, None => { reach("refused"); return } };
        let mut passed = vec![];
        let w = wasm_msgs(&r);
        check(w.len() == r.messages.len(), "the gateway sent something other than contract calls");
        for (to, b) in w {
            check(to == VERIFIER, "message to a contract other than the verifier");
            match from_binary(&b) { Ok(aggregate_verifier::msg::ExecuteMsg::VerifyMessages { messages }) => passed.extend(messages), _ => check(false, "the verifier is asked something else") }
        }
        let want: Vec<Message> = (0..n).filter(|i| !verified(*i)).map(|i| batch[i].clone()).collect();
        check(same_set(&passed, &want), "messages passed to the verifier are not exactly the unverified ones");
        if !want.is_empty() { reach("passed on"); }
    }
    // nothing of this delivers a message
    check(ids.iter().all(|i| outgoing(&st, vec![i.clone()]).is_none()), "an outgoing message appeared without the router");
}
#[no_mangle] pub extern "C" fn c10_batch1() { incoming(1, 7, false) }
#[no_mangle] pub extern "C" fn c10_batch2() { incoming(2, 7, false) }
#[no_mangle] pub extern "C" fn c10_batch3() { incoming(3, 7, false) }
#[no_mangle] pub extern "C" fn c10_batch4() { incoming(4, 4, false) }
#[no_mangle] pub extern "C" fn c10_large() { incoming(70, 1, false) }
#[no_mangle] pub extern "C" fn c10_ids2() { incoming(2, 4, true) }
#[no_mangle] pub extern "C" fn c10_ids3() { incoming(3, 1, true) }

// ---- C11 -------------------------------------------------------------------------------------
const IDS: [(usize, &str); 4] = [(0, "0xa:0"), (1, "0xa:0"), (0, "0xb:1"), (0, "0xA:0")];
fn deliveries(n: usize, max: u64) {
    let mut st = new_gateway();
    let mut model: BTreeMap<usize, Message> = BTreeMap::new();
    let yes = |_: &str, m: &Binary| -> StdResult<Binary> { match from_binary(m)? { aggregate_verifier::msg::QueryMsg::IsVerified { messages } => to_binary(&messages.into_iter().map(|m| (m.cc_id, true)).collect::<Vec<_>>()) } };
    for step in 0..n {
        let sender = *pick(&[ROUTER, "relayer", VERIFIER], "sender");
        let len = 1 + choose(max, "size of the batch") as usize;
        let mut batch = vec![];
        let mut which = vec![];
        for k in 0..len {
            let i = choose(if max == 3 { 3 } else { 4 }, "id") as usize;
            let mut m = message(IDS[i].0, IDS[i].1, 1);
            m.source_address = format!("from-{}-{}", step, k).parse().unwrap();
            which.push(i);
            batch.push(m);
        }
        let duplicate = (0..len).any(|a| (0..a).any(|b| which[a] == which[b]));
        let verify = sender != ROUTER && decide("verify");
        let m = if verify { gateway::msg::ExecuteMsg::VerifyMessages(batch.clone()) } else { gateway::msg::ExecuteMsg::RouteMessages(batch.clone()) };
        let r = gx(&mut st, &yes, sender, m);
        if sender == ROUTER {
            check(duplicate || r.is_some(), "delivery by the router refused");
            if r.is_some() { reach("delivered"); for (i, m) in which.iter().zip(batch) { model.insert(*i, m); } }
            if let Some(r) = r { check(r.messages.is_empty(), "a delivery is passed on"); }
        } else { reach("attempted by another"); }
    }
    // every id alone, and all delivered ones in two orders and with an unknown one among them
    let cc = |i: usize| if i == IDS.len() { id(2, "0xa:0") } else { id(IDS[i].0, IDS[i].1) };
    let mut lists: Vec<Vec<usize>> = (0..=IDS.len()).map(|i| vec![i]).collect();
    let known: Vec<usize> = model.keys().copied().collect();
    if let (Some(x), Some(y)) = (known.first(), known.last()) {
        lists.push(known.iter().rev().copied().chain([*y]).collect());
        lists.push(vec![*x, IDS.len(), *y]);
    }
    for l in lists {
        let got = outgoing(&st, l.iter().map(|i| cc(*i)).collect());
        let known = l.iter().all(|i| model.contains_key(i));
        check(got.is_some() == known, "query of delivered messages refused, or one of unknown messages answered");
        if let Some(g) = got { reach("queried"); let want: Vec<Message> = l.iter().map(|i| model[i].clone()).collect(); check(same_all(&g, &want), "outgoing messages are not what the router delivered, in the order asked"); } else { reach("unknown id"); }
    }
}
#[no_mangle] pub extern "C" fn c11_history2() { deliveries(2, 2) }
#[no_mangle] pub extern "C" fn c11_history3() { deliveries(3, 1) }
#[no_mangle] pub extern "C" fn c11_history2x3() { deliveries(2, 3) }
/// a large delivery, partly delivered again
#[no_mangle] pub extern "C" fn c11_large() {
    let mut st = new_gateway();
    let n = 120;
    let mut model = vec![];
    for i in 0..n { let mut m = message(i & 1, "x", 1); m.cc_id = id(i & 1, &format!("0xa{}:0", i / 2)); model.push(m); }
    check(gx(&mut st, &no_query, ROUTER, gateway::msg::ExecuteMsg::RouteMessages(model.clone())).is_some(), "delivery by the router refused");
    reach("delivered");
    let again = *pick(&[0usize, 7, 119], "delivered again");
    model[again].payload_hash[0] = any_u8("new payload");
    model[n - 1 - again].payload_hash[31] = any_u8("new payload");
    check(gx(&mut st, &no_query, ROUTER, gateway::msg::ExecuteMsg::RouteMessages(vec![model[again].clone(), model[n - 1 - again].clone()])).is_some(), "delivery by the router refused");
    match outgoing(&st, model.iter().map(|m| m.cc_id.clone()).collect()) { Some(g) => { reach("queried"); check(same_all(&g, &model), "outgoing messages are not what the router delivered, in the order asked") } None => check(false, "query of delivered messages refused") }
}
/// arbitrary ids: n messages in up to two batches, then a query of any id
fn any_delivered(n: usize) {
    flat_hash();
    let mut st = new_gateway();
    let mut sent: Vec<(u8, Message)> = vec![];
    let first = choose(n as u64 + 1, "size of the first batch") as usize;
    let named = |x: u8| CrossChainId { chain: chain(C[0]), id: format!("0x{}:0", hex_text(&[0xab, x], false)).try_into().unwrap() };
    for k in 0..n { let x = any_u8("id"); let mut m = message(0, "0xa:0", 1); m.cc_id = named(x); m.source_address = format!("from-{}", k).parse().unwrap(); sent.push((x, m)); }
    let mut kept: Vec<(u8, Message)> = vec![];
    for b in [&sent[..first], &sent[first..]] {
        if b.is_empty() { continue; }
        // whether a batch with a repeated id is refused is not settled here
        let r = gx(&mut st, &no_query, ROUTER, gateway::msg::ExecuteMsg::RouteMessages(b.iter().map(|x| x.1.clone()).collect()));
        let mut repeats = false;
        for i in 0..b.len() { for j in 0..i { repeats |= b[i].0 == b[j].0; } }
        check(repeats | r.is_some(), "delivery by the router refused");
        if r.is_some() { reach("delivered"); kept.extend(b.iter().cloned()); }
    }
    let x = any_u8("queried id");
    let mut known = false;
    for k in &kept { known |= k.0 == x; }
    match outgoing(&st, vec![named(x)]) {
        Some(g) => {
            reach("queried");
            check(known & (g.len() == 1), "query of unknown messages answered");
            // the last delivery of that id
            let mut ok = false;
            for k in &kept { let s = k.1.source_address == g[0].source_address && same(&Message { cc_id: g[0].cc_id.clone(), ..k.1.clone() }, &g[0]); ok = if k.0 == x { s } else { ok }; }
            check(ok && g[0].cc_id == named(x), "outgoing messages are not what the router delivered");
        }
        None => { reach("unknown id"); check(!known, "query of delivered messages refused") }
    }
}
#[no_mangle] pub extern "C" fn c11_ids2() { any_delivered(2) }
#[no_mangle] pub extern "C" fn c11_ids3() { any_delivered(3) }

// ---- nexus gateway ---------------------------------------------------------------------------
const NX: &str = "nexus";
/// the messages exchanged with nexus, in the format of the nexus module
#[derive(Serialize, Deserialize, Clone)]
struct NexusMessage { source_chain: String, source_address: String, destination_chain: String, destination_address: String, payload_hash: [u8; 32], source_tx_id: Vec<u8>, source_tx_index: u64 }
fn new_nexus() -> Store {
    let mut st = Store::new();
    check(tx(&mut st, &no_query, |d| nexus_gateway::contract::instantiate(d, env(1, 1, NEXUS), info("creator"), nexus_gateway::msg::InstantiateMsg { nexus: NX.into(), router: ROUTER.into() })).is_some(), "instantiation refused");
    st
}
/// messages to nexus and messages to the router
struct Sent { nexus: Vec<NexusMessage>, router: Vec<Message> }
fn nx(st: &mut Store, sender: &str, m: nexus_gateway::msg::ExecuteMsg) -> Option<Sent> {
    let r = tx(st, &no_query, |d| nexus_gateway::contract::execute(d, env(1, 1, NEXUS), info(sender), m))?;
    let mut s = Sent { nexus: vec![], router: vec![] };
    for m in r.messages {
        match m.msg {
            CosmosMsg::Custom(c) => match from_slice(&to_vec(&c).unwrap()) { Ok(c) => s.nexus.push(c), Err(_) => check(false, "message to nexus in another format") },
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) => {
                check(contract_addr == ROUTER, "message to a contract other than the router");
                match from_binary(&msg) { Ok(rmsg::ExecuteMsg::RouteMessages(ms)) => s.router.extend(ms), _ => check(false, "the router is asked something else") }
            }
            _ => check(false, "unexpected message"),
        }
    }
    Some(s)
}
fn to_nexus(ms: Vec<Message>) -> nexus_gateway::msg::ExecuteMsg { nexus_gateway::msg::ExecuteMsg::RouteMessages(ms) }
fn from_nexus(ms: &[NexusMessage]) -> nexus_gateway::msg::ExecuteMsg {
    #[derive(Serialize)] #[serde(rename_all = "snake_case")] enum M<'a> { RouteMessagesFromNexus(&'a [NexusMessage]) }
    from_slice(&to_vec(&M::RouteMessagesFromNexus(ms)).unwrap()).unwrap()
}
/// all histories of n batches
fn to_nexus_once(n: usize, max: u64) {
    let mut st = new_nexus();
    let ids: [(usize, &str, &[u8], u64); 4] = [(0, "0xaa:0", &[0xaa], 0), (1, "0xaa:0", &[0xaa], 0), (0, "0xaa:1", &[0xaa], 1), (0, "plain", b"plain", u64::MAX)];
    let mut sent = [0usize; 4];
    let mut accepted = [false; 4];
    for _ in 0..n {
        let sender = *pick(&[ROUTER, NX, "relayer", NEXUS], "sender");
        if decide("towards nexus") {
            let len = choose(max + 1, "size of the batch") as usize;
            let which: Vec<usize> = (0..len).map(|_| choose(4, "id") as usize).collect();
            let r = nx(&mut st, sender, to_nexus(which.iter().map(|i| { let mut m = fixed(ids[*i].0); m.cc_id = id(ids[*i].0, ids[*i].1); m }).collect()));
            check(r.is_some() == (sender == ROUTER), "messages towards nexus accepted from another than the router, or refused to it");
            if let Some(r) = r {
                check(r.router.is_empty(), "messages of the router sent back to it");
                for i in which { accepted[i] = true; }
                for m in r.nexus {
                    match ids.iter().position(|i| C[i.0] == m.source_chain && i.2 == m.source_tx_id && i.3 == m.source_tx_index) { Some(i) => sent[i] += 1, None => check(false, "a message the router did not send goes to nexus") }
                }
                reach("to nexus");
            } else { reach("refused"); }
        } else {
            let m = NexusMessage { source_chain: C[0].into(), source_address: "from".into(), destination_chain: C[1].into(), destination_address: "to".into(), payload_hash: [3; 32], source_tx_id: vec![0xaa], source_tx_index: 0 };
            let len = choose(max + 1, "size of the batch") as usize;
            let r = nx(&mut st, sender, from_nexus(&vec![m; len]));
            check(r.is_some() == (sender == NX), "messages towards the router accepted from another than nexus, or refused to it");
            if let Some(r) = r { check(r.nexus.is_empty() && r.router.len() == len, "messages from nexus do not all go to the router"); reach("to the router"); }
        }
        for i in 0..4 {
            check(sent[i] <= 1, "a message is sent to nexus more than once");
            check((sent[i] == 1) == accepted[i], "a message accepted from the router is not sent to nexus, or one is sent that was not accepted");
        }
    }
}
#[no_mangle] pub extern "C" fn c17_batch() { to_nexus_once(1, 3) }
#[no_mangle] pub extern "C" fn c17_history2() { to_nexus_once(2, 2) }
/// the ids of the messages are arbitrary: up to m messages of one chain in up to two batches, no id goes to nexus twice
fn any_ids(m: usize) {
    let mut st = new_nexus();
    let mut asked: Vec<(u8, u8)> = vec![];
    let mut sent: Vec<NexusMessage> = vec![];
    let first = choose(m as u64 + 1, "size of the first batch") as usize;
    let batch: Vec<Message> = (0..m).map(|_| {
        let t = any_u8("byte of the transaction id");
        let d = range(0, 9, "index") as u8;
        asked.push((t, d));
        let mut p = fixed(0);
        p.cc_id.id = format!("0x{}:{}", hex_text(&[0xab, t], false), (b'0' + d) as char).try_into().unwrap();
        p.payload_hash = any_hash();
        p
    }).collect();
    for b in [&batch[..first], &batch[first..]] {
        if b.is_empty() { continue; }
        match nx(&mut st, ROUTER, to_nexus(b.to_vec())) { Some(s) => sent.extend(s.nexus), None => check(false, "messages of the router refused") }
    }
    let is = |n: &NexusMessage, a: &(u8, u8)| (n.source_tx_id.len() == 2) && (n.source_tx_id[0] == 0xab) & (n.source_tx_id[1] == a.0) & (n.source_tx_index == a.1 as u64);
    for a in &asked { let mut k = 0u32; for n in &sent { k += is(n, a) as u32; } check(k == 1, "a message accepted from the router is not sent to nexus exactly once"); }
    for n in &sent {
        let mut from = false;
        for (a, m) in asked.iter().zip(&batch) { from |= is(n, a) & same_hash(&m.payload_hash, &n.payload_hash); }
        check(from, "what is sent to nexus is none of the messages accepted");
    }
    reach(if sent.len() == m { "all distinct" } else { "some the same" });
}
#[no_mangle] pub extern "C" fn c17_ids2() { any_ids(2) }
#[no_mangle] pub extern "C" fn c17_ids3() { any_ids(3) }
#[no_mangle] pub extern "C" fn c17_history3() { to_nexus_once(3, 2) }

// ---- C18 -------------------------------------------------------------------------------------
fn any_hash() -> [u8; 32] { let mut h = [9u8; 32]; h[0] = any_u8("payload hash, first byte"); h[17] = any_u8("payload hash, a middle byte"); h[31] = any_u8("payload hash, last byte"); h }
fn kept(m: &Message, n: &NexusMessage) {
    check(n.source_chain == m.cc_id.chain.to_string() && n.source_address == **m.source_address && n.destination_chain == m.destination_chain.to_string() && n.destination_address == **m.destination_address, "a field of the message changed");
    check(same_hash(&n.payload_hash, &m.payload_hash), "the payload hash changed");
}
fn one_to_nexus(i: String) -> (Message, NexusMessage) {
    let mut st = new_nexus();
    let m = Message { cc_id: CrossChainId { chain: chain(C[0]), id: i.try_into().unwrap() }, source_address: "0xFrom".parse().unwrap(), destination_chain: chain(C[1]), destination_address: "To".parse().unwrap(), payload_hash: any_hash() };
    match nx(&mut st, ROUTER, to_nexus(vec![m.clone()])) {
        Some(s) if s.nexus.len() == 1 => (m, s.nexus[0].clone()),
        _ => { check(false, "message not sent to nexus"); panic!("no message") }
    }
}
fn hex_text(v: &[u8], upper: bool) -> String { let mut s = String::new(); for b in v { for n in [b >> 4, b & 15] { s.push((n + b'0' + (n > 9) as u8 * (if upper { 7 } else { 39 })) as char); } } s }

/// decimal digits and the number they denote
fn any_digits(n: usize) -> (String, u128) {
    let (mut s, mut v) = (String::new(), 0u128);
    for _ in 0..n { let d = range(0, 9, "digit") as u8; s.push((b'0' + d) as char); v = v * 10 + d as u128; }
    (s, v)
}
fn tx_and_index(bytes_len: usize, prefix: &str, digits: usize) {
    let tx: Vec<u8> = (0..bytes_len).map(|_| any_u8("byte of the transaction id")).collect();
    let (d, v) = any_digits(digits);
    let v = prefix.bytes().fold(0u128, |v, c| v * 10 + (c - b'0') as u128) * 10u128.pow(digits as u32) + v;
    let id = format!("{}{}:{}{}", pick(&["0x", ""], "prefix"), hex_text(&tx, decide("upper case")), prefix, d);
    let (m, n) = one_to_nexus(id.clone());
    kept(&m, &n);
    if v <= u64::MAX as u128 {
        reach("denotes an index");
        check(n.source_tx_id == tx && n.source_tx_index as u128 == v, "the message sent to nexus does not carry the transaction id and index its id denotes");
    } else {
        reach("index too large");
        check(n.source_tx_id == id.as_bytes() && n.source_tx_index == u64::MAX, "an id of another form is not carried as it is");
    }
}
#[no_mangle] pub extern "C" fn c18_to_nexus() { let b = 1 + choose(2, "bytes") as usize; let d = 1 + choose(3, "digits") as usize; tx_and_index(b, "", d) }
#[no_mangle] pub extern "C" fn c18_to_nexus_long() { if decide("many digits") { tx_and_index(1, *pick(&["18446744073709551", "1844674407370955", "9999999999999999", "0000000000000000000000"], "first digits"), 3) } else { tx_and_index(32, "", 2) } }
#[no_mangle] pub extern "C" fn c18_other_ids() {
    let i = *pick(&["plain", "0xaa", "0xaa:1:2", "0xaa:", ":1", "0xa:1", "0xzz:1", "0x:1", "0xaa:-1", "aa:x", "aa:1 ", "0xaa:18446744073709551616", "aa;1"], "id");
    let (m, n) = one_to_nexus(i.into());
    kept(&m, &n);
    check(n.source_tx_id == i.as_bytes() && n.source_tx_index == u64::MAX, "an id of another form is not carried as it is");
    reach("carried as it is");
}
fn from_nexus_and_back(bytes_len: usize, index: u64) {
    let tx: Vec<u8> = (0..bytes_len).map(|_| any_u8("byte of the transaction id")).collect();
    let n = NexusMessage { source_chain: C[0].into(), source_address: "0xFrom".into(), destination_chain: C[1].into(), destination_address: "To".into(), payload_hash: any_hash(), source_tx_id: tx.clone(), source_tx_index: index };
    let mut st = new_nexus();
    let r = match nx(&mut st, NX, from_nexus(&[n.clone()])) { Some(s) if s.router.len() == 1 => s.router[0].clone(), _ => { check(false, "message from nexus not sent to the router"); return } };
    kept(&r, &n);
    check(*r.cc_id.id == format!("{}:{}", hex_text(&tx, false), index), "the id of the message is not made of the transaction id and index");
    reach("from nexus");
    // and back
    match nx(&mut st, ROUTER, to_nexus(vec![r.clone()])) {
        Some(s) if s.nexus.len() == 1 => { kept(&r, &s.nexus[0]); check(s.nexus[0].source_tx_id == tx && s.nexus[0].source_tx_index == index, "the transaction id and index do not survive the round trip"); reach("and back") }
        _ => check(false, "message not sent back to nexus"),
    }
}
#[no_mangle] pub extern "C" fn c18_from_nexus() { from_nexus_and_back(1 + choose(3, "bytes") as usize, any_u64("index")) }
#[no_mangle] pub extern "C" fn c18_from_nexus_values() { from_nexus_and_back(2, *pick(&[0, 1, 9, 10, 255, 256, 99999, u32::MAX as u64, u64::MAX - 1, u64::MAX], "index")) }
#[no_mangle] pub extern "C" fn c18_from_nexus_long() { from_nexus_and_back(32, any_u64("index")) }

// ---- C32 -------------------------------------------------------------------------------------
fn new_aggregate() -> Store {
    let mut st = Store::new();
    check(tx(&mut st, &no_query, |d| aggregate_verifier::contract::instantiate(d, env(1, 1, "aggregate"), info("creator"), aggregate_verifier::msg::InstantiateMsg { verifier_address: "voting".into() })).is_some(), "instantiation refused");
    st
}
fn three() -> Vec<Message> { vec![message(0, "0xa:0", 1), message(0, "0xb:1", 1), message(1, "0xa:0", 0)] }
/// what the voting verifier answers a verification request with
#[derive(Serialize, Deserialize, Clone, PartialEq)]
struct Statuses { verification_statuses: Vec<(CrossChainId, bool)> }
fn any_statuses(ms: &[Message]) -> Vec<(CrossChainId, bool)> { let n = choose(ms.len() as u64 + 1, "number of answers") as usize; ms[..n].iter().map(|m| (m.cc_id.clone(), flag("verified"))).collect() }
fn same_statuses(a: &[(CrossChainId, bool)], b: &[(CrossChainId, bool)]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 == y.1) }
#[no_mangle] pub extern "C" fn c32_request() {
    let mut st = new_aggregate();
    let n = choose(4, "number of messages") as usize;
    let ms = three()[..n].to_vec();
    let sender = *pick(&["gateway", "relayer"], "sender");
    let m = ms.clone();
    let r = tx(&mut st, &no_query, |d| aggregate_verifier::contract::execute(d, env(1, 1, "aggregate"), info(sender), aggregate_verifier::msg::ExecuteMsg::VerifyMessages { messages: m }));
    match r {
        Some(r) => {
            reach("passed on");
            check(r.messages.len() == 1 && r.messages[0].reply_on == ReplyOn::Success, "the answer of the verifier is not awaited, or a failure is swallowed");
            let w = wasm_msgs(&r);
            check(w.len() == 1 && w[0].0 == "voting", "the request does not go to the configured verifier");
            // the voting verifier's own message
            #[derive(Deserialize)] #[serde(rename_all = "snake_case")] enum V { VerifyMessages { messages: Vec<Message> } }
            match from_binary::<V>(&w[0].1) { Ok(V::VerifyMessages { messages }) => check(same_all(&messages, &ms), "the request is changed on its way"), Err(_) => check(false, "the request is not one for the verifier") }
        }
        None => check(false, "verification request refused"),
    }
}
#[no_mangle] pub extern "C" fn c32_query() {
    let st = new_aggregate();
    let ms = three();
    let statuses = any_statuses(&ms);
    let kind = choose(4, "kind of answer");
    let (s2, m2) = (statuses.clone(), ms.clone());
    let q = move |to: &str, m: &Binary| -> StdResult<Binary> {
        #[derive(Deserialize)] #[serde(rename_all = "snake_case")] enum V { IsVerified { messages: Vec<Message> } }
        let asked = match from_binary::<V>(m)? { V::IsVerified { messages } => messages };
        check(to == "voting" && same_all(&asked, &m2), "the query is changed on its way");
        match kind { 0 => to_binary(&s2), 1 => Err(StdError::generic_err("verifier failed")), 2 => Ok(Binary::from(b"not json".to_vec())), _ => to_binary(&true) }
    };
    let got: Option<Vec<(CrossChainId, bool)>> = ask(&st, &q, |d| aggregate_verifier::contract::query(d, env(1, 1, "aggregate"), aggregate_verifier::msg::QueryMsg::IsVerified { messages: ms }));
    check(got.is_some() == (kind == 0), "a failed or malformed answer became a success, or a good one a failure");
    if let Some(g) = got { reach("answered"); check(same_statuses(&g, &statuses), "the statuses are not the verifier's"); } else { reach("refused"); }
}
/// data field of the answer to an executed message: field 1, length delimited
fn wrapped(d: &[u8]) -> Binary {
    let mut v = vec![0x0a];
    let mut l = d.len();
    while l > 127 { v.push((l & 127) as u8 | 128); l >>= 7; }
    v.push(l as u8);
    v.extend_from_slice(d);
    Binary::from(v)
}
#[no_mangle] pub extern "C" fn c32_reply() {
    let mut st = new_aggregate();
    let statuses = any_statuses(&three());
    let kind = choose(8, "kind of answer");
    let ok = |data| SubMsgResult::Ok(SubMsgResponse { events: vec![], data });
    let result = match kind {
        0 => ok(Some(wrapped(&to_vec(&Statuses { verification_statuses: statuses.clone() }).unwrap()))),
        1 => ok(Some(wrapped(&to_vec(&statuses).unwrap()))),
        2 => ok(None),
        3 => ok(Some(wrapped(b"not json"))),
        4 => ok(Some(wrapped(&to_vec(&true).unwrap()))),
        5 => ok(Some(Binary::from(b"\x0a\x7fshort".to_vec()))),
        6 => ok(Some(Binary::default())),
        _ => SubMsgResult::Err("verifier failed".into()),
    };
    let r = tx(&mut st, &no_query, |d| aggregate_verifier::contract::reply(d, env(1, 1, "aggregate"), Reply { id: 0, result }));
    // the verifier in use answers in the first form; a plain list may be accepted as well
    check(kind == 1 || r.is_some() == (kind == 0), "a failed or malformed answer became a success, or a good one a failure");
    match r {
        Some(r) => {
            reach("answered");
            let d = r.data.unwrap_or_default();
            let got = from_binary::<Vec<(CrossChainId, bool)>>(&d).ok().or_else(|| from_binary::<Statuses>(&d).ok().map(|s| s.verification_statuses));
            match got { Some(g) => check(same_statuses(&g, &statuses), "the caller does not get the verifier's answer"), None => check(false, "the caller gets no answer") }
        }
        None => reach("refused"),
    }
}

// ---- C31 -------------------------------------------------------------------------------------
fn any_msg(kind: u64, tag: usize, must: bool) -> CosmosMsg {
    let to = format!("{}{}", if must { "must" } else { "may" }, tag);
    if kind == 0 { CosmosMsg::Bank(BankMsg::Send { to_address: to, amount: vec![Coin { denom: "uaxl".into(), amount: Uint128::new(any_u128("amount")) }] }) }
    else { CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: to, msg: Binary::from(vec![any_u8("message")]), funds: vec![] }) }
}
fn same_msg(a: &CosmosMsg, b: &CosmosMsg) -> bool {
    match (a, b) {
        (CosmosMsg::Bank(BankMsg::Send { to_address: x, amount: c }), CosmosMsg::Bank(BankMsg::Send { to_address: y, amount: d })) => x == y && c.len() == 1 && d.len() == 1 && c[0].denom == d[0].denom && c[0].amount == d[0].amount,
        (CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: x, msg: m, funds: f }), CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: y, msg: n, funds: g })) => x == y && m.len() == 1 && n.len() == 1 && m[0] == n[0] && f.is_empty() && g.is_empty(),
        _ => false,
    }
}
/// runs the batch's messages the way the chain does, with arbitrary outcomes
fn batch(max: u64) {
    let (a, b) = (choose(max + 1, "messages that must succeed") as usize, choose(max + 1, "messages that may fail") as usize);
    run_batch(a, b, &|_| true);
}
fn run_batch(a: usize, b: usize, may_fail_here: &dyn Fn(usize) -> bool) {
    let musts: Vec<CosmosMsg> = (0..a).map(|i| any_msg(i as u64 % 2, i, true)).collect();
    let mays: Vec<CosmosMsg> = (0..b).map(|i| any_msg((i as u64 + 1) % 2, i, false)).collect();
    let mut st = Store::new();
    let m = batching::msg::BatchMsg { must_succeed_msgs: musts.clone(), can_fail_msgs: mays.clone() };
    check(tx(&mut st, &no_query, |d| batching::contract::instantiate(d, env(1, 1, "batching"), info("creator"), batching::msg::InstantiateMsg {})).is_some(), "instantiation refused");
    let r = match tx(&mut st, &no_query, |d| batching::contract::execute(d, env(1, 1, "batching"), info("relayer"), batching::msg::ExecuteMsg::Batch(m))) { Some(r) => r, None => { check(false, "batch refused"); return } };
    // all of them, unchanged, each kind in its order
    check(r.messages.len() == a + b, "messages of the batch lost or added");
    let (mut im, mut ia) = (0, 0);
    let mut failed = false;
    for s in &r.messages {
        let must = im < a && same_msg(&s.msg, &musts[im]);
        let may = !must && ia < b && same_msg(&s.msg, &mays[ia]);
        check(must || may, "message of the batch changed or out of order");
        let succeeds = !may_fail_here(if must { im } else { a + ia }) || flag("succeeds");
        let index = ia;
        if must { im += 1; } else { ia += 1; }
        if succeeds {
            if s.reply_on == ReplyOn::Always || s.reply_on == ReplyOn::Success {
                let result = SubMsgResult::Ok(SubMsgResponse { events: vec![Event::new("inner")], data: None });
                match tx(&mut st, &no_query, |d| batching::contract::reply(d, env(1, 1, "batching"), Reply { id: s.id, result })) { Some(r) => check(event(&r, "failed_msg").is_none(), "a success is reported as a failure"), None => failed = true }
            }
            continue;
        }
        if s.reply_on == ReplyOn::Always || s.reply_on == ReplyOn::Error {
            let result = SubMsgResult::Err("it failed".into());
            match tx(&mut st, &no_query, |d| batching::contract::reply(d, env(1, 1, "batching"), Reply { id: s.id, result })) {
                Some(r) => {
                    check(!must, "the failure of a message that must succeed is ignored");
                    reach("failure reported");
                    let named = r.events.iter().any(|e| e.attributes.iter().any(|x| x.key == index.to_string() || x.value == index.to_string()));
                    check(named, "a failure is not reported in an event naming the message");
                }
                None => { check(must, "the failure of a message that may fail fails the batch"); failed = true }
            }
        } else { failed = true; check(must, "the failure of a message that may fail fails the batch"); }
        if failed { break; }
    }
    if failed { reach("batch failed"); } else { check(im == a && ia == b, "messages of the batch lost"); reach("batch done"); }
}
#[no_mangle] pub extern "C" fn c31_batch2() { batch(2) }
#[no_mangle] pub extern "C" fn c31_batch3() { batch(3) }
/// a batch longer than a byte can count
#[no_mangle] pub extern "C" fn c31_large() { run_batch(300, 300, &|i| [0, 255, 256, 299, 300, 301, 555, 556, 557, 599].contains(&i)) }

// ---- ids and chains that are easily taken for each other -------------------------------------
fn near_ids() -> Vec<CrossChainId> {
    let long = format!("0x{}", "a".repeat(64));
    let ids: Vec<(&str, String)> = vec![
        ("alpha", "0xab:0".into()), ("alpha", "ab:0".into()), ("alpha", "0xAB:0".into()), ("alpha", "0xab:00".into()), ("alpha", "0xab:1".into()), ("alpha", "0xab:10".into()), ("alpha", "0xab".into()), ("alpha", "0x00ab:0".into()), ("alpha", " 0xab:0".into()),
        ("beta", "0xab:0".into()), ("alphab", "0xab:0".into()), ("alpha", "b0xab:0".into()), ("alpha-0", "xab:0".into()), ("alpha", "-0xab:0".into()),
        ("alpha", format!("{}:0", long)), ("alpha", format!("{}:1", long)), ("alpha", format!("{}b:0", &long[..65])), ("alpha", format!("{}{}:0", long, "a".repeat(300))), ("alpha", format!("{}{}:1", long, "a".repeat(300))),
    ];
    ids.into_iter().map(|(c, i)| CrossChainId { chain: chain(c), id: i.parse().unwrap() }).collect()
}
fn near_pair() -> (Vec<CrossChainId>, usize, usize) {
    let ids = near_ids();
    let (i, j) = (choose(ids.len() as u64, "id") as usize, choose(ids.len() as u64, "other id") as usize);
    assume(i != j);
    (ids, i, j)
}
fn near(id: &CrossChainId, i: usize) -> Message { Message { cc_id: id.clone(), source_address: format!("from-{}", i).parse().unwrap(), ..fixed(0) } }
#[no_mangle] pub extern "C" fn c11_near() {
    let (ids, i, j) = near_pair();
    let mut st = new_gateway();
    let (a, b) = (near(&ids[i], i), near(&ids[j], j));
    let batches = if decide("one batch") { vec![vec![a.clone(), b.clone()]] } else { vec![vec![a.clone()], vec![b.clone()]] };
    for ms in batches { check(gx(&mut st, &no_query, ROUTER, gateway::msg::ExecuteMsg::RouteMessages(ms)).is_some(), "delivery by the router refused"); reach("delivered"); }
    for (k, x) in ids.iter().enumerate() {
        match outgoing(&st, vec![x.clone()]) {
            Some(g) => { reach("queried"); check((k == i && same_all(&g, &[a.clone()])) || (k == j && same_all(&g, &[b.clone()])), "outgoing messages are not what the router delivered, in the order asked") }
            None => { reach("unknown id"); check(k != i && k != j, "query of delivered messages refused") }
        }
    }
    check(outgoing(&st, vec![ids[j].clone(), ids[i].clone()]).map_or(false, |g| same_all(&g, &[b, a])), "outgoing messages are not what the router delivered, in the order asked");
}
#[no_mangle] pub extern "C" fn c10_near() {
    let (ids, i, j) = near_pair();
    let mut st = new_gateway();
    let (a, b) = (near(&ids[i], i), near(&ids[j], j));
    let yes = ids[i].clone();
    let reversed = decide("reversed");
    let ask = move |to: &str, m: &Binary| -> StdResult<Binary> {
        check(to == VERIFIER, "another contract is asked");
        match from_binary(m)? { aggregate_verifier::msg::QueryMsg::IsVerified { messages } => { let mut v: Vec<(CrossChainId, bool)> = messages.into_iter().map(|m| { let v = m.cc_id == yes; (m.cc_id, v) }).collect(); if reversed { v.reverse(); } to_binary(&v) } }
    };
    let r = match gx(&mut st, &ask, "relayer", gateway::msg::ExecuteMsg::RouteMessages(vec![a.clone(), b.clone()])) { Some(r) => r, None => { check(false, "messages refused"); return } };
    let d = delivered(&r);
    check(d.len() == 1 && d[0].0 == ROUTER && same_all(&d[0].1, &[a.clone()]), "messages passed to the router are not exactly the verified ones");
    let r = match gx(&mut st, &ask, "relayer", gateway::msg::ExecuteMsg::VerifyMessages(vec![a, b.clone()])) { Some(r) => r, None => { check(false, "messages refused"); return } };
    let w = wasm_msgs(&r);
    check(w.len() == 1 && w[0].0 == VERIFIER && matches!(from_binary(&w[0].1), Ok(aggregate_verifier::msg::ExecuteMsg::VerifyMessages { messages }) if same_all(&messages, &[b])), "messages passed to the verifier are not exactly the unverified ones");
    reach("routed");
}
#[no_mangle] pub extern "C" fn c13_near() {
    let (ids, i, j) = near_pair();
    let mut st = new_router();
    for (n, g) in [("alpha", GW[0]), ("gamma", GW[1])] { check(rx(&mut st, GOV, rmsg::ExecuteMsg::RegisterChain { chain: chain(n), gateway_address: g.into() }).is_some(), "registration refused"); }
    let ms: Vec<Message> = [i, j, i].iter().enumerate().map(|(n, k)| Message { destination_chain: chain(if n == 1 { "Gamma" } else { "gamma" }), ..near(&ids[*k], n) }).collect();
    let r = match rx(&mut st, NEXUS, rmsg::ExecuteMsg::RouteMessages(ms.clone())) { Some(r) => r, None => { check(false, "messages refused"); return } };
    let d = delivered(&r);
    check(d.len() == 1 && d[0].0 == GW[1] && same_all(&d[0].1, &ms), "messages are not delivered unchanged, once and in order");
    reach("delivered");
}
#[no_mangle] pub extern "C" fn c17_near() {
    let (ids, i, j) = near_pair();
    let mut st = new_nexus();
    let (a, b) = (near(&ids[i], i), near(&ids[j], j));
    let batches = match choose(4, "batches") { 0 => vec![vec![a.clone(), b.clone()]], 1 => vec![vec![a.clone()], vec![b.clone()]], 2 => vec![vec![a.clone()], vec![a.clone(), b.clone()], vec![b.clone()]], _ => vec![vec![a.clone(), b.clone(), a.clone()], vec![b.clone(), a.clone()]] };
    let mut sent = vec![];
    for ms in batches { match nx(&mut st, ROUTER, to_nexus(ms)) { Some(s) => { check(s.router.is_empty(), "messages of the router sent back to it"); sent.extend(s.nexus) } None => { check(false, "messages of the router refused"); return } } }
    let from: Vec<String> = sent.iter().map(|m| m.source_address.clone()).collect();
    check(from == vec![a.source_address.to_string(), b.source_address.to_string()], "a message accepted from the router is not sent to nexus exactly once");
    reach("sent");
}
/// chain names that are easily taken for each other
#[no_mangle] pub extern "C" fn c15_near() {
    let long = "ethereum-sepolia-testnet-".repeat(4);
    let names: Vec<String> = vec!["alpha".into(), "ALPHA".into(), "aLphA".into(), "alphab".into(), "alph".into(), "alpha-1".into(), "alpha1".into(), "alpha 1".into(), " alpha".into(), "alpha_1".into(), "a".into(), "A".into(), "chain-with-30-characters-in-it".into(), "Chain-With-30-Characters-In-iT".into(), "chain-with-30-characters-in-iu".into(), long.clone(), long.to_uppercase(), format!("{}x", &long[..99]), format!("{}x", long)];
    let (i, j) = (choose(names.len() as u64, "chain") as usize, choose(names.len() as u64, "other chain") as usize);
    let lower = |k: usize| names[k].to_ascii_lowercase();
    let mut st = new_router();
    check(rx(&mut st, GOV, rmsg::ExecuteMsg::RegisterChain { chain: chain(&names[i]), gateway_address: GW[0].into() }).is_some(), "registration refused");
    let other = lower(i) != lower(j);
    check(rx(&mut st, GOV, rmsg::ExecuteMsg::RegisterChain { chain: chain(&names[j]), gateway_address: GW[1].into() }).is_some() == other, "registration of a registered chain or serving gateway accepted, or a good one refused");
    if other { reach("two chains") } else { reach("one chain") }
    // freezing one of them leaves the other one as it is
    check(rx(&mut st, ADMIN, rmsg::ExecuteMsg::FreezeChain { chain: chain(&names[i]), direction: GatewayDirection::Bidirectional }).is_some(), "freezing refused");
    for (k, n) in names.iter().enumerate() {
        let e = endpoint(&st, n);
        if lower(k) == lower(i) { check(e.map_or(false, |e| e.gateway.address == GW[0] && bits(&e) == 3 && e.name == chain(n)), "a chain's gateway or freeze state is not the one its operations left"); }
        else if other && lower(k) == lower(j) { check(e.map_or(false, |e| e.gateway.address == GW[1] && bits(&e) == 0 && e.name == chain(n)), "a chain's gateway or freeze state is not the one its operations left"); }
        else { check(e.is_none(), "a chain is registered without registration or lost"); }
        let m = Message { cc_id: CrossChainId { chain: chain(n), id: "0xa:0".parse().unwrap() }, destination_chain: chain("zeta"), ..fixed(0) };
        check(rx(&mut st.clone(), GW[1], rmsg::ExecuteMsg::RouteMessages(vec![m.clone()])).is_some() == (other && lower(k) == lower(j)), "an address may route for a chain it is not the gateway of, or a gateway may not");
        check(rx(&mut st.clone(), GW[0], rmsg::ExecuteMsg::RouteMessages(vec![m])).is_none(), "the gateway of a frozen chain may route");
    }
    // upgrading the other one leaves the first one as it is
    if other {
        check(rx(&mut st, GOV, rmsg::ExecuteMsg::UpgradeGateway { chain: chain(&names[j]), contract_address: GW[2].into() }).is_some(), "upgrade refused");
        check(endpoint(&st, &names[i]).map_or(false, |e| e.gateway.address == GW[0] && bits(&e) == 3) && endpoint(&st, &names[j]).map_or(false, |e| e.gateway.address == GW[2] && bits(&e) == 0), "a chain's gateway or freeze state is not the one its operations left");
    }
}

// ---- identifiers -----------------------------------------------------------------------------
/// n arbitrary characters of printable ascii, without those that json escapes
fn text(n: usize, name: &str) -> String {
    let b: Vec<u8> = (0..n).map(|_| { let c = any_u8(name); assume(c.wrapping_sub(b' ') < 95); assume((c != b'"') & (c != b'\\')); c }).collect();
    String::from_utf8(b).unwrap()
}
fn lower(s: &str) -> Vec<u8> { s.bytes().map(|c| c | ((c.wrapping_sub(b'A') < 26) as u8) << 5).collect() }
fn same_bytes(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut d = 0u8; for i in 0..a.len() { d |= a[i] ^ b[i]; } d == 0 }
fn separated(s: &str) -> bool { s.bytes().fold(false, |a, c| a | (c == b':')) }
fn json<T: serde::de::DeserializeOwned>(s: &str) -> Option<T> { from_slice(s.as_bytes()).ok() }
fn c35_name(n: usize) {
    let s = text(n, "chain name");
    let good = n > 0 && !separated(&s);
    let want = lower(&s);
    for r in [s.parse::<ChainName>().ok(), ChainName::try_from(s.clone()).ok(), json::<ChainName>(&format!("\"{}\"", s))] {
        check(r.is_some() == good, "malformed chain name accepted, or a good one refused");
        if let Some(c) = r {
            check(same_bytes(c.as_ref().as_bytes(), &want), "a chain name is not the lower case form of its text");
            check(same_bytes(c.to_string().as_bytes(), &want) && same_bytes(String::from(c.clone()).as_bytes(), &want), "a chain name is printed as another text");
            check(c == s && c == c.to_string(), "a chain name differs from its own text");
            check(c.to_string().parse::<ChainName>().map_or(false, |d| d == c), "the printed chain name does not read back");
            check(from_slice::<ChainName>(&to_vec(&c).unwrap()).map_or(false, |d| d == c), "the serialized chain name does not read back");
            reach("accepted");
        } else { reach("refused"); }
    }
}
#[no_mangle] pub extern "C" fn c35_name1() { c35_name(choose(2, "length") as usize) }
#[no_mangle] pub extern "C" fn c35_name3() { c35_name(3) }
/// two chain names are equal exactly when their texts are, in lower case
#[no_mangle] pub extern "C" fn c35_names() {
    let (a, b) = (text(choose(3, "length") as usize + 1, "chain name"), text(choose(3, "other length") as usize + 1, "other chain name"));
    let (x, y) = match (a.parse::<ChainName>(), b.parse::<ChainName>()) { (Ok(x), Ok(y)) => (x, y), _ => return };
    let eq = same_bytes(&lower(&a), &lower(&b));
    if eq { reach("equal") } else { reach("different") }
    check((x == y) == eq && (x == b) == eq && (y == a) == eq, "chain names are equal although their texts differ, or the other way round");
}
/// text of an id: chain, separator, id
#[no_mangle] pub extern "C" fn c35_id_text() {
    let n = choose(6, "length") as usize;
    let s = text(n, "id");
    let cut = (0..n).find(|i| decide_byte(s.as_bytes()[*i]));
    let good = cut.map_or(false, |k| k > 0 && k + 1 < n);
    let r = s.parse::<CrossChainId>().ok();
    check(r.is_some() == good, "malformed message id accepted, or a good one refused");
    match r {
        Some(i) => {
            let k = cut.unwrap();
            check(same_bytes(i.chain.as_ref().as_bytes(), &lower(&s[..k])) && same_bytes(i.id.as_bytes(), s[k + 1..].as_bytes()), "a message id is not split at its first separator");
            check(i.to_string().parse::<CrossChainId>().map_or(false, |j| j == i), "the printed message id does not read back");
            check(from_slice::<CrossChainId>(&to_vec(&i).unwrap()).map_or(false, |j| j == i), "the serialized message id does not read back");
            reach("accepted");
        }
        None => reach("refused"),
    }
}
fn decide_byte(c: u8) -> bool { c == b':' }
/// two message ids print as the same text exactly when they are equal
#[no_mangle] pub extern "C" fn c35_ids() {
    let t = |n: usize, what: &str| text(n, what);
    let (la, lb) = (choose(2, "length of the chain") as usize + 1, choose(2, "length of the other chain") as usize + 1);
    let total = 4;
    let (ca, ia, cb, ib) = (t(la, "chain"), t(total - la, "id"), t(lb, "other chain"), t(total - lb, "other id"));
    let (x, y) = match (ca.parse::<ChainName>(), cb.parse::<ChainName>()) { (Ok(c), Ok(d)) => (CrossChainId { chain: c, id: ia.parse().unwrap() }, CrossChainId { chain: d, id: ib.parse().unwrap() }), _ => return };
    let eq = same_bytes(&lower(&ca), &lower(&cb)) && same_bytes(ia.as_bytes(), ib.as_bytes());
    check((x == y) == eq, "message ids are equal although chain or id differ, or the other way round");
    check(same_bytes(x.to_string().as_bytes(), y.to_string().as_bytes()) == eq, "two message ids are printed as the same text");
    if eq { reach("equal") } else { reach("different") }
}
/// ids of messages as storage keys: what is kept under one is found under it alone, and read back when listed
#[no_mangle] pub extern "C" fn c35_keys() {
    let lens = [(1usize, 3usize), (2, 2), (3, 1)];
    let ((a, b), (c, d)) = (*pick(&lens[..], "lengths"), *pick(&lens[..], "other lengths"));
    let l = |n: usize, what: &str| { let b: Vec<u8> = (0..n).map(|_| { let c = any_u8(what); assume(c.wrapping_sub(b'a') < 26); c }).collect(); String::from_utf8(b).unwrap() };
    let x = CrossChainId { chain: chain(&"abcd"[..a]), id: "abcd"[4 - b..].parse().unwrap() };
    let y = CrossChainId { chain: chain(&l(c, "other chain")), id: l(d, "other id").parse().unwrap() };
    let mut st = new_gateway();
    let m = Message { cc_id: x.clone(), ..fixed(0) };
    check(gx(&mut st, &no_query, ROUTER, gateway::msg::ExecuteMsg::RouteMessages(vec![m.clone()])).is_some(), "delivery refused");
    let eq = a == c && same_bytes(x.chain.as_ref().as_bytes(), y.chain.as_ref().as_bytes()) && same_bytes(x.id.as_bytes(), y.id.as_bytes());
    let found = outgoing(&st, vec![y]);
    check(found.is_some() == eq, "a message is found under another id, or not found under its own");
    if let Some(f) = found { check(f.len() == 1 && same_bytes(f[0].cc_id.id.as_bytes(), x.id.as_bytes()), "another message is found under an id"); reach("found"); } else { reach("not found"); }
}
/// the payload hash in messages: 32 bytes in hex, nothing else
#[no_mangle] pub extern "C" fn c35_payload_hash() {
    let n = *pick(&[0usize, 1, 31, 32, 33, 64][..], "bytes");
    let mut h = vec![0xabu8; n];
    if n > 0 { h[0] = any_u8("first byte"); h[n - 1] = any_u8("last byte"); }
    #[derive(Serialize)]
    struct Loose { cc_id: CrossChainId, source_address: String, destination_chain: String, destination_address: String, payload_hash: HexBinary }
    let t = to_vec(&Loose { cc_id: id(0, "0xa:0"), source_address: "from".into(), destination_chain: "beta".into(), destination_address: "to".into(), payload_hash: HexBinary::from(h.clone()) }).unwrap();
    let m = from_slice::<Message>(&t).ok();
    check(m.is_some() == (n == 32), "a payload hash of another length is accepted, or a good one refused");
    if let Some(m) = m {
        check(same_bytes(&m.payload_hash, &h), "another payload hash is read");
        check(from_slice::<Message>(&to_vec(&m).unwrap()).map_or(false, |k| same(&k, &m)), "the serialized message does not read back");
        reach("accepted");
    } else { reach("refused"); }
}
/// letters beyond ascii
#[no_mangle] pub extern "C" fn c35_unicode() {
    let names = ["École", "école", "ÉCOLE", "ΑΣ", "ας", "Straße", "STRASSE", "İstanbul", "日本", "ÅNGSTRÖM", "ångström", "ПОЛЬ"];
    let (i, j) = (choose(names.len() as u64, "chain") as usize, choose(names.len() as u64, "other chain") as usize);
    let (a, b) = match (names[i].parse::<ChainName>(), json::<ChainName>(&format!("\"{}\"", names[j]))) { (Ok(a), Some(b)) => (a, b), _ => { check(false, "malformed chain name accepted, or a good one refused"); return } };
    check(a.as_ref() == names[i].to_lowercase() && b.to_string() == names[j].to_lowercase(), "a chain name is not the lower case form of its text");
    let eq = names[i].to_lowercase() == names[j].to_lowercase();
    check((a == b) == eq && (a == names[j].to_string()) == eq, "chain names are equal although their texts differ, or the other way round");
    check(a.to_string().parse::<ChainName>().map_or(false, |d| d == a) && from_slice::<ChainName>(&to_vec(&b).unwrap()).map_or(false, |d| d == b), "the printed chain name does not read back");
    if eq { reach("equal") } else { reach("different") }
}

entries! { c35_unicode, c35_name1, c35_name3, c35_names, c35_id_text, c35_ids, c35_keys, c35_payload_hash, c10_near, c11_near, c13_near, c15_near, c17_near, c12_any_sender1, c12_any_sender2, c12_history, c12_sources4, c12_large, c13_nexus3, c13_large, c13_batch2, c13_batch3, c13_batch4, c14_step, c14_history2, c14_history3, c15_step, c15_history2, c15_history3, c10_batch1, c10_batch2, c10_batch3, c10_batch4, c10_large, c10_ids2, c10_ids3, c11_history2, c11_history3, c11_history2x3, c11_large, c11_ids2, c11_ids3, c17_batch, c17_history2, c17_history3, c17_ids2, c17_ids3,
    c18_to_nexus, c18_to_nexus_long, c18_other_ids, c18_from_nexus, c18_from_nexus_values, c18_from_nexus_long, c32_request, c32_query, c32_reply, c31_batch2, c31_batch3, c31_large }
