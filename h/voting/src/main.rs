//! Harnesses over contracts/voting-verifier.
use axelar_wasm_std::operators::Operators;
use axelar_wasm_std::voting::{PollId, PollState, Vote};
use axelar_wasm_std::{MajorityThreshold, Threshold};
use connection_router::state::{ChainName, CrossChainId, Message};
use cosmwasm_std::*;
use serde::Deserialize;
use service_registry::state::{AuthorizationState, BondingState, Worker};
use std::collections::BTreeSet;
use voting_verifier::contract as vv;
use voting_verifier::msg::{EndPollResponse, ExecuteMsg, InstantiateMsg, QueryMsg, VerifyMessagesResponse};
use voting_verifier::state::{Poll, PollContent, POLLS, POLL_MESSAGES};
use vxlib::attr;
use vxlib::*;

const SELF: &str = "voting";
const REGISTRY: &str = "registry";
const REWARDS: &str = "rewards";
const W: [&str; 4] = ["workerone", "workertwo", "workerthree", "workerfour"];
const V: [Vote; 3] = [Vote::SucceededOnChain, Vote::FailedOnChain, Vote::NotFound];
/// the messages of the histories
const IDS: [&str; 4] = ["0xaa:0", "0xab:1", "0xac:7", "0xad:3"];

fn chain(s: &str) -> ChainName { s.parse().unwrap() }
fn message(i: usize) -> Message {
    Message { cc_id: CrossChainId { chain: chain("alpha"), id: IDS[i].parse().unwrap() }, source_address: "0xfrom".parse().unwrap(), destination_chain: chain("beta"), destination_address: "0xto".parse().unwrap(), payload_hash: [i as u8 + 1; 32] }
}
fn majority(num: u64, den: u64) -> Option<MajorityThreshold> { MajorityThreshold::try_from(Threshold::try_from((num, den)).ok()?).ok() }
fn new_verifier(threshold: MajorityThreshold, block_expiry: u64) -> Store {
    let mut st = Store::new();
    let m = InstantiateMsg { service_registry_address: REGISTRY.parse().unwrap(), service_name: "verify".parse().unwrap(), source_gateway_address: "0xgateway".parse().unwrap(), voting_threshold: threshold, block_expiry, confirmation_height: 5, source_chain: chain("alpha"), rewards_address: REWARDS.into() };
    check(tx(&mut st, &no_query, |d| vv::instantiate(d, env(1, 1, SELF), info("creator"), m)).is_some(), "instantiation refused");
    st
}
/// the service registry's answer: the given workers are active for the source chain
fn active(who: &'static [usize]) -> impl Fn(&str, &Binary) -> StdResult<Binary> {
    move |to: &str, m: &Binary| {
        if to != REGISTRY { return Err(StdError::generic_err("no such contract")); }
        match from_binary(m)? {
            service_registry::msg::QueryMsg::GetActiveWorkers { service_name, chain_name } => {
                check(service_name == "verify" && chain_name == chain("alpha"), "workers of another service or chain are asked for");
                to_binary(&who.iter().map(|i| Worker { address: Addr::unchecked(W[*i]), bonding_state: BondingState::Bonded { amount: Uint128::new(100 + *i as u128) }, authorization_state: AuthorizationState::Authorized, service_name: "verify".into() }).collect::<Vec<_>>())
            }
            _ => Err(StdError::generic_err("unexpected query")),
        }
    }
}
type Asks<'a> = &'a dyn Fn(&str, &Binary) -> StdResult<Binary>;
fn ex(st: &mut Store, q: Asks, height: u64, sender: &str, m: ExecuteMsg) -> Option<Response> { tx(st, q, |d| vv::execute(d, env(height, 1, SELF), info(sender), m)) }
fn statuses(st: &Store, ms: Vec<Message>) -> Option<Vec<(CrossChainId, bool)>> { ask(st, &no_query, |d| vv::query(d, env(1, 1, SELF), QueryMsg::IsVerified { messages: ms })) }
fn verified(st: &Store, m: &Message) -> bool {
    match statuses(st, vec![m.clone()]) { Some(s) if s.len() == 1 && s[0].0 == m.cc_id => s[0].1, _ => { check(false, "no verification status for a message"); false } }
}
fn set_verified(st: &Store, s: &Operators) -> bool {
    match ask(st, &no_query, |d| vv::query(d, env(1, 1, SELF), QueryMsg::IsWorkerSetVerified { new_operators: s.clone() })) { Some(b) => b, None => { check(false, "no verification status for a worker set"); false } }
}
/// what a poll event says
struct Started { id: PollId, items: Vec<(String, u64)>, expires: u64, participants: BTreeSet<String> }
fn number(s: &str) -> Option<u64> { if s.starts_with('~') { parse_u64(s).ok() } else { s.parse().ok() } }
fn started(r: &Response, ty: &str) -> Option<Started> {
    #[derive(Deserialize)] struct Item { tx_id: String, event_index: u64 }
    let es = events(r, ty);
    check(es.len() <= 1, "several polls in one request");
    let e = *es.get(0)?;
    let get = |k: &str| attr(e, k).unwrap_or_default();
    let items: Vec<Item> = if ty == "messages_poll_started" { match from_slice(get("messages").as_bytes()) { Ok(v) => v, Err(_) => { check(false, "event does not list the messages"); vec![] } } } else { vec![] };
    let id = match from_slice(get("poll_id").as_bytes()) { Ok(i) => i, Err(_) => { check(false, "event does not name the poll"); PollId::from(0) } };
    let expires = match number(get("expires_at")) { Some(x) => x, None => { check(false, "event does not say when the poll expires"); 0 } };
    let participants: BTreeSet<String> = from_slice::<Vec<String>>(get("participants").as_bytes()).unwrap_or_default().into_iter().collect();
    Some(Started { id, items: items.into_iter().map(|i| (i.tx_id, i.event_index)).collect(), expires, participants })
}
/// a poll as this harness sees it
#[derive(Clone)]
struct P { id: PollId, items: Vec<usize>, n: usize, w: Vec<Uint256>, quorum: Uint256, expires: u64, v: Vec<Option<Vec<usize>>>, ended: bool }
impl P {
    fn sum(&self, item: usize, c: usize) -> Uint256 { let mut t = Uint256::zero(); for i in 0..self.n { if let Some(v) = &self.v[i] { if v[item] == c { t += self.w[i]; } } } t }
    fn outcome(&self, item: usize) -> Option<usize> { (0..3).find(|c| self.sum(item, *c) >= self.quorum) }
    fn succeeded(&self, m: usize) -> bool { match self.items.iter().position(|x| *x == m) { Some(k) => self.sum(k, 0) >= self.quorum, None => false } }
}
/// gives the participants of a fresh poll any weights, with any quorum a majority threshold can give
fn any_weights(st: &mut Store, p: &mut P) {
    let mut poll = POLLS.load(st, p.id).unwrap();
    let mut total = Uint256::zero();
    {
        let x = match &mut poll { Poll::Messages(x) | Poll::ConfirmWorkerSet(x) => x };
        for i in 0..p.n {
            let w = Uint256::from(any_u128("weight"));
            assume(!w.is_zero());
            total += w;
            p.w[i] = w;
            x.participation.get_mut(W[i]).unwrap().weight = w.try_into().unwrap();
        }
        p.quorum = Uint256::from(any_u128("quorum.lo")) + (Uint256::from(range(0, 3, "quorum.hi")) << 128);
        assume(p.quorum <= total && p.quorum + p.quorum > total);
        x.quorum = p.quorum.try_into().unwrap();
    }
    POLLS.save(st, p.id, &poll).unwrap();
}
const ALL: [&[usize]; 5] = [&[], &[0], &[0, 1], &[0, 1, 2], &[0, 1, 2, 3]];
/// asks to verify the given messages; Some if that opened a poll
fn request(st: &mut Store, height: u64, ms: &[usize], workers: usize, all: &mut Vec<P>) -> Option<usize> {
    let r = match ex(st, &active(ALL[workers]), height, "relayer", ExecuteMsg::VerifyMessages { messages: ms.iter().map(|i| message(*i)).collect() }) { Some(r) => r, None => { check(false, "verification request refused"); return None } };
    let s = started(&r, "messages_poll_started")?;
    let mut items = vec![];
    for (t, i) in &s.items {
        match IDS.iter().position(|x| **x == format!("{}:{}", t, i)) { Some(k) => items.push(k), None => check(false, "a poll on something not asked for") }
    }
    check(all.iter().all(|p| p.id != s.id), "two polls share an id");
    all.push(P { id: s.id, items, n: workers, w: vec![Uint256::one(); workers], quorum: Uint256::zero(), expires: s.expires, v: vec![None; workers], ended: false });
    Some(all.len() - 1)
}
fn request_set(st: &mut Store, height: u64, set: &Operators, workers: usize, all: &mut Vec<P>) -> Option<usize> {
    let r = ex(st, &active(ALL[workers]), height, "relayer", ExecuteMsg::VerifyWorkerSet { message_id: "0xaf:2".parse().unwrap(), new_operators: set.clone() })?;
    let s = match started(&r, "worker_set_poll_started") { Some(s) => s, None => { check(false, "no poll for a worker set"); return None } };
    check(all.iter().all(|p| p.id != s.id), "two polls share an id");
    all.push(P { id: s.id, items: vec![usize::MAX], n: workers, w: vec![Uint256::one(); workers], quorum: Uint256::zero(), expires: s.expires, v: vec![None; workers], ended: false });
    Some(all.len() - 1)
}
fn cast(st: &mut Store, height: u64, p: &mut P, who: usize, v: Vec<usize>) -> bool {
    let ok = ex(st, &no_query, height, W[who], ExecuteMsg::Vote { poll_id: p.id, votes: v.iter().map(|c| V[*c].clone()).collect() }).is_some();
    if ok { p.v[who] = Some(v); }
    ok
}
/// every worker votes anything in the poll, or nothing
fn all_vote(st: &mut Store, height: u64, p: &mut P) {
    for i in 0..p.n {
        if !decide("votes") { continue; }
        let v = p.items.iter().map(|_| choose(3, "vote") as usize).collect();
        check(cast(st, height, p, i, v), "vote of a participant refused");
    }
}
/// ends the poll after its expiry; the outcomes and the rewarded workers have to be those of the votes
fn end(st: &mut Store, height: u64, p: &mut P) {
    let r = match ex(st, &no_query, height, "relayer", ExecuteMsg::EndPoll { poll_id: p.id }) { Some(r) => r, None => { check(false, "expired poll cannot be ended"); return } };
    p.ended = true;
    let out: Vec<Option<usize>> = (0..p.items.len()).map(|k| p.outcome(k)).collect();
    match r.data.as_ref().map(|d| from_binary::<EndPollResponse>(d)) {
        Some(Ok(EndPollResponse { poll_result: PollState { results, poll_id, .. } })) => {
            check(poll_id == p.id && results.len() == out.len(), "result of another poll");
            for (a, b) in results.iter().zip(&out) { check(*a == b.map(|c| V[c].clone()), "a result is not the vote that reached the quorum"); }
        }
        _ => check(false, "no result of an ended poll"),
    }
    let mut rewarded = vec![];
    let w = wasm_msgs(&r);
    check(w.len() == r.messages.len(), "ending a poll sends something other than participation records");
    for (to, m) in w {
        check(to == REWARDS, "participation recorded elsewhere");
        match from_binary(&m) { Ok(rewards::msg::ExecuteMsg::RecordParticipation { event_id, worker_address }) => { check(*event_id == p.id.to_string(), "participation recorded for another event"); rewarded.push(worker_address) } _ => check(false, "ending a poll sends something other than participation records") }
    }
    let mut k = 0;
    for i in 0..p.n {
        let agrees = match &p.v[i] { Some(v) => out.iter().zip(v).all(|(o, v)| o.map_or(true, |c| c == *v)), None => false };
        check(rewarded.iter().any(|a| a == W[i]) == agrees, "recorded participants are not the workers that voted with every outcome");
        if agrees { k += 1; }
    }
    check(rewarded.len() == k, "recorded participants are not the workers that voted with every outcome");
}
fn agrees(st: &Store, ms: &[usize], all: &[P], latest: &dyn Fn(usize) -> Option<usize>) {
    for m in ms {
        let want = latest(*m).map_or(false, |p| all[p].succeeded(*m));
        if want { reach("verified"); } else { reach("not verified"); }
        check(verified(st, &message(*m)) == want, "a message is reported verified without a quorum of votes for it, or not in spite of one");
    }
}

// ---- C06 -------------------------------------------------------------------------------------
/// one poll over two messages, any weights and votes
fn one_poll(workers: usize, items: usize, ending: bool) {
    let expiry = any_u64("block expiry");
    let h = any_u64("height");
    assume(h.checked_add(expiry).is_some() && expiry > 0);
    let mut st = new_verifier(majority(2, 3).unwrap(), expiry);
    let mut all = vec![];
    let ms: Vec<usize> = (0..items).collect();
    let p = match request(&mut st, h, &ms, workers, &mut all) { Some(p) => p, None => { check(false, "no poll opened"); return } };
    check(all[p].items.len() == items, "messages missing from the poll");
    any_weights(&mut st, &mut all[p]);
    let h1 = any_u64("height of the votes");
    assume(h1 >= h && h1 < all[p].expires);
    all_vote(&mut st, h1, &mut all[p]);
    let asked: Vec<usize> = (0..items + 1).collect();
    let latest = |m: usize| if m < items { Some(p) } else { None };
    if !ending { agrees(&st, &asked, &all, &latest); return; }
    // an early end is refused, a late one changes nothing
    let early = any_u64("height of the early end");
    assume(early < all[p].expires);
    check(ex(&mut st, &no_query, early, "relayer", ExecuteMsg::EndPoll { poll_id: all[p].id }).is_none(), "poll ended early");
    let late = any_u64("height of the end");
    assume(late >= all[p].expires);
    end(&mut st, late, &mut all[p]);
    reach("ended");
    agrees(&st, &asked, &all, &latest);
    check(ex(&mut st, &no_query, late, "relayer", ExecuteMsg::EndPoll { poll_id: all[p].id }).is_none(), "poll ended twice");
    check(!cast(&mut st, late, &mut all[p], 0, vec![0; items]), "vote after the end of the poll");
}
#[no_mangle] pub extern "C" fn c06_poll2x2() { one_poll(2, 2, true) }
#[no_mangle] pub extern "C" fn c06_poll3x1() { one_poll(3, 1, true) }
#[no_mangle] pub extern "C" fn c06_poll3x2() { one_poll(3, 2, false) }
#[no_mangle] pub extern "C" fn c06_poll4x1() { one_poll(4, 1, true) }
/// several polls at once: votes count where they are cast only
fn three_polls(workers: usize) {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let mut all = vec![];
    let set = operators(3, 5);
    let first = decide("worker set first");
    if first { request_set(&mut st, 1, &set, workers, &mut all); }
    request(&mut st, 2, &[0], workers, &mut all);
    request(&mut st, 3, &[1], workers, &mut all);
    if !first { request_set(&mut st, 4, &set, workers, &mut all); }
    if all.len() != 3 { check(false, "no poll opened"); return; }
    for p in all.iter_mut() { any_weights(&mut st, p); }
    for p in all.iter_mut() { all_vote(&mut st, 5, p); }
    let (a, b, s) = if first { (1, 2, 0) } else { (0, 1, 2) };
    agrees(&st, &[0, 1, 2], &all, &|m| if m == 0 { Some(a) } else if m == 1 { Some(b) } else { None });
    check(set_verified(&st, &set) == (all[s].sum(0, 0) >= all[s].quorum), "a worker set is reported confirmed without a quorum of votes for it, or not in spite of one");
}
#[no_mangle] pub extern "C" fn c06_three_polls1() { three_polls(1) }
#[no_mangle] pub extern "C" fn c06_three_polls2() { three_polls(2) }
/// a message polled again counts the votes of its latest poll
fn polled_again(workers: usize) {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let mut all = vec![];
    if request(&mut st, 1, &[0], workers, &mut all).is_none() { check(false, "no poll opened"); return; }
    any_weights(&mut st, &mut all[0]);
    all_vote(&mut st, 2, &mut all[0]);
    end(&mut st, 20, &mut all[0]);
    let done = all[0].succeeded(0);
    let ms: &[usize] = if decide("order") { &[0, 1] } else { &[1, 0] };
    let p = match request(&mut st, 21, ms, workers, &mut all) { Some(p) => p, None => { check(false, "no poll opened for a message that was never polled"); return } };
    check(all[p].items.contains(&1), "a message that was never polled is not polled");
    if done { reach("not polled again"); check(all[p].items.len() == 1, "a verified message is polled again"); } else { reach("polled again"); check(all[p].items.len() == 2 && all[p].items.contains(&0), "an unresolved message cannot be polled again"); }
    any_weights(&mut st, &mut all[p]);
    check(!cast(&mut st, 22, &mut all[0], 0, vec![0]), "vote in an ended poll");
    all_vote(&mut st, 22, &mut all[p]);
    agrees(&st, &[0, 1, 2], &all, &|m| if m == 0 { Some(if done { 0 } else { p }) } else if m == 1 { Some(p) } else { None });
}
#[no_mangle] pub extern "C" fn c06_again1() { polled_again(1) }
#[no_mangle] pub extern "C" fn c06_again2() { polled_again(2) }

/// a request for messages of which some are verified or in a poll already: the votes in the new poll count for the messages they are for
fn mixed(n: usize, lists: &[&[usize]]) {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let mut all: Vec<P> = vec![];
    let mut latest: Vec<Option<usize>> = vec![None; n];
    for m in 0..n {
        let k = choose(3, "earlier polls of the message");
        if k == 0 { continue; }
        let p = match request(&mut st, 1, &[m], 1, &mut all) { Some(p) => p, None => { check(false, "no poll opened for a message that was never polled"); return } };
        all[p].quorum = Uint256::one();
        latest[m] = Some(p);
        if k == 2 { check(cast(&mut st, 2, &mut all[p], 0, vec![0]), "vote of a participant refused"); }
    }
    let fresh: Vec<usize> = (0..n).filter(|m| latest[*m].is_none()).collect();
    let pending: Vec<usize> = all.iter().enumerate().filter(|(_, p)| p.v[0].is_none()).map(|(i, _)| i).collect();
    let list: Vec<usize> = pick(lists, "messages asked for").to_vec();
    let p = request(&mut st, 3, &list, 1, &mut all);
    check(p.is_some() == !fresh.is_empty(), "no poll for messages that were never polled, or one for none");
    if let Some(p) = p {
        all[p].quorum = Uint256::one();
        let mut items = all[p].items.clone(); items.sort();
        check(items == fresh, "a poll is opened for other messages than the unresolved ones");
        for m in &fresh { latest[*m] = Some(p); }
        all_vote(&mut st, 4, &mut all[p]);
    }
    let of: Vec<usize> = (0..n).collect();
    agrees(&st, &of, &all, &|m| latest[m]);
    if decide("vote in the earlier polls") { for i in pending { let v = choose(2, "vote") as usize; check(cast(&mut st, 5, &mut all[i], 0, vec![v]), "vote of a participant refused"); } }
    agrees(&st, &of, &all, &|m| latest[m]);
    if let Some(p) = p {
        reach("ended");
        let mut q = all[p].clone();
        end(&mut st, 50, &mut q);
        all[p] = q;
        agrees(&st, &of, &all, &|m| latest[m]);
    }
}
#[no_mangle] pub extern "C" fn c06_mixed3() { mixed(3, &[&[0, 1, 2], &[2, 1, 0]]) }
#[no_mangle] pub extern "C" fn c06_mixed4() { mixed(4, &[&[0, 1, 2, 3], &[3, 1, 0, 2]]) }

// ---- C07 -------------------------------------------------------------------------------------
/// brings a message into one of the states a message can be in: (verified, may be polled)
fn prepare(st: &mut Store, m: usize, all: &mut Vec<P>) -> (bool, bool) {
    let k = choose(9, "earlier polls of the message");
    if k == 0 { return (false, true); }
    let p = match request(st, 1, &[m], 1, all) { Some(p) => p, None => { check(false, "no poll opened for a message that was never polled"); return (false, true) } };
    let mut p = all[p].clone();
    match k {
        1 => (false, false),
        2 | 3 | 4 => { cast(st, 2, &mut p, 0, vec![k as usize - 2]); (k == 2, false) }
        5 | 6 | 7 => { cast(st, 2, &mut p, 0, vec![k as usize - 5]); p.quorum = Uint256::one(); end(st, 50, &mut p); (k == 5, k != 5) }
        _ => { p.quorum = Uint256::one(); end(st, 50, &mut p); (false, true) }
    }
}
fn requests(n: usize, lists: &[&[usize]]) {
    let expiry = range(2, 40, "block expiry");
    let mut st = new_verifier(majority(2, 3).unwrap(), expiry);
    let mut all = vec![];
    let s: Vec<(bool, bool)> = (0..n).map(|m| prepare(&mut st, m, &mut all)).collect();
    let list: Vec<usize> = pick(lists, "messages asked for").to_vec();
    let h = any_u64("height");
    assume(h >= 50 && h.checked_add(expiry).is_some());
    let before = st.clone();
    let r = match ex(&mut st, &active(&[0, 2]), h, "relayer", ExecuteMsg::VerifyMessages { messages: list.iter().map(|i| message(*i)).collect() }) { Some(r) => r, None => { check(false, "verification request refused"); return } };
    check(r.messages.is_empty(), "a request sends messages");
    // the answer
    match r.data.as_ref().map(|d| from_binary::<VerifyMessagesResponse>(d)) {
        Some(Ok(VerifyMessagesResponse { verification_statuses: v })) => {
            check(v.len() == list.len(), "the answer does not cover every message asked for");
            for (x, m) in v.iter().zip(&list) { check(x.0 == message(*m).cc_id && x.1 == s[*m].0, "a status in the answer is wrong"); }
        }
        _ => check(false, "no answer to a verification request"),
    }
    let want: Vec<usize> = list.iter().copied().filter(|m| s[*m].1).collect();
    match started(&r, "messages_poll_started") {
        None => { reach("no poll"); check(want.is_empty(), "an unresolved message is not polled"); check(st.0 == before.0, "a request without a poll changes the state") }
        Some(e) => {
            reach("poll");
            let items: BTreeSet<String> = e.items.iter().map(|i| format!("{}:{}", i.0, i.1)).collect();
            let w: BTreeSet<String> = want.iter().map(|m| IDS[*m].to_string()).collect();
            check(items == w, "a poll is opened for other messages than the unresolved ones");
            check(e.expires == h + expiry, "a poll lasts for another than the configured time");
            check(e.participants.iter().map(|s| s.as_str()).eq([W[0], W[2]]), "participants are not the active workers");
            // only they can vote, and only now
            let v = || vec![Vote::SucceededOnChain; e.items.len()];
            let (early, late) = (range(0, u64::MAX, "height of a vote"), range(0, u64::MAX, "height of a late vote"));
            assume(early < e.expires && late >= e.expires);
            let vote = |st: &mut Store, h: u64, who: &str| ex(st, &no_query, h, who, ExecuteMsg::Vote { poll_id: e.id, votes: v() }).is_some();
            check(!vote(&mut st, early, W[1]) && !vote(&mut st, early, "relayer"), "vote of a worker that is not active accepted");
            check(!vote(&mut st, late, W[0]), "vote after the expiry accepted");
            check(vote(&mut st, early, W[2]), "vote of an active worker refused");
            // with two workers and a threshold of two thirds one vote is not enough
            for m in 0..n { check(verified(&st, &message(m)) == s[m].0, "one of two votes verifies a message, or the status of another one changed"); }
            check(vote(&mut st, early, W[0]), "vote of an active worker refused");
            for m in 0..n { check(verified(&st, &message(m)) == (s[m].0 || want.contains(&m)), "votes of all workers do not verify a message, or the status of another one changed"); }
        }
    }
}
#[no_mangle] pub extern "C" fn c07_request2() { requests(2, &[&[0], &[0, 1], &[1, 0], &[0, 0], &[0, 1, 0]]) }
#[no_mangle] pub extern "C" fn c07_request3() { requests(3, &[&[0, 1, 2], &[2, 0, 1]]) }
/// the quorum of a poll is the configured share of the active workers
#[no_mangle] pub extern "C" fn c07_quorum() {
    let (num, den) = (any_u64("numerator"), any_u64("denominator"));
    let t = match majority(num, den) { Some(t) => t, None => return };
    let mut st = new_verifier(t, 10);
    let n = 1 + choose(4, "active workers") as usize;
    let mut all = vec![];
    let p = if decide("worker set") { request_set(&mut st, 1, &operators(3, 5), n, &mut all) } else { request(&mut st, 1, &[0], n, &mut all) };
    let p = match p { Some(p) => p, None => { check(false, "no poll opened"); return } };
    let is_set = all[p].items[0] == usize::MAX;
    for i in 0..n {
        check(cast(&mut st, 2, &mut all[p], i, vec![0]), "vote of an active worker refused");
        let k = i as u128 + 1;
        let enough = k * den as u128 >= n as u128 * num as u128;
        if enough { reach("enough"); } else { reach("not enough"); }
        let got = if is_set { set_verified(&st, &operators(3, 5)) } else { verified(&st, &message(0)) };
        check(got == enough, "the share of votes needed is not the configured threshold");
    }
}
/// requests without effect
#[no_mangle] pub extern "C" fn c07_refused() {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let mut foreign = message(1);
    foreign.cc_id.chain = chain("gamma");
    let good = message(0);
    let kind = choose(7, "kind of request");
    let ms = match kind { 0 => vec![], 1 => vec![foreign], 2 => vec![good, foreign], 3 => vec![foreign, good], 4 => vec![good, foreign, message(2)], _ => vec![good] };
    let q = move |to: &str, m: &Binary| -> StdResult<Binary> { if kind == 5 { Err(StdError::generic_err("registry failed")) } else { active(if kind == 6 { &[] } else { &[0, 1] })(to, m) } };
    let before = st.clone();
    let r = ex(&mut st, &q, 5, "relayer", ExecuteMsg::VerifyMessages { messages: ms });
    check(r.is_none(), "a request that is empty, names another chain or finds no workers is accepted");
    check(st.0 == before.0, "a refused request changes the state");
    // the next one works
    let mut all = vec![];
    check(request(&mut st, 6, &[0, 1], 2, &mut all).map_or(false, |p| all[p].items.len() == 2), "a refused request blocks later ones");
    reach("refused");
}

// ---- C08 -------------------------------------------------------------------------------------
fn operators(weight: u128, threshold: u128) -> Operators {
    Operators::new(vec![(HexBinary::from(vec![0xa1; 20]), Uint256::from(weight)), (HexBinary::from(vec![0xb2; 20]), Uint256::from(7u128))], Uint256::from(threshold))
}
/// polls for two worker sets and a message; any weights and votes
fn two_sets(workers: usize) {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let (s0, s1) = (operators(3, 5), operators(3, 6));
    let mut all = vec![];
    check(!set_verified(&st, &s0), "a worker set is reported confirmed without a poll");
    request_set(&mut st, 1, &s0, workers, &mut all);
    request_set(&mut st, 1, &s1, workers, &mut all);
    if all.len() != 2 { check(false, "no poll opened"); return; }
    for p in all.iter_mut() { any_weights(&mut st, p); all_vote(&mut st, 2, p); }
    let done: Vec<bool> = all.iter().map(|p| p.sum(0, 0) >= p.quorum).collect();
    check(set_verified(&st, &s0) == done[0] && set_verified(&st, &s1) == done[1], "a worker set is reported confirmed without a quorum of votes for it, or not in spite of one");
    check(!set_verified(&st, &operators(4, 5)), "a worker set is reported confirmed without a poll");
    check(!verified(&st, &message(0)), "votes for worker sets verify a message");
    // ending changes nothing
    if decide("end") { end(&mut st, 30, &mut all[0]); check(set_verified(&st, &s0) == done[0] && set_verified(&st, &s1) == done[1], "ending a poll changes what is confirmed"); }
    // again
    let again = request_set(&mut st, 31, &s0, workers, &mut all);
    if done[0] { reach("confirmed"); check(again.is_none(), "a confirmed worker set is put up for verification again"); } else { reach("not confirmed"); check(all[0].ended <= again.is_some(), "an unresolved worker set cannot be put up again"); }
    check(set_verified(&st, &s0) == done[0] && set_verified(&st, &s1) == done[1], "asking for verification changes what is confirmed");
}
#[no_mangle] pub extern "C" fn c08_sets1() { two_sets(1) }
#[no_mangle] pub extern "C" fn c08_sets2() { two_sets(2) }
#[no_mangle] pub extern "C" fn c08_sets3() { two_sets(3) }
/// the same set put up twice
#[no_mangle] pub extern "C" fn c08_again() {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let s0 = operators(3, 5);
    let mut all = vec![];
    request_set(&mut st, 1, &s0, 2, &mut all);
    if all.len() != 1 { check(false, "no poll opened"); return; }
    any_weights(&mut st, &mut all[0]);
    all_vote(&mut st, 2, &mut all[0]);
    let first = all[0].sum(0, 0) >= all[0].quorum;
    if decide("end") { end(&mut st, 20, &mut all[0]); }
    let second = request_set(&mut st, 21, &s0, 2, &mut all);
    check(!(first && second.is_some()), "a confirmed worker set is put up for verification again");
    if let Some(p) = second { any_weights(&mut st, &mut all[p]); all_vote(&mut st, 22, &mut all[p]); }
    // votes in the open first poll, if any
    let got = set_verified(&st, &s0);
    let by = all.iter().any(|p| p.sum(0, 0) >= p.quorum);
    check(!got | by, "a worker set is reported confirmed without a quorum of votes for it");
    check(got || !(first || second.map_or(false, |p| all[p].sum(0, 0) >= all[p].quorum)), "a worker set is not reported confirmed in spite of a quorum of votes for it");
    if got { reach("confirmed"); } else { reach("not confirmed"); }
}
/// a quorum for one set confirms no other
#[no_mangle] pub extern "C" fn c08_identity() {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let (w0, t0, w1, t1) = (any_u64("weight"), any_u64("threshold"), any_u64("other weight"), any_u64("other threshold"));
    let (s0, s1) = (operators(w0 as u128, t0 as u128), operators(w1 as u128, t1 as u128));
    let mut all = vec![];
    if request_set(&mut st, 1, &s0, 1, &mut all).is_none() { check(false, "no poll opened"); return; }
    check(cast(&mut st, 2, &mut all[0], 0, vec![0]), "vote of a participant refused");
    let same = (w0 == w1) & (t0 == t1);
    check(set_verified(&st, &s0), "a quorum of votes does not confirm a worker set");
    check(set_verified(&st, &s1) == same, "a worker set is confirmed by votes for another one");
    if same { reach("same set"); } else { reach("another set"); }
    let r = request_set(&mut st, 3, &s1, 1, &mut all);
    check(r.is_some() == !same, "a confirmed worker set is put up again, or another one cannot be");
}

// ---- C09 -------------------------------------------------------------------------------------
fn letters(n: usize, name: &str) -> Vec<u8> { (0..n).map(|_| { let c = any_u8(name); assume(c.wrapping_sub(b'a') < 26); c }).collect() }
fn text(b: &[u8]) -> String { String::from_utf8(b.to_vec()).unwrap() }
struct Parts { id: Vec<u8>, index: u8, from: Vec<u8>, dest: Vec<u8>, to: Vec<u8>, hash: [u8; 2] }
fn parts(l: [usize; 4]) -> Parts { Parts { id: letters(l[0], "id"), index: range(0, 9, "index") as u8, from: letters(l[1], "source address"), dest: letters(l[2], "destination chain"), to: letters(l[3], "destination address"), hash: [any_u8("payload hash"), any_u8("payload hash")] } }
impl Parts {
    fn message(&self) -> Message {
        let mut payload_hash = [5u8; 32];
        payload_hash[0] = self.hash[0];
        payload_hash[31] = self.hash[1];
        Message { cc_id: CrossChainId { chain: chain("alpha"), id: format!("{}:{}", text(&self.id), (b'0' + self.index) as char).parse().unwrap() }, source_address: text(&self.from).parse().unwrap(), destination_chain: text(&self.dest).parse().unwrap(), destination_address: text(&self.to).parse().unwrap(), payload_hash }
    }
    fn same(&self, o: &Parts) -> bool {
        let mut d = (self.index ^ o.index) | (self.hash[0] ^ o.hash[0]) | (self.hash[1] ^ o.hash[1]);
        for (a, b) in [(&self.id, &o.id), (&self.from, &o.from), (&self.dest, &o.dest), (&self.to, &o.to)] { if a.len() != b.len() { return false; } for (x, y) in a.iter().zip(b) { d |= x ^ y; } }
        d == 0
    }
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool { let mut d = 0; for (x, y) in a.iter().zip(b) { d |= x ^ y; } d == 0 && a.len() == b.len() }
/// messages with fields of equal lengths
#[no_mangle] pub extern "C" fn c09_identity() {
    let l = *pick(&[[2, 2, 2, 2], [1, 3, 2, 1], [4, 1, 3, 2], [3, 2, 1, 4]], "lengths");
    let (a, b) = (parts(l), parts(l));
    let (m, n) = (a.message(), b.message());
    let same = a.same(&b);
    check(same_bytes(&m.hash(), &n.hash()) == same, "different messages share an identity, or one message has two");
    // the chain of the id counts as well
    let mut other = n.clone();
    other.cc_id.chain = chain("alphb");
    check(!same_bytes(&m.hash(), &other.hash()), "messages of different chains share an identity");
    if same { reach("same message"); } else { reach("different messages"); }
}
/// the verification of one message says nothing about another one and does not block it
#[no_mangle] pub extern "C" fn c09_status() {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let l = [2, 2, 2, 2];
    let (a, b) = (parts(l), parts(l));
    let (m, n) = (a.message(), b.message());
    let same = a.same(&b);
    let r = match ex(&mut st, &active(ALL[1]), 1, "relayer", ExecuteMsg::VerifyMessages { messages: vec![m.clone()] }) { Some(r) => r, None => { check(false, "verification request refused"); return } };
    let p = match attr(event(&r, "messages_poll_started").unwrap(), "poll_id").and_then(|s| from_slice::<PollId>(s.as_bytes()).ok()) { Some(p) => p, None => { check(false, "no poll opened"); return } };
    let votes = decide("voted");
    if votes { check(ex(&mut st, &no_query, 2, W[0], ExecuteMsg::Vote { poll_id: p, votes: vec![Vote::SucceededOnChain] }).is_some(), "vote of a participant refused"); }
    check(verified(&st, &m) == votes, "status of the message voted on");
    check(verified(&st, &n) == (votes & same), "the status of one message is reported for another one");
    match ex(&mut st, &active(ALL[1]), 3, "relayer", ExecuteMsg::VerifyMessages { messages: vec![n.clone()] }) {
        Some(r) => check(event(&r, "messages_poll_started").is_some() == !same, "one message blocks the verification of another one"),
        None => check(false, "one message blocks the verification of another one"),
    }
    check(verified(&st, &m) == votes, "asking for another message changed a status");
    if same { reach("same message"); } else { reach("different messages"); }
}
/// messages whose fields differ in length: the same total, one byte moved from one field to the next
fn boundary(i: usize, what: &str) {
    let mut l = [2, 2, 2, 2];
    let a = parts(l);
    l[i] += 1;
    l[i + 1] -= 1;
    let b = parts(l);
    check(!same_bytes(&a.message().hash(), &b.message().hash()), what);
    reach("compared");
}
#[no_mangle] pub extern "C" fn c09_boundary_source() { boundary(1, "identity shared across the boundary of source address and destination chain") }
#[no_mangle] pub extern "C" fn c09_boundary_chain() { boundary(2, "identity shared across the boundary of destination chain and destination address") }
/// the same between the id and the source address: the id's index takes a digit of the address
#[no_mangle] pub extern "C" fn c09_boundary_id() {
    let (a, b) = (parts([2, 2, 2, 2]), parts([2, 1, 2, 2]));
    let d = range(0, 9, "digit") as u8;
    let mut m = a.message();
    m.source_address = format!("{}{}", (b'0' + d) as char, text(&a.from[1..])).parse().unwrap();
    let mut n = b.message();
    n.cc_id.id = format!("{}:{}{}", text(&b.id), (b'0' + b.index) as char, (b'0' + d) as char).parse().unwrap();
    check(!same_bytes(&m.hash(), &n.hash()), "identity shared across the boundary of id and source address");
    reach("compared");
}

/// addresses and ids in letters of either case
#[no_mangle] pub extern "C" fn c09_case() {
    let any = |n: usize, name: &str| -> Vec<u8> { (0..n).map(|_| { let c = any_u8(name); assume((c | 0x20).wrapping_sub(b'a') < 26); c }).collect() };
    let make = || { let mut p = parts([2, 2, 2, 2]); p.id = any(2, "id"); p.from = any(3, "source address"); p.to = any(3, "destination address"); p };
    let (a, b) = (make(), make());
    let same = a.same(&b);
    check(same_bytes(&a.message().hash(), &b.message().hash()) == same, "different messages share an identity, or one message has two");
    if same { reach("same message"); } else { reach("different messages"); }
}
/// long fields that differ in one place
#[no_mangle] pub extern "C" fn c09_long() {
    let field = choose(5, "field") as usize;
    let at = *pick(&[0usize, 1, 20, 31, 32, 33, 63, 64, 65, 79][..], "position");
    let (x, y) = (any_u8("byte"), any_u8("other byte"));
    if field == 4 { assume(at < 32) } else { assume((x.wrapping_sub(b'a') < 26) & (y.wrapping_sub(b'a') < 26)); }
    let make = |c: u8| {
        let f = |i: usize| -> String { let mut v: Vec<u8> = (0..80usize).map(|k| b'a' + ((k + i) % 26) as u8).collect(); if field == i { v[at] = c; } text(&v) };
        let mut payload_hash = [9u8; 32];
        if field == 4 { payload_hash[at] = c; }
        Message { cc_id: CrossChainId { chain: chain("alpha"), id: format!("{}:1", f(0)).parse().unwrap() }, source_address: f(1).parse().unwrap(), destination_chain: f(2).parse().unwrap(), destination_address: f(3).parse().unwrap(), payload_hash }
    };
    check(same_bytes(&make(x).hash(), &make(y).hash()) == (x == y), "different messages share an identity, or one message has two");
    if x == y { reach("same message"); } else { reach("different messages"); }
}
/// ids that differ in their form only
#[no_mangle] pub extern "C" fn c09_forms() {
    let ids = ["0xab:1", "0xAB:1", "ab:1", "0xab:01", "0xab:1 ", " 0xab:1", "0xab-1", "0x0ab:1", "0xab:10", "0xab", "0xab:1:1", "0Xab:1"];
    let (i, j) = (choose(ids.len() as u64, "id") as usize, choose(ids.len() as u64, "other id") as usize);
    let of = |k: usize| { let mut m = message(0); m.cc_id.id = ids[k].parse().unwrap(); m };
    check(same_bytes(&of(i).hash(), &of(j).hash()) == (i == j), "different messages share an identity, or one message has two");
    // an address, too
    let addr = |k: usize, to: bool| { let mut m = message(0); let a = format!("0x{}{}", ["ab", "AB", "aB", "0ab", "ab0"][k], "cd"); if to { m.destination_address = a.parse().unwrap() } else { m.source_address = a.parse().unwrap() } m };
    let (k, l, to) = (choose(5, "address") as usize, choose(5, "other address") as usize, decide("destination address"));
    check(same_bytes(&addr(k, to).hash(), &addr(l, to).hash()) == (k == l), "different messages share an identity, or one message has two");
}

// ---- many messages, polls, workers -----------------------------------------------------------
fn many(i: usize) -> Message { let mut m = message(0); m.cc_id.id = format!("0xb{}:{}", i / 3, i % 3).parse().unwrap(); m.payload_hash = [i as u8; 32]; m }
fn workers(n: usize) -> impl Fn(&str, &Binary) -> StdResult<Binary> {
    move |to: &str, m: &Binary| {
        check(to == REGISTRY, "another contract is asked");
        match from_binary(m)? {
            service_registry::msg::QueryMsg::GetActiveWorkers { .. } => to_binary(&(0..n).map(|i| Worker { address: Addr::unchecked(format!("worker{}", i)), bonding_state: BondingState::Bonded { amount: Uint128::new(100 + i as u128) }, authorization_state: AuthorizationState::Authorized, service_name: "verify".into() }).collect::<Vec<_>>()),
            _ => Err(StdError::generic_err("unexpected query")),
        }
    }
}
fn named(n: usize) -> PollId { PollId::from(n as u64) }
fn put(st: &mut Store, h: u64, ms: &[Message], n: usize) -> Started {
    match ex(st, &workers(n), h, "relayer", ExecuteMsg::VerifyMessages { messages: ms.to_vec() }) {
        Some(r) => match started(&r, "messages_poll_started") { Some(s) => s, None => { check(false, "an unresolved message is not polled"); Started { id: named(9999), items: vec![], expires: 0, participants: BTreeSet::new() } } },
        None => { check(false, "verification request refused"); Started { id: named(9999), items: vec![], expires: 0, participants: BTreeSet::new() } }
    }
}
fn vote(st: &mut Store, h: u64, id: PollId, who: usize, v: &[usize]) { check(ex(st, &no_query, h, &format!("worker{}", who), ExecuteMsg::Vote { poll_id: id, votes: v.iter().map(|c| V[*c].clone()).collect() }).is_some(), "vote of a participant refused"); }
fn sends(r: &Response) -> BTreeSet<String> { wasm_msgs(r).iter().map(|(_, m)| match from_binary(m) { Ok(rewards::msg::ExecuteMsg::RecordParticipation { worker_address, .. }) => worker_address, _ => String::new() }).collect() }
fn some_statuses(st: &Store, ms: &[Message], which: &[usize], want: &dyn Fn(usize) -> bool) {
    let mut w: Vec<usize> = which.iter().copied().filter(|i| *i < ms.len()).collect();
    w.sort();
    w.dedup();
    let few: Vec<Message> = w.iter().map(|i| ms[*i].clone()).collect();
    all_statuses(st, &few, &|i| want(w[i]))
}
fn all_statuses(st: &Store, ms: &[Message], want: &dyn Fn(usize) -> bool) {
    match statuses(st, ms.to_vec()) {
        Some(s) => { check(s.len() == ms.len(), "no verification status for a message"); for (i, m) in ms.iter().enumerate() { check(s.iter().filter(|x| x.0 == m.cc_id).all(|x| x.1 == want(i)) && s.iter().any(|x| x.0 == m.cc_id), "a message is reported verified without a quorum of votes for it, or not in spite of one"); if want(i) { reach("verified") } else { reach("not verified") } } }
        None => check(false, "no verification status for a message"),
    }
}
/// a poll of 70 messages with one vote that differs, at any of several places
#[no_mangle] pub extern "C" fn c06_large() {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let n = 70;
    let ms: Vec<Message> = (0..n).map(many).collect();
    let s = put(&mut st, 1, &ms, 3);
    // the poll lists every message once
    let mut order = vec![];
    for (t, i) in &s.items { match ms.iter().position(|m| *m.cc_id.id == format!("{}:{}", t, i)) { Some(k) => order.push(k), None => check(false, "a poll on something not asked for") } }
    check(order.len() == n && (0..n).all(|k| order.contains(&k)), "messages missing from the poll");
    let odd = *pick(&[0usize, 32, 64, 69][..], "the message voted on differently");
    let usual = choose(2, "vote on the others") as usize;
    let mut with = [0; 3];
    for w in 0..3 {
        let v = choose(3, "vote") as usize;
        with[w] = v;
        let list: Vec<usize> = order.iter().map(|k| if *k == odd { v } else { usual }).collect();
        vote(&mut st, 2, s.id, w, &list);
    }
    let out = (0..3).find(|c| with.iter().filter(|x| **x == *c).count() >= 2);
    let want = |i: usize| if i == odd { out == Some(0) } else { usual == 0 };
    some_statuses(&st, &ms, &[odd, 0, 33, n - 1, odd + 1], &want);
    let r = match ex(&mut st, &no_query, 11, "relayer", ExecuteMsg::EndPoll { poll_id: s.id }) { Some(r) => r, None => { check(false, "expired poll cannot be ended"); return } };
    match r.data.as_ref().map(|d| from_binary::<EndPollResponse>(d)) {
        Some(Ok(x)) => { check(x.poll_result.results.len() == n, "result of another poll"); for (k, v) in order.iter().zip(&x.poll_result.results) { check(*v == if *k == odd { out.map(|c| V[c].clone()) } else { Some(V[usual].clone()) }, "a result is not the vote that reached the quorum"); } }
        _ => check(false, "no result of an ended poll"),
    }
    let agree: BTreeSet<String> = (0..3).filter(|w| out.map_or(true, |c| c == with[*w])).map(|w| format!("worker{}", w)).collect();
    check(sends(&r) == agree, "recorded participants are not the workers that voted with every outcome");
    some_statuses(&st, &ms, &[odd, 0, 33, n - 1, odd + 1], &want);
    reach("ended");
}
/// many polls of one message each, of which any one may fail
#[no_mangle] pub extern "C" fn c06_many_polls() {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let n = 24;
    let ms: Vec<Message> = (0..n).map(many).collect();
    let ids: Vec<PollId> = ms.iter().map(|m| put(&mut st, 1, &[m.clone()], 3).id).collect();
    check((0..n).all(|i| (0..i).all(|j| ids[i] != ids[j])), "two polls share an id");
    let odd = choose(n as u64, "the poll that is voted on") as usize;
    let mut yes = 0;
    for w in 0..3 { let v = choose(2, "vote") as usize; if v == 0 { yes += 1; } vote(&mut st, 2, ids[odd], w, &[v]); }
    let rest = decide("vote on the others");
    for i in 0..n { if i != odd && rest { for w in 0..2 { vote(&mut st, 2, ids[i], w, &[0]); } } }
    all_statuses(&st, &ms, &|i| if i == odd { yes >= 2 } else { rest });
    check(ex(&mut st, &no_query, 11, "relayer", ExecuteMsg::EndPoll { poll_id: ids[odd] }).is_some(), "expired poll cannot be ended");
    all_statuses(&st, &ms, &|i| if i == odd { yes >= 2 } else { rest });
}
/// two polls whose ids are far apart and share their low or their high bytes
#[no_mangle] pub extern "C" fn c06_far_ids() {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let s = put(&mut st, 1, &[many(0)], 3);
    let base: u64 = String::from(s.id).parse().unwrap_or(1);
    let far = PollId::from(base.wrapping_add(*pick(&[1u64 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 48, 1 << 56, 1 << 63][..], "distance of the ids")));
    let other = match POLLS.load(&st, s.id) { Ok(Poll::Messages(mut p)) => { p.poll_id = far; Poll::Messages(p) } _ => { check(false, "poll is not stored"); return } };
    POLLS.save(&mut st, far, &other).unwrap();
    POLL_MESSAGES.save(&mut st, &many(1).hash(), &PollContent::<Message>::new(many(1), far, 0)).unwrap();
    let ms = [many(0), many(1)];
    let mut yes = [0, 0];
    for (k, id) in [s.id, far].into_iter().enumerate() { for w in 0..3 { let v = choose(2, "vote") as usize; if v == 0 { yes[k] += 1; } vote(&mut st, 2, id, w, &[v]); } }
    all_statuses(&st, &ms, &|i| yes[i] >= 2);
    let mut names = BTreeSet::new();
    for id in [s.id, far] {
        let r = match ex(&mut st, &no_query, 11, "relayer", ExecuteMsg::EndPoll { poll_id: id }) { Some(r) => r, None => { check(false, "expired poll cannot be ended"); return } };
        let of: BTreeSet<String> = wasm_msgs(&r).iter().map(|(to, m)| { check(to == REWARDS, "participation is recorded elsewhere"); match from_binary(m) { Ok(rewards::msg::ExecuteMsg::RecordParticipation { event_id, .. }) => event_id.to_string(), _ => String::new() } }).collect();
        check(of.len() == 1, "the participations of one poll are recorded for several events");
        for e in of { check(names.insert(e), "two polls share the event that participation is recorded for"); }
        all_statuses(&st, &ms, &|i| yes[i] >= 2);
    }
}
/// however many polls there were, the next one has an id of its own
#[no_mangle] pub extern "C" fn c06_next_id() {
    use axelar_wasm_std::counter::Counter;
    let at = any_u64("polls so far");
    assume(at < u64::MAX - 1);
    let mut st = Store::default();
    st.set(b"count", to_binary(&at).unwrap().as_slice());
    let c: Counter<u64> = Counter::new("count");
    assume(c.cur(&st) == at);
    let a = c.incr(&mut st);
    let b = c.incr(&mut st);
    check(matches!((a, b), (Ok(a), Ok(b)) if a > at && b > a), "two polls share an id");
    reach("incremented");
}
/// forty workers
#[no_mangle] pub extern "C" fn c06_workers() {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let n = 40;
    let ms = [many(0)];
    let s = put(&mut st, 1, &ms, n);
    check(s.participants.len() == n, "participants are not the active workers");
    // 27 of 40 are needed
    let yes = *pick(&[0usize, 1, 10, 26, 27, 28, 39, 40][..], "votes for");
    let first = decide("the first workers vote for");
    let no = choose(2, "votes against") == 1;
    for w in 0..n { let k = if first { w } else { n - 1 - w }; if k < yes { vote(&mut st, 2, s.id, w, &[0]); } else if no { vote(&mut st, 2, s.id, w, &[1]); } }
    all_statuses(&st, &ms, &|_| yes >= 27);
    let r = match ex(&mut st, &no_query, 11, "relayer", ExecuteMsg::EndPoll { poll_id: s.id }) { Some(r) => r, None => { check(false, "expired poll cannot be ended"); return } };
    let out = if yes >= 27 { Some(true) } else if no && n - yes >= 27 { Some(false) } else { None };
    let agree: BTreeSet<String> = (0..n).filter(|w| { let k = if first { *w } else { n - 1 - *w }; let v = if k < yes { Some(true) } else if no { Some(false) } else { None }; v.is_some() && (out.is_none() || v == out) }).map(|w| format!("worker{}", w)).collect();
    check(sends(&r) == agree && r.messages.len() == agree.len(), "recorded participants are not the workers that voted with every outcome");
    all_statuses(&st, &ms, &|_| yes >= 27);
}
/// a request for 70 messages of which some are settled already
#[no_mangle] pub extern "C" fn c07_large() {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let n = 70;
    let ms: Vec<Message> = (0..n).map(many).collect();
    let k = *pick(&[0usize, 64, 69][..], "message asked for before");
    let s = put(&mut st, 1, &ms[k..k + 1], 1);
    let v = choose(4, "vote") as usize;
    if v < 3 { vote(&mut st, 2, s.id, 0, &[v]); }
    let ended = decide("ended");
    if ended { check(ex(&mut st, &no_query, 11, "relayer", ExecuteMsg::EndPoll { poll_id: s.id }).is_some(), "expired poll cannot be ended"); }
    let w = 12;
    let h = if ended { 12 } else { 3 };
    let again = put(&mut st, h, &ms, w);
    let items: BTreeSet<String> = again.items.iter().map(|i| format!("{}:{}", i.0, i.1)).collect();
    let want: BTreeSet<String> = (0..n).filter(|i| *i != k || (ended && v != 0)).map(|i| ms[i].cc_id.id.to_string()).collect();
    check(items == want && again.items.len() == want.len(), "a poll is opened for other messages than the unresolved ones");
    check(again.expires == h + 10, "a poll lasts for another than the configured time");
    let p: BTreeSet<String> = (0..w).map(|i| format!("worker{}", i)).collect();
    check(again.participants == p, "participants are not the active workers");
    some_statuses(&st, &ms, &[k, 0, 33, n - 1, k + 1], &|i| i == k && v == 0);
    reach("poll");
    // eight of twelve votes are needed
    let (a, b) = (*pick(&[7usize, 8][..], "votes"), decide("the last workers vote"));
    for i in 0..a { vote(&mut st, h, again.id, if b { w - 1 - i } else { i }, &vec![0; again.items.len()]); }
    some_statuses(&st, &ms, &[k, 0, 33, n - 1, k + 1], &|i| (i == k && v == 0) || (a == 8 && want.contains(&ms[i].cc_id.id.to_string())));
}
/// a request for 70 messages one of which is of another chain
#[no_mangle] pub extern "C" fn c07_large_foreign() {
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let n = 70;
    let mut ms: Vec<Message> = (0..n).map(many).collect();
    let at = choose(n as u64 + 1, "message of another chain") as usize;
    if at < n { ms[at].cc_id.chain = chain("gamma"); }
    let before = st.clone();
    let r = ex(&mut st, &workers(3), 1, "relayer", ExecuteMsg::VerifyMessages { messages: ms });
    check(r.is_some() == (at == n), "a request that names another chain is accepted, or another one refused");
    if at < n { check(st.0 == before.0, "a refused request changes the state"); reach("refused"); }
}
/// worker sets whose records put together would read the same
#[no_mangle] pub extern "C" fn c08_boundary() {
    let set = |ops: &[(&[u8], u64)], t: u64| Operators::new(ops.iter().map(|(a, w)| (HexBinary::from(a.to_vec()), Uint256::from(*w))).collect::<Vec<_>>(), Uint256::from(t));
    let mut wide = vec![0xa0u8]; wide.extend([0u8; 31]); wide.extend([1u8, 0xb0]);
    let sets = [
        set(&[(&[0xa0, 0x31], 2)], 1), set(&[(&[0xa0], 12)], 1), set(&[(&[0xa0], 312)], 1), set(&[(&[0xa0], 1)], 21), set(&[(&[0xa0], 1)], 2),
        set(&[(&[0xa0], 1), (&[0xb0], 2)], 1), set(&[(&[0xa0], 2), (&[0xb0], 1)], 1), set(&[(&wide, 2)], 1), set(&[(&[0xa0, 0x31, 0xb0], 2)], 1), set(&[(&[0xa0, 0xb0], 1)], 1), set(&[(&[0xa0, 0xb0], 12)], 1),
        set(&[(&[0xa0], 1), (&[0xa0, 0xb0], 2)], 1), set(&[(&[0xa0], 1), (&[0xb0], 1), (&[0xc0], 1)], 1), set(&[(&[0xa0], 3)], 1), set(&[(&[0xa0, 0], 1)], 2), set(&[(&[0, 0xa0], 1)], 2),
    ];
    let k = choose(sets.len() as u64, "confirmed set") as usize;
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let mut all = vec![];
    if request_set(&mut st, 1, &sets[k], 1, &mut all).is_none() { check(false, "no poll opened"); return; }
    check(cast(&mut st, 2, &mut all[0], 0, vec![0]), "vote of a participant refused");
    for (i, s) in sets.iter().enumerate() { check(set_verified(&st, s) == (i == k), "a worker set is confirmed by votes for another one"); }
    reach("another set");
}
/// sets of many operators that differ in the weight and in a byte of the address of one
#[no_mangle] pub extern "C" fn c08_large() {
    let n = 24;
    let set = |n: usize, odd: usize, b: u8, w: u64, t: u64| Operators::new((0..n).map(|i| { let mut a = vec![0xa0; 20]; a[0] = i as u8 * 2; if i == odd { a[19] = b; } (HexBinary::from(a), if i == odd { Uint256::from(w) } else { Uint256::from(i as u64 + 1) }) }).collect::<Vec<_>>(), Uint256::from(t));
    let mut st = new_verifier(majority(2, 3).unwrap(), 10);
    let odd = *pick(&[0usize, 11, 23][..], "operator");
    let (b0, b1, w0, w1, t0, t1) = (any_u8("byte of the address"), any_u8("byte of the address"), any_u64("weight"), any_u64("weight"), any_u64("threshold"), any_u64("threshold"));
    let (s0, s1) = (set(n, odd, b0, w0, t0), set(n, odd, b1, w1, t1));
    let mut all = vec![];
    if request_set(&mut st, 1, &s0, 1, &mut all).is_none() { check(false, "no poll opened"); return; }
    check(cast(&mut st, 2, &mut all[0], 0, vec![0]), "vote of a participant refused");
    let same = (b0 == b1) & (w0 == w1) & (t0 == t1);
    check(set_verified(&st, &s0), "a quorum of votes does not confirm a worker set");
    check(set_verified(&st, &s1) == same, "a worker set is confirmed by votes for another one");
    // one operator fewer or more is another set
    let (fewer, more) = (set(n - 1, odd, b0, w0, t0), set(n + 1, odd, b0, w0, t0));
    check(!set_verified(&st, &fewer) && !set_verified(&st, &more), "a worker set is confirmed by votes for another one");
    if same { reach("same set"); } else { reach("another set"); }
}

entries! { c06_poll2x2, c06_poll3x1, c06_poll3x2, c06_poll4x1, c06_three_polls1, c06_three_polls2, c06_again1, c06_again2, c06_large, c06_mixed3, c06_mixed4, c06_many_polls, c06_far_ids, c07_large_foreign, c08_boundary, c09_case, c09_long, c09_forms, c06_next_id, c06_workers, c07_large, c08_large, c07_request2, c07_request3, c07_quorum, c07_refused, c08_sets1, c08_sets2, c08_sets3, c08_again, c08_identity, c09_identity, c09_status, c09_boundary_source, c09_boundary_chain, c09_boundary_id }
