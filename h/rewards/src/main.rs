//! Harnesses over contracts/rewards.
use axelar_wasm_std::nonempty;
use axelar_wasm_std::Threshold;
use cosmwasm_std::*;
use cw_storage_plus::{Item, Map};
use rewards::contract::{execute, instantiate};
use rewards::msg::{ExecuteMsg, InstantiateMsg, Params};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vxlib::*;

// the stored records (the contract keeps these types private)
#[derive(Serialize, Deserialize, Clone, PartialEq)] struct Epoch { epoch_num: u64, block_height_started: u64 }
#[derive(Serialize, Deserialize, Clone)] struct StoredParams { params: Params, last_updated: Epoch }
#[derive(Serialize, Deserialize, Clone)] struct Tally { contract: Addr, event_count: u64, participation: BTreeMap<String, u64>, epoch: Epoch, params: Params }
#[derive(Serialize, Deserialize, Clone)] struct Event { event_id: String, contract: Addr, epoch_num: u64 }
#[derive(Serialize, Deserialize, Clone)] struct Pool { contract: Addr, balance: Uint128 }
const PARAMS: Item<StoredParams> = Item::new("params");
const TALLIES: Map<(Addr, u64), Tally> = Map::new("tallies");
const EVENTS: Map<(String, Addr), Event> = Map::new("events");
const POOLS: Map<Addr, Pool> = Map::new("pools");
const WATERMARKS: Map<Addr, u64> = Map::new("rewards_watermarks");

const GOV: &str = "governance";
const X: [&str; 3] = ["contractx", "contracty", "contractz"];
const W: [&str; 4] = ["worker0", "worker1", "worker2", "worker3"];
const EV: [&str; 3] = ["event-a", "event-b", "event-c"];

fn params(d: u64, reward: u128, num: u64, den: u64) -> Params {
    Params { epoch_duration: nonempty::Uint64::try_from(d).unwrap(), rewards_per_epoch: nonempty::Uint128::try_from(Uint128::from(reward)).unwrap(), participation_threshold: Threshold::try_from((num, den)).unwrap() }
}
fn any_duration(name: &str) -> u64 { let d = any_u64(name); assume(d != 0 && d < 1 << 62); d }
fn any_height(name: &str) -> u64 { let h = any_u64(name); assume(h < 1 << 62); h }
fn any_reward(name: &str) -> u128 { let r = any_u128(name); assume(r != 0 && r < 1 << 120); r }
fn any_threshold() -> (u64, u64) { let (n, d) = (any_u64("num"), any_u64("den")); assume(n != 0 && n <= d); (n, d) }

fn start(st: &mut Store, height: u64, p: Params) {
    let r = tx(st, &no_query, |d| instantiate(d, env(height, 1, "rewards"), info("creator"), InstantiateMsg { governance_address: GOV.into(), rewards_denom: "uaxl".into(), params: p }));
    check(r.is_some(), "instantiation refused");
}
fn run(st: &mut Store, height: u64, sender: &str, funds: Vec<Coin>, m: ExecuteMsg) -> Option<Response> { tx(st, &no_query, |d| execute(d, env(height, 1, "rewards"), paid(sender, funds), m)) }
fn record(st: &mut Store, h: u64, c: usize, ev: usize, w: usize) -> bool {
    run(st, h, X[c], vec![], ExecuteMsg::RecordParticipation { event_id: EV[ev].try_into().unwrap(), worker_address: W[w].into() }).is_some()
}
fn event_epoch(st: &Store, c: usize, ev: usize) -> Option<u64> { EVENTS.may_load(st, (EV[ev].into(), Addr::unchecked(X[c]))).unwrap().map(|e| e.epoch_num) }
fn tally(st: &Store, c: usize, e: u64) -> Option<Tally> { TALLIES.may_load(st, (Addr::unchecked(X[c]), e)).unwrap() }
fn pool(st: &Store, c: usize) -> Uint128 { POOLS.may_load(st, Addr::unchecked(X[c])).unwrap().map_or(Uint128::zero(), |p| p.balance) }

// ---- C26 -------------------------------------------------------------------------------------
/// any stored parameters: epoch number n started at s
fn any_params(st: &mut Store) -> (u64, u64, u64) {
    let d = any_duration("duration");
    let p = params(d, 1000, 1, 2);
    start(st, 0, p.clone());
    let (n, s) = (any_height("epoch number"), any_height("started"));
    PARAMS.save(st, &StoredParams { params: p, last_updated: Epoch { epoch_num: n, block_height_started: s } }).unwrap();
    (d, n, s)
}
/// e is the epoch whose span contains h when epoch n started at s
fn contains(d: u64, n: u64, s: u64, h: u64, e: u64) -> bool {
    if e < n { return false; }
    let k = (e - n) as u128;
    k * d as u128 <= (h - s) as u128 && ((h - s) as u128) < (k + 1) * d as u128
}
#[no_mangle] pub extern "C" fn c26_epoch() {
    let mut st = Store::new();
    let (d, n, s) = any_params(&mut st);
    let h = any_height("height");
    let ok = record(&mut st, h, 0, 0, 0);
    check(ok == (h >= s), "participation refused in a current epoch, or accepted before the first one");
    if !ok { reach("before the first epoch"); return; }
    reach("epoch found");
    match event_epoch(&st, 0, 0) {
        Some(e) => {
            check(contains(d, n, s, h, e), "event counted in an epoch whose span does not contain the block height");
            match tally(&st, 0, e) {
                Some(t) => check(t.epoch.epoch_num == e && t.epoch.block_height_started as u128 == s as u128 + (e - n) as u128 * d as u128 && t.event_count == 1, "epoch of the tally does not start where its span starts"),
                None => check(false, "no tally for the event's epoch"),
            }
        }
        None => check(false, "event not recorded"),
    }
}
/// one event before a change of parameters, one after
fn update(mut st: Store, s: u64) {
    let h = any_height("height");
    assume(h >= s);
    check(record(&mut st, h, 0, 0, 0), "participation refused");
    let e = event_epoch(&st, 0, 0).unwrap_or(0);
    let at = match tally(&st, 0, e) { Some(t) => t.epoch.block_height_started, None => { check(false, "no tally for the event's epoch"); return } };
    let d2 = any_duration("new duration");
    let p = params(d2, 777, 2, 3);
    let gov = decide("by governance");
    let r = run(&mut st, h, if gov { GOV } else { "stranger" }, vec![], ExecuteMsg::UpdateParams { params: p.clone() });
    check(r.is_some() == gov, "parameter change refused to governance or accepted from another");
    if !gov || r.is_none() { return; }
    // the current epoch goes on, or a single new one starts now
    let (bn, bs) = if h - at >= d2 { reach("new epoch"); (e + 1, h) } else { reach("same epoch"); (e, at) };
    check(event_epoch(&st, 0, 0) == Some(e), "past event renumbered");
    let h2 = any_height("later height");
    assume(h2 >= h);
    check(record(&mut st, h2, 1, 1, 1), "participation refused after a change of parameters");
    let e2 = event_epoch(&st, 1, 1).unwrap_or(0);
    // the new epoch may also be counted as one elapsed span of the old one
    check(contains(d2, bn, bs, h2, e2), "event counted in an epoch whose span does not contain the block height after a change of parameters");
    check(e2 >= e, "epoch number went backwards");
    match tally(&st, 1, e2) { Some(t) => check(t.params == p, "new tally does not use the changed parameters"), None => check(false, "no tally for the later event's epoch") }
}
#[no_mangle] pub extern "C" fn c26_update() { let mut st = Store::new(); let (_, _, s) = any_params(&mut st); update(st, s) }
/// messages only
#[no_mangle] pub extern "C" fn c26_instantiated() {
    let mut st = Store::new();
    let (d, s) = (any_duration("duration"), any_height("started"));
    let p = params(d, 1000, 1, 2);
    start(&mut st, s, p.clone());
    let h = any_height("first height");
    assume(h >= s);
    check(record(&mut st, h, 2, 0, 0), "participation refused");
    let e = event_epoch(&st, 2, 0).unwrap_or(0);
    check(contains(d, 0, s, h, e), "event counted in an epoch whose span does not contain the block height");
    check(tally(&st, 2, e).map_or(false, |t| t.params == p), "tally does not use the configured parameters");
    update(st, s)
}

// ---- C27 -------------------------------------------------------------------------------------
fn payouts(r: &Response) -> Vec<(String, u128)> {
    let out = bank_sends(r);
    check(out.len() == r.messages.len(), "message other than a payment");
    out.into_iter().map(|(to, c)| { check(c.len() == 1 && c[0].denom == "uaxl", "payment in another denomination"); (to, c[0].amount.u128()) }).collect()
}
fn paid_to(out: &[(String, u128)], w: &str) -> Option<u128> { out.iter().find(|o| o.0 == w).map(|o| o.1) }
fn share(n: usize) {
    let mut st = Store::new();
    let (num, den) = any_threshold();
    let reward = any_reward("reward");
    let p = params(10, reward, num, den);
    start(&mut st, 0, params(10, 1, 1, 1));
    let events = any_u64("events");
    assume(events != 0);
    let mut part = BTreeMap::new();
    let mut wins = vec![];
    for i in 0..n {
        if !decide("participated") { continue; }
        let c = any_u64("participations");
        assume(c != 0 && c <= events);
        part.insert(W[i].to_string(), c);
        if c as u128 * den as u128 >= num as u128 * events as u128 { wins.push(i); }
    }
    let t = Tally { contract: Addr::unchecked(X[0]), event_count: events, participation: part, epoch: Epoch { epoch_num: 0, block_height_started: 0 }, params: p };
    TALLIES.save(&mut st, (Addr::unchecked(X[0]), 0), &t).unwrap();
    let bal = any_u128("pool");
    assume(bal >= reward && bal < 1 << 121);
    POOLS.save(&mut st, Addr::unchecked(X[0]), &Pool { contract: Addr::unchecked(X[0]), balance: bal.into() }).unwrap();
    let r = run(&mut st, 20, "anyone", vec![], ExecuteMsg::DistributeRewards { contract_address: X[0].into(), epoch_count: None });
    check(r.is_some(), "distribution refused");
    let r = match r { Some(r) => r, None => return };
    let out = payouts(&r);
    let each = if wins.is_empty() { 0 } else { reward / wins.len() as u128 };
    let mut total = 0;
    for i in 0..n {
        let won = wins.contains(&i) && each != 0;
        if won { total += each; reach("paid"); } else { reach("not paid"); }
        let got = paid_to(&out, W[i]);
        check(got.is_some() == won, "worker paid below the participation threshold, or not paid at or above it");
        if let Some(g) = got { check(g == each, "payment is not the equal share rounded down"); }
    }
    check(out.len() == if each == 0 { 0 } else { wins.len() }, "payment to somebody else, or twice");
    check(pool(&st, 0).u128() == bal - total, "pool did not fall by what was paid");
}
#[no_mangle] pub extern "C" fn c27_share1() { share(1) }
#[no_mangle] pub extern "C" fn c27_share2() { share(2) }
#[no_mangle] pub extern "C" fn c27_share3() { share(3) }
#[no_mangle] pub extern "C" fn c27_share4() { share(4) }
/// participation messages, each worker at most once per event; then everything is distributed
fn counting(k: usize) {
    let mut st = Store::new();
    let reward = 600u128;
    let (num, den) = *pick(&[(1u64, 2u64), (1, 1), (2, 3)], "threshold");
    start(&mut st, 0, params(10, reward, num, den));
    let mut h = 0;
    let mut first: BTreeMap<(usize, usize), u64> = BTreeMap::new();
    let mut seen: BTreeSet<(usize, usize, usize)> = BTreeSet::new();
    let mut count: BTreeMap<(usize, u64, usize), u64> = BTreeMap::new();
    let mut events: BTreeMap<(usize, u64), u64> = BTreeMap::new();
    for _ in 0..k {
        h += range(0, 12, "blocks");
        let (c, ev, w) = (choose(2, "contract") as usize, choose(2, "event") as usize, choose(2, "worker") as usize);
        if !seen.insert((c, ev, w)) { return; } // (a contract reports a worker once per event)
        check(record(&mut st, h, c, ev, w), "participation refused");
        let cur = concrete(h / 10);
        let e = match first.get(&(c, ev)) { Some(e) => { if *e != cur { reach("reported again in a later epoch"); } *e } None => { first.insert((c, ev), cur); *events.entry((c, cur)).or_default() += 1; cur } };
        *count.entry((c, e, w)).or_default() += 1;
    }
    POOLS.save(&mut st, Addr::unchecked(X[0]), &Pool { contract: Addr::unchecked(X[0]), balance: 1_000_000u128.into() }).unwrap();
    let r = run(&mut st, 200, "anyone", vec![], ExecuteMsg::DistributeRewards { contract_address: X[0].into(), epoch_count: Some(15) });
    check(r.is_some(), "distribution refused");
    let out = match &r { Some(r) => payouts(r), None => return };
    let mut want = [0u128; 2];
    for ((c, e), n) in &events {
        if *c != 0 { continue; }
        let wins: Vec<usize> = (0..2).filter(|w| count.get(&(0, *e, *w)).map_or(false, |k| k * den >= num * n)).collect();
        for w in &wins { want[*w] += reward / wins.len() as u128; }
    }
    for w in 0..2 { if want[w] > 0 { reach("paid"); } check(paid_to(&out, W[w]).unwrap_or(0) == want[w], "payment does not follow from the recorded participation"); }
    check(out.iter().all(|o| W[..2].contains(&o.0.as_str())), "payment to somebody else");
}
#[no_mangle] pub extern "C" fn c27_counting3() { counting(3) }
#[no_mangle] pub extern "C" fn c27_counting4() { counting(4) }

// ---- C28 -------------------------------------------------------------------------------------
/// worker i earns reward r[i] in epoch i of the contract
fn epochs(st: &mut Store, c: usize, r: &[u128]) {
    for (i, r) in r.iter().enumerate() {
        let t = Tally { contract: Addr::unchecked(X[c]), event_count: 1, participation: [(W[i].to_string(), 1u64)].into_iter().collect(), epoch: Epoch { epoch_num: i as u64, block_height_started: 10 * i as u64 }, params: params(10, *r, 1, 1) };
        TALLIES.save(st, (Addr::unchecked(X[c]), i as u64), &t).unwrap();
    }
}
struct Books { st: Store, r: Vec<u128>, mark: [Option<u64>; 2], pool: [u128; 2] }
impl Books {
    fn agree(&self) { for c in 0..2 { check(pool(&self.st, c).u128() == self.pool[c], "pool of a contract is not what was paid in less what was paid out"); } }
    fn distribute(&mut self, c: usize, h: u64, cur: u64, any: bool) {
        let limit = match choose(if any { 6 } else { 3 }, "limit") { 0 => None, 5 => Some(any_u64("any limit")), k => Some(k) };
        let r = run(&mut self.st, h, "anyone", vec![], ExecuteMsg::DistributeRewards { contract_address: X[c].into(), epoch_count: limit });
        let from = self.mark[c].map_or(0, |m| m + 1);
        let l = limit.unwrap_or(10);
        let last = if cur < 2 { None } else { Some(cur - 2) };
        // epochs that are due, and of them the oldest l
        let due: Vec<usize> = (0..4u64).filter(|e| *e >= from && last.map_or(false, |m| *e <= m) && *e - from < l).map(|e| e as usize).collect();
        let any = last.map_or(false, |m| m >= from) && l > 0;
        let owed: u128 = due.iter().map(|e| if c == 0 { self.r[*e] } else { 0 }).sum();
        let ok = any && owed <= self.pool[c];
        // asking for no epochs, or for more than can be counted, need not be answered
        let loose = l == 0 || l > u64::MAX - from;
        match r {
            None => { check(!ok || loose, "distribution refused though rewards are due and the pool holds them"); reach("refused"); }
            Some(r) => {
                let out = payouts(&r);
                if l == 0 { check(out.is_empty(), "rewards distributed for more epochs than asked for"); self.agree(); return; }
                check(ok, "rewards distributed that are not due, were distributed before or are not in the pool");
                reach("distributed");
                for e in 0..4 {
                    let is = c == 0 && due.contains(&e);
                    check(paid_to(&out, W[e]) == if is { Some(self.r[e]) } else { None }, "epoch rewarded early, twice, beyond the limit, for another contract, or skipped");
                    if is { reach("epoch rewarded"); }
                }
                check(out.len() == if c == 0 { due.len() } else { 0 }, "number of payments");
                self.pool[c] -= owed;
                let m = last.unwrap_or(0);
                self.mark[c] = Some(if l - 1 > m - from { m } else { from + (l - 1) });
            }
        }
        self.agree();
    }
    fn add(&mut self, c: usize) {
        let a = any_u128("amount");
        assume(a < 1 << 120);
        let k = choose(4, "funds");
        let mut f = vec![];
        if k == 1 || k == 3 { f.push(Coin { denom: "uaxl".into(), amount: a.into() }); }
        if k == 2 || k == 3 { f.push(Coin { denom: "ubtc".into(), amount: a.into() }); }
        let r = run(&mut self.st, 1, "donor", f, ExecuteMsg::AddRewards { contract_address: X[c].into() });
        check(r.is_some() == (k == 1 && a != 0), "deposit in another denomination accepted, or a good one refused");
        if r.is_some() { self.pool[c] += a; reach("paid in"); }
        self.agree();
    }
}
fn books(n: usize) -> Books {
    let mut st = Store::new();
    start(&mut st, 0, params(10, 1, 1, 1));
    let r: Vec<u128> = (0..n).map(|_| any_reward("reward")).collect();
    epochs(&mut st, 0, &r);
    let mut b = Books { st, r, mark: [None; 2], pool: [0; 2] };
    for c in 0..2 {
        let v = any_u128("pool");
        assume(v < 1 << 123);
        POOLS.save(&mut b.st, Addr::unchecked(X[c]), &Pool { contract: Addr::unchecked(X[c]), balance: v.into() }).unwrap();
        b.pool[c] = v;
    }
    b
}
#[no_mangle] pub extern "C" fn c28_distribute() {
    let mut b = books(4);
    let m = choose(4, "processed");
    if m > 0 { WATERMARKS.save(&mut b.st, Addr::unchecked(X[0]), &(m - 1)).unwrap(); b.mark[0] = Some(m - 1); }
    let h = range(0, 69, "height");
    let cur = concrete(h / 10);
    let c = choose(2, "contract") as usize;
    b.distribute(c, h, cur, true);
}
fn twice(k: usize) {
    let mut b = books(4);
    let mut h = 0;
    for _ in 0..k {
        h += range(0, 45, "blocks");
        let cur = concrete(h / 10);
        assume(cur <= 6);
        b.distribute(0, h, cur, false);
    }
}
#[no_mangle] pub extern "C" fn c28_twice() { twice(2) }
#[no_mangle] pub extern "C" fn c28_thrice() { twice(3) }
#[no_mangle] pub extern "C" fn c28_pools() {
    let mut b = books(4);
    for _ in 0..2 { let c = choose(2, "contract") as usize; b.add(c); }
    let h = range(0, 69, "height");
    let c = choose(2, "contract") as usize;
    let cur = concrete(h / 10);
    b.distribute(c, h, cur, false);
}

// ---- many workers, events, epochs ------------------------------------------------------------
/// 70 workers of which one took part in any number of the events
#[no_mangle] pub extern "C" fn c27_large() {
    let mut st = Store::new();
    let n = 70;
    let reward = any_reward("reward");
    start(&mut st, 0, params(10, 1, 1, 1));
    let events = *pick(&[10u64, 100][..], "events");
    let odd = *pick(&[0usize, 31, 32, 63, 64, 69][..], "the worker of any participation");
    let c = any_u64("participations");
    assume(c != 0 && c <= events);
    let few = decide("few others");
    let name = |i: usize| format!("worker{}", i);
    let count = |i: usize| if i == odd { c } else { let k = (i as u64 + 3) % 11; if few && k >= 5 { 1 } else { k * events / 10 } };
    let part: BTreeMap<String, u64> = (0..n).filter(|i| *i == odd || count(*i) != 0).map(|i| (name(i), count(i))).collect();
    let t = Tally { contract: Addr::unchecked(X[0]), event_count: events, participation: part, epoch: Epoch { epoch_num: 0, block_height_started: 0 }, params: params(10, reward, 1, 2) };
    TALLIES.save(&mut st, (Addr::unchecked(X[0]), 0), &t).unwrap();
    let bal = any_u128("pool");
    assume(bal >= reward && bal < 1 << 121);
    POOLS.save(&mut st, Addr::unchecked(X[0]), &Pool { contract: Addr::unchecked(X[0]), balance: bal.into() }).unwrap();
    let wins: Vec<usize> = (0..n).filter(|i| 2 * count(*i) >= events).collect();
    let r = match run(&mut st, 20, "anyone", vec![], ExecuteMsg::DistributeRewards { contract_address: X[0].into(), epoch_count: None }) { Some(r) => r, None => { check(false, "distribution refused"); return } };
    let out = payouts(&r);
    let each = if wins.is_empty() { 0 } else { reward / wins.len() as u128 };
    let mut total = 0;
    for i in 0..n {
        let won = wins.contains(&i) && each != 0;
        if won { total += each; reach("paid"); } else { reach("not paid"); }
        let got = paid_to(&out, &name(i));
        check(got.is_some() == won, "worker paid below the participation threshold, or not paid at or above it");
        if let Some(g) = got { check(g == each, "payment is not the equal share rounded down"); }
    }
    check(out.len() == if each == 0 { 0 } else { wins.len() }, "payment to somebody else, or twice");
    check(pool(&st, 0).u128() == bal - total, "pool did not fall by what was paid");
}
/// 25 epochs, recorded by messages, distributed in several calls of any of several limits
#[no_mangle] pub extern "C" fn c28_large() {
    let mut st = Store::new();
    start(&mut st, 0, params(10, 1000, 1, 1));
    let n = 25u64;
    for i in 0..n {
        let ev = format!("event-{}", i);
        for k in 0..3 {
            // in every epoch one or two of three workers miss one of two events
            for e in 0..2 { if e == 0 || (i + k) % 3 == 0 || (i % 2 == 0 && k == 1) { check(run(&mut st, 10 * i + e, X[0], vec![], ExecuteMsg::RecordParticipation { event_id: format!("{}-{}", ev, e).try_into().unwrap(), worker_address: format!("worker{}", k) }).is_some(), "participation refused"); } }
        }
    }
    let mut bal = any_u128("pool");
    assume(bal < 1 << 120);
    POOLS.save(&mut st, Addr::unchecked(X[0]), &Pool { contract: Addr::unchecked(X[0]), balance: bal.into() }).unwrap();
    let won = |i: u64, k: u64| (i + k) % 3 == 0 || (i % 2 == 0 && k == 1);
    let h = 10 * *pick(&[12u64, 13, 25, 26, 40][..], "epoch at the distributions");
    let mut next = 0u64;
    for _ in 0..3 {
        let limit = *pick(&[None, Some(1u64), Some(11), Some(24), Some(1000)][..], "limit");
        let r = run(&mut st, h, "anyone", vec![], ExecuteMsg::DistributeRewards { contract_address: X[0].into(), epoch_count: limit });
        let last = h / 10 - 2;
        let to = if next > last { next } else { (next + limit.unwrap_or(10)).min(last + 1) };
        let mut want = [0u128; 3];
        for i in next..to.min(n) { let c = (0..3).filter(|k| won(i, *k)).count() as u128; for k in 0..3 { if won(i, k) { want[k as usize] += 1000 / c; } } }
        let owed: u128 = want.iter().sum();
        let ok = to > next && owed <= bal;
        check(r.is_some() == ok, "rewards distributed that are not due, were distributed before or are not in the pool, or refused though they are due and in the pool");
        match r {
            Some(r) => {
                let out = payouts(&r);
                for k in 0..3 { let got: u128 = out.iter().filter(|o| o.0 == format!("worker{}", k)).map(|o| o.1).sum(); check(got == want[k], "epoch rewarded early, twice, beyond the limit, for another contract, or skipped"); }
                check(out.iter().all(|o| ["worker0", "worker1", "worker2"].contains(&&o.0[..])), "payment to somebody else");
                bal -= owed;
                next = to;
                reach("distributed");
            }
            None => reach("refused"),
        }
        check(pool(&st, 0).u128() == bal, "pool of a contract is not what was paid in less what was paid out");
    }
}


// ---- keys that are easily taken for each other, and large numbers ----------------------------
fn record_as(st: &mut Store, h: u64, c: &str, ev: &str, w: &str) { check(run(st, h, c, vec![], ExecuteMsg::RecordParticipation { event_id: ev.try_into().unwrap(), worker_address: w.into() }).is_some(), "participation refused"); }
fn deposit(st: &mut Store, h: u64, c: &str, n: u128) { check(run(st, h, "anyone", vec![Coin { denom: "uaxl".into(), amount: n.into() }], ExecuteMsg::AddRewards { contract_address: c.into() }).is_some(), "deposit refused"); }
fn distribute(st: &mut Store, h: u64, c: &str, limit: Option<u64>) -> Option<Vec<(String, u128)>> { run(st, h, "anyone", vec![], ExecuteMsg::DistributeRewards { contract_address: c.into(), epoch_count: limit }).map(|r| payouts(&r)) }
#[no_mangle] pub extern "C" fn c27_near() {
    let long = "event-".repeat(50);
    let keys: Vec<(String, &str)> = vec![("event-1".into(), "contractx"), ("event-".into(), "1contractx"), ("event-1c".into(), "ontractx"), ("event-10".into(), "contractx"), ("event-01".into(), "contractx"), ("EVENT-1".into(), "contractx"), ("event-1 ".into(), "contractx"), (" event-1".into(), "contractx"),
        ("event-1".into(), "contractxy"), ("event-1y".into(), "contractx"), ("event-1".into(), "contract"), ("1".into(), "contractx"), ("257".into(), "contractx"), (long.clone(), "contractx"), (format!("{}1", long), "contractx"), (format!("{}2", long), "contractx")];
    let (i, j) = (choose(keys.len() as u64, "event") as usize, choose(keys.len() as u64, "other event") as usize);
    assume(i != j);
    let mut st = Store::new();
    start(&mut st, 0, params(10, 1000, 1, 2));
    // two workers, one in each event; one of them reports late
    let h = *pick(&[1u64, 9, 11][..], "height of the other event");
    record_as(&mut st, 1, keys[i].1, &keys[i].0, "worker0");
    record_as(&mut st, h, keys[j].1, &keys[j].0, "worker1");
    record_as(&mut st, 12, keys[i].1, &keys[i].0, "worker2");
    let mut got: BTreeMap<String, u128> = BTreeMap::new();
    let contracts: BTreeSet<&str> = [keys[i].1, keys[j].1].into_iter().collect();
    for c in &contracts {
        deposit(&mut st, 12, c, 5000);
        match distribute(&mut st, 50, c, None) { Some(out) => for (w, n) in out { *got.entry(w).or_default() += n; }, None => { check(false, "rewards refused though they are due and in the pool"); return } }
    }
    // events of one contract and epoch share its reward; each worker took part in half of them
    let shared = contracts.len() == 1 && h < 10;
    let want: BTreeMap<String, u128> = if shared { (0..3).map(|k| (format!("worker{}", k), 333)).collect() } else { [("worker0".to_string(), 500), ("worker1".to_string(), 1000), ("worker2".to_string(), 500)].into_iter().collect() };
    check(got == want, "workers are not paid for the events of their own contract and epoch");
    reach("distributed");
}
/// 300 events in one epoch
#[no_mangle] pub extern "C" fn c27_events() {
    let n = 300usize;
    let mut st = Store::new();
    start(&mut st, 0, params(1000, 1000, 1, 2));
    let k = *pick(&[149usize, 150, 151][..], "events of the second worker");
    let first = decide("the first events");
    for i in 0..n {
        let ev = format!("event-{}", i);
        record_as(&mut st, 1 + i as u64, X[0], &ev, "worker0");
        if (if first { i < k } else { n - 1 - i < k }) { record_as(&mut st, 1 + i as u64, X[0], &ev, "worker1"); }
        if i == 7 { record_as(&mut st, 1 + i as u64, X[0], &ev, "worker2"); }
    }
    deposit(&mut st, 500, X[0], 5000);
    let got: BTreeMap<String, u128> = match distribute(&mut st, 3000, X[0], None) { Some(o) => o.into_iter().collect(), None => { check(false, "rewards refused though they are due and in the pool"); return } };
    let want: BTreeMap<String, u128> = if k >= 150 { [("worker0".to_string(), 500), ("worker1".to_string(), 500)].into_iter().collect() } else { [("worker0".to_string(), 1000)].into_iter().collect() };
    check(got == want, "not exactly the workers that reached the threshold are paid equally");
    reach("distributed");
}
/// epochs whose numbers share their low bytes
fn wrapped(far: u64) {
    let mut st = Store::new();
    start(&mut st, 0, params(1, 1000, 1, 1));
    let a = *pick(&[0u64, 3][..], "epoch");
    record_as(&mut st, a, X[0], "event-a", "worker0");
    record_as(&mut st, a + far, X[0], "event-b", "worker1");
    deposit(&mut st, a + far, X[0], 5000);
    let end = a + far + 2;
    let early = decide("distributed early");
    if early { check(distribute(&mut st, a + 2, X[0], Some(far)) == Some(vec![("worker0".into(), 1000)]), "epoch rewarded early, twice, beyond the limit, for another contract, or skipped"); reach("distributed"); }
    let mut want: Vec<(String, u128)> = if early { vec![] } else { vec![("worker0".into(), 1000)] };
    want.push(("worker1".into(), 1000));
    check(distribute(&mut st, end - 1, X[0], Some(1)) == Some(if early || a != 0 { vec![] } else { vec![want.remove(0)] }), "epoch rewarded early, twice, beyond the limit, for another contract, or skipped");
    check(distribute(&mut st, end, X[0], Some(far + 10)) == Some(want), "epoch rewarded early, twice, beyond the limit, for another contract, or skipped");
    check(distribute(&mut st, end, X[0], Some(far + 10)).is_none(), "epoch rewarded twice");
    check(pool(&st, 0).u128() == 3000, "the pool does not fall by what is paid");
    reach("all distributed");
}
#[no_mangle] pub extern "C" fn c28_wrap8() { wrapped(256) }
#[no_mangle] pub extern "C" fn c28_wrap12() { wrapped(4096) }

entries!(c27_near, c27_events, c28_wrap8, c28_wrap12, c26_epoch, c26_update, c26_instantiated, c27_share1, c27_share2, c27_share3, c27_share4, c27_counting3, c27_counting4, c27_large, c28_large, c28_distribute, c28_twice, c28_thrice, c28_pools);
