//! Harnesses over contracts/service-registry.
use connection_router::state::ChainName;
use cosmwasm_std::*;
use service_registry::contract::{execute, instantiate, query};
use service_registry::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use service_registry::state::{AuthorizationState as Auth, BondingState as Bond, Service, Worker, SERVICES, WORKERS, WORKERS_PER_CHAIN};
use std::collections::{BTreeMap, BTreeSet};
use vxlib::*;

const GOV: &str = "governance";
const W: [&str; 3] = ["worker0", "worker1", "worker2"];
const S: [&str; 3] = ["svc", "svc2", "nosuch"];
const C: [&str; 2] = ["chain-a", "chain-b"];

fn chain(i: usize) -> ChainName { C[i].parse().unwrap() }
/// amounts whose sums stay within 128 bits, as any token supply does
fn amount(name: &str) -> Uint128 { let v = any_u128(name); assume(v < 1 << 120); Uint128::from(v) }
fn positive(name: &str) -> Uint128 { let v = amount(name); assume(!v.is_zero()); v }

#[derive(Clone, Default)]
struct World { services: BTreeMap<usize, Service>, workers: BTreeMap<(usize, usize), Worker>, declared: BTreeSet<(usize, usize, usize)>, st: Store }

fn service(i: usize) -> Service {
    Service { name: S[i].into(), service_contract: Addr::unchecked("contract"), min_num_workers: 0, max_num_workers: Some(7), min_worker_bond: amount("min bond"),
        bond_denom: "uaxl".into(), unbonding_period_days: any_u32("days") as u16, description: "description".into() }
}
fn worker(s: usize, w: usize, bonding_state: Bond, authorized: bool) -> Worker {
    Worker { address: Addr::unchecked(W[w]), bonding_state, authorization_state: if authorized { Auth::Authorized } else { Auth::NotAuthorized }, service_name: S[s].into() }
}
fn any_bond() -> Bond {
    match choose(4, "bonding state") {
        0 => Bond::Bonded { amount: amount("bonded") },
        1 => Bond::RequestedUnbonding { amount: amount("bonded") },
        2 => Bond::Unbonding { amount: amount("bonded"), unbonded_at: Timestamp::from_nanos(time("unbonded at")) },
        _ => Bond::Unbonded,
    }
}
/// block times below the year 2262 plus the longest unbonding period stay within 64 bits
fn time(name: &str) -> u64 { let t = any_u64(name); assume(t < 1 << 63); t }

impl World {
    fn new(services: usize) -> World {
        let mut w = World::default();
        let ok = tx(&mut w.st, &no_query, |d| instantiate(d, env(1, 1, "registry"), info("creator"), InstantiateMsg { governance_account: GOV.into() }));
        check(ok.is_some(), "instantiation refused");
        for i in 0..services { let s = service(i); SERVICES.save(&mut w.st, S[i], &s).unwrap(); w.services.insert(i, s); }
        w
    }
    fn put(&mut self, s: usize, w: usize, v: Worker) { WORKERS.save(&mut self.st, (S[s], &v.address.clone()), &v).unwrap(); self.workers.insert((s, w), v); }
    fn declare(&mut self, s: usize, c: usize, w: usize) { WORKERS_PER_CHAIN.save(&mut self.st, (S[s], &chain(c), &Addr::unchecked(W[w])), &()).unwrap(); self.declared.insert((s, c, w)); }
    fn ask<T: serde::de::DeserializeOwned>(&self, m: QueryMsg) -> Option<T> { ask(&self.st, &no_query, |d| query(d, env(1, 1, "registry"), m)) }

    fn records_agree(&self) {
        for s in 0..2 { for w in 0..3 {
            let got: Option<Worker> = self.ask(QueryMsg::GetWorker { service_name: S[s].into(), worker: W[w].into() });
            check(got.as_ref() == self.workers.get(&(s, w)), "worker record is not what the operations so far make it");
        } }
        for s in 0..3 {
            let got: Option<Service> = self.ask(QueryMsg::GetService { service_name: S[s].into() });
            check(got.as_ref() == self.services.get(&s), "service record is not what was registered");
        }
    }
    fn active_agree(&self, s: usize, c: usize) {
        // a chain is the same whatever the case of its name
        let name = if c == 1 { "Chain-B".parse().unwrap() } else { chain(c) };
        let got: Option<Vec<Worker>> = self.ask(QueryMsg::GetActiveWorkers { service_name: S[s].into(), chain_name: name });
        check(got.is_some() == self.services.contains_key(&s), "active workers of an unknown service, or none of a known one");
        let (got, min) = match (got, self.services.get(&s)) { (Some(g), Some(v)) => (g, v.min_worker_bond), _ => return };
        let mut n = 0;
        for w in 0..3 {
            let is = match self.workers.get(&(s, w)) {
                Some(v) => self.declared.contains(&(s, c, w)) && v.authorization_state == Auth::Authorized && matches!(v.bonding_state, Bond::Bonded { amount } if amount >= min),
                None => false,
            };
            let found = got.iter().find(|g| g.address == W[w]);
            check(found.is_some() == is, "active workers are not the authorized, sufficiently bonded, declared ones");
            if is { n += 1; reach("active worker"); check(found == self.workers.get(&(s, w)), "active worker's record changed"); } else { reach("inactive worker"); }
        }
        check(got.len() == n, "number of active workers");
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Op { Bond, Unbond, Claim, Declare, Authorize, Unauthorize, Register }
const MONEY: [Op; 3] = [Op::Bond, Op::Unbond, Op::Claim];
const ADMIN: [Op; 4] = [Op::Declare, Op::Authorize, Op::Unauthorize, Op::Register];

impl World {
    /// one operation on the contract and on the model; records have to agree afterwards
    fn step(&mut self, op: Op, who: usize, s: usize) {
        let name = S[s].to_string();
        let mut e = env(any_u64("height"), 0, "registry");
        e.block.time = Timestamp::from_nanos(time("now"));
        let now = e.block.time.nanos();
        let mut funds = vec![];
        let mut sender = W[who];
        let axl = positive("deposit");
        let have = self.services.get(&s).cloned();
        let old = self.workers.get(&(s, who)).cloned();
        let mut next = old.clone();
        let mut pays = None;
        let mut decl: Vec<usize> = vec![];
        let mut reg = None;
        let m;
        let ok = match op {
            Op::Bond => {
                let k = choose(4, "funds");
                if k == 1 || k == 3 { funds.push(Coin { denom: "uaxl".into(), amount: axl }); }
                if k == 2 || k == 3 { funds.push(Coin { denom: "ubtc".into(), amount: positive("other deposit") }); }
                m = ExecuteMsg::BondWorker { service_name: name };
                let add = if k == 1 { axl } else { Uint128::zero() };
                // a worker not known so far may register without a bond
                let total = match &old { None => Some(add), Some(w) => { let t = stake(&w.bonding_state) + add; if t.is_zero() { None } else { Some(t) } } };
                if let Some(t) = total {
                    let b = Bond::Bonded { amount: t };
                    next = Some(match &old { Some(w) => Worker { bonding_state: b, ..w.clone() }, None => worker(s, who, b, false) });
                }
                have.is_some() && k < 2 && total.is_some()
            }
            Op::Unbond => {
                m = ExecuteMsg::UnbondWorker { service_name: name };
                match &old {
                    Some(w) => match w.bonding_state {
                        Bond::Bonded { amount } | Bond::RequestedUnbonding { amount } => { next = Some(Worker { bonding_state: Bond::Unbonding { amount, unbonded_at: e.block.time }, ..w.clone() }); have.is_some() }
                        _ => false,
                    },
                    None => false,
                }
            }
            Op::Claim => {
                m = ExecuteMsg::ClaimStake { service_name: name };
                match (&old, &have) {
                    (Some(w), Some(sv)) => match w.bonding_state {
                        Bond::Unbonding { amount, unbonded_at } => {
                            next = Some(Worker { bonding_state: Bond::Unbonded, ..w.clone() });
                            pays = Some(amount);
                            unbonded_at.nanos() as u128 + sv.unbonding_period_days as u128 * 86_400_000_000_000 <= now as u128
                        }
                        _ => false,
                    },
                    _ => false,
                }
            }
            Op::Declare => {
                decl = match choose(4, "chains") { 0 => vec![0], 1 => vec![1], 2 => vec![0, 1], _ => vec![] };
                m = ExecuteMsg::DeclareChainSupport { service_name: name, chains: decl.iter().map(|c| if *c == 1 { "CHAIN-b".parse().unwrap() } else { chain(*c) }).collect() };
                have.is_some() && old.is_some()
            }
            Op::Authorize | Op::Unauthorize => {
                let gov = decide("by governance");
                if gov { sender = GOV; }
                let a = if op == Op::Authorize { Auth::Authorized } else { Auth::NotAuthorized };
                next = Some(match &old { Some(w) => Worker { authorization_state: a, ..w.clone() }, None => Worker { authorization_state: a, ..worker(s, who, Bond::Unbonded, false) } });
                let workers = vec![W[who].to_string()];
                m = if op == Op::Authorize { ExecuteMsg::AuthorizeWorkers { workers, service_name: name } } else { ExecuteMsg::UnauthorizeWorkers { workers, service_name: name } };
                gov && have.is_some()
            }
            Op::Register => {
                let gov = decide("by governance");
                if gov { sender = GOV; }
                let v = service(s);
                reg = Some(Service { service_contract: Addr::unchecked("another"), bond_denom: "ubtc".into(), ..v });
                let v = reg.clone().unwrap();
                m = ExecuteMsg::RegisterService { service_name: name, service_contract: v.service_contract, min_num_workers: v.min_num_workers, max_num_workers: v.max_num_workers,
                    min_worker_bond: v.min_worker_bond, bond_denom: v.bond_denom, unbonding_period_days: v.unbonding_period_days, description: v.description };
                gov && have.is_none()
            }
        };
        let r = tx(&mut self.st, &no_query, |d| execute(d, e, paid(sender, funds), m));
        // a stranger registering without any bond may or may not be let in
        if op == Op::Bond && old.is_none() && ok && r.is_none() && next.as_ref().map_or(false, |w| stake(&w.bonding_state).is_zero()) { return; }
        check(r.is_some() == ok, "operation accepted that must be refused, or refused that must be accepted");
        let r = match r { Some(r) => r, None => { reach("refused"); return } };
        if !ok { return; }
        reach("accepted");
        if let Some(n) = next { self.workers.insert((s, who), n); }
        for c in decl { self.declared.insert((s, c, who)); }
        if let Some(v) = reg { self.services.insert(s, v); }
        let out = bank_sends(&r);
        check(r.messages.len() == out.len(), "message other than a payment");
        match pays {
            Some(a) => {
                reach("stake paid back");
                check(out.len() == 1 && out[0].0 == W[who] && out[0].1.len() == 1 && out[0].1[0].denom == "uaxl" && out[0].1[0].amount == a, "stake paid back is not exactly the bonded amount");
            }
            None => check(out.is_empty(), "payment without a claim"),
        }
    }
}
fn stake(b: &Bond) -> Uint128 { match b { Bond::Bonded { amount } | Bond::RequestedUnbonding { amount } | Bond::Unbonding { amount, .. } => *amount, Bond::Unbonded => Uint128::zero() } }

/// two services, other workers bonded, worker 0 in any state in the first one
fn any_world() -> World {
    let mut w = World::new(2);
    w.put(0, 1, worker(0, 1, Bond::Bonded { amount: amount("other bond") }, true));
    w.put(1, 0, worker(1, 0, Bond::Bonded { amount: amount("bond in the other service") }, true));
    w.declare(0, 0, 1);
    if decide("known") {
        let b = any_bond();
        let a = decide("authorized");
        w.put(0, 0, worker(0, 0, b, a));
        if decide("declared") { w.declare(0, 0, 0); }
    }
    w
}
fn one_step(ops: &[Op], active: bool) {
    let mut w = any_world();
    let op = *pick(ops, "operation");
    let who = choose(2, "who") as usize * 2;
    let s = choose(3, "service") as usize;
    w.step(op, who, s);
    w.records_agree();
    if active { for s in 0..3 { for c in 0..2 { w.active_agree(s, c); } } }
}
#[no_mangle] pub extern "C" fn c29_step() { one_step(&MONEY, false) }
#[no_mangle] pub extern "C" fn c29_other_ops() { one_step(&ADMIN, false) }
#[no_mangle] pub extern "C" fn c30_step_money() { one_step(&MONEY, true) }
#[no_mangle] pub extern "C" fn c30_step_admin() { one_step(&ADMIN, true) }

/// from nothing: deposits and claims of two workers add up
fn ledger(k: usize) {
    let mut w = World::new(1);
    for _ in 0..k {
        let op = *pick(&MONEY, "operation");
        let who = choose(2, "who") as usize;
        w.step(op, who, 0);
    }
    w.records_agree();
}
#[no_mangle] pub extern "C" fn c29_ledger3() { ledger(3) }
#[no_mangle] pub extern "C" fn c29_ledger4() { ledger(4) }

/// any mixture of states
#[no_mangle] pub extern "C" fn c30_active() {
    let mut w = World::new(1);
    for i in 0..2 {
        if !decide("known") { continue; }
        let b = any_bond();
        let a = decide("authorized");
        w.put(0, i, worker(0, i, b, a));
        for c in 0..2 { if decide("declared") { w.declare(0, c, i); } }
    }
    for c in 0..2 { w.active_agree(0, c); w.active_agree(1, c); }
}
/// operations only, from nothing
#[no_mangle] pub extern "C" fn c30_history() {
    let mut w = World::new(1);
    w.step(Op::Bond, 0, 0);
    for _ in 0..3 {
        let op = *pick(&[Op::Bond, Op::Unbond, Op::Declare, Op::Authorize, Op::Unauthorize], "operation");
        w.step(op, 0, 0);
    }
    w.records_agree();
    for c in 0..2 { w.active_agree(0, c); }
}

/// seventy workers of which one is in another state; a dozen chains each; any limit on their number
#[no_mangle] pub extern "C" fn c30_large() {
    let n = 70;
    let mut st = Store::new();
    check(tx(&mut st, &no_query, |d| instantiate(d, env(1, 1, "registry"), info("creator"), InstantiateMsg { governance_account: GOV.into() })).is_some(), "instantiation refused");
    let limit = *pick(&[None, Some(5u16), Some(70)][..], "limit");
    let go = |st: &mut Store, who: &str, funds: Vec<Coin>, m: ExecuteMsg| tx(st, &no_query, |d| execute(d, env(5, 5, "registry"), paid(who, funds), m)).is_some();
    let min = 100u128;
    check(go(&mut st, GOV, vec![], ExecuteMsg::RegisterService { service_name: "svc".into(), service_contract: Addr::unchecked("contract"), min_num_workers: 1, max_num_workers: limit, min_worker_bond: min.into(), bond_denom: "uaxl".into(), unbonding_period_days: 3, description: "d".into() }), "registration refused");
    let name = |i: usize| format!("worker{}", i);
    let odd = *pick(&[0usize, 69][..], "the worker in another state");
    let bond = amount("bond");
    assume(!bond.is_zero());
    let (declares, all_chains, again, unbonds, revoked) = (decide("declares"), decide("many chains"), decide("authorized in two calls"), decide("unbonds"), decide("revoked"));
    let chains: Vec<ChainName> = (0..12).map(|i| format!("chain-{}", i).parse().unwrap()).collect();
    let some: Vec<usize> = (0..n).collect();
    let authorize = |st: &mut Store, l: &[usize]| check(go(st, GOV, vec![], ExecuteMsg::AuthorizeWorkers { service_name: "svc".into(), workers: l.iter().map(|i| name(*i)).collect() }), "authorization refused");
    if again { authorize(&mut st, &some[..odd]); authorize(&mut st, &some[odd..]); } else { authorize(&mut st, &some); }
    for i in 0..n {
        let b = if i == odd { bond } else { Uint128::from(min + i as u128) };
        check(go(&mut st, &name(i), vec![Coin { denom: "uaxl".into(), amount: b }], ExecuteMsg::BondWorker { service_name: "svc".into() }), "deposit refused");
        if i == odd && !declares { continue; }
        let c = if i == odd || all_chains { chains.clone() } else { vec![chains[11].clone()] };
        check(go(&mut st, &name(i), vec![], ExecuteMsg::DeclareChainSupport { service_name: "svc".into(), chains: c }), "declaration refused");
    }
    if revoked { check(go(&mut st, GOV, vec![], ExecuteMsg::UnauthorizeWorkers { service_name: "svc".into(), workers: vec![name(odd)] }), "revocation refused"); }
    if unbonds { check(go(&mut st, &name(odd), vec![], ExecuteMsg::UnbondWorker { service_name: "svc".into() }), "unbonding refused"); }
    for c in [0, 11] {
        let got: Vec<Worker> = match ask(&st, &no_query, |d| query(d, env(6, 6, "registry"), QueryMsg::GetActiveWorkers { service_name: "svc".into(), chain_name: chains[c].clone() })) { Some(g) => g, None => { check(false, "no active workers of a known service"); return } };
        let others = if c == 11 || all_chains { n - 1 } else { 0 };
        let is = declares && !revoked && !unbonds && bond.u128() >= min;
        let addresses: BTreeSet<&str> = got.iter().map(|w| w.address.as_str()).collect();
        check(addresses.contains(&name(odd)[..]) == is, "active workers are not the authorized, sufficiently bonded, declared ones");
        if is { reach("active worker") } else { reach("inactive worker") }
        check(addresses.len() == others + is as usize && got.len() == addresses.len(), "number of active workers");
        for w in &got { let i = (0..n).find(|i| w.address == name(*i)); check(w.authorization_state == Auth::Authorized && w.bonding_state == Bond::Bonded { amount: i.map_or(Uint128::zero(), |i| if i == odd { bond } else { Uint128::from(min + i as u128) }) }, "active worker's record changed"); }
    }
}

/// services, chains and workers whose names put together read the same
#[no_mangle] pub extern "C" fn c30_near() {
    let keys = [("svc", "achain", "worker"), ("svca", "chain", "worker"), ("svc", "a", "chainworker"), ("svc", "achain", "workers"), ("sv", "cachain", "worker"), ("svc", "achainw", "orker"), ("svcachain", "w", "orker"), ("svc-2", "achain", "worker"), ("svc", "2achain", "worker"), ("svc", "achain-2", "worker"), ("SVC", "achain", "worker")];
    let names: BTreeSet<&str> = keys.iter().map(|k| k.0).collect();
    let (i, j) = (choose(keys.len() as u64, "active worker") as usize, choose(keys.len() as u64, "other worker") as usize);
    let same = keys[i].0 == keys[j].0 && keys[i].2 == keys[j].2;
    assume(!same);
    let mut st = Store::new();
    check(tx(&mut st, &no_query, |d| instantiate(d, env(1, 1, "registry"), info("creator"), InstantiateMsg { governance_account: GOV.into() })).is_some(), "instantiation refused");
    let go = |st: &mut Store, secs: u64, who: &str, funds: Vec<Coin>, m: ExecuteMsg| tx(st, &no_query, |d| execute(d, env(5, secs, "registry"), paid(who, funds), m));
    for n in &names { check(go(&mut st, 5, GOV, vec![], ExecuteMsg::RegisterService { service_name: n.to_string(), service_contract: Addr::unchecked("contract"), min_num_workers: 1, max_num_workers: None, min_worker_bond: 100u128.into(), bond_denom: "uaxl".into(), unbonding_period_days: 3, description: "d".into() }).is_some(), "registration refused"); }
    let coins = |n: Uint128| vec![Coin { denom: "uaxl".into(), amount: n }];
    let (si, ci, wi) = (keys[i].0.to_string(), keys[i].1, keys[i].2);
    check(go(&mut st, 5, GOV, vec![], ExecuteMsg::AuthorizeWorkers { service_name: si.clone(), workers: vec![wi.into()] }).is_some(), "authorization refused");
    check(go(&mut st, 5, wi, coins(100u128.into()), ExecuteMsg::BondWorker { service_name: si.clone() }).is_some(), "deposit refused");
    check(go(&mut st, 5, wi, vec![], ExecuteMsg::DeclareChainSupport { service_name: si.clone(), chains: vec![ci.parse().unwrap()] }).is_some(), "declaration refused");
    let active = |st: &Store| for k in &keys {
        let got: Vec<Worker> = match ask(st, &no_query, |d| query(d, env(6, 6, "registry"), QueryMsg::GetActiveWorkers { service_name: k.0.into(), chain_name: k.1.parse().unwrap() })) { Some(g) => g, None => { check(false, "no active workers of a known service"); return } };
        let want = k.0 == keys[i].0 && k.1 == ci;
        check(got.iter().map(|w| w.address.as_str()).collect::<Vec<_>>() == if want { vec![wi] } else { vec![] }, "active workers are not the authorized, sufficiently bonded, declared ones");
    };
    active(&st);
    // another worker bonds in its service and is not authorized there
    let (sj, wj) = (keys[j].0.to_string(), keys[j].2);
    let b = amount("bond");
    assume(!b.is_zero());
    check(go(&mut st, 7, wj, coins(b), ExecuteMsg::BondWorker { service_name: sj.clone() }).is_some(), "deposit refused");
    check(go(&mut st, 7, wj, vec![], ExecuteMsg::DeclareChainSupport { service_name: sj.clone(), chains: vec![keys[j].1.parse().unwrap()] }).is_some(), "declaration refused");
    active(&st);
    for k in &keys {
        let w: Option<Worker> = ask(&st, &no_query, |d| query(d, env(6, 6, "registry"), QueryMsg::GetWorker { service_name: k.0.into(), worker: k.2.into() }));
        let want = if k.0 == keys[i].0 && k.2 == wi { Some((Uint128::new(100), Auth::Authorized)) } else if k.0 == keys[j].0 && k.2 == wj { Some((b, Auth::NotAuthorized)) } else { None };
        match (w, want) { (None, None) => {} (Some(w), Some((n, a))) => check(w.bonding_state == Bond::Bonded { amount: n } && w.authorization_state == a && w.address == k.2 && w.service_name == k.0, "worker record is not what the operations so far make it"), _ => check(false, "worker record is not what the operations so far make it") }
    }
    // each gets back its own bond
    check(go(&mut st, 10, wj, vec![], ExecuteMsg::UnbondWorker { service_name: sj.clone() }).is_some(), "unbonding refused");
    active(&st);
    for (w, s, n) in [(wj, sj, b), (wi, si, Uint128::new(100))] {
        if w == wi && n == Uint128::new(100) && s == keys[i].0 { check(go(&mut st, 10, w, vec![], ExecuteMsg::UnbondWorker { service_name: s.clone() }).is_some(), "unbonding refused"); }
        check(go(&mut st, 10 + 3 * 86400 - 1, w, vec![], ExecuteMsg::ClaimStake { service_name: s.clone() }).is_none(), "stake paid back before the unbonding period elapsed");
        match go(&mut st, 10 + 3 * 86400, w, vec![], ExecuteMsg::ClaimStake { service_name: s.clone() }) { Some(r) => { let p = bank_sends(&r); check(p.len() == 1 && p[0].0 == w && p[0].1.len() == 1 && p[0].1[0].denom == "uaxl" && p[0].1[0].amount == n, "payment is not what the worker bonded"); } None => check(false, "stake not paid back after the unbonding period") }
    }
    reach("active worker");
}

entries!(c30_near, c29_step, c29_other_ops, c29_ledger3, c29_ledger4, c30_step_money, c30_step_admin, c30_active, c30_history, c30_large);
