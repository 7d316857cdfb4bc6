//! The privileged operations of all contracts.
use axelar_wasm_std::{nonempty, Threshold};
use connection_router::contract as router;
use connection_router::msg as rmsg;
use connection_router::state::{ChainName, GatewayDirection};
use cosmwasm_std::*;
use multisig::contract as ms;
use multisig::key::{KeyType, PublicKey};
use rewards::contract as rw;
use rewards::msg::Params;
use service_registry::contract as sr;
use vxlib::*;

/// the accounts that play a role; the contracts are set up with any two or three of them
const NAMES: [&str; 3] = ["accountone", "accounttwo", "account3rd"];
const OTHERS: [&str; 5] = ["gatewayone", "gatewaytwo", "worker", "prover", "accounton"];
/// somebody: one of the above, or (if `any_name`) any other name of ten printable characters
fn anybody(any_name: bool) -> String {
    match choose(8 + any_name as u64, "sender") {
        n @ 0..=2 => NAMES[n as usize].to_string(),
        n @ 3..=7 => OTHERS[n as usize - 3].to_string(),
        _ => { let s: String = (0..10).map(|_| range(0x21, 0x7e, "sender") as u8 as char).collect(); assume(NAMES.iter().all(|n| s != **n) & (s != OTHERS[0]) & (s != OTHERS[1])); s }
    }
}
fn chain(s: &str) -> ChainName { s.parse().unwrap() }

/// two operations; `run(store, sender, operation, round)` executes one and `role(operation)` is who may do so (None: not a privileged one).
/// The operations of the second round are possible in every state the first round can lead to.
fn matrix(st: &mut Store, ops: u64, role: impl Fn(u64) -> Option<&'static str>, run: impl Fn(&mut Store, &str, u64, u64) -> bool) {
    for round in 0..2 {
        let op = choose(ops, "operation");
        let sender = anybody(role(op).is_some());
        let before = st.0.clone();
        let done = run(st, &sender, op, round);
        if !done { check(st.0 == before, "a refused operation has an effect"); }
        if let Some(r) = role(op) {
            if sender == r { check(done, "an operation is refused to its own role"); reach("allowed"); }
            else { check(!done, "an operation is executed for someone who lacks the role"); reach("refused"); }
        }
    }
}

#[no_mangle] pub extern "C" fn c16_router() {
    let mut st = Store::new();
    let (a, g, n) = *pick(&[(0, 1, 2), (1, 0, 2), (2, 1, 0), (0, 0, 1)][..], "roles");
    let m = rmsg::InstantiateMsg { admin_address: NAMES[a].into(), governance_address: NAMES[g].into(), nexus_gateway: NAMES[n].into() };
    check(tx(&mut st, &no_query, |d| router::instantiate(d, env(1, 1, "router"), info(NAMES[n]), m)).is_some(), "instantiation refused");
    for (c, gw) in [("alpha", OTHERS[0]), ("beta", OTHERS[1])] {
        let r = tx(&mut st, &no_query, |d| router::execute(d, env(1, 1, "router"), info(NAMES[g]), rmsg::ExecuteMsg::RegisterChain { chain: chain(c), gateway_address: gw.into() }));
        check(r.is_some(), "a chain is refused");
    }
    let d = if decide("incoming") { GatewayDirection::Incoming } else { GatewayDirection::Bidirectional };
    matrix(&mut st, 5, |op| match op { 0 | 1 => Some(NAMES[g]), 2 | 3 => Some(NAMES[a]), _ => None }, |st, sender, op, round| {
        let fresh = if round == 0 { "freshone" } else { "freshtwo" };
        let m = match op {
            0 => rmsg::ExecuteMsg::RegisterChain { chain: chain(fresh), gateway_address: fresh.into() },
            1 => rmsg::ExecuteMsg::UpgradeGateway { chain: chain("alpha"), contract_address: fresh.into() },
            2 => rmsg::ExecuteMsg::FreezeChain { chain: chain("alpha"), direction: d },
            3 => rmsg::ExecuteMsg::UnfreezeChain { chain: chain("alpha"), direction: d },
            _ => rmsg::ExecuteMsg::RouteMessages(vec![]),
        };
        tx(st, &no_query, |d| router::execute(d, env(2, 2, "router"), info(sender), m)).is_some()
    });
}

#[no_mangle] pub extern "C" fn c16_multisig() {
    let mut st = Store::new();
    let g = *pick(&[0, 1][..], "roles");
    let m = multisig::msg::InstantiateMsg { governance_address: NAMES[g].into(), rewards_address: NAMES[1 - g].into(), grace_period: 2 };
    check(tx(&mut st, &no_query, |d| ms::instantiate(d, env(1, 1, "multisig"), info(NAMES[2]), m)).is_some(), "instantiation refused");
    let auth = |st: &mut Store, sender: &str, m: multisig::msg::ExecuteMsg| tx(st, &no_query, |d| ms::execute(d, env(2, 2, "multisig"), info(sender), m)).is_some();
    if decide("authorized before") { check(auth(&mut st, NAMES[g], multisig::msg::ExecuteMsg::AuthorizeCaller { contract_address: Addr::unchecked("prover") }), "an authorization is refused"); }
    let ec = [2u8, 0x4d, 0x4b, 0x6c, 0xd1, 0x36, 0x10, 0x32, 0xca, 0x9b, 0xd2, 0xae, 0xb9, 0xd9, 0x00, 0xaa, 0x4d, 0x45, 0xd9, 0xea, 0xd8, 0x0a, 0xc9, 0x42, 0x33, 0x74, 0xc4, 0x51, 0xa7, 0x25, 0x4d, 0x07, 0x66];
    matrix(&mut st, 4, |op| match op { 0 | 1 => Some(NAMES[g]), _ => None }, |st, sender, op, _| {
        auth(st, sender, match op {
            0 => multisig::msg::ExecuteMsg::AuthorizeCaller { contract_address: Addr::unchecked("prover") },
            1 => multisig::msg::ExecuteMsg::UnauthorizeCaller { contract_address: Addr::unchecked("prover") },
            2 => multisig::msg::ExecuteMsg::StartSigningSession { worker_set_id: "none".into(), msg: HexBinary::from(vec![1; 32]), chain_name: chain("alpha"), sig_verifier: None },
            _ => multisig::msg::ExecuteMsg::RegisterPublicKey { public_key: PublicKey::try_from((KeyType::Ecdsa, HexBinary::from(ec.to_vec()))).unwrap() },
        })
    });
}

fn params(d: u64) -> Params { Params { epoch_duration: nonempty::Uint64::try_from(d).unwrap(), rewards_per_epoch: nonempty::Uint128::try_from(Uint128::new(100)).unwrap(), participation_threshold: Threshold::try_from((1, 2)).unwrap() } }
#[no_mangle] pub extern "C" fn c16_rewards() {
    let mut st = Store::new();
    let g = *pick(&[0, 1][..], "roles");
    let m = rewards::msg::InstantiateMsg { governance_address: NAMES[g].into(), rewards_denom: "uaxl".into(), params: params(10) };
    check(tx(&mut st, &no_query, |d| rw::instantiate(d, env(1, 1, "rewards"), info(NAMES[2]), m)).is_some(), "instantiation refused");
    let d = range(1, 1000, "duration");
    let h = range(1, 100, "height");
    matrix(&mut st, 4, |op| if op == 0 { Some(NAMES[g]) } else { None }, |st, sender, op, round| {
        let (funds, m) = match op {
            0 => (vec![], rewards::msg::ExecuteMsg::UpdateParams { params: params(d) }),
            1 => (vec![], rewards::msg::ExecuteMsg::RecordParticipation { event_id: "event".try_into().unwrap(), worker_address: "worker".into() }),
            2 => (vec![Coin { denom: "uaxl".into(), amount: Uint128::new(5) }], rewards::msg::ExecuteMsg::AddRewards { contract_address: "contract".into() }),
            _ => (vec![], rewards::msg::ExecuteMsg::DistributeRewards { contract_address: "contract".into(), epoch_count: None }),
        };
        tx(st, &no_query, |d| rw::execute(d, env(if round == 0 { 5 } else { 5 + h }, 2, "rewards"), paid(sender, funds), m)).is_some()
    });
}

#[no_mangle] pub extern "C" fn c16_registry() {
    let mut st = Store::new();
    let g = *pick(&[0, 1][..], "roles");
    check(tx(&mut st, &no_query, |d| sr::instantiate(d, env(1, 1, "registry"), info(NAMES[2]), service_registry::msg::InstantiateMsg { governance_account: NAMES[g].into() })).is_some(), "instantiation refused");
    let register = |name: &str| service_registry::msg::ExecuteMsg::RegisterService { service_name: name.into(), service_contract: Addr::unchecked(NAMES[1 - g]), min_num_workers: 1, max_num_workers: None, min_worker_bond: Uint128::new(any_u64("bond") as u128), bond_denom: "uaxl".into(), unbonding_period_days: 7, description: "description".into() };
    check(tx(&mut st, &no_query, |d| sr::execute(d, env(1, 1, "registry"), info(NAMES[g]), register("svc"))).is_some(), "a service is refused");
    matrix(&mut st, 7, |op| if op < 3 { Some(NAMES[g]) } else { None }, |st, sender, op, round| {
        use service_registry::msg::ExecuteMsg::*;
        let s = || "svc".to_string();
        let (funds, m) = match op {
            0 => (vec![], register(if round == 0 { "newone" } else { "newtwo" })),
            1 => (vec![], AuthorizeWorkers { workers: vec!["worker".into(), NAMES[0].into()], service_name: s() }),
            2 => (vec![], UnauthorizeWorkers { workers: vec!["worker".into(), NAMES[0].into()], service_name: s() }),
            3 => (vec![Coin { denom: "uaxl".into(), amount: Uint128::new(5) }], BondWorker { service_name: s() }),
            4 => (vec![], UnbondWorker { service_name: s() }),
            5 => (vec![], ClaimStake { service_name: s() }),
            _ => (vec![], DeclareChainSupport { service_name: s(), chains: vec![chain("alpha")] }),
        };
        tx(st, &no_query, |d| sr::execute(d, env(2, 2, "registry"), paid(sender, funds), m)).is_some()
    });
}

entries! { c16_router, c16_multisig, c16_rewards, c16_registry }
