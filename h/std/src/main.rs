//! Harnesses over packages/axelar-wasm-std.
use axelar_wasm_std::nonempty;
use axelar_wasm_std::{MajorityThreshold, Participant, Snapshot, Threshold};
use cosmwasm_std::*;
use vxlib::*;

const NAMES: [&str; 4] = ["worker0", "worker1", "worker2", "worker3"];

fn participant(i: usize, w: Uint256) -> Participant { Participant { address: Addr::unchecked(NAMES[i]), weight: w.try_into().unwrap() } }

/// C01: quorum = ceil(total * num / den), participants kept
fn quorum(n: usize, bits: u32) {
    let (num, den) = (any_u64("num"), any_u64("den"));
    let t = match Threshold::try_from((num, den)) { Ok(t) => t, Err(_) => return };
    let m = match MajorityThreshold::try_from(t) { Ok(m) => m, Err(_) => return };
    let mut total = Uint256::zero();
    let mut ps = vec![];
    let mut ws = vec![];
    for i in 0..n {
        let w: Uint256 = if bits > 128 { any_u256("w") } else { any_u128("w").into() };
        if bits > 128 { assume(w >> bits == Uint256::zero()); }
        assume(!w.is_zero());
        total += w; ws.push(w);
        ps.push(participant(i, w));
    }
    let s = Snapshot::new(m, ps.try_into().unwrap());
    let q: Uint256 = s.quorum.into();
    reach("quorum computed");
    let (qd, tn) = (q.full_mul(den), total.full_mul(num));
    check(qd >= tn, "quorum below threshold times total weight");
    check(qd < tn + Uint512::from(den), "quorum is not the smallest weight reaching the threshold");
    check(q <= total, "quorum above total weight");
    check(s.participants.len() == n, "participant count changed");
    for i in 0..n {
        let a = Addr::unchecked(NAMES[i]);
        check(s.get_participant_weight(&a) == Some(&ws[i]), "participant weight changed");
        check(s.get_participant(&a).map(|p| p.address == a).unwrap_or(false), "participant address changed");
    }
    check(s.get_participant_weight(&Addr::unchecked("stranger")).is_none(), "stranger has a weight");
    observe("quorum", q.to_be_bytes()[24..].iter().fold(0u64, |a, b| a << 8 | *b as u64));
}
#[no_mangle] pub extern "C" fn c01_quorum1() { quorum(1, 128) }
#[no_mangle] pub extern "C" fn c01_quorum2() { quorum(2, 128) }
#[no_mangle] pub extern "C" fn c01_quorum3() { quorum(3, 128) }
#[no_mangle] pub extern "C" fn c01_quorum4() { quorum(4, 128) }

/// C02
fn frac_le(a: (u64, u64), b: (u64, u64)) -> core::cmp::Ordering { (a.0 as u128 * b.1 as u128).cmp(&(b.0 as u128 * a.1 as u128)) }
#[no_mangle] pub extern "C" fn c02_build() {
    let (num, den) = (any_u64("num"), any_u64("den"));
    let ok = num != 0 && den != 0 && num <= den;
    let r = Threshold::try_from((num, den));
    check(r.is_ok() == ok, "threshold accepted outside (0,1] or refused inside");
    if let Ok(t) = r {
        reach("threshold built");
        check(t.numerator().u64() == num && t.denominator().u64() == den, "threshold changed");
        let m = MajorityThreshold::try_from(t);
        check(m.is_ok() == (num as u128 * 2 > den as u128), "majority threshold accepted at or below one half, or refused above");
        if let Ok(m) = m { reach("majority"); check(m.numerator().u64() == num && m.denominator().u64() == den, "majority threshold changed"); } else { reach("no majority"); }
    } else { reach("refused"); }
}
#[no_mangle] pub extern "C" fn c02_decode() {
    let (num, den) = (any_u64("num"), any_u64("den"));
    let js = to_vec(&(Uint64::from(num), Uint64::from(den))).unwrap();
    let ok = num != 0 && den != 0 && num <= den;
    let r = from_slice::<Threshold>(&js);
    check(r.is_ok() == ok, "serialized threshold accepted outside (0,1] or refused inside");
    if let Ok(t) = r { reach("threshold decoded"); check(t.numerator().u64() == num && t.denominator().u64() == den, "decoded threshold changed"); }
    let m = from_slice::<MajorityThreshold>(&js);
    check(m.is_ok() == (ok && num as u128 * 2 > den as u128), "serialized majority threshold accepted wrongly");
    if let Ok(m) = m {
        reach("majority decoded");
        let again = to_vec(&m).unwrap();
        check(again == js, "majority threshold does not serialize to what it was");
    }
}
#[no_mangle] pub extern "C" fn c02_compare() {
    let a = (any_u64("a.num"), any_u64("a.den"));
    let b = (any_u64("b.num"), any_u64("b.den"));
    let (ta, tb) = match (Threshold::try_from(a), Threshold::try_from(b)) { (Ok(x), Ok(y)) => (x, y), _ => return };
    reach("compared");
    check(ta.partial_cmp(&tb) == Some(frac_le(a, b)), "thresholds do not compare as fractions");
}

/// C03: what comes out of a conversion or of a serialized form is the value that went in, and never empty
fn one<T, P>(raw: P, empty: bool, conv: impl FnOnce(P) -> Option<T>, back: impl Fn(&T) -> P, same: impl Fn(&P, &P) -> bool)
where P: Clone + serde::Serialize, T: serde::de::DeserializeOwned + serde::Serialize {
    let js = to_vec(&raw).unwrap();
    let r = conv(raw.clone());
    check(r.is_some() == !empty, "conversion accepted an empty value or refused another one");
    if let Some(v) = r {
        reach("converted");
        check(same(&back(&v), &raw), "conversion changed the value");
        check(to_vec(&v).map(|x| x == js).unwrap_or(false), "value does not serialize to what it holds");
    }
    let d = attempt(|| from_slice::<T>(&js).ok()).flatten();
    check(d.is_some() == !empty, "deserialization accepted an empty value or refused another one");
    if let Some(v) = d { reach("deserialized"); check(same(&back(&v), &raw), "deserialization changed the value"); } else { reach("refused"); }
}
#[no_mangle] pub extern "C" fn c03_uint64() {
    let v = Uint64::from(any_u64("v"));
    one::<nonempty::Uint64, _>(v, v.is_zero(), |x| nonempty::Uint64::try_from(x).ok(), |t| Uint64::from(*t), |a, b| a == b);
    let w = any_u64("w");
    let r = nonempty::Uint64::try_from(w);
    check(r.is_ok() == (w != 0), "u64 conversion");
    if let Ok(t) = r { check(u64::from(t) == w, "u64 conversion changed the value"); }
}
#[no_mangle] pub extern "C" fn c03_uint128() { let v = Uint128::from(any_u128("v")); one::<nonempty::Uint128, _>(v, v.is_zero(), |x| nonempty::Uint128::try_from(x).ok(), |t| Uint128::from(*t), |a, b| a == b); }
#[no_mangle] pub extern "C" fn c03_uint256() {
    let v = any_u256("v");
    one::<nonempty::Uint256, _>(v, v.is_zero(), |x| nonempty::Uint256::try_from(x).ok(), |t| *t.as_ref(), |a, b| a == b);
    let w = Uint128::from(any_u128("w"));
    let r = nonempty::Uint256::try_from(w);
    check(r.is_ok() == !w.is_zero(), "128-bit conversion");
    if let Ok(t) = r { check(Uint256::from(t) == Uint256::from(w), "128-bit conversion changed the value"); }
}
#[no_mangle] pub extern "C" fn c03_timestamp() {
    let v = Timestamp::from_nanos(any_u64("v"));
    one::<nonempty::Timestamp, _>(v, v.nanos() == 0, |x| nonempty::Timestamp::try_from(x).ok(), |t| *<&Timestamp>::from(t), |a, b| a == b);
}
#[no_mangle] pub extern "C" fn c03_string() {
    let n = choose(4, "length") as usize;
    let mut b = vec![];
    for _ in 0..n { let c = any_u8("char"); assume(c.is_ascii_lowercase()); b.push(c); }
    let v = String::from_utf8(b).unwrap();
    one::<nonempty::String, _>(v.clone(), n == 0, |x| nonempty::String::try_from(x).ok(), |t| t.as_str().to_string(), |a, b| a == b);
    check(nonempty::String::try_from(v.as_str()).is_ok() == (n > 0) && v.parse::<nonempty::String>().is_ok() == (n > 0), "conversion from a string slice");
    if let Ok(s) = nonempty::String::try_from(v.as_str()) { let by: nonempty::Vec<u8> = s.into(); check(by.as_ref().as_slice() == v.as_bytes(), "bytes of a string changed"); }
}
#[no_mangle] pub extern "C" fn c03_vec() {
    let n = choose(4, "length") as usize;
    let v: Vec<Uint64> = (0..n).map(|_| Uint64::from(any_u64("item"))).collect();
    one::<nonempty::Vec<Uint64>, _>(v, n == 0, |x| nonempty::Vec::try_from(x).ok(), |t| t.as_ref().clone(), |a, b| a == b);
    let by: Vec<u8> = (0..n).map(|_| any_u8("byte")).collect();
    let r = nonempty::Vec::<u8>::try_from(&HexBinary::from(by.clone()));
    check(r.is_ok() == (n > 0), "conversion from hex");
    if let Ok(r) = r { let r: Vec<u8> = r.into(); check(r == by, "conversion from hex changed the bytes"); }
}

// ---- polls -----------------------------------------------------------------------------------
use axelar_wasm_std::voting::{Participation, PollId, PollStatus, Tallies, Vote, WeightedPoll};
use std::collections::BTreeMap;
const VOTES: [Vote; 3] = [Vote::SucceededOnChain, Vote::FailedOnChain, Vote::NotFound];
const VNAME: [&str; 3] = ["SucceededOnChain", "FailedOnChain", "NotFound"];

/// What a poll has to look like: who voted what, and the weights.
struct Model { n: usize, size: usize, w: Vec<Uint256>, v: Vec<Option<Vec<usize>>>, expiry: u64, quorum: Uint256, finished: bool }
impl Model {
    fn sum(&self, item: usize, choice: usize) -> Uint256 {
        let mut t = Uint256::zero();
        for i in 0..self.n { if let Some(v) = &self.v[i] { if v[item] == choice { t += self.w[i]; } } }
        t
    }
    fn outcome(&self, item: usize) -> Option<usize> { (0..3).find(|c| self.sum(item, *c) >= self.quorum) }
    fn agrees(&self, p: &WeightedPoll) {
        check(p.poll_size as usize == self.size && p.tallies.len() == self.size, "poll size changed");
        check(p.expires_at == self.expiry, "expiry changed");
        check(Uint256::from(p.quorum) == self.quorum, "quorum changed");
        check(matches!(p.status, PollStatus::Finished) == self.finished, "poll status");
        for (k, t) in p.tallies.iter().enumerate() {
            let m: BTreeMap<String, Uint256> = from_slice(&to_vec(t).unwrap()).unwrap();
            for c in 0..3 { check(m.get(VNAME[c]).copied().unwrap_or_default() == self.sum(k, c), "tally is not the weight voted for the choice"); }
            check(m.len() <= 3, "tally for an unknown choice");
        }
        check(p.participation.len() == self.n, "participants changed");
        for i in 0..self.n {
            match p.participation.get(NAMES[i]) {
                Some(q) => {
                    check(Uint256::from(q.weight) == self.w[i], "weight changed");
                    let same = match (&q.vote, &self.v[i]) { (None, None) => true, (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| *x == VOTES[*y]), _ => false };
                    check(same, "recorded vote changed");
                }
                None => check(false, "participant lost"),
            }
        }
    }
    fn outcomes_agree(&self, p: &WeightedPoll) {
        let st = p.state();
        check(st.results.len() == self.size, "number of results");
        let out: Vec<Option<usize>> = (0..self.size).map(|k| self.outcome(k)).collect();
        for k in 0..self.size {
            let want = out[k].map(|c| VOTES[c].clone());
            if out[k].is_some() { reach("outcome"); } else { reach("no outcome"); }
            check(st.results[k] == want, "result is not the choice that reached the quorum");
            check(p.consensus(k as u32).map(|c| c == want).unwrap_or(false), "consensus is not the choice that reached the quorum");
        }
        check(p.consensus(self.size as u32).is_err(), "consensus on an item that does not exist");
        for i in 0..self.n {
            let agrees = match &self.v[i] { Some(v) => (0..self.size).all(|k| out[k].map_or(true, |c| c == v[k])), None => false };
            if agrees { reach("consensus participant"); }
            check(st.consensus_participants.iter().any(|a| a == NAMES[i]) == agrees, "consensus participants");
        }
        check(st.consensus_participants.iter().all(|a| NAMES.iter().any(|n| n == a)), "stranger among consensus participants");
        for (j, a) in st.consensus_participants.iter().enumerate() { check(!st.consensus_participants[..j].contains(a), "consensus participant reported twice"); }
    }
}
fn snapshot(w: &[Uint256], quorum: Uint256) -> Snapshot {
    Snapshot { quorum: quorum.try_into().unwrap(), participants: w.iter().enumerate().map(|(i, w)| (NAMES[i].to_string(), participant(i, *w))).collect() }
}
fn weights(n: usize) -> (Vec<Uint256>, Uint256) {
    let w: Vec<Uint256> = (0..n).map(|_| Uint256::from(any_u128("weight"))).collect();
    let mut total = Uint256::zero();
    for x in &w { assume(!x.is_zero()); total += *x; }
    (w, total)
}
/// any quorum a majority threshold can give (C01): above half of the total and at most the total
fn any_quorum(total: Uint256) -> Uint256 { let q = Uint256::from(any_u128("quorum.lo")) + (Uint256::from(range(0, 3, "quorum.hi")) << 128); assume(q <= total && q + q > total); q }
/// an arbitrary poll over n participants in which anything may have been voted
fn any_poll(n: usize, size: usize) -> (Model, WeightedPoll) {
    let (w, total) = weights(n);
    let quorum = any_quorum(total);
    let expiry = any_u64("expiry");
    let mut p = WeightedPoll::new(PollId::from(any_u64("poll id")), snapshot(&w, quorum), expiry, size);
    let mut m = Model { n, size, w, v: vec![None; n], expiry, quorum, finished: false };
    for i in 0..n {
        if !decide("has voted") { continue; }
        let v: Vec<usize> = (0..size).map(|_| choose(3, "voted") as usize).collect();
        let q: &mut Participation = p.participation.get_mut(NAMES[i]).unwrap();
        q.vote = Some(v.iter().map(|c| VOTES[*c].clone()).collect());
        m.v[i] = Some(v);
    }
    for k in 0..size {
        let t: BTreeMap<String, Uint256> = (0..3).map(|c| (VNAME[c].to_string(), m.sum(k, c))).collect();
        p.tallies[k] = from_slice::<Tallies>(&to_vec(&t).unwrap()).unwrap();
    }
    if decide("finished") { p.status = PollStatus::Finished; m.finished = true; }
    (m, p)
}
fn cast(m: &mut Model, p: WeightedPoll, len: usize) -> WeightedPoll {
    let who = choose(m.n as u64 + 1, "voter") as usize;
    let h = any_u64("height");
    let v: Vec<usize> = (0..len).map(|_| choose(3, "vote") as usize).collect();
    let name = if who < m.n { NAMES[who] } else { "stranger" };
    let keep = p.clone();
    // a poll is only finished once it expired, so a height before the expiry finds it open
    if m.finished { assume(h >= m.expiry); }
    let ok = who < m.n && m.v[who].is_none() && h < m.expiry && !m.finished && len == m.size;
    match attempt(|| p.cast_vote(h, &Addr::unchecked(name), v.iter().map(|c| VOTES[*c].clone()).collect())) {
        Some(Ok(q)) => { check(ok, "vote accepted that must be refused"); reach("vote accepted"); if ok { m.v[who] = Some(v); } q }
        Some(Err(_)) => { check(!ok, "vote refused that must be accepted"); reach("vote refused"); keep }
        None => { check(false, "voting panicked"); keep }
    }
}
fn step_vote(n: usize, size: usize) {
    let (mut m, p) = any_poll(n, size);
    let len = choose(size as u64 + 2, "vote length") as usize;
    let p = cast(&mut m, p, len);
    m.agrees(&p);
}
#[no_mangle] pub extern "C" fn c04_step_2x1() { step_vote(2, 1) }
#[no_mangle] pub extern "C" fn c04_step_3x1() { step_vote(3, 1) }
#[no_mangle] pub extern "C" fn c04_step_2x2() { step_vote(2, 2) }
/// from a new poll
fn history(n: usize, size: usize, k: usize) {
    let (w, total) = weights(n);
    let quorum = any_quorum(total);
    let expiry = any_u64("expiry");
    let mut p = WeightedPoll::new(PollId::from(any_u64("poll id")), snapshot(&w, quorum), expiry, size);
    let mut m = Model { n, size, w, v: vec![None; n], expiry, quorum, finished: false };
    m.agrees(&p);
    for _ in 0..k { p = cast(&mut m, p, size); }
    m.agrees(&p);
    // stored and read back
    let q: WeightedPoll = from_slice(&to_vec(&p).unwrap()).unwrap();
    m.agrees(&q);
    check(q == p, "stored poll differs");
}
#[no_mangle] pub extern "C" fn c04_history_2x2() { history(2, 2, 2) }
#[no_mangle] pub extern "C" fn c04_history_3x1() { history(3, 1, 3) }
fn step_finish(n: usize, size: usize) {
    let (mut m, p) = any_poll(n, size);
    m.outcomes_agree(&p);
    let h = any_u64("height");
    let ok = !m.finished && h >= m.expiry;
    match attempt(|| p.clone().finish(h)) {
        Some(Ok(q)) => {
            check(ok, "poll finished early or twice"); reach("finished");
            m.finished = true; m.agrees(&q);
            check(q.state() == p.state(), "finishing changed the outcome");
            let h2 = any_u64("height2");
            check(q.finish(h2).is_err(), "poll finished twice");
        }
        Some(Err(_)) => { check(!ok, "an expired open poll cannot be finished"); reach("not finished"); }
        None => check(false, "finishing panicked"),
    }
}
#[no_mangle] pub extern "C" fn c05_finish_2x1() { step_finish(2, 1) }
#[no_mangle] pub extern "C" fn c05_finish_3x1() { step_finish(3, 1) }
#[no_mangle] pub extern "C" fn c05_finish_2x2() { step_finish(2, 2) }
#[no_mangle] pub extern "C" fn c05_finish_4x1() { step_finish(4, 1) }
#[no_mangle] pub extern "C" fn c05_finish_3x2() { step_finish(3, 2) }

// ---- large ones, with a symbolic odd one out ---------------------------------------------------
fn worker(i: usize) -> String { format!("worker{}", i) }
/// 70 participants of weight one, one of them with any weight
#[no_mangle] pub extern "C" fn c01_large() {
    let (num, den) = (any_u64("num"), any_u64("den"));
    let m = match Threshold::try_from((num, den)).ok().and_then(|t| MajorityThreshold::try_from(t).ok()) { Some(m) => m, None => return };
    let n = 70;
    let odd = *pick(&[0usize, 1, 35, 68, 69][..], "the participant with another weight");
    let w: Uint256 = any_u128("weight").into();
    assume(!w.is_zero());
    let ps: Vec<Participant> = (0..n).map(|i| Participant { address: Addr::unchecked(worker(i)), weight: if i == odd { w } else { Uint256::one() }.try_into().unwrap() }).collect();
    let total = w + Uint256::from(n as u64 - 1);
    let s = Snapshot::new(m, ps.try_into().unwrap());
    let q: Uint256 = s.quorum.into();
    reach("quorum computed");
    let (qd, tn) = (q.full_mul(den), total.full_mul(num));
    check(qd >= tn, "quorum below threshold times total weight");
    check(qd < tn + Uint512::from(den), "quorum is not the smallest weight reaching the threshold");
    check(s.participants.len() == n, "participant count changed");
    for i in 0..n { check(s.get_participant_weight(&Addr::unchecked(worker(i))) == Some(&if i == odd { w } else { Uint256::one() }), "participant weight changed"); }
}
/// weights beyond 128 bits
#[no_mangle] pub extern "C" fn c01_wide1() { quorum(1, 255) }
#[no_mangle] pub extern "C" fn c01_wide2() { quorum(2, 254) }
/// a poll of 300 items and 40 voters of equal weight, one of which votes differently on one item
fn large_poll(finishing: bool) {
    let (n, size, quorum) = (40usize, 300usize, 27u64);
    let sn = Snapshot { quorum: Uint256::from(quorum).try_into().unwrap(), participants: (0..n).map(|i| (worker(i), Participant { address: Addr::unchecked(worker(i)), weight: Uint256::one().try_into().unwrap() })).collect() };
    let expiry = any_u64("expiry");
    let h = any_u64("height");
    assume(h < expiry);
    let mut p = WeightedPoll::new(PollId::from(7), sn, expiry, size);
    let item = *pick(&[0usize, 1, 43, 44, 255, 256, 299][..], "the item that is voted on differently");
    let voters = *pick(&[26usize, 27, 28, 40][..], "voters");
    let odd = *pick(&[0usize, 1, 25][..], "the voter that votes differently");
    let c = choose(3, "its vote") as usize;
    for i in 0..voters {
        let v: Vec<Vote> = (0..size).map(|k| if i == odd && k == item { VOTES[c].clone() } else { VOTES[k % 2].clone() }).collect();
        p = match p.cast_vote(h, &Addr::unchecked(worker(i)), v) { Ok(p) => p, Err(_) => { check(false, "vote refused that must be accepted"); return } };
    }
    let base = item % 2;
    let tally = |k: usize, x: usize| (if k != item { if x == k % 2 { voters } else { 0 } } else { let d = (c == x) as usize; if x == base { voters - 1 + d } else { d } }) as u64;
    if !finishing {
        check(p.tallies.len() == size && p.participation.len() == n, "poll size changed");
        for (k, t) in p.tallies.iter().enumerate() {
            if k != item && k % 16 != 0 { continue; }
            let m: BTreeMap<String, Uint256> = from_slice(&to_vec(t).unwrap()).unwrap();
            for x in 0..3 { check(m.get(VNAME[x]).copied().unwrap_or_default() == Uint256::from(tally(k, x)), "tally is not the weight voted for the choice"); }
        }
        for i in 0..n { check(p.participation.get(&worker(i)).map_or(false, |q| q.vote.is_some() == (i < voters)), "recorded vote changed"); }
        let late = if voters < n { n - 1 } else { 0 };
        let again = p.clone().cast_vote(h, &Addr::unchecked(worker(late)), vec![Vote::NotFound; size]).is_ok();
        check(again == (voters < n), "vote accepted that must be refused");
        check(p.clone().cast_vote(h, &Addr::unchecked("worker400"), vec![Vote::NotFound; size]).is_err(), "vote accepted that must be refused");
        for len in [0, 1, 43, 44, 299, 301, 556, 65836] { check(p.clone().cast_vote(h, &Addr::unchecked(worker(n - 1)), vec![Vote::NotFound; len]).is_err(), "vote accepted that must be refused"); }
        reach("voted");
        return;
    }
    let out = |k: usize| (0..3).find(|x| tally(k, *x) >= quorum);
    let q = match p.clone().finish(expiry) { Ok(q) => q, Err(_) => { check(false, "an expired open poll cannot be finished"); return } };
    check(p.finish(h).is_err() && q.clone().finish(expiry).is_err(), "poll finished early or twice");
    let st = q.state();
    check(st.results.len() == size, "number of results");
    for k in 0..size { check(st.results[k] == out(k).map(|x| VOTES[x].clone()), "result is not the choice that reached the quorum"); }
    for k in [0, item, 299] { check(q.consensus(k as u32).map(|r| r == out(k).map(|x| VOTES[x].clone())).unwrap_or(false), "consensus is not the choice that reached the quorum"); }
    for k in [300u32, 556, 65536 + item as u32] { check(q.consensus(k).is_err(), "consensus on an item that does not exist"); }
    for i in 0..n {
        let agrees = i < voters && (0..size).all(|k| out(k).map_or(true, |x| x == if i == odd && k == item { c } else { k % 2 }));
        check(st.consensus_participants.iter().filter(|a| **a == worker(i)).count() == agrees as usize, "consensus participants");
    }
    reach("finished");
}
#[no_mangle] pub extern "C" fn c04_large() { large_poll(false) }
#[no_mangle] pub extern "C" fn c05_large() { large_poll(true) }
/// long texts and lists, and texts of blanks
#[no_mangle] pub extern "C" fn c03_long() {
    let n = *pick(&[1usize, 2, 64, 255, 256, 257, 1000][..], "length");
    let c = *pick(&[b' ', b'\t', b'0', b'a', 0][..], "character");
    let v = String::from_utf8(vec![c; n]).unwrap();
    let r = nonempty::String::try_from(v.clone());
    check(r.as_ref().map_or(false, |t| t.as_str() == v) && v.parse::<nonempty::String>().map_or(false, |t| t.as_str() == v), "conversion accepted an empty value or refused another one");
    let js = to_vec(&v).unwrap();
    check(from_slice::<nonempty::String>(&js).map_or(false, |t| t.as_str() == v), "deserialization accepted an empty value or refused another one");
    let w = vec![Uint64::zero(); n];
    check(nonempty::Vec::try_from(w.clone()).map_or(false, |t| *t.as_ref() == w), "conversion accepted an empty value or refused another one");
    check(from_slice::<nonempty::Vec<Uint64>>(&to_vec(&w).unwrap()).map_or(false, |t| *t.as_ref() == w), "deserialization accepted an empty value or refused another one");
    reach("converted");
}

entries!(c01_large, c01_wide1, c01_wide2, c03_long, c04_large, c05_large, c01_quorum1, c01_quorum2, c01_quorum3, c01_quorum4, c02_build, c02_decode, c02_compare,
    c03_uint64, c03_uint128, c03_uint256, c03_timestamp, c03_string, c03_vec,
    c04_step_2x1, c04_step_3x1, c04_step_2x2, c04_history_2x2, c04_history_3x1,
    c05_finish_2x1, c05_finish_3x1, c05_finish_2x2, c05_finish_4x1, c05_finish_3x2);
