//! What a tally pays, to whom, and which tallies are accepted.
use crate::requests::wips;
use crate::util::*;
use crate::witnesses::{claim, request, requested};
use std::collections::HashSet;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::{create_tally, DataRequestPool};
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_data_structures::radon_report::{RadonReport, ReportContext, Stage, TallyMetaData};
use witnet_data_structures::transaction::*;
use witnet_rad::types::{integer::RadonInteger, RadonTypes};
use witnet_validations::validations::*;

/// What the protocol promises for a request: outputs by owner, what the miner keeps, what is burned.
pub struct Promise {
    pub pays: Vec<(usize, u64)>,
    pub change: u64,
    pub kept: u64,
    pub burned: u64,
}
/// `who` is the committers with what became of them: 0 did not reveal, 1 told the truth, 2 told an error, 3 lied,
/// 4 told an error that is the result.
pub fn promise(who: &[usize], w: u64, reward: u64, fee: u64, collateral: u64, wip0023: bool, v2: bool) -> Promise {
    let commits = who.len() as u64;
    let reveals = who.iter().filter(|x| **x != 0).count() as u64;
    let honest = who.iter().filter(|x| **x == 1 || **x == 4).count() as u64;
    let liars = who.iter().filter(|x| **x == 0 || **x == 3).count() as u64;
    let mut p = Promise { pays: vec![], change: reward * (w - honest) + fee * (w - reveals) + fee * (w - commits), kept: 0, burned: 0 };
    let slashed = collateral * liars;
    if v2 {
        return p;
    }
    let share = match honest {
        0 => 0,
        _ if wip0023 => {
            p.burned = slashed;
            0
        }
        _ => {
            p.kept = slashed % honest;
            slashed / honest
        }
    };
    for (i, x) in who.iter().enumerate() {
        match x {
            _ if honest == 0 => p.pays.push((i, collateral)),
            1 | 4 => p.pays.push((i, reward + collateral + share)),
            2 => p.pays.push((i, collateral)),
            _ => (),
        }
    }
    p
}
/// Amounts that were really paid in: they exist, so they fit.
fn amounts(w: u64) -> (u64, u64, u64) {
    let (reward, fee, collateral) = (nd::u64("reward"), nd::u64("fee"), nd::u64("collateral"));
    let total = (reward as u128 + 2 * fee as u128 + collateral as u128) * w as u128;
    nd::assume(total <= u64::MAX as u128 && reward > 0);
    (reward, fee, collateral)
}
fn pool_of(owners: &[usize]) -> Vec<PublicKeyHash> {
    owners.iter().map(|i| pkh(*i)).collect()
}
fn same_set(a: &[PublicKeyHash], b: &[PublicKeyHash]) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.contains(x)) && b.iter().all(|x| a.contains(x))
}

//@ prop V06
//@ bounds requests with 1 to 3 witnesses (quick) or 4 (thorough), none or all of which committed, every way of not revealing, agreeing, erring or lying of each of them, every reward, fee and collateral that fit together, before WIP-0023, after it and under protocol 2.0
//@ cover everybody honest, liar, remainder, nobody honest, no commits, change
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_tally_amounts() {
    versions(&[]);
    let max = if cfg!(feature = "thorough") { 4 } else { 3 };
    let w = nd::pick("witnesses", 1, max);
    let n = if nd::pick("committed", 0, 1) == 1 { w } else { 0 };
    let rules = nd::pick("rules", 0, 2);
    let error_wins = nd::pick("the result is an error", 0, 1) == 1;
    let who: Vec<usize> = (0..n)
        .map(|_| {
            let x = nd::pick("witness", 0, 3);
            if error_wins && x == 1 { 4 } else { x }
        })
        .collect();
    let (reward, fee, collateral) = amounts(w as u64);
    let minimum = nd::u64("minimum");
    let out = request(w as u16, if nd::bool("default collateral") { nd::assume(collateral == minimum); 0 } else { collateral }, fee, reward, 0);
    nd::assume(collateral > 0);
    let revealers: Vec<usize> = (0..n).filter(|i| who[*i] != 0).collect();
    let committers: HashSet<PublicKeyHash> = (0..n).map(pkh).collect();
    let meta = TallyMetaData {
        liars: revealers.iter().map(|i| who[*i] == 2 || who[*i] == 3).collect(),
        errors: revealers.iter().map(|i| who[*i] == 2 || who[*i] == 4).collect(),
        ..Default::default()
    };
    let context = ReportContext { stage: Stage::Tally(meta), ..Default::default() };
    let report = RadonReport::from_result(Ok(RadonTypes::from(RadonInteger::from(5))), &context);
    let active = wips(if rules == 0 { 7 } else { 13 });
    let version = if rules == 2 { ProtocolVersion::V2_0 } else { ProtocolVersion::V1_7 };
    let t = create_tally(h(9), &out, pkh(5), &report, pool_of(&revealers), committers, minimum, vec![1], &active, version);

    let p = promise(&who, w as u64, reward, fee, collateral, rules > 0, rules == 2);
    let change: u128 = t.outputs.iter().filter(|o| o.pkh == pkh(5)).map(|o| o.value as u128).sum();
    nd::check(change == p.change as u128, "the requester gets back what was not spent");
    nd::check(t.outputs.len() == p.pays.len() + (p.change > 0) as usize && t.outputs.iter().all(|o| o.time_lock == 0), "nobody else is paid and nothing is locked");
    for (i, v) in &p.pays {
        let got: u128 = t.outputs.iter().filter(|o| o.pkh == pkh(*i)).map(|o| o.value as u128).sum();
        nd::check(got == *v as u128, "every witness gets what it earned");
    }
    // what comes in goes out
    let reveals = revealers.len() as u128;
    let total_in = (reward as u128 + 2 * fee as u128) * w as u128 + if rules == 2 { 0 } else { collateral as u128 * n as u128 };
    let paid: u128 = t.outputs.iter().map(|o| o.value as u128).sum();
    let honest = who.iter().filter(|x| **x == 1 || **x == 4).count();
    let miner = fee as u128 * (n as u128 + reveals) + p.kept as u128;
    let stakes = if rules == 2 { reward as u128 * honest as u128 } else { 0 };
    nd::check(paid + miner + p.burned as u128 + stakes == total_in, "the tally pays exactly what the request and the collaterals amount to");
    let wrong: Vec<usize> = (0..n).filter(|i| matches!(who[*i], 0 | 2 | 3)).collect();
    let erred: Vec<usize> = (0..n).filter(|i| if honest == 0 { who[*i] != 0 } else { matches!(who[*i], 2 | 4) }).collect();
    nd::check(same_set(&t.out_of_consensus, &pool_of(&wrong)), "exactly those who lied, erred or did not reveal are out of consensus");
    nd::check(same_set(&t.error_committers, &pool_of(&erred)), "exactly those who told an error count as errors, or everybody if there is no honest one");
    if n == 0 {
        nd::cover("no commits");
    } else if honest == 0 {
        nd::cover("nobody honest");
    } else if honest == n {
        nd::cover("everybody honest");
    } else if p.burned > 0 {
        nd::cover("liar");
    }
    if p.kept > 0 {
        nd::cover("remainder");
    }
    if p.change > 0 {
        nd::cover("change");
    }
}

pub fn reveal_bytes(x: usize) -> Vec<u8> {
    match x {
        1 => vec![1],
        2 => vec![216, 39, 129, 0],
        _ => vec![2],
    }
}

//@ prop V06
//@ bounds requests with 3 witnesses who reveal one value or another, an error or nothing so that one value or error has the majority, every reward, fee and collateral that fit together, one deviation from the expected tally of any size, before WIP-0023, after it and under protocol 2.0
//@ cover accepted, wrong amount, wrong owner, missing output, further output, wrong liars, wrong errors, wrong result, locked, unknown, wrong stage
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_tally_validation() {
    versions(&[]);
    let rules = nd::pick("rules", 0, 2);
    // what they did and what that makes of them
    let (did, who): ([usize; 3], [usize; 3]) =
        [([1, 1, 1], [1, 1, 1]), ([1, 3, 1], [1, 3, 1]), ([1, 1, 2], [1, 1, 2]), ([0, 1, 1], [0, 1, 1]), ([2, 2, 1], [4, 4, 4]), ([0, 0, 0], [0, 0, 0])]
            [nd::pick("history", 0, 5)];
    let (reward, fee, collateral) = amounts(3);
    nd::assume(collateral > 0);
    let at = nd::pick("stage", 0, 2);
    let mut pool: DataRequestPool = requested(
        request(3, collateral, fee, reward, 0),
        [DataRequestStage::TALLY, DataRequestStage::REVEAL, DataRequestStage::COMMIT][at],
        1,
    );
    let s = pool.data_request_state_mutable(&h(9)).unwrap();
    s.data_request.data_request.tally.filters = vec![RADFilter { op: 8, args: vec![] }];
    for (i, d) in did.iter().enumerate() {
        let c = CommitTransaction::new(CommitTransactionBody::new(h(9), h(4), claim(i), vec![], vec![], None), vec![some_signature(i)]);
        s.info.commits.insert(pkh(i), c);
        if *d != 0 {
            let r = RevealTransaction::new(RevealTransactionBody::new(h(9), reveal_bytes(*d), pkh(i)), vec![some_signature(i)]);
            s.info.reveals.insert(pkh(i), r);
        }
    }
    let p = promise(&who, 3, reward, fee, collateral, rules > 0, rules == 2);
    let mut outputs: Vec<ValueTransferOutput> = p.pays.iter().map(|(i, v)| vto(*i, *v, 0)).collect();
    if p.change > 0 {
        outputs.push(vto(5, p.change, 0));
    }
    let honest = who.iter().any(|x| *x == 1 || *x == 4);
    let mut wrong = pool_of(&(0..3).filter(|i| matches!(who[*i], 0 | 2 | 3)).collect::<Vec<_>>());
    let mut erred = pool_of(&(0..3).filter(|i| honest && matches!(who[*i], 2 | 4)).collect::<Vec<_>>());
    let mut tally = match did {
        [2, 2, 1] => vec![216, 39, 129, 0],
        [0, 0, 0] => vec![216, 39, 129, 24, 83 - 30],
        _ => vec![1],
    };
    if did == [0, 0, 0] {
        // nobody revealed
        tally = Vec::try_from(&RadonReport::from_result(
            Err::<RadonTypes, _>(witnet_rad::error::RadError::NoReveals),
            &ReportContext::default(),
        ))
        .unwrap();
    }
    let mut dr = h(9);
    let n = outputs.len();
    let change = nd::pick("deviation", 0, 9);
    let mut differs = true;
    match change {
        1 | 2 | 3 | 8 if n == 0 => differs = false,
        1 => {
            let i = nd::pick("which", 0, n - 1);
            let v = nd::u64("amount");
            differs = v != outputs[i].value;
            // all coins there are fit 63 bits
            nd::assume(v <= u64::MAX >> 2);
            outputs[i].value = v;
            nd::cover("wrong amount");
        }
        2 => {
            let (i, j) = (nd::pick("which", 0, n - 1), nd::pick("owner", 0, 6));
            differs = outputs[i].pkh != pkh(j);
            outputs[i].pkh = pkh(j);
            nd::cover("wrong owner");
        }
        3 => {
            outputs.remove(nd::pick("which", 0, n - 1));
            nd::cover("missing output");
        }
        4 => {
            outputs.push(vto(nd::pick("owner", 0, 6), nd::u64("amount") >> 2, 0));
            nd::cover("further output");
        }
        5 => {
            if nd::bool("accused") || wrong.is_empty() {
                wrong.push(pkh(nd::pick("owner", 0, 6)));
            } else {
                wrong.pop();
            }
            nd::cover("wrong liars");
        }
        6 => {
            if nd::bool("accused") || erred.is_empty() {
                erred.push(pkh(nd::pick("owner", 0, 6)));
            } else {
                erred.pop();
            }
            nd::cover("wrong errors");
        }
        7 => {
            let b = nd::u8("result");
            let l = tally.len();
            differs = tally[l - 1] != b;
            tally[l - 1] = b;
            nd::cover("wrong result");
        }
        8 => {
            let l = nd::u64("lock");
            differs = l != 0;
            outputs[nd::pick("which", 0, n - 1)].time_lock = l;
            nd::cover("locked");
        }
        9 => {
            dr = h(10);
            nd::cover("unknown");
        }
        _ => differs = false,
    }
    let tx = TallyTransaction::new(dr, tally, outputs, wrong, erred);
    let constants = constants();
    let version = if rules == 2 { ProtocolVersion::V2_0 } else { ProtocolVersion::V1_7 };
    let r = validate_tally_transaction(&tx, &mut pool, &constants, &wips(if rules == 0 { 7 } else { 13 }), &HashSet::new(), Some(100), version);
    nd::check(r.is_ok() == (!differs && at == 0), "a tally is accepted exactly if it is the one that follows from the reveals");
    match r {
        Ok((o, extra)) => {
            nd::cover("accepted");
            nd::check(o.len() == tx.outputs.len() && extra == p.kept, "the miner keeps what cannot be divided");
        }
        Err(_) => {
            if at != 0 {
                nd::cover("wrong stage");
            }
        }
    }
}
