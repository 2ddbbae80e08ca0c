//! What data requests must satisfy to be valid.
use crate::util::*;
use std::collections::HashMap;
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::transaction::*;
use witnet_validations::validations::*;

pub const WIPS: [&str; 13] = [
    "WIP0008", "WIP0009-0011-0012", "THIRD_HARD_FORK", "WIP0014-0016", "WIP0017-0018-0019", "WIP0020-0021", "WIP0022", "WIP0023",
    "WIP0024", "WIP0025", "WIP0026", "WIP0027", "WIP0028",
];
/// The first `n` improvement proposals are active.
pub fn wips(n: usize) -> ActiveWips {
    let mut m = HashMap::new();
    for (i, w) in WIPS.iter().enumerate() {
        m.insert(w.to_string(), if i < n { 0 } else { 2_000_000 });
    }
    ActiveWips { active_wips: m, block_epoch: NOW as Epoch }
}
pub fn get() -> RADRetrieve {
    RADRetrieve { kind: RADType::HttpGet, url: "u".into(), script: vec![128], body: vec![], headers: vec![] }
}
pub fn rad() -> RADRequest {
    RADRequest {
        time_lock: 0,
        retrieve: vec![get()],
        aggregate: RADAggregate { filters: vec![], reducer: 2 },
        tally: RADTally { filters: vec![], reducer: 2 },
    }
}

//@ prop V02
//@ bounds up to 2 inputs among 2 coins of 2 owners or one that does not exist, up to 2 change outputs to either owner, one valid and one empty request, every value, time lock, witness count, reward, fee, collateral, consensus percentage, minimum collateral and weight limit, up to one signature missing or too many
//@ cover valid, change to another, two changes, empty change, overflow, too heavy, no witnesses, no consensus, low collateral, no sources
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_data_request() {
    versions(&[]);
    let c = Coins::new(2, 0);
    let (inputs, signers, ins, sigs) = spend(2, 2);
    let outs: Vec<(usize, u64)> = (0..nd::pick("outputs", 0, 2)).map(|_| (nd::pick("to", 0, 1), nd::u64("change"))).collect();
    let sources = nd::pick("sources", 0, 1);
    let out = DataRequestOutput {
        data_request: RADRequest { retrieve: vec![get(); sources], ..rad() },
        witness_reward: nd::u64("reward"),
        witnesses: nd::u16("witnesses"),
        commit_and_reveal_fee: nd::u64("fee"),
        min_consensus_percentage: nd::u32("consensus"),
        collateral: nd::u64("collateral"),
    };
    let (minimum, limit) = (nd::u64("minimum collateral"), nd::u32("weight limit"));
    let body = DRTransactionBody::new(ins, out.clone(), outs.iter().map(|(o, v)| vto(*o, *v, 0)).collect());
    let tx = DRTransaction::new(body, sigs.clone());
    let mut owe = vec![];
    let diff = c.diff();
    // the ratio of collateral and reward is looked at below
    let r = validate_dr_transaction(&tx, &diff, NOW as Epoch, clock(), &mut owe, minimum, limit, 125, &wips(6), Some(ProtocolVersion::V1_7));

    let worth = c.worth(&inputs, &signers);
    let total = (out.witness_reward as u128 + 2 * out.commit_and_reveal_fee as u128) * out.witnesses as u128;
    let changed: u128 = outs.iter().map(|o| o.1 as u128).sum();
    let weight = 133 * inputs.len() as u32
        + 36 * outs.len() as u32
        + (8 + 4 + 4 + sources as u32 * (1 + 1 + 1)) + 30
        + out.witnesses as u32 * (400 + 200 + 36)
        + 100;
    let change_ok = outs.len() < 2 && outs.iter().all(|o| o.1 != 0 && Some(&o.0) == inputs.first().map(|i| &c.utxos[(*i).min(1)].0));
    // both of these are per witness amounts that do not fit 64 bits, whatever they are multiplied with
    let fits = out.witness_reward as u128 + 2 * out.commit_and_reveal_fee as u128 <= u64::MAX as u128;
    let valid = !inputs.is_empty()
        && fits
        && worth.is_some_and(|w| total + changed <= w as u128)
        && change_ok
        && weight <= limit
        && out.witnesses >= 1
        && out.witness_reward >= 1
        && (51..=99).contains(&out.min_consensus_percentage)
        && (out.collateral == 0 || out.collateral >= minimum)
        && sources > 0;
    nd::check(
        r.is_ok() == valid,
        "a data request is valid exactly if its owners pay rewards and fees for all witnesses, change goes back to the first of them, and its parameters are within the limits",
    );
    match r {
        Ok((i, o, fee)) => {
            nd::cover("valid");
            nd::check(fee as u128 + total + changed == worth.unwrap() as u128, "the fee is what the request and the change leave of the inputs");
            nd::check(i.len() == inputs.len() && o.len() == outs.len(), "all inputs are spent and the change created");
            nd::check(owed(&owe, &sigs, tx.versioned_hash(ProtocolVersion::V1_7)), "every signature is checked against the hash of the transaction");
        }
        Err(e) => {
            use witnet_data_structures::error::TransactionError as T;
            match e.downcast_ref::<T>() {
                Some(T::PublicKeyHashMismatch { .. }) if outs.len() == 1 && worth.is_some() => nd::cover("change to another"),
                Some(T::WrongNumberOutputs { .. }) => nd::cover("two changes"),
                Some(T::ZeroValueOutput { .. }) => nd::cover("empty change"),
                Some(T::FeeOverflow) => nd::cover("overflow"),
                Some(T::DataRequestWeightLimitExceeded { .. }) => nd::cover("too heavy"),
                Some(T::InsufficientWitnesses) => nd::cover("no witnesses"),
                Some(T::InvalidMinConsensus { .. }) => nd::cover("no consensus"),
                Some(T::InvalidCollateral { .. }) => nd::cover("low collateral"),
                None if sources == 0 => nd::cover("no sources"),
                _ => (),
            }
        }
    }
}

//@ prop V02
//@ bounds every collateral and minimum, every required ratio, rewards up to 2^16, before and after WIP-0022
//@ cover fair, unfair, unfair but allowed
#[unsafe(no_mangle)]
pub fn h_reward_ratio() {
    let after = nd::bool("after WIP-0022");
    let reward = nd::range("reward", 1, 1 << 16);
    let (collateral, minimum, required) = (nd::u64("collateral"), nd::u64("minimum"), nd::u64("required"));
    let out = DataRequestOutput { data_request: rad(), witness_reward: reward, witnesses: 1, commit_and_reveal_fee: 1, min_consensus_percentage: 51, collateral };
    let r = validate_data_request_output(&out, minimum, required, &wips(if after { 7 } else { 6 }));
    let at_stake = if collateral == 0 { minimum } else { collateral };
    let fair = at_stake as u128 <= required as u128 * reward as u128;
    nd::check(r.is_ok() == (fair || !after), "since WIP-0022 the collateral is at most the required multiple of the reward");
    nd::cover(if fair { "fair" } else if after { "unfair" } else { "unfair but allowed" });
}

//@ prop V02
//@ bounds every kind of retrieval with every combination of fields present or absent, one constant valid script and one invalid, before WIP-0019, after it and after WIP-0020
//@ cover accepted, rejected, rng with url, xml
#[unsafe(no_mangle)]
pub fn h_retrieval() {
    let wips_active = nd::pick("active", 4, 6);
    let kinds = [RADType::Unknown, RADType::HttpGet, RADType::Rng, RADType::HttpPost, RADType::HttpHead];
    let k = nd::pick("kind", 0, 4);
    let (url, body, headers) = (nd::pick("url", 0, 1) == 1, nd::pick("body", 0, 1) == 1, nd::pick("headers", 0, 1) == 1);
    let script = nd::pick("script", 0, 3);
    let r = RADRetrieve {
        kind: kinds[k].clone(),
        url: if url { "u".into() } else { String::new() },
        // an empty list, nothing, no list, parsing XML
        script: [vec![0x80], vec![], vec![0x01], vec![0x81, 0x18, 0x78]][script].clone(),
        body: if body { vec![1] } else { vec![] },
        headers: if headers { vec![("a".into(), "b".into())] } else { vec![] },
    };
    let weight = r.weight();
    nd::check(
        weight as usize == 1 + [1, 0, 1, 3][script] + url as usize + body as usize + if headers { 8 } else { 0 },
        "the weight of a source counts everything in it",
    );
    let req = RADRequest { retrieve: vec![get(), r], ..rad() };
    let active = wips(wips_active);
    let got = match wips_active {
        4 => {
            // sources of that time have no kind
            let req = RADRequest { retrieve: req.retrieve[1..].to_vec(), ..req };
            validate_rad_request(&req, &active).is_ok()
        }
        _ => validate_rad_request(&req, &active).is_ok(),
    };
    let good_script = script == 0 || script == 3;
    let want = match wips_active {
        4 => k == 0 && script == 0,
        5 => {
            if k == 1 { url && script == 0 && !body && !headers } else { k == 2 && script == 0 && !body && !headers }
        }
        _ => {
            good_script
                && match k {
                    0 => true,
                    1 | 4 => url && !body,
                    2 => !url && !body && !headers,
                    _ => url,
                }
        }
    };
    nd::check(got == want, "a source is valid exactly if its kind is active, has the fields it needs and none it cannot use, and its script parses");
    nd::cover(if got { "accepted" } else { "rejected" });
    if got && k == 2 && url {
        nd::cover("rng with url");
    }
    if got && script == 3 {
        nd::cover("xml");
    }
}

//@ prop V02
//@ bounds up to 1 filter, every filter and reducer number, before WIP-0017 and after it, in either stage
//@ cover accepted, rejected, median
#[unsafe(no_mangle)]
pub fn h_aggregation() {
    let after = nd::bool("after WIP-0017");
    let op = nd::u32("filter");
    let filters = vec![RADFilter { op, args: vec![] }; nd::pick("filters", 0, 1)];
    let reducer = nd::u32("reducer");
    let mut req = rad();
    if !after {
        req.retrieve[0].kind = RADType::Unknown;
    }
    if nd::bool("tally") {
        req.tally = RADTally { filters: filters.clone(), reducer };
    } else {
        req.aggregate = RADAggregate { filters: filters.clone(), reducer };
    }
    let got = validate_rad_request(&req, &wips(if after { 5 } else { 4 })).is_ok();
    let want = (filters.is_empty() || op == 5 || op == 8) && (reducer == 2 || reducer == 3 || after && (reducer == 5 || reducer == 11));
    nd::check(got == want, "only the filters and reducers known and active can be used to aggregate");
    nd::cover(if got { "accepted" } else { "rejected" });
    if got && reducer == 5 {
        nd::cover("median");
    }
}
