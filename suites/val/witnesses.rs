//! Commitments and reveals of data requests, and the thresholds that decide who may commit.
use crate::requests::{rad, wips};
use crate::util::*;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::DataRequestPool;
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::utxo_pool::{UnspentOutputsPool, UtxoDiff};
use witnet_data_structures::vrf::{DataRequestEligibilityClaim, VrfCtx};
use witnet_data_structures::wit::Wit;
use witnet_validations::eligibility::legacy::*;
use witnet_validations::validations::*;

pub fn vrf_input() -> CheckpointVRF {
    CheckpointVRF { checkpoint: NOW as u32, hash_prev_vrf: h(0xee) }
}
/// A proof of eligibility made by key `i`.
pub fn claim(i: usize) -> DataRequestEligibilityClaim {
    let sk = SecretKey { bytes: witnet_protected::Protected::from(sk(i).secret_bytes().to_vec()) };
    DataRequestEligibilityClaim::create(&mut VrfCtx::secp256k1().unwrap(), &sk, vrf_input(), h(9)).unwrap()
}
pub fn request(witnesses: u16, collateral: u64, fee: u64, reward: u64, lock: u64) -> DataRequestOutput {
    DataRequestOutput {
        data_request: RADRequest { time_lock: lock, ..rad() },
        witness_reward: reward,
        witnesses,
        commit_and_reveal_fee: fee,
        min_consensus_percentage: 51,
        collateral,
    }
}
fn stage(i: usize) -> DataRequestStage {
    [DataRequestStage::COMMIT, DataRequestStage::REVEAL, DataRequestStage::TALLY][i]
}
/// A pool with one data request, `h(9)`.
pub fn requested(out: DataRequestOutput, at: DataRequestStage, round: u16) -> DataRequestPool {
    let mut p = DataRequestPool::new(3);
    let mut s = DataRequestState::new(out, pkh(5), 7, Some(h(3)));
    s.info.current_commit_round = round;
    s.set_stage(at);
    p.data_request_pool.insert(h(9), s);
    p
}

//@ prop V05
//@ bounds up to 2 inputs among 2 coins of 2 owners or one that does not exist, up to 2 change outputs, every value, time lock, age of the coins, minimum age, required and minimum collateral and fee, the request known or not and in any stage, proof and signature by either of two keys, any commitment round up to 4, before and after WIP-0008, epochs up to 2245000
//@ cover valid, not mature, locked request, wrong signer, wrong collateral, negative, wrong stage, unknown
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_commit() {
    versions(&[]);
    let number = nd::u32("block number");
    let mut pool = UnspentOutputsPool::default();
    let mut coins = vec![];
    for i in 0..2 {
        let c = (i % 2, nd::u64("value"), nd::u64("time lock"), nd::u32("included"));
        nd::assume(c.3 <= number);
        pool.insert(pointer(i as u8), vto(c.0, c.1, c.2), c.3);
        coins.push(c);
    }
    let diff = UtxoDiff::new(&pool, number);
    let ins: Vec<usize> = (0..nd::pick("inputs", 0, 2)).map(|_| nd::pick("input", 0, 2)).collect();
    let outs: Vec<(usize, u64)> = (0..nd::pick("outputs", 0, 2)).map(|_| (nd::pick("to", 0, 1), nd::u64("change"))).collect();
    let (prover, signer) = (0, nd::pick("signer", 0, 1));
    let (known, at) = (nd::pick("request exists", 0, 1) == 1, nd::pick("stage", 0, 2));
    let (collateral, minimum, fee, lock) = (nd::u64("collateral"), nd::u64("minimum"), nd::u64("fee"), nd::u64("request locked"));
    let round = nd::range("round", 1, 4) as u16;
    let witnesses = nd::range("witnesses", 1, 125) as u16;
    let active = wips(nd::pick("active", 0, 1));
    let age = nd::u32("age");
    let dr_pool = requested(request(witnesses, collateral, fee, 1, lock), stage(at), round);
    let dr = h(if known { 9 } else { 10 });
    let body = CommitTransactionBody::new(
        dr,
        h(4),
        claim(prover),
        ins.iter().map(|i| Input::new(pointer(*i as u8))).collect(),
        outs.iter().map(|(o, v)| vto(*o, *v, 0)).collect(),
        None,
    );
    let tx = CommitTransaction::new(body, vec![some_signature(signer)]);
    let rep = ReputationEngine::new(100);
    let mut owe = vec![];
    let r = validate_commit_transaction(
        &tx, &dr_pool, vrf_input(), &mut owe, &rep, NOW as Epoch, clock(), &diff, minimum, age, number, 10, &active, 10,
        ProtocolVersion::V1_7, &StakesTracker::default(), 4, 1,
    );

    let required = if collateral == 0 { minimum } else { collateral };
    let spendable = ins.iter().enumerate().all(|(k, &i)| {
        coins.get(i).is_some_and(|c| c.0 == prover && c.2 <= NOW as u64 && c.3 <= number.saturating_sub(age)) && !ins[..k].contains(&i)
    });
    let worth: u128 = if spendable { ins.iter().map(|i| coins[*i].1 as u128).sum() } else { 0 };
    let change: u128 = outs.iter().map(|o| o.1 as u128).sum();
    let valid = known
        && at == 0
        && signer == prover
        && outs.len() < 2
        && outs.iter().all(|o| o.1 != 0 && o.0 == prover)
        && spendable
        && worth <= u64::MAX as u128
        && worth == required as u128 + change
        && (active.wip_0008() || lock <= NOW as u64);
    nd::check(
        r.is_ok() == valid,
        "a commitment is valid exactly if the request awaits commitments, the prover signs it and puts up exactly the collateral from its own mature coins",
    );
    match r {
        Ok((p, w, f)) => {
            nd::cover("valid");
            nd::check(p == dr && w == witnesses && f == fee, "the fee and the number of witnesses are those of the request");
            let backup = witnesses as u64 * (1 << (round - 1)) / 2;
            let target = calculate_reppoe_threshold(&rep, &pkh(prover), (witnesses as u64 + backup) as u16, 10, &active).0;
            nd::check(owe.len() == 2 && owed(&owe[..1], &tx.signatures, tx.hash()), "the signature is checked against the hash of the commitment");
            nd::check(
                owe[1]
                    == SignaturesToVerify::VrfDr {
                        proof: claim(prover),
                        vrf_input: vrf_input(),
                        dr_hash: dr,
                        target_hash: target,
                        withdrawer: None,
                        inclusion_epoch: Some(7),
                    },
                "eligibility is checked for this request against the threshold of its round",
            );
        }
        Err(e) => {
            use witnet_data_structures::error::{DataRequestError as D, TransactionError as T};
            match e.downcast_ref::<T>() {
                Some(T::CollateralNotMature { .. }) => nd::cover("not mature"),
                Some(T::TimeLock { .. }) if spendable => nd::cover("locked request"),
                Some(T::PublicKeyHashMismatch { .. }) if signer != prover => nd::cover("wrong signer"),
                Some(T::IncorrectCollateral { .. }) => nd::cover("wrong collateral"),
                Some(T::NegativeCollateral { .. }) => nd::cover("negative"),
                Some(T::DataRequestNotFound { .. }) => nd::cover("unknown"),
                _ => {
                    if matches!(e.downcast_ref::<D>(), Some(D::NotCommitStage)) {
                        nd::cover("wrong stage");
                    }
                }
            }
        }
    }
}

//@ prop V05
//@ bounds up to 1 input of the committer, up to 1 change output, one of two stakes, every value, minimum stake, required and minimum collateral and fee, stake of the prover or of somebody else, in protocol 2.0 and 2.1
//@ cover valid, valid with inputs, too little stake, no stake, no power, pays collateral
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_commit_staked() {
    let version = if nd::bool("2.1") { ProtocolVersion::V2_1 } else { ProtocolVersion::V2_0 };
    versions(&[(ProtocolVersion::V1_8, 1000), (ProtocolVersion::V2_0, 2000), (version, 3000)]);
    let mut pool = UnspentOutputsPool::default();
    let value = nd::u64("value");
    pool.insert(pointer(0), vto(0, value, 0), 1);
    let diff = UtxoDiff::new(&pool, 1000);
    let input = nd::bool("input");
    let out = if nd::bool("output") { Some(nd::u64("change")) } else { None };
    let (collateral, minimum, fee) = (nd::u64("collateral"), nd::u64("minimum"), nd::u64("fee"));
    nd::assume(collateral <= 1 << 62 && minimum <= 1 << 62);
    let held = [1_000_000_000, 5_000_000_001][nd::pick("held", 0, 1)];
    // eligibility by any stake is looked at in h_witnessing
    let min_stake = nd::range("minimum stake", 0, 1 << 62);
    let at = if nd::bool("aged") { 100 } else { NOW as u32 };
    let owner = nd::pick("validator", 0, 1);
    let mut stakes = StakesTracker::default();
    stakes.add_stake(StakeKey { validator: pkh(owner), withdrawer: pkh(6) }, Wit::from_nanowits(held), at, true, Wit::from_nanowits(1)).ok();
    let dr_pool = requested(request(3, collateral, fee, 1, 0), DataRequestStage::COMMIT, 1);
    let body = CommitTransactionBody::new(
        h(9),
        h(4),
        claim(0),
        if input { vec![Input::new(pointer(0))] } else { vec![] },
        out.iter().map(|v| vto(0, *v, 0)).collect(),
        None,
    );
    let tx = CommitTransaction::new(body, vec![some_signature(0)]);
    let mut owe = vec![];
    let r = validate_commit_transaction(
        &tx, &dr_pool, vrf_input(), &mut owe, &ReputationEngine::new(100), NOW as Epoch, clock(), &diff, minimum, 10, 1000, 10, &wips(13), 10,
        version, &stakes, 4, min_stake,
    );
    let required = if collateral == 0 { minimum } else { collateral };
    let paid = if input { value } else { 0 } as i128 - out.unwrap_or(0) as i128;
    let valid = owner == 0 && at == 100 && held >= min_stake + required && paid == 0 && out != Some(0);
    nd::check(
        r.is_ok() == valid,
        "since 2.0 a commitment is valid exactly if the prover is eligible by stake, can take the collateral from its stake and leave the minimum, and pays nothing else",
    );
    match r {
        Ok((p, w, f)) => {
            nd::cover(if input { "valid with inputs" } else { "valid" });
            nd::check(p == h(9) && w == 3 && f == fee, "the fee and the number of witnesses are those of the request");
            let target = witnet_validations::eligibility::current::Eligibility::witnessing_eligibility(&stakes, pkh(0), NOW as Epoch, 3, 1, 4).unwrap().1;
            nd::check(
                owe[1]
                    == SignaturesToVerify::VrfDr {
                        proof: claim(0),
                        vrf_input: vrf_input(),
                        dr_hash: h(9),
                        target_hash: target,
                        withdrawer: Some(pkh(6)),
                        inclusion_epoch: Some(7),
                    },
                "eligibility is checked for this request, withdrawer and round",
            );
        }
        Err(e) => {
            use witnet_data_structures::error::TransactionError as T;
            match e.downcast_ref::<T>() {
                Some(T::CollateralBelowMinimumStake { .. }) => nd::cover("too little stake"),
                Some(T::ValidatorNotEligible { .. }) => nd::cover(if owner == 1 { "no stake" } else { "no power" }),
                Some(T::IncorrectCollateral { .. }) => nd::cover("pays collateral"),
                _ => (),
            }
        }
    }
}

//@ prop V05
//@ bounds one request known or not and in any stage, one committer or none that may have revealed already, reveal claimed by and signed by any of 2 keys, committed to its signature or to anything else, 0 to 2 signatures, every fee
//@ cover valid, wrong stage, not committed, other commitment, twice, claimed for another, two signatures
#[unsafe(no_mangle)]
pub fn h_reveal() {
    versions(&[]);
    let (known, at) = (nd::pick("request exists", 0, 1) == 1, nd::pick("stage", 0, 2));
    let fee = nd::u64("fee");
    let mut pool = requested(request(2, 1, fee, 1, 0), stage(at), 1);
    let dr = h(if known { 9 } else { 10 });
    let (claimed, signer) = (nd::pick("claimed", 0, 1), nd::pick("signer", 0, 1));
    let n = nd::pick("signatures", 0, 2);
    let tx = RevealTransaction::new(RevealTransactionBody::new(dr, vec![1], pkh(claimed)), vec![some_signature(signer); n]);
    let commitment = Hash::SHA256(nd::bytes::<32>("commitment"));
    let (committed, revealed) = (nd::pick("committed", 0, 1) == 1, nd::pick("revealed", 0, 1) == 1);
    let s = pool.data_request_state_mutable(&h(9)).unwrap();
    if committed {
        let c = CommitTransaction::new(CommitTransactionBody::new(h(9), commitment, claim(0), vec![], vec![], None), vec![some_signature(0)]);
        s.info.commits.insert(pkh(0), c);
    }
    if revealed {
        s.info.reveals.insert(pkh(0), tx.clone());
    }
    let mut owe = vec![];
    let r = validate_reveal_transaction(&tx, &pool, &mut owe);
    let matches = commitment == some_signature(signer).signature.hash();
    let valid = known && at == 1 && n == 1 && signer == claimed && signer == 0 && committed && !revealed && matches;
    nd::check(
        r.is_ok() == valid,
        "a reveal is valid exactly if the request awaits reveals and whoever signs it committed to this signature and has not revealed yet",
    );
    match r {
        Ok(f) => {
            nd::cover("valid");
            nd::check(f == fee, "the fee is that of the request");
            nd::check(owed(&owe, &tx.signatures, tx.hash()), "the signature is checked against the hash of the reveal");
        }
        Err(e) => {
            use witnet_data_structures::error::{DataRequestError as D, TransactionError as T};
            match e.downcast_ref::<T>() {
                Some(T::CommitNotFound) => nd::cover("not committed"),
                Some(T::MismatchedCommitment) => nd::cover("other commitment"),
                Some(T::DuplicatedReveal { .. }) => nd::cover("twice"),
                Some(T::PublicKeyHashMismatch { .. }) => nd::cover("claimed for another"),
                Some(T::MismatchingSignaturesNumber { .. }) => nd::cover("two signatures"),
                _ => {
                    if matches!(e.downcast_ref::<D>(), Some(D::NotRevealStage)) {
                        nd::cover("wrong stage");
                    }
                }
            }
        }
    }
}
