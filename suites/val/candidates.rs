//! Which headers extend the chain, who may mine and witness, which candidate wins and which proofs count.
use crate::blocks::block;
use crate::requests::wips;
use crate::util::*;
use crate::witnesses::vrf_input;
use std::cmp::Ordering;
use witnet_crypto::secp256k1::{PublicKey as SecpPk, SecretKey as SecpSk};
use witnet_crypto::signature::sign;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::vrf::*;
use witnet_data_structures::wit::Wit;
use witnet_validations::eligibility::current::{Eligibility, Eligible};
use witnet_validations::eligibility::legacy::*;
use witnet_validations::validations::*;

fn vrf_key(i: usize) -> SecretKey {
    SecretKey { bytes: witnet_protected::Protected::from(sk(i).secret_bytes().to_vec()) }
}
fn mined(i: usize, at: CheckpointVRF) -> BlockEligibilityClaim {
    BlockEligibilityClaim::create(&mut VrfCtx::secp256k1().unwrap(), &vrf_key(i), at).unwrap()
}
fn any_hash(name: &'static str) -> Hash {
    Hash::SHA256(nd::bytes::<32>(name))
}
fn staked(l: &[(usize, u64, Epoch)]) -> StakesTracker {
    let mut t = StakesTracker::default();
    for (i, wits, at) in l {
        t.add_stake(StakeKey { validator: pkh(*i), withdrawer: pkh(10 + *i) }, Wit::from_nanowits(wits * 1_000_000_000), *at, true, Wit::from_nanowits(1)).ok();
    }
    t
}

//@ prop V08
//@ bounds every block, current and tip epoch, previous block the tip or another, eligibility proved and block signed by either of two keys, with and without protocol 2.0 and 2.1, when the signer is the best of three stakers, the worst or none
//@ cover accepted, accepted by stake, future, old, other chain, signed by another, not eligible, not staking
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_header() {
    let version = [ProtocolVersion::V1_7, ProtocolVersion::V2_0, ProtocolVersion::V2_1][nd::pick("version", 0, 2)];
    let v2 = version >= ProtocolVersion::V2_0;
    versions(&[(ProtocolVersion::V1_8, 1000), (ProtocolVersion::V2_0, 2000), (version, 3000)][..if v2 { 3 } else { 0 }]);
    let (at, now, tip) = (nd::u32("block epoch"), nd::u32("current epoch"), nd::u32("tip epoch"));
    nd::assume(at >= 3000);
    let (prover, signer) = (nd::pick("prover", 0, 1), nd::pick("signer", 0, 1));
    let linked = nd::pick("linked", 0, 1) == 1;
    let mut b = block(BlockTransactions::default(), BlockMerkleRoots::default());
    b.block_header.beacon = CheckpointBeacon { checkpoint: at, hash_prev_block: if linked { h(0xb2) } else { h(0xb3) } };
    b.block_header.proof = mined(prover, vrf_input());
    b.block_sig = some_signature(signer);
    // all stakes are equally old: with three stakers the best two are eligible
    let mine = if v2 { [0, 1, 9][nd::pick("stake", 0, 2)] } else { 0 };
    let stakes = match mine {
        0 => StakesTracker::default(),
        _ => staked(&[(signer, mine, 100), (5, 5, 100), (6, 6, 100)]),
    };
    let mut owe = vec![];
    let tip = CheckpointBeacon { checkpoint: tip, hash_prev_block: h(0xb2) };
    let mut c = constants();
    c.epochs_with_minimum_difficulty = 0;
    let r = validate_block(&b, now, vrf_input(), tip, &mut owe, &ReputationEngine::new(100), &c, &wips(13), &stakes, version, 3);
    let eligible = !v2 || mine == 9;
    let valid = at <= now && at >= tip.checkpoint && linked && prover == signer && eligible;
    nd::check(r.is_ok() == valid, "a block extends the chain exactly if it is neither old nor from the future, links to the tip and is signed by the eligible prover");
    match r {
        Ok(()) => {
            nd::cover(if v2 { "accepted by stake" } else { "accepted" });
            let target = if v2 { Hash::max() } else { calculate_randpoe_threshold(0, 4, 10, 2000, 0, &wips(13)).0 };
            nd::check(
                owe.len() == 2 && owe[0] == SignaturesToVerify::VrfBlock { proof: mined(signer, vrf_input()), vrf_input: vrf_input(), target_hash: target },
                "the proof of eligibility is checked against the threshold",
            );
            let Hash::SHA256(d) = b.versioned_hash(version);
            nd::check(
                matches!(&owe[1], SignaturesToVerify::SecpBlock { public_key, data, .. } if PublicKey::from(*public_key) == pk(signer) && data[..] == d[..]),
                "the signature is checked against the hash of the block",
            );
        }
        Err(_) if at > now => nd::cover("future"),
        Err(_) if at < tip.checkpoint => nd::cover("old"),
        Err(_) if !linked => nd::cover("other chain"),
        Err(_) if !eligible => nd::cover(if mine == 0 { "not staking" } else { "not eligible" }),
        Err(_) => nd::cover("signed by another"),
    }
}

struct Candidate {
    hash: Hash,
    rep: u32,
    vrf: Hash,
    active: bool,
    power: u64,
}
fn candidate() -> Candidate {
    Candidate { hash: any_hash("block hash"), rep: nd::u32("reputation"), vrf: any_hash("vrf"), active: nd::bool("active"), power: nd::u64("power") }
}
fn compare(a: &Candidate, b: &Candidate, s: &VrfSlots, v: ProtocolVersion) -> Ordering {
    compare_block_candidates(
        a.hash, Reputation(a.rep), a.vrf, a.active, Power::from(a.power), b.hash, Reputation(b.rep), b.vrf, b.active, Power::from(b.power), s, v,
    )
}

//@ prop V10
//@ bounds every two candidates, any two slot thresholds in order, protocols 1.7, 2.0 and 2.1
//@ cover slot, reputation, activity, proof, hash, power, the same
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_candidates() {
    let version = [ProtocolVersion::V1_7, ProtocolVersion::V2_0, ProtocolVersion::V2_1][nd::pick("version", 0, 2)];
    let (a, b) = (candidate(), candidate());
    let (s1, s2) = (nd::u32("first slot"), nd::u32("second slot"));
    nd::assume(s1 <= s2);
    let t = [Hash::with_first_u32(s1), Hash::with_first_u32(s2)];
    let s = VrfSlots::new(t.to_vec());
    let got = compare(&a, &b, &s, version);
    let slot = |v: &Hash| (*v > t[0]) as u32 + (*v > t[1]) as u32;
    let want = if version >= ProtocolVersion::V2_0 {
        a.power.cmp(&b.power).then(b.vrf.cmp(&a.vrf)).then(b.hash.cmp(&a.hash))
    } else {
        slot(&b.vrf)
            .cmp(&slot(&a.vrf))
            .then((a.rep > 0).cmp(&(b.rep > 0)))
            .then(a.active.cmp(&b.active))
            .then(b.vrf.cmp(&a.vrf))
            .then(b.hash.cmp(&a.hash))
    };
    nd::check(got == want, "candidates are compared by slot, reputation, activity, proof and hash, or since 2.0 by power, proof and hash");
    nd::check(compare(&b, &a, &s, version) == got.reverse(), "the comparison does not depend on which candidate is seen first");
    nd::check(got != Ordering::Equal || a.hash == b.hash && a.vrf == b.vrf, "only the same block is equally good");
    if got == Ordering::Greater {
        nd::cover(if version >= ProtocolVersion::V2_0 {
            if a.power != b.power { "power" } else if a.vrf == b.vrf { "hash" } else { "proof" }
        } else if slot(&a.vrf) < slot(&b.vrf) {
            "slot"
        } else if (a.rep > 0) != (b.rep > 0) {
            "reputation"
        } else if a.active != b.active {
            "activity"
        } else {
            "proof"
        });
    } else if got == Ordering::Equal {
        nd::cover("the same");
    }
}

//@ prop V10
//@ bounds every three candidates, any two slot thresholds in order, protocols 1.7 and 2.0
//@ cover chain
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_candidates_order() {
    let version = [ProtocolVersion::V1_7, ProtocolVersion::V2_0][nd::pick("version", 0, 1)];
    let (a, b, c) = (candidate(), candidate(), candidate());
    let (s1, s2) = (nd::u32("first slot"), nd::u32("second slot"));
    nd::assume(s1 <= s2);
    let s = VrfSlots::new(vec![Hash::with_first_u32(s1), Hash::with_first_u32(s2)]);
    let (ab, bc) = (compare(&a, &b, &s, version), compare(&b, &c, &s, version));
    if ab == Ordering::Greater && bc == Ordering::Greater {
        nd::check(compare(&a, &c, &s, version) == Ordering::Greater, "what is better than a better candidate is better");
        nd::cover("chain");
    }
}

//@ prop V09
//@ bounds three stakers of any stake up to 2^16 wits since any of the first 2^16 epochs, the current epoch and any replication factor, and whoever does not stake
//@ cover eligible, outranked, tie, not staking
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_mining() {
    versions(&[]);
    let n = nd::pick("stakers", 0, 3);
    let l: Vec<(usize, u64, Epoch)> = (0..n).map(|i| (i, nd::range("stake", 1, 1 << 16), nd::range("since", 0, 1 << 16) as Epoch)).collect();
    let now = nd::range("epoch", 0, 1 << 16) as Epoch;
    let rf = nd::u16("replication factor");
    let t = staked(&l);
    let who = nd::pick("validator", 0, 3);
    let power = |i: usize| l[i].1 * now.saturating_sub(l[i].2) as u64;
    let got = t.mining_eligibility(pkh(who), now, rf);
    if who >= n {
        nd::check(matches!(got, Ok(Eligible::No(_))), "who does not stake cannot mine");
        nd::cover("not staking");
        return;
    }
    let better = (0..n).filter(|j| *j != who && (power(*j) > power(who) || power(*j) == power(who) && pkh(*j) > pkh(who))).count();
    let want = better < (rf as usize).min(n * 2 / 3);
    nd::check((got == Ok(Eligible::Yes)) == want, "those with the most power can mine, as many as the replication factor but no more than two thirds of the stakers");
    if want {
        nd::cover("eligible");
    } else {
        nd::cover("outranked");
    }
    if n > 1 && power(0) == power(1) && power(0) > 0 {
        nd::cover("tie");
    }
}

//@ prop V09
//@ bounds three stakers of one epoch of age, or one that just staked, with any stake up to 2^12 wits, 1 to 3 witnesses, any of 4 rounds
//@ cover eligible, outranked, certain, not staking, just staked
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_witnessing() {
    versions(&[]);
    let l: Vec<(usize, u64, Epoch)> = (0..3)
        .map(|i| {
            let k = if i == 2 { nd::pick("magnitude", 3, 7) } else { [1, 4, 12][nd::pick("magnitude", 0, 2)] };
            let lo = 1u64 << (k - 1);
            (i, nd::range("stake", lo, 2 * lo - 1), 99)
        })
        .collect();
    let fresh = nd::pick("just staked", 0, 1) == 1;
    let mut t = staked(&l);
    if fresh {
        t.add_stake(StakeKey { validator: pkh(3), withdrawer: pkh(13) }, Wit::from_nanowits(9_000_000_000), 100, true, Wit::from_nanowits(1)).ok();
    }
    let (witnesses, round) = (nd::pick("witnesses", 1, 3) as u16, nd::pick("round", 1, 4) as u16);
    let who = nd::pick("validator", 0, 3);
    let Ok((e, target, probability)) = t.witnessing_eligibility(pkh(who), 100, witnesses, round, 4) else {
        nd::check(false, "eligibility can always be told");
        return;
    };
    if who == 3 {
        nd::check(matches!(e, Eligible::No(_)) && target == Hash::min() && probability == 0.0, "who has no power cannot witness");
        nd::cover(if fresh { "just staked" } else { "not staking" });
        return;
    }
    let mut p: Vec<u64> = l.iter().map(|x| x.1).collect();
    p.sort();
    let max = p[2];
    let rf = (witnesses as usize) << round;
    // the power of number `rf` in the ranking
    let threshold = match rf {
        2 => p[1],
        3 => p[0],
        _ => 0,
    };
    let own = l[who].1;
    nd::check((e == Eligible::Yes) == (own > threshold), "more than the power that is outranked by the witnesses of this round is needed");
    if own <= threshold {
        nd::check(target == Hash::min() && probability == 0.0, "who is not eligible has no chance");
        nd::cover("outranked");
        return;
    }
    nd::cover("eligible");
    let digits = |x: u64| (0..64).map(|i| (x >> i != 0) as u64).sum::<u64>();
    let (up, down) = (4 * digits(own), round as u64 * digits(threshold) + (4 - round as u64) * digits(max));
    // target / 2^256 = up / down, with the precision of the first 32 bits
    let Hash::SHA256(b) = target;
    let first = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as u128;
    nd::check(b[4..].iter().all(|x| *x == 0xff), "a target ends in ones");
    if down == 0 || up >= down {
        nd::check(first == u32::MAX as u128, "a sure witness is always let through");
        nd::cover("certain");
    } else {
        let exact = (up as u128) << 32;
        let got = first * down as u128;
        nd::check(got <= exact && exact - got <= 2 * down as u128, "the chance to witness is the share of the own power");
    }
}

fn first_of(t: Hash) -> u64 {
    let Hash::SHA256(b) = t;
    nd::check(b[4..].iter().all(|x| *x == 0xff), "a target ends in ones");
    u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as u64
}

//@ prop V11
//@ bounds any replication factor, epoch and length of the minimum difficulty, five numbers of identities and minimum difficulties each, before and after WIP-0009
//@ cover minimum difficulty, everybody, one in many
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_block_threshold() {
    let after = nd::bool("after WIP-0009");
    let n = [0u32, 1, 7, 2000, u32::MAX][nd::pick("identities", 0, 4)];
    let d = [0u32, 1, 6, 2000, 1 << 20][nd::pick("minimum difficulty", 0, 4)];
    let (rf, epoch, easy) = (nd::u32("replication factor"), nd::u32("epoch"), nd::u32("minimum difficulty until"));
    let (t, _) = calculate_randpoe_threshold(n, rf, epoch, d, easy, &wips(if after { 2 } else { 1 }));
    let (share, of) = if epoch <= easy {
        (1u128, d.max(1) as u128)
    } else {
        (rf as u128, n.max(1).max(if after { d } else { 0 }) as u128)
    };
    let got = first_of(t) as u128;
    if share >= of {
        nd::check(got + 2 * share / of.max(1) + 2 >= u32::MAX as u128 || got == u32::MAX as u128, "everybody is let through");
        nd::cover("everybody");
    } else {
        // rounding loses at most one part of 2^64 for each of the share
        nd::check(got * of <= share << 32 && (got + 2) * of > share << 32, "the threshold lets through as many as the replication factor");
        nd::cover(if epoch <= easy { "minimum difficulty" } else { "one in many" });
    }
}

//@ prop V11
//@ bounds every proof, three thresholds of any replication factors in a row, five numbers of identities
//@ cover first, backup, none
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_slots() {
    let n = [0u32, 1, 7, 2000, u32::MAX][nd::pick("identities", 0, 4)];
    let rf = nd::range("replication factor", 1, 1 << 20) as u32;
    // slots for rf, rf + 1 and rf + 2
    let width = nd::pick("backups", 0, 2) as u32;
    let from = [1u32, 3, 100][nd::pick("from", 0, 2)];
    nd::assume(rf == from);
    let s = VrfSlots::from_rf(n, from, from + width, 10, 6, 0, &wips(13));
    nd::check(s.target_hashes().len() == width as usize + 1, "there is one slot for the replication factor and one for each backup");
    let v = any_hash("vrf");
    let slot = s.slot(&v);
    for (i, t) in s.target_hashes().iter().enumerate() {
        nd::check(*t == calculate_randpoe_threshold(n, from + i as u32, 10, 6, 0, &wips(13)).0, "a slot ends at the threshold of its factor");
        nd::check((slot <= i as u32) == (v <= *t), "a proof is in the first slot whose threshold it meets");
    }
    nd::cover(match slot {
        0 => "first",
        x if x <= width => "backup",
        _ => "none",
    });
}

//@ prop V11
//@ bounds a newcomer or the only reputed identity of any reputation, 1 to 4 identities, any number of witnesses, three minimum difficulties, before the third hard fork, after it and after WIP-0016
//@ cover newcomer, reputed, everybody
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_witness_threshold() {
    let rules = nd::pick("rules", 0, 2);
    let rep = [0u32, 1, 9, 1000][nd::pick("reputation", 0, 3)];
    let others = nd::pick("others", 0, 3);
    let d = [1u32, 5, 2000][nd::pick("minimum difficulty", 0, 2)];
    let mut e = ReputationEngine::new(100);
    if rep > 0 {
        e.trs_mut().gain(Alpha(10), vec![(pkh(0), Reputation(rep))]).ok();
    }
    e.ars_mut().push_activity((0..others + 1).map(pkh));
    let witnesses = nd::u16("witnesses");
    nd::assume(rules == 2 || witnesses < 5);
    let reputed = nd::pick("who", 0, 1) == 0;
    let (t, _) = calculate_reppoe_threshold(&e, &pkh(if reputed { 0 } else { 1 }), witnesses, d, &wips([2, 3, 4][rules]));
    let eligibility = e.get_eligibility(&pkh(if reputed { 0 } else { 1 })) as u128 + 1;
    let active = e.total_active_reputation().max(1) as u128;
    let (share, of) = match rules {
        2 => (witnesses as u128 * eligibility, active.max(d as u128)),
        1 if d as u128 * eligibility > active => (e.threshold_factor(witnesses) as u128, d as u128),
        _ => (e.threshold_factor(witnesses) as u128 * eligibility, active),
    };
    let got = first_of(t) as u128;
    if share >= of {
        nd::check(got + 2 * share / of + 2 >= u32::MAX as u128, "everybody is let through");
        nd::cover("everybody");
    } else {
        nd::check(got * of <= share << 32 && (got + 2) * of > share << 32, "the threshold is the share of the reputation times the witnesses");
        nd::cover(if reputed && rep > 0 { "reputed" } else { "newcomer" });
    }
}

//@ prop V14
//@ bounds one block proof, request proof of either protocol, transaction or block signature each made for the same or another input, request, withdrawer, key or message, any target
//@ cover block proof, request proof, staked request proof, transaction, block, above the target, other input, other key
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_verify() {
    versions(&[(ProtocolVersion::V1_8, 1000), (ProtocolVersion::V2_0, 2000)]);
    let vrf = &mut VrfCtx::secp256k1().unwrap();
    let (kind, wrong) = (nd::pick("kind", 0, 4), nd::pick("wrong", 0, 3));
    let target = any_hash("target");
    let input = CheckpointVRF { checkpoint: NOW as u32, hash_prev_vrf: h(0xee) };
    let at = if wrong == 1 { CheckpointVRF { checkpoint: NOW as u32 + 1, ..input } } else { input };
    let dr = if wrong == 2 { h(10) } else { h(9) };
    let digest = [if wrong == 1 { 8 } else { 7 }; 32];
    let key = if wrong == 3 { 1 } else { 0 };
    let (what, fine, meets) = match kind {
        0 => {
            let proof = mined(0, at);
            let meets = proof.proof_to_hash(vrf).unwrap() <= target;
            (SignaturesToVerify::VrfBlock { proof, vrf_input: input, target_hash: target }, wrong != 1, meets)
        }
        1 | 2 => {
            let (then, m) = if kind == 1 {
                (1500, VrfMessage::data_request_v1(at, dr))
            } else {
                (2000, VrfMessage::data_request_v2(at, dr, if wrong == 3 { None } else { Some(pkh(6)) }))
            };
            let (proof, hash) = VrfProof::create(vrf, &vrf_key(0), &m).unwrap();
            (
                SignaturesToVerify::VrfDr {
                    proof: DataRequestEligibilityClaim { proof },
                    vrf_input: input,
                    dr_hash: h(9),
                    target_hash: target,
                    withdrawer: Some(pkh(6)),
                    inclusion_epoch: Some(then),
                },
                wrong == 0 || wrong == 3 && kind == 1,
                hash <= target,
            )
        }
        _ => {
            let signature = sign(sk(0), &digest).unwrap();
            let public_key = SecpPk::from_secret_key_global(&sk(key));
            let data = vec![7; 32];
            let fine = wrong != 1 && wrong != 3;
            if kind == 3 {
                (SignaturesToVerify::SecpTx { public_key, data, signature }, fine, true)
            } else {
                (SignaturesToVerify::SecpBlock { public_key, data, signature }, fine, true)
            }
        }
    };
    // it counts wherever it is in the list
    let good = SignaturesToVerify::SecpTx {
        public_key: SecpPk::from_secret_key_global(&sk(0)),
        data: vec![7; 32],
        signature: sign(sk(0), &[7; 32]).unwrap(),
    };
    let list = if nd::pick("last", 0, 1) == 1 { vec![good, what] } else { vec![what, good] };
    let r = verify_signatures(list, vrf);
    nd::check(r.is_ok() == (fine && meets), "exactly the proofs and signatures made by this key for this very input, request and message count, and only within the target");
    match r {
        Ok(hashes) => {
            nd::check(hashes.len() == (kind == 0) as usize, "the proof of the block is its random value");
            nd::cover(["block proof", "request proof", "staked request proof", "transaction", "block"][kind]);
        }
        Err(_) if fine => nd::cover("above the target"),
        Err(_) if wrong == 1 => nd::cover("other input"),
        Err(_) => nd::cover("other key"),
    }
}
