//! What a block is worth, which headers extend the chain and what its transactions do together.
use crate::requests::wips;
use crate::util::*;
use crate::witnesses::vrf_input;
use std::cmp::Ordering;
use witnet_crypto::hash::calculate_sha256;
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::DataRequestPool;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::utxo_pool::UnspentOutputsPool;
use witnet_data_structures::vrf::{BlockEligibilityClaim, VrfCtx};
use witnet_data_structures::wit::Wit;
use witnet_validations::eligibility::legacy::*;
use witnet_validations::validations::*;

//@ prop V07
//@ bounds every epoch and initial reward, five halving periods from 1 to 2^32 - 1, in the first four and some later periods up to the 70th
//@ cover halved, gone
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_block_reward() {
    let initial = nd::u64("initial");
    let period = [1, 3, 45, 3_500_000, u32::MAX][nd::pick("period", 0, 4)];
    let epoch = nd::u32("epoch");
    let k = [0u64, 1, 2, 3, 10, 37, 38, 63, 64, 70][nd::pick("halvings", 0, 9)];
    nd::assume(k * period as u64 <= epoch as u64 && (epoch as u64) < (k + 1) * period as u64);
    let r = block_reward(epoch, initial, period);
    nd::check(r == if k < 64 { initial >> k } else { 0 }, "the reward halves with every period");
    if k == 1 && r < initial {
        nd::cover("halved");
    }
    if k >= 64 {
        nd::cover("gone");
    }
}

//@ prop V07
//@ bounds initial rewards up to 2^6, periods of 1 to 3 epochs
#[unsafe(no_mangle)]
pub fn h_total_reward() {
    let initial = nd::range("initial", 0, 63);
    let period = nd::pick("period", 1, 3) as u32;
    let mut sum = 0;
    for e in 0..7 * period {
        sum += block_reward(e, initial, period);
    }
    nd::check(total_block_reward(initial, period) == sum, "the total is what all blocks together are rewarded");
}

fn mint(outs: &[(usize, u64)], epoch: Epoch) -> MintTransaction {
    MintTransaction::new(epoch, outs.iter().map(|(o, v)| vto(*o, *v, 0)).collect())
}

//@ prop V07
//@ bounds up to 3 outputs of any value, every fee and initial reward that fit together, at the start and end of the first two periods, right and wrong epochs, before and since protocol 2.0
//@ cover valid, too much, too many, empty output, wrong epoch, none in 2.0
#[unsafe(no_mangle)]
pub fn h_mint() {
    let v2 = nd::bool("2.0");
    versions(if v2 { &[(ProtocolVersion::V1_8, 3), (ProtocolVersion::V2_0, 5)] } else { &[(ProtocolVersion::V1_8, 3), (ProtocolVersion::V2_0, 50)] });
    let outs: Vec<(usize, u64)> = (0..nd::pick("outputs", 0, 3)).map(|i| (i, nd::u64("minted"))).collect();
    let (fees, initial) = (nd::u64("fees"), nd::u64("initial"));
    let at = [5, 14, 15, 29][nd::pick("epoch", 0, 3)];
    let says = nd::u32("mint epoch");
    let reward = if at < 15 { initial } else { initial >> 1 };
    nd::assume(fees as u128 + reward as u128 <= u64::MAX as u128);
    // periods start at 0, 15, 30...
    let r = validate_mint_transaction(&mint(&outs, says), fees, at, initial, 15);
    let minted: u128 = outs.iter().map(|o| o.1 as u128).sum();
    let valid = says == at && if v2 { outs.is_empty() } else { minted == fees as u128 + reward as u128 && outs.len() < 3 && outs.iter().all(|o| o.1 > 0) };
    nd::check(r.is_ok() == valid, "a block mints exactly its reward and fees, and nothing at all since 2.0");
    if valid {
        nd::cover(if v2 { "none in 2.0" } else { "valid" });
    } else if says != at {
        nd::cover("wrong epoch");
    } else if outs.len() == 3 {
        nd::cover("too many");
    } else if outs.iter().any(|o| o.1 == 0) {
        nd::cover("empty output");
    } else if minted > fees as u128 + reward as u128 {
        nd::cover("too much");
    }
}

//@ prop V07
//@ bounds every reward, every percentage up to 100, with or without another address
//@ cover split, all of it, none of it
#[unsafe(no_mangle)]
pub fn h_mint_split() {
    let reward = nd::range("reward", 0, 1 << 56);
    let percent = [0, 1, 33, 50, 99, 100][nd::pick("percentage", 0, 5)];
    let other = nd::bool("another address");
    let t = MintTransaction::with_external_address(7, reward, pkh(0), if other { Some(pkh(1)) } else { None }, percent);
    let sum: u64 = t.outputs.iter().map(|o| o.value).sum();
    nd::check(t.epoch == 7 && sum == reward, "the whole reward is paid");
    let theirs: u64 = t.outputs.iter().filter(|o| o.pkh == pkh(1)).map(|o| o.value).sum();
    let share = if other { percent as u64 } else { 0 };
    nd::check(theirs as u128 * 100 <= reward as u128 * share as u128 && (theirs as u128 + 1) * 100 > reward as u128 * share as u128, "the other address gets its percentage");
    nd::check(reward == 0 || t.outputs.iter().all(|o| o.value > 0), "no output is empty");
    nd::cover(if theirs == 0 { "none of it" } else if theirs == reward { "all of it" } else { "split" });
}

fn hash2(a: Hash, b: Hash) -> Hash {
    let (Hash::SHA256(a), Hash::SHA256(b)) = (a, b);
    calculate_sha256(&[a, b].concat()).into()
}
/// The merkle root of up to three leaves.
fn root(l: &[Hash]) -> Hash {
    match l.len() {
        0 => calculate_sha256(b"").into(),
        1 => l[0],
        2 => hash2(l[0], l[1]),
        3 => hash2(hash2(l[0], l[1]), l[2]),
        _ => unreachable!(),
    }
}
fn hashes<T: VersionedHashable>(l: &[T], v: ProtocolVersion) -> Hash {
    root(&l.iter().map(|t| t.versioned_hash(v)).collect::<Vec<_>>())
}
pub fn roots(t: &BlockTransactions, v: ProtocolVersion) -> BlockMerkleRoots {
    BlockMerkleRoots {
        mint_hash: t.mint.versioned_hash(v),
        vt_hash_merkle_root: hashes(&t.value_transfer_txns, v),
        dr_hash_merkle_root: hashes(&t.data_request_txns, v),
        commit_hash_merkle_root: hashes(&t.commit_txns, v),
        reveal_hash_merkle_root: hashes(&t.reveal_txns, v),
        tally_hash_merkle_root: hashes(&t.tally_txns, v),
        stake_hash_merkle_root: if v >= ProtocolVersion::V1_8 { hashes(&t.stake_txns, v) } else { Hash::default() },
        unstake_hash_merkle_root: if v >= ProtocolVersion::V2_0 { hashes(&t.unstake_txns, v) } else { Hash::default() },
    }
}
/// One root of eight, by number.
fn root_of(r: &mut BlockMerkleRoots, i: usize) -> &mut Hash {
    match i {
        0 => &mut r.mint_hash,
        1 => &mut r.vt_hash_merkle_root,
        2 => &mut r.dr_hash_merkle_root,
        3 => &mut r.commit_hash_merkle_root,
        4 => &mut r.reveal_hash_merkle_root,
        5 => &mut r.tally_hash_merkle_root,
        6 => &mut r.stake_hash_merkle_root,
        _ => &mut r.unstake_hash_merkle_root,
    }
}
fn proof(i: usize) -> BlockEligibilityClaim {
    let sk = SecretKey { bytes: witnet_protected::Protected::from(sk(i).secret_bytes().to_vec()) };
    BlockEligibilityClaim::create(&mut VrfCtx::secp256k1().unwrap(), &sk, vrf_input()).unwrap()
}
pub fn block(txns: BlockTransactions, merkle_roots: BlockMerkleRoots) -> Block {
    Block::new(
        BlockHeader {
            signals: 0,
            beacon: CheckpointBeacon { checkpoint: NOW as Epoch, hash_prev_block: h(0xb2) },
            merkle_roots,
            proof: BlockEligibilityClaim::default(),
            bn256_public_key: None,
        },
        some_signature(0),
        txns,
    )
}
/// What the transactions of a block amount to, with the rest of the environment fixed.
pub fn check_block(b: &Block, pool: &UnspentOutputsPool, drs: &mut DataRequestPool, c: &ConsensusConstants, active: &ActiveWips, stakes: &StakesTracker) -> Option<UnspentOutputsPool> {
    nd::assume(b.hash() != c.genesis_hash);
    let wit2 = ConsensusConstantsWit2 { checkpoint_zero_timestamp: 0, checkpoints_period: 1 };
    let mut owe = vec![];
    let rep = ReputationEngine::new(100);
    let d = validate_block_transactions(pool, drs, b, vrf_input(), &mut owe, &rep, clock(), 1000, c, &wit2, active, None, stakes).ok()?;
    let mut after = pool.clone();
    d.apply(&mut after);
    Some(after)
}
/// No two transactions have the same hash, nor one that is made up here.
pub fn distinct(t: &BlockTransactions, v: ProtocolVersion) {
    fn all<T: VersionedHashable>(l: &[T], v: ProtocolVersion, to: &mut Vec<Hash>) {
        to.extend(l.iter().map(|t| t.versioned_hash(v)));
    }
    let mut l = vec![t.mint.versioned_hash(v)];
    all(&t.value_transfer_txns, v, &mut l);
    all(&t.data_request_txns, v, &mut l);
    all(&t.commit_txns, v, &mut l);
    all(&t.reveal_txns, v, &mut l);
    all(&t.tally_txns, v, &mut l);
    all(&t.stake_txns, v, &mut l);
    all(&t.unstake_txns, v, &mut l);
    for (i, a) in l.iter().enumerate() {
        fresh(*a);
        nd::assume(l[..i].iter().all(|b| a != b));
    }
}
pub fn total(pool: &UnspentOutputsPool) -> u128 {
    pool.iter().map(|(_, (o, _))| o.value as u128).sum()
}

//@ prop V08
//@ bounds up to 2 value transfers of one input each among 2 coins and what the first transfer of the block creates, up to 2 outputs each, every value and time lock, weight limit and minted amount, one merkle root wrong or none
//@ cover accepted, chained, spent twice, too heavy, mints too much, wrong root
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_block_transfers() {
    versions(&[]);
    let coins = Coins::new(2, 0);
    let mut ledger: Vec<(OutputPointer, u64, u64)> = coins.utxos.iter().enumerate().map(|(i, u)| (pointer(i as u8), u.1, u.2)).collect();
    nd::assume(ledger.iter().all(|l| l.1 <= 1 << 61));
    let owner = |i: usize| i % 2;
    let mut owners: Vec<usize> = vec![owner(0), owner(1)];
    let n = nd::pick("transfers", 0, 2);
    let (mut txs, mut fees, mut weight, mut fine) = (vec![], 0u128, 0u32, true);
    let mut spent: Vec<usize> = vec![];
    for k in 0..n {
        // the last one is the first output of the first transfer
        let i = nd::pick("input", 0, if k == 1 { 2 } else { 1 });
        let outs: Vec<u64> = (0..nd::pick("outputs", 1, 2)).map(|_| nd::u64("sent")).collect();
        let (p, v, l) = ledger[i];
        let tx = VTTransaction::new(
            VTTransactionBody::new(vec![Input::new(p)], outs.iter().map(|v| vto(1 + k, *v, 0)).collect()),
            vec![some_signature(owners[i])],
        );
        let sum: u128 = outs.iter().map(|v| *v as u128).sum();
        weight += 133 + 360 * outs.len() as u32;
        fine &= !spent.contains(&i) && l <= NOW as u64 && sum <= v as u128 && !outs.contains(&0);
        if spent.contains(&i) {
            nd::cover("spent twice");
        }
        fees += (v as u128).saturating_sub(sum);
        spent.push(i);
        if k == 0 {
            ledger.push((OutputPointer { transaction_id: tx.hash(), output_index: 0 }, outs[0], 0));
            owners.push(1);
        }
        txs.push(tx);
    }
    let minted = nd::u64("minted");
    let txns = BlockTransactions { mint: mint(&[(3, minted)], NOW as Epoch), value_transfer_txns: txs, ..Default::default() };
    distinct(&txns, ProtocolVersion::V1_7);
    let mut r = roots(&txns, ProtocolVersion::V1_7);
    let wrong = nd::pick("wrong root", 0, 8);
    if wrong < 8 {
        *root_of(&mut r, wrong) = h(77);
        nd::assume(r != roots(&txns, ProtocolVersion::V1_7));
    }
    let mut c = constants();
    c.max_vt_weight = nd::u32("weight limit");
    let b = block(txns, r);
    let after = check_block(&b, &coins.pool, &mut DataRequestPool::new(3), &c, &wips(13), &StakesTracker::default());
    let reward = c.initial_block_reward as u128;
    let valid = fine && weight <= c.max_vt_weight && minted as u128 == fees + reward && wrong == 8;
    nd::check(
        after.is_some() == valid,
        "a block is valid exactly if its transfers are in turn, weigh no more than the limit together, it mints its reward and their fees, and its header commits to all of them",
    );
    if let Some(after) = after {
        nd::cover("accepted");
        if spent.contains(&2) {
            nd::cover("chained");
        }
        nd::check(total(&after) == total(&coins.pool) + reward, "a block creates its reward and nothing else");
    } else if fine && weight <= c.max_vt_weight && wrong == 8 {
        if minted as u128 > fees + reward {
            nd::cover("mints too much");
        }
    } else if fine && weight > c.max_vt_weight {
        nd::cover("too heavy");
    } else if fine {
        nd::cover("wrong root");
    }
}
