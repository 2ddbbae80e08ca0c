//! What transactions do to the unspent outputs, the genesis block, and blocks of witnesses and stakers.
use crate::blocks::*;
use crate::requests::{get, rad, wips};
use crate::tallies::reveal_bytes;
use crate::util::*;
use crate::witnesses::{claim, request, requested, vrf_input};
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::DataRequestPool;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::utxo_pool::{UnspentOutputsPool, UtxoDiff};
use witnet_data_structures::wit::Wit;
use witnet_validations::validations::*;

//@ prop V13
//@ bounds up to 3 inputs among 3 coins of 2 owners, in the pool since any block, up to 2 outputs to either owner or a third, every value, time lock and block number, before protocol 2.0 and since, clocks starting at 0 or later
//@ cover inherited, reset by another input, reset by another owner, relative lock
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_outputs() {
    let v2 = nd::bool("2.0");
    versions(if v2 { &[(ProtocolVersion::V1_8, 1000), (ProtocolVersion::V2_0, 2000)] } else { &[] });
    let number = nd::u32("block number");
    let mut pool = UnspentOutputsPool::default();
    let coins: Vec<(usize, u32)> = (0..3).map(|i| (i % 2, nd::u32("included"))).collect();
    for (i, c) in coins.iter().enumerate() {
        nd::assume(c.1 < number);
        pool.insert(pointer(i as u8), vto(c.0, 5, 0), c.1);
    }
    let mut diff = UtxoDiff::new(&pool, number);
    let mut ins: Vec<usize> = vec![];
    for _ in 0..nd::pick("inputs", 0, 3) {
        let i = nd::pick("input", 0, 2);
        nd::assume(!ins.contains(&i));
        ins.push(i);
    }
    let outs: Vec<ValueTransferOutput> = (0..nd::pick("outputs", 0, 2)).map(|_| vto(nd::pick("to", 0, 2), nd::u64("value"), nd::u64("time lock"))).collect();
    let zero = [0i64, 1_600_000_000][nd::pick("clock", 0, 1)];
    let inputs: Vec<Input> = ins.iter().map(|i| Input::new(pointer(*i as u8))).collect();
    update_utxo_diff(&mut diff, inputs.iter(), outs.iter(), h(1), NOW as Epoch, clock(), zero);
    let mut after = pool.clone();
    diff.take_diff().apply(&mut after);

    let same_owner = ins.iter().all(|i| coins[*i].0 == coins[ins[0]].0);
    let youngest = ins.iter().map(|i| coins[*i].1).max();
    for (k, o) in outs.iter().enumerate() {
        let p = OutputPointer { transaction_id: h(1), output_index: k as u32 };
        let Some(got) = after.get(&p) else {
            nd::check(false, "every output can be spent afterwards");
            continue;
        };
        nd::check(got.pkh == o.pkh && got.value == o.value, "an output is what the transaction says");
        let relative = v2 && (o.time_lock as i128) < zero as i128;
        if relative {
            nd::cover("relative lock");
        }
        nd::check(got.time_lock as u128 == o.time_lock as u128 + if relative { NOW as u128 } else { 0 }, "since 2.0 a lock before the beginning of time counts from the block");
        let keeps = !ins.is_empty() && same_owner && o.pkh == pkh(coins[ins[0]].0);
        let age = after.included_in_block_number(&p);
        nd::check(
            age == Some(if keeps { youngest.unwrap() } else { number }),
            "an output is as old as the youngest input if it returns to the only owner of the inputs, and new otherwise",
        );
        nd::cover(if keeps {
            "inherited"
        } else if ins.len() > 1 && !same_owner {
            "reset by another input"
        } else {
            "reset by another owner"
        });
    }
    for i in 0..3 {
        nd::check(after.get(&pointer(i as u8)).is_some() != ins.contains(&i), "exactly the inputs are gone");
    }
    nd::check(after.iter().count() == 3 - ins.len() + outs.len(), "nothing else is there");
}

//@ prop V13
//@ bounds one coin of any value created earlier in the same block and spent by its owner to itself, every block number
#[unsafe(no_mangle)]
pub fn h_outputs_same_block() {
    versions(&[]);
    let number = nd::range("block number", 1, u32::MAX as u64) as u32;
    let pool = UnspentOutputsPool::default();
    let mut diff = UtxoDiff::new(&pool, number);
    update_utxo_diff(&mut diff, vec![], [vto(0, nd::u64("value"), 0)].iter(), h(1), NOW as Epoch, clock(), 0);
    let p = OutputPointer { transaction_id: h(1), output_index: 0 };
    update_utxo_diff(&mut diff, [Input::new(p)].iter(), [vto(0, nd::u64("value"), 0)].iter(), h(2), NOW as Epoch, clock(), 0);
    let mut after = UnspentOutputsPool::default();
    diff.take_diff().apply(&mut after);
    let p = OutputPointer { transaction_id: h(2), output_index: 0 };
    nd::check(after.included_in_block_number(&p) == Some(number), "an output is never older than the coins it was made of");
}

fn genesis_vt(owner: usize, outs: &[u64]) -> VTTransaction {
    VTTransaction::new(VTTransactionBody::new(vec![], outs.iter().map(|v| vto(owner, *v, 0)).collect()), vec![])
}

//@ prop V12
//@ bounds up to 2 transactions of up to 2 outputs of any value, one with an input or a signature, any reward schedule of three
//@ cover valid, too much at once, too much together, empty output, no outputs, input, signature
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_genesis_values() {
    versions(&[]);
    let mut c = constants();
    (c.initial_block_reward, c.halving_period) = [(250_000_000_000, 3_500_000), (1, 1), (1 << 62, 2)][nd::pick("schedule", 0, 2)];
    let values: Vec<Vec<u64>> =
        (0..nd::pick("transactions", 0, 2)).map(|_| (0..nd::pick("outputs", 0, 2)).map(|_| nd::u64("value")).collect()).collect();
    let mut vts: Vec<VTTransaction> = values.iter().enumerate().map(|(i, v)| genesis_vt(i, v)).collect();
    let odd = if vts.is_empty() { 0 } else { nd::pick("odd", 0, 2) };
    match odd {
        1 => vts[0].body.inputs.push(Input::new(pointer(0))),
        2 => vts[0].signatures.push(some_signature(0)),
        _ => (),
    }
    let b = Block::genesis(c.bootstrap_hash, vts);
    c.genesis_hash = b.hash();
    let l = &b.txns.value_transfer_txns;
    nd::assume(l.len() < 2 || values.iter().any(|v| v.is_empty()) || l[0].hash() != l[1].hash());
    let pool = UnspentOutputsPool::default();
    let wit2 = ConsensusConstantsWit2 { checkpoint_zero_timestamp: 0, checkpoints_period: 1 };
    let r = validate_block_transactions(
        &pool, &mut DataRequestPool::new(3), &b, vrf_input(), &mut vec![], &ReputationEngine::new(100), clock(), 0, &c, &wit2, &wips(0), None,
        &StakesTracker::default(),
    );
    let sum: u128 = values.iter().flatten().map(|v| *v as u128).sum();
    let rest = u64::MAX - total_block_reward(c.initial_block_reward, c.halving_period);
    let valid = odd == 0 && sum <= rest as u128 && values.iter().all(|v| !v.is_empty() && !v.contains(&0));
    nd::check(r.is_ok() == valid, "a genesis block is valid exactly if it only creates coins, no more than leaves room for all rewards");
    match r {
        Ok(d) => {
            nd::cover("valid");
            let mut after = pool.clone();
            d.apply(&mut after);
            nd::check(total(&after) == sum, "exactly its coins exist afterwards");
        }
        Err(_) if odd == 1 => nd::cover("input"),
        Err(_) if odd == 2 => nd::cover("signature"),
        Err(_) if values.iter().any(|v| v.is_empty()) => nd::cover("no outputs"),
        Err(_) if values.iter().any(|v| v.contains(&0)) => nd::cover("empty output"),
        Err(_) if values.iter().any(|v| v.iter().map(|v| *v as u128).sum::<u128>() > rest as u128) => nd::cover("too much at once"),
        Err(_) => nd::cover("too much together"),
    }
}

//@ prop V12
//@ bounds one transaction, every expected hash, one thing more in the block than its hash commits to
//@ cover genesis, other hash, signed, further transaction, further request, minted
#[unsafe(no_mangle)]
pub fn h_genesis_block() {
    versions(&[]);
    let mut b = Block::genesis(h(0xb0), vec![genesis_vt(1, &[5])]);
    let hash = b.hash();
    let expected = Hash::SHA256(nd::bytes::<32>("expected"));
    let extra = nd::pick("further", 0, 5);
    match extra {
        1 => b.block_sig = some_signature(0),
        2 => b.txns.stake_txns.push(StakeTransaction::default()),
        3 => b.txns.data_request_txns.push(DRTransaction::default()),
        4 => b.txns.mint = MintTransaction::new(0, vec![vto(0, 1, 0)]),
        5 => b.txns.unstake_txns.push(UnstakeTransaction::default()),
        _ => (),
    }
    let r = validate_genesis_block(&b, expected);
    nd::check(r.is_ok() == (expected == hash && extra == 0), "the genesis block is the one of the expected hash and has nothing its hash does not commit to");
    match extra {
        0 if r.is_ok() => nd::cover("genesis"),
        _ if expected != hash => nd::cover("other hash"),
        1 => nd::cover("signed"),
        2 | 5 => nd::cover("further transaction"),
        3 => nd::cover("further request"),
        4 => nd::cover("minted"),
        _ => (),
    }
}

//@ prop V08
//@ bounds up to 3 commitments by 3 eligible witnesses to a request of 1 or 2 witnesses, any fee and minted amount
//@ cover none, all, too few, too many, twice by one, mints too much
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_block_commits() {
    versions(&[]);
    let (w, n) = (nd::pick("witnesses", 1, 2), nd::pick("commitments", 0, 3));
    let fee = nd::range("fee", 0, 1 << 60);
    let (mut pool, mut txs, mut who) = (UnspentOutputsPool::default(), vec![], vec![]);
    for k in 0..n {
        let i = nd::pick("witness", 0, 2);
        pool.insert(pointer(k as u8), vto(i, 1_000_000_000, 0), 0);
        let body = CommitTransactionBody::new(h(9), h(4), claim(i), vec![Input::new(pointer(k as u8))], vec![], None);
        txs.push(CommitTransaction::new(body, vec![some_signature(i)]));
        who.push(i);
    }
    let minted = nd::u64("minted");
    let txns = BlockTransactions { mint: MintTransaction::new(NOW as Epoch, vec![vto(3, minted, 0)]), commit_txns: txs, ..Default::default() };
    distinct(&txns, ProtocolVersion::V1_7);
    let b = block(txns.clone(), roots(&txns, ProtocolVersion::V1_7));
    let mut c = constants();
    c.max_dr_weight = u32::MAX;
    let mut drs = requested(request(w as u16, 1_000_000_000, fee, 1, 0), DataRequestStage::COMMIT, 1);
    let after = check_block(&b, &pool, &mut drs, &c, &wips(7), &StakesTracker::default());
    let once = (0..3).all(|i| who.iter().filter(|x| **x == i).count() <= 1);
    let reward = c.initial_block_reward as u128;
    let right = minted as u128 == reward + fee as u128 * n as u128;
    nd::check(
        after.is_some() == ((n == 0 || n == w) && once && right),
        "a block has commitments of all witnesses of a request, each once, or of none, and mints their fees",
    );
    if let Some(after) = after {
        nd::check(total(&after) == minted as u128, "the collateral is out of reach while it is at stake");
    }
    nd::cover(if !right && minted as u128 > reward {
        "mints too much"
    } else if n == 0 {
        "none"
    } else if !once {
        "twice by one"
    } else if n < w {
        "too few"
    } else if n > w {
        "too many"
    } else {
        "all"
    });
}

//@ prop V08
//@ bounds up to 2 reveals of 2 committed witnesses, or up to 2 tallies of a request that all or none revealed for, any fee and minted amount
//@ cover reveals, revealed twice, tally, missing tally, tally twice
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_block_reveals() {
    versions(&[]);
    let fee = nd::range("fee", 0, 1 << 60);
    let tally = nd::pick("tally", 0, 1) == 1;
    let out = request(2, 1_000_000_000, fee, 1, 0);
    let mut drs = requested(out.clone(), if tally { DataRequestStage::TALLY } else { DataRequestStage::REVEAL }, 1);
    let s = drs.data_request_state_mutable(&h(9)).unwrap();
    s.data_request.data_request.tally.filters = vec![RADFilter { op: 8, args: vec![] }];
    let reveal = |i: usize| RevealTransaction::new(RevealTransactionBody::new(h(9), reveal_bytes(1), pkh(i)), vec![some_signature(i)]);
    for i in 0..2 {
        let c = CommitTransaction::new(CommitTransactionBody::new(h(9), some_signature(i).signature.hash(), claim(i), vec![], vec![], None), vec![some_signature(i)]);
        s.info.commits.insert(pkh(i), c);
        if tally {
            s.info.reveals.insert(pkh(i), reveal(i));
        }
    }
    let n = nd::pick("transactions", 0, 2);
    let (minted, who) = (nd::u64("minted"), (0..n).map(|_| nd::pick("witness", 0, if tally { 0 } else { 1 })).collect::<Vec<_>>());
    let mut txns = BlockTransactions { mint: MintTransaction::new(NOW as Epoch, vec![vto(3, minted, 0)]), ..Default::default() };
    if tally {
        let outs = vec![vto(0, 1_000_000_001, 0), vto(1, 1_000_000_001, 0)];
        txns.tally_txns = vec![TallyTransaction::new(h(9), vec![1], outs, vec![], vec![]); n];
    } else {
        txns.reveal_txns = who.iter().map(|i| reveal(*i)).collect();
    }
    let m = txns.mint.versioned_hash(ProtocolVersion::V1_7);
    fresh(m);
    nd::assume(txns.tally_txns.iter().all(|t| t.versioned_hash(ProtocolVersion::V1_7) != m));
    let b = block(txns.clone(), roots(&txns, ProtocolVersion::V1_7));
    let mut c = constants();
    c.max_dr_weight = u32::MAX;
    let pool = UnspentOutputsPool::default();
    let after = check_block(&b, &pool, &mut drs, &c, &wips(7), &StakesTracker::default());
    let reward = c.initial_block_reward as u128;
    let twice = n == 2 && who[0] == who[1];
    let right = minted as u128 == reward + if tally { 0 } else { fee as u128 * n as u128 };
    let valid = !twice && (!tally || n == 1) && right;
    nd::check(after.is_some() == valid, "a block reveals at most once for each witness, tallies what is ready exactly once and mints the fees");
    if let Some(after) = after {
        nd::check(total(&after) == minted as u128 + if tally { 2_000_000_002 } else { 0 }, "only the outputs of the tally and the mint are created");
    }
    nd::cover(match (tally, n) {
        (true, 0) => "missing tally",
        (true, 1) => "tally",
        (true, _) => "tally twice",
        _ if twice => "revealed twice",
        _ => "reveals",
    });
}

//@ prop V08
//@ bounds up to 2 data requests of any fee and reward for 1 or 2 witnesses, any weight limit, one unsolved request or none
//@ cover accepted, too heavy, too heavy with the unsolved, mints too much
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_block_requests() {
    versions(&[]);
    let (mut pool, mut txs, mut fees, mut heavy, mut fine, mut locked) = (UnspentOutputsPool::default(), vec![], 0u128, 0u32, true, 0u128);
    for k in 0..nd::pick("requests", 0, 2) {
        let value = nd::range("value", 0, 1 << 60);
        let w = nd::pick("witnesses", 1, 2) as u16;
        let (reward, fee) = (nd::range("reward", 1, 1 << 58), nd::range("fee", 0, 1 << 56));
        pool.insert(pointer(k as u8), vto(k, value, 0), 0);
        let tx = DRTransaction::new(DRTransactionBody::new(vec![Input::new(pointer(k as u8))], request(w, 1_000_000_000, fee, reward, 0), vec![]), vec![some_signature(k)]);
        let cost = (reward as u128 + 2 * fee as u128) * w as u128;
        fine &= cost <= value as u128;
        fees += (value as u128).saturating_sub(cost);
        locked += cost;
        heavy += 133 + 16 + 3 + 30 + 100 + w as u32 * 636;
        txs.push(tx);
    }
    let unsolved = nd::pick("unsolved", 0, 1) == 1;
    let mut drs = DataRequestPool::new(3);
    if unsolved {
        drs = requested(request(1, 1_000_000_000, 1, 1, 0), DataRequestStage::COMMIT, 1);
        drs.data_requests_by_epoch.entry(NOW as Epoch).or_default().insert(h(9));
    }
    let limit = nd::u32("weight limit");
    let minted = nd::u64("minted");
    let txns = BlockTransactions { mint: MintTransaction::new(NOW as Epoch, vec![vto(3, minted, 0)]), data_request_txns: txs, ..Default::default() };
    distinct(&txns, ProtocolVersion::V1_7);
    let b = block(txns.clone(), roots(&txns, ProtocolVersion::V1_7));
    let mut c = constants();
    c.max_dr_weight = limit;
    let after = check_block(&b, &pool, &mut drs, &c, &wips(6), &StakesTracker::default());
    let reward = c.initial_block_reward as u128;
    let n = txns.data_request_txns.len();
    // the request as it was in its own transaction
    let already = if unsolved { 16 + 3 + 30 + 636 + 100 } else { 0 };
    let fits = n == 0 || heavy + already <= limit;
    let right = minted as u128 == reward + fees;
    nd::check(
        after.is_some() == (fine && fits && right),
        "the requests of a block pay for themselves and weigh no more than the limit together with those that wait for witnesses, and their fees are minted",
    );
    if let Some(after) = after {
        nd::cover("accepted");
        nd::check(total(&after) + locked == total(&pool) + reward, "what is not spent on requests and fees remains");
    } else if fine && heavy <= limit && !fits {
        nd::cover("too heavy with the unsolved");
    } else if fine && !fits {
        nd::cover("too heavy");
    } else if fine && minted as u128 > reward + fees {
        nd::cover("mints too much");
    }
}

//@ prop V08
//@ bounds up to 2 stakes and 2 unstakes of any value by 2 validators, in protocol 2.0 and 2.1, one of the two roots wrong or none, minted or not
//@ cover accepted, two stakes, two unstakes, staked twice, unstaked twice, mints, wrong root
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_block_stakes() {
    let version = [ProtocolVersion::V2_0, ProtocolVersion::V2_1][nd::pick("version", 0, 1)];
    versions(&[(ProtocolVersion::V1_8, 1000), (ProtocolVersion::V2_0, 2000), (version, 3000)]);
    let (least, most, delay) = (10_000_000_000_000u64, 10_000_000_000_000_000u64, 1_209_600);
    let mut pool = UnspentOutputsPool::default();
    let mut stakes = StakesTracker::default();
    let held = nd::range("held", least, most);
    for v in 0..2 {
        stakes.add_stake(StakeKey { validator: pkh(2 + v), withdrawer: pkh(4 + v) }, Wit::from_nanowits(held), 100, true, Wit::from_nanowits(1)).ok();
    }
    let (mut fine, mut out, mut back) = (true, 0u128, 0u128);
    let mut amounts = vec![];
    let (mut stakers, mut unstakers, mut st, mut ut) = (vec![], vec![], vec![], vec![]);
    for k in 0..nd::pick("stakes", 0, 2) {
        let (v, value, coin) = (nd::pick("validator", 0, 1), nd::u64("staked"), nd::range("coin", 0, 1 << 60));
        pool.insert(pointer(k as u8), vto(0, coin, 0), 0);
        let key = StakeKey { validator: pkh(2 + v), withdrawer: pkh(4 + v) };
        let output = StakeOutput { authorization: some_signature(2 + v), key, value };
        st.push(StakeTransaction::new(StakeTransactionBody::new(vec![Input::new(pointer(k as u8))], output, None), vec![some_signature(0)]));
        fine &= value >= least && held as u128 + value as u128 <= most as u128 && value <= coin && !stakers.contains(&v);
        if stakers.contains(&v) {
            nd::cover("staked twice");
        }
        stakers.push(v);
        out += coin as u128;
    }
    for _ in 0..nd::pick("unstakes", 0, 2) {
        let (v, value, fee) = (nd::pick("validator", 0, 1), nd::range("withdrawn", 1, 1 << 60), nd::range("fee", 0, 1 << 60));
        nd::assume(!amounts.contains(&(v, value, fee)));
        amounts.push((v, value, fee));
        let body = UnstakeTransactionBody::new(pkh(2 + v), vto(4 + v, value, delay), fee, 100);
        let hash = UnstakeTransaction::new(body.clone(), some_signature(0)).versioned_hash(version);
        ut.push(UnstakeTransaction::new(body, signed(4 + v, &hash)));
        let left = held as i128 - value as i128 - fee as i128;
        fine &= (left == 0 || left >= least as i128) && !unstakers.contains(&v);
        if unstakers.contains(&v) {
            nd::cover("unstaked twice");
        }
        unstakers.push(v);
        back += value as u128;
    }
    let mints = nd::pick("mints", 0, 1) == 1;
    let mint = MintTransaction::new(NOW as Epoch, if mints { vec![vto(3, 1, 0)] } else { vec![] });
    let txns = BlockTransactions { mint, stake_txns: st, unstake_txns: ut, ..Default::default() };
    distinct(&txns, version);
    let mut r = roots(&txns, version);
    let wrong = nd::pick("wrong root", 0, 2);
    match wrong {
        1 => r.stake_hash_merkle_root = h(77),
        2 => r.unstake_hash_merkle_root = h(77),
        _ => (),
    }
    nd::assume(wrong == 0 || r != roots(&txns, version));
    let b = block(txns, r);
    let after = check_block(&b, &pool, &mut DataRequestPool::new(3), &constants(), &wips(13), &stakes);
    nd::check(
        after.is_some() == (fine && !mints && wrong == 0),
        "a block stakes and unstakes at most once for each validator, within the limits, mints nothing and commits to all of it",
    );
    if let Some(after) = after {
        nd::cover("accepted");
        nd::check(total(&after) + out == total(&pool) + back, "stakes leave the pool and withdrawals enter it");
        if stakers.len() == 2 {
            nd::cover("two stakes");
        }
        if unstakers.len() == 2 {
            nd::cover("two unstakes");
        }
    } else if fine && mints {
        nd::cover("mints");
    } else if fine {
        nd::cover("wrong root");
    }
}
