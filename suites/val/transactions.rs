//! What standalone transactions must satisfy to be valid.
use crate::util::*;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::utxo_pool::{UnspentOutputsPool, UtxoDiff};
use witnet_data_structures::wit::Wit;
use witnet_validations::validations::*;

//@ prop V01
//@ bounds up to 2 inputs among 2 (quick) or 3 (thorough) coins of 2 owners or one that does not exist, in the pool or created or spent earlier in the same block, up to 2 outputs, every value, time lock and weight limit, up to one signature missing or too many, by any owner
//@ cover valid, locked, double spend, negative fee, overflow of the inputs, overflow of the outputs
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_value_transfer() {
    versions(&[]);
    let n = if cfg!(feature = "thorough") { 3 } else { 2 };
    let c = Coins::new(n, 2);
    let (inputs, signers, ins, sigs) = spend(2, n);
    let outs: Vec<u64> = (0..nd::pick("outputs", 0, 2)).map(|_| nd::u64("sent")).collect();
    let tx = VTTransaction::new(VTTransactionBody::new(ins, outs.iter().map(|v| vto(1, *v, 0)).collect()), sigs.clone());
    let limit = nd::u32("weight limit");
    let mut owe = vec![];
    let diff = c.diff();
    let r = validate_vt_transaction(&tx, &diff, NOW as Epoch, clock(), &mut owe, limit, Some(ProtocolVersion::V1_7));

    let worth = c.worth(&inputs, &signers);
    let sent: u128 = outs.iter().map(|v| *v as u128).sum();
    let weight = (inputs.len() * 133 + outs.len() * 360) as u32;
    let valid = !inputs.is_empty() && worth.is_some_and(|w| sent <= w as u128) && !outs.contains(&0) && weight <= limit;
    nd::check(r.is_ok() == valid, "a value transfer is valid exactly if its owners sign for distinct existing unlocked inputs that cover its non-zero outputs");
    match &r {
        Ok((i, o, fee)) => {
            nd::cover("valid");
            nd::check(*fee as u128 + sent == worth.unwrap() as u128, "the fee is what the outputs leave of the inputs");
            nd::check(i.len() == inputs.len() && o.len() == outs.len(), "all inputs are spent and all outputs created");
            nd::check(owed(&owe, &sigs, tx.versioned_hash(ProtocolVersion::V1_7)), "every signature is checked against the hash of the transaction");
        }
        Err(_) => {
            if is_err!(r, witnet_data_structures::error::TransactionError::TimeLock { .. }) {
                nd::cover("locked");
            }
            if inputs.len() == 2 && inputs[0] == inputs[1] {
                nd::cover("double spend");
            }
            if is_err!(r, witnet_data_structures::error::TransactionError::NegativeFee) {
                nd::cover("negative fee");
            }
            if is_err!(r, witnet_data_structures::error::TransactionError::InputValueOverflow) {
                nd::cover("overflow of the inputs");
            }
            if is_err!(r, witnet_data_structures::error::TransactionError::OutputValueOverflow) {
                nd::cover("overflow of the outputs");
            }
        }
    }
}

//@ prop V03
//@ bounds up to 2 inputs among 2 coins of 2 owners or one that does not exist, with or without change, every value, time lock, limit and existing stake, an existing validator with the same or another withdrawer or none, before and after staking is activated
//@ cover valid, valid on top, above the maximum, below the minimum, negative fee, other withdrawer, too early
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_stake() {
    let active = nd::bool("staking is active");
    versions(if active { &[(ProtocolVersion::V1_8, 1000)] } else { &[(ProtocolVersion::V1_8, 2_000_000)] });
    let c = Coins::new(2, 0);
    let (inputs, signers, ins, sigs) = spend(2, 2);
    let (min, max) = (nd::u64("minimum"), nd::u64("maximum"));
    let mut stakes = StakesTracker::default();
    let existing = nd::pick("existing stake", 0, 2);
    let held = nd::u64("held");
    if existing > 0 {
        nd::assume(held >= 1_000_000_000 && held <= 1 << 62);
        let k = StakeKey { validator: pkh(2), withdrawer: pkh(if existing == 1 { 3 } else { 4 }) };
        stakes.add_stake(k, Wit::from_nanowits(held), 3, true, Wit::from_nanowits(1)).ok();
    }
    let value = nd::u64("staked");
    let change = if nd::bool("with change") { Some(nd::u64("change")) } else { None };
    let output = StakeOutput { authorization: some_signature(2), key: StakeKey { validator: pkh(2), withdrawer: pkh(3) }, value };
    let tx = StakeTransaction::new(StakeTransactionBody::new(ins, output, change.map(|v| vto(1, v, 0))), sigs.clone());
    let mut owe = vec![];
    let diff = c.diff();
    let r = validate_stake_transaction(&tx, &diff, NOW as Epoch, clock(), &mut owe, &stakes, min, max);

    let worth = c.worth(&inputs, &signers);
    let spent = value as u128 + change.unwrap_or(0) as u128;
    let total = value as u128 + if existing == 1 { held as u128 } else { 0 };
    let valid = active && value >= min && total <= max as u128 && existing != 2 && !inputs.is_empty() && worth.is_some_and(|w| spent <= w as u128);
    nd::check(
        r.is_ok() == valid,
        "a stake is valid exactly if it is within the limits together with what is staked already, adds to nobody else's validator, and its owners sign for inputs that cover it",
    );
    match r {
        Ok((i, o, fee, weight, ch)) => {
            nd::cover(if existing == 1 { "valid on top" } else { "valid" });
            nd::check(fee as u128 + spent == worth.unwrap() as u128, "the fee is what stake and change leave of the inputs");
            nd::check(i.len() == inputs.len() && o.value == value && ch.as_ref().map(|c| c.value) == change, "the inputs are spent, the stake and the change created");
            nd::check(weight == inputs.len() as u32 * 133 + 105 + if change.is_some() { 36 } else { 0 }, "the weight counts inputs, stake and change");
            nd::check(owed(&owe, &sigs, tx.hash()), "every signature is checked against the hash of the transaction");
        }
        Err(e) => {
            use witnet_data_structures::error::TransactionError as T;
            match e.downcast_ref::<T>() {
                Some(T::StakeAboveMaximum { .. }) => nd::cover("above the maximum"),
                Some(T::StakeBelowMinimum { .. }) => nd::cover("below the minimum"),
                Some(T::NegativeFee) => nd::cover("negative fee"),
                Some(T::NoStakeFound { .. }) => nd::cover("other withdrawer"),
                Some(T::NoStakeTransactionsAllowed) => nd::cover("too early"),
                _ => (),
            }
        }
    }
}

//@ prop V04
//@ bounds one validator with stake or none, every stake, withdrawal, fee, nonce, time lock and limit, signed by the withdrawer, by somebody else or on another message, before version 2.0, in 2.0 and in 2.1
//@ cover valid, valid in full, more than staked, leaves too little, wrong nonce, wrong time lock, wrong owner, wrong signature, too early
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_unstake() {
    let version = nd::pick("version", 0, 2);
    versions(match version {
        0 => &[(ProtocolVersion::V1_8, 1000)],
        1 => &[(ProtocolVersion::V1_8, 1000), (ProtocolVersion::V2_0, 2000)],
        _ => &[(ProtocolVersion::V1_8, 1000), (ProtocolVersion::V2_0, 2000), (ProtocolVersion::V2_1, 3000)],
    });
    let mut stakes = StakesTracker::default();
    let held = nd::range("held", 1_000_000_000, 1 << 62);
    let has = nd::bool("has stake");
    let at = nd::range("staked at", 0, 1 << 31) as Epoch;
    if has {
        stakes.add_stake(StakeKey { validator: pkh(2), withdrawer: pkh(3) }, Wit::from_nanowits(held), at, true, Wit::from_nanowits(1)).ok();
    }
    let (value, fee, nonce, lock) = (nd::u64("withdrawn"), nd::u64("fee"), nd::u64("nonce"), nd::u64("time lock"));
    let (min, delay) = (nd::u64("minimum"), nd::u64("delay"));
    let to = nd::pick("to", 3, 4);
    let signer = nd::pick("signer", 3, 4);
    let body = UnstakeTransactionBody::new(pkh(2), vto(to, value, lock), fee, nonce);
    let good = nd::bool("signs this");
    let hash = UnstakeTransaction::new(body.clone(), some_signature(signer)).hash();
    if !good {
        nd::assume(hash != h(7));
    }
    let tx = UnstakeTransaction::new(body, if good { signed(signer, &hash) } else { some_signature(signer) });
    let r = validate_unstake_transaction(&tx, NOW as Epoch, &stakes, min, delay);

    let mut asked = value as u128 + fee as u128;
    let in_full = version == 2 && asked == 0;
    if in_full {
        asked = held as u128;
    }
    let left = held as u128 - asked.min(held as u128);
    let ours = signer == 3 && has;
    let valid = version > 0 && ours && to == 3 && good && asked <= held as u128 && (left == 0 || left >= min as u128) && nonce == at as u64 && lock >= delay;
    nd::check(
        r.is_ok() == valid,
        "an unstake is valid exactly if the withdrawer signs for no more than is staked, leaves nothing or at least the minimum, names the current nonce and locks the withdrawal long enough",
    );
    match r {
        Ok((f, w, outs)) => {
            nd::cover(if in_full { "valid in full" } else { "valid" });
            nd::check(f == fee && w == 153, "fee and weight are those of the transaction");
            nd::check(outs.len() == 1 && *outs[0] == tx.body.withdrawal, "the withdrawal is the only output");
            if !in_full {
                // what the tracker then gives out is what the outputs and the fee add up to
                let was = stakes.total_staked().nanowits();
                let p = process_unstake_transaction(&mut stakes, &tx, NOW as Epoch, min);
                nd::check(p.is_ok(), "a valid unstake can be processed");
                nd::check(was as u128 - stakes.total_staked().nanowits() as u128 == value as u128 + fee as u128, "the stake shrinks by the withdrawal and the fee");
            }
        }
        Err(e) => {
            use witnet_data_structures::error::TransactionError as T;
            match e.downcast_ref::<T>() {
                Some(T::UnstakingMoreThanStaked { .. }) => nd::cover("more than staked"),
                Some(T::StakeBelowMinimum { .. }) => nd::cover("leaves too little"),
                Some(T::UnstakeInvalidNonce { .. }) => nd::cover("wrong nonce"),
                Some(T::InvalidUnstakeTimelock { .. }) => nd::cover("wrong time lock"),
                Some(T::InvalidUnstakeSignature { .. }) => nd::cover("wrong owner"),
                Some(T::VerifyTransactionSignatureFail { .. }) => nd::cover("wrong signature"),
                Some(T::NoUnstakeTransactionsAllowed) => nd::cover("too early"),
                _ => (),
            }
        }
    }
}

//@ prop V04
//@ bounds one validator with any stake and limits, version 2.1
#[unsafe(no_mangle)]
pub fn h_unstake_all() {
    versions(&[(ProtocolVersion::V1_8, 1000), (ProtocolVersion::V2_0, 2000), (ProtocolVersion::V2_1, 3000)]);
    let mut stakes = StakesTracker::default();
    let held = nd::range("held", 1_000_000_000, 1 << 62);
    stakes.add_stake(StakeKey { validator: pkh(2), withdrawer: pkh(3) }, Wit::from_nanowits(held), 4000, true, Wit::from_nanowits(1)).ok();
    let (min, delay) = (nd::u64("minimum"), nd::u64("delay"));
    let body = UnstakeTransactionBody::new(pkh(2), vto(3, 0, delay), 0, 4000);
    let hash = UnstakeTransaction::new(body.clone(), some_signature(3)).hash();
    let tx = UnstakeTransaction::new(body, signed(3, &hash));
    let valid = validate_unstake_transaction(&tx, NOW as Epoch, &stakes, min, delay).is_ok();
    nd::check(valid, "asking for nothing is a valid way to unstake everything");
    process_unstake_transaction(&mut stakes, &tx, NOW as Epoch, min).ok();
    nd::check(stakes.stakes_count() == 0, "asking for nothing unstakes everything");
}
