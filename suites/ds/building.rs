//! Transactions built from one's own outputs: what goes in, what goes out, what is left.
use crate::util::*;
use witnet_data_structures::chain::*;
use witnet_data_structures::error::TransactionError;
use witnet_data_structures::fee::*;
use witnet_data_structures::staking::prelude::StakeKey;
use witnet_data_structures::transaction_factory::*;
use witnet_data_structures::utxo_pool::*;
use witnet_data_structures::wit::Wit;

const OWN: usize = 3;
const LOTS: u64 = 1 << 50;
const MAX: u32 = 20_000;
struct Coin {
    at: OutputPointer,
    value: u64,
    lock: u64,
    used: u64,
    block: u32,
}
struct Wallet {
    all: UnspentOutputsPool,
    own: OwnUnspentOutputsPool,
    coins: Vec<Coin>,
    now: u64,
    pending: u64,
}
fn wallet(n: usize) -> Wallet {
    let mut w = Wallet { all: Default::default(), own: OwnUnspentOutputsPool::new(), coins: vec![], now: nd::range("now", 1, LOTS), pending: nd::range("pending", 1, LOTS) };
    for i in 0..n {
        let c = Coin {
            at: pointer(i as u8),
            value: nd::range("value", 0, LOTS),
            lock: nd::range("lock", 0, LOTS),
            used: nd::range("used until", 0, LOTS),
            block: i as u32,
        };
        w.all.insert(c.at, vto(0, c.value, c.lock), c.block);
        w.own.insert(c.at, c.used);
        w.coins.push(c);
    }
    // somebody else's
    w.all.insert(pointer(9), vto(1, LOTS, 0), 0);
    w
}
fn strategy(i: usize, from: Option<PublicKeyHash>) -> UtxoSelectionStrategy {
    match i {
        0 => UtxoSelectionStrategy::Random { from },
        1 => UtxoSelectionStrategy::BigFirst { from },
        _ => UtxoSelectionStrategy::SmallFirst { from },
    }
}
impl Wallet {
    fn free(&self, c: &Coin, limit: Option<u32>) -> bool {
        c.lock <= self.now && c.used <= self.now && limit.map_or(true, |l| c.block <= l)
    }
    /// What can be spent.
    fn funds(&self, limit: Option<u32>) -> u64 {
        self.coins.iter().filter(|c| self.free(c, limit)).map(|c| c.value).sum()
    }
    /// The inputs are one's own free outputs, each once, as the strategy says; which are marked as used afterwards unless
    /// it was only a try. Gives their value.
    fn inputs(&self, inputs: &[Input], limit: Option<u32>, how: usize, marked: bool) -> u64 {
        let mut sum = 0;
        let has = |c: &Coin| inputs.iter().any(|i| *i.output_pointer() == c.at);
        let mut n = 0;
        for c in &self.coins {
            let used = has(c);
            if used {
                nd::check(self.free(c, limit), "only outputs that are free are spent");
                sum += c.value;
                n += 1;
                for d in self.coins.iter().filter(|d| self.free(d, limit) && !has(d)) {
                    nd::check(how != 1 || d.value <= c.value, "the biggest outputs are spent first if so asked");
                    nd::check(how != 2 || d.value >= c.value, "the smallest outputs are spent first if so asked");
                }
            }
            let until = if used && marked { self.now + self.pending } else { c.used };
            nd::check(self.own.get(&c.at) == Some(&until), "what was spent is in use until the transaction times out, and nothing else");
        }
        nd::check(n == inputs.len(), "every input is one's own output, once");
        sum
    }
    fn untouched(&self) {
        for c in &self.coins {
            nd::check(self.own.get(&c.at) == Some(&c.used), "a failure leaves the outputs as they were");
        }
    }
    fn failed(&self, e: TransactionError, amount: u64, limit: Option<u32>) {
        self.untouched();
        match e {
            TransactionError::NoMoney { available_balance, transaction_value, .. } => {
                nd::check(self.funds(limit) < amount, "there is enough money");
                nd::check(available_balance == self.funds(limit) && transaction_value == amount, "the error tells what is missing");
                nd::cover("no money");
            }
            TransactionError::ZeroAmount => {
                nd::check(amount == 0, "a transaction without inputs is refused");
                nd::cover("nothing to do");
            }
            _ => nd::check(false, "building fails only for lack of money"),
        }
    }
}
/// The change comes last, to one's own address, if there is any.
fn change(got: &[ValueTransferOutput], asked: &[ValueTransferOutput], left: u64) {
    nd::check(got.len() == asked.len() + (left > 0) as usize && got[..asked.len()] == *asked, "the outputs are those that were asked for, and the change");
    if left > 0 {
        nd::check(got[asked.len()] == vto(0, left, 0), "the change is what is left, for oneself");
        nd::cover("change");
    }
}

//@ prop D16
//@ cover no money, nothing to do, change, several inputs, dry, other address
//@ bounds value transfers with up to 2 outputs and an absolute fee from 3 own outputs of any value, time lock and use up to 2^50; 3 strategies
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_build_transfer() {
    let how = nd::pick("strategy", 0, 2);
    let dry = nd::pick("dry run", 0, 1) == 1;
    let from = nd::pick("from", 0, 2);
    let mut w = wallet(OWN);
    let asked: Vec<_> = (0..nd::pick("outputs", 0, 2)).map(|i| vto(2 + i, nd::range("asked", 0, LOTS), nd::u64("lock"))).collect();
    let fee = nd::range("fee", 0, LOTS);
    let amount = asked.iter().map(|o| o.value).sum::<u64>() + fee;
    let s = strategy(how, [None, Some(pkh(0)), Some(pkh(1))][from]);
    let r = build_vtt(asked.clone(), Fee::absolute_from_nanowits(fee), &mut w.own, pkh(0), &w.all, w.now, w.pending, &s, MAX, dry);
    if dry {
        nd::cover("dry");
    }
    if from == 2 {
        nd::check(r.is_err(), "outputs of another address cannot be spent");
        w.untouched();
        return nd::cover("other address");
    }
    match r {
        Ok(b) => {
            nd::check(amount > 0, "transactions without inputs make no sense");
            let sum = w.inputs(&b.inputs, None, how, !dry);
            nd::check(sum >= amount, "the inputs pay for outputs and fee");
            change(&b.outputs, &asked, sum - amount);
            if b.inputs.len() > 1 {
                nd::cover("several inputs");
            }
        }
        Err(e) => w.failed(e, amount, None),
    }
}

//@ prop D16
//@ cover no money, change, several inputs, stake, data request, too heavy
//@ bounds value transfers, data requests and stakes with a fee of 1 or 3 nanowits per unit of weight, or a half, from 3 own outputs of any value up to 2^50; 4 limits of the weight
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_build_relative() {
    let kind = nd::pick("kind", 0, 2);
    let rate = [1.0, 3.0, 0.5][nd::pick("rate", 0, 2)];
    let fee = Fee::relative_from_float(rate);
    let mut w = wallet(0);
    for i in 0..OWN {
        let c = Coin { at: pointer(i as u8), value: nd::range("value", 0, LOTS), lock: 0, used: 0, block: i as u32 };
        w.all.insert(c.at, vto(0, c.value, c.lock), c.block);
        w.own.insert(c.at, c.used);
        w.coins.push(c);
    }
    let value = nd::range("asked", 0, LOTS);
    let s = strategy(1, None);
    // one input more or less than the limit allows
    let max = match nd::pick("limit", 0, 3) {
        0 => MAX,
        n => [300, 1300, 200][kind] + 133 * (n as u32 - 1),
    };
    // inputs, outputs but change, change, weight with and without change
    let (asked, built) = match kind {
        0 => {
            let asked = vec![vto(2, value, 0)];
            let r = build_vtt(asked.clone(), fee, &mut w.own, pkh(0), &w.all, w.now, w.pending, &s, max, false);
            (value, r.map(|b| (b.weight(), b.inputs, b.outputs[1..].to_vec())))
        }
        1 => {
            let dr = request(2, 1_000_000_000, 1, value / 4);
            let asked = dr.checked_total_value().unwrap();
            nd::cover("data request");
            let r = build_drt(dr, fee, &mut w.own, pkh(0), &w.all, w.now, w.pending, max, false);
            (asked, r.map(|b| (b.weight(), b.inputs, b.outputs)))
        }
        _ => {
            let o = StakeOutput { value, key: StakeKey { validator: pkh(1), withdrawer: pkh(2) }, authorization: some_signature(1) };
            nd::cover("stake");
            let r = build_st(o.clone(), fee, &mut w.own, pkh(0), &w.all, w.now, w.pending, &s, max, false);
            (value, r.map(|b| {
                nd::check(b.output == o, "the stake is what was asked for");
                (b.weight(), b.inputs, b.change.into_iter().collect())
            }))
        }
    };
    let cost = |weight: u32| (rate * weight as f64) as u64;
    match built {
        Ok((weight, inputs, rest)) => {
            let sum = w.inputs(&inputs, None, if kind == 1 { 0 } else { 1 }, true);
            nd::check(weight <= max, "what is built is not too heavy");
            let left: u64 = rest.iter().map(|o| o.value).sum();
            nd::check(sum >= asked + left, "inputs pay for outputs");
            let paid = sum - asked - left;
            nd::check(paid >= cost(weight), "the fee is not less than the weight of the transaction times the rate");
            if left > 0 {
                nd::check(paid == cost(weight), "the fee is the weight of the transaction times the rate");
            }
            change(&rest, &[], left);
            if inputs.len() > 1 {
                nd::cover("several inputs");
            }
        }
        Err(TransactionError::NoMoney { available_balance, transaction_value, .. }) => {
            w.untouched();
            nd::check(available_balance == w.funds(None) && available_balance < transaction_value, "building fails only for lack of money");
            nd::check(transaction_value <= asked + cost(1_000_000), "the error tells what is missing");
            nd::cover("no money");
        }
        Err(_) => {
            w.untouched();
            nd::check(max != MAX, "building fails only for lack of money or by weight");
            nd::cover("too heavy");
        }
    }
}

//@ prop D16
//@ cover change, refused, too young
//@ bounds collateral of any value from 3 own outputs of any value, time lock and use up to 2^50 created in blocks 0 to 2
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_build_collateral() {
    let mut w = wallet(OWN);
    let limit = nd::pick("limit", 0, 3) as u32;
    let value = nd::range("collateral", 0, LOTS);
    let able = check_commit_collateral(Wit::from_nanowits(value), &w.own, pkh(0), &w.all, w.now, limit);
    nd::check(able == (value > 0 && w.funds(Some(limit)) >= value && w.funds(None) >= 100_000_000_000), "commitments are made with enough old money, and some for the future");
    match build_commit_collateral(Wit::from_nanowits(value), &mut w.own, pkh(0), &w.all, w.now, w.pending, limit) {
        Ok((inputs, outputs)) => {
            let sum = w.inputs(&inputs, Some(limit), 2, true);
            nd::check(sum >= value, "the inputs pay the collateral");
            change(&outputs, &[], sum - value);
            if limit == 0 {
                nd::cover("too young");
            }
        }
        Err(_) => {
            w.untouched();
            nd::check(value == 0 || w.funds(Some(limit)) < value, "collateral is refused only for lack of old money");
            nd::cover("refused");
        }
    }
}

//@ prop D16
//@ cover locked, confirmed
//@ bounds 3 outputs of two addresses with any value and time lock up to 2^50, any of them spent
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_balance() {
    let now = nd::range("now", 0, LOTS);
    let mut all = UnspentOutputsPool::default();
    let mut own = OwnUnspentOutputsPool::new();
    let (mut locked, mut free) = (0, 0);
    for i in 0..3 {
        let (owner, spent) = (nd::pick("owner", 0, 1), nd::pick("spent", 0, 1) == 1);
        let (value, lock) = (nd::range("value", 0, LOTS), nd::range("lock", 0, LOTS));
        all.insert(pointer(i), vto(owner, value, lock), i as u32);
        if spent {
            all.remove(&pointer(i));
        } else if owner == 0 {
            own.insert(pointer(i), 0);
            if lock <= now {
                free += value;
            } else {
                locked += value;
                nd::cover("locked");
            }
        }
    }
    nd::check(get_utxos_balance(&all, pkh(0), now) == NodeBalance2::One { locked, unlocked: free, staked: 0 }, "the balance is what is locked and what is not");
    nd::check(get_total_balance(&all, pkh(0), true) == NodeBalance::One { confirmed: None, total: locked + free }, "the total balance is the sum of all outputs");
    nd::check(get_total_balance(&all, pkh(0), false) == NodeBalance::One { confirmed: Some(0), total: locked + free }, "nothing is confirmed before it is persisted");
    nd::check(own.get_balance(&all) == locked + free, "the balance of the node is that of its address");
    nd::cover("confirmed");
}
