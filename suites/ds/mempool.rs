//! The pool of unconfirmed transactions against a plain list.
use crate::util::*;
use std::collections::HashSet;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::*;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;

/// Kind (0: transfer, 1: request, 2: stake, 3: unstake), spent outputs, fee.
const POOL: [(usize, &[u8], u64); 7] =
    [(0, &[0], 90_000), (0, &[0, 1], 10_000), (1, &[1], 20_000), (1, &[2, 0], 500_000), (2, &[1, 2], 30_000), (2, &[3], 70_000), (3, &[], 50_000)];

fn make(i: usize) -> Transaction {
    let (kind, spent, _) = POOL[i];
    let inputs: Vec<Input> = spent.iter().map(|p| Input::new(pointer(*p))).collect();
    let sigs = vec![some_signature(0)];
    match kind {
        0 => Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(inputs, vec![vto(1, i as u64 + 1, 0)]), sigs)),
        1 => Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(inputs, request(2, 0, 1, i as u64 + 1), vec![]), sigs)),
        2 => {
            let key = StakeKey { validator: pkh(1), withdrawer: pkh(2) };
            let o = StakeOutput { value: i as u64, key, authorization: some_signature(1) };
            Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(inputs, o, None), sigs))
        }
        _ => Transaction::Unstake(UnstakeTransaction::new(UnstakeTransactionBody::new(pkh(1), vto(2, 1, 0), 1, i as u64), some_signature(1))),
    }
}
fn weight(t: &Transaction) -> u64 {
    match t {
        Transaction::ValueTransfer(t) => t.weight() as u64,
        Transaction::DataRequest(t) => t.weight() as u64,
        Transaction::Stake(t) => t.weight() as u64,
        Transaction::Unstake(t) => t.weight() as u64,
        _ => 0,
    }
}
struct Model {
    txs: Vec<Transaction>,
    hashes: Vec<Hash>,
    weights: Vec<u64>,
    held: Vec<usize>,
    limit: u64,
    factor: f64,
}
impl Model {
    fn priority(&self, i: usize) -> f64 {
        POOL[i].2 as f64 / self.weights[i] as f64
    }
    fn total(&self, kind: usize) -> u64 {
        self.held.iter().filter(|i| POOL[**i].0 == kind).map(|i| self.weights[*i]).sum()
    }
    /// The transactions of a kind, the best first.
    fn ranked(&self, kind: usize) -> Vec<usize> {
        let mut v: Vec<usize> = self.held.iter().copied().filter(|i| POOL[*i].0 == kind).collect();
        v.sort_by(|a, b| self.priority(*b).partial_cmp(&self.priority(*a)).unwrap());
        v
    }
    /// What has to go for the limit, in order.
    fn evict(&mut self) -> Vec<Hash> {
        let mut gone = vec![];
        while self.total(0) + self.total(1) + self.total(2) > self.limit {
            let (v, d) = (self.total(0), self.total(1));
            let kind = if v == 0 && d == 0 {
                2
            } else if v as f64 >= d as f64 * self.factor {
                0
            } else {
                1
            };
            let i = *self.ranked(kind).last().unwrap();
            self.held.retain(|x| *x != i);
            gone.push(self.hashes[i]);
        }
        gone
    }
    fn remove(&mut self, i: usize) {
        self.held.retain(|x| *x != i && !POOL[*x].1.iter().any(|p| POOL[i].1.contains(p)));
    }
    fn agree(&self, p: &TransactionsPool) {
        for i in 0..POOL.len() {
            let held = self.held.contains(&i);
            nd::check(p.contains(&self.txs[i]) == Ok(held), "a transaction is in the pool exactly while it is pending");
            nd::check(p.get(&self.hashes[i]) == if held { Some(self.txs[i].clone()) } else { None }, "a pending transaction can be found by its hash");
        }
        let order = |k| self.ranked(k).into_iter().map(|i| self.hashes[i]).collect::<Vec<_>>();
        nd::check(p.vt_iter().map(|t| t.hash()).collect::<Vec<_>>() == order(0), "transfers are offered by fee per weight");
        nd::check(p.dr_iter().map(|t| t.hash()).collect::<Vec<_>>() == order(1), "requests are offered by fee per weight");
        nd::check(p.st_iter().map(|t| t.hash()).collect::<Vec<_>>() == order(2), "stakes are offered by fee per weight");
        nd::check(p.ut_iter().map(|t| t.hash()).collect::<Vec<_>>() == order(3), "unstakes are offered by fee per weight");
        nd::check(
            [p.vt_len(), p.dr_len(), p.st_len(), p.ut_len()] == [0, 1, 2, 3].map(|k| self.ranked(k).len()),
            "transactions of each kind are counted",
        );
        nd::check(p.is_empty() == self.held.is_empty(), "the pool is empty when nothing is pending");
        nd::check(
            p.total_transactions_weight() == self.total(0) + self.total(1) + self.total(2),
            "the weight of the pool is the weight of what is pending",
        );
    }
}
fn hashes(v: &[Transaction]) -> Vec<Hash> {
    v.iter().map(|t| t.hash()).collect()
}

//@ prop D11
//@ cover evicted, conflict, confirmed, unconfirmed, cleared, inserted
//@ bounds seven transactions (two transfers, requests and stakes each, and an unstake) over four outputs that several of them spend; histories of three insertions and three further operations (insertions, confirmations, changes of the limit, removals of stakes, of unstakes, of the unconfirmed and of all)
//@ shards 16
#[unsafe(no_mangle)]
pub fn h_mempool() {
    let txs: Vec<Transaction> = (0..7).map(make).collect();
    let mut m = Model {
        hashes: hashes(&txs),
        weights: txs.iter().map(weight).collect(),
        txs,
        held: vec![],
        limit: u64::MAX,
        factor: 1.0,
    };
    let mut p = TransactionsPool::new();
    let all: u64 = (0..6).map(|i| m.weights[i]).sum();
    const FIRST: [[usize; 3]; 7] = [[0, 1, 2], [1, 2, 4], [2, 4, 5], [0, 3, 6], [4, 5, 6], [5, 0, 3], [1, 3, 4]];
    let first = FIRST[nd::pick("first", 0, 6)];
    let mut unconfirmed: [Vec<usize>; 2] = Default::default();
    for step in 0..6 {
        let op = if step < 3 { first[step] } else { nd::pick(["", "", "", "op 1", "op 2", "op 3"][step], 0, 20) };
        match op {
            0..=6 => {
                if m.held.contains(&op) {
                    return;
                }
                nd::cover("inserted");
                m.held.push(op);
                p.insert_unconfirmed_transactions(m.hashes[op]);
                unconfirmed[0].push(op);
                let gone = m.evict();
                if !gone.is_empty() {
                    nd::cover("evicted");
                }
                let r = p.insert(m.txs[op].clone(), POOL[op].2);
                nd::check(hashes(&r) == gone, "what exceeds the limit is removed, the least paying first");
            }
            7..=13 => {
                let i = op - 7;
                let held = m.held.contains(&i);
                let before = m.held.len();
                m.remove(i);
                if POOL[i].1.is_empty() {
                    m.held.retain(|x| *x != i);
                }
                if before > m.held.len() + held as usize {
                    nd::cover("conflict");
                }
                nd::cover("confirmed");
                let r = match &m.txs[i] {
                    Transaction::ValueTransfer(t) => p.vt_remove(t).map(Transaction::ValueTransfer),
                    Transaction::DataRequest(t) => p.dr_remove(t).map(Transaction::DataRequest),
                    Transaction::Stake(t) => p.st_remove(t).map(Transaction::Stake),
                    Transaction::Unstake(t) => p.ut_remove(t).map(Transaction::Unstake),
                    _ => None,
                };
                nd::check(r == if held { Some(m.txs[i].clone()) } else { None }, "a confirmed transaction leaves the pool");
            }
            14 | 15 => {
                m.limit = if op == 14 { all / 2 } else { m.weights[5] };
                m.factor = if op == 14 { 1.0 } else { 0.25 };
                let gone = m.evict();
                if !gone.is_empty() {
                    nd::cover("evicted");
                }
                let r = p.set_total_weight_limit(m.limit, m.factor);
                nd::check(hashes(&r) == gone, "what exceeds the limit is removed, the least paying first");
            }
            16 => {
                nd::cover("cleared");
                p.clear_stake_transactions();
                m.held.retain(|i| POOL[*i].0 != 2);
            }
            17 => {
                p.clear_unstake_transactions();
                m.held.retain(|i| POOL[*i].0 != 3);
            }
            18 => {
                p.update_unconfirmed_transactions();
                unconfirmed.swap(0, 1);
                unconfirmed[0].clear();
            }
            19 => {
                nd::cover("unconfirmed");
                let r = p.remove_unconfirmed_transactions();
                let mut want = vec![];
                for i in unconfirmed.iter().flatten() {
                    if m.held.contains(i) {
                        m.held.retain(|x| x != i);
                        want.push(m.hashes[*i]);
                    }
                }
                nd::check(hashes(&r) == want, "the recent transactions that are still pending are given back");
                unconfirmed = Default::default();
            }
            _ => {
                p.clear();
                m.held.clear();
                unconfirmed = Default::default();
            }
        }
        m.agree(&p);
    }
}

//@ prop D11
//@ cover accepted, too cheap, reward too low
//@ bounds fees around a minimum fee of 1000; collaterals of 0, below, at and above twenty times a minimum of 5; rewards of 1, 2, 3 and 100; required ratios of 25, 50 and 125
#[unsafe(no_mangle)]
pub fn h_mempool_admission() {
    let mut p = TransactionsPool::new();
    p.set_minimum_vtt_fee(1000);
    let fee = nd::range("fee", 900, 1100);
    let t = make(0);
    let r = p.insert(t.clone(), fee);
    if fee < 1000 {
        nd::cover("too cheap");
        nd::check(r == vec![t.clone()] && p.contains(&t) == Ok(false) && p.is_empty(), "a transfer that pays too little is given back");
        nd::check(p.total_transactions_weight() == 0, "what is given back has no weight in the pool");
    } else {
        nd::check(r.is_empty() && p.contains(&t) == Ok(true), "a transfer that pays enough is pending");
    }
    p.clear();
    p.set_collateral_minimum(5);
    let ratio = [25, 50, 125][nd::pick("ratio", 0, 2)];
    p.set_required_reward_collateral_ratio(ratio);
    let collateral = [0, 50, 99, 100, 101, 3000][nd::pick("collateral", 0, 5)];
    let reward = [1, 2, 3, 100][nd::pick("reward", 0, 3)];
    let t = Transaction::DataRequest(DRTransaction::new(
        DRTransactionBody::new(vec![Input::new(pointer(0))], request(2, collateral, 1, reward), vec![]),
        vec![some_signature(0)],
    ));
    let enough = reward * ratio >= if collateral == 0 { 100 } else { collateral };
    let r = p.insert(t.clone(), 1);
    nd::cover(if enough { "accepted" } else { "reward too low" });
    nd::check(r.is_empty() == enough && p.contains(&t) == Ok(enough), "a request is pending exactly if its reward is enough for its collateral");
    nd::check(enough || r == vec![t.clone()], "a request that is not taken is given back");
    nd::check(p.total_transactions_weight() == if enough { weight(&t) } else { 0 }, "the weight of the pool is the weight of what is pending");
}

//@ prop D11
//@ cover enough, too few, shared, unknown request
//@ bounds commitments of four witnesses to two requests of one or two witnesses and to an unknown one, each with one of two collateral outputs; reveals of two witnesses
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_mempool_witnesses() {
    let drs = [h(9), h(10), h(11)];
    let n = [nd::pick("witnesses", 1, 2), nd::pick("witnesses 2", 1, 2)];
    let mut reqs = DataRequestPool::new(3);
    for i in 0..2 {
        let s = DataRequestState::new(request(n[i] as u16, 0, 7 + i as u64, 1), pkh(5), 1, Some(h(3)));
        reqs.data_request_pool.insert(drs[i], s);
    }
    // who commits to what with which collateral
    let mut p = TransactionsPool::new();
    let mut made: Vec<(usize, usize, usize, CommitTransaction)> = vec![];
    for i in 0..4 {
        let dr = nd::pick(["dr 0", "dr 1", "dr 2", "dr 3"][i], 0, if i == 0 { 2 } else { 1 });
        let coin = nd::pick(["coin 0", "coin 1", "coin 2", "coin 3"][i], 0, 2);
        let spent = if coin == 2 { 10 + i } else { coin };
        let body = CommitTransactionBody::new(drs[dr], h(4), claim(i), vec![Input::new(pointer(spent as u8))], vec![], None);
        let c = CommitTransaction::new(body, vec![some_signature(i)]);
        let t = Transaction::Commit(c.clone());
        nd::check(p.contains(&t) == Ok(false), "a commitment is not there before it is made");
        p.insert(t.clone(), 0);
        nd::check(p.contains(&t) == Ok(true) && p.get(&t.hash()) == Some(t.clone()), "a commitment that was made is there");
        let other = CommitTransaction::new(CommitTransactionBody::new(drs[dr], h(5), claim(i), vec![], vec![], None), vec![some_signature(i)]);
        nd::check(p.contains(&Transaction::Commit(other)).is_err(), "a second commitment of a witness is reported");
        made.push((i, dr, spent, c));
    }
    let (got, fee, of) = p.remove_commits(&reqs);
    let mut total = 0;
    for (k, dr) in drs.iter().enumerate() {
        let have: Vec<_> = made.iter().filter(|c| c.1 == k).collect();
        let mine: Vec<_> = got.iter().filter(|c| c.body.dr_pointer == *dr).collect();
        nd::check(mine.iter().all(|c| have.iter().any(|h| h.3 == **c)), "commitments to be mined are those that were made");
        nd::check(mine.is_empty() != of.contains(dr), "requests with commitments are reported");
        if k == 2 {
            if !have.is_empty() {
                nd::cover("unknown request");
            }
            nd::check(mine.is_empty(), "nothing is mined for unknown requests");
            continue;
        }
        nd::check(mine.is_empty() || mine.len() == n[k], "a request has as many commitments as witnesses, or none");
        let alone = have.iter().all(|c| made.iter().all(|d| d.0 == c.0 || d.2 != c.2));
        if have.len() >= n[k] && alone {
            nd::cover("enough");
            nd::check(mine.len() == n[k], "a request with enough commitments gets them");
        } else if have.len() < n[k] {
            nd::cover("too few");
            nd::check(mine.is_empty(), "a request with too few commitments gets none");
        } else {
            nd::cover("shared");
        }
        total += mine.len() as u64 * (7 + k as u64);
    }
    let spent: Vec<OutputPointer> = got.iter().flat_map(|c| c.body.collateral.iter().map(|i| *i.output_pointer())).collect();
    nd::check(spent.iter().collect::<HashSet<_>>().len() == spent.len(), "no output is the collateral of two commitments");
    nd::check(fee == total, "the fee is that of every commitment");
    nd::check(of.len() == of.iter().collect::<HashSet<_>>().len(), "requests are reported once");
    for c in &made {
        nd::check(p.contains(&Transaction::Commit(c.3.clone())) == Ok(false) && p.get(&c.3.hash()).is_none(), "commitments are forgotten at the end of the epoch");
    }
    nd::check(p.is_empty(), "commitments are forgotten at the end of the epoch");
}

//@ prop D11
//@ cover removed, finished
//@ bounds reveals of two witnesses for two requests, one of them known
#[unsafe(no_mangle)]
pub fn h_mempool_reveals() {
    let mut reqs = DataRequestPool::new(3);
    reqs.data_request_pool.insert(h(9), DataRequestState::new(request(2, 0, 7, 1), pkh(5), 1, Some(h(3))));
    let all: Vec<RevealTransaction> = [(0, 9), (1, 9), (0, 10), (1, 10)].map(|(i, d)| reveal(i, h(d))).to_vec();
    let mut p = TransactionsPool::new();
    let mut held = vec![];
    for i in 0..4 {
        if nd::bool(["r0", "r1", "r2", "r3"][i]) {
            p.insert(Transaction::Reveal(all[i].clone()), 0);
            held.push(i);
        }
    }
    let op = nd::pick("operation", 0, 5);
    match op {
        0..=3 => {
            let r = &all[op];
            let got = p.remove_one_reveal(&r.body.dr_pointer, &r.body.pkh, &r.hash());
            nd::check(got == if held.contains(&op) { Some(r.clone()) } else { None }, "a reveal that is not needed any more leaves the pool");
            held.retain(|x| *x != op);
            nd::cover("removed");
        }
        4 => {
            p.clear_reveals_from_finished_dr(&h(9));
            held.retain(|x| *x > 1);
            nd::cover("finished");
        }
        _ => (),
    }
    for i in 0..4 {
        let t = Transaction::Reveal(all[i].clone());
        nd::check(p.contains(&t) == Ok(held.contains(&i)) && p.get(&t.hash()).is_some() == held.contains(&i), "a reveal is there while it is pending");
        let again = RevealTransaction::new(RevealTransactionBody::new(all[i].body.dr_pointer, vec![9], all[i].body.pkh), vec![some_signature(0)]);
        nd::check(p.contains(&Transaction::Reveal(again)).is_err() == held.contains(&i), "a second reveal of a witness is reported");
    }
    nd::check(p.is_empty() == held.is_empty(), "the pool is empty when nothing is pending");
    let (got, fee) = p.get_reveals(&reqs);
    let want: Vec<&RevealTransaction> = held.iter().filter(|i| **i < 2).map(|i| &all[*i]).collect();
    nd::check(got.len() == want.len() && want.iter().all(|w| got.contains(w)), "the reveals of all known requests can be mined");
    nd::check(fee == 7 * want.len() as u64, "the fee is that of every reveal");
    p.clear_reveals();
    nd::check(p.is_empty() && p.get_reveals(&reqs).0.is_empty(), "reveals can be forgotten");
}
