//! The pool of data requests against the life of each request.
use crate::util::*;
use witnet_crypto::hash::calculate_sha256;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::transaction::*;

const DR: [u8; 2] = [9, 10];

/// Everything that may happen to the requests, made before anything is decided.
struct Txs {
    commits: Vec<[CommitTransaction; 2]>,
    reveals: Vec<[RevealTransaction; 2]>,
    tallies: Vec<TallyTransaction>,
    who: [PublicKeyHash; 2],
}
impl Txs {
    fn new() -> Txs {
        Txs {
            commits: DR.iter().map(|i| [0, 1].map(|c| commit(c, h(*i)))).collect(),
            reveals: DR.iter().map(|i| [0, 1].map(|c| reveal(c, h(*i)))).collect(),
            tallies: DR.iter().map(|i| tally(h(*i))).collect(),
            who: [pkh(0), pkh(1)],
        }
    }
}

struct Row {
    at: u32,
    witnesses: usize,
    /// 0: commitments, 1: reveals, 2: tally, 3: done
    stage: usize,
    commits: Vec<usize>,
    reveals: Vec<usize>,
    commit_round: u16,
    reveal_round: u16,
    /// whose reveal is waiting
    mine: Option<usize>,
}
impl Row {
    fn new(at: u32, witnesses: usize) -> Row {
        Row { at, witnesses, stage: 0, commits: vec![], reveals: vec![], commit_round: 0, reveal_round: 0, mine: None }
    }
    /// A block passes. Is my reveal due?
    fn step(&mut self, extra: u16, too_many: bool) -> bool {
        match self.stage {
            0 if !self.commits.is_empty() => {
                self.stage = 1;
                self.reveal_round = 1;
            }
            0 if too_many || self.commit_round > extra => self.stage = 2,
            0 => self.commit_round += 1,
            1 if self.reveals.len() < self.witnesses && self.reveal_round <= extra => self.reveal_round += 1,
            1 => self.stage = 2,
            _ => (),
        }
        if self.stage == 2 {
            self.mine = None;
        }
        self.stage == 1 && self.mine.is_some_and(|i| self.commits.contains(&i) && !self.reveals.contains(&i))
    }
}
fn pool(rows: &[Row], extra: u16) -> DataRequestPool {
    let mut p = DataRequestPool::new(extra);
    for (i, r) in rows.iter().enumerate() {
        let s = DataRequestState::new(request(r.witnesses as u16, 0, 1, 1), pkh(5), r.at, Some(h(3)));
        p.data_request_pool.insert(h(DR[i]), s);
        p.data_requests_by_epoch.entry(r.at).or_default().insert(h(DR[i]));
    }
    p
}
fn same<T: PartialEq + Copy>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.contains(x))
}
fn agree(p: &mut DataRequestPool, rows: &[Row], t: &Txs) {
    let st = [DataRequestStage::COMMIT, DataRequestStage::REVEAL, DataRequestStage::TALLY];
    let (mut open, mut ready) = (vec![], vec![]);
    for (i, r) in rows.iter().enumerate() {
        let dr = h(DR[i]);
        match p.data_request_state(&dr) {
            None => nd::check(r.stage == 3, "a request stays in the pool until it has its tally"),
            Some(s) => {
                nd::check(r.stage < 3 && s.stage == st[r.stage] && s.info.current_stage == Some(st[r.stage]), "a request is in the stage that its commitments, reveals and rounds demand");
                nd::check(s.info.commits.len() == r.commits.len() && r.commits.iter().all(|c| s.info.commits.get(&t.who[*c]) == Some(&t.commits[i][*c])), "there is one commitment for each witness that committed");
                nd::check(s.info.reveals.len() == r.reveals.len() && r.reveals.iter().all(|c| s.info.reveals.get(&t.who[*c]) == Some(&t.reveals[i][*c])), "there is one reveal for each witness that revealed");
                nd::check(s.info.current_commit_round == r.commit_round && s.info.current_reveal_round == r.reveal_round, "rounds are counted");
                match r.stage {
                    0 => open.push((r.at, dr)),
                    2 => ready.push(dr),
                    _ => (),
                }
            }
        }
        nd::check(p.waiting_for_reveal.contains_key(&dr) == r.mine.is_some(), "an own reveal is kept until the tally is due");
    }
    for e in [0, 4, 5, 6, 7, 8] {
        let want: Vec<Hash> = open.iter().filter(|x| x.0 <= e).map(|x| x.1).collect();
        nd::check(same(&p.get_dr_output_pointers_by_epoch(e), &want), "exactly the requests that await commitments and have begun can be mined");
    }
    let got: Vec<Hash> = p.get_tally_ready_drs().into_iter().collect();
    nd::check(same(&got, &ready), "exactly the requests in tally stage are ready for a tally");
}

/// One operation on request `i`; false where it would change what it must not.
fn operation(p: &mut DataRequestPool, rows: &mut [Row], i: usize, op: usize, extra: u16, many: bool, txs: &Txs) {
    let r = &mut rows[i];
    match op {
        0 | 1 => {
            let ok = p.process_commit(&txs.commits[i][op], 100, &h(2)).is_ok();
            nd::check(ok == (r.stage == 0), "commitments are taken in the first stage only");
            if ok && !r.commits.contains(&op) {
                r.commits.push(op);
            }
            nd::cover(if ok { "committed" } else { "too late to commit" });
        }
        2 | 3 => {
            let ok = p.process_reveal(&txs.reveals[i][op - 2], 100, &h(2)).is_ok();
            nd::check(ok == (r.stage == 1), "reveals are taken in the second stage only");
            if ok && !r.reveals.contains(&(op - 2)) {
                r.reveals.push(op - 2);
            }
            nd::cover(if ok { "revealed" } else { "no time to reveal" });
        }
        4 => {
            let t = txs.tallies[i].clone();
            if r.stage == 2 {
                nd::check(p.process_tally(&t, &h(2)).is_ok(), "a tally is taken in the last stage");
                let f = p.finished_data_requests();
                nd::check(f.len() == 1 && f[0].tally == Some(t) && f[0].block_hash_tally_tx == Some(h(2)) && f[0].block_hash_dr_tx == Some(h(3)) && f[0].current_stage.is_none(), "what is to be stored is the request with its tally");
                nd::check(f[0].commits.len() == r.commits.len() && f[0].reveals.len() == r.reveals.len(), "what is to be stored has all commitments and reveals");
                nd::check(p.finished_data_requests().is_empty(), "what is to be stored is told once");
                r.stage = 3;
                nd::cover("finished");
            } else {
                nd::check(p.clone().process_tally(&t, &h(2)).is_err(), "a tally is taken in the last stage only");
            }
        }
        _ => {
            let mut due = vec![];
            for (i, r) in rows.iter_mut().enumerate() {
                if r.step(extra, many) {
                    due.push(&txs.reveals[i][r.mine.unwrap()]);
                }
            }
            let v = if many { 3 } else { 100 };
            let got = p.update_data_request_stages(Some(v), Some(100));
            nd::check(got.len() == due.len() && due.iter().all(|d| got.contains(*d)), "exactly the own reveals that are due are sent");
            if !got.is_empty() {
                nd::cover("reveal due");
            }
            nd::cover("stepped");
        }
    }
}

fn life(n: usize) {
    let txs = Txs::new();
    let (two, many) = (nd::pick("witnesses", 1, 2), nd::pick("few validators", 0, 1) == 1);
    versions(if many { &[(ProtocolVersion::V2_0, 50)] } else { &[] });
    let extra = nd::pick("extra rounds", 0, 2) as u16;
    let mut rows = vec![Row::new(5, two)];
    let mut p = pool(&rows, extra);
    if nd::pick("I committed", 0, 1) == 1 {
        p.insert_reveal(h(DR[0]), txs.reveals[0][0].clone());
        rows[0].mine = Some(0);
    }
    for _ in 0..n {
        let op = nd::pick("operation", 0, 5);
        operation(&mut p, &mut rows, 0, op, extra, many, &txs);
    }
    agree(&mut p, &rows, &txs);
}

//@ prop D02
//@ bounds every history of 5 operations (commitment or reveal by either of two witnesses, tally, next block) on a request of 1 or 2 witnesses, up to 2 extra rounds, with enough and too few validators, with and without an own commitment
//@ cover committed, too late to commit, revealed, no time to reveal, stepped, reveal due, finished
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_request_life() {
    life(5)
}
//@ prop D02
//@ bounds every history of 7 operations on a request, as h_request_life
//@ tier thorough
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_request_life_long() {
    life(7)
}

//@ prop D02
//@ bounds two requests of the same or different epochs, every history of 4 operations on either
//@ cover committed, revealed, stepped
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_two_requests() {
    let txs = Txs::new();
    versions(&[]);
    let at = nd::pick("epoch", 5, 6) as u32;
    let mut rows = vec![Row::new(5, 1), Row::new(at, 2)];
    let mut p = pool(&rows, 1);
    for _ in 0..4 {
        let i = nd::pick("request", 0, 1);
        let op = nd::pick("operation", 0, 3);
        operation(&mut p, &mut rows, i, [0, 2, 4, 5][op], 1, false, &txs);
    }
    agree(&mut p, &rows, &txs);
}

//@ prop D02
//@ bounds requests with or without a signature, every epoch
//@ assume the hash of the request is not one made up for another
//@ cover added, refused
#[unsafe(no_mangle)]
pub fn h_add_request() {
    versions(&[]);
    let e = nd::u32("epoch");
    let out = request(nd::u16("witnesses"), nd::u64("collateral"), nd::u64("fee"), nd::u64("reward"));
    let sigs = nd::pick("signatures", 0, 2);
    let tx = DRTransaction::new(DRTransactionBody::new(vec![Input::new(pointer(0))], out.clone(), vec![]), (0..sigs).map(some_signature).collect());
    let mut p = DataRequestPool::new(3);
    let b = (nd::pick("in a block", 0, 1) == 1).then(|| h(3));
    let r = p.process_data_request(&tx, e, b);
    nd::check(r.is_ok() == (sigs > 0), "a request needs a signature");
    if sigs == 0 {
        nd::check(p == DataRequestPool::new(3), "a refused request changes nothing");
        nd::cover("refused");
        return;
    }
    let dr = tx.versioned_hash(ProtocolVersion::V1_7);
    let Hash::SHA256(b32) = dr;
    nd::assume(b32[0] != b32[1]);
    let s = p.data_request_state(&dr).unwrap();
    nd::check(s.data_request == out && s.pkh == pkh(0) && s.epoch == e && s.stage == DataRequestStage::COMMIT && s.info.block_hash_dr_tx == b, "a new request belongs to its first signer and awaits commitments");
    nd::check(p.get_dr_output(&dr) == Some(out), "the request can be looked up");
    nd::check(p.get_dr_output_pointers_by_epoch(e) == [dr], "a new request can be mined from its epoch on");
    nd::check(e == 0 || p.get_dr_output_pointers_by_epoch(e - 1).is_empty(), "a new request cannot be mined before");
    nd::check(p.process_commit(&commit(0, h(77)), e, &h(2)).is_err() && p.process_reveal(&reveal(0, h(77)), e, &h(2)).is_err() && p.process_tally(&tally(h(77)), &h(2)).is_err(), "nothing can be added to an unknown request");
    nd::cover("added");
}

//@ prop D02
//@ bounds up to 3 reveals, before and after WIP-0019, any stage, with and without enough validators
//@ cover in order, too many, other stage
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_reveals() {
    let many = nd::pick("few validators", 0, 1) == 1;
    versions(&[(ProtocolVersion::V2_0, 3)]);
    let at = nd::pick("epoch", 2, 3);
    let st = nd::pick("stage", 0, 2);
    let w = wips(nd::pick("active", 4, 5));
    let n = nd::pick("reveals", 0, 3);
    let first = nd::pick("first", 0, 2);
    let dr = h(9);
    let mut p = DataRequestPool::new(3);
    let mut s = DataRequestState::new(request(3, 0, 1, 1), pkh(5), at as u32, None);
    s.set_stage([DataRequestStage::COMMIT, DataRequestStage::REVEAL, DataRequestStage::TALLY][st]);
    for i in 0..n {
        let who = (i + first) % 3;
        s.info.reveals.insert(pkh(who), reveal(who, dr));
    }
    p.data_request_pool.insert(dr, s);
    let key = |r: &RevealTransaction| calculate_sha256(&[r.body.pkh.as_ref(), dr.as_ref()].concat()).0;
    let sorted = |l: &[&RevealTransaction]| l.windows(2).all(|x| if w.wip0019() { key(x[0]) < key(x[1]) } else { x[0].body.pkh < x[1].body.pkh });
    let got = p.get_reveals(&dr, &w).unwrap();
    nd::check(got.len() == n && (0..n).all(|i| got.iter().any(|r| r.body.pkh == pkh((i + first) % 3))), "all reveals are given");
    nd::check(sorted(&got), "reveals are in the order of their authors, hashed with the request since WIP-0019");
    nd::check(p.get_reveals(&h(10), &w).is_none(), "there are no reveals of unknown requests");
    let all = p.get_all_reveals(&w, Some(if many { 11 } else { 12 }), Some(100));
    let skip = many && at >= 3;
    nd::check(all.contains_key(&dr) == (st == 2 && !skip), "the reveals to tally are those of requests in tally stage, unless they ask for too many witnesses");
    if let Some(l) = all.get(&dr) {
        nd::check(l.len() == n && sorted(&l.iter().collect::<Vec<_>>()), "all reveals are given in order");
        nd::cover("in order");
    } else {
        nd::cover(if st == 2 { "too many" } else { "other stage" });
    }
}

//@ prop D02
//@ bounds two requests in any stage with up to 2 witnesses, every reward, fee, collateral and minimum up to 2^40, up to 2 commitments and reveals
//@ cover locked
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_locked() {
    let min = nd::range("minimum", 0, 1 << 40);
    let mut p = DataRequestPool::new(3);
    let mut want = 0u128;
    for i in 0..2 {
        let (w, st) = (nd::pick("witnesses", 1, 2), nd::pick("stage", 0, 2));
        let (reward, fee) = (nd::range("reward", 0, 1 << 40), nd::range("fee", 0, 1 << 40));
        let coll = if nd::pick("collateral", 0, 1) == 1 { nd::range("collateral", 1, 1 << 40) } else { 0 };
        let (c, r) = if st == 0 { (0, 0) } else { (nd::pick("commits", 0, w), nd::pick("reveals", 0, w)) };
        nd::assume(r <= c);
        let mut s = DataRequestState::new(request(w as u16, coll, fee, reward), pkh(5), 5, None);
        s.set_stage([DataRequestStage::COMMIT, DataRequestStage::REVEAL, DataRequestStage::TALLY][st]);
        for k in 0..c {
            s.info.commits.insert(pkh(k), commit(k, h(DR[i])));
        }
        for k in 0..r {
            s.info.reveals.insert(pkh(k), reveal(k, h(DR[i])));
        }
        p.data_request_pool.insert(h(DR[i]), s);
        let coll = if coll == 0 { min } else { coll } as u128;
        want += w as u128 * (reward as u128 + 2 * fee as u128) + c as u128 * coll - (c + r) as u128 * fee as u128;
    }
    nd::check(p.locked_wits_by_requests(min) as u128 == want, "what is locked is the value of the requests and the collateral, less the fees paid");
    nd::cover("locked");
}

//@ prop D02
//@ bounds every number of witnesses and validators, in and outside of mainnet, before and after protocol 2.0, every epoch
//@ cover too many, fine
#[unsafe(no_mangle)]
pub fn h_too_many() {
    let main = nd::pick("mainnet", 0, 1) == 1;
    witnet_data_structures::set_environment(if main { Environment::Mainnet } else { Environment::Development });
    versions(&[(ProtocolVersion::V2_0, 50)]);
    let (w, v) = (nd::u16("witnesses"), nd::u64("validators") as usize);
    let e = [10, 49, 50, 70][nd::pick("epoch", 0, 3)];
    let r = data_request_has_too_many_witnesses(&request(w, 0, 1, 1), v, Some(e));
    nd::check(r == (e >= 50 && w as u128 > (v / if main { 4 } else { 2 }) as u128), "since protocol 2.0 a request may ask for a quarter of the validators, outside of mainnet for half of them");
    nd::cover(if r { "too many" } else { "fine" });
    witnet_data_structures::set_environment(Environment::Mainnet);
}

//@ prop D02
//@ bounds every collateral and minimum up to 2^40, rewards of 0, 1, 3 and 10^9
//@ cover ratio
#[unsafe(no_mangle)]
pub fn h_ratio() {
    let (c, m) = (nd::range("collateral", 0, 1 << 40), nd::range("minimum", 0, 1 << 40));
    let r = [0, 1, 3, 1_000_000_000][nd::pick("reward", 0, 3)];
    let got = calculate_reward_collateral_ratio(c, m, r);
    let c = if c == 0 { m } else { c };
    if r == 0 {
        nd::check(got == u64::MAX, "no reward is an infinite ratio");
    } else {
        nd::check(got as u128 * r as u128 >= c as u128 && (got as u128 * r as u128) < c as u128 + r as u128, "the ratio is rounded up");
    }
    nd::cover("ratio");
}
