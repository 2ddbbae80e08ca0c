//! What transactions paid, and what new ones are advised to pay.
use crate::building::*;
use std::time::Duration;
use witnet_data_structures::chain::priority::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::types::visitor::{StatefulVisitor, Visitor};

/// A priority between 0 and 15.
fn paid(name: &'static str) -> u64 {
    nd::bits(4, name)
}

fn of(p: &Priorities, kind: usize) -> (Priority, Option<Priority>) {
    match kind {
        0 => (p.drt_highest, p.drt_lowest),
        1 => (p.vtt_highest, p.vtt_lowest),
        2 => (p.st_highest, p.st_lowest),
        _ => (p.ut_highest, p.ut_lowest),
    }
}

fn is(a: Priority, b: u64) -> bool {
    a.as_f64() == b as f64
}

fn kinds() -> [Transaction; 5] {
    [
        Transaction::DataRequest(DRTransaction::default()),
        Transaction::ValueTransfer(VTTransaction::default()),
        Transaction::Stake(StakeTransaction::default()),
        Transaction::Unstake(UnstakeTransaction::default()),
        Transaction::Reveal(RevealTransaction::default()),
    ]
}

//@ prop D13
//@ cover none, one, several, ignored
//@ bounds blocks of up to three transactions of any two kinds, each paying one of 8 amounts per unit of weight, weights 1 and 2 (1 for three)
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_priority_digest() {
    let txs = kinds();
    let n = nd::pick("transactions", 0, 3);
    let other = nd::pick("other", 1, 4);
    let w = if n == 3 { 1 } else { nd::pick("weight", 1, 2) as u32 };
    let mut visitor = PriorityVisitor::default();
    let mut seen: [Vec<u64>; 5] = Default::default();
    for i in 0..n {
        let k = if nd::pick("kind", 0, 1) == 0 { 0 } else { other };
        let fee = nd::bits(3, "paid");
        visitor.visit(&(txs[k].clone(), fee * w as u64, w));
        seen[k].push(fee);
        let _ = i;
    }
    let found = visitor.take_state();
    for k in 0..4 {
        let (highest, lowest) = of(&found, k);
        let max = seen[k].iter().copied().fold(0, u64::max);
        nd::check(is(highest, max), "the highest priority is the highest of its own kind");
        // The lowest is not set by transactions that pay nothing until another has paid.
        let paying = seen[k].iter().position(|x| *x != 0);
        match (lowest, paying) {
            (None, None) => nd::cover("none"),
            (Some(l), Some(from)) => {
                nd::cover(if seen[k].len() > 1 { "several" } else { "one" });
                let min = seen[k][from..].iter().copied().fold(u64::MAX, u64::min);
                nd::check(is(l, min), "the lowest priority is the lowest of its own kind");
            }
            _ => nd::check(false, "a lowest priority is known once a transaction has paid"),
        }
    }
    if !seen[4].is_empty() {
        nd::cover("ignored");
    }
}

//@ prop D13
//@ cover full, room
//@ bounds an engine that keeps 1 to 3 blocks, up to five blocks pushed; and built from a list of up to five
#[unsafe(no_mangle)]
pub fn h_priority_window() {
    let capacity = nd::pick("capacity", 1, 3);
    let n = nd::pick("blocks", 0, 5);
    let blocks: Vec<Priorities> = (0..n)
        .map(|_| {
            let mut p = Priorities::default();
            p.digest_vtt_priority(Priority::from(paid("vtt")));
            p.digest_st_priority(Priority::from(paid("st")));
            p
        })
        .collect();
    nd::cover(if n > capacity { "full" } else { "room" });
    let kept = n.min(capacity);
    let mut engine = PriorityEngine::with_capacity(capacity);
    for b in &blocks {
        engine.push_priorities(b.clone());
    }
    let v = engine.as_vec();
    nd::check(v.len() == kept, "an engine keeps as many blocks as it may");
    nd::check(v == blocks[n - kept..], "an engine keeps the latest blocks, in order");
    // From a list, newest first.
    let engine = PriorityEngine::from_vec_with_capacity(blocks.clone(), capacity);
    let v = engine.as_vec();
    let mut newest: Vec<Priorities> = blocks[..kept].to_vec();
    newest.reverse();
    nd::check(v == newest, "an engine built from a list keeps its newest blocks");
}

//@ prop D13
//@ cover early, ready, long
//@ bounds 0 to 21 blocks known, any period of 16 bits
#[unsafe(no_mangle)]
pub fn h_priority_wait() {
    let n = nd::pick("blocks", 0, 21);
    let mut p = Priorities::default();
    p.digest_vtt_priority(Priority::from(7u64));
    let engine = PriorityEngine::from_vec(vec![p; n]);
    if n >= 20 {
        nd::cover("ready");
        let secs = [1, 20, 45, 65535][nd::pick("period", 0, 3)];
        nd::check(engine.estimate_priority(Duration::from_secs(secs)).is_ok(), "with 20 blocks there is an estimate");
        return;
    }
    let secs = nd::bits(16, "period");
    match engine.estimate_priority(Duration::from_secs(secs)) {
        Err(PriorityError::NotEnoughSampledEpochs { current, required, wait_minutes }) => {
            nd::check(current as usize == n && required == 20, "the error tells how many blocks are missing");
            let missing = (20 - n as u64) * secs;
            let wait = wait_minutes as u64 * 60;
            nd::check(wait > missing && wait <= missing + 60, "the wait is the time the missing blocks take, rounded up");
            nd::cover(if wait > 3600 { "long" } else { "early" });
        }
        _ => nd::check(false, "without 20 blocks there is no estimate"),
    }
}

fn tiers(e: &PrioritiesEstimate, kind: usize) -> [PriorityEstimate; 5] {
    match kind {
        0 => [&e.drt_stinky, &e.drt_low, &e.drt_medium, &e.drt_high, &e.drt_opulent].map(|x| x.clone()),
        1 => [&e.vtt_stinky, &e.vtt_low, &e.vtt_medium, &e.vtt_high, &e.vtt_opulent].map(|x| x.clone()),
        2 => [&e.st_stinky, &e.st_low, &e.st_medium, &e.st_high, &e.st_opulent].map(|x| x.clone()),
        _ => [&e.ut_stinky, &e.ut_low, &e.ut_medium, &e.ut_high, &e.ut_opulent].map(|x| x.clone()),
    }
}

//@ prop D13
//@ cover flat, two, above
//@ bounds 20 blocks of one kind of transaction with two lowest priorities of 0 to 15 in any proportion, epochs of 20 and 45 seconds
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_priority_estimate() {
    let kind = nd::pick("kind", 0, 3);
    let a = nd::concretize(paid("one"));
    let b = nd::concretize(paid("another"));
    let share = nd::pick("blocks", 0, 20);
    let secs = [20u64, 45][nd::pick("period", 0, 1)];
    let block = |x: u64| {
        let mut p = Priorities::default();
        let x = Priority::from(x);
        match kind {
            0 => p.digest_drt_priority(x),
            1 => p.digest_vtt_priority(x),
            2 => p.digest_st_priority(x),
            _ => p.digest_ut_priority(x),
        }
        p
    };
    let (pa, pb) = (block(a), block(b));
    let list: Vec<Priorities> = (0..20).map(|i| if i < share { pa.clone() } else { pb.clone() }).collect();
    let e = PriorityEngine::from_vec(list).estimate_priority(Duration::from_secs(secs)).unwrap();
    let most = match share {
        0 => b,
        20 => a,
        _ => a.max(b),
    } as f64;
    for k in 0..4 {
        let t = tiers(&e, k);
        for (i, floor) in [0.1, 0.2, 0.3, 0.4, 0.5].into_iter().enumerate() {
            let p = t[i].priority.as_f64();
            nd::check(p >= floor, "no estimate is under the default of its tier");
            if k == kind {
                nd::check(p <= floor || p <= most + 1e-9, "no estimate is over what was paid");
                if p > floor {
                    nd::cover("above");
                }
            } else {
                nd::check(p == floor, "without transactions of a kind its estimates are the defaults");
            }
            if i > 0 {
                nd::check(t[i - 1].priority <= t[i].priority, "a faster tier never asks for less");
            }
            let minutes = [360u64, 60, 15, 5, 1][i];
            nd::check(t[i].time_to_block == TimeToBlock::from_secs(minutes * 60), "the times of the tiers are fixed");
        }
        if k == kind {
            nd::cover(if a == b || share % 20 == 0 { "flat" } else { "two" });
            if share == 20 || share == 0 || a == b {
                nd::check((t[0].priority.as_f64() - most.max(0.1)).abs() < 1e-9, "when all pay the same that is what is advised");
            }
        }
    }
}
