//! Reputation: TotalReputationSet against a ledger of (expiration, identity, amount), and
//! ActiveReputationSet against a window of epochs.
use std::collections::HashMap;
use witnet_reputation::{ActiveReputationSet, TotalReputationSet};

type Trs = TotalReputationSet<u8, u64, u32>;
const NK: usize = 3;

/// Reference: packets in order of expiration, amount per identity.
#[derive(Clone)]
struct Ledger {
    q: Vec<(u32, [u64; NK])>,
}
impl Ledger {
    fn new() -> Self {
        Ledger { q: vec![] }
    }
    fn gain(&mut self, a: u32, d: &[(u8, u64)]) -> bool {
        if let Some((m, _)) = self.q.last() {
            if *m > a {
                return false;
            }
            if *m < a {
                self.q.push((a, [0; NK]));
            }
        } else {
            self.q.push((a, [0; NK]));
        }
        let l = self.q.len() - 1;
        for (k, v) in d {
            self.q[l].1[*k as usize] += *v;
        }
        true
    }
    fn expire(&mut self, a: u32) -> u64 {
        let mut t = 0;
        while !self.q.is_empty() && self.q[0].0 <= a {
            t += self.q[0].1.iter().sum::<u64>();
            self.q.remove(0);
        }
        t
    }
    fn get(&self, k: u8) -> u64 {
        self.q.iter().map(|p| p.1[k as usize]).sum()
    }
    /// take `amount` from identity `k`, newest packets first
    fn take(&mut self, k: u8, mut amount: u64) {
        for p in self.q.iter_mut().rev() {
            let x = &mut p.1[k as usize];
            let t = if amount < *x { amount } else { *x };
            *x -= t;
            amount -= t;
        }
    }
}

fn agree(t: &Trs, l: &Ledger) {
    let mut total = 0;
    let mut active = 0;
    for k in 0..NK as u8 {
        let want = l.get(k);
        nd::check(t.get(&k) == want, "balance of every identity is the sum of its unexpired packets");
        total += want;
        if want != 0 {
            active += 1;
        }
    }
    nd::check(t.get_total_sum() == total, "total reputation is the sum over all identities");
    nd::check(t.num_identities() == active, "identities with reputation are exactly the non-zero ones");
    let mut i = 0;
    for (a, m) in t.queue() {
        nd::check(i < l.q.len() && *a == l.q[i].0, "packets stay ordered by expiration");
        let mut seen = [0u64; NK];
        for (k, v) in m {
            nd::check(*v != 0, "no empty coin is stored in a packet");
            seen[*k as usize] += *v;
        }
        if i < l.q.len() {
            for k in 0..NK {
                nd::check(seen[k] == l.q[i].1[k], "penalties are taken from the packets that expire last");
            }
        }
        i += 1;
    }
    nd::check(i == l.q.len(), "number of packets");
}

fn amount(n: &'static str) -> u64 {
    nd::range(n, 0, u32::MAX as u64)
}
fn key(n: &'static str, hi: usize) -> u8 {
    nd::pick(n, 0, hi) as u8
}
fn gain(t: &mut Trs, l: &mut Ledger, nkeys: usize, n: usize) {
    let a = nd::u32("alpha");
    let mut d = vec![];
    for _ in 0..n {
        d.push((key("id", nkeys - 1), amount("amount")));
    }
    let r = t.gain(a, d.clone()).is_ok();
    let w = l.gain(a, &d);
    nd::check(r == w, "a packet is refused exactly when it would expire before the newest one");
}
fn penalize(t: &mut Trs, l: &mut Ledger, k: u8) {
    let left = amount("left");
    let old = l.get(k);
    match t.penalize(&k, |_| left) {
        Ok(x) => {
            nd::cover("penalized");
            nd::check(left <= old, "a penalty never increases reputation");
            nd::check(x == old - left, "penalize returns what was subtracted");
            l.take(k, old - left);
        }
        Err(_) => nd::check(left > old, "penalize fails only when the function would increase reputation"),
    }
}

//@ prop R01
//@ bounds 3 gains of one coin over 2 identities with arbitrary u32 expirations and amounts < 2^32, then an arbitrary penalty, then an arbitrary expire
//@ cover penalized, expired
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_trs_history() {
    let (mut t, mut l) = (Trs::new(), Ledger::new());
    for _ in 0..3 {
        gain(&mut t, &mut l, 2, 1);
    }
    agree(&t, &l);
    penalize(&mut t, &mut l, 0);
    agree(&t, &l);
    let a = nd::u32("expire");
    let x = t.expire(&a);
    nd::check(x == l.expire(a), "expire returns the total reputation that expired");
    if x > 0 {
        nd::cover("expired");
    }
    nd::observe("expired", x);
    agree(&t, &l);
}

//@ prop R01
//@ bounds 2 (quick) or 3 (thorough) gains of two coins each over 3 identities (duplicate identities inside a gain and equal expirations included), then one penalize_many of up to 3 (possibly repeated) identities with arbitrary factors, then an arbitrary expire
//@ cover many ok, many error, repeated identity, expired after
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_trs_penalize_many() {
    let (mut t, mut l) = (Trs::new(), Ledger::new());
    let thorough = cfg!(feature = "thorough");
    let shapes: [(u8, u8); 3] = match nd::pick("shape", 0, 2) {
        0 => [(0, 1), (2, 1), (0, 2)],
        1 => [(0, 0), (2, 1), (1, 1)],
        _ => [(2, 1), (2, 0), (2, 2)],
    };
    let mut a = nd::u32("alpha");
    for (i, s) in shapes.iter().take(if thorough { 3 } else { 2 }).enumerate() {
        let d = vec![(s.0, nd::range("amount", 1, u32::MAX as u64)), (s.1, nd::range("amount", 1, u32::MAX as u64))];
        if i > 0 && nd::pick("later", 0, 1) == 1 {
            let n = nd::u32("alpha");
            nd::assume(n > a);
            a = n;
        }
        nd::check(t.gain(a, d.clone()).is_ok() && l.gain(a, &d), "packets in order are accepted");
    }
    let n = nd::pick("penalized", 2, 3);
    let ks: Vec<u8> = match nd::pick("who", 0, 2) {
        0 => vec![0, 1, 2],
        1 => vec![1, 0, 1],
        _ => vec![2, 2, 0],
    };
    let lefts: Vec<u64> = (0..n).map(|_| amount("left")).collect();
    let before = l.clone();
    let want = (|| {
        let mut total = 0;
        for i in 0..n {
            let old = l.get(ks[i]);
            if lefts[i] > old {
                return None;
            }
            l.take(ks[i], old - lefts[i]);
            total += old - lefts[i];
        }
        Some(total)
    })();
    let got = t.penalize_many((0..n).map(|i| {
        let left = lefts[i];
        (&ks[i], move |_| left)
    }));
    match (got, want) {
        (Ok(x), Some(w)) => {
            nd::cover("many ok");
            if ks[0] == ks[1] {
                nd::cover("repeated identity");
            }
            nd::check(x == w, "penalize_many returns the total that was subtracted");
        }
        (Err(_), None) => {
            nd::cover("many error");
            l = before;
        }
        _ => nd::check(false, "penalize_many fails exactly when some function would increase reputation"),
    }
    agree(&t, &l);
    let a = nd::u32("expire");
    let x = t.expire(&a);
    nd::check(x == l.expire(a), "expire returns the total reputation that expired");
    if x > 0 {
        nd::cover("expired after");
    }
    agree(&t, &l);
}

//@ prop R01
//@ bounds every sequence of 2 (quick) or 3 (thorough) operations (gain of 2 coins / penalize / expire / clear) after one gain, 2 identities, arbitrary u32 expirations, amounts < 2^32
//@ cover cleared, rebuilt
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_trs_ops() {
    let (mut t, mut l) = (Trs::new(), Ledger::new());
    gain(&mut t, &mut l, 2, 1);
    for _ in 0..if cfg!(feature = "thorough") { 3 } else { 2 } {
        match nd::pick("op", 0, 3) {
            0 => {
                let a = nd::u32("alpha");
                let d = vec![(0u8, amount("amount")), (key("id", 1), amount("amount"))];
                let r = t.gain(a, d.clone()).is_ok();
                nd::check(r == l.gain(a, &d), "a packet is refused exactly when it would expire before the newest one");
            }
            1 => {
                let k = key("id", 1);
                penalize(&mut t, &mut l, k)
            }
            2 => {
                let a = nd::u32("expire");
                nd::check(t.expire(&a) == l.expire(a), "expire returns the total reputation that expired");
            }
            _ => {
                t.clear();
                l.q.clear();
                nd::cover("cleared");
            }
        }
    }
    agree(&t, &l);
    let ids = [0u8, 1];
    nd::check(t.get_sum(ids.iter()) == l.get(0) + l.get(1), "get_sum adds the reputation of the given identities");
    // the exported queue is enough to rebuild the same set
    let q: Vec<(u32, Vec<(u8, u64)>)> = t.queue().map(|(a, m)| (*a, m.map(|(k, v)| (*k, *v)).collect())).collect();
    match Trs::from_queue(q) {
        Ok(t2) => {
            nd::cover("rebuilt");
            nd::check(t2 == t, "a set rebuilt from its own queue is equal to the original");
            agree(&t2, &l);
        }
        Err(_) => nd::check(false, "the exported queue of a set can be imported"),
    }
}

//@ prop R01
//@ bounds the two cache primitives on an arbitrary balance and amount (u64)
//@ cover emptied, refused
#[unsafe(no_mangle)]
pub fn h_trs_cache() {
    use witnet_reputation::trs::{decrement_cache, increment_cache};
    let mut m: HashMap<u8, u64> = HashMap::new();
    let a = nd::u64("balance");
    increment_cache(&mut m, 1, a);
    nd::check(m.contains_key(&1) == (a != 0), "an identity is known exactly when its balance is not zero");
    let b = nd::u64("amount");
    let r = decrement_cache(&mut m, 1, b);
    nd::check(r.is_ok() == (b <= a), "a balance cannot go below zero");
    let left = if b <= a { a - b } else { a };
    nd::check(m.get(&1).copied().unwrap_or(0) == left, "the balance decreases by the amount, or not at all");
    nd::check(m.contains_key(&1) == (left != 0), "a zero balance is forgotten");
    if r.is_err() {
        nd::cover("refused");
    } else if left == 0 && a != 0 {
        nd::cover("emptied");
    }
    nd::check(decrement_cache(&mut m, 2, b).is_ok() == (b == 0), "an unknown identity has nothing to take");
}

type Ars = ActiveReputationSet<u8>;

fn ars_agree(ars: &Ars, act: &[(u32, [bool; NK])], last: u32, cap: u32) {
    let mut n = 0;
    for k in 0..NK {
        let mut want = false;
        for (e, s) in act {
            if s[k] && last - *e < cap {
                want = true;
            }
        }
        nd::check(ars.contains(&(k as u8)) == want, "an identity is active exactly when it acted within the last `capacity` epochs");
        n += want as usize;
    }
    nd::check(ars.active_identities_number() == n, "number of active identities");
    nd::check(ars.active_identities().count() == n, "active identities are listed once each");
    nd::check(ars.buffer_size() <= ars.buffer_capacity(), "the buffer never outgrows its capacity");
    nd::check(ars.buffer_capacity() == cap as usize, "the capacity does not change");
}

//@ prop R02
//@ bounds capacity 1..=4 (quick) or 1..=6 (thorough), 3 updates with arbitrary u32 epochs, each naming an arbitrary subset of 2 identities plus a repeated one
//@ cover refused, skipped epochs, forgotten
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_ars_update() {
    let cap = nd::pick("capacity", 1, if cfg!(feature = "thorough") { 6 } else { 4 }) as u32;
    let mut ars = Ars::new(cap as usize);
    let mut act: Vec<(u32, [bool; NK])> = vec![];
    let mut last = 0u32;
    for _ in 0..3 {
        let e = nd::u32("epoch");
        let mut ids = vec![];
        let mut s = [false; NK];
        match nd::pick("who", 0, 3) {
            0 => {}
            1 => {
                ids.push(0);
                s[0] = true;
            }
            2 => {
                ids.extend([1, 1]);
                s[1] = true;
            }
            _ => {
                ids.extend([0, 1, 0]);
                s[0] = true;
                s[1] = true;
            }
        }
        let r = ars.update(ids, e);
        if e > last {
            nd::check(r.is_ok(), "an update for a later epoch is accepted");
            if e - last > 1 {
                nd::cover("skipped epochs");
            }
            act.push((e, s));
            last = e;
        } else {
            nd::check(r.is_ok() == (e == 0), "an update that does not advance the epoch is refused (epoch 0 changes nothing)");
            if r.is_err() {
                nd::cover("refused");
            }
        }
        ars_agree(&ars, &act, last, cap);
        if act.len() > 1 && act[0].1[0] && !ars.contains(&0) {
            nd::cover("forgotten");
        }
    }
}

//@ prop R02
//@ bounds capacity 1..=3, up to 5 pushes of arbitrary subsets of 2 identities, equality with a set rebuilt from the last `capacity` pushes
//@ cover wrapped
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_ars_push() {
    let cap = nd::pick("capacity", 1, 3);
    let mut ars = Ars::new(cap);
    let mut win: Vec<[bool; 2]> = vec![];
    let n = nd::pick("pushes", 1, 5);
    for _ in 0..n {
        let s = [nd::bool("a"), nd::bool("b")];
        let mut ids = vec![];
        for (k, x) in s.iter().enumerate() {
            if *x {
                ids.push(k as u8);
                ids.push(k as u8);
            }
        }
        ars.push_activity(ids);
        win.push(s);
        if win.len() > cap {
            win.remove(0);
            nd::cover("wrapped");
        }
    }
    for k in 0..2 {
        nd::check(ars.contains(&(k as u8)) == win.iter().any(|s| s[k]), "an identity is active exactly when it is in the buffer");
    }
    nd::check(ars.buffer_size() == win.len(), "the buffer holds the last `capacity` pushes");
    let mut again = Ars::new(cap);
    for s in &win {
        again.push_activity((0..2u8).filter(|k| s[*k as usize]).collect::<Vec<_>>());
    }
    nd::check(again == ars, "sets with the same recent activity are equal");
    let k = nd::pick("who", 0, 1) as u8;
    let had = win[win.len() - 1][k as usize];
    let mut other = Ars::new(cap);
    for (i, s) in win.iter().enumerate() {
        other.push_activity((0..2u8).filter(|x| s[*x as usize] != (i + 1 == win.len() && *x == k)).collect::<Vec<_>>());
    }
    nd::check(other != ars, "sets with different recent activity are different");
    let _ = had;
    ars.clear();
    nd::check(ars.active_identities_number() == 0 && ars.buffer_size() == 0, "clear forgets all activity");
}
