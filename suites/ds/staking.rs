//! The stakes tracker against a plain list of entries.
use witnet_data_structures::chain::{Epoch, PublicKeyHash};
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::wit::Wit;

const WIT: u64 = 1_000_000_000;
type Tracker = StakesTracker;

fn who(i: usize) -> PublicKeyHash {
    let mut h = [0u8; 20];
    h[0] = i as u8 + 1;
    PublicKeyHash::from_bytes(&h).unwrap()
}
fn key(v: usize, w: usize) -> StakeKey<PublicKeyHash> {
    StakeKey { validator: who(v), withdrawer: who(w) }
}

#[derive(Clone, Copy)]
struct Row {
    v: usize,
    w: usize,
    coins: u64,
    nonce: u64,
}

fn agree(t: &Tracker, l: &[Row]) {
    nd::check(t.stakes_count() == l.len(), "there is one entry per staker with stake, and none without");
    let mut total = 0u64;
    for r in l {
        total += r.coins;
        match t.query_stakes(QueryStakesKey::Key(key(r.v, r.w))) {
            Ok(e) => {
                nd::check(e.len() == 1 && e[0].value.coins == Wit::from_nanowits(r.coins), "an entry holds what was added minus what was removed");
                nd::check(e[0].value.nonce == r.nonce, "the nonce is the epoch of the last manual change");
                nd::check(e[0].key == key(r.v, r.w), "an entry knows its validator and withdrawer");
            }
            Err(_) => nd::check(false, "every staker with stake can be found"),
        }
    }
    nd::check(t.total_staked() == Wit::from_nanowits(total), "the total is the sum of the entries");
    let mut validators = 0;
    for i in 0..3 {
        let byv: Vec<&Row> = l.iter().filter(|r| r.v == i).collect();
        let byw: Vec<&Row> = l.iter().filter(|r| r.w == i).collect();
        validators += (!byv.is_empty()) as usize;
        for (rows, got) in [
            (byv, t.query_stakes(QueryStakesKey::Validator(who(i)))),
            (byw, t.query_stakes(QueryStakesKey::Withdrawer(who(i)))),
        ] {
            match got {
                Ok(es) => {
                    nd::check(es.len() == rows.len() && !rows.is_empty(), "queries by validator or withdrawer find exactly the entries of that address");
                    for r in rows {
                        nd::check(
                            es.iter().any(|e| e.key == key(r.v, r.w) && e.value.coins == Wit::from_nanowits(r.coins) && e.value.nonce == r.nonce),
                            "queries by validator or withdrawer see the current entry",
                        );
                    }
                }
                Err(_) => nd::check(rows.is_empty(), "queries by validator or withdrawer fail only for an address without stake"),
            }
        }
    }
    nd::check(t.validator_count() == validators, "validators are counted once each");
}

//@ prop D01
//@ bounds histories of 3 (quick) or 4 (thorough) operations over 3 addresses as validators and 2 as withdrawers, every amount up to 2^61 nanowits and every minimum from 1 Wit on
//@ assume removals do not exceed the stake (enforced when unstake transactions and collateral are validated)
//@ cover removed an entry, partial, refused add, refused removal, reward
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_stake_ledger() {
    let steps = if cfg!(feature = "thorough") { 4 } else { 3 };
    let mut t = Tracker::default();
    let mut l: Vec<Row> = vec![];
    let min = nd::range("minimum", WIT, 1 << 60);
    for s in 0..steps {
        let epoch = 10 + 5 * s as Epoch;
        let op = nd::pick("operation", 0, 3);
        let v = nd::pick("validator", 0, 1);
        match op {
            0 => {
                let w = nd::pick("withdrawer", 0, 2);
                let c = nd::range("added", 0, 1 << 60);
                let set = s % 2 == 0;
                let r = t.add_stake(key(v, w), Wit::from_nanowits(c), epoch, set, Wit::from_nanowits(min));
                nd::check(r.is_err() == (c < min), "adding fails exactly below the minimum");
                if c >= min {
                    match l.iter_mut().find(|r| r.v == v && r.w == w) {
                        Some(r) => {
                            r.coins += c;
                            if set {
                                r.nonce = epoch as u64;
                            }
                        }
                        None => l.push(Row { v, w, coins: c, nonce: epoch as u64 }),
                    }
                } else {
                    nd::cover("refused add");
                }
            }
            1 => {
                let w = nd::pick("withdrawer", 0, 2);
                let set = s % 2 == 0;
                let p = l.iter().position(|r| r.v == v && r.w == w);
                let have = p.map_or(0, |p| l[p].coins);
                let c = nd::range("removed", 0, 1 << 61);
                nd::assume(p.is_none() || c <= have);
                let r = t.remove_stake(key(v, w), Wit::from_nanowits(c), epoch, set, Wit::from_nanowits(min));
                let left = if p.is_some() { have - c } else { 0 };
                nd::check(r.is_err() == (p.is_none() || (left > 0 && left < min)), "removing fails exactly without stake or when leaving less than the minimum");
                if r.is_ok() {
                    nd::check(r.ok() == Some(Wit::from_nanowits(left)), "removing tells what is left");
                    if let Some(p) = p {
                        if left == 0 {
                            l.remove(p);
                            nd::cover("removed an entry");
                        } else {
                            l[p].coins = left;
                            if set {
                                l[p].nonce = epoch as u64;
                            }
                            nd::cover("partial");
                        }
                    }
                } else if p.is_some() {
                    nd::cover("refused removal");
                }
            }
            2 => {
                let c = nd::range("reward", 0, 1 << 40);
                let n = l.iter().filter(|r| r.v == v).count();
                nd::assume(n <= 1);
                let r = t.add_reward(who(v), Wit::from_nanowits(c), epoch);
                nd::check(r.is_ok() == (n == 1), "a reward needs a validator with stake");
                if let Some(r) = l.iter_mut().find(|r| r.v == v) {
                    r.coins += c;
                    nd::cover("reward");
                }
            }
            _ => {
                let c = nd::range("collateral", 0, 1 << 61);
                let p = l.iter().position(|r| r.v == v);
                nd::assume(l.iter().filter(|r| r.v == v).count() <= 1);
                nd::assume(p.map_or(true, |p| c < l[p].coins));
                let r = t.reserve_collateral(who(v), Wit::from_nanowits(c), Wit::from_nanowits(min));
                nd::check(r.is_ok() == p.is_some(), "collateral needs a validator with stake");
                if let Some(p) = p {
                    if l[p].coins - c >= min {
                        l[p].coins -= c;
                    }
                }
            }
        }
        agree(&t, &l);
    }
}

const CAPS: [Capability; 2] = [Capability::Mining, Capability::Witnessing];

/// An entry as the power of stakes is defined: whole Wits times epochs since the (average) epoch of its coins.
#[derive(Clone, Copy)]
struct Power {
    key: (usize, usize),
    wits: u64,
    since: [u64; 2],
}
impl Power {
    fn at(&self, c: usize, now: u64) -> u64 {
        if now > self.since[c] { self.wits * (now - self.since[c]) } else { 0 }
    }
}
/// Three entries, two of them of the same validator, with coins and ages of any kind.
fn powers() -> (Tracker, Vec<Power>) {
    let mut t = Tracker::default();
    let mut l = vec![];
    for (v, w) in [(0, 2), (1, 0), (0, 1)] {
        let wits = nd::pick("wits", 1, 3) as u64;
        let rest = [0, WIT - 1, 1][l.len()];
        let e = nd::range("epoch", 0, 1 << 20) as u32;
        let added = t.add_stake(key(v, w), Wit::from_nanowits(wits * WIT + rest), e, true, Wit::from_nanowits(1));
        nd::check(added.is_ok(), "stakes can be added");
        l.push(Power { key: (v, w), wits, since: [e as u64; 2] });
    }
    (t, l)
}
fn ranked(l: &[Power], c: usize, now: u64) -> Vec<Power> {
    let mut l = l.to_vec();
    // more power first, the greater key first among equals
    for i in 1..l.len() {
        for j in (1..=i).rev() {
            let (a, b) = (l[j - 1], l[j]);
            let (x, y) = (a.at(c, now), b.at(c, now));
            if x < y || (x == y && a.key < b.key) {
                l.swap(j - 1, j);
            }
        }
    }
    l
}
fn same_rank(t: &Tracker, l: &[Power], c: usize, now: u64) {
    let mut rank = t.by_rank(CAPS[c], now as u32);
    let mut census = t.census(CAPS[c], now as u32, CensusStrategy::All);
    for p in ranked(l, c, now) {
        let k = key(p.key.0, p.key.1);
        nd::check(rank.next() == Some((k.clone(), p.at(c, now))), "stakers are ranked by power, equal ones by their keys");
        nd::check(census.next() == Some(k), "the census lists stakers by rank");
    }
    nd::check(rank.next().is_none() && census.next().is_none(), "every staker is ranked once");
}

//@ prop D04
//@ cover powerless, tie, unknown
//@ bounds 3 entries of 2 validators with 1 to 3 Wits and a fraction each, staked at any epoch up to 2^20, ranked at any other
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_stake_rank() {
    let (t, l) = powers();
    let now = nd::range("now", 0, 1 << 21);
    let c = nd::pick("capability", 0, 1);
    same_rank(&t, &l, c, now);
    let p = |i: usize| l[i].at(c, now);
    nd::check(t.query_power(who(0), CAPS[c], now as u32).ok() == Some(p(0).max(p(2))), "a validator has the power of its best entry");
    nd::check(t.query_power(who(1), CAPS[c], now as u32).ok() == Some(p(1)), "a validator has the power of its only entry");
    if t.query_power(who(3), CAPS[c], now as u32).is_err() {
        nd::cover("unknown");
    } else {
        nd::check(false, "who has no stake has no power");
    }
    if p(1) == 0 {
        nd::cover("powerless");
    } else if p(1) == p(2) {
        nd::cover("tie");
    }
}

//@ prop D04
//@ cover first mined, last mined, nobody, witness
//@ bounds 3 entries of 2 validators with 1 to 3 Wits and a fraction each, staked at any epoch up to 2^20; a block of any validator, or a commitment, at any later epoch
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_stake_reset() {
    let (mut t, mut l) = powers();
    let now = nd::range("now", 1 << 20, 1 << 21);
    let v = nd::pick("validator", 0, 2);
    if nd::pick("witness", 0, 1) == 1 {
        let factor = nd::pick("factor", 1, 3) as u32;
        let r = t.reset_age(who(v), CAPS[1], now as u32, factor);
        nd::check(r.is_ok() == (v < 2), "only stakers have an age");
        for p in l.iter_mut().filter(|p| p.key.0 == v) {
            p.since[1] += (now - p.since[1]) / factor as u64;
        }
        nd::cover("witness");
    } else {
        nd::check(t.reset_mining_age(who(v), now as u32).is_ok(), "mining resets ages");
        let before = ranked(&l, 0, now);
        match before.iter().position(|p| p.key.0 == v) {
            Some(w) => {
                // the winner and all that would have been before it lose their age; the better the rank the longer
                for (i, b) in before[..=w].iter().enumerate() {
                    let p = l.iter_mut().find(|p| p.key == b.key).unwrap();
                    p.since[0] = now + (1 + w - i) as u64;
                }
                nd::cover(if w == 2 { "last mined" } else if w == 0 { "first mined" } else { "second mined" });
            }
            None => nd::cover("nobody"),
        }
    }
    let later = now + nd::range("later", 0, 1 << 20);
    for c in 0..2 {
        for p in &l {
            match t.query_stakes(QueryStakesKey::Key(key(p.key.0, p.key.1))) {
                Ok(e) => {
                    nd::check(e.len() == 1 && e[0].value.power(CAPS[c], later as u32) == p.at(c, later), "power grows from the epoch the age was reset to");
                }
                Err(_) => nd::check(false, "resetting an age removes nobody"),
            }
        }
    }
}

//@ prop D04
//@ cover fractions add up, same epoch
//@ bounds two amounts of 1 to 4 Wits and any fraction each, staked at any two epochs up to 2^20
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_stake_average() {
    let (a, b) = (nd::pick("wits", 1, 4) as u64, nd::pick("wits", 1, 4) as u64);
    let carry = nd::pick("fractions add up", 0, 1) as u64;
    let (x, y) = (nd::range("nanowits", 0, WIT - 1), nd::range("nanowits", 0, WIT - 1));
    nd::assume((x + y >= WIT) == (carry == 1));
    let (e, f) = (nd::range("epoch", 0, 1 << 20), nd::range("epoch", 0, 1 << 20));
    nd::assume(e <= f);
    let mut t = Tracker::default();
    let one = Wit::from_nanowits(1);
    let r = t.add_stake(key(0, 1), Wit::from_nanowits(a * WIT + x), e as u32, true, one);
    nd::check(r.is_ok(), "stakes can be added");
    let r = t.add_stake(key(0, 1), Wit::from_nanowits(b * WIT + y), f as u32, true, one);
    let Ok(s) = r else { return nd::check(false, "stakes can be added") };
    for c in CAPS {
        let got = s.epochs.get(c) as u64;
        if carry == 0 {
            nd::check(got == (a * e + b * f) / (a + b), "the epoch is the average of the epochs of the coins");
            nd::check(e <= got && got <= f, "the epoch of added coins is between the old one and the new one");
        } else {
            nd::check(got <= f, "adding coins does not make the stake younger than the new coins");
            nd::check(e <= got, "adding coins does not make the stake older where the fractions add up to a Wit");
            nd::cover("fractions add up");
        }
        if e == f {
            nd::cover("same epoch");
        }
    }
}
