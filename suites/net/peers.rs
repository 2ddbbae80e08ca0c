//! The peers that are known against plain lists.
use std::collections::HashMap;
use std::net::SocketAddr;
use std::time::Duration;
use witnet_crypto::hash::calculate_sha256;
use witnet_p2p::peers::*;
use witnet_util::timestamp::get_timestamp;

fn addr(i: usize) -> SocketAddr {
    match i {
        0 => SocketAddr::from(([10, 1, 0, 1], 1000)),
        1 => SocketAddr::from(([10, 1, 7, 2], 1000)),
        2 => SocketAddr::from(([10, 9, 0, 1], 1001)),
        // nobody else has these
        3 => SocketAddr::from(([10, 9, 9, 9], 9999)),
        _ => SocketAddr::from(([0, 0, 0, 0], 1000)),
    }
}
const SERVER: usize = 3;
const NOBODY: usize = 4;
fn peers() -> Peers {
    Peers {
        bootstrapped: true,
        ice_bucket: HashMap::new(),
        ice_period: Duration::from_secs(1000),
        new_bucket: HashMap::new(),
        server_address: addr(SERVER),
        sk: nd::u64("nonce"),
        tried_bucket: HashMap::new(),
    }
}

//@ prop N01
//@ bounds every address and port of IPv4 and IPv6, every source and nonce
//@ cover v4, v6
#[unsafe(no_mangle)]
pub fn h_index() {
    let mut p = peers();
    p.sk = nd::u64("nonce");
    let any = |n: &'static str, v6: bool| -> (SocketAddr, Vec<u8>) {
        let port = nd::u16("port");
        if v6 {
            let ip = nd::bytes::<16>(n);
            (SocketAddr::from((ip, port)), [&ip[..], &port.to_be_bytes()].concat())
        } else {
            let ip = nd::bytes::<4>(n);
            (SocketAddr::from((ip, port)), [&ip[..], &port.to_be_bytes()].concat())
        }
    };
    let (v6, src6) = (nd::pick("v6", 0, 1) == 1, nd::pick("v6", 0, 1) == 1);
    let (a, b) = any("ip", v6);
    let (src, s) = any("source", src6);
    let h = |l: &[&[u8]]| calculate_sha256(&l.concat()).0[31] as u16;
    let sk = p.sk.to_be_bytes();
    let (ip, group, host) = (&b[..b.len() - 2], &b[..b.len() / 2 - 1], &b[b.len() / 2 - 1..]);
    let from = &s[..s.len() / 2 - 1];
    let i = (h(&[&sk, ip]) % 4) as u8;
    let tried = (h(&[&sk, group, &[i]]) % 64) * 64 + h(&[&sk, host, &[i]]) % 64;
    nd::check(p.tried_bucket_index(&a) == tried, "the group and the host of a tried peer choose among 4 buckets of 64 and their slot");
    let i = (h(&[&sk, from, group]) % 32) as u8;
    let new = (h(&[&sk, from, &[i]]) % 256) * 64 + h(&[&sk, host, &[i]]) % 64;
    nd::check(p.new_bucket_index(&a, &src) == new, "the groups of the peer and of who told about it choose among 32 buckets of 256, the host the slot");
    nd::cover(if v6 { "v6" } else { "v4" });
}

//@ prop N01
//@ bounds every time of icing, current time and ice period, before and after bootstrapping
//@ cover iced, melted, never iced
#[unsafe(no_mangle)]
pub fn h_ice() {
    let mut p = peers();
    p.bootstrapped = nd::bool("bootstrapped");
    let period = nd::range("period", 0, i64::MAX as u64);
    p.ice_period = Duration::from_secs(period);
    let (then, now) = (nd::u64("iced at") as i64, nd::u64("now") as i64);
    let iced = nd::pick("iced", 0, 1) == 1;
    if iced {
        p.ice_peer_address_pure(&addr(0), then);
    }
    let period = if p.bootstrapped { period } else { 1800 };
    let r = p.ice_bucket_contains_pure(&addr(0), now);
    let cold = now as i128 - then as i128 <= period as i128 || now as i128 - (period as i128) < i64::MIN as i128;
    nd::check(r == (iced && cold), "a peer stays iced for the ice period and no longer");
    nd::check(p.ice_bucket.contains_key(&addr(0)) == r, "what has melted is forgotten");
    nd::check(!p.ice_bucket_contains_pure(&addr(1), now), "a peer that was not iced is not");
    nd::cover(if r { "iced" } else if iced { "melted" } else { "never iced" });
}

type Row = (u16, usize);
fn same(l: &[Row], b: &HashMap<u16, PeerInfo>) -> bool {
    l.len() == b.len() && l.iter().all(|(i, a)| b.get(i).is_some_and(|p| p.address == addr(*a)))
}
fn put(l: &mut Vec<Row>, i: u16, a: usize) -> Option<SocketAddr> {
    match l.iter_mut().find(|x| x.0 == i) {
        Some(x) => {
            let old = x.1;
            x.1 = a;
            Some(addr(old))
        }
        None => {
            l.push((i, a));
            None
        }
    }
}

//@ prop N01
//@ bounds every history of 3 operations (found, tried, dropped, dropped and iced, thawed) on 3 peers, our own address and the unspecified one, every nonce: any of them in one slot or in different ones
//@ cover found, already tried, replaced, iced, ourselves, dropped, dropped by mistake
//@ assume hash functions are ideal, so any two peers may share a slot or not
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_buckets() {
    let mut p = peers();
    let (mut new, mut tried, mut ice): (Vec<Row>, Vec<Row>, Vec<usize>) = (vec![], vec![], vec![]);
    for _ in 0..3 {
        let a = nd::pick("peer", 0, 2);
        match nd::pick("operation", 0, 4) {
            0 => {
                // ourselves, nobody and somebody
                let what = [a, SERVER, NOBODY][nd::pick("what", 0, 2)];
                let src = [None, Some(0), Some(2)][nd::pick("source", 0, 2)];
                let at = p.new_bucket_index(&addr(what), &addr(src.unwrap_or(what)));
                let t = p.tried_bucket_index(&addr(what));
                let r = p.add_to_new(vec![addr(what)], src.map(addr));
                let mut gone = vec![];
                if what != a {
                    nd::cover("ourselves");
                } else if ice.contains(&a) {
                    nd::cover("iced");
                } else if tried.contains(&(t, a)) {
                    nd::cover("already tried");
                } else {
                    gone.extend(put(&mut new, at, a));
                    nd::cover("found");
                }
                nd::check(r.is_ok_and(|r| r == gone), "what had the slot of a new peer is told");
            }
            1 => {
                let what = [a, NOBODY][nd::pick("what", 0, 1)];
                let at = p.tried_bucket_index(&addr(what));
                let r = p.add_to_tried(addr(what));
                let mut gone = None;
                if what == a && !ice.contains(&a) {
                    gone = put(&mut tried, at, a);
                    if gone.is_some_and(|g| g != addr(a)) {
                        nd::cover("replaced");
                    }
                }
                nd::check(r.is_ok_and(|r| r == gone), "what had the slot of a tried peer is told");
            }
            2 => {
                let cold = nd::bool("ice");
                let at = p.tried_bucket_index(&addr(a));
                let r = p.remove_from_tried(&[addr(a)], cold);
                let mut gone = vec![];
                match tried.iter().position(|x| x.0 == at) {
                    Some(i) if tried[i].1 == a => {
                        tried.remove(i);
                        gone.push(addr(a));
                        nd::cover("dropped");
                    }
                    Some(_) => nd::cover("dropped by mistake"),
                    None => (),
                }
                if cold && !ice.contains(&a) {
                    ice.push(a);
                }
                nd::check(r == gone, "exactly the given peers are dropped from the tried ones");
            }
            3 => {
                if let Some(i) = new.first().map(|x| x.0) {
                    let r = p.remove_from_new_with_index(&[i]);
                    nd::check(r == [addr(new[0].1)], "what is dropped from the new peers is told");
                    new.remove(0);
                }
            }
            _ => {
                p.remove_from_ice(&addr(a));
                ice.retain(|x| *x != a);
            }
        }
    }
    nd::check(same(&new, &p.new_bucket), "the new peers are those found since, one for each slot");
    nd::check(same(&tried, &p.tried_bucket), "the tried peers are those tried since, one for each slot");
    nd::check(ice.len() == p.ice_bucket.len() && ice.iter().all(|a| p.ice_bucket.contains_key(&addr(*a))), "the iced peers are those iced since");
    nd::check(new.iter().all(|x| x.0 < 256 * 64) && tried.iter().all(|x| x.0 < 64 * 64), "there are 256 buckets of new and 64 of tried peers");
}

//@ prop N01
//@ bounds up to 2 new and 2 tried peers, up to 5 asked for
//@ cover all, some, none
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_random_peers() {
    let mut p = peers();
    let (n, t, k) = (nd::pick("new", 0, 2), nd::pick("tried", 0, 2), nd::pick("asked", 0, 5));
    for i in 0..n {
        p.new_bucket.insert(i as u16, PeerInfo { address: addr(i), timestamp: 0 });
    }
    for i in 0..t {
        p.tried_bucket.insert(i as u16, PeerInfo { address: addr(2 + i), timestamp: 0 });
    }
    let r = p.get_random_peers(k).unwrap();
    let one = p.get_new_random_peer();
    nd::check(r.len() == k.min(n + t), "as many peers are given as asked for and known");
    nd::check(r.iter().enumerate().all(|(i, a)| !r[..i].contains(a)), "no peer is given twice");
    nd::check(r.iter().all(|a| (0..n).any(|i| addr(i) == *a) || (0..t).any(|i| addr(2 + i) == *a)), "only known peers are given");
    nd::check(one.is_some() == (n > 0) && one.is_none_or(|(i, a)| (i as usize) < n && a == addr(i as usize)), "a new peer is found if there is one");
    nd::cover(if r.is_empty() { "none" } else if r.len() == n + t { "all" } else { "some" });
}

//@ prop N01
//@ bounds up to 3 peers iced at any time up to 10^6 seconds around the end of the period, except within 60 seconds of it
//@ cover melted, iced
#[unsafe(no_mangle)]
pub fn h_melt() {
    let mut p = peers();
    let now = get_timestamp();
    let mut want = vec![];
    for i in 0..nd::pick("iced", 0, 3) {
        let ago = nd::range("ago", 0, 1_000_000) as i64;
        nd::assume(ago < 940 || ago > 1060);
        p.ice_peer_address_pure(&addr(i), now - ago);
        if ago > 1000 {
            want.push(addr(i));
            nd::cover("melted");
        } else {
            nd::cover("iced");
        }
    }
    let before = p.ice_bucket.len();
    let r = p.extract_melted_peers_from_ice_bucket();
    nd::check(r.len() == want.len() && want.iter().all(|a| r.contains(a)), "exactly the melted peers are taken out");
    nd::check(p.ice_bucket.len() == before - want.len() && want.iter().all(|a| !p.ice_bucket.contains_key(a)), "the others stay iced");
}
