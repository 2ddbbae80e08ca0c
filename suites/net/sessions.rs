//! The table of sessions against plain lists.
use std::net::SocketAddr;
use witnet_p2p::error::SessionsError;
use witnet_p2p::peers::get_range_address;
use witnet_p2p::sessions::*;

use SessionStatus::*;
use SessionType::*;

/// Two in one network, one in another and one of IPv6.
fn addr(i: usize) -> SocketAddr {
    match i {
        0 => SocketAddr::from(([10, 1, 0, 1], 1000)),
        1 => SocketAddr::from(([10, 1, 7, 2], 1000)),
        2 => SocketAddr::from(([10, 9, 0, 1], 1000)),
        _ => SocketAddr::from(([1u16, 2, 3, 4, 5, 6, 7, 8], 1000)),
    }
}
/// A list of open sessions: address and reference
type List = Vec<(usize, usize)>;
#[derive(Default)]
struct Model {
    // inbound and outbound, not consolidated and consolidated
    l: [[List; 2]; 2],
    consensus: List,
}
fn find(l: &List, a: usize) -> Option<usize> {
    l.iter().position(|x| x.0 == a)
}
fn same(l: &List, c: &bounded_sessions::BoundedSessions<usize>) -> bool {
    l.len() == c.collection.len() && l.iter().all(|(a, r)| c.collection.get(&addr(*a)).is_some_and(|s| s.reference == *r))
}
fn agree(s: &Sessions<usize>, m: &Model, addrs: usize) {
    nd::check(same(&m.l[0][0], &s.inbound_unconsolidated), "inbound sessions that are not consolidated are as registered");
    nd::check(same(&m.l[0][1], &s.inbound_consolidated), "consolidated inbound sessions are as consolidated");
    nd::check(same(&m.l[1][0], &s.outbound_unconsolidated), "outbound sessions that are not consolidated are as registered");
    nd::check(same(&m.l[1][1], &s.outbound_consolidated), "consolidated outbound sessions are as consolidated");
    nd::check(same(&m.consensus, &s.outbound_consolidated_consensus), "sessions in consensus are as marked");
    nd::check(m.consensus.iter().all(|x| find(&m.l[1][1], x.0).is_some()), "only consolidated outbound sessions are in consensus");
    for a in 0..addrs {
        let open = m.l[0].iter().flatten().any(|x| get_range_address(&addr(x.0), 16) == get_range_address(&addr(a), 16));
        nd::check(s.is_similar_to_inbound_session(&addr(a)).is_some() == open, "a network is taken exactly while an inbound session of it is open");
    }
}

//@ prop N02
//@ bounds every history of 4 operations (register, consolidate, close) on inbound sessions of 3 addresses, two of them in one network, every limit up to 3
//@ cover limit, twice, not found, range kept
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_inbound() {
    history(4, 3, 0, 0);
}

//@ prop N02
//@ bounds every history of 5 operations (register, consolidate, close, mark or unmark as in consensus) on outbound sessions of 2 addresses, every limit up to 3
//@ cover limit, twice, not found, consensus, consensus gone
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_outbound() {
    history(5, 2, 1, 1);
}

//@ prop N02
//@ bounds every history of 3 operations on inbound and outbound sessions of 2 addresses, every limit up to 3
//@ cover limit, twice, not found, range kept
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_sessions() {
    history(3, 2, 0, 1);
}

//@ prop N02
//@ bounds every history of 4 operations on inbound and outbound sessions of 3 addresses, two of them in one network, every limit up to 3
//@ tier thorough
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_sessions_long() {
    history(4, 3, 0, 1);
}

//@ prop N02
//@ bounds every history of 6 operations on inbound sessions of 3 addresses, two of them in one network, every limit up to 3
//@ tier thorough
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_inbound_long() {
    history(6, 3, 0, 0);
}

fn history(steps: usize, addrs: usize, from: usize, to: usize) {
    let mut s = Sessions::<usize>::default();
    let limits = [nd::range("inbound limit", 0, 3) as u16, nd::range("outbound limit", 0, 3) as u16];
    s.set_limits(limits[0], limits[1]);
    s.inbound_network_ranges.set_range_limit(16);
    let mut m = Model::default();
    for k in 0..steps {
        let t = nd::pick("type", from, to);
        let (op, a) = (nd::pick("operation", 0, if to == 0 { 2 } else { 4 }), nd::pick("address", 0, addrs - 1));
        let (t, t_) = if t == 0 { (0, Inbound) } else { (1, Outbound) };
        match op {
            0 => {
                let r = s.register_session(t_, addr(a), k);
                let twice = find(&m.l[t][0], a).is_some();
                nd::check(r.is_ok() != twice, "a session is registered once");
                if twice {
                    nd::cover("twice");
                } else {
                    m.l[t][0].push((a, k));
                }
            }
            1 => {
                let r = s.consolidate_session(t_, addr(a));
                match find(&m.l[t][0], a) {
                    None => {
                        nd::check(matches!(r, Err(SessionsError::AddressNotFound)), "only a registered session is consolidated");
                        nd::cover("not found");
                    }
                    Some(i) => {
                        let x = m.l[t][0].remove(i);
                        let full = m.l[t][1].len() >= limits[t] as usize;
                        let twice = find(&m.l[t][1], a).is_some();
                        nd::check(r.is_ok() == (!full && !twice), "a session is consolidated within the limit");
                        if full {
                            nd::cover("limit");
                        } else if !twice {
                            m.l[t][1].push(x);
                        }
                    }
                }
            }
            2 => {
                let c = nd::pick("status", 0, 1);
                let r = s.unregister_session(t_, if c == 0 { Unconsolidated } else { Consolidated }, addr(a));
                let i = find(&m.l[t][c], a);
                nd::check(r.is_ok() == i.is_some(), "an open session can be closed");
                if let Some(i) = i {
                    m.l[t][c].remove(i);
                    if t == 1 && c == 1 {
                        if let Some(i) = find(&m.consensus, a) {
                            m.consensus.remove(i);
                            nd::cover("consensus gone");
                        }
                    }
                    if t == 0 && a < 2 && m.l[0].iter().flatten().any(|x| x.0 == 1 - a) {
                        nd::cover("range kept");
                    }
                }
            }
            _ => {
                if op == 3 {
                    let r = s.consensus_session(addr(a));
                    let i = find(&m.l[1][1], a);
                    let fine = i.is_some() && find(&m.consensus, a).is_none();
                    nd::check(r.is_ok() == fine, "a consolidated outbound session can be in consensus once");
                    if fine {
                        nd::cover("consensus");
                        m.consensus.push((a, m.l[1][1][i.unwrap()].1));
                    }
                } else {
                    let r = s.unconsensus_session(addr(a));
                    let i = find(&m.consensus, a);
                    nd::check(r.is_ok() == i.is_some(), "a session in consensus can leave it");
                    if let Some(i) = i {
                        m.consensus.remove(i);
                    }
                }
            }
        }
        if k + 1 < steps {
            continue;
        }
        agree(&s, &m, addrs);
        let out = m.l[1][0].len() + m.l[1][1].len();
        nd::check(s.get_num_inbound_sessions() == m.l[0][1].len() && s.get_num_outbound_sessions() == out, "sessions are counted");
        nd::check(s.num_missing_outbound() == (limits[1] as usize).saturating_sub(out), "outbound sessions are missed up to the limit");
        nd::check(s.is_outbound_bootstrap_needed() == (out < limits[1] as usize), "more outbound sessions are needed below the limit");
        for a in 0..addrs {
            let used = m.l[1].iter().any(|l| find(l, a).is_some());
            nd::check(s.is_outbound_address_eligible(addr(a)) != used, "an address is eligible exactly if there is no outbound session with it");
        }
        let all: Vec<usize> = s.get_all_consolidated_sessions().copied().collect();
        nd::check(
            all.len() == m.l[0][1].len() + m.l[1][1].len() && m.l[0][1].iter().chain(&m.l[1][1]).all(|x| all.contains(&x.1)),
            "what is sent to all goes to every consolidated session once",
        );
    }
}

//@ prop N02
//@ bounds up to 3 consolidated outbound sessions, any of them in consensus
//@ cover none, in consensus, consolidated
//@ shards 2
#[unsafe(no_mangle)]
pub fn h_anycast() {
    let mut s = Sessions::<usize>::default();
    s.set_limits(3, 3);
    let n = nd::pick("sessions", 0, 3);
    let mut good = vec![];
    for a in 0..n {
        s.register_session(Outbound, addr(a), a).ok();
        s.consolidate_session(Outbound, addr(a)).ok();
        if nd::pick("in consensus", 0, 1) == 1 {
            s.consensus_session(addr(a)).ok();
            good.push(a);
        }
    }
    let safe = nd::bool("safe");
    let r = s.get_random_anycast_session(safe);
    match r {
        None => nd::check(if safe { good.is_empty() } else { n == 0 }, "a session is found if there is one"),
        Some(a) => nd::check(if safe { good.contains(&a) } else { a < n }, "only a session in consensus is safe, and only a consolidated one is used"),
    }
    nd::cover(match (r, safe) {
        (None, _) => "none",
        (_, true) => "in consensus",
        _ => "consolidated",
    });
}

//@ prop N02
//@ bounds every IPv4 address and every range limit
#[unsafe(no_mangle)]
pub fn h_range() {
    let (ip, port, n) = (nd::u32("ip"), nd::u16("port"), nd::u8("range limit"));
    let r = get_range_address(&SocketAddr::from((ip.to_be_bytes(), port)), n);
    let mask = if n == 0 { 0 } else if n >= 32 { u32::MAX } else { !(u32::MAX >> n) };
    nd::check(u32::from_be_bytes(r) == ip & mask, "a network is the leading bits of an address");
}
