//! Epochs and seconds, protocol versions, and signalled improvements.
use std::collections::HashSet;
use witnet_data_structures::chain::tapi::*;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolInfo, ProtocolVersion};
use witnet_data_structures::{
    clear_protocol_info, get_protocol_version, get_protocol_version_activation_epoch, get_protocol_version_period, refresh_protocol_version,
    register_protocol_version,
};
use ProtocolVersion::*;

/// Seconds per epoch before and since 2.0.
const PERIODS: [(u16, u16); 4] = [(45, 20), (20, 45), (1, 1), (65535, 7)];
/// When epoch 0 started.
const ZEROS: [i64; 3] = [1602666000, 0, -1000];

fn clock(p: (u16, u16), zero: i64, since: Option<Epoch>) -> EpochConstants {
    let mut c = EpochConstants {
        checkpoint_zero_timestamp: zero,
        checkpoints_period: p.0,
        checkpoint_zero_timestamp_wit2: i64::MAX,
        checkpoints_period_wit2: p.1,
    };
    if let Some(e) = since {
        nd::check(c.set_values_for_wit2(p.1, e).is_ok(), "2.0 can be scheduled");
        let once = c.checkpoint_zero_timestamp_wit2;
        nd::check(c.set_values_for_wit2(p.1, e).is_ok() && c.checkpoint_zero_timestamp_wit2 == once, "scheduling 2.0 twice is scheduling it once");
    }
    c
}

const SINCE: [Option<Epoch>; 4] = [None, Some(0), Some(1000), Some(60_000)];

/// Any of the epochs around the interesting ones.
fn some_epoch(p: (u16, u16), since: Option<Epoch>) -> Epoch {
    let s = since.unwrap_or(5000);
    let near = [s.saturating_sub(128), u32::MAX / p.0 as u32 - 100, s.saturating_add(u32::MAX / p.1 as u32 - 100), u32::MAX - 255];
    near[nd::pick("around", 0, 3)].min(u32::MAX - 255) + nd::bits(8, "epoch") as u32
}

//@ prop D09
//@ cover before, after, never, overflow
//@ bounds 256 epochs around the start of 2.0, where seconds overflow in either version, and at the end; four pairs of periods; three starting times; 2.0 never, at once, at epoch 1000, or at epoch 60000
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_epoch_start() {
    let p = PERIODS[nd::pick("periods", 0, 3)];
    let zero = ZEROS[nd::pick("zero", 0, 2)];
    let since = SINCE[nd::pick("scheduled", 0, 3)];
    let c = clock(p, zero, since);
    let e = some_epoch(p, since);
    let later = since.is_some_and(|s| e >= s);
    let start = match since {
        Some(s) if later => zero as i128 + s as i128 * p.0 as i128 + (e - s) as i128 * p.1 as i128,
        _ => zero as i128 + e as i128 * p.0 as i128,
    };
    let period = if later { p.1 } else { p.0 };
    match c.epoch_timestamp(e) {
        Ok((t, v2)) => {
            nd::cover(if later { "after" } else if since.is_some() { "before" } else { "never" });
            nd::check(t as i128 == start, "an epoch starts when the epochs before it have passed");
            nd::check(v2 == later, "2.0 is in force since its epoch");
            nd::check(c.get_epoch_period(e).ok() == Some(period), "an epoch lasts for the period of its version");
            let mine = c.block_mining_timestamp(e);
            nd::check(mine.ok() == Some(t + (period - period / 2) as i64), "blocks are mined at half of the epoch");
            nd::check(c.epoch_at(t).ok() == Some(e), "at its start an epoch is the current one");
            nd::check(e == 0 || c.epoch_at(t - 1).ok() == Some(e - 1), "before its start an epoch is not the current one");
        }
        Err(_) => {
            nd::cover("overflow");
            nd::check(
                e as u64 * p.0 as u64 > u32::MAX as u64 || later && (e - since.unwrap()) as u64 * p.1 as u64 > u32::MAX as u64,
                "only epochs that are too far away have no start",
            );
            nd::check(c.block_mining_timestamp(e).is_err() && c.get_epoch_period(e).is_err(), "epochs that are too far away are reported as such");
        }
    }
}

//@ prop D09
//@ cover before, after, future
//@ bounds 4096 seconds around the start of the first epoch, of 2.0, and of the epochs 1000 and three million; four pairs of periods; three starting times; 2.0 never, at once, at epoch 1000, or at epoch 60000
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_epoch_current() {
    let p = PERIODS[nd::pick("periods", 0, 3)];
    let zero = ZEROS[nd::pick("zero", 0, 2)];
    let since = SINCE[nd::pick("scheduled", 0, 3)];
    let c = clock(p, zero, since);
    let around = [0, since.unwrap_or(77) as i64, 1000, 3_000_000][nd::pick("around", 0, 3)];
    let t = zero + around * p.0.min(1000) as i64 + nd::bits(12, "time") as i64 - 2048;
    match c.epoch_at(t) {
        Ok(e) => {
            nd::check(t >= zero, "before the start there are no epochs");
            nd::cover(if since.is_some_and(|s| e >= s) { "after" } else { "before" });
            let start = match since {
                Some(s) if e >= s => zero + s as i64 * p.0 as i64 + (e - s) as i64 * p.1 as i64,
                _ => zero + e as i64 * p.0 as i64,
            };
            nd::check(start <= t, "the current epoch has started");
            let period = if since.is_some_and(|s| e >= s) { p.1 } else { p.0 };
            nd::check(t < start + period as i64, "the current epoch has not ended");
        }
        Err(_) => {
            nd::cover("future");
            nd::check(t < zero, "since the start there is a current epoch");
        }
    }
}

const ALL: [ProtocolVersion; 4] = [V1_7, V1_8, V2_0, V2_1];

//@ prop D10
//@ cover first, latest, unregistered
//@ bounds any activation epochs of 1.8, 2.0 and 2.1 in increasing order (equal ones if registered in order), any of them missing, registered in three orders; any epoch asked for
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_versions() {
    let order = [[1, 2, 3], [3, 2, 1], [2, 3, 1]][nd::pick("order", 0, 2)];
    let mask = nd::pick("registered", 0, 7);
    let mut at = [None; 4];
    let mut last = None;
    for i in 1..4 {
        if mask >> (i - 1) & 1 == 1 {
            let e = nd::u32(["", "since 1.8", "since 2.0", "since 2.1"][i]);
            if let Some(l) = last {
                nd::assume(l < e || l == e && order[0] == 1);
            }
            at[i] = Some(e);
            last = at[i];
        }
    }
    clear_protocol_info();
    let mut info = ProtocolInfo::default();
    for i in order {
        if let Some(e) = at[i] {
            register_protocol_version(ALL[i], e, 10 + i as u16);
            info.register(e, ALL[i], 10 + i as u16);
        }
    }
    let q = nd::u32("epoch");
    let mut want = V1_7;
    for i in 1..4 {
        if at[i].is_some_and(|e| e <= q) {
            want = ALL[i];
        }
    }
    nd::check(get_protocol_version(Some(q)) == want, "the version in force is the latest activated one");
    nd::check(ProtocolVersion::from_epoch(q) == want, "the version in force is the latest activated one");
    nd::check(get_protocol_version(None) == V1_7, "before the first refresh the first version is assumed");
    refresh_protocol_version(q);
    nd::check(get_protocol_version(None) == want && ProtocolVersion::guess() == want, "a refresh brings the version in force");
    nd::cover(if want == V1_7 { "first" } else { "latest" });
    for i in 1..4 {
        nd::check(
            get_protocol_version_activation_epoch(ALL[i]) == at[i].unwrap_or(u32::MAX),
            "a version is activated at its epoch, or never",
        );
        nd::check(
            get_protocol_version_period(ALL[i]) == if at[i].is_some() { 10 + i as u16 } else { u16::MAX },
            "a version has the period it was registered with",
        );
        if at[i].is_none() {
            nd::cover("unregistered");
        }
    }
    nd::check(
        witnet_data_structures::get_protocol_info().all_versions == info.all_versions,
        "the registered versions are those of the process",
    );
    clear_protocol_info();
    nd::check(get_protocol_version(Some(q)) == V1_7 && get_protocol_version(None) == V1_7, "without registered versions the first is in force");
}

//@ prop D10
//@ cover known, unknown
//@ bounds activation epochs below 2^20 in increasing order, with any of 2.0 and 2.1 missing; periods 45, 30, 20 and 10
#[unsafe(no_mangle)]
pub fn h_version_times() {
    const PERIODS: [u16; 4] = [45, 30, 20, 10];
    let n = nd::pick("registered", 0, 3);
    let mut e = [0u32; 4];
    let mut info = ProtocolInfo::default();
    for i in 1..=n {
        e[i] = nd::bits(20, ["", "since 1.8", "since 2.0", "since 2.1"][i]) as u32;
        nd::assume(e[i] >= e[i - 1]);
        info.register(e[i], ALL[i], PERIODS[i]);
    }
    let constants = ConsensusConstants { checkpoint_zero_timestamp: 1000, checkpoints_period: PERIODS[0], ..Default::default() };
    let mut t = 1000i64;
    for i in 0..4 {
        if i > 0 {
            t += (e[i].wrapping_sub(e[i - 1]) as i64) * PERIODS[i - 1] as i64;
        }
        let got = info.derive_activation_timestamp(ALL[i], &constants);
        if i > n {
            nd::cover("unknown");
            nd::check(got.is_none(), "the time of a version that is not scheduled is unknown");
        } else {
            nd::cover("known");
            nd::check(got == Some(t), "a version starts when the epochs before it have passed");
        }
    }
}

//@ prop D10
//@ cover ordered
//@ bounds all pairs and triples of versions
#[unsafe(no_mangle)]
pub fn h_version_order() {
    let (i, j) = (nd::pick("a", 0, 3), nd::pick("b", 0, 3));
    let (a, b) = (ALL[i], ALL[j]);
    nd::check(a.partial_cmp(&b) == Some(i.cmp(&j)), "versions are ordered by age");
    nd::check((a < b) == (i < j) && (a >= b) == (i >= j) && (a == b) == (i == j), "versions are ordered by age");
    nd::check(a.next() == ALL[(i + 1).min(3)], "the next version is the one after");
    nd::check(a.prev() == ALL[i.max(1) - 1], "the previous version is the one before");
    nd::check(a.to_string().parse::<ProtocolVersion>().ok() == Some(a), "the written form of a version is read as that version");
    nd::cover("ordered");
}

const PROPOSALS: [&str; 2] = ["A", "B"];

//@ prop D12
//@ cover activated, rejected, avoided, gap
//@ bounds two proposals with periods of 5 and 2 epochs, on bits 0 and 1 or 31 and 9; seven epochs with any signals for the first and three patterns for the second, with or without two consecutive epochs missing anywhere; the second one voted on or avoided
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_signals() {
    let bit = [[0, 1], [31, 9]][nd::pick("bits", 0, 1)];
    let (period, init) = ([5u32, 2], [10, 11]);
    let end = [init[0] + 2 * period[0] + 1, init[1] + 2 * period[1] + 1];
    let mut t = TapiEngine::default();
    for i in 0..2 {
        t.bit_tapi_counter.insert(BitVotesCounter { votes: 0, period: period[i], wip: PROPOSALS[i].to_string(), init: init[i], end: end[i], bit: bit[i] });
    }
    let avoid: HashSet<String> = if nd::bool("avoid") { [PROPOSALS[1].to_string()].into() } else { HashSet::new() };
    let gap = 10 + nd::pick("gap", 0, 7) as u32;
    let others = [0u32, 0x7f, 0x2a][nd::pick("others", 0, 2)];
    let (mut votes, mut active) = ([0u32; 2], [None::<u32>; 2]);
    let mut last = 0;
    for e in 10..17u32 {
        if e == gap || e == gap + 1 {
            continue;
        }
        let s = [nd::bool(["s0", "s1", "s2", "s3", "s4", "s5", "s6"][e as usize - 10]), others >> (e - 10) & 1 == 1];
        t.update_bit_counter((s[0] as u32) << bit[0] | (s[1] as u32) << bit[1] | 1 << 20, e, e, &avoid);
        // epochs without block count as blocks without signals
        let from = if last == 0 { e } else { last + 1 };
        if from < e {
            nd::cover("gap");
        }
        for x in from..=e {
            for i in 0..2 {
                if x < init[i] || x >= end[i] || active[i].is_some() {
                    continue;
                }
                if i == 1 && !avoid.is_empty() {
                    nd::cover("avoided");
                    continue;
                }
                votes[i] += (x == e && s[i]) as u32;
                if (x - init[i]) % period[i] == 0 {
                    if votes[i] * 5 >= 4 * period[i] {
                        nd::cover("activated");
                        active[i] = Some(e + 21);
                    } else {
                        nd::cover("rejected");
                    }
                    votes[i] = 0;
                }
            }
        }
        last = e;
        for i in 0..2 {
            nd::check(
                t.wip_activation.get(PROPOSALS[i]).copied() == active[i],
                "a proposal is activated 21 epochs after a period in which four fifths of the epochs signalled it, and never again changed",
            );
            let voting = e >= init[i] && e < end[i];
            nd::check(t.in_voting_range(e, PROPOSALS[i]) == voting, "a proposal is voted on between its start and its end");
            if let (true, Some(c)) = (voting && active[i].is_none(), t.bit_tapi_counter.get(bit[i], &e)) {
                nd::check(c.votes == votes[i], "the votes of the period are counted");
            }
        }
        nd::check(t.bit_tapi_counter.last_epoch() == e, "the last counted epoch is remembered");
    }
}

//@ prop D12
//@ cover active, inactive
//@ bounds any epoch, all three environments; mainnet's emergency committees at any superblock
//@ shards 2
#[unsafe(no_mangle)]
pub fn h_forks() {
    const ENV: [Environment; 3] = [Environment::Mainnet, Environment::Testnet, Environment::Development];
    let env = ENV[nd::pick("environment", 0, 2)];
    let main = env == Environment::Mainnet;
    let e = nd::u32("epoch");
    nd::check(after_first_hard_fork(e, env) == (!main || e >= 192000), "the first fork");
    nd::check(after_second_hard_fork(e, env) == (!main || e >= 376320), "the second fork");
    nd::check(after_third_hard_fork(e, env) == (main && e >= 445440), "the third fork");
    let mut t = TapiEngine::default();
    let (from, old) = t.initialize_wip_information(env);
    nd::check(from == u32::MAX && old.is_empty(), "nothing is being voted on");
    let a = ActiveWips { active_wips: t.wip_activation.clone(), block_epoch: e };
    let since = |x: u32| if main { x } else { 0 };
    let want = [
        (a.wip_0008(), since(192000)),
        (a.wips_0009_0011_0012(), since(376320)),
        (a.third_hard_fork(), since(445440)),
        (a.wip0014(), since(549141)),
        (a.wip0016(), since(549141)),
        (a.wip0017(), since(683541)),
        (a.wip0018(), since(683541)),
        (a.wip0019(), since(683541)),
        (a.wip0020(), since(1059861)),
        (a.wip0021(), since(1059861)),
        (a.wip0022(), since(1708901)),
        (a.wip0023(), since(1708901)),
        (a.wip0024(), since(1708901)),
        (a.wip0025(), since(1708901)),
        (a.wip0026(), since(1708901)),
        (a.wip0027(), since(1708901)),
        (a.wip0028(), since(3048960)),
    ];
    for (got, from) in want {
        nd::cover(if got { "active" } else { "inactive" });
        nd::check(got == (e >= from), "every improvement is active since the epoch in which the network activated it");
    }
}
