//! What is configured against what is used.
use std::net::SocketAddr;
use std::path::PathBuf;
use std::time::Duration;
use witnet_config::config::*;
use witnet_config::defaults::{Defaults, Development, Mainnet, Testnet};
use witnet_crypto::hash::HashFunction;
use witnet_data_structures::chain::{Environment, Hash};
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_protected::ProtectedString;

const ENVIRONMENTS: [Environment; 3] = [Environment::Mainnet, Environment::Testnet, Environment::Development];
fn environment() -> Environment {
    ENVIRONMENTS[nd::pick("environment", 0, 2)]
}
fn secs(n: &'static str) -> Duration {
    Duration::from_secs(nd::u64(n))
}
fn addr(n: &'static str) -> SocketAddr {
    SocketAddr::from((nd::bytes::<4>(n), nd::u16("port")))
}
fn text(n: &'static str) -> String {
    format!("{}{}", nd::text(n, 2, false), "x")
}

/// Does a to the setting of the given number: gives it a value in the configuration and in what is expected.
macro_rules! settings {
    ($i:expr, $n:ident, $p:ident, $w:ident; $($($f:ident).+ = $v:expr),* $(,)?) => {
        $({
            if $i == $n {
                let v = $v;
                $p.$($f).+ = Some(v.clone());
                $w.$($f).+ = v;
            }
            $n += 1;
        })*
    };
}
/// The settings that are optional also when used, or have no default of the environment
macro_rules! plain {
    ($i:expr, $n:ident, $p:ident, $w:ident; $($($f:ident).+ = $v:expr),* $(,)?) => {
        $({
            if $i == $n {
                let v = $v;
                $p.$($f).+ = v.clone();
                $w.$($f).+ = v;
            }
            $n += 1;
        })*
    };
}
fn nothing(e: Environment) -> PartialConfig {
    PartialConfig { environment: e, ..PartialConfig::default() }
}
/// Sets setting i of those that are not constants of the consensus; says how many there are.
fn set(i: usize, p: &mut PartialConfig, w: &mut Config) -> usize {
    let mut n = 0;
    settings!(i, n, p, w;
        connections.server_addr = addr("server"),
        connections.inbound_limit = nd::u16("n"),
        connections.outbound_limit = nd::u16("n"),
        connections.bootstrap_peers_period = secs("t"),
        connections.storage_peers_period = secs("t"),
        connections.discovery_peers_period = secs("t"),
        connections.check_melted_peers_period = secs("t"),
        connections.feeler_peers_period = secs("t"),
        connections.handshake_timeout = secs("t"),
        connections.handshake_max_ts_diff = nd::u64("n") as i64,
        connections.blocks_timeout = nd::u64("n") as i64,
        connections.consensus_c = nd::u32("n"),
        connections.bucketing_update_period = nd::u64("n") as i64,
        connections.bucketing_ice_period = secs("t"),
        connections.reject_sybil_inbounds = nd::bool("b"),
        connections.reject_sybil_inbounds_range_limit = nd::u8("n"),
        connections.requested_blocks_batch_limit = nd::u32("n"),
        storage.db_path = PathBuf::from(text("path")),
        storage.utxos_in_memory = nd::bool("b"),
        storage.rad_hashes_index = nd::bool("b"),
        storage.max_open_files = nd::u32("n") as i32,
        jsonrpc.enabled = nd::bool("b"),
        jsonrpc.enable_sensitive_methods = nd::bool("b"),
        jsonrpc.http_address = (nd::pick("some", 0, 1) == 1).then(|| addr("http")),
        jsonrpc.tcp_address = (nd::pick("some", 0, 1) == 1).then(|| addr("tcp")),
        jsonrpc.ws_address = (nd::pick("some", 0, 1) == 1).then(|| addr("ws")),
        mining.enabled = nd::bool("b"),
        mining.data_request_max_retrievals_per_epoch = nd::u16("n"),
        mining.data_request_timeout = Duration::from_millis(nd::u64("t")),
        mining.genesis_path = text("path"),
        mining.mint_external_percentage = nd::u8("n"),
        mining.transactions_pool_total_weight_limit = nd::u64("n"),
        mining.minimum_vtt_fee = nd::u64("n"),
        wallet.server_addr = addr("server"),
        wallet.node_sync_batch_size = nd::u32("n"),
        wallet.db_path = PathBuf::from(text("path")),
        wallet.db_file_name = text("name"),
        wallet.db_encrypt_hash_iterations = nd::u32("n"),
        wallet.db_encrypt_iv_length = nd::u64("n") as usize,
        wallet.db_encrypt_salt_length = nd::u64("n") as usize,
        wallet.id_hash_iterations = nd::u32("n"),
        wallet.id_hash_function = HashFunction::Sha256,
        wallet.session_expires_in = nd::u64("n"),
        wallet.requests_timeout = nd::u64("n"),
        wallet.sync_address_batch_length = nd::u16("n"),
        wallet.use_unconfirmed_utxos = nd::bool("b"),
        wallet.pending_transactions_timeout_seconds = nd::u64("n"),
        log.sentry_telemetry = nd::bool("b"),
        log.level = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Trace][nd::pick("level", 0, 2)],
        ntp.update_period = secs("t"),
        ntp.servers = vec![text("server")],
        ntp.enabled = nd::bool("b"),
        mempool.tx_pending_timeout = nd::u64("n"),
        mempool.max_reinserted_transactions = nd::u32("n"),
        witnessing.allow_unproxied = nd::bool("b"),
        witnessing.paranoid_percentage = nd::u8("n"),
        witnessing.proxies = vec![text("proxy")],
    );
    plain!(i, n, p, w;
        connections.public_addr = Some(addr("public")),
        storage.backend = StorageBackend::HashMap,
        storage.master_key_import_path = Some(PathBuf::from(text("path"))),
        mining.mint_external_address = Some(text("address")),
        wallet.testnet = true,
        wallet.node_url = vec![text("url"), text("url")],
        wallet.concurrency = Some(nd::u64("n") as usize),
        tapi.oppose_wip0028 = true,
        protocol.v1_7 = Some((nd::u32("epoch"), nd::u16("period"))),
        protocol.v1_8 = Some((nd::u32("epoch"), nd::u16("period"))),
        protocol.v2_0 = Some((nd::u32("epoch"), nd::u16("period"))),
    );
    n
}
const SETTINGS: usize = 68;
fn set_constant(i: usize, p: &mut PartialConfig, w: &mut Config) -> usize {
    let mut n = 0;
    settings!(i, n, p, w;
        consensus_constants.checkpoint_zero_timestamp = nd::u64("n") as i64,
        consensus_constants.checkpoints_period = nd::u16("n"),
        consensus_constants.bootstrap_hash = Hash::SHA256(nd::bytes::<32>("hash")),
        consensus_constants.genesis_hash = Hash::SHA256(nd::bytes::<32>("hash")),
        consensus_constants.max_vt_weight = nd::u32("n"),
        consensus_constants.max_dr_weight = nd::u32("n"),
        consensus_constants.activity_period = nd::u32("n"),
        consensus_constants.reputation_expire_alpha_diff = nd::u32("n"),
        consensus_constants.reputation_issuance = nd::u32("n"),
        consensus_constants.reputation_issuance_stop = nd::u32("n"),
        consensus_constants.reputation_penalization_factor = f64::from_bits(nd::u64("f") & !(1 << 62)),
        consensus_constants.mining_backup_factor = nd::u32("n"),
        consensus_constants.mining_replication_factor = nd::u32("n"),
        consensus_constants.collateral_minimum = nd::u64("n"),
        consensus_constants.collateral_age = nd::u32("n"),
        consensus_constants.superblock_period = nd::u16("n"),
        consensus_constants.extra_rounds = nd::u16("n"),
        consensus_constants.minimum_difficulty = nd::u32("n"),
        consensus_constants.epochs_with_minimum_difficulty = nd::u32("n"),
        consensus_constants.bootstrapping_committee = vec![text("member")],
        consensus_constants.superblock_signing_committee_size = nd::u32("n"),
        consensus_constants.superblock_committee_decreasing_period = nd::u32("n"),
        consensus_constants.superblock_committee_decreasing_step = nd::u32("n"),
        consensus_constants.initial_block_reward = nd::u64("n"),
        consensus_constants.halving_period = nd::u32("n"),
    );
    n
}
const CONSTANTS: usize = 25;

fn exported(c: &Config) -> Config {
    Config::from_partial(&c.to_partial())
}

//@ prop C01
//@ bounds each single setting of each environment, with every value (texts of up to 3 characters)
//@ cover set
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_setting() {
    let e = environment();
    let i = nd::pick("setting", 0, SETTINGS - 1);
    let mut p = nothing(e);
    let mut want = Config::from_partial(&p);
    let n = set(i, &mut p, &mut want);
    nd::check(n == SETTINGS, "the harness knows how many settings there are");
    let got = Config::from_partial(&p);
    nd::check(got == want, "a setting is what it was given, and all others are the defaults of the environment");
    nd::check(exported(&got) == got, "a configuration is the same after exporting and importing it");
    nd::cover("set");
}

//@ prop C01
//@ bounds each single constant of the consensus in each environment, with every value
//@ cover changed, fixed
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_constant() {
    let e = environment();
    let i = nd::pick("constant", 0, CONSTANTS - 1);
    let mut p = nothing(e);
    let before = Config::from_partial(&p);
    let mut want = before.clone();
    let n = set_constant(i, &mut p, &mut want);
    nd::check(n == CONSTANTS, "the harness knows how many constants there are");
    let got = Config::from_partial(&p);
    if e == Environment::Development {
        nd::check(got == want, "in development a constant is what it was given, and all others are the defaults");
        nd::cover("changed");
    } else {
        nd::check(got == before, "nobody can configure the constants of the consensus outside of development");
        nd::cover("fixed");
    }
    nd::check(exported(&got) == got, "a configuration is the same after exporting and importing it");
}

//@ prop C01
//@ bounds every value of all settings at once, or of all but one, in each environment
//@ cover all
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_all() {
    let e = environment();
    let but = nd::pick("but", 0, SETTINGS);
    let mut p = nothing(e);
    let mut want = Config::from_partial(&p);
    for i in 0..SETTINGS {
        // (what is optional twice is done in h_setting)
        if i != but && !(23..=25).contains(&i) && i != 48 {
            set(i, &mut p, &mut want);
        }
    }
    let got = Config::from_partial(&p);
    nd::check(got == want, "every setting is what it was given or the default");
    nd::check(exported(&got) == got, "a configuration is the same after exporting and importing it");
    nd::cover("all");
}

//@ prop C01
//@ bounds up to 2 known peers with every address, in each environment
//@ cover more
#[unsafe(no_mangle)]
pub fn h_known_peers() {
    let e = environment();
    let mut p = nothing(e);
    let before = Config::from_partial(&p).connections.known_peers;
    let peers: Vec<SocketAddr> = (0..nd::pick("peers", 0, 2)).map(|_| addr("peer")).collect();
    for a in &peers {
        p.connections.known_peers.insert(*a);
    }
    let got = Config::from_partial(&p).connections.known_peers;
    nd::check(before.iter().chain(&peers).all(|a| got.contains(a)), "the known peers are those of the environment and those configured");
    nd::check(got.iter().all(|a| before.contains(a) || peers.contains(a)), "no other peers are known");
    nd::cover("more");
}

//@ prop C01
//@ bounds every secret of up to 3 characters and salt of up to 2 bytes
//@ cover secret
#[unsafe(no_mangle)]
pub fn h_secrets() {
    let e = environment();
    let mut p = nothing(e);
    let before = Config::from_partial(&p);
    let (pass, salt) = (ProtectedString::from(text("password")), nd::bytes::<2>("salt").to_vec());
    p.wallet.seed_password = Some(pass.clone());
    p.wallet.master_key_salt = Some(salt.clone());
    let got = Config::from_partial(&p);
    nd::check(got.wallet.seed_password == pass && got.wallet.master_key_salt == salt, "the secrets configured are used");
    let e = got.to_partial();
    nd::check(e.wallet.seed_password.is_none() && e.wallet.master_key_salt.is_none(), "secrets are not exported");
    nd::check(exported(&got) == before, "nothing else depends on the secrets");
    nd::cover("secret");
}

//@ prop C01
//@ bounds every percentage, with and without unproxied retrieval, up to 2 proxies
//@ cover some, none
#[unsafe(no_mangle)]
pub fn h_witnessing() {
    let pct = nd::range("percentage", 0, 255) as u8;
    let proxies: Vec<String> = (0..nd::pick("proxies", 0, 2)).map(|_| text("proxy")).collect();
    let w = Witnessing { allow_unproxied: nd::pick("unproxied", 0, 1) == 1, paranoid_percentage: pct, proxies: proxies.clone() };
    let un = w.allow_unproxied;
    if !un && proxies.is_empty() {
        nd::may_panic(true);
        w.into_config();
        nd::check(false, "a node that cannot retrieve anything does not start");
        return;
    }
    let c = w.into_config();
    let mut want: Vec<Option<String>> = proxies.into_iter().map(Some).collect();
    if un {
        want.insert(0, None);
    }
    nd::check(c.transports == want, "the transports are the proxies, and the direct one first if it is allowed");
    let t = c.paranoid_threshold;
    nd::check(t == f32::from(pct) / 100.0, "the threshold is the percentage");
    nd::check(c.transports_as::<String>().is_ok_and(|x| x == want), "the transports stay the same in another form");
    nd::cover(if un { "some" } else { "none" });
}

//@ prop C01
//@ bounds every configured activation of every protocol, in each environment
//@ cover given, default
#[unsafe(no_mangle)]
pub fn h_protocol() {
    let e = environment();
    let mut p = nothing(e);
    let mut given = [None; 3];
    for g in given.iter_mut() {
        if nd::pick("given", 0, 1) == 1 {
            *g = Some((nd::u32("epoch"), nd::u16("period")));
        }
    }
    p.protocol = Protocol { v1_7: given[0], v1_8: given[1], v2_0: given[2] };
    let d: &dyn Defaults = match e {
        Environment::Mainnet => &Mainnet,
        Environment::Testnet => &Testnet,
        _ => &Development,
    };
    let d = d.protocol_versions();
    let got: Vec<_> = Config::from_partial(&p).protocol.iter().collect();
    for (i, v) in [ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0].into_iter().enumerate() {
        nd::check(got[i] == (v, given[i].or(d.get(&v).copied())), "a protocol is activated when configured or else by default");
        nd::cover(if given[i].is_some() { "given" } else { "default" });
    }
}
