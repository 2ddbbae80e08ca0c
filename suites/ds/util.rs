//! Keys, outputs and requests shared by the harnesses.
use std::collections::HashMap;
use witnet_crypto::secp256k1::{PublicKey as SecpPk, SecretKey as SecpSk};
use witnet_crypto::signature::sign;
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_data_structures::transaction::*;
use witnet_data_structures::vrf::{DataRequestEligibilityClaim, VrfCtx};
use witnet_data_structures::{clear_protocol_info, register_protocol_version};

pub fn sk(i: usize) -> SecpSk {
    let mut b = [0x11; 32];
    b[0] = i as u8 + 1;
    SecpSk::from_slice(&b).unwrap()
}
pub fn pk(i: usize) -> PublicKey {
    SecpPk::from_secret_key_global(&sk(i)).into()
}
pub fn pkh(i: usize) -> PublicKeyHash {
    pk(i).pkh()
}
/// A signature nobody looks into: on a constant message.
pub fn some_signature(i: usize) -> KeyedSignature {
    KeyedSignature { signature: sign(sk(i), &[7; 32]).unwrap().into(), public_key: pk(i) }
}
pub fn h(i: u8) -> Hash {
    Hash::SHA256([i; 32])
}
pub fn pointer(i: u8) -> OutputPointer {
    OutputPointer { transaction_id: h(0xf0 + i), output_index: i as u32 }
}
pub fn vto(owner: usize, value: u64, time_lock: u64) -> ValueTransferOutput {
    ValueTransferOutput { pkh: pkh(owner), value, time_lock }
}
/// Forget every protocol version but the first, then activate the given ones.
pub fn versions(v: &[(ProtocolVersion, Epoch)]) {
    clear_protocol_info();
    register_protocol_version(ProtocolVersion::V1_7, 0, 45);
    for (v, e) in v {
        register_protocol_version(*v, *e, 20);
    }
    witnet_data_structures::set_protocol_version(ProtocolVersion::default());
}
pub const WIPS: [&str; 13] = [
    "WIP0008", "WIP0009-0011-0012", "THIRD_HARD_FORK", "WIP0014-0016", "WIP0017-0018-0019", "WIP0020-0021", "WIP0022", "WIP0023",
    "WIP0024", "WIP0025", "WIP0026", "WIP0027", "WIP0028",
];
/// The first `n` improvement proposals are active.
pub fn wips(n: usize) -> ActiveWips {
    let mut m = HashMap::new();
    for (i, w) in WIPS.iter().enumerate() {
        m.insert(w.to_string(), if i < n { 0 } else { 2_000_000 });
    }
    ActiveWips { active_wips: m, block_epoch: 1_000_000 }
}
pub fn get() -> RADRetrieve {
    RADRetrieve { kind: RADType::HttpGet, url: "u".into(), script: vec![128], body: vec![], headers: vec![] }
}
pub fn rad() -> RADRequest {
    RADRequest {
        time_lock: 0,
        retrieve: vec![get()],
        aggregate: RADAggregate { filters: vec![], reducer: 2 },
        tally: RADTally { filters: vec![], reducer: 2 },
    }
}
pub fn request(witnesses: u16, collateral: u64, fee: u64, reward: u64) -> DataRequestOutput {
    DataRequestOutput {
        data_request: rad(),
        witness_reward: reward,
        witnesses,
        commit_and_reveal_fee: fee,
        min_consensus_percentage: 51,
        collateral,
    }
}
/// A proof of eligibility made by key `i`.
pub fn claim(i: usize) -> DataRequestEligibilityClaim {
    let sk = SecretKey { bytes: witnet_protected::Protected::from(sk(i).secret_bytes().to_vec()) };
    let at = CheckpointVRF { checkpoint: 1_000_000, hash_prev_vrf: h(0xee) };
    DataRequestEligibilityClaim::create(&mut VrfCtx::secp256k1().unwrap(), &sk, at, h(9)).unwrap()
}
pub fn commit(i: usize, dr: Hash) -> CommitTransaction {
    CommitTransaction::new(CommitTransactionBody::new(dr, h(4), claim(i), vec![], vec![], None), vec![some_signature(i)])
}
pub fn reveal(i: usize, dr: Hash) -> RevealTransaction {
    RevealTransaction::new(RevealTransactionBody::new(dr, vec![1, i as u8], pkh(i)), vec![some_signature(i)])
}
pub fn tally(dr: Hash) -> TallyTransaction {
    TallyTransaction::new(dr, vec![1], vec![], vec![], vec![])
}
