//! Keys, outputs and environments shared by the harnesses.
use witnet_crypto::secp256k1::{Message, PublicKey as SecpPk, SecretKey as SecpSk};
use witnet_crypto::signature::sign;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::utxo_pool::{UnspentOutputsPool, UtxoDiff};
use witnet_data_structures::wit::Wit;
use witnet_data_structures::{clear_protocol_info, register_protocol_version};

pub fn sk(i: usize) -> SecpSk {
    let mut b = [0x11; 32];
    b[0] = i as u8 + 1;
    SecpSk::from_slice(&b).unwrap()
}
pub fn pk(i: usize) -> PublicKey {
    SecpPk::from_secret_key_global(&sk(i)).into()
}
pub fn pkh(i: usize) -> PublicKeyHash {
    pk(i).pkh()
}
/// The signature of key `i` on a digest.
pub fn signed(i: usize, digest: &Hash) -> KeyedSignature {
    let Hash::SHA256(d) = digest;
    KeyedSignature { signature: sign(sk(i), d).unwrap().into(), public_key: pk(i) }
}
/// A signature nobody looks into: on a constant message.
pub fn some_signature(i: usize) -> KeyedSignature {
    signed(i, &Hash::SHA256([7; 32]))
}
pub fn h(i: u8) -> Hash {
    Hash::SHA256([i; 32])
}
/// A hash is none of the made up ones.
pub fn fresh(hash: Hash) {
    let Hash::SHA256(b) = hash;
    nd::assume(b[0] != b[1]);
}
pub fn pointer(i: u8) -> OutputPointer {
    OutputPointer { transaction_id: h(0xf0 + i), output_index: i as u32 }
}
pub fn vto(owner: usize, value: u64, time_lock: u64) -> ValueTransferOutput {
    ValueTransferOutput { pkh: pkh(owner), value, time_lock }
}
/// Forget every protocol version but the first, then activate the given ones.
pub fn versions(v: &[(ProtocolVersion, Epoch)]) {
    clear_protocol_info();
    register_protocol_version(ProtocolVersion::V1_7, 0, 45);
    for (v, e) in v {
        register_protocol_version(*v, *e, 20);
    }
    witnet_data_structures::set_protocol_version(ProtocolVersion::default());
}
/// Is this error of the given variant of `TransactionError`?

macro_rules! is_err {
    ($r:expr, $p:pat) => {
        match &$r {
            Ok(_) => false,
            Err(e) => matches!(e.downcast_ref::<witnet_data_structures::error::TransactionError>(), Some($p)),
        }
    };
}
/// The list of signatures to verify is exactly one per signature of the transaction, on its hash.
pub fn owed(list: &[SignaturesToVerify], sigs: &[KeyedSignature], hash: Hash) -> bool {
    let Hash::SHA256(d) = hash;
    list.len() == sigs.len()
        && list.iter().zip(sigs).all(|(l, s)| match l {
            SignaturesToVerify::SecpTx { public_key, data, signature } => {
                PublicKey::from(*public_key) == s.public_key && data[..] == d[..] && Signature::from(*signature) == s.signature
            }
            _ => false,
        })
}
pub(crate) use is_err;
pub const NOW: i64 = 1_000_000;
/// Every epoch is one second long here, starting at zero: the epoch is the time stamp.
pub fn clock() -> EpochConstants {
    EpochConstants { checkpoint_zero_timestamp: 0, checkpoints_period: 1, checkpoint_zero_timestamp_wit2: i64::MAX, checkpoints_period_wit2: 1 }
}

pub struct Coins {
    /// owner, value, time lock and where: in the pool, created or spent by the block so far
    pub utxos: Vec<(usize, u64, u64, usize)>,
    pub pool: UnspentOutputsPool,
}
impl Coins {
    pub fn new(n: usize, places: usize) -> Coins {
        let mut c = Coins { utxos: vec![], pool: UnspentOutputsPool::default() };
        for i in 0..n {
            let place = if i == 0 { nd::pick("place", 0, places) } else { 0 };
            let u = (i % 2, nd::u64("value"), nd::u64("time lock"), place);
            if place != 1 {
                c.pool.insert(pointer(i as u8), vto(u.0, u.1, u.2), 5);
            }
            c.utxos.push(u);
        }
        c
    }
    pub fn diff(&self) -> UtxoDiff<'_> {
        let mut d = UtxoDiff::new(&self.pool, 10);
        for (i, u) in self.utxos.iter().enumerate() {
            match u.3 {
                1 => d.insert_utxo(pointer(i as u8), vto(u.0, u.1, u.2), None),
                2 => d.remove_utxo(pointer(i as u8)),
                _ => (),
            }
        }
        d
    }
    /// What the inputs are worth, if they can be spent by these signers.
    pub fn worth(&self, inputs: &[usize], signers: &[usize]) -> Option<u64> {
        let mut sum = 0u128;
        if signers.len() != inputs.len() {
            return None;
        }
        for (k, &i) in inputs.iter().enumerate() {
            let u = self.utxos.get(i).filter(|u| u.3 != 2)?;
            if u.2 > NOW as u64 || u.0 != signers[k] || inputs[..k].contains(&i) {
                return None;
            }
            sum += u.1 as u128;
        }
        u64::try_from(sum).ok()
    }
}
/// Up to `max` inputs among `n` coins and one that does not exist, and who signs them.
pub fn spend(max: usize, n: usize) -> (Vec<usize>, Vec<usize>, Vec<Input>, Vec<KeyedSignature>) {
    let k = nd::pick("inputs", 0, max);
    let inputs: Vec<usize> = (0..k).map(|_| nd::pick("input", 0, n)).collect();
    let s = nd::pick("signatures", k.saturating_sub(1), (k + 1).min(max));
    let signers: Vec<usize> = (0..s).map(|_| nd::pick("signer", 0, 1)).collect();
    let ins = inputs.iter().map(|i| Input::new(pointer(*i as u8))).collect();
    let sigs = signers.iter().map(|i| some_signature(*i)).collect();
    (inputs, signers, ins, sigs)
}

pub fn constants() -> ConsensusConstants {
    ConsensusConstants {
        checkpoint_zero_timestamp: 0,
        checkpoints_period: 45,
        bootstrap_hash: h(0xb0),
        genesis_hash: h(0xb1),
        max_vt_weight: 20_000,
        max_dr_weight: 80_000,
        activity_period: 2000,
        reputation_expire_alpha_diff: 20_000,
        reputation_issuance: 1,
        reputation_issuance_stop: 1 << 20,
        reputation_penalization_factor: 0.5,
        mining_backup_factor: 4,
        mining_replication_factor: 3,
        collateral_minimum: 1_000_000_000,
        collateral_age: 1000,
        superblock_period: 10,
        extra_rounds: 3,
        minimum_difficulty: 2000,
        epochs_with_minimum_difficulty: 2000,
        bootstrapping_committee: vec![],
        superblock_signing_committee_size: 100,
        superblock_committee_decreasing_period: 5,
        superblock_committee_decreasing_step: 5,
        initial_block_reward: 250_000_000_000,
        halving_period: 3_500_000,
    }
}
