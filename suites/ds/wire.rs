//! What goes over the wire and into hashes: every field, both ways, whatever arrives.
use crate::util::*;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::ProtobufConvert;
use witnet_data_structures::proto::versioning::{ProtocolVersion, Versioned, VersionedHashable};
use witnet_data_structures::staking::prelude::StakeKey;
use witnet_data_structures::transaction::*;
use witnet_data_structures::types::*;
use witnet_data_structures::vrf::*;

const V: [ProtocolVersion; 4] = [ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0, ProtocolVersion::V2_1];

/// Bytes of which the first and the last have any value.
fn edge<const N: usize>(n: &'static str) -> [u8; N] {
    let mut b = [5; N];
    b[0] = nd::u8(n);
    b[N - 1] = nd::u8(n);
    b
}
fn hash(n: &'static str) -> Hash {
    Hash::SHA256(edge(n))
}
fn address(n: &'static str) -> PublicKeyHash {
    PublicKeyHash::from_bytes(&edge::<20>(n)).unwrap()
}
fn signature() -> KeyedSignature {
    KeyedSignature {
        signature: Signature::Secp256k1(Secp256k1Signature { der: edge::<3>("signature").to_vec() }),
        public_key: PublicKey { compressed: nd::u8("key"), bytes: edge("key") },
    }
}
fn input() -> Input {
    Input::new(OutputPointer { transaction_id: hash("input"), output_index: nd::u32("output index") })
}
fn output() -> ValueTransferOutput {
    ValueTransferOutput { pkh: address("to"), value: nd::u64("value"), time_lock: nd::u64("time lock") }
}
fn data_request() -> DataRequestOutput {
    let text = |n| nd::text(n, 2, false);
    DataRequestOutput {
        data_request: RADRequest {
            time_lock: nd::u64("request time lock"),
            retrieve: vec![RADRetrieve {
                kind: [RADType::HttpGet, RADType::Rng, RADType::HttpPost, RADType::HttpHead][nd::pick("retrieval", 0, 3)].clone(),
                url: text("url"),
                script: edge::<2>("script").to_vec(),
                body: edge::<2>("body").to_vec(),
                headers: vec![(text("header"), text("header value"))],
            }],
            aggregate: RADAggregate { filters: vec![RADFilter { op: nd::u32("filter"), args: edge::<2>("argument").to_vec() }], reducer: nd::u32("aggregation") },
            tally: RADTally { filters: vec![RADFilter { op: nd::u32("tally filter"), args: vec![] }], reducer: nd::u32("tally reducer") },
        },
        witness_reward: nd::u64("reward"),
        witnesses: nd::u16("witnesses"),
        commit_and_reveal_fee: nd::u64("fee"),
        min_consensus_percentage: nd::u32("consensus"),
        collateral: nd::u64("collateral"),
    }
}
const KINDS: usize = 8;
/// A transaction of the given kind, with one element in every list.
fn transaction(kind: usize) -> Transaction {
    match kind {
        0 => Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(vec![input()], vec![output()]), vec![signature()])),
        1 => Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(vec![input()], data_request(), vec![output()]), vec![signature()])),
        2 => {
            let key = if nd::pick("key", 0, 1) == 1 {
                let mut k = Bn256PublicKey::default();
                k.public_key = edge::<3>("bn256").to_vec();
                Some(k)
            } else {
                None
            };
            let mut claim = DataRequestEligibilityClaim::default();
            claim.proof = vrf_proof();
            let body = CommitTransactionBody::new(hash("request"), hash("commitment"), claim, vec![input()], vec![output()], key);
            Transaction::Commit(CommitTransaction::new(body, vec![signature()]))
        }
        3 => Transaction::Reveal(RevealTransaction::new(RevealTransactionBody::new(hash("request"), edge::<3>("reveal").to_vec(), address("by")), vec![signature()])),
        4 => Transaction::Tally(TallyTransaction::new(
            hash("request"),
            edge::<3>("tally").to_vec(),
            vec![output()],
            vec![address("out of consensus")],
            vec![address("in error")],
        )),
        5 => Transaction::Mint(MintTransaction::new(nd::u32("epoch"), vec![output()])),
        6 => {
            let change = if nd::pick("change", 0, 1) == 1 { Some(output()) } else { None };
            if let Some(c) = &change {
                nd::assume(*c != ValueTransferOutput::default());
            }
            let o = StakeOutput { value: nd::u64("stake"), key: StakeKey { validator: address("validator"), withdrawer: address("withdrawer") }, authorization: signature() };
            Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(vec![input()], o, change), vec![signature()]))
        }
        _ => Transaction::Unstake(UnstakeTransaction::new(UnstakeTransactionBody::new(address("operator"), output(), nd::u64("fee"), nd::u64("nonce")), signature())),
    }
}

//@ prop D06
//@ cover value transfer, data request, commitment, reveal, tally, mint, stake, unstake
//@ bounds one element in each list; integers of any value, first and last byte of hashes, keys, addresses and byte strings of any value
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_wire_transaction() {
    let kind = nd::pick("kind", 0, KINDS - 1);
    let t = transaction(kind);
    match t.to_pb_bytes() {
        Ok(b) => match Transaction::from_pb_bytes(&b) {
            Ok(x) => nd::check(x == t, "a transaction reads back as it was written"),
            Err(_) => nd::check(false, "a transaction can be read back"),
        },
        Err(_) => nd::check(false, "a transaction can be written"),
    }
    nd::cover(["value transfer", "data request", "commitment", "reveal", "tally", "mint", "stake", "unstake"][kind]);
}

fn last_beacon() -> LastBeacon {
    let beacon = || CheckpointBeacon { checkpoint: nd::u32("checkpoint"), hash_prev_block: hash("previous block") };
    LastBeacon { highest_block_checkpoint: beacon(), highest_superblock_checkpoint: beacon() }
}
fn ip() -> Address {
    let ip = match nd::pick("ip", 0, 1) {
        0 => IpAddress::Ipv4 { ip: nd::u32("ip") },
        _ => IpAddress::Ipv6 { ip0: nd::u32("ip"), ip1: nd::u32("ip"), ip2: nd::u32("ip"), ip3: nd::u32("ip") },
    };
    Address { ip, port: nd::u16("port") }
}
fn vrf_proof() -> VrfProof {
    let mut p = VrfProof::default().to_pb();
    p.set_proof(edge::<3>("vrf proof").to_vec());
    p.set_public_key(PublicKey { compressed: nd::u8("key"), bytes: edge("key") }.to_pb());
    VrfProof::from_pb(p).unwrap()
}
fn header(stakes: bool) -> BlockHeader {
    let mut x = BlockHeader::default();
    x.signals = nd::u32("signals");
    x.beacon = CheckpointBeacon { checkpoint: nd::u32("checkpoint"), hash_prev_block: hash("previous block") };
    x.proof.proof = vrf_proof();
    x.merkle_roots = BlockMerkleRoots {
        mint_hash: hash("mint"),
        vt_hash_merkle_root: hash("vt"),
        dr_hash_merkle_root: hash("dr"),
        commit_hash_merkle_root: hash("commit"),
        reveal_hash_merkle_root: hash("reveal"),
        tally_hash_merkle_root: hash("tally"),
        stake_hash_merkle_root: if stakes { hash("stake") } else { Hash::default() },
        unstake_hash_merkle_root: if stakes { hash("unstake") } else { Hash::default() },
    };
    x
}
fn inventory() -> Vec<InventoryEntry> {
    vec![InventoryEntry::Tx(hash("transaction")), InventoryEntry::Block(hash("block")), InventoryEntry::SuperBlock(nd::u32("superblock"))]
}
const MESSAGES: usize = 11;
fn message(kind: usize, stakes: bool) -> Message {
    let c = match kind {
        0 => Command::GetPeers(GetPeers),
        1 => Command::Peers(Peers { peers: vec![ip(), ip()] }),
        2 => Command::Verack(Verack),
        3 => Command::Version(Version {
            version: nd::u32("version"),
            timestamp: nd::u64("timestamp") as i64,
            capabilities: nd::u64("capabilities"),
            sender_address: ip(),
            receiver_address: ip(),
            user_agent: nd::text("agent", 2, false),
            nonce: nd::u64("nonce"),
            beacon: last_beacon(),
        }),
        4 => {
            let mut txns = BlockTransactions { mint: MintTransaction::new(nd::u32("epoch"), vec![output()]), ..Default::default() };
            for k in 0..KINDS {
                let full = if stakes { 6 } else { 0 };
                if k != full && k != 7 && k != 3 {
                    continue;
                }
                match transaction(k) {
                    Transaction::ValueTransfer(t) => txns.value_transfer_txns.push(t),
                    Transaction::Reveal(t) => txns.reveal_txns.push(t),
                    Transaction::Stake(t) => txns.stake_txns.push(t),
                    Transaction::Unstake(t) if stakes => txns.unstake_txns.push(t),
                    _ => (),
                }
            }
            Command::Block(Block::new(header(stakes), signature(), txns))
        }
        5 => Command::Transaction(transaction([0, 3, 7][nd::pick("transaction", 0, 2)])),
        6 => Command::SuperBlock(SuperBlock::new(nd::u32("size"), hash("ars"), hash("requests"), nd::u32("index"), hash("last"), hash("previous"), hash("tallies"))),
        7 => Command::InventoryAnnouncement(InventoryAnnouncement { inventory: inventory() }),
        8 => Command::InventoryRequest(InventoryRequest { inventory: inventory() }),
        9 => Command::LastBeacon(last_beacon()),
        _ => Command::SuperBlockVote(SuperBlockVote {
            bn256_signature: Bn256Signature { signature: edge::<3>("bn256").to_vec() },
            secp256k1_signature: signature(),
            superblock_hash: hash("superblock"),
            superblock_index: nd::u32("index"),
        }),
    };
    Message { kind: c, magic: nd::u16("magic") }
}

//@ prop D06
//@ cover peers, version, block, transaction, superblock, inventory, beacon, vote, first protocol
//@ bounds one or two elements in each list; integers of any value, first and last byte of hashes, keys, addresses and byte strings of any value
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_wire_message() {
    let kind = nd::pick("kind", 0, MESSAGES - 1);
    let v = V[nd::pick("protocol", 0, 3)];
    let m = message(kind, v != ProtocolVersion::V1_7);
    match m.to_versioned_pb_bytes(v) {
        Ok(b) => match Message::from_versioned_pb_bytes(&b) {
            Ok(x) => nd::check(x == m, "a message of any protocol reads back as it was written"),
            Err(_) => nd::check(false, "a message of any protocol can be read back"),
        },
        Err(_) => nd::check(false, "a message can be written"),
    }
    if v == ProtocolVersion::V1_7 {
        nd::cover("first protocol");
    }
    nd::cover(["nothing", "peers", "nothing", "version", "block", "transaction", "superblock", "inventory", "inventory", "beacon", "vote"][kind]);
}

/// Whatever the bytes are, reading them ends, and what was read can be written and is read back.
fn read(b: &[u8]) {
    match Message::from_versioned_pb_bytes(b) {
        Ok(m) => {
            let again = m.to_pb_bytes().ok().and_then(|b| Message::from_pb_bytes(&b).ok());
            nd::check(again == Some(m), "a message that was read can be passed on");
            nd::cover("read");
        }
        Err(_) => {
            nd::check(Message::from_pb_bytes(b).is_err(), "no message of the last protocol is refused");
            nd::cover("refused");
        }
    }
}

//@ prop D06
//@ cover refused
//@ bounds messages of up to 6 arbitrary bytes
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_wire_any_bytes() {
    let n = nd::pick("length", 0, 6);
    let b = nd::bytes::<6>("message");
    read(&b[..n]);
}

const SAMPLES: usize = 13;
fn sample(kind: usize) -> Message {
    let ip = |ip| Address { ip, port: 5 };
    let pkh = PublicKeyHash::from_bytes(&[4; 20]).unwrap();
    let to = ValueTransferOutput { pkh, value: 7, time_lock: 8 };
    let from = Input::new(OutputPointer { transaction_id: Hash::SHA256([1; 32]), output_index: 2 });
    let signature = KeyedSignature { signature: Signature::Secp256k1(Secp256k1Signature { der: vec![1] }), public_key: PublicKey { compressed: 2, bytes: [3; 32] } };
    let beacon = CheckpointBeacon { checkpoint: 1, hash_prev_block: Hash::SHA256([2; 32]) };
    let last = LastBeacon { highest_block_checkpoint: beacon, highest_superblock_checkpoint: beacon };
    let c = match kind {
        0 => Command::GetPeers(GetPeers),
        1 => Command::Peers(Peers { peers: vec![ip(IpAddress::Ipv4 { ip: 9 }), ip(IpAddress::Ipv6 { ip0: 1, ip1: 2, ip2: 3, ip3: 4 })] }),
        2 => Command::Verack(Verack),
        3 => Command::Version(Version {
            version: 1,
            timestamp: 2,
            capabilities: 3,
            sender_address: ip(IpAddress::Ipv4 { ip: 9 }),
            receiver_address: ip(IpAddress::Ipv4 { ip: 8 }),
            user_agent: "a".to_string(),
            nonce: 4,
            beacon: last,
        }),
        4 => Command::InventoryRequest(InventoryRequest { inventory: vec![InventoryEntry::Tx(Hash::SHA256([1; 32])), InventoryEntry::SuperBlock(6)] }),
        5 => Command::LastBeacon(last),
        6 => Command::SuperBlockVote(SuperBlockVote {
            bn256_signature: Bn256Signature { signature: vec![1] },
            secp256k1_signature: signature,
            superblock_hash: Hash::SHA256([1; 32]),
            superblock_index: 3,
        }),
        7 => Command::Transaction(Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(vec![from], vec![to]), vec![signature]))),
        8 => Command::Transaction(Transaction::Unstake(UnstakeTransaction::new(UnstakeTransactionBody::new(pkh, to, 5, 6), signature))),
        9 => {
            let o = StakeOutput { value: 5, key: StakeKey { validator: pkh, withdrawer: pkh }, authorization: signature.clone() };
            Command::Transaction(Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(vec![from], o, Some(to)), vec![signature])))
        }
        10 => Command::Transaction(Transaction::Reveal(RevealTransaction::new(RevealTransactionBody::new(Hash::SHA256([1; 32]), vec![3], pkh), vec![signature]))),
        11 => {
            let dr = DataRequestOutput {
                data_request: RADRequest {
                    time_lock: 0,
                    retrieve: vec![RADRetrieve { kind: RADType::HttpPost, url: "u".to_string(), script: vec![1], body: vec![2], headers: vec![("h".to_string(), "v".to_string())] }],
                    aggregate: RADAggregate { filters: vec![RADFilter { op: 1, args: vec![2] }], reducer: 3 },
                    tally: RADTally { filters: vec![], reducer: 3 },
                },
                witness_reward: 1,
                witnesses: 2,
                commit_and_reveal_fee: 3,
                min_consensus_percentage: 51,
                collateral: 5,
            };
            Command::Transaction(Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(vec![], dr, vec![]), vec![])))
        }
        _ => Command::Block(Block::new(BlockHeader::default(), signature, BlockTransactions::default())),
    };
    Message { kind: c, magic: 0x1234 }
}

//@ prop D06
//@ cover read, refused
//@ bounds 13 messages of every kind but superblocks, written with every integer at full width, with one byte of any value at any place, or cut short anywhere
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_wire_damaged() {
    nd::fixed_width_encoding(true);
    let kind = nd::pick("kind", 0, SAMPLES - 1);
    let mut b = sample(kind).to_pb_bytes().unwrap();
    let at = nd::pick("position", 0, b.len() - 1);
    if nd::pick("cut", 0, 1) == 1 {
        b.truncate(at);
    } else {
        b[at] = nd::u8("byte");
    }
    read(&b);
}

fn same_body(a: &Transaction, b: &Transaction) -> bool {
    match (a, b) {
        (Transaction::ValueTransfer(a), Transaction::ValueTransfer(b)) => a.body == b.body,
        (Transaction::DataRequest(a), Transaction::DataRequest(b)) => a.body == b.body,
        (Transaction::Commit(a), Transaction::Commit(b)) => a.body == b.body,
        (Transaction::Reveal(a), Transaction::Reveal(b)) => a.body == b.body,
        (Transaction::Stake(a), Transaction::Stake(b)) => a.body == b.body,
        (Transaction::Unstake(a), Transaction::Unstake(b)) => a.body == b.body,
        _ => a == b,
    }
}

/// Takes one element away from one of the lists (or optional fields) of the transaction.
fn shortened(t: Transaction) -> Transaction {
    match t {
        Transaction::ValueTransfer(t) => {
            let mut b = t.body;
            if nd::pick("list", 0, 1) == 0 { b.inputs.clear() } else { b.outputs.clear() }
            Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(b.inputs, b.outputs), t.signatures))
        }
        Transaction::DataRequest(t) => {
            let mut b = t.body;
            match nd::pick("list", 0, 5) {
                0 => b.inputs.clear(),
                1 => b.outputs.clear(),
                2 => b.dr_output.data_request.retrieve.clear(),
                3 => b.dr_output.data_request.retrieve[0].headers.clear(),
                4 => b.dr_output.data_request.aggregate.filters.clear(),
                _ => b.dr_output.data_request.tally.filters.clear(),
            }
            Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(b.inputs, b.dr_output, b.outputs), t.signatures))
        }
        Transaction::Commit(t) => {
            let mut b = t.body;
            if nd::pick("list", 0, 1) == 0 { b.collateral.clear() } else { b.outputs.clear() }
            Transaction::Commit(CommitTransaction::new(CommitTransactionBody::new(b.dr_pointer, b.commitment, b.proof, b.collateral, b.outputs, b.bn256_public_key), t.signatures))
        }
        Transaction::Reveal(t) => {
            let b = t.body;
            Transaction::Reveal(RevealTransaction::new(RevealTransactionBody::new(b.dr_pointer, b.reveal[..2].to_vec(), b.pkh), t.signatures))
        }
        Transaction::Tally(mut t) => {
            match nd::pick("list", 0, 3) {
                0 => t.outputs.clear(),
                1 => t.out_of_consensus.clear(),
                2 => t.error_committers.clear(),
                _ => t.tally.truncate(2),
            }
            Transaction::Tally(TallyTransaction::new(t.dr_pointer, t.tally, t.outputs, t.out_of_consensus, t.error_committers))
        }
        Transaction::Mint(t) => Transaction::Mint(MintTransaction::new(t.epoch, vec![])),
        Transaction::Stake(t) => {
            let b = t.body;
            Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(vec![], b.output, b.change), t.signatures))
        }
        t => t,
    }
}

//@ prop D07
//@ cover equal, different, shorter
//@ bounds two transactions of the same kind (8 kinds) with at most one element in each list; integers of any value, first and last byte of hashes, keys, addresses and byte strings of any value; 4 protocols
//@ assume hash functions have no collisions
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_hash_transaction() {
    nd::no_collisions(true);
    let kind = nd::pick("kind", 0, KINDS - 1);
    let a = transaction(kind);
    let mut b = transaction(kind);
    if nd::pick("shorter", 0, 1) == 1 {
        b = shortened(b);
        nd::cover("shorter");
    }
    let equal = same_body(&a, &b);
    if equal {
        nd::cover("equal");
    } else {
        nd::cover("different");
    }
    nd::check((a.hash() == b.hash()) == equal, "transactions have the same hash exactly when their bodies are the same");
    nd::check(a.clone().hash() == a.hash(), "a copy of a transaction has its hash");
    let v = V[nd::pick("protocol", 0, 3)];
    nd::check((a.versioned_hash(v) == b.versioned_hash(v)) == equal, "in any protocol, transactions have the same hash exactly when their bodies are the same");
}

//@ prop D07
//@ cover equal, different, first protocol
//@ bounds two block headers, superblocks, data requests or checkpoints; integers of any value, first and last byte of every hash of any value; 4 protocols
//@ assume hash functions have no collisions
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_hash_header() {
    nd::no_collisions(true);
    let (equal, hashes) = match nd::pick("kind", 0, 3) {
        0 => {
            let (mut a, mut b) = (header(true), header(true));
            let v = V[nd::pick("protocol", 0, 3)];
            let hashes = a.versioned_hash(v) == b.versioned_hash(v);
            let blocks = Block::new(a.clone(), signature(), Default::default()).versioned_hash(v) == Block::new(b.clone(), signature(), Default::default()).versioned_hash(v);
            nd::check(blocks == hashes, "blocks have the hash of their headers");
            if v == ProtocolVersion::V1_7 {
                nd::cover("first protocol");
                for x in [&mut a, &mut b] {
                    x.merkle_roots.stake_hash_merkle_root = Hash::default();
                    x.merkle_roots.unstake_hash_merkle_root = Hash::default();
                }
            } else {
                nd::check((a.hash() == b.hash()) == hashes, "the hash of a header does not depend on the protocol");
            }
            (a == b, hashes)
        }
        1 => {
            let new = || SuperBlock::new(nd::u32("size"), hash("ars"), hash("requests"), nd::u32("index"), hash("last"), hash("previous"), hash("tallies"));
            let (a, b) = (new(), new());
            (a == b, a.hash() == b.hash())
        }
        2 => {
            let (a, b) = (data_request(), data_request());
            let v = V[nd::pick("protocol", 0, 3)];
            let hashes = a.hash() == b.hash();
            nd::check((a.versioned_hash(v) == b.versioned_hash(v)) == hashes, "the hash of a data request does not depend on the protocol");
            (a == b, hashes)
        }
        _ => {
            let new = || CheckpointBeacon { checkpoint: nd::u32("checkpoint"), hash_prev_block: hash("previous block") };
            let (a, b) = (new(), new());
            let (x, y) = (CheckpointVRF { checkpoint: a.checkpoint, hash_prev_vrf: a.hash_prev_block }, CheckpointVRF { checkpoint: b.checkpoint, hash_prev_vrf: b.hash_prev_block });
            let hashes = a.hash() == b.hash();
            nd::check((x.hash() == y.hash()) == hashes, "both kinds of beacons commit to their contents");
            (a == b, hashes)
        }
    };
    if equal {
        nd::cover("equal");
    } else {
        nd::cover("different");
    }
    nd::check(hashes == equal, "hashes are the same exactly when the contents are");
}
