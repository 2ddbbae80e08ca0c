//! Votes on superblocks, the committee that may vote, and proofs against superblocks.
use crate::util::*;
use witnet_crypto::hash::Sha256;
use witnet_crypto::merkle::{InclusionProof, merkle_tree_root};
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::superblock::*;
use witnet_data_structures::transaction::{DRTransaction, DRTransactionBody, TallyTransaction};

/// A vote of `who` for `hash` at `index`; votes that differ in `variant` differ in nothing that counts.
fn vote(who: usize, hash: Hash, index: u32, variant: u8) -> SuperBlockVote {
    let mut v = SuperBlockVote::new_unsigned(hash, index);
    v.bn256_signature = Bn256Signature { signature: vec![variant; 2] };
    v.secp256k1_signature = some_signature(who);
    v
}
#[derive(Clone, Copy)]
struct Member {
    /// the superblock the member voted for, if any
    vote: Option<usize>,
    out: bool,
}
fn tally_of(m: &[Member], hash: usize) -> usize {
    m.iter().filter(|m| !m.out && m.vote == Some(hash)).count()
}
fn enough(votes: usize, of: usize) -> bool {
    votes >= of * 2 / 3
}
fn agree(s: &SuperBlockState, m: &[Member], size: usize, hashes: &[Hash]) {
    let counts: Vec<usize> = (0..hashes.len()).map(|i| tally_of(m, i)).collect();
    let good: usize = counts.iter().sum();
    let out = m.iter().filter(|m| m.out).count();
    nd::check(s.valid_votes_counter() == good, "each member of the committee counts once, and not at all after voting twice");
    for (i, hash) in hashes.iter().enumerate() {
        nd::check(s.votes_counter_from_superblock(hash) == counts[i], "a superblock has the votes cast for it");
    }
    let all = s.get_current_superblock_votes();
    nd::check(all.len() == good, "the votes that count are the ones cast");
    let best = *counts.iter().max().unwrap();
    match s.most_voted_superblock() {
        Some((hash, n)) => {
            nd::check(n == best && hashes.iter().position(|x| *x == hash).is_some_and(|i| counts[i] == n), "the most voted superblock has the most votes")
        }
        None => nd::check(good == 0, "some superblock is the most voted one as soon as there are votes"),
    }
    let r = s.has_consensus();
    if good == 0 {
        nd::check(r == SuperBlockConsensus::Unknown, "without votes nothing is known");
        return;
    }
    let winners: Vec<usize> = (0..hashes.len()).filter(|i| counts[*i] > 0 && enough(counts[*i], size)).collect();
    let missing = size - good - out;
    match r {
        SuperBlockConsensus::SameAsLocal => nd::check(winners.contains(&0), "two thirds of the committee voted for the local superblock"),
        SuperBlockConsensus::Different(hash) => {
            nd::check(winners.iter().any(|i| *i != 0 && hashes[*i] == hash), "two thirds of the committee voted for the other superblock");
        }
        SuperBlockConsensus::Unknown => {
            nd::check(winners.is_empty() && enough(best + missing, size), "nothing is known while the missing votes can decide");
        }
        SuperBlockConsensus::NoConsensus => {
            nd::check(winners.is_empty() && !enough(best + missing, size), "there is no consensus once the missing votes cannot decide");
        }
    }
}

//@ prop D03
//@ cover double vote, same vote again, consensus on the local superblock, consensus on another superblock, no consensus, outsider, kept for later
//@ bounds a committee of 3 to 5 of which three members and one outsider send 4 votes out of 9: for either of two superblocks, at the index of the superblock, the one before or the one after, in either of two encodings
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_superblock_votes() {
    let index = 5u32;
    // the local superblock is the first one
    let sb = SuperBlock::new(100, h(3), h(3), index, h(3), h(3), h(3));
    let local = sb.hash();
    let hashes = [local, h(2)];
    let who: Vec<PublicKeyHash> = (0..6).map(pkh).collect();
    let votes: Vec<Vec<Vec<Vec<SuperBlockVote>>>> = [0, 1, 2, 5]
        .into_iter()
        .map(|w| hashes.iter().map(|x| (4..7).map(|i| (0..2).map(|v| vote(w, *x, i, v)).collect()).collect()).collect())
        .collect();
    let size = nd::pick("size", 3, 5);
    let mut s = SuperBlockState::new(h(7), who[..size].to_vec());
    let sb = SuperBlock::new(100, h(3), h(3), index, h(3), h(3), h(3));
    let ars = ARSIdentities::new(who[..size].to_vec());
    s.build_superblock(&[], ars, 100, index, h(3), &AltKeys::default(), Some(sb), 1_000_000);
    nd::check(s.get_beacon() == CheckpointBeacon { checkpoint: index, hash_prev_block: local }, "the beacon is the superblock just built");
    nd::check(s.get_committee_length() as usize == size, "a small set of identities votes as a whole");

    let mut m = [Member { vote: None, out: false }; 3];
    let mut seen = [[[[false; 2]; 3]; 2]; 4];
    for _ in 0..4 {
        let (w, x, i, v) = [(0, 0, 1, 0), (0, 1, 1, 0), (0, 0, 1, 1), (1, 0, 1, 0), (1, 1, 1, 0), (2, 1, 1, 0), (3, 0, 1, 0), (0, 0, 2, 0), (1, 0, 0, 0)]
            [nd::pick("vote", 0, 8)];
        let r = s.add_vote(&votes[w][x][i][v], index);
        let again = std::mem::replace(&mut seen[w][x][i][v], true);
        let expected = if again {
            AddSuperBlockVote::AlreadySeen
        } else if i == 2 {
            nd::cover("kept for later");
            AddSuperBlockVote::MaybeValid
        } else if i == 0 {
            AddSuperBlockVote::InvalidIndex
        } else if w == 3 {
            nd::cover("outsider");
            AddSuperBlockVote::NotInSigningCommittee
        } else if m[w].out || m[w].vote.is_some_and(|y| y != x) {
            nd::cover("double vote");
            m[w].out = true;
            AddSuperBlockVote::DoubleVote
        } else {
            if m[w].vote.is_some() {
                nd::cover("same vote again");
            }
            m[w].vote = Some(x);
            if x == 0 { AddSuperBlockVote::ValidWithSameHash } else { AddSuperBlockVote::ValidButDifferentHash }
        };
        nd::check(r == expected, "a vote is judged by its index, its voter, and what the voter said before");
        nd::check(s.contains(&votes[w][x][i][v]), "a vote that was seen is remembered");
    }
    agree(&s, &m, size, &hashes);
    match s.has_consensus() {
        SuperBlockConsensus::SameAsLocal => nd::cover("consensus on the local superblock"),
        SuperBlockConsensus::Different(_) => nd::cover("consensus on another superblock"),
        SuperBlockConsensus::NoConsensus => nd::cover("no consensus"),
        SuperBlockConsensus::Unknown => (),
    }
}

//@ prop D03
//@ cover counted, double vote, outsider, not in the new committee
//@ bounds up to 3 votes received one superblock early, out of 7 by two members and an outsider; the set of identities changes in between
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_superblock_early_votes() {
    let index = 5u32;
    let at = |i: u32| SuperBlock::new(100, h(3), h(3), i, h(3), h(3), h(3));
    let hashes = [at(index + 1).hash(), h(2)];
    let who: Vec<PublicKeyHash> = (0..6).map(pkh).collect();
    // by whom, for what, encoding
    let all = [(0, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 0), (1, 1, 0), (4, 0, 0), (5, 1, 0)];
    let votes: Vec<SuperBlockVote> = all.iter().map(|(w, x, v)| vote(*w, hashes[*x], index + 1, *v)).collect();
    let n = nd::pick("votes", 0, 3);
    let mut s = SuperBlockState::new(h(7), vec![who[4]]);
    let next = ARSIdentities::new(who[..3].to_vec());
    s.build_superblock(&[], next.clone(), 100, index, h(3), &AltKeys::default(), Some(at(index)), 1_000_000);
    nd::check(s.get_committee_length() == 1, "the committee is taken from the identities known one superblock before");
    let mut m = [Member { vote: None, out: false }; 3];
    let mut seen = [false; 7];
    for _ in 0..n {
        let c = nd::pick("vote", 0, 6);
        let (w, x, _) = all[c];
        let r = s.add_vote(&votes[c], index);
        let again = std::mem::replace(&mut seen[c], true);
        nd::check(r == if again { AddSuperBlockVote::AlreadySeen } else { AddSuperBlockVote::MaybeValid }, "a vote for the next superblock waits");
        nd::check(s.valid_votes_counter() == 0, "a vote for the next superblock does not count yet");
        if w < 3 {
            nd::cover("counted");
            if m[w].vote.is_some_and(|y| y != x) {
                nd::cover("double vote");
                m[w].out = true;
            }
            m[w].vote = Some(x);
        } else if w == 4 {
            nd::cover("not in the new committee");
        } else {
            nd::cover("outsider");
        }
    }
    nd::arbitrary_hash_order(true);
    s.build_superblock(&[], next, 100, index + 1, h(3), &AltKeys::default(), Some(at(index + 1)), 1_000_000);
    nd::arbitrary_hash_order(false);
    nd::check(s.get_committee_length() == 3, "the next committee is taken from the identities given with this superblock");
    agree(&s, &m, 3, &hashes);
}

//@ prop D03
//@ cover reached, not reached
//@ bounds committees of up to 2^32 members
#[unsafe(no_mangle)]
pub fn h_superblock_threshold() {
    let size = nd::u32("size") as usize;
    let a = nd::u32("votes") as usize;
    let b = nd::u32("others") as usize;
    nd::assume(size >= 1 && a + b <= size);
    let reached = two_thirds_consensus(a, size);
    nd::check(two_thirds_consensus(size, size), "a unanimous committee reaches consensus");
    nd::check(!reached || two_thirds_consensus(a + b, size), "more votes do not undo consensus");
    if size == 2 || size == 4 {
        nd::check(!(reached && a > 0 && b > 0 && two_thirds_consensus(b, size)), "two superblocks cannot both reach consensus in a committee of 2 or 4");
    } else if size != 1 {
        nd::check(!(reached && two_thirds_consensus(b, size)), "two superblocks cannot both reach consensus");
        nd::check(!reached || 2 * a > size, "consensus takes a majority");
    }
    if reached {
        nd::cover("reached");
        nd::check(3 * a + 2 >= 2 * size, "consensus takes two thirds of the committee");
    } else {
        nd::cover("not reached");
        nd::check(3 * a < 2 * size, "two thirds of the committee reach consensus");
    }
}

//@ prop D03
//@ cover everyone, a part, old rule, nobody
//@ bounds up to 5 identities and a committee of up to 6; any hash of the superblock
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_superblock_committee() {
    let who: Vec<PublicKeyHash> = (0..6).map(|i| PublicKeyHash::from_bytes(&[i + 1; 20]).unwrap()).collect();
    let n = nd::pick("identities", 0, 5);
    let size = nd::pick("size", 1, 6);
    let new = nd::pick("after the second hard fork", 0, 1) == 1;
    let seed = Hash::SHA256(nd::bytes::<32>("hash"));
    let index = nd::u32("index");
    let ars = ARSIdentities::new(who[..n].to_vec());
    let c = calculate_superblock_signing_committee(ars.clone(), size as u32, index, seed, if new { 1_000_000 } else { 0 });
    nd::check(c.len() == size.min(n), "the committee has the size asked for, or everyone is in it");
    nd::check(c.iter().all(|x| who[..n].contains(x)), "only known identities are in the committee");
    if n == 0 {
        nd::cover("nobody");
    } else if n < size {
        nd::cover("everyone");
    } else if new {
        nd::cover("a part");
        // the identities are split into as many stretches as there are seats
        let again = calculate_superblock_signing_committee(ars, size as u32, index, seed, 1_000_000);
        nd::check(again == c, "everyone finds the same committee");
    } else {
        nd::cover("old rule");
    }
}

/// Is `leaf` the leaf that the proof leads from to `root`?
fn leads(index: usize, lemma: &[Hash], leaf: Hash, root: Hash) -> bool {
    let lemma = lemma.iter().map(|x| match *x { Hash::SHA256(x) => Sha256(x) }).collect();
    InclusionProof::sha256(index, lemma).verify(leaf.into(), root.into())
}
fn root(hashes: &[Hash]) -> Hash {
    Hash::from(merkle_tree_root(&hashes.iter().map(|x| match *x { Hash::SHA256(x) => Sha256(x) }).collect::<Vec<_>>()))
}

//@ prop D15
//@ cover data request, tally, first of two, missing
//@ bounds one to three blocks with up to two data requests or tallies each; the reward or result in question has any value
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_superblock_proof() {
    let tallies = nd::pick("kind", 0, 1) == 1;
    let blocks_n = nd::pick("blocks", 1, 3);
    let mut blocks = vec![];
    let v = ProtocolVersion::default();
    let pickb = nd::pick("which block", 0, blocks_n - 1);
    let mut which = None;
    for b in 0..blocks_n {
        let mut block = Block::new(BlockHeader::default(), KeyedSignature::default(), BlockTransactions::default());
        let n = nd::pick("transactions", 0, 2);
        if b == pickb && n > 0 {
            which = Some(nd::pick("which transaction", 0, n - 1));
            if which == Some(0) && n == 2 {
                nd::cover("first of two");
            }
        }
        for i in 0..n {
            let id = (2 * b + i) as u8;
            let it = b == pickb && which == Some(i);
            if tallies {
                let result = if it { nd::bytes::<2>("result").to_vec() } else { vec![1, 2] };
                block.txns.tally_txns.push(TallyTransaction::new(h(id), result, vec![], vec![], vec![]));
            } else {
                let o = request(1 + id as u16, 1, 1, if it { nd::u64("reward") } else { 5 });
                block.txns.data_request_txns.push(DRTransaction::new(DRTransactionBody::new(vec![], o, vec![]), vec![]));
            }
        }
        block.block_header.beacon.checkpoint = b as u32;
        block.block_header.merkle_roots.dr_hash_merkle_root = root(&block.txns.data_request_txns.iter().map(|x| x.versioned_hash(v)).collect::<Vec<_>>());
        block.block_header.merkle_roots.tally_hash_merkle_root = root(&block.txns.tally_txns.iter().map(|x| x.versioned_hash(v)).collect::<Vec<_>>());
        blocks.push(block);
    }
    // what the superblock says about the tree
    let dr_root = hash_merkle_tree_root(&blocks.iter().map(|b| b.block_header.merkle_roots.dr_hash_merkle_root).collect::<Vec<_>>());
    let tally_root = hash_merkle_tree_root(&blocks.iter().map(|b| b.block_header.merkle_roots.tally_hash_merkle_root).collect::<Vec<_>>());
    let sb = SuperBlock::new(4, h(1), dr_root, 3, h(2), h(2), tally_root);
    let Some(which) = which else {
        nd::cover("missing");
        let t = TallyTransaction::new(h(99), vec![], vec![], vec![], vec![]);
        nd::check(sb.tally_proof_of_inclusion(&blocks, &t, v).is_none(), "there is no proof for a tally that is not there");
        let t = DRTransaction::new(DRTransactionBody::new(vec![], request(99, 1, 1, 1), vec![]), vec![]);
        nd::check(sb.dr_proof_of_inclusion(&blocks, &t).is_none(), "there is no proof for a request that is not there");
        return;
    };
    if !tallies {
        nd::cover("data request");
        let t = &blocks[pickb].txns.data_request_txns[which];
        match sb.dr_proof_of_inclusion(&blocks, t) {
            Some(p) => {
                nd::check(leads(p.index, &p.lemma, t.body.data_poi_hash(v), sb.data_request_root), "the proof of a data request leads to the superblock");
            }
            None => nd::check(false, "every data request of the superblock has a proof"),
        }
    } else {
        nd::cover("tally");
        let t = &blocks[pickb].txns.tally_txns[which];
        match sb.tally_proof_of_inclusion(&blocks, t, v) {
            Some(p) => {
                nd::check(leads(p.index, &p.lemma, t.data_poi_hash(), sb.tally_root), "the proof of a tally leads to the superblock");
            }
            None => nd::check(false, "every tally of the superblock has a proof"),
        }
    }
}

//@ prop D15
//@ cover blocks, nothing
//@ bounds up to 3 blocks, 3 keys
#[unsafe(no_mangle)]
pub fn h_superblock_contents() {
    let v = ProtocolVersion::default();
    let n = nd::pick("blocks", 0, 3);
    let keys = nd::pick("keys", 0, 3);
    let all: Vec<BlockHeader> = (0..3)
        .map(|i| {
            let mut x = BlockHeader::default();
            x.beacon.checkpoint = i;
            x.merkle_roots.dr_hash_merkle_root = h(10 + i as u8);
            x.merkle_roots.tally_hash_merkle_root = h(20 + i as u8);
            x
        })
        .collect();
    let headers = &all[..n];
    let leaves: Vec<Hash> = (0..keys).map(|i| h(30 + i as u8)).collect();
    let (index, size) = (nd::u32("index"), nd::u32("size"));
    let sb = mining_build_superblock(headers, &leaves, index, h(2), size, v);
    nd::check(sb.last_block_in_previous_superblock == h(2) && sb.index == index && sb.signing_committee_length == size, "a superblock says where it stands");
    nd::check(sb.ars_root == root(&leaves), "a superblock covers the keys of the identities");
    if n == 0 {
        nd::cover("nothing");
        nd::check(sb.last_block == h(2), "a superblock without blocks ends where the previous one did");
        nd::check(sb.data_request_root == Hash::default() && sb.tally_root == Hash::default(), "a superblock without blocks covers no transactions");
    } else {
        nd::cover("blocks");
        nd::check(sb.last_block == headers[n - 1].versioned_hash(v), "a superblock ends with its last block");
        nd::check(sb.data_request_root == root(&headers.iter().map(|x| x.merkle_roots.dr_hash_merkle_root).collect::<Vec<_>>()), "a superblock covers the data requests of its blocks");
        nd::check(sb.tally_root == root(&headers.iter().map(|x| x.merkle_roots.tally_hash_merkle_root).collect::<Vec<_>>()), "a superblock covers the tallies of its blocks");
    }
    let sb_hash = |sb: &SuperBlock| sb.clone().hash();
    let other = SuperBlock::new(sb.signing_committee_length, sb.ars_root, sb.data_request_root, sb.index, sb.last_block, sb.last_block_in_previous_superblock, sb.tally_root);
    nd::check(sb_hash(&sb) == sb_hash(&other), "the hash of a superblock depends on nothing but its contents");
}

//@ prop D15
//@ cover equal, different
//@ bounds superblocks that differ in the given fields, of any value
#[unsafe(no_mangle)]
pub fn h_superblock_hash() {
    let any = |n: &'static str| {
        let mut b = [9; 32];
        b[0] = nd::u8(n);
        b[31] = nd::u8(n);
        Hash::SHA256(b)
    };
    let make = || SuperBlock::new(nd::u32("size"), any("ars"), any("requests"), nd::u32("index"), any("last"), any("previous"), any("tallies"));
    let (a, b) = (make(), make());
    nd::no_collisions(true);
    let (x, y) = (a.hash(), b.hash());
    let same = a.signing_committee_length == b.signing_committee_length
        && a.ars_root == b.ars_root
        && a.data_request_root == b.data_request_root
        && a.index == b.index
        && a.last_block == b.last_block
        && a.last_block_in_previous_superblock == b.last_block_in_previous_superblock
        && a.tally_root == b.tally_root;
    nd::check(same == (x == y), "superblocks have the same hash exactly when they say the same");
    if same {
        nd::cover("equal");
    } else {
        nd::cover("different");
    }
}
