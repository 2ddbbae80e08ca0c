//! Crypto: merkle trees, extended keys, signatures, ciphers and key derivation against references
//! written from the specifications (RFC 6962-like tree shape, BIP32, SLIP32, CBC/PKCS7).
use witnet_crypto::hash::{EMPTY_SHA256, Sha256, calculate_sha256};
use witnet_crypto::merkle::*;

mod keys;
pub use keys::*;

fn leaf() -> Sha256 {
    let mut b = [0; 32];
    for i in 0..4 {
        b[i * 8..i * 8 + 8].copy_from_slice(&nd::u64("leaf").to_le_bytes());
    }
    Sha256(b)
}
fn cat(a: Sha256, b: Sha256) -> Sha256 {
    let mut x = [0u8; 64];
    x[..32].copy_from_slice(&a.0);
    x[32..].copy_from_slice(&b.0);
    calculate_sha256(&x)
}
/// Reference: the left subtree is the largest complete one that leaves something on the right.
fn tree<T: Copy>(h: fn(T, T) -> T, l: &[T]) -> T {
    if l.len() == 1 {
        return l[0];
    }
    let mut k = 1;
    while k * 2 < l.len() {
        k *= 2;
    }
    h(tree(h, &l[..k]), tree(h, &l[k..]))
}
fn depth_of(n: usize, i: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let mut k = 1;
    while k * 2 < n {
        k *= 2;
    }
    if i < k { 1 + depth_of(k, i) } else { 1 + depth_of(n - k, i - k) }
}

//@ prop M01
//@ bounds every number of leaves up to 34 (quick) or 70 (thorough), all 256-bit leaf values
//@ cover many leaves
#[unsafe(no_mangle)]
pub fn h_merkle_roots() {
    let max = if cfg!(feature = "thorough") { 70 } else { 34 };
    let n = nd::pick("leaves", 0, max);
    let l: Vec<Sha256> = (0..n).map(|_| leaf()).collect();
    let mut p = ProgressiveMerkleTree::sha256();
    nd::check(p.root() == EMPTY_SHA256, "the root of no leaves is the hash of nothing");
    for (i, x) in l.iter().enumerate() {
        p.push(*x);
        nd::check(p.root() == tree(cat, &l[..=i]), "the progressive root after every push is the root of the leaves pushed");
    }
    let want = if n == 0 { EMPTY_SHA256 } else { tree(cat, &l) };
    nd::check(merkle_tree_root(&l) == want, "merkle_tree_root is the root of the tree");
    nd::check(FullMerkleTree::sha256(l.clone()).root() == want, "the full tree has the same root");
    nd::check(n < 2 || sha256_concat(l[0], l[1]) == cat(l[0], l[1]), "an inner node is the hash of left then right");
    if n > 8 {
        nd::cover("many leaves");
    }
}

fn mix(a: u64, b: u64) -> u64 {
    a.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(b.wrapping_mul(0x2545_F491_4F6C_DD1D)).wrapping_add(0x1234_5677)
}
static NOTHING: u64 = 0xE3B0_C442;

//@ prop M01
//@ bounds every number of leaves up to 34 (quick) or 70 (thorough), all 64-bit leaf values, a generic pairing function
//@ cover big
#[unsafe(no_mangle)]
pub fn h_merkle_full_generic() {
    let max = if cfg!(feature = "thorough") { 70 } else { 34 };
    let n = nd::pick("leaves", 0, max);
    let l: Vec<u64> = (0..n).map(|_| nd::u64("leaf")).collect();
    let t = FullMerkleTree::new(l.clone(), mix, &NOTHING);
    let want = if n == 0 { NOTHING } else { tree(mix, &l) };
    nd::check(t.root() == want, "the full tree has the root of its leaves");
    if n > 0 {
        nd::check(t.nodes()[0] == l, "the lowest layer is the leaves");
        if n > 10 {
            nd::cover("big");
        }
    }
}

//@ prop M02
//@ bounds every number of leaves up to 20 (quick) or 40 (thorough), every index (including all those out of range), all leaf values
//@ cover proof, out of range, promoted leaf
#[unsafe(no_mangle)]
pub fn h_merkle_proofs() {
    let max = if cfg!(feature = "thorough") { 40 } else { 20 };
    let n = nd::pick("leaves", 0, max);
    let l: Vec<u64> = (0..n).map(|_| nd::u64("leaf")).collect();
    let t = FullMerkleTree::new(l.clone(), mix, &NOTHING);
    let i = nd::pick("index", 0, n);
    if i == n {
        let j = nd::u64("far index");
        nd::assume(j >= n as u64);
        nd::check(t.inclusion_proof(j as usize).is_none(), "there is no proof for an index beyond the leaves");
        nd::cover("out of range");
        return;
    }
    match t.inclusion_proof(i) {
        None => nd::check(false, "there is a proof for every leaf"),
        Some(p) => {
            nd::cover("proof");
            nd::check(p.verify(l[i], t.root()), "the proof of a leaf verifies against the root");
            nd::check(p.root(l[i]) == t.root(), "the proof of a leaf computes the root");
            nd::check(p.lemma().len() == depth_of(n, i), "the proof has one node per level the leaf is paired at");
            if p.lemma().len() < depth_of(n, 0) {
                nd::cover("promoted leaf");
            }
            // the exported proof is the same proof
            let q = InclusionProof::new(p.proof_index(), p.lemma().to_vec(), mix);
            nd::check(q.verify(l[i], t.root()), "a proof rebuilt from index and lemma verifies");
            nd::check(p.proof_index() >> p.lemma().len() == 0, "the proof index has one bit per node of the lemma");
            // and it proves nothing but that leaf
            let e = nd::u64("element");
            nd::check(p.verify(e, t.root()) == (e == l[i]), "the proof of a leaf verifies for no other element");
            let r = nd::u64("root");
            nd::check(p.verify(l[i], r) == (r == t.root()), "the proof of a leaf verifies against no other root");
        }
    }
}

//@ prop M02
//@ bounds lemmas of up to 5 (quick) or 8 (thorough) nodes, every index, all values
//@ cover deep
#[unsafe(no_mangle)]
pub fn h_merkle_path() {
    let max = if cfg!(feature = "thorough") { 8 } else { 5 };
    let n = nd::pick("nodes", 0, max);
    let lemma: Vec<u64> = (0..n).map(|_| nd::u64("node")).collect();
    let index = nd::u64("index");
    let e = nd::u64("element");
    let mut want = e;
    for (k, x) in lemma.iter().enumerate() {
        want = if (index >> k) & 1 == 1 { mix(*x, want) } else { mix(want, *x) };
    }
    let p = InclusionProof::new(index as usize, lemma.clone(), mix);
    nd::check(p.root(e) == want, "bit k of the index says on which side node k goes");
    let r = nd::u64("root");
    nd::check(p.verify(e, r) == (r == want), "a proof verifies exactly against the root it computes");
    nd::check(p.proof_index() == index as usize && p.lemma() == &lemma[..], "a proof gives back its index and lemma");
    if n == max {
        nd::cover("deep");
    }
}

//@ prop M02
//@ bounds lemmas of up to 2 nodes over SHA-256 nodes
#[unsafe(no_mangle)]
pub fn h_merkle_sha_path() {
    let n = nd::pick("nodes", 0, 2);
    let lemma: Vec<Sha256> = (0..n).map(|_| leaf()).collect();
    let index = nd::pick("index", 0, 3);
    let e = leaf();
    let mut want = e;
    for (k, x) in lemma.iter().enumerate() {
        want = if (index >> k) & 1 == 1 { cat(*x, want) } else { cat(want, *x) };
    }
    nd::check(InclusionProof::sha256(index, lemma).root(e) == want, "a SHA-256 proof hashes left then right at each level");
}
