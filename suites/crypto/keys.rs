use hmac::{Hmac, Mac};
use secp256k1::{PublicKey, Scalar, SecretKey};
use witnet_crypto::key::*;
use witnet_crypto::{cipher, mnemonic, pbkdf2, signature};
use witnet_protected::{Protected, ProtectedString};

fn key32(n: &'static str) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..4 {
        b[i * 8..i * 8 + 8].copy_from_slice(&nd::u64(n).to_be_bytes());
    }
    b
}
const HARD: u32 = 0x8000_0000;

fn sk() -> SecretKey {
    let b = key32("secret");
    match SecretKey::from_slice(&b) {
        Ok(k) => k,
        Err(_) => {
            nd::assume(false);
            unreachable!()
        }
    }
}
fn xsk() -> (SecretKey, [u8; 32], ExtendedSK) {
    let (s, c) = (sk(), key32("chain code"));
    (s, c, ExtendedSK::new(s, Protected::from(c.to_vec())))
}
fn path_of(n: usize) -> (Vec<u32>, KeyPath) {
    let v: Vec<u32> = (0..n).map(|_| nd::u32("path index")).collect();
    (v.clone(), KeyPath::from(v))
}

//@ prop K01
//@ bounds every secret key and chain code, paths of 0..=3 arbitrary indexes (quick), 0..=12 and 47, 48, 63, 64, 255, 256 (thorough)
//@ cover round trip
#[unsafe(no_mangle)]
pub fn h_slip32_roundtrip() {
    let n = if cfg!(feature = "thorough") {
        match nd::pick("depth", 0, 18) {
            13 => 47,
            14 => 48,
            15 => 63,
            16 => 64,
            17 => 255,
            18 => 256,
            k => k,
        }
    } else {
        match nd::pick("depth", 0, 5) {
            4 => 48,
            5 => 256,
            k => k,
        }
    };
    let (s, c, x) = xsk();
    let (v, p) = path_of(n);
    match x.to_slip32(&p) {
        Err(_) => nd::check(n > 255, "every key with a path of at most 255 levels can be exported"),
        Ok(t) => {
            nd::check(n <= 255, "a path of more than 255 levels cannot be exported");
            let (h, d) = bech32::decode(&t).unwrap();
            nd::check(h == "xprv", "an exported private key starts with xprv");
            let b: Vec<u8> = bech32::FromBase32::from_base32(&d).unwrap();
            nd::check(b.len() == 66 + 4 * n, "an exported key has depth, path, chain code and key");
            if b.len() == 66 + 4 * n {
                nd::check(b[0] as usize == n, "an exported key names its depth");
                let mut ok = true;
                for (i, k) in v.iter().enumerate() {
                    ok &= b[1 + 4 * i..5 + 4 * i] == k.to_be_bytes();
                }
                nd::check(ok, "an exported key has its path in big-endian order");
                nd::check(b[1 + 4 * n..33 + 4 * n] == c, "an exported key has its chain code");
                nd::check(b[33 + 4 * n] == 0 && b[34 + 4 * n..] == s[..], "an exported key has a zero byte and its secret");
            }
            match ExtendedSK::from_slip32(&t) {
                Err(_) => nd::check(false, "an exported key can be imported"),
                Ok((y, q)) => {
                    nd::cover("round trip");
                    nd::check(y == x && q == p, "importing an exported key gives the same key and path");
                    nd::check(y.secret_key == s && y.chain_code().as_ref() == c, "an imported key has the exported secret and chain code");
                }
            }
        }
    }
}

//@ prop K02
//@ bounds payloads of 0..=75 arbitrary bytes (every length), prefix xprv or another one
//@ cover accepted, bad length, bad prefix byte, bad secret, foreign
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_slip32_import() {
    use bech32::ToBase32;
    let n = nd::pick("length", 0, 75);
    let mut b: Vec<u8> = vec![];
    for _ in 0..n {
        b.push(nd::u8("byte"));
    }
    let hrp = ["xprv", "xpub", "x"][nd::pick("prefix", 0, 2)];
    let t = bech32::encode(hrp, b.to_base32()).unwrap();
    let r = ExtendedSK::from_slip32(&t);
    if hrp != "xprv" {
        nd::cover("foreign");
        nd::check(r.is_err(), "only private keys are imported");
        return;
    }
    if n == 0 || n != 66 + 4 * b[0] as usize {
        nd::cover("bad length");
        nd::check(r.is_err(), "a payload whose length does not match its depth is refused");
        return;
    }
    let d = b[0] as usize;
    let z = b[33 + 4 * d];
    let s = SecretKey::from_slice(&b[34 + 4 * d..]);
    match r {
        Err(_) => {
            nd::check(z != 0 || s.is_err(), "a well-formed payload is imported");
            if z != 0 {
                nd::cover("bad prefix byte");
            } else {
                nd::cover("bad secret");
            }
        }
        Ok((x, p)) => {
            nd::cover("accepted");
            nd::check(z == 0, "the byte before the secret must be zero");
            nd::check(s.is_ok() && x.secret_key == s.unwrap(), "the imported secret is the one in the payload");
            nd::check(x.chain_code().as_ref() == &b[1 + 4 * d..33 + 4 * d], "the imported chain code is the one in the payload");
            let got: Vec<u32> = p.iter().map(|i| *i.as_ref()).collect();
            let want: Vec<u32> = (0..d).map(|i| u32::from_be_bytes([b[1 + 4 * i], b[2 + 4 * i], b[3 + 4 * i], b[4 + 4 * i]])).collect();
            nd::check(got == want, "the imported path is the one in the payload");
        }
    }
}

//@ prop K02
//@ bounds strings of 0..=12 arbitrary bytes with a fixed separator or none
#[unsafe(no_mangle)]
pub fn h_slip32_text() {
    let n = nd::pick("length", 0, 12);
    let mut s = String::new();
    for _ in 0..n {
        s.push(nd::range("character", 33, 126) as u8 as char);
    }
    nd::check(ExtendedSK::from_slip32(&s).is_err(), "a short text is not a key");
}

/// BIP32, private parent to private child.
fn ckd(s: &SecretKey, c: &[u8; 32], i: u32) -> Result<(SecretKey, [u8; 32]), ()> {
    let mut m = Hmac::<sha2::Sha512>::new_varkey(c).unwrap();
    if i >= HARD {
        m.input(&[0]);
        m.input(&s[..]);
    } else {
        m.input(&PublicKey::from_secret_key_global(s).serialize());
    }
    m.input(&i.to_be_bytes());
    let o = m.result().code();
    let il = SecretKey::from_slice(&o[..32]).map_err(|_| ())?;
    let k = il.add_tweak(&Scalar::from_be_bytes(s.secret_bytes()).map_err(|_| ())?).map_err(|_| ())?;
    let mut cc = [0; 32];
    cc.copy_from_slice(&o[32..]);
    Ok((k, cc))
}

//@ prop K03
//@ bounds every parent key, chain code and 32-bit index; one derivation step
//@ cover hardened, normal
#[unsafe(no_mangle)]
pub fn h_bip32_child() {
    let (s, c, x) = xsk();
    let i = nd::u32("index");
    let p = KeyPath::from(vec![i]);
    let idx = p.iter().next().unwrap();
    nd::check(idx.is_hardened() == (i >= HARD), "an index is hardened from 2^31 on");
    if idx.is_hardened() {
        nd::cover("hardened");
    } else {
        nd::cover("normal");
    }
    match (x.child(idx), ckd(&s, &c, i)) {
        (Ok(y), Ok((k, cc))) => {
            nd::check(y.secret_key == k, "a child key is the BIP32 child key");
            nd::check(y.chain_code().as_ref() == cc, "a child chain code is the BIP32 child chain code");
            nd::check(y == x.derive(&p).unwrap(), "derive with one index is the child");
        }
        (Err(_), Err(_)) => {}
        _ => nd::check(false, "a child key fails to exist exactly when BIP32 says so"),
    }
}

//@ prop K03
//@ bounds every parent key and chain code; paths of 0..=2 (quick) or 0..=4 (thorough) indexes, each either hardened or not with arbitrary low bits
//@ cover derived
//@ secs 200
#[unsafe(no_mangle)]
pub fn h_bip32_derive() {
    let (s, c, x) = xsk();
    let n = nd::pick("levels", 0, if cfg!(feature = "thorough") { 4 } else { 2 });
    let mut p = KeyPath::default();
    let mut v = vec![];
    for _ in 0..n {
        let i = nd::range("path index", 0, (HARD - 1) as u64) as u32;
        if nd::pick("hardened", 0, 1) == 1 {
            p = p.hardened(i);
            v.push(i + HARD);
        } else {
            p = p.index(i);
            v.push(i);
        }
    }
    nd::check(p == KeyPath::from(v.clone()), "a path built step by step has these indexes");
    nd::check(p.depth() == n && p.is_master() == (n == 0), "the depth of a path is its number of indexes");
    let (mut k, mut cc) = (s, c);
    let mut ok = true;
    for i in &v {
        match ckd(&k, &cc, *i) {
            Ok((a, b)) => {
                k = a;
                cc = b;
            }
            Err(()) => {
                ok = false;
                break;
            }
        }
    }
    match x.derive(&p) {
        Ok(y) => {
            nd::cover("derived");
            nd::check(ok && y.secret_key == k && y.chain_code().as_ref() == cc, "derivation applies the indexes of the path in order");
            let pk = ExtendedPK::from_secret_key(&y);
            nd::check(pk.key == PublicKey::from_secret_key_global(&k) && pk.chain_code.as_ref() == cc, "the extended public key belongs to the extended secret key");
        }
        Err(_) => nd::check(!ok, "derivation fails only when a step fails"),
    }
    nd::check(x.secret().as_ref() == &s[..] && x.chain_code().as_ref() == c, "deriving does not change the parent");
    let both = x.concat();
    nd::check(both.len() == 64 && both[..32] == s[..] && both[32..] == c, "concat is the secret followed by the chain code");
}

//@ prop K03
//@ bounds every u32 index through hardened(), index() and Display
//@ cover overflow, shown
#[unsafe(no_mangle)]
pub fn h_key_path() {
    let i = nd::u32("index");
    let hard = nd::pick("hardened", 0, 1) == 1;
    if i >= HARD {
        nd::cover("overflow");
        nd::may_panic(true);
        let p = if hard { KeyPath::default().hardened(i) } else { KeyPath::default().index(i) };
        nd::may_panic(false);
        nd::check(p.depth() > 1000, "an index that does not fit is never turned into another one");
        return;
    }
    let p = if hard { KeyPath::default().hardened(i) } else { KeyPath::default().index(i) };
    let x = p.iter().next().unwrap();
    nd::check(x.is_hardened() == hard, "an index is hardened exactly when it was added as such");
    nd::check(*x.as_ref() == if hard { i + HARD } else { i }, "an index keeps its number");
    nd::assume(i < 1000);
    let t = format!("{p}");
    nd::cover("shown");
    let b = t.as_bytes();
    let digits = if i >= 100 { 3 } else if i >= 10 { 2 } else { 1 };
    nd::check(b.len() == 2 + digits + hard as usize && b[0] == b'm' && b[1] == b'/', "a path is shown as m/index, with ' when hardened");
    if b.len() == 2 + digits + hard as usize {
        let mut v = 0u32;
        for c in &b[2..2 + digits] {
            v = v * 10 + (*c - b'0') as u32;
        }
        nd::check(v == i && (!hard || b[b.len() - 1] == b'\''), "a path shows the number of its index");
    }
}

//@ prop K04
//@ bounds seeds of 0..=66 arbitrary bytes (every length), HMAC keys of 0..=3 bytes or the default one
//@ cover generated, refused
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_master_key() {
    let n = nd::pick("seed length", 0, 66);
    let seed: Vec<u8> = (0..n).map(|_| nd::u8("seed")).collect();
    let k = nd::pick("key length", 0, 4);
    let key: Vec<u8> = if k == 4 { b"Bitcoin seed".to_vec() } else { (0..k).map(|_| nd::u8("key")).collect() };
    // generate() documents a panic when the hash is not a valid secret (probability < 2^-127)
    let g = MasterKeyGen::new(&seed[..]);
    let g = if k == 4 { g } else { g.with_key(&key) };
    if !(16..=64).contains(&n) {
        nd::check(matches!(g.generate(), Err(MasterKeyGenError::InvalidSeedLength)), "a seed outside 16..=64 bytes is refused");
        nd::cover("refused");
        return;
    }
    let mut m = Hmac::<sha2::Sha512>::new_varkey(&key).unwrap();
    m.input(&seed);
    let o = m.result().code();
    let want = SecretKey::from_slice(&o[..32]);
    nd::assume(want.is_ok());
    match g.generate() {
        Ok(x) => {
            nd::cover("generated");
            nd::check(x.secret_key == want.unwrap(), "the master secret is the left half of the HMAC of the seed");
            nd::check(x.chain_code().as_ref() == &o[32..], "the master chain code is the right half of the HMAC of the seed");
        }
        Err(_) => nd::check(false, "a seed of 16..=64 bytes gives a master key"),
    }
}

//@ prop K05
//@ bounds every key pair and 32-byte digest, every other digest and key; digests of every other length up to 40 bytes
//@ cover signed, other key, wrong length
#[unsafe(no_mangle)]
pub fn h_sign_verify() {
    let s = sk();
    let n = nd::pick("digest length", 0, 40);
    if n != 32 {
        let d = vec![nd::u8("digest"); n];
        nd::check(signature::sign(s, &d).is_err(), "only 32-byte digests are signed");
        let good = signature::sign(s, &[7; 32]).unwrap();
        nd::check(signature::verify(&PublicKey::from_secret_key_global(&s), &d, &good).is_err(), "only 32-byte digests are verified");
        nd::cover("wrong length");
        return;
    }
    let d = key32("digest");
    let pk = PublicKey::from_secret_key_global(&s);
    match signature::sign(s, &d) {
        Err(_) => nd::check(false, "a 32-byte digest can be signed"),
        Ok(g) => {
            nd::cover("signed");
            nd::check(signature::verify(&pk, &d, &g).is_ok(), "a signature verifies for its key and digest");
            let e = key32("other digest");
            if e != d {
                nd::check(signature::verify(&pk, &e, &g).is_err(), "a signature verifies for no other digest");
            }
            let s2 = sk();
            if s2 != s {
                nd::cover("other key");
                let pk2 = PublicKey::from_secret_key_global(&s2);
                nd::check(signature::verify(&pk2, &d, &g).is_err(), "a signature verifies for no other key");
            }
        }
    }
}

use aes::cipher::generic_array::GenericArray;
use aes::{BlockEncrypt, NewBlockCipher};

//@ prop K06
//@ bounds every key and IV, plaintexts of 0..=33 arbitrary bytes (every length)
//@ cover encrypted
#[unsafe(no_mangle)]
pub fn h_cipher_roundtrip() {
    let k = key32("key");
    let iv: [u8; 16] = nd::bytes("iv");
    let n = nd::pick("length", 0, 33);
    let p: Vec<u8> = (0..n).map(|_| nd::u8("plaintext")).collect();
    let c = match cipher::encrypt_aes_cbc(&k, &p, &iv) {
        Ok(c) => c,
        Err(_) => {
            nd::check(false, "encryption with a 32-byte key and a 16-byte IV succeeds");
            return;
        }
    };
    nd::cover("encrypted");
    // reference: PKCS7 then CBC
    let a = aes::Aes256::new(GenericArray::from_slice(&k));
    let mut q = p.clone();
    let pad = 16 - n % 16;
    q.extend(std::iter::repeat(pad as u8).take(pad));
    let mut prev = iv;
    for ch in q.chunks_mut(16) {
        for (x, y) in ch.iter_mut().zip(prev.iter()) {
            *x ^= *y;
        }
        let mut b = GenericArray::clone_from_slice(ch);
        a.encrypt_block(&mut b);
        ch.copy_from_slice(&b);
        prev.copy_from_slice(&b);
    }
    nd::check(c == q, "the ciphertext is AES-256-CBC of the padded plaintext");
    match cipher::decrypt_aes_cbc(&k, &c, &iv) {
        Ok(d) => nd::check(d == p, "decryption gives back the plaintext"),
        Err(_) => nd::check(false, "a ciphertext can be decrypted"),
    }
}

//@ prop K06
//@ bounds keys of 0..=40 bytes and IVs of 0..=20 bytes (every length), ciphertexts of 0..=33 arbitrary bytes
//@ cover bad key, bad iv, bad ciphertext, decrypted
#[unsafe(no_mangle)]
pub fn h_cipher_lengths() {
    let (kl, il, n) = match nd::pick("what", 0, 2) {
        0 => (nd::pick("key length", 0, 40), 16, 16),
        1 => (32, nd::pick("iv length", 0, 20), 16),
        _ => (32, 16, nd::pick("length", 0, 33)),
    };
    let k: Vec<u8> = vec![nd::u8("key"); kl];
    let iv: Vec<u8> = (0..il).map(|_| nd::u8("iv")).collect();
    let c: Vec<u8> = (0..n).map(|_| nd::u8("ciphertext")).collect();
    let r = cipher::decrypt_aes_cbc(&k, &c, &iv);
    let e = cipher::encrypt_aes_cbc(&k, &c, &iv);
    nd::check(e.is_ok() == (kl == 32 && il == 16), "encryption needs a 32-byte key and a 16-byte IV");
    if kl != 32 {
        nd::cover("bad key");
        nd::check(r.is_err(), "a key that is not 32 bytes is refused");
    } else if il != 16 {
        nd::cover("bad iv");
        nd::check(r.is_err(), "an IV that is not 16 bytes is refused");
    } else if n % 16 != 0 || n == 0 {
        nd::cover("bad ciphertext");
        nd::check(r.is_err(), "a ciphertext that is not whole blocks is refused");
    } else if let Ok(p) = r {
        nd::cover("decrypted");
        nd::check(p.len() < n, "decryption removes the padding");
    }
}

//@ prop K06
//@ bounds sizes 0..=20, arbitrary random source (including one that fails)
//@ cover random
#[unsafe(no_mangle)]
pub fn h_random() {
    let n = nd::pick("size", 0, 20);
    if let Ok(v) = cipher::generate_random(n) {
        nd::cover("random");
        nd::check(v.len() == n, "as many random bytes as requested");
        // (by chance alone this fails once in 2^32 windows)
        let zeros = v.windows(4).any(|w| nd::same(w, &[0; 4]));
        nd::check(!zeros, "every byte comes from the random source");
    }
}

//@ prop K07
//@ bounds passwords and salts of 0..=3 (quick) arbitrary bytes, every non-zero iteration count
#[unsafe(no_mangle)]
pub fn h_pbkdf2() {
    let n = nd::pick("password length", 0, 3);
    let m = nd::pick("salt length", 0, 3);
    let p: Vec<u8> = (0..n).map(|_| nd::u8("password")).collect();
    let s: Vec<u8> = (0..m).map(|_| nd::u8("salt")).collect();
    let c = nd::u32("iterations");
    nd::assume(c != 0);
    if cfg!(not(feature = "sym")) {
        nd::assume(c < 5000);
    }
    let got = pbkdf2::pbkdf2_sha256(&p, &s, c);
    let mut want = [0u8; 32];
    ring::pbkdf2::derive(ring::pbkdf2::PBKDF2_HMAC_SHA256, std::num::NonZeroU32::new(c).unwrap(), &s, &p, &mut want);
    nd::check(got.as_ref() == want, "the derived key is PBKDF2-HMAC-SHA256 of password, salt and iterations");
}

//@ prop K07
//@ bounds every mnemonic length, arbitrary entropy, passphrases of 0..=2 characters (any ASCII and some wider ones)
//@ cover words
#[unsafe(no_mangle)]
pub fn h_mnemonic() {
    use mnemonic::*;
    let (len, len2, words) = match nd::pick("words", 0, 4) {
        0 => (Length::Words12, Length::Words12, 12),
        1 => (Length::Words15, Length::Words15, 15),
        2 => (Length::Words18, Length::Words18, 18),
        3 => (Length::Words21, Length::Words21, 21),
        _ => (Length::Words24, Length::Words24, 24),
    };
    let m = Mnemonic::build().with_len(len).with_lang(Lang::English).generate();
    nd::check(m.words().split(' ').count() == words, "a mnemonic has as many words as requested");
    nd::cover("words");
    let other = Mnemonic::build().with_len(len2).generate();
    nd::check(!nd::same(other.words().as_bytes(), m.words().as_bytes()), "two generated mnemonics have independent entropy");
    let n = nd::pick("passphrase length", 0, 2);
    let pass = nd::text("character", n, true);
    let p: ProtectedString = pass.as_str().into();
    let seed = m.seed(&p);
    nd::check(seed.as_bytes().len() == 64, "a seed has 64 bytes");
    nd::check(m.seed_ref(&pass).as_bytes() == seed.as_bytes(), "both ways to give a passphrase agree");
    let reference = bip39::Mnemonic::from_phrase(m.words(), bip39::Language::English).unwrap();
    nd::check(seed.as_bytes() == bip39::Seed::new(&reference, &pass).as_bytes(), "the seed is the BIP39 seed of the words and the whole passphrase");
    nd::check(AsRef::<[u8]>::as_ref(&seed) == seed.as_bytes(), "a seed is its bytes");
    for k in 0..4 {
        let ph = m.words();
        let n = match k {
            0 => Mnemonic::from_phrase(ph.into()),
            1 => Mnemonic::from_phrase_ref(ph),
            2 => Mnemonic::from_phrase_lang(ph.into(), Lang::English),
            _ => Mnemonic::from_phrase_lang_ref(ph, Lang::English),
        };
        match n {
            Ok(n) => {
                nd::check(n.words() == m.words(), "a phrase reads back as itself");
                nd::check(n.seed(&p).as_bytes() == seed.as_bytes(), "a phrase gives the same seed when it is read back");
            }
            Err(_) => nd::check(false, "a generated phrase can be read back"),
        }
    }
}
