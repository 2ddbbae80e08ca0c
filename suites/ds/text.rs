//! Written forms: hashes, addresses, pointers, signatures and amounts.
use crate::util::*;
use witnet_crypto::signature::sign;
use witnet_data_structures::chain::*;
use witnet_data_structures::wit::Wit;

fn digit(v: u8) -> u8 {
    v + if v < 10 { b'0' } else { b'a' - 10 }
}
fn number(s: &[u8]) -> Option<u32> {
    let mut n = 0u64;
    for c in s {
        if !c.is_ascii_digit() {
            return None;
        }
        n = n * 10 + (c - b'0') as u64;
    }
    if s.is_empty() { None } else { u32::try_from(n).ok() }
}

//@ prop D08
//@ cover pointer, hash, address
//@ bounds hashes, addresses and keys of distinct bytes of which any one of three positions is arbitrary; output indices 0, 7, 10 and the largest
//@ shards 2
#[unsafe(no_mangle)]
pub fn h_text_hex() {
    let b = nd::u8("byte");
    let at = [0, 7, 31][nd::pick("position", 0, 2)];
    let mut raw = [0; 32];
    for i in 0..32 {
        raw[i] = (i * 37 + 5) as u8;
    }
    raw[at] = b;
    let hash = Hash::SHA256(raw);
    let s = hash.to_string();
    let t = s.as_bytes();
    nd::check(t.len() == 64, "a hash is written with 64 digits");
    for i in 0..32 {
        nd::check(
            t[2 * i] == digit(raw[i] >> 4) && t[2 * i + 1] == digit(raw[i] & 15),
            "a hash is written as the lower case hexadecimal digits of its bytes, in order",
        );
    }
    nd::check(s.parse::<Hash>().ok() == Some(hash), "the written form of a hash is read as that hash");
    nd::cover("hash");
    nd::check(s[1..].parse::<Hash>().is_err() && s[2..].parse::<Hash>().is_err(), "a hash that lost digits is refused");
    nd::check(format!("{s}00").parse::<Hash>().is_err(), "a hash with more digits is refused");
    let p = OutputPointer { transaction_id: hash, output_index: [0, 7, 10, u32::MAX][nd::pick("index", 0, 3)] };
    let w = p.to_string();
    nd::check(w.parse::<OutputPointer>().ok() == Some(p), "the written form of an output pointer is read as that pointer");
    nd::check(format!(" {w}\n").parse::<OutputPointer>().ok() == Some(p), "white space around an output pointer is ignored");
    nd::cover("pointer");
    if let Ok(a) = PublicKeyHash::from_bytes(&raw[..20]) {
        nd::cover("address");
        nd::check(a.as_ref() == &raw[..20], "an address has the bytes it was made of");
        let x = a.to_hex();
        nd::check(x == s[..40], "an address in hexadecimal has the digits of its bytes");
        nd::check(PublicKeyHash::from_hex(&x).ok() == Some(a), "an address in hexadecimal is read as that address");
        nd::check(PublicKeyHash::from_hex(&x[2..]).is_err() && PublicKeyHash::from_hex(&s).is_err(), "other lengths are no address");
    } else {
        nd::check(false, "any 20 bytes are an address");
    }
    nd::check(
        PublicKeyHash::from_bytes(&raw[..19]).is_err() && PublicKeyHash::from_bytes(&raw[..21]).is_err(),
        "other lengths are no address",
    );
    let mut key = [2; 33];
    key[1..].copy_from_slice(&raw);
    key[0] = nd::u8("sign");
    let k = PublicKey::from_bytes(key);
    nd::check(k.to_bytes() == key, "a public key is restored from its bytes");
    nd::check(PublicKey::try_from_slice(&key[..32]).is_err() && PublicKey::try_from_slice(&[key[0]; 34]).is_err(), "other lengths are no public key");
}

fn prefix(e: Environment) -> &'static str {
    if e == Environment::Mainnet { "wit1" } else { "twit1" }
}

//@ prop D08
//@ cover same network, other network
//@ bounds addresses of 20 bytes of which any one of three positions (and its neighbour) is arbitrary; all pairs of environments; one character replaced by any ASCII character
//@ assume bech32's alphabet and checksum are replaced (shims/bech32-11)
//@ shards 3
#[unsafe(no_mangle)]
pub fn h_text_address() {
    const ENV: [Environment; 3] = [Environment::Mainnet, Environment::Testnet, Environment::Development];
    let mut raw = [0; 20];
    for i in 0..20 {
        raw[i] = (i * 53 + 7) as u8;
    }
    let at = [0, 9, 18][nd::pick("position", 0, 2)];
    raw[at] = nd::u8("byte");
    raw[at + 1] = nd::u8("next");
    let a = PublicKeyHash::from_bytes(&raw).unwrap();
    let (e, f) = (ENV[nd::pick("from", 0, 2)], ENV[nd::pick("to", 0, 2)]);
    let s = a.bech32(e);
    nd::check(s.starts_with(prefix(e)), "an address names its network");
    nd::check(s.len() == prefix(e).len() + 32 + 6, "an address has 32 characters of data and 6 of checksum");
    let back = PublicKeyHash::from_bech32(f, &s);
    if prefix(e) == prefix(f) {
        nd::cover("same network");
        nd::check(back.ok() == Some(a), "the written form of an address is read as that address");
    } else {
        nd::cover("other network");
        nd::check(back.is_err(), "addresses of another network are refused");
    }
    nd::check(a.to_string() == a.bech32(Environment::Mainnet), "addresses are shown for the network the node runs in");
    nd::check(a.to_string().parse::<PublicKeyHash>().ok() == Some(a), "addresses that were shown are read");
}

//@ prop D08
//@ cover pointer, no pointer, no hash
//@ bounds any text of up to 3 characters, alone and after a hash and a colon
//@ assume characters below U+0100 (and any first character below U+0800)
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_text_any() {
    let n = nd::pick("length", 0, 3);
    let s = nd::text("text", n, false);
    nd::check(s.parse::<Hash>().is_err(), "a text of other length is no hash");
    nd::check(PublicKeyHash::from_hex(&s).is_err(), "a text of other length is no address");
    nd::check(PublicKeyHash::from_bech32(Environment::Mainnet, &s).is_err(), "a text of other length is no address");
    nd::check(s.parse::<PublicKey>().is_err(), "a text of other length is no public key");
    nd::check(s.parse::<OutputPointer>().is_err(), "a text without hash is no pointer");
    nd::cover("no hash");
    let raw = [0xab; 32];
    let r = format!("{}:{s}", "ab".repeat(32)).parse::<OutputPointer>();
    match number(s.as_bytes()) {
        Some(i) => {
            nd::cover("pointer");
            nd::check(r.ok() == Some(OutputPointer { transaction_id: Hash::SHA256(raw), output_index: i }), "a hash, a colon and a number point to that output");
        }
        None if s.is_empty() || s.bytes().any(|c| c.is_ascii_alphabetic() || c == b'-' || c == b'.') && !s.contains(':') => {
            nd::cover("no pointer");
            nd::check(r.is_err(), "a pointer without number is refused");
        }
        None => (),
    }
}

//@ prop D08
//@ cover restored, refused
//@ bounds signatures of 0, 1, 2, 33, 64, 65 and 66 bytes, of which the first two and the last are arbitrary
#[unsafe(no_mangle)]
pub fn h_text_signature() {
    let msg = [9; 32];
    let key = sk(0);
    let signature = KeyedSignature { signature: sign(key, &msg).unwrap().into(), public_key: pk(0) };
    let r = signature.clone().to_recoverable_bytes(&msg).unwrap();
    let hexed: String = r.iter().map(|b| format!("{b:02x}")).collect();
    let back = KeyedSignature::from_recoverable_hex(&hexed, &msg);
    nd::check(back.ok() == Some(signature), "a signature written with the recovery of its key is read as that signature by that key");
    nd::cover("restored");
    let n = [0, 1, 2, 33, 64, 65, 66][nd::pick("length", 0, 6)];
    let mut raw = vec![1; n];
    if n > 0 {
        raw[n - 1] = nd::u8("last");
        raw[0] = nd::u8("first");
    }
    if n > 1 {
        raw[1] = nd::u8("second");
    }
    let read = KeyedSignature::from_recoverable_slice(&raw, &msg);
    if n != 65 || raw[0] > 3 {
        nd::cover("refused");
        nd::check(read.is_err(), "bytes that are no signature are refused");
    }
    nd::check(KeyedSignature::from_recoverable_slice(&r, &msg[1..]).is_err(), "what is signed is 32 bytes");
    nd::check(KeyedSignature::from_recoverable_hex("0", &msg).is_err(), "half a byte is refused");
    nd::check(KeyedSignature::from_recoverable_hex("", &msg).is_err(), "an empty text is no signature");
}

//@ prop D08
//@ cover amount
//@ bounds amounts of 0, 1, 42 and the most possible wits, and any fraction below 1000 nanowits or any multiple of a million
//@ shards 2
#[unsafe(no_mangle)]
pub fn h_text_amount() {
    let wits = [0u64, 1, 42, 18446744072][nd::pick("wits", 0, 3)];
    let low = nd::range("fraction", 0, 999);
    let nanos = if nd::bool("coarse") { low * 1_000_000 } else { low };
    let w = Wit::from_nanowits(wits * 1_000_000_000 + nanos);
    nd::check(w.wits_and_nanowits() == (wits, nanos), "an amount is whole wits and nanowits");
    nd::check(w.nanowits() == wits * 1_000_000_000 + nanos, "an amount keeps its nanowits");
    let s = w.to_string();
    let (whole, rest) = s.split_at(s.len() - 10);
    nd::check(whole == ["0", "1", "42", "18446744072"][[0u64, 1, 42, 18446744072].iter().position(|x| *x == wits).unwrap()], "an amount starts with the whole wits");
    let rest = rest.as_bytes();
    nd::check(rest[0] == b'.', "a point separates wits from the fraction");
    let mut n = 0;
    for c in &rest[1..] {
        nd::check(c.is_ascii_digit(), "the fraction consists of digits");
        n = n * 10 + (c - b'0') as u64;
    }
    nd::check(n == nanos, "the nine digits after the point are the nanowits");
    nd::cover("amount");
}
