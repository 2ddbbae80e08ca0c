//! Stand-in for the C library behind secp256k1 in the encoding.
//! Secret keys are 1 ..= n-1 as in reality, their sum is taken word by word; a public key is an
//! injective image of the secret key; a signature is the ideal one: it names the message and the
//! public key, and verifies for these only.
use std::fmt;

#[derive(Copy, Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Error {
    IncorrectSignature,
    InvalidMessage,
    InvalidPublicKey,
    InvalidSignature,
    InvalidSecretKey,
    InvalidSharedSecret,
    InvalidRecoveryId,
    InvalidTweak,
    NotEnoughMemory,
    InvalidPublicKeySum,
    InvalidParityValue(i32),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Error::InvalidSecretKey => "malformed or out-of-range secret key",
            Error::InvalidTweak => "bad tweak",
            Error::InvalidMessage => "message was not 32 bytes (do you need to hash?)",
            _ => "secp256k1 error",
        })
    }
}
impl std::error::Error for Error {}

pub mod constants {
    pub const MESSAGE_SIZE: usize = 32;
    pub const SECRET_KEY_SIZE: usize = 32;
    pub const PUBLIC_KEY_SIZE: usize = 33;
    pub const UNCOMPRESSED_PUBLIC_KEY_SIZE: usize = 65;
    pub const CURVE_ORDER: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41,
        0x41,
    ];
}
const NH: u128 = 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_fffe;
const NL: u128 = 0xbaae_dce6_af48_a03b_bfd2_5e8c_d036_4141;

fn split(b: &[u8; 32]) -> (u128, u128) {
    let (mut h, mut l) = ([0; 16], [0; 16]);
    h.copy_from_slice(&b[..16]);
    l.copy_from_slice(&b[16..]);
    (u128::from_be_bytes(h), u128::from_be_bytes(l))
}
fn join(h: u128, l: u128) -> [u8; 32] {
    let mut b = [0; 32];
    b[..16].copy_from_slice(&h.to_be_bytes());
    b[16..].copy_from_slice(&l.to_be_bytes());
    b
}
fn below_order(h: u128, l: u128) -> bool {
    (h < NH) | ((h == NH) & (l < NL))
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SecretKey([u8; 32]);
impl fmt::Debug for SecretKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SecretKey(#)")
    }
}
impl SecretKey {
    pub fn from_slice(data: &[u8]) -> Result<SecretKey, Error> {
        if data.len() != 32 {
            return Err(Error::InvalidSecretKey);
        }
        let mut b = [0; 32];
        b.copy_from_slice(data);
        let (h, l) = split(&b);
        if below_order(h, l) & ((h | l) != 0) {
            Ok(SecretKey(b))
        } else {
            Err(Error::InvalidSecretKey)
        }
    }
    pub fn secret_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn add_tweak(self, t: &Scalar) -> Result<SecretKey, Error> {
        // word by word: which scalars are added matters here, the carries do not
        let mut r = [0; 32];
        let mut any = 0;
        for i in 0..4 {
            let (mut a, mut b) = ([0; 8], [0; 8]);
            a.copy_from_slice(&self.0[i * 8..i * 8 + 8]);
            b.copy_from_slice(&t.0[i * 8..i * 8 + 8]);
            let w = u64::from_be_bytes(a).wrapping_add(u64::from_be_bytes(b));
            any |= w;
            r[i * 8..i * 8 + 8].copy_from_slice(&w.to_be_bytes());
        }
        if any == 0 { Err(Error::InvalidTweak) } else { Ok(SecretKey(r)) }
    }
    pub fn public_key<C>(&self, _: &Secp256k1<C>) -> PublicKey {
        PublicKey::from_secret_key_global(self)
    }
    pub fn sign_ecdsa(&self, m: Message) -> ecdsa::Signature {
        ecdsa::Signature { m: m.0, p: PublicKey::from_secret_key_global(self).0 }
    }
}
impl std::ops::Index<std::ops::RangeFull> for SecretKey {
    type Output = [u8];
    fn index(&self, _: std::ops::RangeFull) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8; 32]> for SecretKey {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Scalar([u8; 32]);
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct OutOfRangeError;
impl fmt::Display for OutOfRangeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("the value is not a member of the field")
    }
}
impl std::error::Error for OutOfRangeError {}
impl Scalar {
    pub fn from_be_bytes(b: [u8; 32]) -> Result<Scalar, OutOfRangeError> {
        let (h, l) = split(&b);
        if below_order(h, l) { Ok(Scalar(b)) } else { Err(OutOfRangeError) }
    }
    pub fn to_be_bytes(self) -> [u8; 32] {
        self.0
    }
}
impl From<SecretKey> for Scalar {
    fn from(s: SecretKey) -> Scalar {
        Scalar(s.0)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct PublicKey([u8; 33]);
impl PublicKey {
    pub fn from_secret_key_global(sk: &SecretKey) -> PublicKey {
        let mut b = [2; 33];
        for i in 0..32 {
            b[32 - i] = sk.0[i].wrapping_add(7);
        }
        PublicKey(b)
    }
    pub fn from_secret_key<C>(_: &Secp256k1<C>, sk: &SecretKey) -> PublicKey {
        PublicKey::from_secret_key_global(sk)
    }
    pub fn from_slice(data: &[u8]) -> Result<PublicKey, Error> {
        if data.len() != 33 || (data[0] != 2 && data[0] != 3) {
            return Err(Error::InvalidPublicKey);
        }
        let mut b = [0; 33];
        b.copy_from_slice(data);
        Ok(PublicKey(b))
    }
    pub fn serialize(&self) -> [u8; 33] {
        self.0
    }
    pub fn serialize_uncompressed(&self) -> [u8; 65] {
        let mut b = [0; 65];
        b[0] = 4;
        b[1..33].copy_from_slice(&self.0[1..]);
        b
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Message([u8; 32]);
impl Message {
    pub fn from_digest_slice(d: &[u8]) -> Result<Message, Error> {
        if d.len() != 32 {
            return Err(Error::InvalidMessage);
        }
        let mut b = [0; 32];
        b.copy_from_slice(d);
        Ok(Message(b))
    }
    pub fn from_slice(d: &[u8]) -> Result<Message, Error> {
        Self::from_digest_slice(d)
    }
    pub fn from_digest(d: [u8; 32]) -> Message {
        Message(d)
    }
}
impl AsRef<[u8; 32]> for Message {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}

pub mod ecdsa {
    use super::*;
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Signature {
        pub(crate) m: [u8; 32],
        pub(crate) p: [u8; 33],
    }
    impl Signature {
        pub fn verify(&self, m: &Message, p: &PublicKey) -> Result<(), Error> {
            if (self.m == m.0) & (self.p == p.0) { Ok(()) } else { Err(Error::IncorrectSignature) }
        }
        pub fn normalize_s(&mut self) {}
        pub fn serialize_compact(&self) -> [u8; 64] {
            let mut b = [0; 64];
            b[..32].copy_from_slice(&self.m);
            b[32..].copy_from_slice(&self.p[1..]);
            b
        }
        pub fn from_compact(d: &[u8]) -> Result<Signature, Error> {
            if d.len() != 64 {
                return Err(Error::InvalidSignature);
            }
            let (mut m, mut p) = ([0; 32], [2; 33]);
            m.copy_from_slice(&d[..32]);
            p[1..].copy_from_slice(&d[32..]);
            Ok(Signature { m, p })
        }
        pub fn serialize_der(&self) -> Vec<u8> {
            self.serialize_compact().to_vec()
        }
        pub fn from_der(d: &[u8]) -> Result<Signature, Error> {
            Self::from_compact(d)
        }
    }

    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct RecoveryId(i32);
    impl RecoveryId {
        pub fn from_i32(i: i32) -> Result<RecoveryId, Error> {
            if (0..4).contains(&i) { Ok(RecoveryId(i)) } else { Err(Error::InvalidRecoveryId) }
        }
        pub fn to_i32(self) -> i32 {
            self.0
        }
    }
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct RecoverableSignature(Signature, RecoveryId);
    impl RecoverableSignature {
        pub fn from_compact(d: &[u8], id: RecoveryId) -> Result<Self, Error> {
            Ok(RecoverableSignature(Signature::from_compact(d)?, id))
        }
        pub fn to_standard(&self) -> Signature {
            self.0
        }
        pub fn serialize_compact(&self) -> (RecoveryId, [u8; 64]) {
            (self.1, self.0.serialize_compact())
        }
        /// The signer for the signed message, some other key for any other message or id.
        pub fn recover(&self, m: &Message) -> Result<PublicKey, Error> {
            let mut p = self.0.p;
            p[0] = 2 + (self.1.0 & 1) as u8;
            for i in 0..32 {
                p[i + 1] ^= self.0.m[i] ^ m.0[i];
            }
            Ok(PublicKey(p))
        }
    }
}

pub struct All;
pub struct SignOnly;
pub struct VerifyOnly;
pub struct Secp256k1<C>(std::marker::PhantomData<C>);
impl Secp256k1<All> {
    pub fn new() -> Self {
        Secp256k1(std::marker::PhantomData)
    }
}
impl Secp256k1<SignOnly> {
    pub fn signing_only() -> Self {
        Secp256k1(std::marker::PhantomData)
    }
}
impl Secp256k1<VerifyOnly> {
    pub fn verification_only() -> Self {
        Secp256k1(std::marker::PhantomData)
    }
}
impl<C> Secp256k1<C> {
    pub fn sign_ecdsa(&self, m: &Message, sk: &SecretKey) -> ecdsa::Signature {
        sk.sign_ecdsa(*m)
    }
    pub fn verify_ecdsa(&self, m: &Message, s: &ecdsa::Signature, p: &PublicKey) -> Result<(), Error> {
        s.verify(m, p)
    }
}
pub static SECP256K1: &Secp256k1<All> = &Secp256k1(std::marker::PhantomData);
pub mod global {
    pub use super::SECP256K1;
}

#[cfg(feature = "serde")]
pub use serde;
#[cfg(feature = "serde")]
mod serde_impls {
    use super::*;
    macro_rules! s {
        ($t:ident, $f:ident) => {
            impl serde::Serialize for $t {
                fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.serialize_bytes(&self.0)
                }
            }
            impl<'de> serde::Deserialize<'de> for $t {
                fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                    let v: Vec<u8> = serde::Deserialize::deserialize(d)?;
                    $t::from_slice(&v).map_err(serde::de::Error::custom)
                }
            }
        };
    }
    s!(SecretKey, from_slice);
    s!(PublicKey, from_slice);
}
