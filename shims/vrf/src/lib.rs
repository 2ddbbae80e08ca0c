//! Stand-in for the vrf crate (OpenSSL is not available offline): an ideal verifiable random function. The proof for a
//! key and a message names both through a hash, it verifies for exactly these, and its output is a hash of it.
#[cfg(all(feature = "real", not(feature = "standin")))]
use sha2_real as sha2;
#[cfg(feature = "standin")]
use sha2_standin as sha2;
#[cfg(all(feature = "real", not(feature = "standin")))]
use secp_real as secp;
#[cfg(feature = "standin")]
use secp_standin as secp;

use sha2::{Digest, Sha256};

pub trait VRF<PrivateKey, PublicKey> {
    type Error;
    fn prove(&mut self, x: PrivateKey, alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&mut self, y: PublicKey, pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
}

pub mod openssl {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    #[allow(non_camel_case_types)]
    pub enum CipherSuite {
        P256_SHA256_TAI,
        K163_SHA256_TAI,
        SECP256K1_SHA256_TAI,
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        InvalidPiLength,
        InvalidProof,
        InvalidSecretKey,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("VRF error")
        }
    }
    impl std::error::Error for Error {}
    #[derive(Debug)]
    pub struct ECVRF;

    fn h(parts: &[&[u8]]) -> [u8; 32] {
        let mut s = Sha256::new();
        for p in parts {
            s.input(p);
        }
        let mut o = [0; 32];
        o.copy_from_slice(&s.result());
        o
    }
    fn pk(sk: &[u8]) -> Result<Vec<u8>, Error> {
        let sk = secp::SecretKey::from_slice(sk).map_err(|_| Error::InvalidSecretKey)?;
        Ok(secp::PublicKey::from_secret_key_global(&sk).serialize().to_vec())
    }
    fn proof(pk: &[u8], msg: &[u8]) -> Vec<u8> {
        let mut v = vec![3];
        v.extend_from_slice(&h(&[b"vrf proof", pk, msg]));
        v.resize(81, 0);
        v
    }
    impl ECVRF {
        pub fn from_suite(_s: CipherSuite) -> Result<Self, Error> {
            Ok(ECVRF)
        }
        pub fn derive_public_key(&mut self, sk: &[u8]) -> Result<Vec<u8>, Error> {
            pk(sk)
        }
        pub fn proof_to_hash(&mut self, pi: &[u8]) -> Result<Vec<u8>, Error> {
            if pi.len() != 81 {
                return Err(Error::InvalidPiLength);
            }
            Ok(h(&[b"vrf output", pi]).to_vec())
        }
    }
    impl VRF<&[u8], &[u8]> for ECVRF {
        type Error = Error;
        fn prove(&mut self, sk: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            Ok(proof(&pk(sk)?, alpha))
        }
        fn verify(&mut self, y: &[u8], pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            if pi != proof(y, alpha) {
                return Err(Error::InvalidProof);
            }
            self.proof_to_hash(pi)
        }
    }
}
