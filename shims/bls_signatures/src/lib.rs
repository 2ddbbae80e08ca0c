//! Stand-in for witnet-bls-signatures (not available offline). A compressed public key is 65 bytes that start with 0x0a
//! or 0x0b; the uncompressed form is an injective image of it; a signature is the ideal one: it names the key and the
//! message.
pub mod bn256 {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("bn256 error")
        }
    }
    impl std::error::Error for Error {}
    pub struct Bn256;
    pub struct PublicKey(Vec<u8>);
    pub struct PrivateKey;
    impl PublicKey {
        pub fn from_compressed(b: &[u8]) -> Result<Self, Error> {
            if b.len() == 65 && (b[0] == 0x0a || b[0] == 0x0b) {
                Ok(PublicKey(b.to_vec()))
            } else {
                Err(Error)
            }
        }
        pub fn to_uncompressed(&self) -> Result<Vec<u8>, Error> {
            let mut v = self.0[1..].to_vec();
            v.resize(127, 0);
            v.push(self.0[0]);
            Ok(v)
        }
    }
    impl PrivateKey {
        pub fn new(b: &[u8]) -> Result<Self, Error> {
            if b.len() == 32 { Ok(PrivateKey) } else { Err(Error) }
        }
    }
    fn derive(sk: &[u8]) -> Vec<u8> {
        let mut v = vec![0x0a];
        v.extend_from_slice(sk);
        v.resize(65, 0);
        v
    }
    impl crate::MultiSignature for Bn256 {
        fn derive_public_key(&self, sk: &[u8]) -> Result<Vec<u8>, Error> {
            PrivateKey::new(sk)?;
            Ok(derive(sk))
        }
        fn sign(&self, sk: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
            PrivateKey::new(sk)?;
            let mut v = derive(sk);
            v.extend_from_slice(msg);
            Ok(v)
        }
    }
}
pub trait MultiSignature {
    fn derive_public_key(&self, sk: &[u8]) -> Result<Vec<u8>, bn256::Error>;
    fn sign(&self, sk: &[u8], msg: &[u8]) -> Result<Vec<u8>, bn256::Error>;
}
