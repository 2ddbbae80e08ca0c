//! Stand-in for ring in the encoding: the derived key is a fixed function of algorithm, iteration
//! count, salt and password (see the sha2 stand-in).
pub mod pbkdf2 {
    use sha2::Digest;
    use std::num::NonZeroU32;
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct Algorithm(u8);
    pub static PBKDF2_HMAC_SHA1: Algorithm = Algorithm(1);
    pub static PBKDF2_HMAC_SHA256: Algorithm = Algorithm(2);
    pub static PBKDF2_HMAC_SHA384: Algorithm = Algorithm(3);
    pub static PBKDF2_HMAC_SHA512: Algorithm = Algorithm(4);
    pub fn derive(a: Algorithm, iterations: NonZeroU32, salt: &[u8], secret: &[u8], out: &mut [u8]) {
        for (i, chunk) in out.chunks_mut(32).enumerate() {
            let mut h = sha2::Sha256::default();
            digest(&mut h, &[a.0, i as u8, salt.len() as u8, secret.len() as u8]);
            digest(&mut h, &iterations.get().to_be_bytes());
            digest(&mut h, salt);
            digest(&mut h, secret);
            let r = h.result();
            chunk.copy_from_slice(&r[..chunk.len()]);
        }
    }
    fn digest(h: &mut sha2::Sha256, b: &[u8]) {
        Digest::input(h, b)
    }
}
