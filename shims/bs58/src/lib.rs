//! Stand-in for bs58 (Bitcoin alphabet).
const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub mod decode {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Error {
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                Error::InvalidCharacter { character, index } => write!(f, "provided string contained invalid character {character:?} at byte {index}"),
                Error::NonAsciiCharacter { index } => write!(f, "provided string contained non-ascii character starting at byte {index}"),
            }
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = core::result::Result<T, Error>;
}
pub struct EncodeBuilder(Vec<u8>);
pub fn encode<I: AsRef<[u8]>>(i: I) -> EncodeBuilder {
    EncodeBuilder(i.as_ref().to_vec())
}
impl EncodeBuilder {
    pub fn into_string(self) -> String {
        let mut d: Vec<u8> = vec![];
        for b in &self.0 {
            let mut c = *b as u32;
            for x in d.iter_mut() {
                c += (*x as u32) << 8;
                *x = (c % 58) as u8;
                c /= 58;
            }
            while c > 0 {
                d.push((c % 58) as u8);
                c /= 58;
            }
        }
        let mut s = String::new();
        for _ in self.0.iter().take_while(|b| **b == 0) {
            s.push('1');
        }
        for x in d.iter().rev() {
            s.push(A[*x as usize] as char);
        }
        s
    }
}
pub struct DecodeBuilder(Vec<u8>);
pub fn decode<I: AsRef<[u8]>>(i: I) -> DecodeBuilder {
    DecodeBuilder(i.as_ref().to_vec())
}
impl DecodeBuilder {
    pub fn into_vec(self) -> decode::Result<Vec<u8>> {
        let mut d: Vec<u8> = vec![];
        for (i, ch) in self.0.iter().enumerate() {
            if *ch > 127 {
                return Err(decode::Error::NonAsciiCharacter { index: i });
            }
            let mut c = A.iter().position(|a| a == ch).ok_or(decode::Error::InvalidCharacter { character: *ch as char, index: i })? as u32;
            for x in d.iter_mut() {
                c += *x as u32 * 58;
                *x = c as u8;
                c >>= 8;
            }
            while c > 0 {
                d.push(c as u8);
                c >>= 8;
            }
        }
        d.extend(self.0.iter().take_while(|c| **c == b'1').map(|_| 0));
        d.reverse();
        Ok(d)
    }
}
