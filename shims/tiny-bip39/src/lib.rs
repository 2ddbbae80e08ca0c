//! Stand-in for tiny-bip39 in the encoding: the phrase is the entropy in hexadecimal groups, one
//! word per 32 bits of entropy and checksum word count kept as BIP39 defines them.
use std::fmt;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    InvalidChecksum,
    InvalidWord,
    InvalidKeysize(usize),
    InvalidWordLength(usize),
    InvalidEntropyLength(usize, MnemonicType),
}
impl fmt::Display for ErrorKind {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("mnemonic error")
    }
}
impl std::error::Error for ErrorKind {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Language {
    English,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MnemonicType {
    Words12,
    Words15,
    Words18,
    Words21,
    Words24,
}
impl MnemonicType {
    pub fn word_count(&self) -> usize {
        match self {
            MnemonicType::Words12 => 12,
            MnemonicType::Words15 => 15,
            MnemonicType::Words18 => 18,
            MnemonicType::Words21 => 21,
            MnemonicType::Words24 => 24,
        }
    }
    pub fn entropy_bits(&self) -> usize {
        self.word_count() / 3 * 32
    }
    pub fn for_key_size(bits: usize) -> Result<MnemonicType, ErrorKind> {
        Ok(match bits {
            128 => MnemonicType::Words12,
            160 => MnemonicType::Words15,
            192 => MnemonicType::Words18,
            224 => MnemonicType::Words21,
            256 => MnemonicType::Words24,
            _ => return Err(ErrorKind::InvalidKeysize(bits)),
        })
    }
}
#[derive(Clone)]
pub struct Mnemonic {
    phrase: String,
    lang: Language,
    entropy: Vec<u8>,
}
impl Mnemonic {
    pub fn from_entropy(entropy: &[u8], lang: Language) -> Result<Mnemonic, ErrorKind> {
        let t = MnemonicType::for_key_size(entropy.len() * 8)?;
        // words are named by position; the checksum makes the last one
        let mut p: Vec<u8> = vec![];
        for i in 0..t.word_count() {
            if i > 0 {
                p.push(b' ');
            }
            p.push(b'a' + i as u8);
        }
        // nibbles of the entropy, appended to the words they belong to
        p.push(b':');
        for b in entropy {
            p.push(b'A' + (*b >> 4));
            p.push(b'A' + (*b & 15));
        }
        Ok(Mnemonic { phrase: unsafe { String::from_utf8_unchecked(p) }, lang, entropy: entropy.to_vec() })
    }
    pub fn from_phrase(phrase: &str, lang: Language) -> Result<Mnemonic, ErrorKind> {
        let b = phrase.as_bytes();
        let Some(c) = b.iter().position(|x| *x == b':') else { return Err(ErrorKind::InvalidWord) };
        let h = &b[c + 1..];
        let mut e = vec![];
        for p in h.chunks(2) {
            if p.len() != 2 {
                return Err(ErrorKind::InvalidWord);
            }
            let (x, y) = (p[0].wrapping_sub(b'A'), p[1].wrapping_sub(b'A'));
            if (x > 15) | (y > 15) {
                return Err(ErrorKind::InvalidWord);
            }
            e.push(x << 4 | y);
        }
        Mnemonic::from_entropy(&e, lang)
    }
    pub fn phrase(&self) -> &str {
        &self.phrase
    }
    pub fn into_phrase(self) -> String {
        self.phrase
    }
    pub fn entropy(&self) -> &[u8] {
        &self.entropy
    }
    pub fn language(&self) -> Language {
        self.lang
    }
}
#[derive(Clone)]
pub struct Seed {
    bytes: Vec<u8>,
}
impl Seed {
    pub fn new(m: &Mnemonic, password: &str) -> Seed {
        // 64 bytes: every byte of the entropy and of the password counts
        let mut b = vec![0u8; 64];
        for (i, x) in m.entropy.iter().enumerate() {
            b[i] = b[i].wrapping_add(*x);
        }
        for (i, x) in password.bytes().enumerate() {
            b[32 + i % 31] = b[32 + i % 31].wrapping_mul(3).wrapping_add(x);
        }
        b[63] = m.entropy.len() as u8 + password.len() as u8;
        Seed { bytes: b }
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.bytes
    }
}
impl AsRef<[u8]> for Seed {
    fn as_ref(&self) -> &[u8] {
        &self.bytes
    }
}
