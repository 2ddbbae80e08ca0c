//! Stand-in for bech32 in the encoding: same 8-to-5 bit regrouping and the same errors for wrong
//! padding, but each 5-bit group is written as one byte of '@'..'_' and the checksum is six '@'.
use std::fmt;

#[derive(PartialEq, Eq, Debug, Copy, Clone, Default, PartialOrd, Ord, Hash)]
#[allow(non_camel_case_types)]
pub struct u5(u8);
impl u5 {
    pub fn try_from_u8(v: u8) -> Result<u5, Error> {
        if v > 31 { Err(Error::InvalidData(v)) } else { Ok(u5(v)) }
    }
    pub fn to_u8(self) -> u8 {
        self.0
    }
}
impl From<u5> for u8 {
    fn from(x: u5) -> u8 {
        x.0
    }
}
impl AsRef<u8> for u5 {
    fn as_ref(&self) -> &u8 {
        &self.0
    }
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Error {
    MissingSeparator,
    InvalidChecksum,
    InvalidLength,
    InvalidChar(char),
    InvalidData(u8),
    InvalidPadding,
    MixedCase,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("bech32 error")
    }
}
impl std::error::Error for Error {}

pub trait FromBase32: Sized {
    type Err;
    fn from_base32(b: &[u5]) -> Result<Self, Self::Err>;
}
impl FromBase32 for Vec<u8> {
    type Err = Error;
    fn from_base32(b: &[u5]) -> Result<Self, Error> {
        let (mut acc, mut bits) = (0u32, 0u32);
        let mut r = Vec::with_capacity(b.len() * 5 / 8 + 1);
        for v in b {
            acc = ((acc << 5) | v.0 as u32) & 0xffff;
            bits += 5;
            if bits >= 8 {
                bits -= 8;
                r.push((acc >> bits) as u8);
            }
        }
        if bits >= 5 || ((acc << (8 - bits)) & 0xff) != 0 {
            return Err(Error::InvalidPadding);
        }
        Ok(r)
    }
}
pub trait ToBase32 {
    fn to_base32(&self) -> Vec<u5>;
}
impl<T: AsRef<[u8]>> ToBase32 for T {
    fn to_base32(&self) -> Vec<u5> {
        let d = self.as_ref();
        let (mut acc, mut bits) = (0u32, 0u32);
        let mut r = Vec::with_capacity(d.len() * 8 / 5 + 1);
        for v in d {
            acc = ((acc << 8) | *v as u32) & 0xffff;
            bits += 8;
            while bits >= 5 {
                bits -= 5;
                r.push(u5(((acc >> bits) & 31) as u8));
            }
        }
        if bits > 0 {
            r.push(u5(((acc << (5 - bits)) & 31) as u8));
        }
        r
    }
}
pub fn encode<T: AsRef<[u5]>>(hrp: &str, data: T) -> Result<String, Error> {
    if hrp.is_empty() || hrp.len() > 83 {
        return Err(Error::InvalidLength);
    }
    let mut s: Vec<u8> = hrp.bytes().collect();
    s.push(b'1');
    for v in data.as_ref() {
        s.push(v.0 + 64);
    }
    s.extend_from_slice(b"@@@@@@");
    Ok(unsafe { String::from_utf8_unchecked(s) })
}
pub fn decode(s: &str) -> Result<(String, Vec<u5>), Error> {
    let b = s.as_bytes();
    let mut sep = None;
    for i in 0..b.len() {
        if b[i] == b'1' {
            sep = Some(i);
            break;
        }
    }
    let Some(p) = sep else { return Err(Error::MissingSeparator) };
    if p == 0 || b.len() - p - 1 < 6 {
        return Err(Error::InvalidLength);
    }
    let (data, sum) = b[p + 1..].split_at(b.len() - p - 7);
    let mut r = Vec::with_capacity(data.len());
    let mut bad = false;
    for c in data {
        let v = c.wrapping_sub(64);
        bad |= v > 31;
        r.push(u5(v & 31));
    }
    if bad {
        return Err(Error::InvalidChar('?'));
    }
    if sum != b"@@@@@@" {
        return Err(Error::InvalidChecksum);
    }
    Ok((s[..p].to_string(), r))
}
