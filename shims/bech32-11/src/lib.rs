//! Stand-in for bech32 0.11 (not available offline). Native builds compute the real encoding (BIP 173 and 350); with
//! the feature `standin` the regrouping into 5-bit groups is the same, but a group is written as one of '@'..'_' and
//! the checksum is six '@'.
use std::fmt;

#[derive(Clone, Copy, Debug)]
pub struct Hrp {
    buf: [u8; 83],
    len: usize,
}
impl Hrp {
    pub fn parse_unchecked(s: &str) -> Self {
        let mut buf = [0; 83];
        buf[..s.len()].copy_from_slice(s.as_bytes());
        Hrp { buf, len: s.len() }
    }
    pub fn as_str(&self) -> &str {
        std::str::from_utf8(&self.buf[..self.len]).unwrap()
    }
    fn lower(&self) -> Vec<u8> {
        self.buf[..self.len].iter().map(|b| b.to_ascii_lowercase()).collect()
    }
}
impl PartialEq for Hrp {
    fn eq(&self, o: &Self) -> bool {
        self.len == o.len && self.lower() == o.lower()
    }
}
impl Eq for Hrp {}
impl fmt::Display for Hrp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.as_str())
    }
}

pub trait Checksum {
    const RESIDUE: u32;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bech32 {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bech32m {}
impl Checksum for Bech32 {
    const RESIDUE: u32 = 1;
}
impl Checksum for Bech32m {
    const RESIDUE: u32 = 0x2bc8_30a3;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EncodeError {
    TooLong,
}
impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("encode error")
    }
}
impl std::error::Error for EncodeError {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DecodeError {
    Parse,
    Checksum,
}
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            DecodeError::Parse => "parsing failed",
            DecodeError::Checksum => "checksum failed",
        })
    }
}
impl std::error::Error for DecodeError {}

const CHARS: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

fn polymod(hrp: &[u8], data: &[u8], tail: usize) -> u32 {
    let mut c: u32 = 1;
    let mut step = |v: u8| {
        let b = c >> 25;
        c = ((c & 0x1ff_ffff) << 5) ^ v as u32;
        for (i, g) in [0x3b6a_57b2u32, 0x2650_8e6d, 0x1ea1_19fa, 0x3d42_33dd, 0x2a14_62b3].iter().enumerate() {
            if (b >> i) & 1 == 1 {
                c ^= g;
            }
        }
    };
    for h in hrp {
        step(h >> 5);
    }
    step(0);
    for h in hrp {
        step(h & 31);
    }
    for d in data {
        step(*d);
    }
    for _ in 0..tail {
        step(0);
    }
    c
}

fn to5(b: &[u8]) -> Vec<u8> {
    let (mut acc, mut bits) = (0u32, 0);
    let mut r = Vec::with_capacity(b.len() * 8 / 5 + 1);
    for v in b {
        acc = ((acc << 8) | *v as u32) & 0xfff;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            r.push(((acc >> bits) & 31) as u8);
        }
    }
    if bits > 0 {
        r.push(((acc << (5 - bits)) & 31) as u8);
    }
    r
}

/// Bits that do not fill a byte are dropped, as in rust-bech32.
fn to8(b: &[u8]) -> Vec<u8> {
    let (mut acc, mut bits) = (0u32, 0);
    let mut r = Vec::with_capacity(b.len() * 5 / 8 + 1);
    for v in b {
        acc = ((acc << 5) | *v as u32) & 0xfff;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            r.push((acc >> bits) as u8);
        }
    }
    r
}

pub fn encode<Ck: Checksum>(hrp: Hrp, data: &[u8]) -> Result<String, EncodeError> {
    let d = to5(data);
    let h = hrp.lower();
    if h.len() + 1 + d.len() + 6 > 1023 {
        return Err(EncodeError::TooLong);
    }
    let mut s = h.clone();
    s.push(b'1');
    if cfg!(feature = "standin") {
        s.extend(d.iter().map(|x| b'@' + x));
        s.extend_from_slice(b"@@@@@@");
    } else {
        s.extend(d.iter().map(|x| CHARS[*x as usize]));
        let p = polymod(&h, &d, 6) ^ Ck::RESIDUE;
        for i in 0..6 {
            s.push(CHARS[((p >> (5 * (5 - i))) & 31) as usize]);
        }
    }
    Ok(unsafe { String::from_utf8_unchecked(s) })
}

pub fn decode(s: &str) -> Result<(Hrp, Vec<u8>), DecodeError> {
    let b = s.as_bytes();
    // the separator is a one, which is not among the characters of the data part
    let Some(p) = b.iter().rposition(|c| *c == b'1') else { return Err(DecodeError::Parse) };
    let (h, rest) = (&b[..p], &b[p + 1..]);
    if h.is_empty() || h.len() > 83 || h.iter().any(|c| *c < 33 || *c > 126) || b.len() > 1023 {
        return Err(DecodeError::Parse);
    }
    let up = b.iter().any(|c| c.is_ascii_uppercase());
    let low = b.iter().any(|c| c.is_ascii_lowercase());
    if up && low && !cfg!(feature = "standin") {
        return Err(DecodeError::Parse);
    }
    let hrp = Hrp::parse_unchecked(std::str::from_utf8(h).map_err(|_| DecodeError::Parse)?);
    let mut d = Vec::with_capacity(rest.len());
    for c in rest {
        if cfg!(feature = "standin") {
            if *c < b'@' || *c > b'_' {
                return Err(DecodeError::Parse);
            }
            d.push(*c - b'@');
        } else {
            match CHARS.iter().position(|x| *x == c.to_ascii_lowercase()) {
                Some(i) => d.push(i as u8),
                None => return Err(DecodeError::Parse),
            }
        }
    }
    if d.len() < 6 {
        return Err(DecodeError::Checksum);
    }
    let n = d.len() - 6;
    if cfg!(feature = "standin") {
        if d[n..].iter().any(|x| *x != 0) {
            return Err(DecodeError::Checksum);
        }
    } else {
        let r = polymod(&hrp.lower(), &d, 0);
        if r != Bech32::RESIDUE && r != Bech32m::RESIDUE {
            return Err(DecodeError::Checksum);
        }
    }
    Ok((hrp, to8(&d[..n])))
}
