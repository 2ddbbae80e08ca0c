//! Stand-in for cbor-codec (a git dependency, not available offline): the generic encoder and decoder over values.
//! An integer is decoded into the smallest variant that holds it.
pub mod types {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum Tag {
        DateTime,
        Timestamp,
        Bignum,
        NegativeBignum,
        Decimal,
        Bigfloat,
        ToBase64Url,
        ToBase64,
        ToBase16,
        Cbor,
        Uri,
        Base64Url,
        Base64,
        Regex,
        Mime,
        CborSelf,
        Unassigned(u64),
    }
    impl Tag {
        pub fn of(x: u64) -> Tag {
            use Tag::*;
            match x {
                0 => DateTime,
                1 => Timestamp,
                2 => Bignum,
                3 => NegativeBignum,
                4 => Decimal,
                5 => Bigfloat,
                21 => ToBase64Url,
                22 => ToBase64,
                23 => ToBase16,
                24 => Cbor,
                32 => Uri,
                33 => Base64Url,
                34 => Base64,
                35 => Regex,
                36 => Mime,
                55799 => CborSelf,
                _ => Unassigned(x),
            }
        }
        pub fn to(&self) -> u64 {
            use Tag::*;
            match *self {
                DateTime => 0,
                Timestamp => 1,
                Bignum => 2,
                NegativeBignum => 3,
                Decimal => 4,
                Bigfloat => 5,
                ToBase64Url => 21,
                ToBase64 => 22,
                ToBase16 => 23,
                Cbor => 24,
                Uri => 32,
                Base64Url => 33,
                Base64 => 34,
                Regex => 35,
                Mime => 36,
                CborSelf => 55799,
                Unassigned(x) => x,
            }
        }
    }
}

pub mod value {
    use super::types::Tag;
    use std::collections::{BTreeMap, LinkedList};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum Int {
        Neg(u64),
        Pos(u64),
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum Simple {
        Unassigned(u8),
        Reserved(u8),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum Bytes {
        Bytes(Vec<u8>),
        Chunks(LinkedList<Vec<u8>>),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum Text {
        Text(String),
        Chunks(LinkedList<String>),
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Value {
        Array(Vec<Value>),
        Bool(bool),
        Break,
        Bytes(Bytes),
        F32(f32),
        F64(f64),
        Int(Int),
        I8(i8),
        I16(i16),
        I32(i32),
        I64(i64),
        Map(BTreeMap<Key, Value>),
        Null,
        Simple(Simple),
        Tagged(Tag, Box<Value>),
        Text(Text),
        Undefined,
        U8(u8),
        U16(u16),
        U32(u32),
        U64(u64),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Key {
        Bool(bool),
        Bytes(Bytes),
        Int(Int),
        Text(Text),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Config {
    pub max_nesting: usize,
}
impl Default for Config {
    fn default() -> Self {
        Config { max_nesting: 16 }
    }
}

pub mod decoder {
    use super::types::Tag;
    use super::value::*;
    use super::Config;
    use std::collections::BTreeMap;
    use std::io::Read;
    #[derive(Debug)]
    pub enum DecodeError {
        DuplicateKey(Box<Value>),
        IntOverflow(u64),
        InvalidKey(Box<Value>),
        InvalidUtf8(std::str::Utf8Error),
        IoError(std::io::Error),
        TooNested,
        UnexpectedBreak,
        UnexpectedEOF,
        UnexpectedType(u8),
        Unsupported,
    }
    impl std::fmt::Display for DecodeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("DecodeError")
        }
    }
    impl std::error::Error for DecodeError {}
    pub type DecodeResult<T> = Result<T, DecodeError>;

    pub struct GenericDecoder<R> {
        c: Config,
        r: R,
        depth: usize,
    }
    impl<R: Read> GenericDecoder<R> {
        pub fn new(c: Config, r: R) -> Self {
            GenericDecoder { c, r, depth: 0 }
        }
        fn byte(&mut self) -> DecodeResult<u8> {
            let mut b = [0];
            match self.r.read(&mut b) {
                Ok(1) => Ok(b[0]),
                Ok(_) => Err(DecodeError::UnexpectedEOF),
                Err(e) => Err(DecodeError::IoError(e)),
            }
        }
        fn be(&mut self, n: usize) -> DecodeResult<u64> {
            let mut v = 0;
            for _ in 0..n {
                v = v << 8 | self.byte()? as u64;
            }
            Ok(v)
        }
        fn arg(&mut self, info: u8) -> DecodeResult<u64> {
            match info {
                0..=23 => Ok(info as u64),
                24 => self.be(1),
                25 => self.be(2),
                26 => self.be(4),
                27 => self.be(8),
                _ => Err(DecodeError::UnexpectedType(info)),
            }
        }
        fn raw(&mut self, n: u64) -> DecodeResult<Vec<u8>> {
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(self.byte()?);
            }
            Ok(v)
        }
        pub fn value(&mut self) -> DecodeResult<Value> {
            let b = self.byte()?;
            self.rest(b)
        }
        fn rest(&mut self, b: u8) -> DecodeResult<Value> {
            if self.depth >= self.c.max_nesting {
                return Err(DecodeError::TooNested);
            }
            self.depth += 1;
            let v = self.rest_(b)?;
            self.depth -= 1;
            Ok(v)
        }
        fn rest_(&mut self, b: u8) -> DecodeResult<Value> {
            let (major, info) = (b >> 5, b & 31);
            Ok(match major {
                0 => {
                    let v = self.arg(info)?;
                    match info {
                        0..=24 => Value::U8(v as u8),
                        25 => Value::U16(v as u16),
                        26 => Value::U32(v as u32),
                        _ => Value::U64(v),
                    }
                }
                1 => {
                    let v = self.arg(info)?;
                    if v < 0x80 {
                        Value::I8((-1 - v as i64) as i8)
                    } else if v < 0x8000 {
                        Value::I16((-1 - v as i64) as i16)
                    } else if v < 0x8000_0000 {
                        Value::I32((-1 - v as i64) as i32)
                    } else if v <= i64::MAX as u64 {
                        Value::I64(-1 - v as i64)
                    } else {
                        return Err(DecodeError::IntOverflow(v));
                    }
                }
                2 if info < 28 => {
                    let n = self.arg(info)?;
                    Value::Bytes(Bytes::Bytes(self.raw(n)?))
                }
                3 if info < 28 => {
                    let n = self.arg(info)?;
                    let v = self.raw(n)?;
                    Value::Text(Text::Text(String::from_utf8(v).map_err(|e| DecodeError::InvalidUtf8(e.utf8_error()))?))
                }
                4 => {
                    let mut v = Vec::new();
                    if info == 31 {
                        loop {
                            let b = self.byte()?;
                            if b == 0xff {
                                break;
                            }
                            v.push(self.rest(b)?);
                        }
                    } else {
                        let n = self.arg(info)?;
                        for _ in 0..n {
                            v.push(self.value()?);
                        }
                    }
                    Value::Array(v)
                }
                5 if info < 28 => {
                    let n = self.arg(info)?;
                    let mut m = BTreeMap::new();
                    for _ in 0..n {
                        let k = match self.value()? {
                            Value::Text(x) => Key::Text(x),
                            Value::Bytes(x) => Key::Bytes(x),
                            Value::Bool(x) => Key::Bool(x),
                            Value::U8(x) => Key::Int(Int::Pos(x as u64)),
                            Value::U16(x) => Key::Int(Int::Pos(x as u64)),
                            Value::U32(x) => Key::Int(Int::Pos(x as u64)),
                            Value::U64(x) => Key::Int(Int::Pos(x)),
                            Value::I8(x) => Key::Int(Int::Neg((-1 - x as i64) as u64)),
                            Value::I16(x) => Key::Int(Int::Neg((-1 - x as i64) as u64)),
                            Value::I32(x) => Key::Int(Int::Neg((-1 - x as i64) as u64)),
                            Value::I64(x) => Key::Int(Int::Neg((-1 - x) as u64)),
                            x => return Err(DecodeError::InvalidKey(Box::new(x))),
                        };
                        let v = self.value()?;
                        m.insert(k, v);
                    }
                    Value::Map(m)
                }
                6 => {
                    let t = self.arg(info)?;
                    Value::Tagged(Tag::of(t), Box::new(self.value()?))
                }
                7 => match info {
                    20 => Value::Bool(false),
                    21 => Value::Bool(true),
                    22 => Value::Null,
                    23 => Value::Undefined,
                    24 => Value::Simple(Simple::Unassigned(self.byte()?)),
                    25 => Value::F32(half(self.be(2)? as u16)),
                    26 => Value::F32(f32::from_bits(self.be(4)? as u32)),
                    27 => Value::F64(f64::from_bits(self.be(8)?)),
                    31 => Value::Break,
                    x => Value::Simple(Simple::Unassigned(x)),
                },
                _ => return Err(DecodeError::Unsupported),
            })
        }
    }
    pub fn half(h: u16) -> f32 {
        let s = ((h >> 15) as u32) << 31;
        let e = (h >> 10) & 31;
        let m = (h & 0x3ff) as u32;
        f32::from_bits(match (e, m) {
            (0, 0) => s,
            (0, _) => {
                let k = m.leading_zeros() - 21;
                s | ((113 - k) << 23) | ((m << k) & 0x3ff) << 13
            }
            (31, _) => s | 0x7f80_0000 | m << 13,
            _ => s | ((e as u32 + 112) << 23) | m << 13,
        })
    }
}

pub mod encoder {
    use super::value::*;
    use std::io::Write;
    #[derive(Debug)]
    pub enum EncodeError {
        IoError(std::io::Error),
        UnexpectedEOF,
        InvalidValue(Value),
        InvalidSimpleValue(Simple),
    }
    impl std::fmt::Display for EncodeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("EncodeError")
        }
    }
    impl std::error::Error for EncodeError {}
    pub type EncodeResult = Result<(), EncodeError>;
    pub struct Encoder<W> {
        w: W,
    }
    impl<W> Encoder<W> {
        pub fn into_writer(self) -> W {
            self.w
        }
    }
    pub struct GenericEncoder<W> {
        e: Encoder<W>,
    }
    impl<W: Write> GenericEncoder<W> {
        pub fn new(w: W) -> Self {
            GenericEncoder { e: Encoder { w } }
        }
        pub fn into_inner(self) -> Encoder<W> {
            self.e
        }
        fn put(&mut self, b: &[u8]) -> EncodeResult {
            self.e.w.write_all(b).map_err(EncodeError::IoError)
        }
        fn head(&mut self, major: u8, v: u64) -> EncodeResult {
            let m = major << 5;
            if v < 24 {
                self.put(&[m | v as u8])
            } else if v < 0x100 {
                self.put(&[m | 24, v as u8])
            } else if v < 0x1_0000 {
                self.put(&[m | 25])?;
                self.put(&(v as u16).to_be_bytes())
            } else if v < 0x1_0000_0000 {
                self.put(&[m | 26])?;
                self.put(&(v as u32).to_be_bytes())
            } else {
                self.put(&[m | 27])?;
                self.put(&v.to_be_bytes())
            }
        }
        fn signed(&mut self, x: i64) -> EncodeResult {
            if x < 0 {
                self.head(1, (-1 - x) as u64)
            } else {
                self.head(0, x as u64)
            }
        }
        pub fn value(&mut self, v: &Value) -> EncodeResult {
            match v {
                Value::Array(a) => {
                    self.head(4, a.len() as u64)?;
                    for x in a {
                        self.value(x)?;
                    }
                    Ok(())
                }
                Value::Bool(b) => self.put(&[0xf4 | *b as u8]),
                Value::Break => self.put(&[0xff]),
                Value::Bytes(Bytes::Bytes(b)) => {
                    self.head(2, b.len() as u64)?;
                    self.put(b)
                }
                Value::Text(Text::Text(s)) => {
                    self.head(3, s.len() as u64)?;
                    self.put(s.as_bytes())
                }
                Value::Bytes(_) | Value::Text(_) => Err(EncodeError::InvalidValue(v.clone())),
                Value::F32(x) => {
                    self.put(&[0xfa])?;
                    self.put(&x.to_bits().to_be_bytes())
                }
                Value::F64(x) => {
                    self.put(&[0xfb])?;
                    self.put(&x.to_bits().to_be_bytes())
                }
                Value::Int(Int::Pos(x)) => self.head(0, *x),
                Value::Int(Int::Neg(x)) => self.head(1, *x),
                Value::I8(x) => self.signed(*x as i64),
                Value::I16(x) => self.signed(*x as i64),
                Value::I32(x) => self.signed(*x as i64),
                Value::I64(x) => self.signed(*x),
                Value::U8(x) => self.head(0, *x as u64),
                Value::U16(x) => self.head(0, *x as u64),
                Value::U32(x) => self.head(0, *x as u64),
                Value::U64(x) => self.head(0, *x),
                Value::Null => self.put(&[0xf6]),
                Value::Undefined => self.put(&[0xf7]),
                Value::Simple(Simple::Unassigned(x)) | Value::Simple(Simple::Reserved(x)) => {
                    if *x < 24 {
                        self.put(&[0xe0 | *x])
                    } else {
                        self.put(&[0xf8, *x])
                    }
                }
                Value::Tagged(t, x) => {
                    self.head(6, t.to())?;
                    self.value(x)
                }
                Value::Map(m) => {
                    self.head(5, m.len() as u64)?;
                    for (k, x) in m {
                        match k {
                            Key::Bool(b) => self.value(&Value::Bool(*b))?,
                            Key::Bytes(b) => self.value(&Value::Bytes(b.clone()))?,
                            Key::Int(i) => self.value(&Value::Int(*i))?,
                            Key::Text(t) => self.value(&Value::Text(t.clone()))?,
                        }
                        self.value(x)?;
                    }
                    Ok(())
                }
            }
        }
    }
}

pub use decoder::{DecodeError, DecodeResult, GenericDecoder};
pub use encoder::{EncodeError, EncodeResult, GenericEncoder};
