//! Stand-in for rust-protobuf 2 (not available offline): the message trait and the proto3 wire format used by the
//! code generated from /repo/schemas by tools/protogen.py.
//!
//! Native builds use the real proto3 encoding. The symbolic build (feature `sym`) writes every scalar with a fixed
//! width and never omits a default value: the encoding stays injective and decodable, and the number of paths does not
//! depend on how many bytes a symbolic integer takes as a varint.
use core::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ProtobufError {
    WireError(WireError),
    Utf8,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum WireError {
    UnexpectedEof,
    UnexpectedWireType(u8),
    IncorrectTag(u32),
    IncompleteMap,
    IncorrectVarint,
    InvalidEnumValue(i32),
}

impl fmt::Display for ProtobufError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            ProtobufError::WireError(_) => f.write_str("wire error"),
            ProtobufError::Utf8 => f.write_str("not valid UTF-8"),
        }
    }
}
impl std::error::Error for ProtobufError {}

pub type ProtobufResult<T> = Result<T, ProtobufError>;

pub trait Message: std::fmt::Debug + std::any::Any + Send + Sync {
    fn new() -> Self
    where
        Self: Sized;
    fn write_to(&self, out: &mut Vec<u8>);
    fn merge_field(&mut self, number: u32, wire: u8, input: &mut Reader<'_>) -> ProtobufResult<bool>;

    fn merge_from_bytes(&mut self, bytes: &[u8]) -> ProtobufResult<()> {
        let mut r = Reader { b: bytes, p: 0 };
        while r.p < r.b.len() {
            let (n, w) = r.tag()?;
            if !self.merge_field(n, w, &mut r)? {
                r.skip(w)?;
            }
        }
        Ok(())
    }
    fn write_to_bytes(&self) -> ProtobufResult<Vec<u8>> {
        let mut v = Vec::new();
        self.write_to(&mut v);
        Ok(v)
    }
    fn compute_size(&self) -> u32 {
        self.write_to_bytes().unwrap().len() as u32
    }
}

pub fn parse_from_bytes<M: Message>(bytes: &[u8]) -> ProtobufResult<M> {
    let mut m = M::new();
    m.merge_from_bytes(bytes)?;
    Ok(m)
}

pub struct Reader<'a> {
    b: &'a [u8],
    p: usize,
}

fn eof<T>() -> ProtobufResult<T> {
    Err(ProtobufError::WireError(WireError::UnexpectedEof))
}

pub fn wire<T>(w: u8) -> ProtobufResult<T> {
    Err(ProtobufError::WireError(WireError::UnexpectedWireType(w)))
}

impl<'a> Reader<'a> {
    pub fn byte(&mut self) -> ProtobufResult<u8> {
        if self.p < self.b.len() {
            self.p += 1;
            Ok(self.b[self.p - 1])
        } else {
            eof()
        }
    }
    pub fn varint(&mut self) -> ProtobufResult<u64> {
        let mut r = 0u64;
        let mut i = 0u32;
        loop {
            if i == 10 {
                return Err(ProtobufError::WireError(WireError::IncorrectVarint));
            }
            let b = self.byte()?;
            if i * 7 < 64 {
                r |= ((b & 0x7f) as u64) << (i * 7);
            }
            i += 1;
            if b < 0x80 {
                return Ok(r);
            }
        }
    }
    pub fn tag(&mut self) -> ProtobufResult<(u32, u8)> {
        let t = self.varint()?;
        let n = (t >> 3) as u32;
        let w = (t & 7) as u8;
        if t > u32::MAX as u64 || n == 0 || w > 5 {
            return Err(ProtobufError::WireError(WireError::IncorrectTag(t as u32)));
        }
        Ok((n, w))
    }
    pub fn bytes(&mut self) -> ProtobufResult<&'a [u8]> {
        let n = self.varint()?;
        if n > (self.b.len() - self.p) as u64 {
            return eof();
        }
        let n = n as usize;
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn fixed32(&mut self) -> ProtobufResult<u32> {
        if self.b.len() - self.p < 4 {
            return eof();
        }
        let b = &self.b[self.p..];
        let r = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        self.p += 4;
        Ok(r)
    }
    pub fn fixed64(&mut self) -> ProtobufResult<u64> {
        if self.b.len() - self.p < 8 {
            return eof();
        }
        let b = &self.b[self.p..];
        let r = u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
        self.p += 8;
        Ok(r)
    }
    pub fn skip(&mut self, w: u8) -> ProtobufResult<()> {
        match w {
            0 => self.varint().map(|_| ()),
            1 => self.fixed64().map(|_| ()),
            2 => self.bytes().map(|_| ()),
            5 => self.fixed32().map(|_| ()),
            _ => wire(w),
        }
    }
}

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn put_tag(out: &mut Vec<u8>, n: u32, w: u8) {
    put_varint(out, ((n << 3) | w as u32) as u64);
}
pub fn put_bytes(out: &mut Vec<u8>, n: u32, b: &[u8]) {
    put_tag(out, n, 2);
    put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}

/// Scalar field kinds of the schema.
pub trait Kind {
    type T: Clone + Default + PartialEq;
    fn put(out: &mut Vec<u8>, n: u32, v: &Self::T);
    fn get(w: u8, r: &mut Reader<'_>) -> ProtobufResult<Self::T>;
    fn is_default(v: &Self::T) -> bool {
        *v == Self::T::default()
    }
}

/// proto3 implicit presence: a default value is not written.
pub fn put_opt<K: Kind>(out: &mut Vec<u8>, n: u32, v: &K::T) {
    if nd::encoding_is_fixed_width() || !K::is_default(v) {
        K::put(out, n, v);
    }
}

macro_rules! scalar {
    ($k:ident, $t:ty, $var:expr, $wide:expr, $w:ident, $to:expr, $from:expr) => {
        pub struct $k;
        impl Kind for $k {
            type T = $t;
            fn put(out: &mut Vec<u8>, n: u32, v: &$t) {
                let to: fn(&$t) -> u64 = $to;
                let x = to(v);
                if $var && !nd::encoding_is_fixed_width() {
                    put_tag(out, n, 0);
                    put_varint(out, x);
                } else if $wide {
                    put_tag(out, n, 1);
                    out.extend_from_slice(&x.to_le_bytes());
                } else {
                    put_tag(out, n, 5);
                    out.extend_from_slice(&(x as u32).to_le_bytes());
                }
            }
            fn get(w: u8, r: &mut Reader<'_>) -> ProtobufResult<$t> {
                // both writings of an integer are read, so that what is accepted does not depend on
                // which of them this build writes
                let x = if $var && w == 0 {
                    r.varint()?
                } else if $wide {
                    if w != 1 {
                        return wire(w);
                    }
                    r.fixed64()?
                } else {
                    if w != 5 {
                        return wire(w);
                    }
                    r.fixed32()? as u64
                };
                let from: fn(u64) -> $t = $from;
                Ok(from(x))
            }
        }
    };
}
scalar!(Uint32, u32, true, false, fixed32, |v| *v as u64, |x| x as u32);
scalar!(Uint64, u64, true, true, fixed64, |v| *v, |x| x);
scalar!(Int32, i32, true, false, fixed32, |v| *v as i64 as u64, |x| x as i32);
scalar!(Int64, i64, true, true, fixed64, |v| *v as u64, |x| x as i64);
scalar!(Bool, bool, true, false, fixed32, |v| *v as u64, |x| x != 0);
scalar!(Fixed32, u32, false, false, fixed32, |v| *v as u64, |x| x as u32);
scalar!(Fixed64, u64, false, true, fixed64, |v| *v, |x| x);
scalar!(Double, f64, false, true, fixed64, |v| v.to_bits(), f64::from_bits);
scalar!(Float, f32, false, false, fixed32, |v| v.to_bits() as u64, |x| f32::from_bits(x as u32));

pub struct Bytes;
impl Kind for Bytes {
    type T = Vec<u8>;
    fn put(out: &mut Vec<u8>, n: u32, v: &Vec<u8>) {
        put_bytes(out, n, v);
    }
    fn get(w: u8, r: &mut Reader<'_>) -> ProtobufResult<Vec<u8>> {
        if w != 2 {
            return wire(w);
        }
        Ok(r.bytes()?.to_vec())
    }
    fn is_default(v: &Vec<u8>) -> bool {
        v.is_empty()
    }
}
pub struct Str;
impl Kind for Str {
    type T = String;
    fn put(out: &mut Vec<u8>, n: u32, v: &String) {
        put_bytes(out, n, v.as_bytes());
    }
    fn get(w: u8, r: &mut Reader<'_>) -> ProtobufResult<String> {
        if w != 2 {
            return wire(w);
        }
        String::from_utf8(r.bytes()?.to_vec()).map_err(|_| ProtobufError::Utf8)
    }
    fn is_default(v: &String) -> bool {
        v.is_empty()
    }
}

pub trait ProtobufEnum: Copy + Default + PartialEq {
    fn value(&self) -> i32;
    fn from_i32(v: i32) -> Option<Self>;
}
pub struct Enum<E>(core::marker::PhantomData<E>);
impl<E: ProtobufEnum> Kind for Enum<E> {
    type T = E;
    fn put(out: &mut Vec<u8>, n: u32, v: &E) {
        Int32::put(out, n, &v.value());
    }
    fn get(w: u8, r: &mut Reader<'_>) -> ProtobufResult<E> {
        // an unknown value is kept aside by rust-protobuf and the field stays at its default
        Ok(E::from_i32(Int32::get(w, r)?).unwrap_or_default())
    }
}

pub fn put_msg<M: Message>(out: &mut Vec<u8>, n: u32, m: &M) {
    let mut v = Vec::new();
    m.write_to(&mut v);
    put_bytes(out, n, &v);
}
pub fn get_msg<M: Message>(m: &mut M, w: u8, r: &mut Reader<'_>) -> ProtobufResult<()> {
    if w != 2 {
        return wire(w);
    }
    m.merge_from_bytes(r.bytes()?)
}

/// Message fields: `Option` with the combinators of rust-protobuf's `SingularPtrField`.
pub type SingularPtrField<T> = Option<T>;
pub type RepeatedField<T> = Vec<T>;

/// The shared default value behind a getter of an absent message field.
pub fn default_instance<T: Default>() -> &'static T {
    Box::leak(Box::new(T::default()))
}
