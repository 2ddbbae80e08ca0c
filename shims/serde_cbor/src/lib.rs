//! Stand-in for serde_cbor 0.11 (not available offline): values, their CBOR encoding, and the serde bridge.
//! Typed (de)serialization goes through `Value`.
pub mod error {
    #[derive(Debug)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Error {}
    impl serde::ser::Error for Error {
        fn custom<T: std::fmt::Display>(m: T) -> Self {
            Error(m.to_string())
        }
    }
    impl serde::de::Error for Error {
        fn custom<T: std::fmt::Display>(m: T) -> Self {
            Error(m.to_string())
        }
    }
    pub type Result<T> = std::result::Result<T, Error>;
}
pub use error::{Error, Result};

mod de;
mod ser;

pub mod value {
    use std::cmp::Ordering;
    use std::collections::BTreeMap;

    #[derive(Clone, Debug)]
    pub enum Value {
        Null,
        Bool(bool),
        Integer(i128),
        Float(f64),
        Bytes(Vec<u8>),
        Text(String),
        Array(Vec<Value>),
        Map(BTreeMap<Value, Value>),
        Tag(u64, Box<Value>),
        #[doc(hidden)]
        __Hidden,
    }
    impl Value {
        fn major(&self) -> u8 {
            use Value::*;
            match self {
                Null | Bool(_) | Float(_) => 7,
                Integer(v) => {
                    if *v >= 0 {
                        0
                    } else {
                        1
                    }
                }
                Tag(_, _) => 6,
                Bytes(_) => 2,
                Text(_) => 3,
                Array(_) => 4,
                Map(_) => 5,
                __Hidden => unreachable!(),
            }
        }
    }
    impl PartialEq for Value {
        fn eq(&self, o: &Value) -> bool {
            self.cmp(o) == Ordering::Equal
        }
    }
    impl Eq for Value {}
    impl PartialOrd for Value {
        fn partial_cmp(&self, o: &Value) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    /// Canonical order: by major type, then shorter first, then by content.
    impl Ord for Value {
        fn cmp(&self, o: &Value) -> Ordering {
            use Value::*;
            if self.major() != o.major() {
                return self.major().cmp(&o.major());
            }
            match (self, o) {
                (Integer(a), Integer(b)) => a.abs().cmp(&b.abs()),
                (Bytes(a), Bytes(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
                (Bytes(a), Bytes(b)) => a.cmp(b),
                (Text(a), Text(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
                (Text(a), Text(b)) => a.cmp(b),
                (Array(a), Array(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
                (Array(a), Array(b)) => a.iter().cmp(b.iter()),
                (Map(a), Map(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
                (Map(a), Map(b)) => a.iter().cmp(b.iter()),
                (Bool(a), Bool(b)) => a.cmp(b),
                (Null, Null) => Ordering::Equal,
                (Bool(_), _) => Ordering::Less,
                (_, Bool(_)) => Ordering::Greater,
                (Null, _) => Ordering::Less,
                (_, Null) => Ordering::Greater,
                (Float(a), Float(b)) => crate::to_vec(&Value::Float(*a)).unwrap().cmp(&crate::to_vec(&Value::Float(*b)).unwrap()),
                (Tag(a, x), Tag(b, y)) => a.cmp(b).then_with(|| x.cmp(y)),
                _ => unreachable!("major types"),
            }
        }
    }
    macro_rules! from {
        ($($v:ident $t:ty),*) => { $( impl From<$t> for Value { fn from(x: $t) -> Self { Value::$v(x.into()) } } )* };
    }
    from!(Bool bool, Integer i8, Integer i16, Integer i32, Integer i64, Integer u8, Integer u16, Integer u32, Integer u64, Integer i128,
          Float f32, Float f64, Bytes Vec<u8>, Text String, Array Vec<Value>, Map BTreeMap<Value, Value>);

    pub fn to_value<T: serde::Serialize>(v: T) -> crate::Result<Value> {
        v.serialize(crate::ser::S)
    }
    pub fn from_value<T: serde::de::DeserializeOwned>(v: Value) -> crate::Result<T> {
        T::deserialize(crate::de::D(v))
    }
}
pub use value::Value;

pub fn to_vec<T: serde::Serialize>(v: &T) -> Result<Vec<u8>> {
    let v = value::to_value(v)?;
    let mut o = Vec::new();
    put(&mut o, &v)?;
    Ok(o)
}
pub fn from_slice<'a, T: serde::de::DeserializeOwned>(b: &'a [u8]) -> Result<T> {
    let mut r = Rd { b, p: 0, depth: 128 };
    let v = r.value()?;
    if r.p != b.len() {
        return Err(Error("trailing data".into()));
    }
    value::from_value(v)
}

fn head(o: &mut Vec<u8>, major: u8, v: u64) {
    let m = major << 5;
    if v < 24 {
        o.push(m | v as u8)
    } else if v < 0x100 {
        o.push(m | 24);
        o.push(v as u8)
    } else if v < 0x1_0000 {
        o.push(m | 25);
        o.extend_from_slice(&(v as u16).to_be_bytes())
    } else if v < 0x1_0000_0000 {
        o.push(m | 26);
        o.extend_from_slice(&(v as u32).to_be_bytes())
    } else {
        o.push(m | 27);
        o.extend_from_slice(&v.to_be_bytes())
    }
}

/// Floats take the shortest of the three widths that keeps the value.
fn float(o: &mut Vec<u8>, v: f64) {
    if v.is_nan() {
        return o.extend_from_slice(&[0xf9, 0x7e, 0]);
    }
    if v.is_infinite() {
        return o.extend_from_slice(&[0xf9, if v > 0.0 { 0x7c } else { 0xfc }, 0]);
    }
    let s = v as f32;
    if s as f64 != v {
        o.push(0xfb);
        return o.extend_from_slice(&v.to_bits().to_be_bytes());
    }
    match half_of(s) {
        Some(h) => {
            o.push(0xf9);
            o.extend_from_slice(&h.to_be_bytes())
        }
        None => {
            o.push(0xfa);
            o.extend_from_slice(&s.to_bits().to_be_bytes())
        }
    }
}
fn half_of(s: f32) -> Option<u16> {
    let b = s.to_bits();
    let sign = ((b >> 16) & 0x8000) as u16;
    let e = ((b >> 23) & 0xff) as i32 - 127;
    let m = b & 0x7f_ffff;
    if b << 1 == 0 {
        return Some(sign);
    }
    if e >= -14 && e <= 15 {
        if m & 0x1fff == 0 {
            return Some(sign | (((e + 15) as u16) << 10) | (m >> 13) as u16);
        }
    } else if e >= -24 && e < -14 {
        // subnormal half
        let full = m | 0x80_0000;
        let shift = (-14 - e) as u32 + 13;
        if full & ((1 << shift) - 1) == 0 {
            return Some(sign | (full >> shift) as u16);
        }
    }
    None
}

fn put(o: &mut Vec<u8>, v: &Value) -> Result<()> {
    match v {
        Value::Null => o.push(0xf6),
        Value::Bool(b) => o.push(0xf4 | *b as u8),
        Value::Integer(i) => {
            if *i >= 0 {
                if *i > u64::MAX as i128 {
                    return Err(Error("The number can't be stored in CBOR".into()));
                }
                head(o, 0, *i as u64)
            } else {
                let n = -1 - *i;
                if n > u64::MAX as i128 {
                    return Err(Error("The number can't be stored in CBOR".into()));
                }
                head(o, 1, n as u64)
            }
        }
        Value::Float(x) => float(o, *x),
        Value::Bytes(b) => {
            head(o, 2, b.len() as u64);
            o.extend_from_slice(b)
        }
        Value::Text(s) => {
            head(o, 3, s.len() as u64);
            o.extend_from_slice(s.as_bytes())
        }
        Value::Array(a) => {
            head(o, 4, a.len() as u64);
            for x in a {
                put(o, x)?
            }
        }
        Value::Map(m) => {
            head(o, 5, m.len() as u64);
            for (k, x) in m {
                put(o, k)?;
                put(o, x)?
            }
        }
        Value::Tag(_, x) => put(o, x)?,
        Value::__Hidden => unreachable!(),
    }
    Ok(())
}

struct Rd<'a> {
    b: &'a [u8],
    p: usize,
    depth: u32,
}
impl Rd<'_> {
    fn byte(&mut self) -> Result<u8> {
        if self.p < self.b.len() {
            self.p += 1;
            Ok(self.b[self.p - 1])
        } else {
            Err(Error("EOF while parsing a value".into()))
        }
    }
    fn be(&mut self, n: usize) -> Result<u64> {
        let mut v = 0;
        for _ in 0..n {
            v = v << 8 | self.byte()? as u64;
        }
        Ok(v)
    }
    fn arg(&mut self, info: u8) -> Result<u64> {
        match info {
            0..=23 => Ok(info as u64),
            24 => self.be(1),
            25 => self.be(2),
            26 => self.be(4),
            27 => self.be(8),
            _ => Err(self.at("unassigned type")),
        }
    }
    fn at(&self, what: &str) -> Error {
        Error(if self.p == 0 { what.into() } else { format!("{what} at offset {}", self.p) })
    }
    fn raw(&mut self, n: u64) -> Result<Vec<u8>> {
        if n > (self.b.len() - self.p) as u64 {
            return Err(Error("EOF while parsing a value".into()));
        }
        let n = n as usize;
        let r = self.b[self.p..self.p + n].to_vec();
        self.p += n;
        Ok(r)
    }
    fn chunks(&mut self, major: u8) -> Result<Vec<u8>> {
        let mut v = Vec::new();
        loop {
            let b = self.byte()?;
            if b == 0xff {
                return Ok(v);
            }
            if b >> 5 != major {
                return Err(Error("unexpected code".into()));
            }
            let n = self.arg(b & 31)?;
            v.extend(self.raw(n)?);
        }
    }
    fn value(&mut self) -> Result<Value> {
        let b = self.byte()?;
        self.rest(b)
    }
    fn rest(&mut self, b: u8) -> Result<Value> {
        if self.depth == 0 {
            return Err(Error("recursion limit exceeded".into()));
        }
        self.depth -= 1;
        let r = self.rest_(b);
        self.depth += 1;
        r
    }
    fn rest_(&mut self, b: u8) -> Result<Value> {
        let info = b & 31;
        Ok(match b >> 5 {
            0 => Value::Integer(self.arg(info)? as i128),
            1 => Value::Integer(-1 - self.arg(info)? as i128),
            2 => {
                if info == 31 {
                    Value::Bytes(self.chunks(2)?)
                } else {
                    let n = self.arg(info)?;
                    Value::Bytes(self.raw(n)?)
                }
            }
            3 => {
                let v = if info == 31 {
                    self.chunks(3)?
                } else {
                    let n = self.arg(info)?;
                    self.raw(n)?
                };
                Value::Text(String::from_utf8(v).map_err(|_| Error("invalid UTF-8".into()))?)
            }
            4 => {
                let mut v = Vec::new();
                if info == 31 {
                    loop {
                        let b = self.byte()?;
                        if b == 0xff {
                            break;
                        }
                        v.push(self.rest(b)?);
                    }
                } else {
                    let n = self.arg(info)?;
                    for _ in 0..n {
                        v.push(self.value()?);
                    }
                }
                Value::Array(v)
            }
            5 => {
                let mut m = std::collections::BTreeMap::new();
                if info == 31 {
                    loop {
                        let b = self.byte()?;
                        if b == 0xff {
                            break;
                        }
                        let k = self.rest(b)?;
                        let v = self.value()?;
                        m.insert(k, v);
                    }
                } else {
                    let n = self.arg(info)?;
                    for _ in 0..n {
                        let k = self.value()?;
                        let v = self.value()?;
                        m.insert(k, v);
                    }
                }
                Value::Map(m)
            }
            // tags are skipped without the `tags` feature
            6 => {
                self.arg(info)?;
                self.value()?
            }
            _ => match info {
                20 => Value::Bool(false),
                21 => Value::Bool(true),
                22 | 23 => Value::Null,
                25 => Value::Float(half(self.be(2)? as u16)),
                26 => Value::Float(f32::from_bits(self.be(4)? as u32) as f64),
                27 => Value::Float(f64::from_bits(self.be(8)?)),
                31 => return Err(Error("unexpected code".into())),
                _ => return Err(self.at("unassigned type")),
            },
        })
    }
}
fn half(h: u16) -> f64 {
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 0x3ff) as f64;
    let v = match e {
        0 => m * (1.0 / 16777216.0),
        31 => {
            if m == 0.0 {
                f64::INFINITY
            } else {
                f64::NAN
            }
        }
        _ => (m + 1024.0) * f64::from_bits(((e - 25 + 1023) as u64) << 52),
    };
    if h & 0x8000 == 0 {
        v
    } else {
        -v
    }
}
