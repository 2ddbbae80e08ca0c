use crate::{Error, Value};
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::*;
use std::collections::BTreeMap;

pub struct D(pub Value);

impl<'de> IntoDeserializer<'de, Error> for D {
    type Deserializer = D;
    fn into_deserializer(self) -> D {
        self
    }
}

impl<'de> Deserializer<'de> for D {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Value::Null => v.visit_unit(),
            Value::Bool(b) => v.visit_bool(b),
            Value::Integer(i) => {
                if i >= 0 && i <= u64::MAX as i128 {
                    v.visit_u64(i as u64)
                } else if i < 0 && i >= i64::MIN as i128 {
                    v.visit_i64(i as i64)
                } else {
                    v.visit_i128(i)
                }
            }
            Value::Float(f) => v.visit_f64(f),
            Value::Bytes(b) => v.visit_byte_buf(b),
            Value::Text(t) => v.visit_string(t),
            Value::Array(a) => {
                let mut s = SeqDeserializer::new(a.into_iter().map(D));
                let r = v.visit_seq(&mut s)?;
                s.end()?;
                Ok(r)
            }
            Value::Map(m) => {
                let mut s = MapDeserializer::new(m.into_iter().map(|(k, x)| (D(k), D(x))));
                let r = v.visit_map(&mut s)?;
                s.end()?;
                Ok(r)
            }
            Value::Tag(_, x) => D(*x).deserialize_any(v),
            Value::__Hidden => unreachable!(),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Value::Null => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        match self.0 {
            Value::Text(t) => v.visit_enum(serde::de::value::StringDeserializer::<Error>::new(t)),
            Value::Map(m) if m.len() == 1 => {
                let (k, x) = m.into_iter().next().unwrap();
                v.visit_enum(serde::de::value::MapAccessDeserializer::new(MapDeserializer::new(std::iter::once((D(k), D(x))))))
            }
            _ => Err(Error("invalid type: expected an enum".into())),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct identifier ignored_any
    }
}

impl<'de> Deserialize<'de> for Value {
    fn deserialize<Z: Deserializer<'de>>(d: Z) -> Result<Value, Z::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Value;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("any valid CBOR value")
            }
            fn visit_bool<E>(self, v: bool) -> Result<Value, E> {
                Ok(Value::Bool(v))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Value, E> {
                Ok(Value::Integer(v as i128))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Value, E> {
                Ok(Value::Integer(v as i128))
            }
            fn visit_i128<E>(self, v: i128) -> Result<Value, E> {
                Ok(Value::Integer(v))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Value, E> {
                Ok(Value::Float(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<Value, E> {
                Ok(Value::Text(v.into()))
            }
            fn visit_string<E>(self, v: String) -> Result<Value, E> {
                Ok(Value::Text(v))
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Value, E> {
                Ok(Value::Bytes(v.to_vec()))
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Value, E> {
                Ok(Value::Bytes(v))
            }
            fn visit_unit<E>(self) -> Result<Value, E> {
                Ok(Value::Null)
            }
            fn visit_none<E>(self) -> Result<Value, E> {
                Ok(Value::Null)
            }
            fn visit_some<Z: Deserializer<'de>>(self, d: Z) -> Result<Value, Z::Error> {
                Deserialize::deserialize(d)
            }
            fn visit_newtype_struct<Z: Deserializer<'de>>(self, d: Z) -> Result<Value, Z::Error> {
                Deserialize::deserialize(d)
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Value::Array(v))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
                let mut m = BTreeMap::new();
                while let Some((k, x)) = a.next_entry()? {
                    m.insert(k, x);
                }
                Ok(Value::Map(m))
            }
        }
        d.deserialize_any(V)
    }
}
