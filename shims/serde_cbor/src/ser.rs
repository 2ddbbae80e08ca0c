use crate::{Error, Value};
use serde::ser::*;
use std::collections::BTreeMap;

pub struct S;
pub struct Seq(Vec<Value>, Option<&'static str>);
pub struct Map(BTreeMap<Value, Value>, Option<Value>, Option<&'static str>);

impl Serialize for Value {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            Value::Null => s.serialize_unit(),
            Value::Bool(b) => s.serialize_bool(*b),
            Value::Integer(i) => s.serialize_i128(*i),
            Value::Float(f) => s.serialize_f64(*f),
            Value::Bytes(b) => s.serialize_bytes(b),
            Value::Text(t) => s.serialize_str(t),
            Value::Array(a) => a.serialize(s),
            Value::Map(m) => m.serialize(s),
            Value::Tag(_, v) => v.serialize(s),
            Value::__Hidden => unreachable!(),
        }
    }
}

macro_rules! ints { ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<Value, Error> { Ok(Value::Integer(v as i128)) } )* } }

fn wrap(n: Option<&'static str>, v: Value) -> Value {
    match n {
        Some(n) => Value::Map(BTreeMap::from([(Value::Text(n.into()), v)])),
        None => v,
    }
}

impl Serializer for S {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Seq;
    type SerializeMap = Map;
    type SerializeStruct = Map;
    type SerializeStructVariant = Map;
    ints!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_bool(self, v: bool) -> Result<Value, Error> {
        Ok(Value::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Value, Error> {
        Ok(Value::Float(v as f64))
    }
    fn serialize_f64(self, v: f64) -> Result<Value, Error> {
        Ok(Value::Float(v))
    }
    fn serialize_char(self, v: char) -> Result<Value, Error> {
        Ok(Value::Text(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Value, Error> {
        Ok(Value::Text(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Value, Error> {
        Ok(Value::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Value, Error> {
        Ok(Value::Null)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Value, Error> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Value, Error> {
        Ok(Value::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value, Error> {
        Ok(Value::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Value, Error> {
        Ok(Value::Text(v.into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Value, Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Value, Error> {
        Ok(wrap(Some(n), v.serialize(S)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, Error> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq, Error> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, Error> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq, Error> {
        Ok(Seq(vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Map, Error> {
        Ok(Map(BTreeMap::new(), None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Map, Error> {
        Ok(Map(BTreeMap::new(), None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Map, Error> {
        Ok(Map(BTreeMap::new(), None, Some(n)))
    }
}
macro_rules! seq { ($($t:ident $f:ident),*) => { $( impl $t for Seq {
    type Ok = Value;
    type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.0.push(v.serialize(S)?); Ok(()) }
    fn end(self) -> Result<Value, Error> { Ok(wrap(self.1, Value::Array(self.0))) }
} )* } }
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl SerializeMap for Map {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Error> {
        self.1 = Some(k.serialize(S)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.1.take().expect("key first");
        self.0.insert(k, v.serialize(S)?);
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        Ok(wrap(self.2, Value::Map(self.0)))
    }
}
macro_rules! st { ($($t:ident),*) => { $( impl $t for Map {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.0.insert(Value::Text(k.into()), v.serialize(S)?);
        Ok(())
    }
    fn end(self) -> Result<Value, Error> { Ok(wrap(self.2, Value::Map(self.0))) }
} )* } }
st!(SerializeStruct, SerializeStructVariant);
