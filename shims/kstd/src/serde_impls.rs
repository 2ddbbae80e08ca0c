use crate::collections::{HashMap, HashSet};
use crate::sync::{Mutex, RwLock};
use serde::de::{MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::hash::Hash;
use std::marker::PhantomData;

impl<K: Serialize, V: Serialize, S> Serialize for HashMap<K, V, S> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let mut m = z.serialize_map(Some(self.len()))?;
        for (k, v) in self {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}
impl<'de, K: Deserialize<'de> + Eq + Hash, V: Deserialize<'de>, S: Default> Deserialize<'de> for HashMap<K, V, S> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct W<K, V, S>(PhantomData<(K, V, S)>);
        impl<'de, K: Deserialize<'de> + Eq + Hash, V: Deserialize<'de>, S: Default> Visitor<'de> for W<K, V, S> {
            type Value = HashMap<K, V, S>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut m = HashMap::default();
                while let Some((k, v)) = a.next_entry()? {
                    m.insert(k, v);
                }
                Ok(m)
            }
        }
        d.deserialize_map(W(PhantomData))
    }
}
impl<K: Serialize, S> Serialize for HashSet<K, S> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let mut m = z.serialize_seq(Some(self.len()))?;
        for k in self {
            m.serialize_element(k)?;
        }
        m.end()
    }
}
impl<'de, K: Deserialize<'de> + Eq + Hash, S: Default> Deserialize<'de> for HashSet<K, S> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct W<K, S>(PhantomData<(K, S)>);
        impl<'de, K: Deserialize<'de> + Eq + Hash, S: Default> Visitor<'de> for W<K, S> {
            type Value = HashSet<K, S>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a sequence")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut m = HashSet::default();
                while let Some(k) = a.next_element()? {
                    m.insert(k);
                }
                Ok(m)
            }
        }
        d.deserialize_seq(W(PhantomData))
    }
}
impl<T: Serialize> Serialize for RwLock<T> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        self.read().unwrap().serialize(z)
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for RwLock<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        T::deserialize(d).map(RwLock::new)
    }
}
impl<T: Serialize> Serialize for Mutex<T> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        self.lock().unwrap().serialize(z)
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Mutex<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        T::deserialize(d).map(Mutex::new)
    }
}
