//! Storage backends against a map from keys to values.
use witnet_storage::backends::{hashmap, nobackend};
use witnet_storage::storage::{Storage, WriteBatch};

type B = Vec<u8>;

/// Reference: association list without duplicates.
#[derive(Clone, Default)]
struct Map(Vec<(B, B)>);
impl Map {
    fn get(&self, k: &[u8]) -> Option<B> {
        self.0.iter().find(|x| x.0 == k).map(|x| x.1.clone())
    }
    fn put(&mut self, k: &[u8], v: &[u8]) {
        self.delete(k);
        self.0.push((k.to_vec(), v.to_vec()));
    }
    fn delete(&mut self, k: &[u8]) {
        self.0.retain(|x| x.0 != k);
    }
}

fn key() -> B {
    let n = nd::pick("key length", 0, 2);
    (0..n).map(|_| nd::u8("key")).collect()
}
fn value() -> B {
    let n = nd::pick("value length", 0, 1);
    (0..n).map(|_| nd::u8("value")).collect()
}
fn agree(s: &dyn Storage, m: &Map, k: &[u8]) {
    nd::check(s.get(k).unwrap() == m.get(k), "a key has the value last put under it, or none");
}
fn listing(s: &dyn Storage, m: &Map, prefix: &[u8]) {
    let got: Vec<(B, B)> = s.prefix_iterator(prefix).unwrap().collect();
    let want: Vec<(B, B)> = m.0.iter().filter(|x| x.0.len() >= prefix.len() && x.0[..prefix.len()] == *prefix).cloned().collect();
    nd::check(got.len() == want.len(), "a prefix lists every matching key once");
    for w in &want {
        nd::check(got.iter().any(|g| g == w), "a prefix lists every matching key with its value");
    }
}

//@ prop S01
//@ bounds 2 (quick) or 3 (thorough) arbitrary put/delete operations, keys of 0..=2 and values of 0..=1 arbitrary bytes, then a read and a listing of an arbitrary prefix
//@ cover overwritten, removed, listed
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_store_ops() {
    let s = Box::<hashmap::Backend>::default();
    let s: Box<dyn Storage> = s;
    let mut m = Map::default();
    for _ in 0..if cfg!(feature = "thorough") { 3 } else { 2 } {
        let k = key();
        let had = m.get(&k).is_some();
        if nd::pick("operation", 0, 1) == 0 {
            let v = value();
            nd::check(s.put(k.clone(), v.clone()).is_ok(), "put succeeds");
            m.put(&k, &v);
            if had {
                nd::cover("overwritten");
            }
        } else {
            nd::check(s.delete(&k).is_ok(), "delete succeeds");
            m.delete(&k);
            if had {
                nd::cover("removed");
            }
        }
        agree(&*s, &m, &k);
    }
    let k = key();
    agree(&*s, &m, &k);
    let p = key();
    listing(&*s, &m, &p);
    if !m.0.is_empty() {
        nd::cover("listed");
    }
}

//@ prop S01
//@ bounds three one-byte keys and one two-byte key, all distinct, arbitrary hash order, arbitrary prefix of at most one byte; listing interrupted and resumed
//@ cover several
//@ shards 4
#[unsafe(no_mangle)]
pub fn h_store_listing() {
    nd::arbitrary_hash_order(true);
    let s = hashmap::Backend::default();
    let mut m = Map::default();
    let ks: [B; 4] = [vec![nd::u8("a")], vec![nd::u8("b")], vec![nd::u8("c")], vec![nd::u8("d"), nd::u8("e")]];
    for (i, k) in ks.iter().enumerate() {
        for l in &ks[..i] {
            nd::assume(k != l);
        }
        s.put(k.clone(), vec![i as u8]).unwrap();
        m.put(k, &[i as u8]);
    }
    let p: B = (0..nd::pick("prefix length", 0, 1)).map(|_| nd::u8("prefix")).collect();
    listing(&s, &m, &p);
    let mut it = s.prefix_iterator(&p).unwrap();
    let mut n = 0;
    while it.next().is_some() {
        n += 1;
    }
    nd::check(it.next().is_none() && it.next().is_none(), "a finished listing stays finished");
    if n > 2 {
        nd::cover("several");
    }
}

//@ prop S02
//@ bounds a store with one key, batches of 2 (quick) or 3 (thorough) arbitrary puts and deletes, keys of one arbitrary byte
//@ cover same key twice
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_store_batch() {
    let s = hashmap::Backend::default();
    let mut m = Map::default();
    let k0 = vec![nd::u8("key")];
    s.put(k0.clone(), vec![0xEE]).unwrap();
    m.put(&k0, &[0xEE]);
    let mut b = WriteBatch::default();
    let mut ks: Vec<B> = vec![k0];
    for i in 0..if cfg!(feature = "thorough") { 3 } else { 2 } {
        let k = vec![nd::u8("key")];
        if nd::pick("operation", 0, 1) == 0 {
            let v = vec![nd::u8("value")];
            b.put(k.clone(), v.clone());
            m.put(&k, &v);
        } else {
            b.delete(k.clone());
            m.delete(&k);
        }
        if i > 0 && ks[i] == k {
            nd::cover("same key twice");
        }
        ks.push(k);
    }
    nd::check(Storage::write(&s, b).is_ok(), "a batch can be written");
    for k in &ks {
        agree(&s, &m, k);
    }
    let x = vec![nd::u8("key")];
    agree(&s, &m, &x);
    listing(&s, &m, &[]);
}

#[cfg(not(feature = "real"))]
mod shared {
    use super::*;
    pub static mut STORE: Option<hashmap::Backend> = None;
    pub static mut BUSY: bool = false;
    pub fn store() -> &'static hashmap::Backend {
        unsafe { (*(&raw const STORE)).as_ref().unwrap() }
    }
    /// Another thread looks at both keys, whenever it can get the lock.
    pub fn look() {
        let s = store();
        let g = s.read().unwrap();
        let a = g.get(&vec![1u8]).cloned();
        let b = g.get(&vec![2u8]).cloned();
        nd::check(a.is_some() == b.is_some(), "nobody sees a batch half written");
    }
}

//@ prop S02
//@ bounds one batch that puts or deletes two keys, with another thread reading both at every lock acquisition
//@ cover put both, deleted both
#[unsafe(no_mangle)]
pub fn h_store_batch_atomic() {
    let put = nd::pick("put", 0, 1) == 1;
    let mut b = WriteBatch::default();
    #[cfg(not(feature = "real"))]
    {
        let s = hashmap::Backend::default();
        if !put {
            s.put(vec![1], vec![1]).unwrap();
            s.put(vec![2], vec![2]).unwrap();
        }
        unsafe { shared::STORE = Some(s) };
        if put {
            b.put(vec![1], vec![nd::u8("value")]);
            b.put(vec![2], vec![nd::u8("value")]);
            nd::cover("put both");
        } else {
            b.delete(vec![1]);
            b.delete(vec![2]);
            nd::cover("deleted both");
        }
        kstd::sync::set_observer(Some(shared::look));
        nd::check(Storage::write(shared::store(), b).is_ok(), "a batch can be written");
        shared::look();
        kstd::sync::set_observer(None);
    }
    #[cfg(feature = "real")]
    {
        let _ = (put, &mut b);
        if put {
            nd::u8("value");
            nd::u8("value");
        }
    }
}

//@ prop S01
//@ bounds every operation of the backend without storage, arbitrary keys and values
#[unsafe(no_mangle)]
pub fn h_nobackend() {
    let s = nobackend::Backend;
    let (k, v) = (key(), value());
    nd::check(s.get(&k).is_err(), "without storage, reading fails");
    nd::check(s.put(k.clone(), v).is_err(), "without storage, writing fails");
    nd::check(s.delete(&k).is_err(), "without storage, deleting fails");
    nd::check(s.prefix_iterator(&k).is_err(), "without storage, listing fails");
    nd::check(s.write(WriteBatch::default()).is_err(), "without storage, a batch fails");
}
