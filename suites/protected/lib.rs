//! Protected memory: nothing of a secret is left in freed memory or shown in text; what is written
//! with serde reads back. futures_utils: flatten_err.
use witnet_protected::{Protected, ProtectedString};

/// An unusual size, so that no other allocation has it.
const N: usize = 53;

fn secret() -> Vec<u8> {
    let mut v = Vec::with_capacity(N);
    for _ in 0..N {
        v.push(nd::u8("secret"));
    }
    nd::assume(v[0] != 0);
    v
}
fn secret_str() -> String {
    let s = nd::text("secret", N, false);
    nd::assume(s.as_bytes()[0] != 0);
    s
}

//@ prop P01
//@ bounds secrets of 53 arbitrary bytes through every constructor and conversion of Protected
//@ cover dropped
#[unsafe(no_mangle)]
pub fn h_protected_wiped() {
    let v = secret();
    let how = nd::pick("how", 0, 6);
    nd::watch_frees(N);
    match how {
        0 => drop(Protected::new(v)),
        1 => drop(Protected::from(v)),
        2 => {
            let p = Protected::new(v);
            let q = p.clone();
            nd::check(p == q && q.len() == N, "a clone holds the same bytes");
        }
        3 => {
            // into_boxed_slice keeps the block: there is nothing to spare
            drop(Protected::from(v.into_boxed_slice()));
        }
        4 => {
            let mut p = Protected::new(v);
            p.as_mut()[N - 1] = nd::u8("last");
            let r: &mut [u8] = &mut p;
            r[N - 2] = nd::u8("last but one");
        }
        5 => {
            let mut a = [0u8; N];
            a.copy_from_slice(&v);
            let before = nd::dirty_frees();
            drop(v);
            nd::check(nd::dirty_frees() == before + 1, "a plain vector is not wiped (the observation works)");
            nd::watch_frees(N);
            drop(Protected::from(&a[..]));
        }
        _ => {
            let mut p = Protected::new(v);
            nd::check(p.len() == N, "length");
            p = Protected::new(secret());
            nd::check(p.len() == N, "an assigned secret is the new one");
        }
    }
    nd::check(nd::dirty_frees() == 0, "no memory of a secret is freed before it is zeroed");
    nd::cover("dropped");
}

//@ prop P01
//@ bounds secrets of 53 ASCII characters through every constructor and conversion of ProtectedString
//@ cover dropped
#[unsafe(no_mangle)]
pub fn h_protected_string_wiped() {
    let s = secret_str();
    nd::watch_frees(N);
    match nd::pick("how", 0, 3) {
        0 => drop(ProtectedString::new(s)),
        1 => {
            let p = ProtectedString::new(s);
            drop(p.clone());
            let q: Protected = p.into();
            nd::check(q.len() == N, "the bytes of a string are kept");
        }
        2 => {
            let t = ProtectedString::from(s.as_str());
            nd::check(AsRef::<str>::as_ref(&t) == s, "a protected string reads back");
            let b: &[u8] = t.as_ref();
            nd::check(b == s.as_bytes(), "a protected string reads back as bytes");
            drop(Protected::new(s));
        }
        _ => {
            let p = ProtectedString::new(s);
            let q: Protected = p.clone().into();
            nd::check(q.as_ref() == AsRef::<[u8]>::as_ref(&p), "a converted string has the same bytes");
        }
    }
    nd::check(nd::dirty_frees() == 0, "no memory of a secret is freed before it is zeroed");
    nd::cover("dropped");
}

fn show<T: std::fmt::Debug>(how: usize, x: &T) -> String {
    match how {
        0 => format!("{x:?}"),
        1 => format!("{x:#?}"),
        2 => format!("{x:#x?}"),
        3 => format!("{x:+?}"),
        _ => format!("{x:2.1?}"),
    }
}

//@ prop P02
//@ bounds secrets of 0..=3 arbitrary ASCII characters against a fixed one of another length, the formats {:?} {:#?} {:#x?} {:+?} {:2.1?}
//@ cover shown
#[unsafe(no_mangle)]
pub fn h_protected_masked() {
    let how = nd::pick("format", 0, 4);
    let n = nd::pick("length", 0, 3);
    let v = nd::text("secret", n, false);
    let (p, q) = (Protected::new(v.clone().into_bytes()), ProtectedString::new(v));
    let other = "another secret";
    let (p2, q2) = (Protected::new(other), ProtectedString::new(other));
    nd::check(nd::same(show(how, &p).as_bytes(), show(how, &p2).as_bytes()), "debug output of protected bytes shows nothing of them");
    nd::check(nd::same(show(how, &q).as_bytes(), show(how, &q2).as_bytes()), "debug output of a protected string shows nothing of it");
    nd::check(nd::same(show(how, &Some(q)).as_bytes(), show(how, &Some(q2)).as_bytes()), "debug output of something that holds a protected string shows nothing of it");
    nd::cover("shown");
}

//@ prop P03
//@ bounds secrets of 0..=3 (thorough 5) arbitrary bytes / characters (ASCII and some wider ones), through bincode and JSON values
//@ cover binary, json
#[unsafe(no_mangle)]
pub fn h_protected_serde() {
    let n = nd::pick("length", 0, if cfg!(feature = "thorough") { 5 } else { 3 });
    let v: Vec<u8> = (0..n).map(|_| nd::u8("secret")).collect();
    let p = Protected::new(v.clone());
    let s = nd::text("character", n, true);
    let q = ProtectedString::new(s.clone());
    if nd::pick("format", 0, 1) == 0 {
        let b = bincode::serialize(&p).unwrap();
        nd::check(bincode::deserialize::<Protected>(&b).unwrap() == p, "protected bytes survive a binary format");
        nd::check(b.len() == n + 8 && b[8..] == v, "protected bytes are written as bytes");
        let b = bincode::serialize(&q).unwrap();
        nd::check(bincode::deserialize::<ProtectedString>(&b).unwrap() == q, "a protected string survives a binary format");
        nd::check(b.len() == s.len() + 8 && &b[8..] == s.as_bytes(), "a protected string is written as a string");
        nd::cover("binary");
    } else {
        let b = serde_json::to_value(&p).unwrap();
        match serde_json::from_value::<Protected>(b) {
            Ok(x) => nd::check(x == p, "protected bytes survive JSON"),
            Err(_) => nd::check(false, "protected bytes survive JSON"),
        }
        let b = serde_json::to_value(&q).unwrap();
        match serde_json::from_value::<ProtectedString>(b) {
            Ok(x) => nd::check(x == q, "a protected string survives JSON"),
            Err(_) => nd::check(false, "a protected string survives JSON"),
        }
        nd::cover("json");
    }
}

//@ prop P02
//@ bounds pairs of secrets of 0..=4 arbitrary bytes
#[unsafe(no_mangle)]
pub fn h_protected_compare() {
    let n = nd::pick("length", 0, 4);
    let m = nd::pick("other length", 0, 4);
    let a: Vec<u8> = (0..n).map(|_| nd::u8("a")).collect();
    let b: Vec<u8> = (0..m).map(|_| nd::u8("b")).collect();
    let (p, q) = (Protected::new(a.clone()), Protected::from(b.clone()));
    nd::check((p == q) == (a == b), "protected bytes are equal exactly when the bytes are");
    nd::check(p.cmp(&q) == a.cmp(&b), "protected bytes are ordered as the bytes are");
    nd::check(p.as_ref() == &a[..] && p[..] == a[..], "protected bytes read back");
}

use futures::FutureExt;
use witnet_futures_utils::TryFutureExt2;

#[derive(PartialEq, Debug)]
struct E(u8, u64);
struct Inner(u64);
struct Outer(u64);
impl From<Inner> for E {
    fn from(x: Inner) -> E {
        E(1, x.0)
    }
}
impl From<Outer> for E {
    fn from(x: Outer) -> E {
        E(2, x.0)
    }
}

//@ prop F01
//@ bounds every nesting of results with arbitrary 64-bit contents
//@ cover ok, inner error, outer error
#[unsafe(no_mangle)]
pub fn h_flatten_err() {
    let x = nd::u64("content");
    let r: Result<Result<u64, Inner>, Outer> = match nd::pick("case", 0, 2) {
        0 => Ok(Ok(x)),
        1 => Ok(Err(Inner(x))),
        _ => Err(Outer(x)),
    };
    let want: Result<u64, E> = match &r {
        Ok(Ok(x)) => {
            nd::cover("ok");
            Ok(*x)
        }
        Ok(Err(e)) => {
            nd::cover("inner error");
            Err(E(1, e.0))
        }
        Err(e) => {
            nd::cover("outer error");
            Err(E(2, e.0))
        }
    };
    let got: Option<Result<u64, E>> = futures::future::ready(r).flatten_err::<u64, Inner, Outer, E>().now_or_never();
    nd::check(got == Some(want), "flattening keeps the value or the error of whichever level it came from");
}
