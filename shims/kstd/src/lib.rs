//! Stand-in for the parts of `std` whose implementation is irrelevant to the checked properties but
//! would swamp the solver: hash maps and sets become association lists (no SipHash; the iteration
//! order is either insertion order or, after `nd::arbitrary_hash_order(true)`, an arbitrary one chosen by the
//! solver), and locks become single-threaded cells. Everything else is the real `std`.
#![allow(clippy::all)]

pub use std::*;

pub mod collections;
pub mod sync;
#[cfg(feature = "serde")]
mod serde_impls;

pub(crate) fn place(n: usize) -> usize {
    if n == 0 || !nd::hash_order_is_arbitrary() {
        n
    } else {
        nd::pick("hash order", 0, n)
    }
}

/// `catch_unwind` ends a panicking call without running the destructors below it.
pub mod panic {
    pub use std::panic::*;
    extern "C-unwind" fn call<F: FnOnce() -> R, R>(p: *mut u8) {
        let p = unsafe { &mut *(p as *mut (Option<F>, Option<R>)) };
        p.1 = Some(p.0.take().unwrap()());
    }
    pub fn catch_unwind<F: FnOnce() -> R, R>(f: F) -> std::thread::Result<R> {
        let mut d: (Option<F>, Option<R>) = (Some(f), None);
        if nd::catch(call::<F, R>, &mut d as *mut (Option<F>, Option<R>) as *mut u8) {
            Err(Box::new("panic"))
        } else {
            Ok(d.1.unwrap())
        }
    }
}
