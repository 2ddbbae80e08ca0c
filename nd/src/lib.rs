//! Harness interface. With the feature `sym` the functions below are external symbols which the
//! symbolic executor (rsym) interprets; without it the same harness runs natively on the list of
//! values of one path (replay of counterexamples and of sampled paths).

macro_rules! vals {
    ($($f:ident $t:ty, $bits:expr;)*) => { $(
        #[inline]
        pub fn $f(name: &'static str) -> $t { imp::val($bits, name) as $t }
    )* };
}
vals! { u8 u8, 8; u16 u16, 16; u32 u32, 32; u64 u64, 64; usize usize, 64; i8 i8, 8; i16 i16, 16; i32 i32, 32; i64 i64, 64; }

#[inline]
pub fn bool(name: &'static str) -> bool {
    imp::val(1, name) & 1 == 1
}
/// A symbolic value of fewer bits.
#[inline]
pub fn bits(bits: u32, name: &'static str) -> u64 {
    imp::val(bits, name)
}
/// `lo <= value <= hi`, kept symbolic.
#[inline]
pub fn range(name: &'static str, lo: u64, hi: u64) -> u64 {
    let bits = if hi == 0 { 1 } else { 64 - hi.leading_zeros() };
    let v = imp::val(bits, name);
    if lo > 0 || hi != u64::MAX >> (64 - bits) {
        imp::assume(lo <= v && v <= hi);
    }
    v
}
/// `lo <= value <= hi`, one path per value (for shapes and sizes).
#[inline]
pub fn pick(name: &'static str, lo: usize, hi: usize) -> usize {
    let v = imp::val(8, name);
    imp::assume(lo as u64 <= v && v <= hi as u64);
    imp::concretize(v) as usize
}
#[inline]
pub fn u128(name: &'static str) -> u128 {
    let hi = imp::val(64, name) as u128;
    let lo = imp::val(64, name) as u128;
    hi << 64 | lo
}
#[inline]
pub fn f64(name: &'static str) -> f64 {
    f64::from_bits(imp::val(64, name))
}
pub fn bytes<const N: usize>(name: &'static str) -> [u8; N] {
    let mut a = [0u8; N];
    for x in a.iter_mut() {
        *x = imp::val(8, name) as u8;
    }
    a
}
/// Text of `n` characters: each any ASCII character (control characters and white space included) or,
/// with `wide`, one of a few characters of two to four bytes.
pub fn text(name: &'static str, n: usize, wide: bool) -> String {
    let mut s = String::with_capacity(n);
    for _ in 0..n {
        match if wide { pick("kind of character", 0, 4) } else { 0 } {
            0 => s.push(range(name, 0, 127) as u8 as char),
            1 => s.push('\u{e9}'),
            2 => s.push('\u{a0}'),
            3 => s.push('\u{2003}'),
            _ => s.push('\u{1f600}'),
        }
    }
    s
}
#[inline]
pub fn assume(c: bool) {
    imp::assume(c)
}
/// The property: must hold on every path.
#[inline]
pub fn check(c: bool, label: &'static str) {
    imp::check(c, label)
}
/// Reachability witness: every declared label must be reached by at least one path.
#[inline]
pub fn cover(label: &'static str) {
    imp::cover(label)
}
/// A value compared between the symbolic path (under its model) and the native replay.
#[inline]
pub fn observe(label: &'static str, v: u64) {
    imp::observe(label, v)
}
/// Between `may_panic(true)` and `may_panic(false)` a panic of the code under test ends the path
/// quietly; everywhere else a reachable panic is a violation.
#[inline]
pub fn may_panic(c: bool) {
    imp::may_panic(c)
}
#[inline]
pub fn concretize(v: u64) -> u64 {
    imp::concretize(v)
}
static ARBITRARY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From here on, let every insertion into a stand-in hash map land at an arbitrary position of its
/// iteration order (no effect on the real `std` maps, whose order is arbitrary anyway).
#[inline]
pub fn arbitrary_hash_order(on: bool) {
    ARBITRARY.store(on, std::sync::atomic::Ordering::Relaxed)
}
#[inline]
pub fn hash_order_is_arbitrary() -> bool {
    ARBITRARY.load(std::sync::atomic::Ordering::Relaxed)
}
static INJECTIVE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From here on, the stand-ins of hash functions have no collisions: outputs are equal exactly when the
/// inputs are (which is decided for every pair of inputs, where it makes a difference).
#[inline]
pub fn no_collisions(on: bool) {
    INJECTIVE.store(on, std::sync::atomic::Ordering::Relaxed)
}
#[inline]
pub fn collisions_are_excluded() -> bool {
    INJECTIVE.load(std::sync::atomic::Ordering::Relaxed)
}
static FIXED_WIDTH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From here on, the stand-in of protobuf writes the same bytes natively as in the symbolic build: every
/// integer with all its bytes (for harnesses that choose positions in encoded messages).
#[inline]
pub fn fixed_width_encoding(on: bool) {
    FIXED_WIDTH.store(on, std::sync::atomic::Ordering::Relaxed)
}
#[inline]
pub fn encoding_is_fixed_width() -> bool {
    cfg!(feature = "sym") || FIXED_WIDTH.load(std::sync::atomic::Ordering::Relaxed)
}
/// Are the two byte strings the same expressions? (natively: the same bytes). For stand-ins of ideal
/// functions: equal arguments give equal results, everything else gives a fresh value.
#[inline]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && imp::same(a, b)
}
/// Are all the bytes known (not symbolic)? Recorded with the values of the path, for the native replay on the stand-ins.
#[inline]
pub fn known(a: &[u8]) -> bool {
    imp::known(a)
}
/// Changes for every native run of a harness in the same process (stand-ins drop their tables).
#[inline]
pub fn run_id() -> u64 {
    imp::run_id()
}
/// Starts counting the heap blocks of exactly `size` bytes that are freed with a byte that may be
/// different from zero.
#[inline]
pub fn watch_frees(size: usize) {
    imp::watch_frees(size)
}
/// How many such blocks were freed since.
#[inline]
pub fn dirty_frees() -> u64 {
    imp::dirty_frees()
}
/// Calls `f(data)`; did it panic?
#[inline]
pub fn catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool {
    imp::catch(f, data)
}
/// A bound of a stand-in was exceeded: the run is reported as an error, never as success.
#[cold]
pub fn capacity() -> ! {
    imp::capacity()
}

#[cfg(feature = "sym")]
mod imp {
    unsafe extern "C" {
        fn __nd_val(bits: u32, p: *const u8, n: usize) -> u64;
        fn __nd_assume(c: bool);
        fn __nd_check(c: bool, p: *const u8, n: usize);
        fn __nd_cover(p: *const u8, n: usize);
        fn __nd_observe(p: *const u8, n: usize, v: u64);
        fn __nd_may_panic(c: bool);
        fn __nd_capacity();
        fn __nd_concretize(v: u64) -> u64;
        fn __nd_known(a: *const u8, n: usize) -> bool;
        fn __nd_same(a: *const u8, b: *const u8, n: usize) -> bool;
        fn __nd_watch_frees(n: usize);
        fn __nd_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool;
        fn __nd_dirty_frees() -> u64;
    }
    #[inline]
    pub fn same(a: &[u8], b: &[u8]) -> bool {
        unsafe { __nd_same(a.as_ptr(), b.as_ptr(), a.len()) }
    }
    #[inline]
    pub fn known(a: &[u8]) -> bool {
        unsafe { __nd_known(a.as_ptr(), a.len()) }
    }
    #[inline]
    pub fn run_id() -> u64 {
        0
    }
    #[inline]
    pub fn catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool {
        unsafe { __nd_try(f, data) }
    }
    #[inline]
    pub fn watch_frees(n: usize) {
        unsafe { __nd_watch_frees(n) }
    }
    #[inline]
    pub fn dirty_frees() -> u64 {
        unsafe { __nd_dirty_frees() }
    }
    #[inline]
    pub fn val(bits: u32, n: &'static str) -> u64 {
        unsafe { __nd_val(bits, n.as_ptr(), n.len()) }
    }
    #[inline]
    pub fn assume(c: bool) {
        unsafe { __nd_assume(c) }
    }
    #[inline]
    pub fn check(c: bool, n: &'static str) {
        unsafe { __nd_check(c, n.as_ptr(), n.len()) }
    }
    #[inline]
    pub fn cover(n: &'static str) {
        unsafe { __nd_cover(n.as_ptr(), n.len()) }
    }
    #[inline]
    pub fn observe(n: &'static str, v: u64) {
        unsafe { __nd_observe(n.as_ptr(), n.len(), v) }
    }
    #[inline]
    pub fn may_panic(c: bool) {
        unsafe { __nd_may_panic(c) }
    }
    #[inline]
    pub fn concretize(v: u64) -> u64 {
        unsafe { __nd_concretize(v) }
    }
    pub fn capacity() -> ! {
        unsafe { __nd_capacity() }
        std::process::abort()
    }
}

#[cfg(not(feature = "sym"))]
mod imp {
    use super::native::*;
    use std::sync::atomic::Ordering::Relaxed;
    pub fn val(bits: u32, n: &'static str) -> u64 {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let v = c.values.get(c.next).copied();
            c.next += 1;
            match v {
                Some(v) => {
                    if bits >= 64 {
                        v
                    } else {
                        v & ((1u64 << bits) - 1)
                    }
                }
                None => {
                    drop(c);
                    std::panic::panic_any(Stop(format!("no value for {n}")))
                }
            }
        })
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Stop("assumption false".into()))
        }
    }
    pub fn check(c: bool, n: &'static str) {
        if !c {
            CTX.with(|x| x.borrow_mut().failed.push(n))
        }
    }
    pub fn cover(n: &'static str) {
        CTX.with(|x| x.borrow_mut().covers.push(n))
    }
    pub fn observe(n: &'static str, v: u64) {
        CTX.with(|x| x.borrow_mut().obs.push((n, v)))
    }
    pub fn may_panic(c: bool) {
        CTX.with(|x| x.borrow_mut().may_panic = c)
    }
    pub fn concretize(v: u64) -> u64 {
        v
    }
    pub fn same(a: &[u8], b: &[u8]) -> bool {
        a == b
    }
    pub fn known(_: &[u8]) -> bool {
        val(1, "known") & 1 == 1
    }
    pub fn run_id() -> u64 {
        RUN.load(Relaxed)
    }
    pub fn catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(data))) {
            Ok(()) => false,
            Err(e) if e.is::<Stop>() => std::panic::resume_unwind(e),
            Err(_) => true,
        }
    }
    pub fn watch_frees(n: usize) {
        WATCH.store(n, Relaxed);
        DIRTY.store(0, Relaxed);
    }
    pub fn dirty_frees() -> u64 {
        DIRTY.load(Relaxed)
    }
    pub fn capacity() -> ! {
        std::panic::panic_any(Stop("capacity".into()))
    }
}

#[cfg(not(feature = "sym"))]
pub mod native {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
    pub static RUN: AtomicU64 = AtomicU64::new(0);
    pub static WATCH: AtomicUsize = AtomicUsize::new(0);
    pub static DIRTY: AtomicU64 = AtomicU64::new(0);
    struct Watch;
    unsafe impl GlobalAlloc for Watch {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            // zeroed, so that bytes never written do not count as dirty
            unsafe { System.alloc_zeroed(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if l.size() == WATCH.load(Relaxed) && l.size() > 0 {
                for i in 0..l.size() {
                    if unsafe { p.add(i).read_volatile() } != 0 {
                        DIRTY.fetch_add(1, Relaxed);
                        break;
                    }
                }
            }
            unsafe { System.dealloc(p, l) }
        }
    }
    #[global_allocator]
    static ALLOCATOR: Watch = Watch;
    pub struct Stop(pub String);
    #[derive(Default)]
    pub struct Ctx {
        pub values: Vec<u64>,
        pub next: usize,
        pub failed: Vec<&'static str>,
        pub covers: Vec<&'static str>,
        pub obs: Vec<(&'static str, u64)>,
        pub may_panic: bool,
    }
    thread_local! {
        pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
        pub static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    }
    fn esc(s: &str) -> String {
        let mut o = String::new();
        for ch in s.chars() {
            match ch {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 32 => o.push(' '),
                c => o.push(c),
            }
        }
        o
    }
    /// Reads lines `entry v0 v1 ...` and prints one JSON object per line.
    pub fn run(entries: &[(&str, fn())]) {
        std::panic::set_hook(Box::new(|i| {
            let loc = i.location().map(|l| l.to_string()).unwrap_or_default();
            LAST.with(|l| *l.borrow_mut() = loc);
        }));
        let mut line = String::new();
        while {
            line.clear();
            std::io::stdin().read_line(&mut line).unwrap_or(0) > 0
        } {
            let mut it = line.split_whitespace();
            let Some(name) = it.next() else { continue };
            let values: Vec<u64> = it.map(|x| x.parse().expect("value")).collect();
            let Some((_, f)) = entries.iter().find(|(n, _)| *n == name) else {
                println!("{{\"error\":\"no entry\"}}");
                continue;
            };
            super::arbitrary_hash_order(false);
            super::no_collisions(false);
            super::fixed_width_encoding(false);
            RUN.fetch_add(1, Relaxed);
            WATCH.store(0, Relaxed);
            CTX.with(|c| *c.borrow_mut() = Ctx { values, ..Default::default() });
            let f = *f;
            let r = std::panic::catch_unwind(f);
            let (mut end, mut msg) = ("end", String::new());
            if let Err(e) = r {
                if let Some(s) = e.downcast_ref::<Stop>() {
                    end = "stop";
                    msg = s.0.clone();
                } else {
                    end = "panic";
                    msg = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    msg += " at ";
                    msg += &LAST.with(|l| l.borrow().clone());
                }
            }
            CTX.with(|c| {
                let c = c.borrow();
                println!(
                    "{{\"entry\":\"{}\",\"end\":\"{}\",\"msg\":\"{}\",\"may_panic\":{},\"used\":{},\"failed\":[{}],\"covers\":[{}],\"obs\":[{}]}}",
                    name,
                    end,
                    esc(&msg),
                    c.may_panic,
                    c.next,
                    c.failed.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
                    c.covers.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
                    c.obs.iter().map(|(n, v)| format!("[\"{}\",\"{}\"]", esc(n), v)).collect::<Vec<_>>().join(",")
                );
            });
        }
    }
}
