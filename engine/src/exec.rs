//! Forking symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    I(E),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub bb: u32,
    pub prev: u32,
    pub ip: usize,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub allocas: Vec<u64>,
    /// a panic below this frame ends here (`catch_unwind`)
    pub catch: bool,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub gmem: BTreeMap<u64, Rc<Obj>>,
    pub pcs: Vec<u32>,
    pub pcset: Rc<HashSet<u32, BuildFx>>,
    pub model: Model,
    pub nd: Vec<(E, u16, Rc<str>)>,
    pub obs: Vec<(Rc<str>, E)>,
    pub may_panic: bool,
    pub watch: u64,
    pub dirty: u64,
    pub steps: u64,
    pub nchecks: u32,
    pub forced: Option<(E, u64)>,
}

pub enum Stop {
    End(&'static str),
    Infeasible,
    Panic(String),
    Err(String),
    Forked,
}

pub struct Violation {
    pub kind: String,
    pub label: String,
    pub nd: Vec<(String, u16, u128)>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub nd: Vec<(String, u16, u128)>,
    pub obs: Vec<(String, u128)>,
    pub end: String,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub paths_end: u64,
    pub paths_assumed: u64,
    pub paths_panic_ok: u64,
    pub checks_concrete: u64,
    pub checks_proved: u64,
    pub steps: u64,
    pub forks: u64,
    pub covers: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, (u64, u64)>,
    pub violations: Vec<Violation>,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub functions: BTreeMap<String, u64>,
    pub incomplete: Option<String>,
    pub max_nd: usize,
}

pub struct Cfg {
    pub max_steps_path: u64,
    pub max_secs: f64,
    pub max_violations: usize,
    pub samples: usize,
    pub shard: (usize, usize),
    pub entry: String,
    pub seed: u64,
    pub trace: bool,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub smt: Smt,
    pub rep: Report,
    pub cfg: Cfg,
    work: VecDeque<State>,
    fn_addr: HashMap<String, u64>,
    addr_fn: HashMap<u64, Rc<str>>,
    glob_addr: HashMap<String, u64>,
    globs: BTreeMap<u64, Rc<Obj>>,
    glob_next: u64,
    nd_syms: HashMap<(u32, u16), u32>,
    start: Instant,
    seen_viol: HashSet<String>,
    rng: u64,
    prims: RefCell<HashMap<Rc<str>, Option<Prim>>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Prim {
    NdVal,
    NdAssume,
    NdCheck,
    NdCover,
    NdObserve,
    NdMayPanic,
    NdCapacity,
    NdConcretize,
    NdSame,
    NdKnown,
    NdWatch,
    NdDirty,
    NdTry,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    NopVoid,
    Backtrace,
    Zero,
    MemCpy,
    MemSet,
    MemCmp,
    BCmp,
    StrLen,
    Clock,
    Random,
    Panic,
    Intr,
    Math,
}

fn name_contains_any(n: &str, pats: &[&str]) -> bool {
    pats.iter().any(|p| n.contains(p))
}

pub fn classify(n: &str, defined: bool) -> Option<Prim> {
    Some(match n {
        "__nd_val" => Prim::NdVal,
        "__nd_assume" => Prim::NdAssume,
        "__nd_check" => Prim::NdCheck,
        "__nd_cover" => Prim::NdCover,
        "__nd_observe" => Prim::NdObserve,
        "__nd_may_panic" => Prim::NdMayPanic,
        "__nd_capacity" => Prim::NdCapacity,
        "__nd_concretize" => Prim::NdConcretize,
        "__nd_same" => Prim::NdSame,
        "__nd_known" => Prim::NdKnown,
        "__nd_watch_frees" => Prim::NdWatch,
        "__nd_dirty_frees" => Prim::NdDirty,
        "__nd_try" => Prim::NdTry,
        "memcpy" | "memmove" => Prim::MemCpy,
        "memset" => Prim::MemSet,
        "memcmp" => Prim::MemCmp,
        "bcmp" => Prim::BCmp,
        "strlen" => Prim::StrLen,
        "clock_gettime" => Prim::Clock,
        "getrandom" => Prim::Random,
        "abort" => Prim::Panic,
        "fmod" | "pow" | "exp" | "log" | "log2" | "log10" | "sin" | "cos" | "tan" | "powf" | "fmodf" | "round" | "trunc" | "floor" | "ceil" | "exp2" | "cbrt" | "fmin" | "fmax" | "rint" | "roundf" | "floorf" | "ceilf" | "truncf" => Prim::Math,
        _ => {
            if n.starts_with("llvm.") {
                Prim::Intr
            } else if n.ends_with("___rust_alloc") || n == "__rust_alloc" {
                Prim::Alloc
            } else if n.ends_with("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" {
                Prim::AllocZ
            } else if n.ends_with("___rust_dealloc") || n == "__rust_dealloc" {
                Prim::Dealloc
            } else if n.ends_with("___rust_realloc") || n == "__rust_realloc" {
                Prim::Realloc
            } else if n.contains("9Backtrace7capture") {
                Prim::Backtrace
            } else if n.contains("__rust_no_alloc_shim") {
                Prim::NopVoid
            } else if name_contains_any(
                n,
                &[
                    "4core9panicking",
                    "13unwrap_failed",
                    "13expect_failed",
                    "16slice_index_fail",
                    "16slice_error_fail",
                    "slice_start_index_len_fail",
                    "slice_end_index_len_fail",
                    "slice_index_order_fail",
                    "5alloc7raw_vec12handle_error",
                    "18handle_alloc_error",
                    "17capacity_overflow",
                    "22panic_already_borrowed",
                    "30panic_already_mutably_borrowed",
                    "rust_begin_unwind",
                    "11begin_panic",
                    "panic_on_ord_violation",
                    "20rust_panic_with_hook",
                    "18panic_access_error",
                    "17len_mismatch_fail",
                    "15const_panic_fmt",
                    "7process5abort",
                    "panic_const",
                    "8no_panic",
                    "panic_fmt",
                    "13assert_failed",
                    "19assert_failed_inner",
                    "12out_of_range",
                    "11swap_remove13assert_failed",
                ],
            ) && !n.contains("Location")
            {
                Prim::Panic
            } else if defined {
                return None;
            } else {
                return None;
            }
        }
    })
}

pub fn demangle(n: &str) -> String {
    // crude v0: pull out <len><ident> runs
    let b = n.as_bytes();
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            if let Ok(l) = n[s..i].parse::<usize>() {
                let st = if i < b.len() && b[i] == b'_' { i + 1 } else { i };
                if l > 1 && st + l <= b.len() && (b[st].is_ascii_alphabetic() || b[st] == b'_') {
                    out.push(n[st..st + l].to_string());
                    i = st + l;
                }
            }
        } else if b[i] == b's' || b[i] == b'C' {
            // disambiguator s..._ : skip
            if b[i] == b's' {
                if let Some(e) = n[i..].find('_') {
                    if n[i + 1..i + e].bytes().all(|c| c.is_ascii_alphanumeric()) && e < 16 {
                        i += e + 1;
                        continue;
                    }
                }
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    out.join("::")
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Self {
        let seed = cfg.seed;
        Exec {
            m,
            smt: Smt::new(),
            rep: Report::default(),
            cfg,
            work: VecDeque::new(),
            fn_addr: HashMap::new(),
            addr_fn: HashMap::new(),
            glob_addr: HashMap::new(),
            globs: BTreeMap::new(),
            glob_next: GLOB,
            nd_syms: HashMap::new(),
            start: Instant::now(),
            seen_viol: HashSet::new(),
            rng: seed.wrapping_mul(0x9e3779b97f4a7c15) | 1,
            prims: RefCell::new(HashMap::new()),
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---------- globals ----------
    fn fn_address(&mut self, n: &str) -> u64 {
        if let Some(a) = self.fn_addr.get(n) {
            return *a;
        }
        let a = FUNC + 16 * self.fn_addr.len() as u64;
        self.fn_addr.insert(n.to_string(), a);
        self.addr_fn.insert(a, n.into());
        a
    }
    fn gaddr(&mut self, n: &str) -> u64 {
        let n = self.m.resolve_alias(n).to_string();
        if self.m.is_function(&n) {
            return self.fn_address(&n);
        }
        if let Some(a) = self.glob_addr.get(&n) {
            return *a;
        }
        let g = match self.m.global(&n) {
            Some(g) => g,
            None => {
                // unknown external symbol: treat as function address
                return self.fn_address(&n);
            }
        };
        let (sz, al) = size_align(&g.ty);
        let al = al.max(g.align).max(16);
        let base = (self.glob_next + al - 1) / al * al;
        self.glob_next = base + sz + 32;
        self.glob_addr.insert(n.clone(), base);
        let mut o = Obj::new(base, sz);
        o.constant = g.constant;
        if let Some(k) = &g.init {
            self.init(&mut o, 0, &g.ty, k);
        }
        self.globs.insert(base, Rc::new(o));
        base
    }
    fn init(&mut self, o: &mut Obj, off: u64, t: &Ty, k: &K) {
        match (t, k) {
            (_, K::Undef(_)) | (_, K::Zero(_)) => {}
            (_, K::Bytes(b)) => o.data[off as usize..off as usize + b.len()].copy_from_slice(b),
            (_, K::Int(w, v)) => o.write(off, size_align(t).0.min((*w as u64 + 7) / 8).max(1), c128(*w, *v)),
            (_, K::Glob(g, a)) => {
                let ad = self.gaddr(g).wrapping_add(*a as u64);
                o.write(off, 8, c(64, ad));
            }
            (_, K::Rel(w, g, a, h, b)) => {
                let d = self.gaddr(g).wrapping_add(*a as u64).wrapping_sub(self.gaddr(h).wrapping_add(*b as u64));
                o.write(off, *w as u64 / 8, c128(*w, d as u128 & mask(*w)));
            }
            (Ty::Struct(v, p), K::Agg(ks)) => {
                for (i, (ft, fk)) in v.iter().zip(ks).enumerate() {
                    self.init(o, off + field_off(v, *p, i), ft, fk);
                }
            }
            (Ty::Arr(_, e), K::Agg(ks)) | (Ty::Vec(_, e), K::Agg(ks)) => {
                let s = size_align(e).0;
                for (i, fk) in ks.iter().enumerate() {
                    self.init(o, off + s * i as u64, e, fk);
                }
            }
            x => panic!("init {x:?}"),
        }
    }
    fn kval(&mut self, k: &K, t: &Ty) -> V {
        match k {
            K::Int(w, v) => V::I(c128(*w, *v)),
            K::Glob(g, o) => V::I(c(64, self.gaddr(g).wrapping_add(*o as u64))),
            K::Rel(w, g, a, h, b) => {
                let d = self.gaddr(g).wrapping_add(*a as u64).wrapping_sub(self.gaddr(h).wrapping_add(*b as u64));
                V::I(c128(*w, d as u128 & mask(*w)))
            }
            K::Undef(_) | K::Zero(_) => zero(t),
            K::Agg(v) => {
                let tys: Vec<Ty> = match t {
                    Ty::Struct(ts, _) => ts.clone(),
                    Ty::Arr(_, e) | Ty::Vec(_, e) => vec![(**e).clone(); v.len()],
                    t => panic!("agg const {t:?}"),
                };
                V::A(Rc::new(v.iter().zip(&tys).map(|(k, t)| self.kval(k, t)).collect()))
            }
            K::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::I(c(8, *x as u64))).collect())),
        }
    }
    fn op(&mut self, fr: &Frame, o: &O) -> V {
        match o {
            O::R(r) => fr.regs[*r as usize].clone(),
            O::C(w, v) => V::I(c128(*w, *v)),
            O::G(g, off) => V::I(c(64, self.gaddr(g).wrapping_add(*off as u64))),
            O::K(k, t) => self.kval(k, t),
        }
    }
    fn opi(&mut self, fr: &Frame, o: &O, t: &Ty) -> Result<E, Stop> {
        match self.op(fr, o) {
            V::I(e) => Ok(e),
            V::U => Ok(match zero(t) {
                V::I(e) => e,
                _ => return Err(Stop::Err("undef aggregate as int".into())),
            }),
            V::A(v) => pack(&v).ok_or_else(|| Stop::Err("aggregate used as int".into())),
        }
    }

    // ---------- solver helpers ----------
    fn eval(&self, st: &State, e: E) -> u128 {
        let m = st.model.clone();
        let f = move |s: u32| m.get(&s).copied().unwrap_or(0);
        Eval::new(&f).e(e)
    }
    fn check(&mut self, st: &State, q: E) -> Result<Option<Model>, Stop> {
        if q.id != 0 && st.pcset.contains(&q.id) {
            return Ok(Some(st.model.clone()));
        }
        match self.smt.check(&st.pcs, q, &st.model) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let m2 = m.clone();
                let f = move |s: u32| m2.get(&s).copied().unwrap_or(0);
                let mut ev = Eval::new(&f);
                if ev.e(q) != 1 {
                    return Err(Stop::Err("solver model does not satisfy the query (encoding mismatch)".into()));
                }
                Ok(Some(m))
            }
            Res::Unknown => Err(Stop::Err("solver gave up (timeout)".into())),
        }
    }
    fn assume(st: &mut State, e: E) {
        if e.id == 0 {
            return;
        }
        if st.pcset.contains(&e.id) {
            return;
        }
        // split conjunctions
        let n = node(e.id);
        if n.op == Op::And {
            Self::assume(st, from_id(n.a));
            Self::assume(st, from_id(n.b));
            return;
        }
        st.pcs.push(e.id);
        Rc::make_mut(&mut st.pcset).insert(e.id);
    }
    /// Decide a branch; forks when both sides are feasible. Returns the side taken here.
    fn branch(&mut self, st: &mut State, cnd: E) -> Result<bool, Stop> {
        if cnd.id == 0 {
            return Ok(cnd.v == 1);
        }
        if let Some((e, v)) = st.forced {
            // resuming a forked state at this very decision
            if e == cnd {
                st.forced = None;
                return Ok(v == 1);
            }
        }
        if st.pcset.contains(&cnd.id) {
            return Ok(true);
        }
        let nc = not(cnd);
        if nc.id != 0 && st.pcset.contains(&nc.id) {
            return Ok(false);
        }
        let side = self.eval(st, cnd) == 1;
        let other = if side { nc } else { cnd };
        match self.check(st, other)? {
            None => {
                // implied; no need to record
                Ok(side)
            }
            Some(m) => {
                self.rep.forks += 1;
                let mut o = st.clone();
                Self::assume(&mut o, other);
                o.model = m;
                Self::assume(st, if side { cnd } else { nc });
                // canonical order: true side continues here
                if side {
                    o.forced = Some((cnd, 0));
                    self.work.push_back(o);
                    Ok(true)
                } else {
                    o.forced = Some((cnd, 1));
                    std::mem::swap(st, &mut o);
                    st.forced = None;
                    o.forced = Some((cnd, 0));
                    self.work.push_back(o);
                    Ok(true)
                }
            }
        }
    }
    /// Make `e` concrete by forking over every feasible value.
    fn concretize(&mut self, st: &mut State, e: E, what: &str) -> Result<u128, Stop> {
        if let Some(k) = e.konst() {
            return Ok(k);
        }
        if let Some((fe, v)) = st.forced {
            if fe == e {
                st.forced = None;
                return Ok(v as u128);
            }
        }
        let mut vals: Vec<(u128, Model)> = vec![];
        let mut q = bool_(true);
        // first value from the current model
        let v0 = self.eval(st, e);
        vals.push((v0, st.model.clone()));
        q = and(q, not(eq(e, c128(e.w, v0))));
        loop {
            match self.check(st, q)? {
                None => break,
                Some(m) => {
                    let m2 = m.clone();
                    let f = move |s: u32| m2.get(&s).copied().unwrap_or(0);
                    let v = Eval::new(&f).e(e);
                    vals.push((v, m));
                    if vals.len() > 2048 {
                        return Err(Stop::Err(format!("more than 2048 feasible values for a {what}")));
                    }
                    q = and(q, not(eq(e, c128(e.w, v))));
                }
            }
        }
        vals.sort_by_key(|x| x.0);
        let mut it = vals.into_iter();
        let (mine, mm) = it.next().unwrap();
        for (v, m) in it {
            self.rep.forks += 1;
            let mut o = st.clone();
            Self::assume(&mut o, eq(e, c128(e.w, v)));
            o.model = m;
            o.forced = Some((e, v as u64));
            self.work.push_back(o);
        }
        Self::assume(st, eq(e, c128(e.w, mine)));
        st.model = mm;
        Ok(mine)
    }

    // ---------- memory ----------
    fn obj<'a>(&'a self, st: &'a State, addr: u64, n: u64) -> Result<&'a Obj, Stop> {
        let o = if addr >= HEAP {
            st.mem.find(addr)
        } else if addr >= GLOB {
            match st.gmem.range(..=addr).next_back() {
                Some((_, o)) if addr <= o.base + o.size => Some(o),
                _ => match self.globs.range(..=addr).next_back() {
                    Some((_, o)) if addr <= o.base + o.size => Some(o),
                    _ => None,
                },
            }
        } else {
            None
        };
        match o {
            Some(o) if addr + n <= o.base + o.size => Ok(o),
            _ => Err(Stop::Err(format!("memory access out of bounds: {addr:#x}+{n}"))),
        }
    }
    fn obj_mut<'a>(&'a mut self, st: &'a mut State, addr: u64, n: u64) -> Result<&'a mut Obj, Stop> {
        if addr >= HEAP {
            match st.mem.find_mut(addr) {
                Some(o) if addr + n <= o.base + o.size => return Ok(o),
                _ => {}
            }
        } else if addr >= GLOB {
            let have = matches!(st.gmem.range(..=addr).next_back(), Some((_, o)) if addr <= o.base + o.size);
            if !have {
                if let Some((b, o)) = self.globs.range(..=addr).next_back() {
                    if addr <= o.base + o.size {
                        if o.constant {
                            return Err(Stop::Err("write to constant".into()));
                        }
                        st.gmem.insert(*b, o.clone());
                    }
                }
            }
            if let Some((_, o)) = st.gmem.range_mut(..=addr).next_back() {
                if addr + n <= o.base + o.size {
                    return Ok(Rc::make_mut(o));
                }
            }
        }
        Err(Stop::Err(format!("memory write out of bounds: {addr:#x}+{n}")))
    }
    fn load(&mut self, st: &State, addr: u64, t: &Ty) -> Result<V, Stop> {
        Ok(match t {
            Ty::Int(w) => {
                let n = (*w as u64 + 7) / 8;
                V::I(self.obj(st, addr, n)?.read(addr - self.obj(st, addr, n)?.base, n, *w))
            }
            Ty::Ptr | Ty::F64 => {
                let o = self.obj(st, addr, 8)?;
                V::I(o.read(addr - o.base, 8, 64))
            }
            Ty::F32 => {
                let o = self.obj(st, addr, 4)?;
                V::I(o.read(addr - o.base, 4, 32))
            }
            Ty::Struct(v, p) => {
                let mut r = vec![];
                for (i, ft) in v.iter().enumerate() {
                    r.push(self.load(st, addr + field_off(v, *p, i), ft)?);
                }
                V::A(Rc::new(r))
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let s = size_align(e).0;
                let mut r = vec![];
                for i in 0..*n {
                    r.push(self.load(st, addr + i * s, e)?);
                }
                V::A(Rc::new(r))
            }
            t => return Err(Stop::Err(format!("load of {t:?}"))),
        })
    }
    fn store(&mut self, st: &mut State, addr: u64, t: &Ty, v: &V) -> Result<(), Stop> {
        match (t, v) {
            (_, V::U) => Ok(()),
            (Ty::Struct(ts, p), V::A(vs)) => {
                for (i, (ft, x)) in ts.iter().zip(vs.iter()).enumerate() {
                    self.store(st, addr + field_off(ts, *p, i), ft, x)?;
                }
                Ok(())
            }
            (Ty::Arr(_, e), V::A(vs)) | (Ty::Vec(_, e), V::A(vs)) => {
                let s = size_align(e).0;
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, addr + i as u64 * s, e, x)?;
                }
                Ok(())
            }
            (_, V::I(e)) => {
                let n = (e.w as u64 + 7) / 8;
                let o = self.obj_mut(st, addr, n)?;
                let off = addr - o.base;
                o.write(off, n, *e);
                Ok(())
            }
            x => Err(Stop::Err(format!("store {:?}", x.0))),
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> Result<(), Stop> {
        if n == 0 {
            return Ok(());
        }
        let (data, sym) = {
            let o = self.obj(st, src, n)?;
            let a = (src - o.base) as usize;
            let b = a + n as usize;
            (
                o.data[a..b].to_vec(),
                match &o.sym {
                    Some(s) if s[a..b].iter().any(|x| x.0 != 0) => Some(s[a..b].to_vec()),
                    _ => None,
                },
            )
        };
        let o = self.obj_mut(st, dst, n)?;
        let a = (dst - o.base) as usize;
        let b = a + n as usize;
        o.data[a..b].copy_from_slice(&data);
        let sz = o.size as usize;
        match sym {
            Some(s) => {
                let v = o.sym.get_or_insert_with(|| vec![(0, 0); sz]);
                v[a..b].copy_from_slice(&s);
            }
            None => {
                if let Some(v) = &mut o.sym {
                    for x in &mut v[a..b] {
                        *x = (0, 0);
                    }
                }
            }
        }
        Ok(())
    }
    fn bytes(&self, st: &State, addr: u64, n: u64) -> Result<Vec<E>, Stop> {
        let mut v = vec![];
        if n == 0 {
            return Ok(v);
        }
        let o = self.obj(st, addr, n)?;
        for i in 0..n {
            v.push(o.byte(addr - o.base + i));
        }
        Ok(v)
    }
    fn cstr(&self, st: &State, addr: u64, n: u64) -> Result<String, Stop> {
        let b = self.bytes(st, addr, n)?;
        Ok(String::from_utf8_lossy(&b.iter().map(|e| e.v as u8).collect::<Vec<_>>()).into_owned())
    }

    /// The text of a label; one path per label where the compiler merged several calls into one.
    fn label(&mut self, st: &mut State, p: E, n: E) -> Result<String, Stop> {
        let addr = self.concretize(st, p, "label")? as u64;
        let n = self.concretize(st, n, "label length")? as u64;
        self.cstr(st, addr, n)
    }

    // ---------- reporting ----------
    fn nd_values(&self, st: &State, m: &Model) -> Vec<(String, u16, u128)> {
        let m2 = m.clone();
        let f = move |s: u32| m2.get(&s).copied().unwrap_or(0);
        let mut ev = Eval::new(&f);
        st.nd.iter().map(|(e, w, n)| (n.to_string(), *w, ev.e(*e))).collect()
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&f.f.name)).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, label: &str, m: &Model) {
        let stack = self.stack(st);
        let key = format!("{kind}|{label}|{}", stack.first().cloned().unwrap_or_default());
        if !self.seen_viol.insert(key) {
            return;
        }
        self.rep.violations.push(Violation { kind: kind.into(), label: label.into(), nd: self.nd_values(st, m), stack });
    }

    // ---------- main loop ----------
    pub fn run(&mut self) {
        let f = match self.m.func(&self.cfg.entry.clone()) {
            Some(f) => f,
            None => {
                self.rep.incomplete = Some(format!("entry {} not found", self.cfg.entry));
                return;
            }
        };
        let st = State {
            frames: vec![Frame { regs: vec![V::U; f.nregs], f, bb: 0, prev: 0, ip: 0, dst: None, normal: None, allocas: vec![], catch: false }],
            mem: Mem { objs: BTreeMap::new(), next: HEAP },
            gmem: BTreeMap::new(),
            pcs: vec![],
            pcset: Rc::new(HashSet::default()),
            model: Rc::new(HashMap::default()),
            nd: vec![],
            obs: vec![],
            may_panic: false,
            watch: 0,
            dirty: 0,
            steps: 0,
            nchecks: 0,
            forced: None,
        };
        self.work.push_back(st);
        let (si, sn) = self.cfg.shard;
        let mut split = sn <= 1;
        while let Some(mut st) = if split { self.work.pop_back() } else { self.work.pop_front() } {
            if self.start.elapsed().as_secs_f64() > self.cfg.max_secs {
                self.rep.incomplete = Some(format!("time limit; {} states pending", self.work.len() + 1));
                return;
            }
            if self.rep.violations.len() >= self.cfg.max_violations {
                return;
            }
            let bfs = !split;
            let r = if bfs { self.run_until_fork(&mut st) } else { self.run_path(&mut st) };
            let mine = split || si == 0;
            match r {
                Stop::Forked => {
                    self.work.push_back(st);
                    if self.work.len() >= 6 * sn {
                        let all: Vec<State> = self.work.drain(..).collect();
                        for (i, s) in all.into_iter().enumerate() {
                            if i % sn == si {
                                self.work.push_back(s);
                            }
                        }
                        split = true;
                        if si != 0 {
                            // what the common prefix counted is reported by shard 0 only
                            self.rep.checks_concrete = 0;
                            self.rep.checks_proved = 0;
                            self.rep.forks = 0;
                            self.rep.steps = 0;
                            self.rep.labels.clear();
                            self.smt.stats = Stats::default();
                        }
                    }
                    continue;
                }
                _ if !mine => {
                    // counted by shard 0, but covers, errors etc. are idempotent
                    continue;
                }
                Stop::End(_) => {
                    self.rep.paths += 1;
                    self.rep.paths_end += 1;
                    self.finish(&st, "end");
                }
                Stop::Infeasible => {
                    self.rep.paths += 1;
                    self.rep.paths_assumed += 1;
                }
                Stop::Panic(p) => {
                    self.rep.paths += 1;
                    if st.may_panic {
                        self.rep.paths_panic_ok += 1;
                        self.finish(&st, "panic");
                    } else {
                        let m = st.model.clone();
                        self.violation(&st, "panic", &p, &m);
                    }
                }
                Stop::Err(e) => {
                    self.rep.paths += 1;
                    let stack = self.stack(&st);
                    if self.cfg.trace {
                        eprintln!("ERROR {e}\n  {}", stack.join("\n  "));
                    }
                    *self.rep.errors.entry(format!("{e} @ {}", stack.join(" < "))).or_default() += 1;
                }
            }
        }
        if !split && si != 0 {
            // everything was finished by the prefix phase: shard 0 reports it
            self.rep = Report::default();
        }
    }
    fn finish(&mut self, st: &State, how: &str) {
        self.rep.max_nd = self.rep.max_nd.max(st.nd.len());
        // reservoir of completed paths, replayed natively by the driver
        let k = self.cfg.samples;
        let i = (self.rep.paths_end + self.rep.paths_panic_ok) as usize;
        let slot = if i <= k {
            i - 1
        } else {
            let r = self.rand() as usize % i;
            if r >= k {
                return;
            }
            r
        };
        let m2 = st.model.clone();
        let f = move |s: u32| m2.get(&s).copied().unwrap_or(0);
        let mut ev = Eval::new(&f);
        let s = Sample {
            nd: st.nd.iter().map(|(e, w, n)| (n.to_string(), *w, ev.e(*e))).collect(),
            obs: st.obs.iter().map(|(n, e)| (n.to_string(), ev.e(*e))).collect(),
            end: how.into(),
        };
        if slot < self.rep.samples.len() {
            self.rep.samples[slot] = s;
        } else {
            self.rep.samples.push(s);
        }
    }
    fn run_path(&mut self, st: &mut State) -> Stop {
        loop {
            if let Err(s) = self.step(st) {
                if let Some(s) = self.unwind(st, s) {
                    return s;
                }
            }
            if st.steps % 65536 == 0 {
                if st.steps > self.cfg.max_steps_path {
                    return Stop::Err("instruction limit on one path".into());
                }
                if self.start.elapsed().as_secs_f64() > self.cfg.max_secs {
                    return Stop::Err("time limit".into());
                }
            }
        }
    }
    fn run_until_fork(&mut self, st: &mut State) -> Stop {
        let f0 = self.work.len();
        loop {
            if let Err(s) = self.step(st) {
                if let Some(s) = self.unwind(st, s) {
                    return s;
                }
            }
            if self.work.len() > f0 {
                return Stop::Forked;
            }
            if st.steps % 65536 == 0 && self.start.elapsed().as_secs_f64() > self.cfg.max_secs {
                return Stop::Err("time limit".into());
            }
        }
    }

    /// A panic is caught by the innermost `catch_unwind`; the destructors in between do not run.
    fn unwind(&mut self, st: &mut State, s: Stop) -> Option<Stop> {
        if !matches!(s, Stop::Panic(_)) || !st.frames.iter().any(|f| f.catch) {
            return Some(s);
        }
        loop {
            let fr = st.frames.pop().unwrap();
            for a in &fr.allocas {
                st.mem.objs.remove(a);
            }
            if fr.catch {
                if let Some(d) = fr.dst {
                    Self::set(st, d, V::I(c(1, 1)));
                }
                return self.after(st, fr.normal).err();
            }
        }
    }
    fn set(st: &mut State, d: u32, v: V) {
        if d != u32::MAX {
            let fr = st.frames.last_mut().unwrap();
            fr.regs[d as usize] = v;
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) -> Result<(), Stop> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        let mut np = 0;
        let mut vals: Vec<(u32, V)> = vec![];
        for ins in blk {
            if let I::Phi(d, v, t) = ins {
                np += 1;
                let o = match v.iter().find(|(_, b)| *b == from) {
                    Some((o, _)) => o,
                    None => return Err(Stop::Err("phi without predecessor".into())),
                };
                let fr = st.frames.last().unwrap();
                let mut x = match o {
                    O::R(r) => fr.regs[*r as usize].clone(),
                    _ => {
                        let frc = st.frames.last().unwrap();
                        // constants do not depend on the frame
                        let frp: *const Frame = frc;
                        self.op(unsafe { &*frp }, o)
                    }
                };
                if let V::U = x {
                    x = zero(t);
                }
                vals.push((*d, x));
            } else {
                break;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.prev = from;
        fr.bb = to;
        fr.ip = np;
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> Result<(), Stop> {
        st.steps += 1;
        self.rep.steps += 1;
        let frp: *const Frame = st.frames.last().unwrap();
        // The frame is not moved while the instruction is decoded; all writes go through `st`.
        let fr: &Frame = unsafe { &*frp };
        let f = fr.f.clone();
        let ins = match f.blocks[fr.bb as usize].get(fr.ip) {
            Some(i) => i,
            None => return Err(Stop::Err("fell off block".into())),
        };
        if self.cfg.trace && std::env::var_os("RSYM_TRACE_I").is_some() {
            eprintln!("{} bb{} {:?}", demangle(&f.name), fr.bb, ins);
        }
        match ins {
            I::Bin(d, b, t, a, x) => {
                let va = self.op(fr, a);
                let mut vb = self.op(fr, x);
                if let (Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem, V::I(y)) = (b, &vb) {
                    // dividing by a symbolic number is hard, and often there is only one it can be here
                    if y.konst().is_none() && y.w >= 16 {
                        let k = c128(y.w, self.eval(st, *y));
                        if let Ok(None) = self.check(st, not(eq(*y, k))) {
                            vb = V::I(k);
                        }
                    }
                }
                let r = self.binop(*b, t, va, vb)?;
                Self::set(st, *d, r);
            }
            I::ICmp(d, p, t, a, b) => {
                let va = self.op(fr, a);
                let vb = self.op(fr, b);
                let r = map2(t, va, vb, &mut |x, y| Ok(icmp(p, x, y)))?;
                Self::set(st, *d, r);
            }
            I::FCmp(d, p, t, a, b) => {
                let va = self.op(fr, a);
                let vb = self.op(fr, b);
                let r = map2(t, va, vb, &mut |x, y| fcmp_pred(p, x, y))?;
                Self::set(st, *d, r);
            }
            I::Cast(d, k, t, a, t2) => {
                let va = self.op(fr, a);
                let r = cast(*k, t, va, t2)?;
                Self::set(st, *d, r);
            }
            I::Select(d, ct, cnd, t, a, b) => {
                let vc = self.op(fr, cnd);
                let mut va = self.op(fr, a);
                let mut vb = self.op(fr, b);
                if let V::U = va {
                    va = zero(t);
                }
                if let V::U = vb {
                    vb = zero(t);
                }
                let r = match (ct, vc) {
                    (Ty::Vec(..), V::A(cs)) => {
                        let (x, y) = match (va, vb) {
                            (V::A(x), V::A(y)) => (x, y),
                            _ => return Err(Stop::Err("vector select".into())),
                        };
                        let mut r = vec![];
                        for i in 0..cs.len() {
                            r.push(vite(geti(&cs[i]), &x[i], &y[i])?);
                        }
                        V::A(Rc::new(r))
                    }
                    (_, V::I(e)) => vite(e, &va, &vb)?,
                    (_, V::U) => vb,
                    _ => return Err(Stop::Err("select".into())),
                };
                Self::set(st, *d, r);
            }
            I::Gep(d, base, terms, off) => {
                let mut e = self.opi(fr, base, &Ty::Ptr)?;
                if *off != 0 {
                    e = bin(Op::Add, e, c(64, *off as u64));
                }
                for (o, s) in terms {
                    let v = match self.op(fr, o) {
                        V::I(e) => e,
                        V::U => c(64, 0),
                        _ => return Err(Stop::Err("gep index".into())),
                    };
                    let v = if v.w < 64 { sext(v, 64) } else { v };
                    let v = bin(Op::Mul, v, c(64, *s as u64));
                    e = bin(Op::Add, e, v);
                }
                Self::set(st, *d, V::I(e));
            }
            I::Load(d, t, a) => {
                let p = self.opi(fr, a, &Ty::Ptr)?;
                if p.id != 0 {
                    if let Some(v) = self.sym_load(st, p, t)? {
                        Self::set(st, *d, v);
                        st.frames.last_mut().unwrap().ip += 1;
                        return Ok(());
                    }
                }
                let p = self.concretize(st, p, "load address")? as u64;
                let v = self.load(st, p, t)?;
                Self::set(st, *d, v);
            }
            I::Store(t, v, a) => {
                let p = self.opi(fr, a, &Ty::Ptr)?;
                let val = self.op(fr, v);
                let p = self.concretize(st, p, "store address")? as u64;
                self.store(st, p, t, &val)?;
            }
            I::Alloca(d, t, cnt, al) => {
                let mut n = size_align(t).0;
                if let Some(o) = cnt {
                    let k = self.opi(fr, o, &Ty::Int(64))?;
                    n *= self.concretize(st, k, "alloca size")? as u64;
                }
                let a = st.mem.alloc(n, *al);
                st.frames.last_mut().unwrap().allocas.push(a);
                Self::set(st, *d, V::I(c(64, a)));
            }
            I::ExtractValue(d, t, a, ix) => {
                let mut v = self.op(fr, a);
                if let V::U = v {
                    v = zero(t);
                }
                for i in ix {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                Self::set(st, *d, v);
            }
            I::InsertValue(d, t, a, vt, v, ix) => {
                let mut base = self.op(fr, a);
                if let V::U = base {
                    base = zero(t);
                }
                let mut x = self.op(fr, v);
                if let V::U = x {
                    x = zero(vt);
                }
                let r = insert(base, x, ix);
                Self::set(st, *d, r);
            }
            I::ExtractElem(d, t, a, i) => {
                let mut v = self.op(fr, a);
                if let V::U = v {
                    v = zero(t);
                }
                let k = self.opi(fr, i, &Ty::Int(64))?;
                let k = self.concretize(st, k, "vector index")? as usize;
                match v {
                    V::A(x) => Self::set(st, *d, x[k].clone()),
                    _ => return Err(Stop::Err("extractelement".into())),
                }
            }
            I::InsertElem(d, t, a, v, i) => {
                let mut b = self.op(fr, a);
                if let V::U = b {
                    b = zero(t);
                }
                let x = self.op(fr, v);
                let k = self.opi(fr, i, &Ty::Int(64))?;
                let k = self.concretize(st, k, "vector index")? as usize;
                let r = insert(b, x, &[k as u32]);
                Self::set(st, *d, r);
            }
            I::Shuffle(d, t, a, b, mask) => {
                let (mut x, mut y) = (self.op(fr, a), self.op(fr, b));
                if let V::U = x {
                    x = zero(t);
                }
                if let V::U = y {
                    y = zero(t);
                }
                let et = match t {
                    Ty::Vec(_, e) => (**e).clone(),
                    _ => return Err(Stop::Err("shuffle".into())),
                };
                let (x, y) = match (x, y) {
                    (V::A(x), V::A(y)) => (x, y),
                    _ => return Err(Stop::Err("shuffle".into())),
                };
                let n = x.len() as i64;
                let r = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            zero(&et)
                        } else if *m < n {
                            x[*m as usize].clone()
                        } else {
                            y[(*m - n) as usize].clone()
                        }
                    })
                    .collect();
                Self::set(st, *d, V::A(Rc::new(r)));
            }
            I::Phi(..) => return Err(Stop::Err("phi at entry".into())),
            I::Br(b) => return self.jump(st, *b),
            I::CondBr(cnd, a, b) => {
                let e = self.opi(fr, cnd, &Ty::Int(1))?;
                let (a, b) = (*a, *b);
                let s = self.branch(st, e)?;
                return self.jump(st, if s { a } else { b });
            }
            I::Switch(t, v, def, cases) => {
                let e = self.opi(fr, v, t)?;
                if let Some(k) = e.konst() {
                    let to = cases.iter().find(|(x, _)| *x == k).map(|x| x.1).unwrap_or(*def);
                    return self.jump(st, to);
                }
                // one branch per target, grouped
                let mut targets: Vec<u32> = vec![];
                for (_, b) in cases {
                    if b != def && !targets.contains(b) {
                        targets.push(*b);
                    }
                }
                for b in targets {
                    let mut g = bool_(false);
                    for (k, bb) in cases {
                        if *bb == b {
                            g = or(g, eq(e, c128(e.w, *k)));
                        }
                    }
                    if self.branch(st, g)? {
                        return self.jump(st, b);
                    }
                }
                return self.jump(st, *def);
            }
            I::Ret(v) => {
                let r = match v {
                    None => None,
                    Some((t, o)) => {
                        let mut x = self.op(fr, o);
                        if let V::U = x {
                            x = zero(t);
                        }
                        Some(x)
                    }
                };
                let fr = st.frames.pop().unwrap();
                let r = if fr.catch { Some(V::I(c(1, 0))) } else { r };
                for a in &fr.allocas {
                    st.mem.objs.remove(a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::End("return"));
                }
                if let (Some(d), Some(x)) = (fr.dst, r) {
                    Self::set(st, d, x);
                }
                if let Some(b) = fr.normal {
                    return self.jump(st, b);
                }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            I::Unreachable => return Err(Stop::Err("reached unreachable".into())),
            I::Freeze(d, t, a) => {
                let mut v = self.op(fr, a);
                if let V::U = v {
                    v = zero(t);
                }
                Self::set(st, *d, v);
            }
            I::Rmw(d, o, t, a, v) => {
                let p = self.opi(fr, a, &Ty::Ptr)?;
                let x = self.opi(fr, v, t)?;
                let p = self.concretize(st, p, "atomic address")? as u64;
                let old = geti(&self.load(st, p, t)?);
                let new = match &**o {
                    "add" => bin(Op::Add, old, x),
                    "sub" => bin(Op::Sub, old, x),
                    "and" => bin(Op::And, old, x),
                    "or" => bin(Op::Or, old, x),
                    "xor" => bin(Op::Xor, old, x),
                    "xchg" => x,
                    "umax" => ite(bin(Op::Ult, old, x), x, old),
                    "umin" => ite(bin(Op::Ult, old, x), old, x),
                    o => return Err(Stop::Err(format!("atomicrmw {o}"))),
                };
                self.store(st, p, t, &V::I(new))?;
                Self::set(st, *d, V::I(old));
            }
            I::CmpXchg(d, t, a, cmp, new) => {
                let p = self.opi(fr, a, &Ty::Ptr)?;
                let x = self.opi(fr, cmp, t)?;
                let n = self.opi(fr, new, t)?;
                let p = self.concretize(st, p, "atomic address")? as u64;
                let old = geti(&self.load(st, p, t)?);
                let same = eq(old, x);
                self.store(st, p, t, &V::I(ite(same, n, old)))?;
                Self::set(st, *d, V::A(Rc::new(vec![V::I(old), V::I(same)])));
            }
            I::FNeg(d, t, a) => {
                let e = self.opi(fr, a, t)?;
                Self::set(st, *d, V::I(bin(Op::Xor, e, c128(e.w, 1u128 << (e.w - 1)))));
            }
            I::Nop => {}
            I::Bad(s) => return Err(Stop::Err(format!("unsupported instruction: {s}"))),
            I::Call(d, t, callee, args, normal) => {
                let name: Rc<str> = match callee {
                    Callee::Name(n) => n.clone(),
                    Callee::Asm => {
                        if *t != Ty::Void {
                            return Err(Stop::Err("inline asm with result".into()));
                        }
                        return self.after(st, *normal);
                    }
                    Callee::Ptr(o) => {
                        let p = self.opi(fr, o, &Ty::Ptr)?;
                        let p = self.concretize(st, p, "call target")? as u64;
                        match self.addr_fn.get(&p) {
                            Some(n) => n.clone(),
                            None => return Err(Stop::Err(format!("call to non-function address {p:#x}"))),
                        }
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (at, o) in args {
                    let mut v = self.op(fr, o);
                    if let V::U = v {
                        v = zero(at);
                    }
                    av.push(v);
                }
                let (d, t, normal) = (*d, t.clone(), *normal);
                return self.call(st, d, &t, name, av, normal);
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn after(&mut self, st: &mut State, normal: Option<u32>) -> Result<(), Stop> {
        match normal {
            Some(b) => self.jump(st, b),
            None => {
                st.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }
    /// Load through `base + symbolic offset` as an if-then-else over the feasible offsets.
    fn sym_load(&mut self, st: &mut State, p: E, t: &Ty) -> Result<Option<V>, Stop> {
        let w = match t {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => return Ok(None),
        };
        if st.forced.is_some() {
            return Ok(None);
        }
        let n = (w as u64 + 7) / 8;
        let a0 = self.eval(st, p) as u64;
        let (base, size) = match self.obj(st, a0, n) {
            Ok(o) => (o.base, o.size),
            Err(_) => return Ok(None),
        };
        if size > 4096 {
            return Ok(None);
        }
        // collect feasible addresses (bounded)
        let mut addrs = vec![a0];
        let mut q = not(eq(p, c(64, a0)));
        loop {
            match self.check(st, q)? {
                None => break,
                Some(m) => {
                    let m2 = m.clone();
                    let f = move |s: u32| m2.get(&s).copied().unwrap_or(0);
                    let v = Eval::new(&f).e(p) as u64;
                    if v < base || v + n > base + size || addrs.len() >= 256 {
                        return Ok(None);
                    }
                    addrs.push(v);
                    q = and(q, not(eq(p, c(64, v))));
                }
            }
        }
        addrs.sort_unstable();
        let mut r: Option<E> = None;
        for a in addrs.iter().rev() {
            let v = geti(&self.load(st, *a, t)?);
            // keep pointer values out of ites: they are better forked
            if matches!(t, Ty::Ptr) && addrs.len() > 1 {
                return Ok(None);
            }
            r = Some(match r {
                None => v,
                Some(x) => ite(eq(p, c(64, *a)), v, x),
            });
        }
        Ok(r.map(V::I))
    }

    fn prim(&self, n: &Rc<str>) -> Option<Prim> {
        if let Some(p) = self.prims.borrow().get(n) {
            return *p;
        }
        let p = classify(n, self.m.has_fn(n));
        self.prims.borrow_mut().insert(n.clone(), p);
        p
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, t: &Ty, name: Rc<str>, av: Vec<V>, normal: Option<u32>) -> Result<(), Stop> {
        let name: Rc<str> = {
            let r = self.m.resolve_alias(&name);
            if *r == *name {
                name
            } else {
                r.into()
            }
        };
        if let Some(p) = self.prim(&name) {
            if p == Prim::NdTry {
                let fp = self.concretize(st, geti(&av[0]), "function pointer")? as u64;
                let Some(n) = self.addr_fn.get(&fp).cloned() else { return Err(Stop::Err("catch: not a function".into())) };
                self.call(st, None, &Ty::Void, n, vec![av[1].clone()], normal)?;
                let fr = st.frames.last_mut().unwrap();
                fr.dst = d;
                fr.catch = true;
                return Ok(());
            }
            let r = self.primcall(st, p, &name, t, &av)?;
            if let (Some(d), Some(v)) = (d, r) {
                Self::set(st, d, v);
            }
            return self.after(st, normal);
        }
        match self.m.func(&name) {
            Some(f) => {
                if st.frames.len() > 400 {
                    return Err(Stop::Err("call depth".into()));
                }
                *self.rep.functions.entry(f.name.to_string()).or_default() += 1;
                let mut regs = vec![V::U; f.nregs];
                for (i, v) in av.into_iter().enumerate().take(f.nargs) {
                    regs[i] = v;
                }
                st.frames.push(Frame { f, regs, bb: 0, prev: 0, ip: 0, dst: d, normal, allocas: vec![], catch: false });
                Ok(())
            }
            None => Err(Stop::Err(format!("call to external function {}", &name))),
        }
    }

    fn primcall(&mut self, st: &mut State, p: Prim, name: &str, t: &Ty, av: &[V]) -> Result<Option<V>, Stop> {
        let a = |i: usize| -> E { av.get(i).map(geti).unwrap_or(c(64, 0)) };
        Ok(match p {
            Prim::NopVoid => Some(zero(t)),
            Prim::Zero => Some(zero(t)),
            Prim::Panic => {
                return Err(Stop::Panic(demangle(name)));
            }
            Prim::NdVal => {
                let w = a(0).v as u16;
                let nm = self.label(st, a(1), a(2))?;
                let idx = st.nd.len() as u32;
                let k = match self.nd_syms.get(&(idx, w)) {
                    Some(k) => *k,
                    None => {
                        let (_, k) = fresh(w);
                        self.nd_syms.insert((idx, w), k);
                        k
                    }
                };
                let e = sym(w, k);
                st.nd.push((e, w, nm.as_str().into()));
                Some(V::I(zext(e, 64)))
            }
            Prim::NdAssume => {
                let e = trunc(a(0), 1);
                if e.is_false() {
                    return Err(Stop::Infeasible);
                }
                if e.id != 0 {
                    if self.eval(st, e) != 1 {
                        match self.check(st, e)? {
                            None => return Err(Stop::Infeasible),
                            Some(m) => st.model = m,
                        }
                    }
                    Self::assume(st, e);
                }
                None
            }
            Prim::NdCheck => {
                let e = trunc(a(0), 1);
                let l = self.label(st, a(1), a(2))?;
                st.nchecks += 1;
                let ent = self.rep.labels.entry(l.clone()).or_insert((0, 0));
                if e.id == 0 {
                    ent.0 += 1;
                    self.rep.checks_concrete += 1;
                    if e.v == 0 {
                        let m = st.model.clone();
                        self.violation(st, "check", &l, &m);
                        return Err(Stop::Infeasible);
                    }
                } else {
                    ent.1 += 1;
                    match self.check(st, not(e))? {
                        None => {
                            self.rep.checks_proved += 1;
                        }
                        Some(m) => {
                            self.violation(st, "check", &l, &m);
                            // continue on the good side, if any
                            match self.check(st, e)? {
                                None => return Err(Stop::Infeasible),
                                Some(m) => {
                                    st.model = m;
                                    Self::assume(st, e);
                                }
                            }
                        }
                    }
                }
                None
            }
            Prim::NdCover => {
                let l = self.label(st, a(0), a(1))?;
                *self.rep.covers.entry(l).or_default() += 1;
                None
            }
            Prim::NdObserve => {
                let l = self.label(st, a(0), a(1))?;
                st.obs.push((l.as_str().into(), a(2)));
                None
            }
            Prim::NdMayPanic => {
                let e = trunc(a(0), 1);
                st.may_panic = e.is_true();
                None
            }
            Prim::NdCapacity => return Err(Stop::Err("bound of a container stand-in exceeded".into())),
            Prim::NdConcretize => {
                let v = self.concretize(st, a(0), "harness value")?;
                Some(V::I(c(64, v as u64)))
            }
            Prim::NdSame => {
                let n = self.concretize(st, a(2), "length")? as u64;
                let x = self.concretize(st, a(0), "pointer")? as u64;
                let y = self.concretize(st, a(1), "pointer")? as u64;
                let (bx, by) = (self.bytes(st, x, n)?, self.bytes(st, y, n)?);
                let same = bx.iter().zip(&by).all(|(p, q)| bin(Op::Eq, p.clone(), q.clone()).is_true());
                Some(V::I(bool_(same)))
            }
            Prim::NdKnown => {
                let n = self.concretize(st, a(1), "length")? as u64;
                let x = self.concretize(st, a(0), "pointer")? as u64;
                let known = self.bytes(st, x, n)?.iter().all(|e| e.id == 0);
                let e = bool_(known);
                st.nd.push((e.clone(), 1, "known".into()));
                Some(V::I(e))
            }
            Prim::NdWatch => {
                st.watch = self.concretize(st, a(0), "size")? as u64;
                st.dirty = 0;
                None
            }
            Prim::NdTry => unreachable!(),
            Prim::NdDirty => Some(V::I(c(64, st.dirty))),
            Prim::Alloc | Prim::AllocZ => {
                let n = self.concretize(st, a(0), "allocation size")? as u64;
                let al = self.concretize(st, a(1), "allocation alignment")? as u64;
                if n > 1 << 28 {
                    return Err(Stop::Panic("allocation too large".into()));
                }
                Some(V::I(c(64, st.mem.alloc(n, al))))
            }
            Prim::Dealloc => {
                let q = self.concretize(st, a(0), "pointer")? as u64;
                match st.mem.objs.remove(&q) {
                    None => return Err(Stop::Err("free of unknown pointer".into())),
                    Some(o) => st.dirty += (o.size == st.watch && st.watch > 0 && o.may_be_nonzero()) as u64,
                }
                None
            }
            Prim::Realloc => {
                let q = self.concretize(st, a(0), "pointer")? as u64;
                let al = self.concretize(st, a(2), "alignment")? as u64;
                let n = self.concretize(st, a(3), "allocation size")? as u64;
                let old = match st.mem.objs.get(&q) {
                    Some(o) => o.size,
                    None => return Err(Stop::Err("realloc of unknown pointer".into())),
                };
                let r = st.mem.alloc(n, al);
                self.copy(st, r, q, old.min(n))?;
                if let Some(o) = st.mem.objs.remove(&q) {
                    st.dirty += (o.size == st.watch && st.watch > 0 && o.may_be_nonzero()) as u64;
                }
                Some(V::I(c(64, r)))
            }
            Prim::MemCpy => {
                self.memcpy(st, a(0), a(1), a(2))?;
                Some(V::I(a(0)))
            }
            Prim::Backtrace => {
                // Backtrace::capture() into its sret slot: `Inner::Unsupported` is discriminant 0
                self.memset(st, a(0), c(8, 0), c(64, 48))?;
                None
            }
            Prim::MemSet => {
                self.memset(st, a(0), trunc(a(1), 8), a(2))?;
                Some(V::I(a(0)))
            }
            Prim::BCmp | Prim::MemCmp => {
                let n = self.concretize(st, a(2), "memcmp length")? as u64;
                let x = self.concretize(st, a(0), "pointer")? as u64;
                let y = self.concretize(st, a(1), "pointer")? as u64;
                let bx = self.bytes(st, x, n)?;
                let by = self.bytes(st, y, n)?;
                let w = bits_of(t);
                if p == Prim::BCmp {
                    // compare in wide chunks
                    let mut e = bool_(true);
                    let mut i = 0;
                    while i < n as usize {
                        let m = (n as usize - i).min(16);
                        let (mut wx, mut wy) = (bx[i], by[i]);
                        for j in 1..m {
                            wx = concat(bx[i + j], wx);
                            wy = concat(by[i + j], wy);
                        }
                        e = and(e, eq(wx, wy));
                        i += m;
                    }
                    Some(V::I(ite(e, c(w, 0), c(w, 1))))
                } else {
                    let mut r = c(w, 0);
                    for i in (0..n as usize).rev() {
                        let lt = bin(Op::Ult, bx[i], by[i]);
                        r = ite(eq(bx[i], by[i]), r, ite(lt, c(w, m64(w)), c(w, 1)));
                    }
                    Some(V::I(r))
                }
            }
            Prim::Random => {
                // only std's hash maps ask: their keys are arbitrary, but always the same here
                self.memset(st, a(0), c(8, 0x5a), a(1))?;
                Some(V::I(a(1)))
            }
            Prim::Clock => {
                // time stands still
                let x = self.concretize(st, a(1), "pointer")? as u64;
                self.store(st, x, &Ty::Int(64), &V::I(c(64, 1_700_000_000)))?;
                self.store(st, x + 8, &Ty::Int(64), &V::I(c(64, 0)))?;
                Some(V::I(c(32, 0)))
            }
            Prim::StrLen => {
                let x = self.concretize(st, a(0), "pointer")? as u64;
                let mut n = 0;
                loop {
                    let b = self.bytes(st, x + n, 1)?[0];
                    if self.branch(st, eq(b, c(8, 0)))? {
                        break;
                    }
                    n += 1;
                }
                Some(V::I(c(64, n)))
            }
            Prim::Math => {
                if av.iter().any(|v| geti(v).id != 0) {
                    return Err(Stop::Err(format!("symbolic call to {name}")));
                }
                let w = bits_of(t);
                let g = |i: usize| {
                    if w == 32 {
                        f32::from_bits(a(i).v as u32) as f64
                    } else {
                        f64::from_bits(a(i).v)
                    }
                };
                let nm = name.strip_suffix('f').filter(|_| w == 32).unwrap_or(name);
                let r = match nm {
                    "fmod" => g(0) % g(1),
                    "pow" => g(0).powf(g(1)),
                    "exp" => g(0).exp(),
                    "exp2" => g(0).exp2(),
                    "log" => g(0).ln(),
                    "log2" => g(0).log2(),
                    "log10" => g(0).log10(),
                    "sin" => g(0).sin(),
                    "cos" => g(0).cos(),
                    "tan" => g(0).tan(),
                    "cbrt" => g(0).cbrt(),
                    "round" => g(0).round(),
                    "rint" => g(0).round_ties_even(),
                    "floor" => g(0).floor(),
                    "ceil" => g(0).ceil(),
                    "trunc" => g(0).trunc(),
                    "fmin" => g(0).min(g(1)),
                    "fmax" => g(0).max(g(1)),
                    _ => return Err(Stop::Err(format!("math {name}"))),
                };
                Some(V::I(if w == 32 { c(32, (r as f32).to_bits() as u64) } else { c(64, r.to_bits()) }))
            }
            Prim::Intr => self.intrinsic(st, name, t, av)?,
        })
    }
    fn memcpy(&mut self, st: &mut State, d: E, s: E, n: E) -> Result<(), Stop> {
        let n = self.concretize(st, n, "memcpy length")? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.concretize(st, d, "pointer")? as u64;
        let s = self.concretize(st, s, "pointer")? as u64;
        self.copy(st, d, s, n)
    }
    fn memset(&mut self, st: &mut State, d: E, b: E, n: E) -> Result<(), Stop> {
        let n = self.concretize(st, n, "memset length")? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.concretize(st, d, "pointer")? as u64;
        let o = self.obj_mut(st, d, n)?;
        let off = d - o.base;
        for i in 0..n {
            o.write(off + i, 1, b);
        }
        Ok(())
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, t: &Ty, av: &[V]) -> Result<Option<V>, Stop> {
        let n = &name[5..];
        let starts = |s: &str| n.starts_with(s);
        if starts("lifetime.") || starts("experimental.noalias") || starts("assume") || starts("donothing") || starts("dbg") || starts("prefetch") || starts("invariant") || starts("x86.sse2.pause") {
            return Ok(Some(zero(t)));
        }
        let a = |i: usize| -> E { av.get(i).map(geti).unwrap_or(c(64, 0)) };
        if starts("memcpy") || starts("memmove") {
            self.memcpy(st, a(0), a(1), a(2))?;
            return Ok(None);
        }
        if starts("memset") {
            self.memset(st, a(0), a(1), a(2))?;
            return Ok(None);
        }
        if starts("trap") || starts("ubsantrap") {
            return Err(Stop::Panic("trap".into()));
        }
        if starts("threadlocal.address") || starts("expect") || starts("ptrmask") && false {
            return Ok(Some(av[0].clone()));
        }
        if starts("load.relative") {
            let base = self.concretize(st, a(0), "pointer")? as u64;
            let off = self.concretize(st, a(1), "relative table offset")? as u64;
            let r = geti(&self.load(st, base.wrapping_add(off), &Ty::Int(32))?);
            return Ok(Some(V::I(bin(Op::Add, c(64, base), sext(r, 64)))));
        }
        if starts("is.constant") {
            return Ok(Some(V::I(bool_(false))));
        }
        if starts("ptrmask") {
            return Ok(Some(V::I(bin(Op::And, a(0), a(1)))));
        }
        if starts("load.relative") {
            let base = self.concretize(st, a(0), "pointer")? as u64;
            let off = self.concretize(st, a(1), "offset")? as u64;
            let v = geti(&self.load(st, base.wrapping_add(off), &Ty::Int(32))?);
            return Ok(Some(V::I(bin(Op::Add, c(64, base), sext(v, 64)))));
        }
        if starts("objectsize") {
            return Ok(Some(V::I(c(64, u64::MAX))));
        }
        // vectors: lane-wise for the pure ones
        if let Ty::Vec(_, et) = t {
            if !n.contains(".with.overflow") {
                let lanes = match &av[0] {
                    V::A(v) => v.len(),
                    _ => return Err(Stop::Err(format!("vector intrinsic {name}"))),
                };
                let mut out = vec![];
                for i in 0..lanes {
                    let sub: Vec<V> = av
                        .iter()
                        .map(|v| match v {
                            V::A(x) => x[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    out.push(self.intrinsic(st, name, et, &sub)?.unwrap());
                }
                return Ok(Some(V::A(Rc::new(out))));
            }
        }
        if starts("vector.reduce.") {
            let v = match &av[0] {
                V::A(v) => v.clone(),
                _ => return Err(Stop::Err(name.into())),
            };
            let op = n["vector.reduce.".len()..].split('.').next().unwrap().to_string();
            let mut acc = geti(&v[0]);
            for x in v.iter().skip(1) {
                let x = geti(x);
                acc = match op.as_str() {
                    "add" => bin(Op::Add, acc, x),
                    "mul" => bin(Op::Mul, acc, x),
                    "and" => bin(Op::And, acc, x),
                    "or" => bin(Op::Or, acc, x),
                    "xor" => bin(Op::Xor, acc, x),
                    "umax" => ite(bin(Op::Ult, acc, x), x, acc),
                    "umin" => ite(bin(Op::Ult, x, acc), x, acc),
                    o => return Err(Stop::Err(format!("vector.reduce.{o}"))),
                };
            }
            return Ok(Some(V::I(acc)));
        }
        let w = a(0).w;
        let pick = |b: bool, x: E, y: E| if b { x } else { y };
        let _ = pick;
        let r: E = if starts("umin") {
            ite(bin(Op::Ult, a(0), a(1)), a(0), a(1))
        } else if starts("umax") {
            ite(bin(Op::Ult, a(0), a(1)), a(1), a(0))
        } else if starts("smin") {
            ite(bin(Op::Slt, a(0), a(1)), a(0), a(1))
        } else if starts("smax") {
            ite(bin(Op::Slt, a(0), a(1)), a(1), a(0))
        } else if starts("abs") {
            let neg = bin(Op::Slt, a(0), c128(w, 0));
            ite(neg, bin(Op::Sub, c128(w, 0), a(0)), a(0))
        } else if starts("ucmp") || starts("scmp") {
            let rw = bits_of(t);
            let lt = bin(if starts("ucmp") { Op::Ult } else { Op::Slt }, a(0), a(1));
            ite(lt, c(rw, m64(rw)), ite(eq(a(0), a(1)), c(rw, 0), c(rw, 1)))
        } else if starts("uadd.sat") {
            let s = bin(Op::Add, a(0), a(1));
            ite(bin(Op::Ult, s, a(0)), c128(w, mask(w)), s)
        } else if starts("usub.sat") {
            ite(bin(Op::Ult, a(0), a(1)), c128(w, 0), bin(Op::Sub, a(0), a(1)))
        } else if starts("sadd.sat") || starts("ssub.sat") {
            let sub = starts("ssub.sat");
            let (x, y) = (sext(a(0), w + 1), sext(a(1), w + 1));
            let s = bin(if sub { Op::Sub } else { Op::Add }, x, y);
            let mx = c128(w + 1, mask(w - 1));
            let mn = c128(w + 1, mask(w + 1) & !mask(w - 1));
            let cl = ite(bin(Op::Slt, mx, s), mx, ite(bin(Op::Slt, s, mn), mn, s));
            trunc(cl, w)
        } else if n.contains(".with.overflow") {
            let (x, y) = (a(0), a(1));
            let (res, ov) = if starts("uadd") {
                let s = bin(Op::Add, x, y);
                (s, bin(Op::Ult, s, x))
            } else if starts("usub") {
                (bin(Op::Sub, x, y), bin(Op::Ult, x, y))
            } else if starts("umul") {
                let s = bin(Op::Mul, x, y);
                if w <= 64 {
                    let wide = bin(Op::Mul, zext(x, 2 * w), zext(y, 2 * w));
                    (s, not(eq(extract(wide, w, w), c128(w, 0))))
                } else {
                    // x != 0 && s / x != y
                    let q = bin(Op::UDiv, s, x);
                    (s, and(not(eq(x, c128(w, 0))), not(eq(q, y))))
                }
            } else if starts("sadd") || starts("ssub") || starts("smul") {
                if w > 64 {
                    return Err(Stop::Err(name.into()));
                }
                let ww = if starts("smul") { 2 * w } else { w + 1 };
                let o = if starts("sadd") {
                    Op::Add
                } else if starts("ssub") {
                    Op::Sub
                } else {
                    Op::Mul
                };
                let s = bin(o, sext(x, ww), sext(y, ww));
                let r = trunc(s, w);
                (r, not(eq(sext(r, ww), s)))
            } else {
                return Err(Stop::Err(name.into()));
            };
            return Ok(Some(V::A(Rc::new(vec![V::I(res), V::I(ov)]))));
        } else if starts("fshl") || starts("fshr") {
            let sh = bin(Op::URem, a(2), c128(w, w as u128));
            if w > 64 {
                return Err(Stop::Err(name.into()));
            }
            let both = concat(a(0), a(1));
            let s2 = zext(sh, 2 * w);
            if starts("fshl") {
                extract(bin(Op::Shl, both, s2), w, w)
            } else {
                extract(bin(Op::LShr, both, s2), 0, w)
            }
        } else if starts("bswap") {
            let mut acc: Option<E> = None;
            for i in 0..w / 8 {
                let b = extract(a(0), 8 * i, 8);
                acc = Some(match acc {
                    None => b,
                    Some(x) => concat(x, b),
                });
            }
            acc.unwrap()
        } else if starts("bitreverse") {
            let mut acc: Option<E> = None;
            for i in 0..w {
                let b = extract(a(0), i, 1);
                acc = Some(match acc {
                    None => b,
                    Some(x) => concat(x, b),
                });
            }
            acc.unwrap()
        } else if starts("ctpop") {
            let mut s = c128(w, 0);
            for i in 0..w {
                s = bin(Op::Add, s, zext_to(extract(a(0), i, 1), w));
            }
            s
        } else if starts("ctlz") {
            // often the magnitude of a number is known though the number is not
            if a(0).konst().is_none() && w <= 64 {
                let v = self.eval(st, a(0));
                if v != 0 {
                    let k = 127 - v.leading_zeros() as u16;
                    if let Ok(None) = self.check(st, not(eq(extract(a(0), k, w - k), c128(w - k, 1)))) {
                        return Ok(Some(V::I(c128(w, (w - 1 - k) as u128))));
                    }
                }
            }
            let mut r = c128(w, w as u128);
            for i in 0..w {
                r = ite(eq(extract(a(0), i, 1), c(1, 1)), c128(w, (w - 1 - i) as u128), r);
            }
            r
        } else if starts("cttz") {
            let mut r = c128(w, w as u128);
            for i in (0..w).rev() {
                r = ite(eq(extract(a(0), i, 1), c(1, 1)), c128(w, i as u128), r);
            }
            r
        } else if starts("fabs") {
            bin(Op::And, a(0), c128(w, mask(w - 1)))
        } else if starts("copysign") {
            bin(Op::Or, bin(Op::And, a(0), c128(w, mask(w - 1))), bin(Op::And, a(1), c128(w, 1u128 << (w - 1))))
        } else if starts("sqrt") {
            fun(Op::FSqrt, a(0), w, 0)
        } else if starts("round.") {
            fun(Op::FRound, a(0), w, 0)
        } else if starts("floor") {
            fun(Op::FRound, a(0), w, 1)
        } else if starts("ceil") {
            fun(Op::FRound, a(0), w, 2)
        } else if starts("trunc") {
            fun(Op::FRound, a(0), w, 3)
        } else if starts("rint") || starts("roundeven") || starts("nearbyint") {
            fun(Op::FRound, a(0), w, 4)
        } else if starts("minnum") || starts("maxnum") || starts("minimumnum") || starts("maximumnum") {
            let lt = fcmp(Op::FLt, a(0), a(1));
            let an = fcmp(Op::FUno, a(0), a(0));
            let bn = fcmp(Op::FUno, a(1), a(1));
            let pickd = if starts("min") { ite(lt, a(0), a(1)) } else { ite(lt, a(1), a(0)) };
            ite(an, a(1), ite(bn, a(0), pickd))
        } else if starts("fptosi.sat") || starts("fptoui.sat") {
            let rw = bits_of(t);
            let si = starts("fptosi.sat");
            if let Some(k) = a(0).konst() {
                let f = if w == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) };
                if si {
                    let lo = -(2f64.powi(rw as i32 - 1));
                    let hi = 2f64.powi(rw as i32 - 1);
                    if f.is_nan() {
                        c128(rw, 0)
                    } else if f <= lo {
                        c128(rw, 1u128 << (rw - 1))
                    } else if f >= hi {
                        c128(rw, mask(rw - 1))
                    } else {
                        c128(rw, f as i128 as u128)
                    }
                } else {
                    let hi = 2f64.powi(rw as i32);
                    if f.is_nan() || f <= 0.0 {
                        c128(rw, 0)
                    } else if f >= hi {
                        c128(rw, mask(rw))
                    } else {
                        c128(rw, f as u128)
                    }
                }
            } else {
                let fc = |x: f64| if w == 32 { c(32, (x as f32).to_bits() as u64) } else { c(64, x.to_bits()) };
                let nan = fcmp(Op::FUno, a(0), a(0));
                if si {
                    let lo = fc(-(2f64.powi(rw as i32 - 1)));
                    let hi = fc(2f64.powi(rw as i32 - 1));
                    let low = fcmp(Op::FLe, a(0), lo);
                    let high = fcmp(Op::FLe, hi, a(0));
                    ite(nan, c128(rw, 0), ite(low, c128(rw, 1u128 << (rw - 1)), ite(high, c128(rw, mask(rw - 1)), fun(Op::FToSI, a(0), rw, 0))))
                } else {
                    let hi = fc(2f64.powi(rw as i32));
                    let low = fcmp(Op::FLe, a(0), fc(0.0));
                    let high = fcmp(Op::FLe, hi, a(0));
                    ite(nan, c128(rw, 0), ite(low, c128(rw, 0), ite(high, c128(rw, mask(rw)), fun(Op::FToUI, a(0), rw, 0))))
                }
            }
        } else if starts("pow.") || starts("exp.") || starts("log.") || starts("powi") || starts("exp2") || starts("log2") || starts("log10") || starts("sin") || starts("cos") {
            if av.iter().any(|v| geti(v).id != 0) {
                return Err(Stop::Err(format!("symbolic {name}")));
            }
            let g = |i: usize| f64::from_bits(a(i).v);
            let r = if starts("powi") {
                g(0).powi(a(1).v as i32)
            } else if starts("pow") {
                g(0).powf(g(1))
            } else if starts("exp2") {
                g(0).exp2()
            } else if starts("exp") {
                g(0).exp()
            } else if starts("log2") {
                g(0).log2()
            } else if starts("log10") {
                g(0).log10()
            } else if starts("log") {
                g(0).ln()
            } else if starts("sin") {
                g(0).sin()
            } else {
                g(0).cos()
            };
            c(64, r.to_bits())
        } else if starts("allow.") {
            bool_(true)
        } else {
            return Err(Stop::Err(format!("intrinsic {name}")));
        };
        Ok(Some(V::I(r)))
    }

    fn binop(&mut self, b: Bop, t: &Ty, x: V, y: V) -> Result<V, Stop> {
        map2(t, x, y, &mut |x, y| {
            Ok(match b {
                Bop::Add => bin(Op::Add, x, y),
                Bop::Sub => bin(Op::Sub, x, y),
                Bop::Mul => bin(Op::Mul, x, y),
                Bop::UDiv => bin(Op::UDiv, x, y),
                Bop::SDiv => bin(Op::SDiv, x, y),
                Bop::URem => bin(Op::URem, x, y),
                Bop::SRem => bin(Op::SRem, x, y),
                Bop::And => bin(Op::And, x, y),
                Bop::Or => bin(Op::Or, x, y),
                Bop::Xor => bin(Op::Xor, x, y),
                Bop::Shl => bin(Op::Shl, x, y),
                Bop::LShr => bin(Op::LShr, x, y),
                Bop::AShr => bin(Op::AShr, x, y),
                Bop::FAdd => fbin(Op::FAdd, x, y),
                Bop::FSub => fbin(Op::FSub, x, y),
                Bop::FMul => fbin(Op::FMul, x, y),
                Bop::FDiv => fbin(Op::FDiv, x, y),
                Bop::FRem => fbin(Op::FRem, x, y),
            })
        })
    }
}

fn zext_to(e: E, w: u16) -> E {
    if e.w < w {
        zext(e, w)
    } else {
        e
    }
}
pub fn zero(t: &Ty) -> V {
    match t {
        Ty::Int(w) => V::I(c128(*w, 0)),
        Ty::Ptr | Ty::F64 => V::I(c(64, 0)),
        Ty::F32 => V::I(c(32, 0)),
        Ty::Struct(v, _) => V::A(Rc::new(v.iter().map(zero).collect())),
        Ty::Arr(n, e) | Ty::Vec(n, e) => V::A(Rc::new(vec![zero(e); *n as usize])),
        _ => V::U,
    }
}
pub fn geti(v: &V) -> E {
    match v {
        V::I(e) => *e,
        V::U => c(64, 0),
        V::A(_) => panic!("aggregate where an integer was expected"),
    }
}
fn pack(v: &[V]) -> Option<E> {
    let mut acc: Option<E> = None;
    for x in v {
        let e = match x {
            V::I(e) => *e,
            _ => return None,
        };
        acc = Some(match acc {
            None => e,
            Some(a) => {
                if a.w + e.w > 128 {
                    return None;
                }
                concat(e, a)
            }
        });
    }
    acc
}
fn insert(base: V, x: V, ix: &[u32]) -> V {
    if ix.is_empty() {
        return x;
    }
    match base {
        V::A(mut r) => {
            let v = Rc::make_mut(&mut r);
            let old = std::mem::replace(&mut v[ix[0] as usize], V::U);
            v[ix[0] as usize] = insert(old, x, &ix[1..]);
            V::A(r)
        }
        b => b,
    }
}
fn vite(cnd: E, a: &V, b: &V) -> Result<V, Stop> {
    Ok(match (a, b) {
        (V::I(x), V::I(y)) => V::I(ite(cnd, *x, *y)),
        (V::A(x), V::A(y)) => {
            let mut r = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                r.push(vite(cnd, p, q)?);
            }
            V::A(Rc::new(r))
        }
        (V::U, v) | (v, V::U) => v.clone(),
        _ => return Err(Stop::Err("select on mixed values".into())),
    })
}
fn map2(t: &Ty, x: V, y: V, f: &mut dyn FnMut(E, E) -> Result<E, Stop>) -> Result<V, Stop> {
    let x = if let V::U = x { zero(t) } else { x };
    let y = if let V::U = y { zero(t) } else { y };
    Ok(match (x, y) {
        (V::I(a), V::I(b)) => V::I(f(a, b)?),
        (V::A(a), V::A(b)) => {
            let mut r = vec![];
            for (p, q) in a.iter().zip(b.iter()) {
                r.push(V::I(f(geti(p), geti(q))?));
            }
            V::A(Rc::new(r))
        }
        _ => return Err(Stop::Err("mixed operands".into())),
    })
}
fn icmp(p: &str, x: E, y: E) -> E {
    match p {
        "eq" => eq(x, y),
        "ne" => not(eq(x, y)),
        "ult" => bin(Op::Ult, x, y),
        "ule" => bin(Op::Ule, x, y),
        "ugt" => bin(Op::Ult, y, x),
        "uge" => bin(Op::Ule, y, x),
        "slt" => bin(Op::Slt, x, y),
        "sle" => bin(Op::Sle, x, y),
        "sgt" => bin(Op::Slt, y, x),
        "sge" => bin(Op::Sle, y, x),
        p => panic!("icmp {p}"),
    }
}
fn fcmp_pred(p: &str, x: E, y: E) -> Result<E, Stop> {
    let uno = fcmp(Op::FUno, x, y);
    Ok(match p {
        "oeq" => fcmp(Op::FEq, x, y),
        "olt" => fcmp(Op::FLt, x, y),
        "ole" => fcmp(Op::FLe, x, y),
        "ogt" => fcmp(Op::FLt, y, x),
        "oge" => fcmp(Op::FLe, y, x),
        "one" => and(not(uno), not(fcmp(Op::FEq, x, y))),
        "ord" => not(uno),
        "uno" => uno,
        "ueq" => or(uno, fcmp(Op::FEq, x, y)),
        "une" => not(fcmp(Op::FEq, x, y)),
        "ult" => or(uno, fcmp(Op::FLt, x, y)),
        "ule" => or(uno, fcmp(Op::FLe, x, y)),
        "ugt" => or(uno, fcmp(Op::FLt, y, x)),
        "uge" => or(uno, fcmp(Op::FLe, y, x)),
        "true" => bool_(true),
        "false" => bool_(false),
        p => return Err(Stop::Err(format!("fcmp {p}"))),
    })
}
fn cast(k: Cast, t: &Ty, v: V, t2: &Ty) -> Result<V, Stop> {
    let v = if let V::U = v { zero(t) } else { v };
    if k == Cast::BitCast {
        return bitcast(v, t2);
    }
    if let (Ty::Vec(_, et), Ty::Vec(_, et2), V::A(x)) = (t, t2, &v) {
        let mut r = vec![];
        for e in x.iter() {
            r.push(cast(k, et, e.clone(), et2)?);
        }
        return Ok(V::A(Rc::new(r)));
    }
    let e = match v {
        V::I(e) => e,
        _ => return Err(Stop::Err("cast of aggregate".into())),
    };
    let w = bits_of(t2);
    Ok(V::I(match k {
        Cast::Trunc => trunc(e, w),
        Cast::ZExt => zext(e, w),
        Cast::SExt => sext(e, w),
        Cast::PtrToInt | Cast::IntToPtr => {
            if e.w > w {
                trunc(e, w)
            } else {
                zext(e, w)
            }
        }
        Cast::FpToSi => fun(Op::FToSI, e, w, 0),
        Cast::FpToUi => fun(Op::FToUI, e, w, 0),
        Cast::SiToFp => fun(Op::SIToF, e, w, 0),
        Cast::UiToFp => fun(Op::UIToF, e, w, 0),
        Cast::FpExt | Cast::FpTrunc => fun(Op::FToF, e, w, 0),
        Cast::BitCast => unreachable!(),
    }))
}
fn bitcast(v: V, t2: &Ty) -> Result<V, Stop> {
    match (&v, t2) {
        (V::I(e), Ty::Vec(n, et)) => {
            let w = bits_of(et);
            Ok(V::A(Rc::new((0..*n as u16).map(|i| V::I(extract(*e, i * w, w))).collect())))
        }
        (V::I(_), _) => Ok(v),
        (V::A(x), Ty::Vec(n, et)) => {
            let w = bits_of(et);
            let sw = geti(&x[0]).w;
            if sw == w {
                return Ok(v);
            }
            let mut out = vec![];
            if sw > w {
                for e in x.iter() {
                    for i in 0..sw / w {
                        out.push(V::I(extract(geti(e), i * w, w)));
                    }
                }
            } else {
                let k = (w / sw) as usize;
                for ch in x.chunks(k) {
                    out.push(V::I(pack(ch).ok_or_else(|| Stop::Err("bitcast".into()))?));
                }
            }
            debug_assert_eq!(out.len() as u64, *n);
            Ok(V::A(Rc::new(out)))
        }
        (V::A(x), _) => pack(x).map(V::I).ok_or_else(|| Stop::Err("bitcast to wide int".into())),
        _ => Ok(v),
    }
}
