//! Z3 (C API) back end, plus cvc5 as an external fallback for arithmetic Z3 gives up on.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, e: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_ge(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

pub type Model = Rc<HashMap<u32, u128, BuildFx>>;
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub external: u64,
    pub by_int: u64,
    pub by_bv: u64,
    pub by_hard: u64,
    pub secs: f64,
    pub max_secs: f64,
}

pub struct Smt {
    ctx: P,
    solver: P,
    stack: Vec<u32>,
    bv: Vec<P>,
    bl: Vec<P>,
    fpv: HashMap<u32, P>,
    symw: HashMap<u32, u16>,
    isolver: P,
    istack: Vec<u32>,
    ibl: HashMap<u32, Option<P>, BuildFx>,
    iv: HashMap<u32, Option<P>, BuildFx>,
    isym: HashMap<u32, P, BuildFx>,
    iside: Vec<(u32, P)>,
    iasserted: Vec<Vec<u32>>,
    pub stats: Stats,
    cache: HashMap<Vec<u32>, Option<Option<Model>>>, // Some(None)=unsat, Some(Some)=sat
    pub quick_ms: u32,
    pub hard_ms: u32,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Smt {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            let lg = CString::new("QF_BV").unwrap();
            let solver = if std::env::var_os("RSYM_SMT").is_some() { Z3_mk_solver(ctx) } else { Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, lg.as_ptr())) };
            Z3_solver_inc_ref(ctx, solver);
            let mut s = Smt {
                ctx,
                solver,
                stack: vec![],
                bv: vec![],
                bl: vec![],
                fpv: HashMap::new(),
                symw: HashMap::new(),
                isolver: std::ptr::null_mut(),
                istack: vec![],
                ibl: HashMap::default(),
                iv: HashMap::default(),
                isym: HashMap::default(),
                iside: vec![],
                iasserted: vec![],
                stats: Stats::default(),
                cache: HashMap::new(),
                quick_ms: 1500,
                hard_ms: 120_000,
            };
            s.set_timeout(solver, 1500);
            let is = Z3_mk_solver(ctx);
            Z3_solver_inc_ref(ctx, is);
            s.isolver = is;
            s.set_timeout(is, 1000);
            s
        }
    }
    unsafe fn set_timeout(&mut self, solver: P, ms: u32) {
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let k = CString::new("timeout").unwrap();
        let k = Z3_mk_string_symbol(self.ctx, k.as_ptr());
        Z3_params_set_uint(self.ctx, p, k, ms);
        Z3_solver_set_params(self.ctx, solver, p);
    }
    /// Every intermediate term is kept alive (the context is reference counted).
    #[inline]
    fn k(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, p) };
        p
    }
    unsafe fn keep(&mut self, id: u32, a: P, boolean: bool) -> P {
        Z3_inc_ref(self.ctx, a);
        let v = if boolean { &mut self.bl } else { &mut self.bv };
        if v.len() <= id as usize {
            v.resize(id as usize + 1, std::ptr::null_mut());
        }
        v[id as usize] = a;
        a
    }
    fn got(&self, id: u32, boolean: bool) -> Option<P> {
        let v = if boolean { &self.bl } else { &self.bv };
        match v.get(id as usize) {
            Some(p) if !p.is_null() => Some(*p),
            _ => None,
        }
    }
    fn num(&self, w: u16, k: u128) -> P {
        unsafe {
            let s = CString::new(k.to_string()).unwrap();
            let sort = self.k(Z3_mk_bv_sort(self.ctx, w as c_uint));
            self.k(Z3_mk_numeral(self.ctx, s.as_ptr(), sort))
        }
    }
    fn fsort(&self, w: u16) -> P {
        unsafe {
            if w == 32 {
                self.k(Z3_mk_fpa_sort(self.ctx, 8, 24))
            } else {
                self.k(Z3_mk_fpa_sort(self.ctx, 11, 53))
            }
        }
    }
    /// Translate ids so that all children are already cached (iterative).
    fn ensure(&mut self, root: u32, boolean: bool) -> P {
        let mut stack = vec![(root, boolean)];
        while let Some(&(id, b)) = stack.last() {
            if self.got(id, b).is_some() {
                stack.pop();
                continue;
            }
            let n = node(id);
            let mut need: Vec<(u32, bool)> = vec![];
            if b {
                debug_assert!(n.w == 1);
                match n.op {
                    Op::Const => {}
                    Op::And | Op::Or | Op::Xor => need.extend([(n.a, true), (n.b, true)]),
                    Op::Ite => need.extend([(n.a, true), (n.b, true), (n.c, true)]),
                    Op::Eq if node(n.a).w == 1 => need.extend([(n.a, true), (n.b, true)]),
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                        need.extend([(n.a, false), (n.b, false)])
                    }
                    _ => need.push((id, false)),
                }
            } else if n.w == 1
                && matches!(
                    n.op,
                    Op::And | Op::Or | Op::Xor | Op::Ite | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FUno
                )
            {
                need.push((id, true));
            } else {
                match n.op {
                    Op::Ite => need.extend([(n.a, true), (n.b, false), (n.c, false)]),
                    _ => {
                        for k in [n.a, n.b, n.c] {
                            if k != 0 {
                                need.push((k, false));
                            }
                        }
                    }
                }
            }
            let before = stack.len();
            for (k, kb) in need {
                if self.got(k, kb).is_none() {
                    stack.push((k, kb));
                }
            }
            if stack.len() > before {
                continue;
            }
            let a = unsafe { self.build(id, n, b) };
            unsafe { self.keep(id, a, b) };
            stack.pop();
        }
        self.got(root, boolean).unwrap()
    }
    /// The floating point number whose bits `id` is. What is computed stays one (no detour over its bits, which
    /// are not determined for what is not a number).
    unsafe fn fp(&mut self, id: u32) -> P {
        if let Some(p) = self.fpv.get(&id) {
            return *p;
        }
        let n = node(id);
        let cx = self.ctx;
        let s = self.fsort(n.w);
        let r = match n.op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let (x, y) = (self.fp(n.a), self.fp(n.b));
                let rm = self.k(Z3_mk_fpa_rne(cx));
                match n.op {
                    Op::FAdd => Z3_mk_fpa_add(cx, rm, x, y),
                    Op::FSub => Z3_mk_fpa_sub(cx, rm, x, y),
                    Op::FMul => Z3_mk_fpa_mul(cx, rm, x, y),
                    _ => Z3_mk_fpa_div(cx, rm, x, y),
                }
            }
            Op::FSqrt => {
                let x = self.fp(n.a);
                Z3_mk_fpa_sqrt(cx, self.k(Z3_mk_fpa_rne(cx)), x)
            }
            Op::FRound => {
                let x = self.fp(n.a);
                let rm = match n.k {
                    0 => self.k(Z3_mk_fpa_rna(cx)),
                    1 => self.k(Z3_mk_fpa_rtn(cx)),
                    2 => self.k(Z3_mk_fpa_rtp(cx)),
                    3 => self.k(Z3_mk_fpa_rtz(cx)),
                    _ => self.k(Z3_mk_fpa_rne(cx)),
                };
                Z3_mk_fpa_round_to_integral(cx, rm, x)
            }
            Op::SIToF => Z3_mk_fpa_to_fp_signed(cx, self.k(Z3_mk_fpa_rne(cx)), self.got(n.a, false).unwrap(), s),
            Op::UIToF => Z3_mk_fpa_to_fp_unsigned(cx, self.k(Z3_mk_fpa_rne(cx)), self.got(n.a, false).unwrap(), s),
            Op::FToF => {
                let x = self.fp(n.a);
                Z3_mk_fpa_to_fp_float(cx, self.k(Z3_mk_fpa_rne(cx)), x, s)
            }
            Op::FRem => panic!("symbolic frem not supported"),
            _ => Z3_mk_fpa_to_fp_bv(cx, self.got(id, false).unwrap(), s),
        };
        let r = self.k(r);
        self.fpv.insert(id, r);
        r
    }
    unsafe fn build(&mut self, id: u32, n: Node, b: bool) -> P {
        let cx = self.ctx;
        let gb = |s: &Self, k: u32| s.got(k, true).unwrap();
        let gv = |s: &Self, k: u32| s.got(k, false).unwrap();
        if b {
            return match n.op {
                Op::Const => {
                    if n.k == 1 {
                        self.k(Z3_mk_true(cx))
                    } else {
                        self.k(Z3_mk_false(cx))
                    }
                }
                Op::And => self.k(Z3_mk_and(cx, 2, [gb(self, n.a), gb(self, n.b)].as_ptr())),
                Op::Or => self.k(Z3_mk_or(cx, 2, [gb(self, n.a), gb(self, n.b)].as_ptr())),
                Op::Xor => {
                    if from_id(n.b).konst() == Some(1) {
                        self.k(Z3_mk_not(cx, gb(self, n.a)))
                    } else {
                        self.k(Z3_mk_xor(cx, gb(self, n.a), gb(self, n.b)))
                    }
                }
                Op::Ite => self.k(Z3_mk_ite(cx, gb(self, n.a), gb(self, n.b), gb(self, n.c))),
                Op::Eq if node(n.a).w == 1 => self.k(Z3_mk_eq(cx, gb(self, n.a), gb(self, n.b))),
                Op::Eq => self.k(Z3_mk_eq(cx, gv(self, n.a), gv(self, n.b))),
                Op::Ult => Z3_mk_bvult(cx, gv(self, n.a), gv(self, n.b)),
                Op::Ule => Z3_mk_bvule(cx, gv(self, n.a), gv(self, n.b)),
                Op::Slt => Z3_mk_bvslt(cx, gv(self, n.a), gv(self, n.b)),
                Op::Sle => Z3_mk_bvsle(cx, gv(self, n.a), gv(self, n.b)),
                Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                    let (x, y) = (self.fp(n.a), self.fp(n.b));
                    match n.op {
                        Op::FEq => self.k(Z3_mk_fpa_eq(cx, x, y)),
                        Op::FLt => self.k(Z3_mk_fpa_lt(cx, x, y)),
                        Op::FLe => self.k(Z3_mk_fpa_leq(cx, x, y)),
                        _ => self.k(Z3_mk_or(cx, 2, [self.k(Z3_mk_fpa_is_nan(cx, x)), self.k(Z3_mk_fpa_is_nan(cx, y))].as_ptr())),
                    }
                }
                _ => self.k(Z3_mk_eq(cx, gv(self, id), self.num(1, 1))),
            };
        }
        if let Some(p) = self.got(id, true) {
            return self.k(Z3_mk_ite(cx, p, self.num(1, 1), self.num(1, 0)));
        }
        let w = n.w;
        match n.op {
            Op::Const => self.num(w, n.k),
            Op::Sym => {
                self.symw.insert(n.k as u32, w);
                let s = CString::new(format!("s{}", n.k)).unwrap();
                let s = Z3_mk_string_symbol(cx, s.as_ptr());
                Z3_mk_const(cx, s, self.k(Z3_mk_bv_sort(cx, w as c_uint)))
            }
            Op::Add => Z3_mk_bvadd(cx, gv(self, n.a), gv(self, n.b)),
            Op::Sub => Z3_mk_bvsub(cx, gv(self, n.a), gv(self, n.b)),
            Op::Mul => Z3_mk_bvmul(cx, gv(self, n.a), gv(self, n.b)),
            Op::UDiv => Z3_mk_bvudiv(cx, gv(self, n.a), gv(self, n.b)),
            Op::SDiv => Z3_mk_bvsdiv(cx, gv(self, n.a), gv(self, n.b)),
            Op::URem => Z3_mk_bvurem(cx, gv(self, n.a), gv(self, n.b)),
            Op::SRem => Z3_mk_bvsrem(cx, gv(self, n.a), gv(self, n.b)),
            Op::And => Z3_mk_bvand(cx, gv(self, n.a), gv(self, n.b)),
            Op::Or => Z3_mk_bvor(cx, gv(self, n.a), gv(self, n.b)),
            Op::Xor => Z3_mk_bvxor(cx, gv(self, n.a), gv(self, n.b)),
            Op::Shl => Z3_mk_bvshl(cx, gv(self, n.a), gv(self, n.b)),
            Op::LShr => Z3_mk_bvlshr(cx, gv(self, n.a), gv(self, n.b)),
            Op::AShr => Z3_mk_bvashr(cx, gv(self, n.a), gv(self, n.b)),
            Op::Ite => self.k(Z3_mk_ite(cx, gb(self, n.a), gv(self, n.b), gv(self, n.c))),
            Op::Concat => Z3_mk_concat(cx, gv(self, n.a), gv(self, n.b)),
            Op::Extract => Z3_mk_extract(cx, n.k as c_uint + w as c_uint - 1, n.k as c_uint, gv(self, n.a)),
            Op::ZExt => Z3_mk_zero_ext(cx, (w - node(n.a).w) as c_uint, gv(self, n.a)),
            Op::SExt => Z3_mk_sign_ext(cx, (w - node(n.a).w) as c_uint, gv(self, n.a)),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FRound | Op::SIToF | Op::UIToF | Op::FToF => {
                let x = self.fp(id);
                Z3_mk_fpa_to_ieee_bv(cx, x)
            }
            Op::FToSI | Op::FToUI => {
                let x = self.fp(n.a);
                let rm = self.k(Z3_mk_fpa_rtz(cx));
                if n.op == Op::FToSI {
                    self.k(Z3_mk_fpa_to_sbv(cx, rm, x, w as c_uint))
                } else {
                    self.k(Z3_mk_fpa_to_ubv(cx, rm, x, w as c_uint))
                }
            }
            _ => unreachable!("{:?}", n.op),
        }
    }

    /// Restrict `pcs` to those transitively sharing symbols with `q`.
    pub fn slice(pcs: &[u32], q: E) -> Vec<u32> {
        if q.id == 0 {
            return pcs.to_vec();
        }
        let mut syms: std::collections::HashSet<u32, BuildFx> = syms_of(q.id).iter().copied().collect();
        let mut used = vec![false; pcs.len()];
        loop {
            let mut changed = false;
            for (i, p) in pcs.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = syms_of(*p);
                if s.iter().any(|x| syms.contains(x)) {
                    used[i] = true;
                    changed = true;
                    syms.extend(s.iter().copied());
                }
            }
            if !changed {
                break;
            }
        }
        pcs.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, p)| *p).collect()
    }

    /// Is `pcs ∧ q` satisfiable? `base` satisfies `pcs`; the returned model extends it.
    pub fn check(&mut self, pcs: &[u32], q: E, base: &Model) -> Res {
        if q.is_false() {
            return Res::Unsat;
        }
        if q.is_true() {
            return Res::Sat(base.clone());
        }
        let rel = Self::slice(pcs, q);
        let mut key = rel.clone();
        key.push(q.id);
        key.sort_unstable();
        key.dedup();
        self.stats.queries += 1;
        let hit = self.cache.get(&key).cloned();
        let r: Option<Option<Model>> = match hit {
            Some(r) => {
                self.stats.cache_hits += 1;
                r
            }
            None => {
                let t = Instant::now();
                let r = self.solve(&rel, q.id);
                let dt = t.elapsed().as_secs_f64();
                self.stats.secs += dt;
                if dt > self.stats.max_secs {
                    self.stats.max_secs = dt;
                }
                if let Some(d) = std::env::var_os("RSYM_SLOW") {
                    if dt > 0.5 {
                        unsafe {
                            let s = Z3_mk_solver(self.ctx);
                            Z3_solver_inc_ref(self.ctx, s);
                            for id in rel.iter().chain([q.id].iter()) {
                                let a = self.ensure(*id, true);
                                Z3_solver_assert(self.ctx, s, a);
                            }
                            let t = CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned();
                            let _ = std::fs::write(std::path::Path::new(&d).join(format!("{:.1}-{}.smt2", dt, self.stats.queries)), t + "(check-sat)\n");
                        }
                    }
                }
                self.cache.insert(key, r.clone());
                r
            }
        };
        match r {
            None => {
                self.stats.unknown += 1;
                Res::Unknown
            }
            Some(None) => {
                self.stats.unsat += 1;
                Res::Unsat
            }
            Some(Some(m)) => {
                self.stats.sat += 1;
                let mut n = (**base).clone();
                for (k, v) in m.iter() {
                    n.insert(*k, *v);
                }
                Res::Sat(Rc::new(n))
            }
        }
    }

    fn solve(&mut self, rel: &[u32], q: u32) -> Option<Option<Model>> {
        if let Some(r) = self.solve_int(rel, q) {
            self.stats.by_int += 1;
            if std::env::var_os("RSYM_CROSS").is_some() {
                let b = self.solve_bv(rel, q);
                if let Some(b) = b {
                    assert_eq!(r.is_some(), b.is_some(), "integer and bit-vector encodings disagree");
                }
            }
            return Some(r);
        }
        self.stats.by_bv += 1;
        self.solve_bv(rel, q)
    }

    // ---------- integer encoding ----------
    fn inum(&self, k: u128) -> P {
        unsafe {
            let s = CString::new(k.to_string()).unwrap();
            let sort = self.k(Z3_mk_int_sort(self.ctx));
            self.k(Z3_mk_numeral(self.ctx, s.as_ptr(), sort))
        }
    }
    fn inum_s(&self, neg: bool, k: u128) -> P {
        unsafe {
            let s = CString::new(format!("{}{}", if neg { "-" } else { "" }, k)).unwrap();
            let sort = self.k(Z3_mk_int_sort(self.ctx));
            self.k(Z3_mk_numeral(self.ctx, s.as_ptr(), sort))
        }
    }
    fn pow2(&self, w: u16) -> P {
        if w >= 128 {
            unsafe {
                let s = CString::new("340282366920938463463374607431768211456").unwrap();
                let sort = self.k(Z3_mk_int_sort(self.ctx));
                self.k(Z3_mk_numeral(self.ctx, s.as_ptr(), sort))
            }
        } else {
            self.inum(1u128 << w)
        }
    }
    fn ibool(&mut self, id: u32) -> Option<P> {
        if let Some(r) = self.ibl.get(&id) {
            return *r;
        }
        let r = self.ibool_(id);
        if let Some(p) = r {
            unsafe { Z3_inc_ref(self.ctx, p) };
        }
        self.ibl.insert(id, r);
        r
    }
    fn signed(&mut self, id: u32) -> Option<P> {
        let w = node(id).w;
        let x = self.ival(id)?;
        unsafe {
            let half = if w > 128 { return None } else { self.inum(1u128 << (w - 1)) };
            let ge = self.k(Z3_mk_ge(self.ctx, x, half));
            let sub = self.k(Z3_mk_sub(self.ctx, 2, [x, self.pow2(w)].as_ptr()));
            Some(self.k(Z3_mk_ite(self.ctx, ge, sub, x)))
        }
    }
    fn ibool_(&mut self, id: u32) -> Option<P> {
        let n = node(id);
        let cx = self.ctx;
        unsafe {
            Some(match n.op {
                Op::Const => {
                    if n.k == 1 {
                        self.k(Z3_mk_true(cx))
                    } else {
                        self.k(Z3_mk_false(cx))
                    }
                }
                Op::And | Op::Or => {
                    let v = [self.ibool(n.a)?, self.ibool(n.b)?];
                    self.k(if n.op == Op::And { Z3_mk_and(cx, 2, v.as_ptr()) } else { Z3_mk_or(cx, 2, v.as_ptr()) })
                }
                Op::Xor => {
                    let a = self.ibool(n.a)?;
                    if from_id(n.b).konst() == Some(1) {
                        self.k(Z3_mk_not(cx, a))
                    } else {
                        let b = self.ibool(n.b)?;
                        self.k(Z3_mk_xor(cx, a, b))
                    }
                }
                Op::Ite => {
                    let (a, b, e) = (self.ibool(n.a)?, self.ibool(n.b)?, self.ibool(n.c)?);
                    self.k(Z3_mk_ite(cx, a, b, e))
                }
                Op::Eq if node(n.a).w == 1 => {
                    let (a, b) = (self.ibool(n.a)?, self.ibool(n.b)?);
                    self.k(Z3_mk_eq(cx, a, b))
                }
                Op::Eq => {
                    let (a, b) = (self.ival(n.a)?, self.ival(n.b)?);
                    self.k(Z3_mk_eq(cx, a, b))
                }
                Op::Ult => {
                    let (a, b) = (self.ival(n.a)?, self.ival(n.b)?);
                    self.k(Z3_mk_lt(cx, a, b))
                }
                Op::Ule => {
                    let (a, b) = (self.ival(n.a)?, self.ival(n.b)?);
                    self.k(Z3_mk_le(cx, a, b))
                }
                Op::Slt | Op::Sle => {
                    let (a, b) = (self.signed(n.a)?, self.signed(n.b)?);
                    self.k(if n.op == Op::Slt { Z3_mk_lt(cx, a, b) } else { Z3_mk_le(cx, a, b) })
                }
                Op::FEq | Op::FLt | Op::FLe | Op::FUno => return None,
                _ => {
                    let v = self.ival(id)?;
                    self.k(Z3_mk_eq(cx, v, self.inum(1)))
                }
            })
        }
    }
    fn ival(&mut self, id: u32) -> Option<P> {
        if let Some(r) = self.iv.get(&id) {
            return *r;
        }
        let r = self.ival_(id);
        if let Some(p) = r {
            unsafe { Z3_inc_ref(self.ctx, p) };
        }
        self.iv.insert(id, r);
        r
    }
    /// `x mod 2^w` for an integer term of interval [lo, hi] given as (negative part, positive part).
    unsafe fn wrap(&mut self, x: P, neg: Option<u128>, pos: Option<u128>, w: u16) -> P {
        let m = mask(w);
        let cx = self.ctx;
        let p2 = self.pow2(w);
        match (neg, pos) {
            (Some(0), Some(h)) if h <= m => x,
            (Some(0), Some(h)) if h - m - 1 <= m => {
                let ge = self.k(Z3_mk_ge(cx, x, p2));
                let s = self.k(Z3_mk_sub(cx, 2, [x, p2].as_ptr()));
                self.k(Z3_mk_ite(cx, ge, s, x))
            }
            (Some(l), Some(h)) if l <= m && h <= m => {
                let lt = self.k(Z3_mk_lt(cx, x, self.inum(0)));
                let s = self.k(Z3_mk_add(cx, 2, [x, p2].as_ptr()));
                self.k(Z3_mk_ite(cx, lt, s, x))
            }
            _ => self.k(Z3_mk_mod(cx, x, p2)),
        }
    }
    fn ival_(&mut self, id: u32) -> Option<P> {
        let n = node(id);
        let w = n.w;
        let cx = self.ctx;
        if w > 128 {
            return None;
        }
        unsafe {
            Some(match n.op {
                Op::Const => self.inum(n.k),
                Op::Sym => {
                    self.symw.insert(n.k as u32, w);
                    let s = CString::new(format!("i{}", n.k)).unwrap();
                    let s = Z3_mk_string_symbol(cx, s.as_ptr());
                    let sort = self.k(Z3_mk_int_sort(cx));
                    let v = self.k(Z3_mk_const(cx, s, sort));
                    let ge = self.k(Z3_mk_ge(cx, v, self.inum(0)));
                    let lt = self.k(Z3_mk_lt(cx, v, self.pow2(w)));
                    let side = self.k(Z3_mk_and(cx, 2, [ge, lt].as_ptr()));
                    self.isym.insert(n.k as u32, v);
                    self.iside.push((n.k as u32, side));
                    v
                }
                _ if w == 1 => {
                    if !matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Ite | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Extract) {
                        return None;
                    }
                    if n.op == Op::Extract {
                        return self.iextract(n);
                    }
                    let b = self.ibool(id)?;
                    self.k(Z3_mk_ite(cx, b, self.inum(1), self.inum(0)))
                }
                Op::Add | Op::Sub => {
                    let l = lin(from_id(id));
                    self.ilin(&l, w)?
                }
                Op::Mul => {
                    if from_id(n.b).konst().is_some() {
                        let l = lin(from_id(id));
                        if l.0.len() == 1 && l.0[0].0 == id {
                            return None;
                        }
                        self.ilin(&l, w)?
                    } else {
                        let (a, b) = (self.ival(n.a)?, self.ival(n.b)?);
                        let p = self.k(Z3_mk_mul(cx, 2, [a, b].as_ptr()));
                        let (x, y) = (bounds(from_id(n.a)), bounds(from_id(n.b)));
                        self.wrap(p, Some(0), x.1.checked_mul(y.1), w)
                    }
                }
                Op::UDiv | Op::URem => {
                    let (a, b) = (self.ival(n.a)?, self.ival(n.b)?);
                    let r = if n.op == Op::UDiv { self.k(Z3_mk_div(cx, a, b)) } else { self.k(Z3_mk_mod(cx, a, b)) };
                    if bounds(from_id(n.b)).0 > 0 {
                        r
                    } else {
                        let z = self.k(Z3_mk_eq(cx, b, self.inum(0)));
                        let d = if n.op == Op::UDiv { self.inum(mask(w)) } else { a };
                        self.k(Z3_mk_ite(cx, z, d, r))
                    }
                }
                Op::Ite => {
                    let (a, b, e) = (self.ibool(n.a)?, self.ival(n.b)?, self.ival(n.c)?);
                    self.k(Z3_mk_ite(cx, a, b, e))
                }
                Op::ZExt => self.ival(n.a)?,
                Op::SExt => {
                    let iw = node(n.a).w;
                    let x = self.ival(n.a)?;
                    let ge = self.k(Z3_mk_ge(cx, x, self.inum(1u128 << (iw - 1))));
                    let up = self.k(Z3_mk_add(cx, 2, [x, self.inum(mask(w) - mask(iw))].as_ptr()));
                    self.k(Z3_mk_ite(cx, ge, up, x))
                }
                Op::Concat => {
                    let l = lin(from_id(id));
                    if !(l.0.len() == 1 && l.0[0].0 == id) {
                        return self.ilin(&l, w);
                    }
                    let (a, b) = (self.ival(n.a)?, self.ival(n.b)?);
                    let lw = node(n.b).w;
                    let s = self.k(Z3_mk_mul(cx, 2, [a, self.pow2(lw)].as_ptr()));
                    self.k(Z3_mk_add(cx, 2, [s, b].as_ptr()))
                }
                Op::Extract => return self.iextract(n),
                _ => return None,
            })
        }
    }
    fn iextract(&mut self, n: Node) -> Option<P> {
        let cx = self.ctx;
        let mut x = self.ival(n.a)?;
        let (_, mut h) = bounds(from_id(n.a));
        unsafe {
            if n.k > 0 {
                x = self.k(Z3_mk_div(cx, x, self.pow2(n.k as u16)));
                h >>= n.k;
            }
            if h > mask(n.w) {
                x = self.k(Z3_mk_mod(cx, x, self.pow2(n.w)));
            }
        }
        Some(x)
    }
    fn ilin(&mut self, l: &Lin, w: u16) -> Option<P> {
        let m = mask(w);
        let half = if w >= 128 { 1u128 << 127 } else { 1u128 << (w - 1) };
        let (mut neg, mut pos) = (Some(0u128), Some(0u128));
        let mut terms = vec![];
        for (id, k) in l.0.iter() {
            let x = self.ival(*id)?;
            let h = bounds(from_id(*id)).1;
            if *k <= half {
                pos = pos.and_then(|p| h.checked_mul(*k).and_then(|t| p.checked_add(t)));
                terms.push(if *k == 1 { x } else { unsafe { self.k(Z3_mk_mul(self.ctx, 2, [self.inum(*k), x].as_ptr())) } });
            } else {
                let k = k.wrapping_neg() & m;
                neg = neg.and_then(|p| h.checked_mul(k).and_then(|t| p.checked_add(t)));
                terms.push(unsafe { self.k(Z3_mk_mul(self.ctx, 2, [self.inum_s(true, k), x].as_ptr())) });
            }
        }
        if l.1 != 0 {
            if l.1 <= half {
                pos = pos.and_then(|p| p.checked_add(l.1));
                terms.push(self.inum(l.1));
            } else {
                let k = l.1.wrapping_neg() & m;
                neg = neg.and_then(|p| p.checked_add(k));
                terms.push(self.inum_s(true, k));
            }
        }
        unsafe {
            let x = if terms.len() == 1 { terms[0] } else { self.k(Z3_mk_add(self.ctx, terms.len() as c_uint, terms.as_ptr())) };
            Some(self.wrap(x, neg, pos, w))
        }
    }
    fn solve_int(&mut self, rel: &[u32], q: u32) -> Option<Option<Model>> {
        // all-or-nothing: every constraint must be expressible
        let mut ps = Vec::with_capacity(rel.len() + 1);
        for id in rel.iter().chain([q].iter()) {
            ps.push(self.ibool(*id)?);
        }
        let syms = self.syms(rel, q);
        unsafe {
            let mut common = 0;
            while common < self.istack.len() && common < rel.len() && self.istack[common] == rel[common] {
                common += 1;
            }
            if common < self.istack.len() {
                Z3_solver_pop(self.ctx, self.isolver, (self.istack.len() - common) as c_uint);
                self.istack.truncate(common);
                self.iasserted.truncate(common);
            }
            let known = |s: &Self, k: u32| s.iasserted.iter().any(|v| v.contains(&k));
            for (i, id) in rel.iter().enumerate().skip(common) {
                Z3_solver_push(self.ctx, self.isolver);
                let mut mine = vec![];
                for s in syms_of(*id).iter() {
                    if !known(self, *s) {
                        let side = self.iside.iter().find(|x| x.0 == *s).unwrap().1;
                        Z3_solver_assert(self.ctx, self.isolver, side);
                        mine.push(*s);
                    }
                }
                Z3_solver_assert(self.ctx, self.isolver, ps[i]);
                self.istack.push(*id);
                self.iasserted.push(mine);
            }
            Z3_solver_push(self.ctx, self.isolver);
            for s in syms_of(q).iter() {
                if !known(self, *s) {
                    let side = self.iside.iter().find(|x| x.0 == *s).unwrap().1;
                    Z3_solver_assert(self.ctx, self.isolver, side);
                }
            }
            Z3_solver_assert(self.ctx, self.isolver, ps[rel.len()]);
            let r = Z3_solver_check(self.ctx, self.isolver);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.isolver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out: HashMap<u32, u128, BuildFx> = HashMap::default();
                    for s in syms {
                        let a = self.isym[&s];
                        let mut r: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, a, true, &mut r) {
                            let t = CStr::from_ptr(Z3_get_numeral_string(self.ctx, r)).to_string_lossy().into_owned();
                            out.insert(s, t.parse().unwrap_or(0));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Some(Some(Rc::new(out)))
                }
                -1 => Some(None),
                _ => None,
            };
            Z3_solver_pop(self.ctx, self.isolver, 1);
            out
        }
    }

    fn solve_bv(&mut self, rel: &[u32], q: u32) -> Option<Option<Model>> {
        let has_fp = FP.load(std::sync::atomic::Ordering::Relaxed) && rel.iter().chain([q].iter()).any(|i| self.has_fp(*i));
        // the incremental solver knows bit vectors only
        if has_fp {
            return unsafe { self.solve_hard(rel, q, true) };
        }
        // sync the incremental stack with `rel`
        let mut common = 0;
        while common < self.stack.len() && common < rel.len() && self.stack[common] == rel[common] {
            common += 1;
        }
        unsafe {
            if common < self.stack.len() {
                Z3_solver_pop(self.ctx, self.solver, (self.stack.len() - common) as c_uint);
                self.stack.truncate(common);
            }
            for id in &rel[common..] {
                let a = self.ensure(*id, true);
                Z3_solver_push(self.ctx, self.solver);
                Z3_solver_assert(self.ctx, self.solver, a);
                self.stack.push(*id);
            }
            let a = self.ensure(q, true);
            Z3_solver_push(self.ctx, self.solver);
            Z3_solver_assert(self.ctx, self.solver, a);
            let r = Z3_solver_check(self.ctx, self.solver);
            let out = match r {
                1 => Some(Some(self.model(self.solver, rel, q))),
                -1 => Some(None),
                _ => None,
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            if out.is_some() {
                return out;
            }
            self.solve_hard(rel, q, false)
        }
    }
    unsafe fn solve_hard(&mut self, rel: &[u32], q: u32, has_fp: bool) -> Option<Option<Model>> {
        {
            self.stats.by_hard += 1;
            // fresh, non-incremental, full preprocessing
            if std::env::var_os("RSYM_TRACE_HARD").is_some() {
                eprintln!("hard query, {} constraints", rel.len());
            }
            let logic = CString::new("QF_BV").unwrap();
            let s = if has_fp {
                Z3_mk_solver(self.ctx)
            } else {
                Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, logic.as_ptr()))
            };
            Z3_solver_inc_ref(self.ctx, s);
            let ms = self.hard_ms / 3;
            self.set_timeout(s, ms);
            for id in rel.iter().chain([q].iter()) {
                let a = self.ensure(*id, true);
                Z3_solver_assert(self.ctx, s, a);
            }
            let r = Z3_solver_check(self.ctx, s);
            let out = match r {
                1 => Some(Some(self.model(s, rel, q))),
                -1 => Some(None),
                _ => None,
            };
            let out = if out.is_some() {
                out
            } else {
                let text = CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned();
                self.external(&text, rel, q, has_fp)
            };
            Z3_solver_dec_ref(self.ctx, s);
            out
        }
    }
    fn has_fp(&self, id: u32) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![id];
        while let Some(i) = st.pop() {
            if !seen.insert(i) {
                continue;
            }
            let n = node(i);
            if n.op >= Op::FAdd {
                return true;
            }
            for k in [n.a, n.b, n.c] {
                if k != 0 {
                    st.push(k);
                }
            }
        }
        false
    }
    fn external(&mut self, text: &str, rel: &[u32], q: u32, has_fp: bool) -> Option<Option<Model>> {
        self.stats.external += 1;
        let syms = self.syms(rel, q);
        let mut f = String::new();
        f.push_str("(set-option :produce-models true)\n");
        f.push_str(if has_fp { "(set-logic QF_BVFP)\n" } else { "(set-logic QF_BV)\n" });
        f.push_str(text);
        f.push_str("\n(check-sat)\n(get-value (");
        for s in &syms {
            f.push_str(&format!("s{s} "));
        }
        f.push_str("))\n");
        let path = std::env::temp_dir().join(format!("rsym-{}.smt2", std::process::id()));
        std::fs::write(&path, f).ok()?;
        // two configurations in parallel
        let secs = self.hard_ms / 1000;
        let mut kids = vec![];
        for extra in [vec!["--solve-bv-as-int=sum"], vec![]] {
            if has_fp && !extra.is_empty() {
                continue;
            }
            let mut c = std::process::Command::new("timeout");
            c.arg(secs.to_string()).arg("cvc5").args(&extra).arg(&path);
            c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
            if let Ok(k) = c.spawn() {
                kids.push(k);
            }
        }
        let mut out = None;
        loop {
            let mut alive = false;
            for k in kids.iter_mut() {
                match k.try_wait() {
                    Ok(None) => alive = true,
                    Ok(Some(_)) => {
                        if let Some(mut o) = k.stdout.take() {
                            let mut s = String::new();
                            let _ = std::io::Read::read_to_string(&mut o, &mut s);
                            if s.contains("(error") && !s.starts_with("unsat") {
                                continue;
                            }
                            if s.starts_with("unsat") {
                                out = Some(None);
                            } else if s.starts_with("sat") {
                                let mut m: HashMap<u32, u128, BuildFx> = HashMap::default();
                                let toks: Vec<&str> = s.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|t| !t.is_empty()).collect();
                                for w in toks.windows(2) {
                                    if let Some(n) = w[0].strip_prefix('s').and_then(|n| n.parse::<u32>().ok()) {
                                        let v = if let Some(b) = w[1].strip_prefix("#b") {
                                            u128::from_str_radix(b, 2).ok()
                                        } else if let Some(h) = w[1].strip_prefix("#x") {
                                            u128::from_str_radix(h, 16).ok()
                                        } else {
                                            None
                                        };
                                        if let Some(v) = v {
                                            m.insert(n, v);
                                        }
                                    }
                                }
                                out = Some(Some(Rc::new(m)));
                            }
                        }
                    }
                    Err(_) => {}
                }
            }
            if out.is_some() || !alive {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        for mut k in kids {
            let _ = k.kill();
            let _ = k.wait();
        }
        let _ = std::fs::remove_file(&path);
        out
    }
    fn syms(&self, rel: &[u32], q: u32) -> Vec<u32> {
        let mut v: Vec<u32> = vec![];
        for id in rel.iter().chain([q].iter()) {
            v.extend(syms_of(*id).iter());
        }
        v.sort_unstable();
        v.dedup();
        v
    }
    unsafe fn model(&mut self, solver: P, rel: &[u32], q: u32) -> Model {
        let m = Z3_solver_get_model(self.ctx, solver);
        Z3_model_inc_ref(self.ctx, m);
        let mut out: HashMap<u32, u128, BuildFx> = HashMap::default();
        for s in self.syms(rel, q) {
            let w = self.symw[&s];
            let id = sym(w, s).id;
            let a = self.ensure(id, false);
            let mut r: P = std::ptr::null_mut();
            if Z3_model_eval(self.ctx, m, a, true, &mut r) {
                let t = CStr::from_ptr(Z3_get_numeral_string(self.ctx, r)).to_string_lossy().into_owned();
                out.insert(s, t.parse().unwrap_or(0));
            }
        }
        Z3_model_dec_ref(self.ctx, m);
        Rc::new(out)
    }
}
