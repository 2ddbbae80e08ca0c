//! Hash-consed bit-vector expressions with constant folding and local simplification.
use std::cell::RefCell;
use std::collections::HashMap;

/// A bit-vector value of width `w`: concrete (`id == 0`, value `v`, w <= 64) or node `id`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct E {
    pub w: u16,
    pub id: u32,
    pub v: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const, // k
    Sym,   // k = symbol number
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a high, b low
    Extract, // k = low bit
    ZExt,
    SExt,
    // floats: operands are bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FSqrt,
    FRem,
    FEq,
    FLt,
    FLe,
    FUno,   // isnan(a)||isnan(b)
    FToSI,  // width of result w, saturating semantics not included
    FToUI,
    SIToF,
    UIToF,
    FToF,
    FRound, // k = mode: 0 RNA(round), 1 floor, 2 ceil, 3 trunc, 4 RNE
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, u32, BuildFx>,
    pub nsyms: u32,
    /// per node: sorted list of symbols (shared), computed lazily
    syms: Vec<Option<std::rc::Rc<Vec<u32>>>>,
}

#[derive(Default, Clone, Copy)]
pub struct BuildFx;
pub struct Fx(u64);
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx {
        nodes: vec![Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 }],
        map: HashMap::default(),
        nsyms: 0,
        syms: vec![None],
    });
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn m64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

fn intern(n: Node) -> u32 {
    CTX.with(|c| {
        let c = &mut *c.borrow_mut();
        if let Some(i) = c.map.get(&n) {
            return *i;
        }
        let i = c.nodes.len() as u32;
        c.nodes.push(n);
        c.syms.push(None);
        c.map.insert(n, i);
        i
    })
}
pub fn node(id: u32) -> Node {
    CTX.with(|c| c.borrow().nodes[id as usize])
}
pub fn nnodes() -> usize {
    CTX.with(|c| c.borrow().nodes.len())
}

/// Sorted symbols occurring in node `id`.
pub fn syms_of(id: u32) -> std::rc::Rc<Vec<u32>> {
    if let Some(s) = CTX.with(|c| c.borrow().syms[id as usize].clone()) {
        return s;
    }
    // iterative post-order
    let mut stack = vec![id];
    while let Some(&top) = stack.last() {
        if CTX.with(|c| c.borrow().syms[top as usize].is_some()) {
            stack.pop();
            continue;
        }
        let n = node(top);
        let kids: Vec<u32> = [n.a, n.b, n.c].into_iter().filter(|x| *x != 0).collect();
        let pending: Vec<u32> = kids
            .iter()
            .copied()
            .filter(|k| CTX.with(|c| c.borrow().syms[*k as usize].is_none()))
            .collect();
        if !pending.is_empty() {
            stack.extend(pending);
            continue;
        }
        let mut s: Vec<u32> = vec![];
        if n.op == Op::Sym {
            s.push(n.k as u32);
        }
        for k in kids {
            let o = CTX.with(|c| c.borrow().syms[k as usize].clone().unwrap());
            s.extend(o.iter());
        }
        s.sort_unstable();
        s.dedup();
        CTX.with(|c| c.borrow_mut().syms[top as usize] = Some(std::rc::Rc::new(s)));
        stack.pop();
    }
    CTX.with(|c| c.borrow().syms[id as usize].clone().unwrap())
}

pub fn c(w: u16, v: u64) -> E {
    debug_assert!(w <= 64);
    E { w, id: 0, v: v & m64(w) }
}
pub fn c128(w: u16, v: u128) -> E {
    let v = v & mask(w);
    if w <= 64 {
        E { w, id: 0, v: v as u64 }
    } else {
        let id = intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v });
        E { w, id, v: 0 }
    }
}
pub fn bool_(b: bool) -> E {
    E { w: 1, id: 0, v: b as u64 }
}
impl E {
    pub fn is_const(&self) -> bool {
        self.id == 0 || node(self.id).op == Op::Const
    }
    pub fn konst(&self) -> Option<u128> {
        if self.id == 0 {
            Some(self.v as u128)
        } else if self.w > 64 {
            let n = node(self.id);
            if n.op == Op::Const {
                Some(n.k)
            } else {
                None
            }
        } else {
            None
        }
    }
    pub fn nid(&self) -> u32 {
        if self.id != 0 {
            self.id
        } else {
            intern(Node { op: Op::Const, w: self.w, a: 0, b: 0, c: 0, k: self.v as u128 })
        }
    }
    pub fn u(&self) -> Option<u64> {
        if self.id == 0 {
            Some(self.v)
        } else {
            None
        }
    }
    pub fn is_true(&self) -> bool {
        self.id == 0 && self.v == 1
    }
    pub fn is_false(&self) -> bool {
        self.id == 0 && self.v == 0
    }
}
pub fn from_id(id: u32) -> E {
    let n = node(id);
    if n.op == Op::Const {
        c128(n.w, n.k)
    } else {
        E { w: n.w, id, v: 0 }
    }
}
pub fn fresh(w: u16) -> (E, u32) {
    let k = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.nsyms += 1;
        c.nsyms - 1
    });
    (from_id(intern(Node { op: Op::Sym, w, a: 0, b: 0, c: 0, k: k as u128 })), k)
}
/// The symbol numbered `k` of width `w` (re-used between paths that make the same request).
pub fn sym(w: u16, k: u32) -> E {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if c.nsyms <= k {
            c.nsyms = k + 1
        }
    });
    from_id(intern(Node { op: Op::Sym, w, a: 0, b: 0, c: 0, k: k as u128 }))
}
/// Whether any floating point operation was ever made.
pub static FP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn mk(op: Op, w: u16, a: u32, b: u32, c_: u32, k: u128) -> E {
    if op >= Op::FAdd {
        FP.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    E { w, id: intern(Node { op, w, a, b, c: c_, k }), v: 0 }
}

fn fold_bin(op: Op, w: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                (if a < 0 { 1 } else { m }) & m
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let a = sext128(x, w);
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((a >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext128(x, w) < sext128(y, w)) as u128,
        Op::Sle => (sext128(x, w) <= sext128(y, w)) as u128,
        _ => ::std::unreachable!("{op:?}"),
    }
}
fn commutes(op: Op) -> bool {
    matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
}
fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

pub fn bin(op: Op, mut a: E, mut b: E) -> E {
    assert_eq!(a.w, b.w, "width mismatch in {op:?}");
    let w = a.w;
    let rw = if is_cmp(op) { 1 } else { w };
    if a.id == 0 && b.id == 0 && w <= 64 {
        // fast path
        let m = m64(w);
        let (x, y) = (a.v, b.v);
        let r = match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Eq => (x == y) as u64,
            Op::Ult => (x < y) as u64,
            Op::Ule => (x <= y) as u64,
            _ => fold_bin(op, w, x as u128, y as u128) as u64,
        };
        return E { w: rw, id: 0, v: r };
    }
    let (ka, kb) = (a.konst(), b.konst());
    if let (Some(x), Some(y)) = (ka, kb) {
        return c128(rw, fold_bin(op, w, x, y));
    }
    if commutes(op) && (ka.is_some() || (kb.is_none() && a.id > b.id)) {
        std::mem::swap(&mut a, &mut b);
    }
    let kb = b.konst();
    let ka = a.konst();
    let m = mask(w);
    if matches!(op, Op::Ult | Op::Ule | Op::Eq) && w > 1 {
        let (x, y) = (bounds(a), bounds(b));
        match op {
            Op::Ult if x.1 < y.0 => return bool_(true),
            Op::Ult if x.0 >= y.1 => return bool_(false),
            Op::Ule if x.1 <= y.0 => return bool_(true),
            Op::Ule if x.0 > y.1 => return bool_(false),
            Op::Eq if x.1 < y.0 || y.1 < x.0 => return bool_(false),
            _ => {}
        }
        // x + y < x  without wrap-around
        if op == Op::Ult && a.id != 0 {
            let n = node(a.id);
            if n.op == Op::Add && (n.a == b.id || n.b == b.id) && b.id != 0 {
                let (p, q) = (bounds(from_id(n.a)), bounds(from_id(n.b)));
                if p.1.checked_add(q.1).is_some_and(|h| h <= m) {
                    return bool_(false);
                }
            }
        }
    }
    if (op == Op::Add || op == Op::Sub) && w > 1 && w <= 128 && (a.id != 0 || b.id != 0) {
        let (la, lb) = (lin(a), lin(b));
        if la.0.len() + lb.0.len() <= 40 {
            return unlin(&lin_comb(&la, 1, &lb, if op == Op::Sub { m } else { 1 }, m), w);
        }
    }
    if op == Op::Eq && w > 1 && (a.id != 0 && b.id != 0) {
        let (la, lb) = (lin(a), lin(b));
        if (la.0.len() > 1 || lb.0.len() > 1) && la.0.len() + lb.0.len() <= 40 {
            let d = lin_comb(&la, 1, &lb, m, m);
            if d.0.is_empty() {
                return bool_(d.1 == 0);
            }
            if d.0.len() < la.0.len() + lb.0.len() {
                // common terms cancel: move the negative ones back to the other side
                let half = if w >= 128 { 1u128 << 127 } else { 1u128 << (w - 1) };
                let mut p = (vec![], 0u128);
                let mut q = (vec![], d.1.wrapping_neg() & m);
                for (id, k) in d.0.iter() {
                    if *k <= half {
                        p.0.push((*id, *k));
                    } else {
                        q.0.push((*id, k.wrapping_neg() & m));
                    }
                }
                if p.0.is_empty() {
                    p.1 = q.1.wrapping_neg() & m;
                    q.1 = 0;
                }
                let (x, y) = (unlin(&std::rc::Rc::new(p), w), unlin(&std::rc::Rc::new(q), w));
                if (x, y) != (a, b) && (y, x) != (a, b) {
                    return bin(Op::Eq, x, y);
                }
            }
        }
    }
    match op {
        Op::Add => {
            if kb == Some(0) {
                return a;
            }
            if let Some(y) = kb {
                let n = node(a.id);
                if n.op == Op::Add {
                    if let Some(z) = from_id(n.b).konst() {
                        return bin(Op::Add, from_id(n.a), c128(w, y.wrapping_add(z)));
                    }
                }
            }
        }
        Op::Sub => {
            if a == b {
                return c128(w, 0);
            }
            if let Some(y) = kb {
                return bin(Op::Add, a, c128(w, y.wrapping_neg()));
            }
            // (x + y) - y, (x + y) - x
            if a.id != 0 {
                let n = node(a.id);
                if n.op == Op::Add {
                    if n.b == b.id {
                        return from_id(n.a);
                    }
                    if n.a == b.id {
                        return from_id(n.b);
                    }
                }
            }
        }
        Op::Mul => {
            if kb == Some(0) {
                return b;
            }
            if kb == Some(1) {
                return a;
            }
            if let Some(y) = kb {
                if y.is_power_of_two() {
                    return bin(Op::Shl, a, c128(w, y.trailing_zeros() as u128));
                }
            }
        }
        Op::UDiv => {
            if kb == Some(1) {
                return a;
            }
            if let Some(y) = kb {
                if y.is_power_of_two() {
                    return bin(Op::LShr, a, c128(w, y.trailing_zeros() as u128));
                }
            }
        }
        Op::URem => {
            if let Some(y) = kb {
                if y.is_power_of_two() {
                    return bin(Op::And, a, c128(w, y - 1));
                }
            }
        }
        Op::And => {
            if kb == Some(0) {
                return b;
            }
            if kb == Some(m) || a == b {
                return a;
            }
            if let Some(y) = kb {
                let n = node(a.id);
                // and with low mask of zext => narrower
                if n.op == Op::And {
                    if let Some(z) = from_id(n.b).konst() {
                        return bin(Op::And, from_id(n.a), c128(w, y & z));
                    }
                }
                if n.op == Op::ZExt {
                    let iw = node(n.a).w;
                    if y & mask(iw) == mask(iw) {
                        return a;
                    }
                }
                if (y + 1).is_power_of_two() && y != m {
                    let lw = (y + 1).trailing_zeros() as u16;
                    return zext(extract(a, 0, lw), w);
                }
            }
            if w == 1 && is_not_of(a, b) {
                return bool_(false);
            }
        }
        Op::Or => {
            if kb == Some(0) || a == b {
                return a;
            }
            if kb == Some(m) {
                return b;
            }
            if w == 1 && is_not_of(a, b) {
                return bool_(true);
            }
            // disjoint halves: zext(x) | (shl(zext(y), k))  => concat
            if let Some(e) = or_concat(a, b).or_else(|| or_concat(b, a)) {
                return e;
            }
        }
        Op::Xor => {
            if kb == Some(0) {
                return a;
            }
            if a == b {
                return c128(w, 0);
            }
            if w == 1 && kb == Some(1) {
                let n = node(a.id);
                match n.op {
                    Op::Xor => {
                        if from_id(n.b).konst() == Some(1) {
                            return from_id(n.a);
                        }
                    }
                    Op::Ult => return bin(Op::Ule, from_id(n.b), from_id(n.a)),
                    Op::Ule => return bin(Op::Ult, from_id(n.b), from_id(n.a)),
                    Op::Slt => return bin(Op::Sle, from_id(n.b), from_id(n.a)),
                    Op::Sle => return bin(Op::Slt, from_id(n.b), from_id(n.a)),
                    _ => {}
                }
            } else if let Some(y) = kb {
                let n = node(a.id);
                if n.op == Op::Xor {
                    if let Some(z) = from_id(n.b).konst() {
                        return bin(Op::Xor, from_id(n.a), c128(w, y ^ z));
                    }
                }
            }
        }
        Op::Shl | Op::LShr | Op::AShr => {
            if kb == Some(0) {
                return a;
            }
            if ka == Some(0) {
                return a;
            }
            if let Some(y) = kb {
                if y >= w as u128 && op != Op::AShr {
                    return c128(w, 0);
                }
                if op == Op::LShr {
                    // lshr by constant = zext(extract)
                    let s = y as u16;
                    return zext(extract(a, s, w - s), w);
                }
                if op == Op::Shl {
                    let s = y as u16;
                    return concat(extract(a, 0, w - s), c128(s, 0));
                }
            }
        }
        Op::Eq => {
            if a == b {
                return bool_(true);
            }
            if let Some(y) = kb {
                if w == 1 {
                    return if y == 1 { a } else { not(a) };
                }
                let n = node(a.id);
                match n.op {
                    Op::ZExt => {
                        let iw = node(n.a).w;
                        if y > mask(iw) {
                            return bool_(false);
                        }
                        return bin(Op::Eq, from_id(n.a), c128(iw, y));
                    }
                    Op::SExt => {
                        let iw = node(n.a).w;
                        let t = y & mask(iw);
                        if (sext128(t, iw) as u128) & m != y {
                            return bool_(false);
                        }
                        return bin(Op::Eq, from_id(n.a), c128(iw, t));
                    }
                    Op::Add => {
                        if let Some(z) = from_id(n.b).konst() {
                            return bin(Op::Eq, from_id(n.a), c128(w, y.wrapping_sub(z)));
                        }
                    }
                    Op::Xor => {
                        if let Some(z) = from_id(n.b).konst() {
                            return bin(Op::Eq, from_id(n.a), c128(w, y ^ z));
                        }
                    }
                    Op::Sub => {
                        if y == 0 {
                            return bin(Op::Eq, from_id(n.a), from_id(n.b));
                        }
                    }
                    Op::Concat => {
                        let lw = node(n.b).w;
                        let lo = from_id(n.b);
                        let hi = from_id(n.a);
                        let l = bin(Op::Eq, lo, c128(lw, y & mask(lw)));
                        if l.is_false() {
                            return l;
                        }
                        let h = bin(Op::Eq, hi, c128(hi.w, y >> lw));
                        return bin(Op::And, h, l);
                    }
                    Op::Ite => {
                        let t = from_id(n.b);
                        let e = from_id(n.c);
                        let kt = t.konst();
                        let ke = e.konst();
                        if kt.is_some() || ke.is_some() {
                            let te = bin(Op::Eq, t, c128(w, y));
                            let ee = bin(Op::Eq, e, c128(w, y));
                            return ite(from_id(n.a), te, ee);
                        }
                    }
                    _ => {}
                }
            } else {
                let (na, nb) = (node(a.id), node(b.id));
                if na.op == Op::ZExt && nb.op == Op::ZExt && node(na.a).w == node(nb.a).w {
                    return bin(Op::Eq, from_id(na.a), from_id(nb.a));
                }
                if na.op == Op::Concat && nb.op == Op::Concat && node(na.b).w == node(nb.b).w {
                    let h = bin(Op::Eq, from_id(na.a), from_id(nb.a));
                    if h.is_false() {
                        return h;
                    }
                    let l = bin(Op::Eq, from_id(na.b), from_id(nb.b));
                    return bin(Op::And, h, l);
                }
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                    return bin(Op::Eq, from_id(na.a), from_id(nb.a));
                }
            }
        }
        Op::Ult => {
            if a == b || kb == Some(0) {
                return bool_(false);
            }
            if ka == Some(m) {
                return bool_(false);
            }
            if let Some(y) = kb {
                if y == 1 {
                    return bin(Op::Eq, a, c128(w, 0));
                }
                if let Some(r) = narrow_cmp(op, a, y, true) {
                    return r;
                }
            }
            if let Some(x) = ka {
                if x == 0 {
                    return not(bin(Op::Eq, b, c128(w, 0)));
                }
                if let Some(r) = narrow_cmp(op, b, x, false) {
                    return r;
                }
            }
            if let Some((x, y)) = both_zext(a, b) {
                return bin(Op::Ult, x, y);
            }
        }
        Op::Ule => {
            if a == b || kb == Some(m) || ka == Some(0) {
                return bool_(true);
            }
            if let Some(y) = kb {
                return bin(Op::Ult, a, c128(w, y + 1));
            }
            if let Some(x) = ka {
                return bin(Op::Ult, c128(w, x - 1), b);
            }
            if let Some((x, y)) = both_zext(a, b) {
                return bin(Op::Ule, x, y);
            }
        }
        Op::Slt => {
            if a == b {
                return bool_(false);
            }
        }
        Op::Sle => {
            if a == b {
                return bool_(true);
            }
        }
        _ => {}
    }
    // push into ite with constant arms when the other operand is constant
    if let Some(_) = b.konst() {
        if a.id != 0 {
            let n = node(a.id);
            if n.op == Op::Ite {
                let (t, e) = (from_id(n.b), from_id(n.c));
                if t.is_const() && e.is_const() {
                    return ite(from_id(n.a), bin(op, t, b), bin(op, e, b));
                }
            }
        }
    }
    if let Some(_) = a.konst() {
        if b.id != 0 {
            let n = node(b.id);
            if n.op == Op::Ite {
                let (t, e) = (from_id(n.b), from_id(n.c));
                if t.is_const() && e.is_const() {
                    return ite(from_id(n.a), bin(op, a, t), bin(op, a, e));
                }
            }
        }
    }
    mk(op, rw, a.nid(), b.nid(), 0, 0)
}
fn is_not_of(a: E, b: E) -> bool {
    if a.id == 0 || b.id == 0 {
        return false;
    }
    not(a) == b
}
fn both_zext(a: E, b: E) -> Option<(E, E)> {
    if a.id == 0 || b.id == 0 {
        return None;
    }
    let (na, nb) = (node(a.id), node(b.id));
    if na.op == Op::ZExt && nb.op == Op::ZExt && node(na.a).w == node(nb.a).w {
        return Some((from_id(na.a), from_id(nb.a)));
    }
    None
}
fn narrow_cmp(op: Op, a: E, y: u128, left: bool) -> Option<E> {
    if a.id == 0 {
        return None;
    }
    let n = node(a.id);
    if n.op == Op::ZExt {
        let iw = node(n.a).w;
        if left {
            // zext(x) < y
            if y > mask(iw) {
                return Some(bool_(true));
            }
            return Some(bin(op, from_id(n.a), c128(iw, y)));
        } else {
            // y < zext(x)
            if y >= mask(iw) {
                return Some(bool_(false));
            }
            return Some(bin(op, c128(iw, y), from_id(n.a)));
        }
    }
    None
}
/// a = zext(x) or const-low, b = concat(y, 0s) with enough zero low bits.
fn or_concat(a: E, b: E) -> Option<E> {
    if b.id == 0 {
        return None;
    }
    let nb = node(b.id);
    if nb.op != Op::Concat {
        // zext(concat(y,0))?
        if nb.op == Op::ZExt {
            let inner = node(nb.a);
            if inner.op == Op::Concat && from_id(inner.b).konst() == Some(0) {
                let iw = inner.w;
                // a must fit in iw
                if fits(a, iw) {
                    let x = extract(a, 0, iw);
                    return Some(zext(bin(Op::Or, x, from_id(nb.a)), b.w));
                }
            }
        }
        return None;
    }
    if from_id(nb.b).konst() != Some(0) {
        return None;
    }
    let lw = node(nb.b).w;
    if fits(a, lw) {
        return Some(concat(from_id(nb.a), extract(a, 0, lw)));
    }
    None
}
fn fits(a: E, w: u16) -> bool {
    if let Some(k) = a.konst() {
        return k <= mask(w);
    }
    let n = node(a.id);
    n.op == Op::ZExt && node(n.a).w <= w
}
pub type Lin = std::rc::Rc<(Vec<(u32, u128)>, u128)>;
thread_local! {
    static LIN: RefCell<HashMap<u32, Lin, BuildFx>> = RefCell::new(HashMap::default());
    static UB: RefCell<HashMap<u32, (u128, u128), BuildFx>> = RefCell::new(HashMap::default());
}
/// `e` as a linear combination (coefficients and constant modulo 2^w) of non-linear terms.
pub fn lin(e: E) -> Lin {
    if let Some(k) = e.konst() {
        return std::rc::Rc::new((vec![], k));
    }
    if let Some(l) = LIN.with(|m| m.borrow().get(&e.id).cloned()) {
        return l;
    }
    let n = node(e.id);
    let m = mask(e.w);
    let atom = || std::rc::Rc::new((vec![(e.id, 1u128)], 0u128));
    let r: Lin = match n.op {
        Op::Add => lin_comb(&lin(from_id(n.a)), 1, &lin(from_id(n.b)), 1, m),
        Op::Sub => lin_comb(&lin(from_id(n.a)), 1, &lin(from_id(n.b)), m, m),
        Op::Mul => match from_id(n.b).konst() {
            Some(k) => lin_comb(&lin(from_id(n.a)), k, &(vec![], 0), 0, m),
            None => atom(),
        },
        Op::Concat => {
            // x << s  is  concat(extract(x, 0, w - s), 0)
            let lo = from_id(n.b);
            let hi = from_id(n.a);
            if lo.konst() == Some(0) && hi.id != 0 {
                let h = node(hi.id);
                if h.op == Op::Extract && h.k == 0 && node(h.a).w == e.w {
                    lin_comb(&lin(from_id(h.a)), 1u128 << lo.w, &(vec![], 0), 0, m)
                } else {
                    atom()
                }
            } else {
                atom()
            }
        }
        _ => atom(),
    };
    LIN.with(|m| m.borrow_mut().insert(e.id, r.clone()));
    r
}
fn lin_comb(a: &(Vec<(u32, u128)>, u128), ka: u128, b: &(Vec<(u32, u128)>, u128), kb: u128, m: u128) -> Lin {
    let mut v: Vec<(u32, u128)> = Vec::with_capacity(a.0.len() + b.0.len());
    let (mut i, mut j) = (0, 0);
    while i < a.0.len() || j < b.0.len() {
        if j >= b.0.len() || (i < a.0.len() && a.0[i].0 < b.0[j].0) {
            v.push((a.0[i].0, a.0[i].1.wrapping_mul(ka) & m));
            i += 1;
        } else if i >= a.0.len() || b.0[j].0 < a.0[i].0 {
            v.push((b.0[j].0, b.0[j].1.wrapping_mul(kb) & m));
            j += 1;
        } else {
            v.push((a.0[i].0, a.0[i].1.wrapping_mul(ka).wrapping_add(b.0[j].1.wrapping_mul(kb)) & m));
            i += 1;
            j += 1;
        }
    }
    v.retain(|x| x.1 != 0);
    std::rc::Rc::new((v, a.1.wrapping_mul(ka).wrapping_add(b.1.wrapping_mul(kb)) & m))
}
/// Canonical expression of a linear combination.
fn unlin(l: &Lin, w: u16) -> E {
    let m = mask(w);
    let half = if w >= 128 { 1u128 << 127 } else { 1u128 << (w - 1) };
    let term = |id: u32, k: u128| -> E {
        if k == 1 {
            E { w, id, v: 0 }
        } else {
            mk(Op::Mul, w, id, c128(w, k).nid(), 0, 0)
        }
    };
    let mut acc: Option<E> = None;
    let mut neg: Option<E> = None;
    for (id, k) in l.0.iter() {
        if *k <= half {
            let t = term(*id, *k);
            acc = Some(match acc {
                None => t,
                Some(a) => mk(Op::Add, w, a.id, t.id, 0, 0),
            });
        } else {
            let t = term(*id, k.wrapping_neg() & m);
            neg = Some(match neg {
                None => t,
                Some(a) => mk(Op::Add, w, a.id, t.id, 0, 0),
            });
        }
    }
    let r = match (acc, neg) {
        (None, None) => return c128(w, l.1),
        (Some(a), None) => a,
        (Some(a), Some(b)) => mk(Op::Sub, w, a.id, b.id, 0, 0),
        (None, Some(b)) => return mk(Op::Sub, w, c128(w, l.1).nid(), b.id, 0, 0),
    };
    if l.1 == 0 {
        r
    } else {
        mk(Op::Add, w, r.id, c128(w, l.1).nid(), 0, 0)
    }
}
/// Unsigned interval that holds for every assignment.
pub fn bounds(e: E) -> (u128, u128) {
    if let Some(k) = e.konst() {
        return (k, k);
    }
    if let Some(l) = UB.with(|m| m.borrow().get(&e.id).cloned()) {
        return l;
    }
    let n = node(e.id);
    let m = mask(e.w);
    let g = |id: u32| bounds(from_id(id));
    let r = match n.op {
        Op::ZExt => g(n.a),
        Op::Ite => {
            let (a, b) = (g(n.b), g(n.c));
            (a.0.min(b.0), a.1.max(b.1))
        }
        Op::Add => {
            let (a, b) = (g(n.a), g(n.b));
            match a.1.checked_add(b.1) {
                Some(h) if h <= m => (a.0 + b.0, h),
                _ => (0, m),
            }
        }
        Op::Sub => {
            let (a, b) = (g(n.a), g(n.b));
            if a.0 >= b.1 {
                (a.0 - b.1, a.1 - b.0)
            } else {
                (0, m)
            }
        }
        Op::Mul => {
            let (a, b) = (g(n.a), g(n.b));
            match a.1.checked_mul(b.1) {
                Some(h) if h <= m => (a.0 * b.0, h),
                _ => (0, m),
            }
        }
        Op::UDiv => {
            let (a, b) = (g(n.a), g(n.b));
            if b.0 > 0 {
                (a.0 / b.1, a.1 / b.0)
            } else {
                (0, m)
            }
        }
        Op::URem => {
            let (a, b) = (g(n.a), g(n.b));
            if b.0 > 0 {
                (0, a.1.min(b.1 - 1))
            } else {
                (0, a.1)
            }
        }
        Op::And => (0, g(n.a).1.min(g(n.b).1)),
        Op::Concat => {
            let (a, b) = (g(n.a), g(n.b));
            let s = node(n.b).w;
            (a.0 << s | b.0, a.1 << s | b.1)
        }
        Op::Extract => {
            let a = g(n.a);
            let (l, h) = (a.0 >> n.k, a.1 >> n.k);
            if h <= m {
                (l, h)
            } else {
                (0, m)
            }
        }
        Op::Or | Op::Xor => {
            let h = g(n.a).1 | g(n.b).1;
            let bits = 128 - h.leading_zeros();
            (0, if bits >= 128 { m } else { ((1u128 << bits) - 1).min(m) })
        }
        _ => (0, m),
    };
    UB.with(|m| m.borrow_mut().insert(e.id, r));
    r
}

pub fn not(a: E) -> E {
    bin(Op::Xor, a, c(1, 1))
}
pub fn and(a: E, b: E) -> E {
    bin(Op::And, a, b)
}
pub fn or(a: E, b: E) -> E {
    bin(Op::Or, a, b)
}
pub fn eq(a: E, b: E) -> E {
    bin(Op::Eq, a, b)
}
pub fn ite(cnd: E, t: E, e: E) -> E {
    assert_eq!(t.w, e.w);
    if cnd.is_true() {
        return t;
    }
    if cnd.is_false() {
        return e;
    }
    if t == e {
        return t;
    }
    if t.w == 1 {
        match (t.konst(), e.konst()) {
            (Some(1), Some(0)) => return cnd,
            (Some(0), Some(1)) => return not(cnd),
            (Some(1), None) => return or(cnd, e),
            (Some(0), None) => return and(not(cnd), e),
            (None, Some(0)) => return and(cnd, t),
            (None, Some(1)) => return or(not(cnd), t),
            _ => {}
        }
    }
    // normalise negated condition
    let n = node(cnd.id);
    if n.op == Op::Xor && n.w == 1 && from_id(n.b).konst() == Some(1) {
        return ite(from_id(n.a), e, t);
    }
    // ite(c, ite(c, x, _), e)
    if t.id != 0 {
        let nt = node(t.id);
        if nt.op == Op::Ite && nt.a == cnd.id {
            return ite(cnd, from_id(nt.b), e);
        }
    }
    if e.id != 0 {
        let ne = node(e.id);
        if ne.op == Op::Ite && ne.a == cnd.id {
            return ite(cnd, t, from_id(ne.c));
        }
    }
    mk(Op::Ite, t.w, cnd.nid(), t.nid(), e.nid(), 0)
}
pub fn extract(a: E, lo: u16, w: u16) -> E {
    assert!(lo + w <= a.w, "extract {lo}+{w} of {}", a.w);
    if lo == 0 && w == a.w {
        return a;
    }
    if let Some(k) = a.konst() {
        return c128(w, k >> lo);
    }
    let n = node(a.id);
    match n.op {
        Op::Extract => return extract(from_id(n.a), lo + n.k as u16, w),
        Op::Concat => {
            let lw = node(n.b).w;
            if lo + w <= lw {
                return extract(from_id(n.b), lo, w);
            }
            if lo >= lw {
                return extract(from_id(n.a), lo - lw, w);
            }
            let lowpart = extract(from_id(n.b), lo, lw - lo);
            let hipart = extract(from_id(n.a), 0, w - (lw - lo));
            return concat(hipart, lowpart);
        }
        Op::ZExt => {
            let iw = node(n.a).w;
            if lo >= iw {
                return c128(w, 0);
            }
            if lo + w <= iw {
                return extract(from_id(n.a), lo, w);
            }
            return zext(extract(from_id(n.a), lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = node(n.a).w;
            if lo + w <= iw {
                return extract(from_id(n.a), lo, w);
            }
        }
        Op::And | Op::Or | Op::Xor => {
            return bin(n.op, extract(from_id(n.a), lo, w), extract(from_id(n.b), lo, w));
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            return bin(n.op, extract(from_id(n.a), 0, w), extract(from_id(n.b), 0, w));
        }
        Op::Ite => {
            let (t, e) = (from_id(n.b), from_id(n.c));
            if t.is_const() || e.is_const() {
                return ite(from_id(n.a), extract(t, lo, w), extract(e, lo, w));
            }
        }
        _ => {}
    }
    mk(Op::Extract, w, a.id, 0, 0, lo as u128)
}
pub fn concat(a: E, b: E) -> E {
    if a.w == 0 {
        return b;
    }
    if b.w == 0 {
        return a;
    }
    let w = a.w + b.w;
    if let (Some(x), Some(y)) = (a.konst(), b.konst()) {
        if w <= 128 {
            return c128(w, (x << b.w) | y);
        }
    }
    if a.konst() == Some(0) {
        return zext(b, w);
    }
    // adjacent extracts
    if a.id != 0 && b.id != 0 {
        let (na, nb) = (node(a.id), node(b.id));
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return extract(from_id(na.a), nb.k as u16, w);
        }
        if na.op == Op::Extract && na.a == b.id && na.k == b.w as u128 {
            // cannot happen (extract beyond), keep
        }
        if nb.op == Op::Concat && na.op == Op::Extract {
            let h = node(nb.a);
            if h.op == Op::Extract && h.a == na.a && na.k == h.k + h.w as u128 {
                return concat(extract(from_id(na.a), h.k as u16, h.w + na.w), from_id(nb.b));
            }
        }
    }
    // right-assoc: concat(concat(x,y),z) -> concat(x, concat(y,z))
    if a.id != 0 {
        let na = node(a.id);
        if na.op == Op::Concat {
            return concat(from_id(na.a), concat(from_id(na.b), b));
        }
    }
    mk(Op::Concat, w, a.nid(), b.nid(), 0, 0)
}
pub fn zext(a: E, w: u16) -> E {
    if a.w == w {
        return a;
    }
    assert!(w > a.w, "zext {} -> {w}", a.w);
    if let Some(k) = a.konst() {
        return c128(w, k);
    }
    let n = node(a.id);
    match n.op {
        Op::ZExt => return zext(from_id(n.a), w),
        Op::Ite => {
            let (t, e) = (from_id(n.b), from_id(n.c));
            if t.is_const() && e.is_const() {
                return ite(from_id(n.a), zext(t, w), zext(e, w));
            }
        }
        _ => {}
    }
    mk(Op::ZExt, w, a.id, 0, 0, 0)
}
pub fn sext(a: E, w: u16) -> E {
    if a.w == w {
        return a;
    }
    if let Some(k) = a.konst() {
        return c128(w, sext128(k, a.w) as u128);
    }
    let n = node(a.id);
    match n.op {
        Op::SExt => return sext(from_id(n.a), w),
        Op::ZExt => return zext(from_id(n.a), w),
        Op::Ite => {
            let (t, e) = (from_id(n.b), from_id(n.c));
            if t.is_const() && e.is_const() {
                return ite(from_id(n.a), sext(t, w), sext(e, w));
            }
        }
        _ => {}
    }
    if a.w == 1 {
        return ite(a, c128(w, u128::MAX), c128(w, 0));
    }
    mk(Op::SExt, w, a.id, 0, 0, 0)
}
pub fn trunc(a: E, w: u16) -> E {
    extract(a, 0, w)
}

// ---------- floats ----------
fn f_of(w: u16, k: u128) -> f64 {
    if w == 32 {
        f32::from_bits(k as u32) as f64
    } else {
        f64::from_bits(k as u64)
    }
}
fn f_to(w: u16, f: f64) -> u128 {
    if w == 32 {
        (f as f32).to_bits() as u128
    } else {
        f.to_bits() as u128
    }
}
pub fn fbin(op: Op, a: E, b: E) -> E {
    let w = a.w;
    if let (Some(x), Some(y)) = (a.konst(), b.konst()) {
        let r = if w == 32 {
            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
            (match op {
                Op::FAdd => x + y,
                Op::FSub => x - y,
                Op::FMul => x * y,
                Op::FDiv => x / y,
                Op::FRem => x % y,
                _ => ::std::unreachable!(),
            })
            .to_bits() as u128
        } else {
            let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
            (match op {
                Op::FAdd => x + y,
                Op::FSub => x - y,
                Op::FMul => x * y,
                Op::FDiv => x / y,
                Op::FRem => x % y,
                _ => ::std::unreachable!(),
            })
            .to_bits() as u128
        };
        return c128(w, r);
    }
    mk(op, w, a.nid(), b.nid(), 0, 0)
}
pub fn fcmp(op: Op, a: E, b: E) -> E {
    if let (Some(x), Some(y)) = (a.konst(), b.konst()) {
        let (x, y) = (f_of(a.w, x), f_of(a.w, y));
        return bool_(match op {
            Op::FEq => x == y,
            Op::FLt => x < y,
            Op::FLe => x <= y,
            Op::FUno => x.is_nan() || y.is_nan(),
            _ => ::std::unreachable!(),
        });
    }
    if a == b && matches!(op, Op::FEq | Op::FLe) {
        return not(fcmp(Op::FUno, a, a));
    }
    mk(op, 1, a.nid(), b.nid(), 0, 0)
}
pub fn fun(op: Op, a: E, w: u16, k: u128) -> E {
    if let Some(x) = a.konst() {
        let r = match op {
            Op::FSqrt => {
                if w == 32 {
                    f32::from_bits(x as u32).sqrt().to_bits() as u128
                } else {
                    f_to(w, f_of(a.w, x).sqrt())
                }
            }
            Op::FToSI => {
                let f = f_of(a.w, x);
                (f as i128 as u128) & mask(w)
            }
            Op::FToUI => {
                let f = f_of(a.w, x);
                (f as u128) & mask(w)
            }
            Op::SIToF => {
                let v = sext128(x, a.w);
                if w == 32 {
                    (v as f32).to_bits() as u128
                } else {
                    (v as f64).to_bits() as u128
                }
            }
            Op::UIToF => {
                if w == 32 {
                    (x as f32).to_bits() as u128
                } else {
                    (x as f64).to_bits() as u128
                }
            }
            Op::FToF => f_to(w, f_of(a.w, x)),
            Op::FRound => {
                let f = f_of(a.w, x);
                f_to(
                    w,
                    match k {
                        0 => f.round(),
                        1 => f.floor(),
                        2 => f.ceil(),
                        3 => f.trunc(),
                        _ => f.round_ties_even(),
                    },
                )
            }
            _ => ::std::unreachable!(),
        };
        return c128(w, r);
    }
    mk(op, w, a.nid(), 0, 0, k)
}

/// Evaluate node under an assignment (missing symbols are 0).
pub struct Eval<'a> {
    pub model: &'a dyn Fn(u32) -> u128,
    pub memo: HashMap<u32, u128, BuildFx>,
}
impl<'a> Eval<'a> {
    pub fn new(model: &'a dyn Fn(u32) -> u128) -> Self {
        Eval { model, memo: HashMap::default() }
    }
    pub fn e(&mut self, e: E) -> u128 {
        if e.id == 0 {
            e.v as u128
        } else {
            self.n(e.id)
        }
    }
    pub fn n(&mut self, root: u32) -> u128 {
        if let Some(v) = self.memo.get(&root) {
            return *v;
        }
        let mut stack = vec![root];
        while let Some(&top) = stack.last() {
            if self.memo.contains_key(&top) {
                stack.pop();
                continue;
            }
            let n = node(top);
            let v = match n.op {
                Op::Const => n.k,
                Op::Sym => (self.model)(n.k as u32) & mask(n.w),
                _ => {
                    let mut ready = true;
                    for k in [n.a, n.b, n.c] {
                        if k != 0 && !self.memo.contains_key(&k) {
                            stack.push(k);
                            ready = false;
                        }
                    }
                    if !ready {
                        continue;
                    }
                    let g = |k: u32| self.memo[&k];
                    match n.op {
                        Op::Ite => {
                            if g(n.a) == 1 {
                                g(n.b)
                            } else {
                                g(n.c)
                            }
                        }
                        Op::Concat => {
                            let lw = node(n.b).w;
                            if n.w > 128 {
                                // wide concats never reach the solver as values; keep low bits
                                g(n.b)
                            } else {
                                (g(n.a) << lw) | g(n.b)
                            }
                        }
                        Op::Extract => (g(n.a) >> n.k) & mask(n.w),
                        Op::ZExt => g(n.a),
                        Op::SExt => (sext128(g(n.a), node(n.a).w) as u128) & mask(n.w),
                        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                            fbin(n.op, c128(n.w, g(n.a)), c128(n.w, g(n.b))).konst().unwrap()
                        }
                        Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                            let aw = node(n.a).w;
                            fcmp(n.op, c128(aw, g(n.a)), c128(aw, g(n.b))).konst().unwrap()
                        }
                        Op::FSqrt | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF | Op::FToF | Op::FRound => {
                            fun(n.op, c128(node(n.a).w, g(n.a)), n.w, n.k).konst().unwrap()
                        }
                        _ => fold_bin(n.op, node(n.a).w, g(n.a), g(n.b)),
                    }
                }
            };
            self.memo.insert(top, v);
            stack.pop();
        }
        self.memo[&root]
    }
}
