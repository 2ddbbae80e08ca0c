//! Lazy parser for textual LLVM IR (opaque pointers), enough for rustc's output.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Named(String),
    Meta,
    Other,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    W(String),      // bare word (also numbers)
    L(String),      // %name
    G(String),      // @name
    S(Vec<u8>),     // "string"
    CS(Vec<u8>),    // c"string"
    P(char),        // punctuation
    M,              // metadata token starting with '!' (skipped loosely)
    Lab(String),    // label:
    Nl,
}

pub fn lex(src: &[u8]) -> Vec<T> {
    let mut i = 0;
    let n = src.len();
    let mut out = Vec::with_capacity(n / 5);
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let quoted = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        *i += 1;
        let mut v = vec![];
        while src[*i] != b'"' {
            if src[*i] == b'\\' {
                if src[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                } else {
                    let h = std::str::from_utf8(&src[*i + 1..*i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    *i += 3;
                }
            } else {
                v.push(src[*i]);
                *i += 1;
            }
        }
        *i += 1;
        v
    };
    while i < n {
        let ch = src[i];
        match ch {
            b' ' | b'\t' | b'\r' => i += 1,
            b'\n' => {
                out.push(T::Nl);
                i += 1;
            }
            b';' => {
                while i < n && src[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let name = if src[i + 1] == b'"' {
                    i += 1;
                    String::from_utf8_lossy(&quoted(&mut i)).into_owned()
                } else {
                    let s = i + 1;
                    i += 1;
                    while i < n && isid(src[i]) {
                        i += 1;
                    }
                    String::from_utf8_lossy(&src[s..i]).into_owned()
                };
                out.push(if ch == b'%' { T::L(name) } else { T::G(name) });
            }
            b'"' => {
                let v = quoted(&mut i);
                if i < n && src[i] == b':' {
                    i += 1;
                    out.push(T::Lab(String::from_utf8_lossy(&v).into_owned()));
                } else {
                    out.push(T::S(v));
                }
            }
            b'c' if i + 1 < n && src[i + 1] == b'"' => {
                i += 1;
                let v = quoted(&mut i);
                out.push(T::CS(v));
            }
            b'!' => {
                i += 1;
                while i < n && (isid(src[i])) {
                    i += 1;
                }
                out.push(T::M);
            }
            _ if isid(ch) || ch == b'+' => {
                let s = i;
                i += 1;
                while i < n && (isid(src[i]) || src[i] == b'+') {
                    i += 1;
                }
                let w = String::from_utf8_lossy(&src[s..i]).into_owned();
                if i < n && src[i] == b':' && (out.is_empty() || out.last() == Some(&T::Nl)) {
                    i += 1;
                    out.push(T::Lab(w));
                } else {
                    out.push(T::W(w));
                }
            }
            _ => {
                out.push(T::P(ch as char));
                i += 1;
            }
        }
    }
    out.push(T::Nl);
    out
}

#[derive(Clone, Debug)]
pub enum K {
    Int(u16, u128),
    Undef(Ty),
    Zero(Ty),
    Agg(Vec<K>),
    Bytes(Vec<u8>),
    Glob(String, i64),
    /// difference of two global addresses, truncated to a width
    Rel(u16, String, i64, String, i64),
}
#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    /// integer / pointer constant
    C(u16, u128),
    /// global or function address plus offset
    G(String, i64),
    K(Box<K>, Ty),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Name(Rc<str>),
    Ptr(O),
    Asm,
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(u32, Bop, Ty, O, O),
    ICmp(u32, Rc<str>, Ty, O, O),
    FCmp(u32, Rc<str>, Ty, O, O),
    Cast(u32, Cast, Ty, O, Ty),
    Select(u32, Ty, O, Ty, O, O),
    Gep(u32, O, Vec<(O, i64)>, i64),
    Load(u32, Ty, O),
    Store(Ty, O, O),
    Alloca(u32, Ty, Option<O>, u64),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, O)>, Option<u32>),
    ExtractValue(u32, Ty, O, Vec<u32>),
    InsertValue(u32, Ty, O, Ty, O, Vec<u32>),
    ExtractElem(u32, Ty, O, O),
    InsertElem(u32, Ty, O, O, O),
    Shuffle(u32, Ty, O, O, Vec<i64>),
    Phi(u32, Vec<(O, u32)>, Ty),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, O)>),
    Unreachable,
    Freeze(u32, Ty, O),
    Rmw(u32, Rc<str>, Ty, O, O),
    CmpXchg(u32, Ty, O, O, O),
    FNeg(u32, Ty, O),
    Nop,
    Bad(String),
}

pub struct Func {
    pub name: Rc<str>,
    pub nargs: usize,
    pub nregs: usize,
    pub blocks: Vec<Vec<I>>,
    pub ninstr: usize,
}

pub struct GlobalDef {
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module {
    src: Vec<u8>,
    types: HashMap<String, Ty>,
    fn_pos: HashMap<String, (usize, usize)>,
    glob_pos: HashMap<String, (usize, usize)>,
    pub declared: std::collections::HashSet<String>,
    alias: HashMap<String, String>,
    cache: RefCell<HashMap<String, Option<Rc<Func>>>>,
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {path}: {e}"));
        let mut m = Module {
            src: vec![],
            types: HashMap::new(),
            fn_pos: HashMap::new(),
            glob_pos: HashMap::new(),
            declared: Default::default(),
            alias: HashMap::new(),
            cache: RefCell::new(HashMap::new()),
        };
        let n = src.len();
        let mut i = 0;
        let mut tylines = vec![];
        while i < n {
            let e = src[i..].iter().position(|c| *c == b'\n').map(|p| i + p).unwrap_or(n);
            let line = &src[i..e];
            if line.starts_with(b"define ") {
                let name = first_global(line);
                // body until a line that is exactly "}"
                let mut j = e + 1;
                loop {
                    let e2 = src[j..].iter().position(|c| *c == b'\n').map(|p| j + p).unwrap_or(n);
                    if &src[j..e2] == b"}" {
                        m.fn_pos.insert(name, (i, e2 + 1));
                        i = (e2 + 1).min(n);
                        break;
                    }
                    j = e2 + 1;
                }
                continue;
            } else if line.starts_with(b"declare ") {
                m.declared.insert(first_global(line));
            } else if line.starts_with(b"@") {
                let name = first_global(line);
                let l = String::from_utf8_lossy(line);
                if l.contains(" alias ") && !l.contains(" constant ") && !l.contains(" global ") {
                    let toks = lex(line);
                    if let Some(T::G(t)) = toks.iter().rev().find(|t| matches!(t, T::G(_))) {
                        m.alias.insert(name, t.clone());
                    }
                } else {
                    m.glob_pos.insert(name, (i, e));
                }
            } else if line.starts_with(b"%") {
                tylines.push((i, e));
            }
            i = e + 1;
        }
        for (a, b) in tylines {
            let toks = lex(&src[a..b]);
            if let T::L(nm) = &toks[0] {
                let mut p = Parser::new(&toks, None, None);
                p.i = 3; // %x = type
                let t = p.ty();
                m.types.insert(nm.clone(), t);
            }
        }
        m.src = src;
        m
    }
    pub fn resolve_alias<'a>(&'a self, n: &'a str) -> &'a str {
        match self.alias.get(n) {
            Some(t) => self.resolve_alias(t),
            None => n,
        }
    }
    pub fn has_fn(&self, n: &str) -> bool {
        self.fn_pos.contains_key(n)
    }
    pub fn is_function(&self, n: &str) -> bool {
        self.fn_pos.contains_key(n) || self.declared.contains(n)
    }
    pub fn resolve_ty(&self, t: &Ty) -> Ty {
        match t {
            Ty::Named(n) => self.resolve_ty(self.types.get(n).unwrap_or(&Ty::Other)),
            Ty::Arr(n, t) => Ty::Arr(*n, Box::new(self.resolve_ty(t))),
            Ty::Vec(n, t) => Ty::Vec(*n, Box::new(self.resolve_ty(t))),
            Ty::Struct(v, p) => Ty::Struct(v.iter().map(|t| self.resolve_ty(t)).collect(), *p),
            t => t.clone(),
        }
    }
    pub fn global(&self, n: &str) -> Option<GlobalDef> {
        let (a, b) = *self.glob_pos.get(n)?;
        let toks = lex(&self.src[a..b]);
        let mut p = Parser::new(&toks, None, Some(self));
        p.i = 2;
        let mut external = false;
        let constant;
        loop {
            match p.next() {
                T::W(w) if w == "constant" => {
                    constant = true;
                    break;
                }
                T::W(w) if w == "global" => {
                    constant = false;
                    break;
                }
                T::W(w) if w == "external" || w == "extern_weak" => external = true,
                T::Nl => return None,
                T::P('(') => p.skip_parens(),
                _ => {}
            }
        }
        let ty = p.ty();
        let ty = self.resolve_ty(&ty);
        let init = if external { None } else { Some(p.konst(&ty)) };
        let mut align = 1;
        while p.i < toks.len() {
            if let T::W(w) = &toks[p.i] {
                if w == "align" {
                    if let Some(T::W(n)) = toks.get(p.i + 1) {
                        align = n.parse().unwrap_or(1);
                    }
                }
            }
            p.i += 1;
        }
        Some(GlobalDef { ty, init, constant, align })
    }
    pub fn func(&self, n: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.cache.borrow().get(n) {
            return f.clone();
        }
        let r = self.fn_pos.get(n).map(|(a, b)| Rc::new(parse_fn(self, n, &self.src[*a..*b])));
        self.cache.borrow_mut().insert(n.to_string(), r.clone());
        r
    }
    pub fn functions(&self) -> impl Iterator<Item = &String> {
        self.fn_pos.keys()
    }
}

fn first_global(line: &[u8]) -> String {
    let i = line.iter().position(|c| *c == b'@').unwrap();
    let mut j = i + 1;
    if line.get(j) == Some(&b'"') {
        let e = line[j + 1..].iter().position(|c| *c == b'"').unwrap();
        return String::from_utf8_lossy(&line[j + 1..j + 1 + e]).into_owned();
    }
    while j < line.len() && (line[j].is_ascii_alphanumeric() || matches!(line[j], b'_' | b'.' | b'$' | b'-')) {
        j += 1;
    }
    String::from_utf8_lossy(&line[i + 1..j]).into_owned()
}

pub fn size_align(t: &Ty) -> (u64, u64) {
    match t {
        Ty::Void | Ty::Meta | Ty::Other => (0, 1),
        Ty::Int(w) => {
            let b = (*w as u64 + 7) / 8;
            let a = b.next_power_of_two().min(16);
            (((b + a - 1) / a) * a, a)
        }
        Ty::Ptr => (8, 8),
        Ty::F32 => (4, 4),
        Ty::F64 => (8, 8),
        Ty::Arr(n, t) => {
            let (s, a) = size_align(t);
            (s * n, a)
        }
        Ty::Vec(n, t) => {
            let bits = n * bits_of(t) as u64;
            let b = ((bits + 7) / 8).next_power_of_two();
            (b, b)
        }
        Ty::Struct(v, packed) => {
            let mut off = 0;
            let mut al = 1;
            for t in v {
                let (s, a) = size_align(t);
                let a = if *packed { 1 } else { a };
                off = (off + a - 1) / a * a + s;
                al = al.max(a);
            }
            ((off + al - 1) / al * al, al)
        }
        Ty::Named(n) => panic!("unresolved type {n}"),
    }
}
pub fn field_off(v: &[Ty], packed: bool, idx: usize) -> u64 {
    let mut off = 0;
    for (i, t) in v.iter().enumerate() {
        let (s, a) = size_align(t);
        let a = if packed { 1 } else { a };
        off = (off + a - 1) / a * a;
        if i == idx {
            return off;
        }
        off += s;
    }
    panic!("field index")
}
pub fn bits_of(t: &Ty) -> u16 {
    match t {
        Ty::Int(w) => *w,
        Ty::Ptr | Ty::F64 => 64,
        Ty::F32 => 32,
        Ty::Vec(n, t) => *n as u16 * bits_of(t),
        t => panic!("bits_of {t:?}"),
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
}

struct Parser<'a> {
    t: &'a [T],
    i: usize,
    f: Option<&'a mut FnCtx>,
    m: Option<&'a Module>,
}
impl<'a> Parser<'a> {
    fn new(t: &'a [T], f: Option<&'a mut FnCtx>, m: Option<&'a Module>) -> Self {
        Parser { t, i: 0, f, m }
    }
    fn peek(&self) -> &T {
        self.t.get(self.i).unwrap_or(&T::Nl)
    }
    fn next(&mut self) -> T {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        *self.peek() == T::P(c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {c:?} at {:?} (…{:?})", self.peek(), &self.t[self.i.saturating_sub(12)..(self.i + 4).min(self.t.len())]);
        }
    }
    fn word(&self) -> Option<&str> {
        match self.peek() {
            T::W(w) => Some(w),
            _ => None,
        }
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.word() == Some(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // after '('
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                T::Nl if self.i >= self.t.len() => return,
                _ => {}
            }
        }
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            T::W(w) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
            }
            T::P('[') | T::P('{') | T::P('<') => true,
            T::L(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let mut t = match self.next() {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.expect('(');
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "metadata" => Ty::Meta,
                "label" | "token" | "opaque" => Ty::Other,
                "half" | "bfloat" => Ty::Int(16),
                "fp128" => Ty::Int(128),
                "x86_fp80" => Ty::Int(80),
                w if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                w => panic!("type? {w}"),
            },
            T::L(n) => Ty::Named(n),
            T::P('[') => {
                let n = self.num();
                assert!(self.eat_w("x"));
                let t = self.ty();
                self.expect(']');
                Ty::Arr(n, Box::new(t))
            }
            T::P('{') => {
                let mut v = vec![];
                if !self.eat('}') {
                    loop {
                        v.push(self.ty());
                        if !self.eat(',') {
                            break;
                        }
                    }
                    self.expect('}');
                }
                Ty::Struct(v, false)
            }
            T::P('<') => {
                if self.eat('{') {
                    let mut v = vec![];
                    if !self.eat('}') {
                        loop {
                            v.push(self.ty());
                            if !self.eat(',') {
                                break;
                            }
                        }
                        self.expect('}');
                    }
                    self.expect('>');
                    Ty::Struct(v, true)
                } else {
                    let n = self.num();
                    assert!(self.eat_w("x"));
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            t => panic!("type? {t:?} near {:?}", &self.t[self.i.saturating_sub(8)..(self.i + 4).min(self.t.len())]),
        };
        // function type: T (args)
        if self.is_p('(') && matches!(t, Ty::Void | Ty::Int(_) | Ty::Ptr | Ty::Struct(..) | Ty::F64 | Ty::F32) {
            // only treat as function type when followed by a callee: handled by caller
            let save = self.i;
            self.i += 1;
            self.skip_parens();
            if !matches!(self.peek(), T::G(_) | T::L(_)) {
                self.i = save;
            }
        }
        if let (Ty::Named(_), Some(m)) = (&t, self.m) {
            t = m.resolve_ty(&t);
        } else if let Some(m) = self.m {
            t = m.resolve_ty(&t);
        }
        t
    }
    fn num(&mut self) -> u64 {
        match self.next() {
            T::W(w) => w.parse().unwrap_or_else(|_| panic!("number? {w}")),
            t => panic!("number? {t:?}"),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            let w = match self.peek() {
                T::W(w) => w.clone(),
                T::P('#') => {
                    self.i += 2;
                    continue;
                }
                T::S(_) => {
                    self.i += 1;
                    if self.eat_p_eq() {
                        self.i += 1;
                    }
                    continue;
                }
                _ => return,
            };
            if is_operand_word(&w) || self.is_ty() {
                return;
            }
            self.i += 1;
            if w == "align" || w == "cc" {
                if let T::W(n) = self.peek() {
                    if n.parse::<u64>().is_ok() {
                        self.i += 1;
                        continue;
                    }
                }
            }
            if self.eat('(') {
                self.skip_parens();
            }
        }
    }
    fn eat_p_eq(&mut self) -> bool {
        self.eat('=')
    }
    fn int_const(&self, w: u16, s: &str) -> u128 {
        let v = if let Some(r) = s.strip_prefix('-') {
            (r.parse::<u128>().unwrap()).wrapping_neg()
        } else {
            s.parse::<u128>().unwrap_or_else(|_| panic!("int const {s}"))
        };
        v & crate::expr::mask(w)
    }
    fn float_const(&self, t: &Ty, s: &str) -> u128 {
        let f: f64 = if let Some(h) = s.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
        } else if let Some(h) = s.strip_prefix("f0x") {
            // direct bit pattern
            return u128::from_str_radix(h, 16).unwrap();
        } else {
            match s {
                "inf" | "+inf" => f64::INFINITY,
                "-inf" => f64::NEG_INFINITY,
                "nan" | "+nan" | "+qnan" | "qnan" => f64::NAN,
                "-nan" | "-qnan" => -f64::NAN,
                _ => s.parse().unwrap_or_else(|_| panic!("float const {s}")),
            }
        };
        match t {
            Ty::F32 => (f as f32).to_bits() as u128,
            _ => f.to_bits() as u128,
        }
    }
    /// constant of type t
    fn konst(&mut self, t: &Ty) -> K {
        match self.next() {
            T::W(w) => match w.as_str() {
                "true" => K::Int(1, 1),
                "false" => K::Int(1, 0),
                "null" => K::Int(64, 0),
                "undef" | "poison" => K::Undef(t.clone()),
                "zeroinitializer" | "none" => K::Zero(t.clone()),
                "splat" => {
                    self.expect('(');
                    let et = self.ty();
                    let v = self.konst(&et);
                    self.expect(')');
                    let n = match t {
                        Ty::Vec(n, _) => *n,
                        _ => panic!("splat"),
                    };
                    K::Agg(vec![v; n as usize])
                }
                "getelementptr" => {
                    while self.word().is_some() && !self.is_p('(') {
                        // inbounds nuw nusw inrange(..)
                        self.i += 1;
                        if self.t.get(self.i - 1) == Some(&T::W("inrange".into())) && self.eat('(') {
                            self.skip_parens();
                        }
                    }
                    self.expect('(');
                    let bt = self.ty();
                    self.expect(',');
                    let _pt = self.ty();
                    let base = self.konst(&Ty::Ptr);
                    let mut off: i64 = 0;
                    let mut cur = bt.clone();
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty();
                        let k = match self.konst(&it) {
                            K::Int(w, v) => crate::expr::sext128(v, w) as i64,
                            k => panic!("gep index {k:?}"),
                        };
                        if first {
                            off += k * size_align(&cur).0 as i64;
                            first = false;
                        } else {
                            let (o, n) = step(&cur, k);
                            off += o;
                            cur = n;
                        }
                    }
                    self.expect(')');
                    match base {
                        K::Glob(g, o) => K::Glob(g, o + off),
                        K::Int(w, v) => K::Int(w, (v as u64).wrapping_add(off as u64) as u128),
                        k => panic!("gep base {k:?}"),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                    while self.word().is_some() {
                        self.i += 1;
                    }
                    self.expect('(');
                    let st = self.ty();
                    let v = self.konst(&st);
                    assert!(self.eat_w("to"));
                    let dt = self.ty();
                    self.expect(')');
                    match (v, &dt) {
                        (K::Int(_, v), Ty::Int(w)) => K::Int(*w, v & crate::expr::mask(*w)),
                        (K::Int(_, v), _) => K::Int(64, v),
                        (K::Rel(_, g, o, h, p), Ty::Int(w)) => K::Rel(*w, g, o, h, p),
                        (v, _) => v,
                    }
                }
                "add" | "sub" | "xor" => {
                    while self.word().is_some() {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t1 = self.ty();
                    let a = self.konst(&t1);
                    self.expect(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.expect(')');
                    match (w.as_str(), a, b) {
                        ("add", K::Glob(g, o), K::Int(_, v)) => K::Glob(g, o + v as i64),
                        ("sub", K::Int(w, a), K::Int(_, b)) => K::Int(w, a.wrapping_sub(b) & crate::expr::mask(w)),
                        ("sub", K::Glob(g, o), K::Glob(h, p)) => K::Rel(64, g, o, h, p),
                        (o, a, b) => panic!("constexpr {o} {a:?} {b:?}"),
                    }
                }
                _ => match t {
                    Ty::Int(wd) => K::Int(*wd, self.int_const(*wd, &w)),
                    Ty::F32 => K::Int(32, self.float_const(t, &w)),
                    Ty::F64 => K::Int(64, self.float_const(t, &w)),
                    Ty::Ptr if w == "dso_local_equivalent" || w == "no_cfi" => self.konst(t),
                    _ => panic!("constant {w} of {t:?}"),
                },
            },
            T::CS(b) => K::Bytes(b),
            T::G(g) => K::Glob(g, 0),
            T::P('[') => {
                let mut v = vec![];
                if !self.eat(']') {
                    loop {
                        let et = self.ty();
                        v.push(self.konst(&et));
                        if !self.eat(',') {
                            break;
                        }
                    }
                    self.expect(']');
                }
                K::Agg(v)
            }
            T::P('{') => {
                let v = self.kfields('}');
                K::Agg(v)
            }
            T::P('<') => {
                if self.eat('{') {
                    let v = self.kfields('}');
                    self.expect('>');
                    K::Agg(v)
                } else {
                    let v = self.kfields('>');
                    K::Agg(v)
                }
            }
            x => panic!("constant? {x:?} near {:?}", &self.t[self.i.saturating_sub(8)..(self.i + 4).min(self.t.len())]),
        }
    }
    fn kfields(&mut self, close: char) -> Vec<K> {
        let mut v = vec![];
        if !self.eat(close) {
            loop {
                let et = self.ty();
                v.push(self.konst(&et));
                if !self.eat(',') {
                    break;
                }
            }
            self.expect(close);
        }
        v
    }
    fn op(&mut self, t: &Ty) -> O {
        if let T::L(n) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return O::R(self.f.as_mut().unwrap().reg(&n));
        }
        match self.konst(t) {
            K::Int(w, v) => O::C(w, v),
            K::Glob(g, o) => O::G(g, o),
            k => O::K(Box::new(k), t.clone()),
        }
    }
    fn tyop(&mut self) -> (Ty, O) {
        let t = self.ty();
        self.skip_attrs();
        let o = self.op(&t);
        (t, o)
    }
    fn label(&mut self) -> u32 {
        assert!(self.eat_w("label"), "label? {:?}", self.peek());
        match self.next() {
            T::L(n) => self.f.as_mut().unwrap().blk(&n),
            t => panic!("label? {t:?}"),
        }
    }
    fn nls(&mut self) {
        while *self.peek() == T::Nl && self.i < self.t.len() {
            self.i += 1;
        }
    }
}
fn step(t: &Ty, k: i64) -> (i64, Ty) {
    match t {
        Ty::Arr(_, e) => (k * size_align(e).0 as i64, (**e).clone()),
        Ty::Vec(_, e) => (k * size_align(e).0 as i64, (**e).clone()),
        Ty::Struct(v, p) => (field_off(v, *p, k as usize) as i64, v[k as usize].clone()),
        t => panic!("gep into {t:?}"),
    }
}
fn is_operand_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "asm"
    ) || w.as_bytes()[0].is_ascii_digit()
        || (w.as_bytes()[0] == b'-' && w.len() > 1)
        || w.starts_with("f0x")
        || w == "inf" || w == "nan" || w.starts_with('+')
}

fn parse_fn(m: &Module, name: &str, src: &[u8]) -> Func {
    let toks = lex(src);
    let mut fc = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
    // header: up to first '{' at line end
    let mut p = Parser::new(&toks, Some(&mut fc), Some(m));
    // find '@name' then '('
    while !matches!(p.peek(), T::G(_)) {
        p.i += 1;
    }
    p.i += 1;
    p.expect('(');
    let mut nargs = 0;
    let mut unnamed = 0u64;
    if !p.eat(')') {
        loop {
            if p.is_p('.') || matches!(p.peek(), T::W(w) if w == "...") {
                p.i += 1;
                break;
            }
            let _t = p.ty();
            loop {
                match p.peek().clone() {
                    T::L(n) => {
                        p.i += 1;
                        if n.parse::<u64>().is_ok() {
                            unnamed += 1;
                        }
                        p.f.as_mut().unwrap().reg(&n);
                        break;
                    }
                    T::P(',') | T::P(')') => {
                        let n = format!("{}", unnamed);
                        unnamed += 1;
                        p.f.as_mut().unwrap().reg(&n);
                        break;
                    }
                    T::P('(') => {
                        p.i += 1;
                        p.skip_parens();
                    }
                    _ => p.i += 1,
                }
            }
            nargs += 1;
            if !p.eat(',') {
                break;
            }
        }
        // possibly "..." leftovers
        while !p.eat(')') {
            p.i += 1;
        }
    }
    while *p.peek() != T::Nl {
        p.i += 1;
    }
    let mut blocks: HashMap<u32, Vec<I>> = HashMap::new();
    let mut cur: Option<u32> = None;
    let mut ninstr = 0;
    let mut order0: Option<u32> = None;
    loop {
        p.nls();
        if p.i >= p.t.len() || p.is_p('}') {
            break;
        }
        if let T::Lab(n) = p.peek().clone() {
            p.i += 1;
            let b = p.f.as_mut().unwrap().blk(&n);
            if order0.is_none() {
                order0 = Some(b);
            }
            cur = Some(b);
            blocks.entry(b).or_default();
            continue;
        }
        if cur.is_none() {
            let b = p.f.as_mut().unwrap().blk(&format!("{unnamed}"));
            order0 = Some(b);
            cur = Some(b);
            blocks.entry(b).or_default();
        }
        let start = p.i;
        let ins = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| instr(&mut p))) {
            Ok(i) => i,
            Err(e) => {
                let msg = e.downcast_ref::<String>().cloned().unwrap_or_default();
                p.i = start;
                I::Bad(format!("parse: {msg}: {:?}", &p.t[start..(start + 12).min(p.t.len())]))
            }
        };
        while *p.peek() != T::Nl {
            p.i += 1;
        }
        if !matches!(ins, I::Nop) {
            blocks.get_mut(&cur.unwrap()).unwrap().push(ins);
            ninstr += 1;
        }
    }
    drop(p);
    let nb = fc.blocks.len();
    let mut bl: Vec<Vec<I>> = (0..nb as u32).map(|i| blocks.remove(&i).unwrap_or_default()).collect();
    // entry must be block 0: remap if needed
    let e = order0.unwrap_or(0);
    if e != 0 {
        let sw = |b: &mut u32| {
            if *b == e {
                *b = 0
            } else if *b == 0 {
                *b = e
            }
        };
        bl.swap(0, e as usize);
        for b in bl.iter_mut() {
            for i in b.iter_mut() {
                match i {
                    I::Br(x) => sw(x),
                    I::CondBr(_, x, y) => {
                        sw(x);
                        sw(y)
                    }
                    I::Switch(_, _, d, v) => {
                        sw(d);
                        for (_, x) in v.iter_mut() {
                            sw(x)
                        }
                    }
                    I::Phi(_, v, _) => {
                        for (_, x) in v.iter_mut() {
                            sw(x)
                        }
                    }
                    I::Call(_, _, _, _, Some(x)) => sw(x),
                    _ => {}
                }
            }
        }
    }
    Func { name: name.into(), nargs, nregs: fc.regs.len(), blocks: bl, ninstr }
}

fn instr(p: &mut Parser<'_>) -> I {
    let mut dst: Option<u32> = None;
    if let T::L(n) = p.peek().clone() {
        p.i += 1;
        p.expect('=');
        dst = Some(p.f.as_mut().unwrap().reg(&n));
    }
    let mut w = match p.next() {
        T::W(w) => w,
        T::P('#') => return I::Nop, // debug records
        t => panic!("opcode? {t:?}"),
    };
    while matches!(w.as_str(), "tail" | "musttail" | "notail") {
        w = match p.next() {
            T::W(w) => w,
            t => panic!("opcode? {t:?}"),
        };
    }
    let d = dst.unwrap_or(u32::MAX);
    let bop = |w: &str| {
        Some(match w {
            "add" => Bop::Add,
            "sub" => Bop::Sub,
            "mul" => Bop::Mul,
            "udiv" => Bop::UDiv,
            "sdiv" => Bop::SDiv,
            "urem" => Bop::URem,
            "srem" => Bop::SRem,
            "and" => Bop::And,
            "or" => Bop::Or,
            "xor" => Bop::Xor,
            "shl" => Bop::Shl,
            "lshr" => Bop::LShr,
            "ashr" => Bop::AShr,
            "fadd" => Bop::FAdd,
            "fsub" => Bop::FSub,
            "fmul" => Bop::FMul,
            "fdiv" => Bop::FDiv,
            "frem" => Bop::FRem,
            _ => return None,
        })
    };
    if let Some(b) = bop(&w) {
        while !p.is_ty() {
            p.i += 1; // nuw nsw exact disjoint fast
        }
        let t = p.ty();
        let a = p.op(&t);
        p.expect(',');
        let c = p.op(&t);
        return I::Bin(d, b, t, a, c);
    }
    let cast = match w.as_str() {
        "trunc" => Some(Cast::Trunc),
        "zext" => Some(Cast::ZExt),
        "sext" => Some(Cast::SExt),
        "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
        "inttoptr" => Some(Cast::IntToPtr),
        "bitcast" | "addrspacecast" => Some(Cast::BitCast),
        "fptosi" => Some(Cast::FpToSi),
        "fptoui" => Some(Cast::FpToUi),
        "sitofp" => Some(Cast::SiToFp),
        "uitofp" => Some(Cast::UiToFp),
        "fpext" => Some(Cast::FpExt),
        "fptrunc" => Some(Cast::FpTrunc),
        _ => None,
    };
    if let Some(k) = cast {
        while !p.is_ty() {
            p.i += 1;
        }
        let t = p.ty();
        let a = p.op(&t);
        assert!(p.eat_w("to"));
        let t2 = p.ty();
        return I::Cast(d, k, t, a, t2);
    }
    match w.as_str() {
        "icmp" | "fcmp" => {
            let mut pred = String::new();
            while !p.is_ty() {
                if let T::W(x) = p.next() {
                    pred = x;
                }
            }
            let t = p.ty();
            let a = p.op(&t);
            p.expect(',');
            let b = p.op(&t);
            if w == "icmp" {
                I::ICmp(d, pred.as_str().into(), t, a, b)
            } else {
                I::FCmp(d, pred.as_str().into(), t, a, b)
            }
        }
        "select" => {
            while !p.is_ty() {
                p.i += 1;
            }
            let (ct, c) = p.tyop();
            p.expect(',');
            let (t, a) = p.tyop();
            p.expect(',');
            let (_, b) = p.tyop();
            I::Select(d, ct, c, t, a, b)
        }
        "getelementptr" => {
            while matches!(p.word(), Some("inbounds" | "nuw" | "nusw" | "inrange")) {
                p.i += 1;
                if p.eat('(') {
                    p.skip_parens();
                }
            }
            let bt = p.ty();
            p.expect(',');
            let (pt, base) = p.tyop();
            if matches!(pt, Ty::Vec(..)) {
                return I::Bad("vector gep".into());
            }
            let mut terms = vec![];
            let mut off: i64 = 0;
            let mut cur = bt;
            let mut first = true;
            while p.eat(',') {
                if !p.is_ty() {
                    break;
                }
                let (it, o) = p.tyop();
                let iw = bits_of(&it);
                if first {
                    let s = size_align(&cur).0 as i64;
                    match &o {
                        O::C(_, v) => off += (crate::expr::sext128(*v, iw) as i64).wrapping_mul(s),
                        _ => terms.push((o, s)),
                    }
                    first = false;
                } else {
                    match (&cur.clone(), &o) {
                        (_, O::C(_, v)) => {
                            let (k, n) = step(&cur, crate::expr::sext128(*v, iw) as i64);
                            off += k;
                            cur = n;
                        }
                        (Ty::Arr(_, e), _) | (Ty::Vec(_, e), _) => {
                            terms.push((o, size_align(e).0 as i64));
                            cur = (**e).clone();
                        }
                        (t, o) => panic!("gep {t:?} {o:?}"),
                    }
                }
            }
            I::Gep(d, base, terms, off)
        }
        "load" => {
            while matches!(p.word(), Some("atomic" | "volatile")) {
                p.i += 1;
            }
            let t = p.ty();
            p.expect(',');
            let (_, a) = p.tyop();
            I::Load(d, t, a)
        }
        "store" => {
            while matches!(p.word(), Some("atomic" | "volatile")) {
                p.i += 1;
            }
            let (t, v) = p.tyop();
            p.expect(',');
            let (_, a) = p.tyop();
            I::Store(t, v, a)
        }
        "alloca" => {
            while !p.is_ty() {
                p.i += 1;
            }
            let t = p.ty();
            let mut cnt = None;
            let mut al = size_align(&t).1;
            while p.eat(',') {
                if p.eat_w("align") {
                    al = p.num();
                } else if p.is_ty() {
                    let (_, o) = p.tyop();
                    cnt = Some(o);
                } else {
                    break;
                }
            }
            I::Alloca(d, t, cnt, al)
        }
        "call" | "invoke" => {
            // fast-math flags, cc, ret attrs
            p.skip_attrs();
            let t = p.ty();
            // full function type?
            if p.is_p('(') {
                p.i += 1;
                p.skip_parens();
            }
            let callee = match p.next() {
                T::G(g) => Callee::Name(g.as_str().into()),
                T::L(n) => Callee::Ptr(O::R(p.f.as_mut().unwrap().reg(&n))),
                T::W(w) if w == "asm" => {
                    while !p.is_p('(') {
                        p.i += 1;
                    }
                    Callee::Asm
                }
                T::W(w) if is_operand_word(&w) => {
                    p.i -= 1;
                    let o = p.op(&Ty::Ptr);
                    Callee::Ptr(o)
                }
                t => panic!("callee? {t:?}"),
            };
            p.expect('(');
            let mut args = vec![];
            if !p.eat(')') {
                loop {
                    let at = p.ty();
                    if at == Ty::Meta || at == Ty::Other {
                        let mut dd = 0;
                        loop {
                            match p.peek() {
                                T::P('(') | T::P('{') => dd += 1,
                                T::P(')') | T::P(',') if dd == 0 => break,
                                T::P(')') | T::P('}') => dd -= 1,
                                T::Nl => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                    } else {
                        p.skip_attrs();
                        let o = p.op(&at);
                        args.push((at, o));
                    }
                    if !p.eat(',') {
                        break;
                    }
                }
                p.expect(')');
            }
            let mut to = None;
            if w == "invoke" {
                while !matches!(p.word(), Some("to")) {
                    p.i += 1;
                }
                p.i += 1;
                to = Some(p.label());
                assert!(p.eat_w("unwind"));
                p.label();
            }
            I::Call(dst, t, callee, args, to)
        }
        "extractvalue" => {
            let (t, a) = p.tyop();
            let mut ix = vec![];
            while p.eat(',') {
                match p.peek() {
                    T::W(_) => ix.push(p.num() as u32),
                    _ => break,
                }
            }
            I::ExtractValue(d, t, a, ix)
        }
        "insertvalue" => {
            let (t, a) = p.tyop();
            p.expect(',');
            let (vt, v) = p.tyop();
            let mut ix = vec![];
            while p.eat(',') {
                match p.peek() {
                    T::W(_) => ix.push(p.num() as u32),
                    _ => break,
                }
            }
            I::InsertValue(d, t, a, vt, v, ix)
        }
        "extractelement" => {
            let (t, a) = p.tyop();
            p.expect(',');
            let (_, i) = p.tyop();
            I::ExtractElem(d, t, a, i)
        }
        "insertelement" => {
            let (t, a) = p.tyop();
            p.expect(',');
            let (_, v) = p.tyop();
            p.expect(',');
            let (_, i) = p.tyop();
            I::InsertElem(d, t, a, v, i)
        }
        "shufflevector" => {
            let (t, a) = p.tyop();
            p.expect(',');
            let (_, b) = p.tyop();
            p.expect(',');
            let mt = p.ty();
            let k = p.konst(&mt);
            let n = match mt {
                Ty::Vec(n, _) => n as usize,
                _ => panic!(),
            };
            let mask = match k {
                K::Agg(v) => v
                    .into_iter()
                    .map(|k| match k {
                        K::Int(_, v) => v as i64,
                        _ => -1,
                    })
                    .collect(),
                K::Zero(_) => vec![0; n],
                _ => vec![-1; n],
            };
            I::Shuffle(d, t, a, b, mask)
        }
        "phi" => {
            while !p.is_ty() {
                p.i += 1;
            }
            let t = p.ty();
            let mut v = vec![];
            loop {
                p.expect('[');
                let o = p.op(&t);
                p.expect(',');
                let b = match p.next() {
                    T::L(n) => p.f.as_mut().unwrap().blk(&n),
                    t => panic!("phi {t:?}"),
                };
                p.expect(']');
                v.push((o, b));
                if !p.eat(',') || !p.is_p('[') {
                    break;
                }
            }
            I::Phi(d, v, t)
        }
        "br" => {
            if p.word() == Some("label") {
                I::Br(p.label())
            } else {
                let (_, c) = p.tyop();
                p.expect(',');
                let a = p.label();
                p.expect(',');
                let b = p.label();
                I::CondBr(c, a, b)
            }
        }
        "switch" => {
            let (t, v) = p.tyop();
            p.expect(',');
            let def = p.label();
            p.expect('[');
            let mut cases = vec![];
            loop {
                p.nls();
                if p.eat(']') {
                    break;
                }
                let ct = p.ty();
                let k = match p.konst(&ct) {
                    K::Int(_, v) => v,
                    k => panic!("case {k:?}"),
                };
                p.expect(',');
                let l = p.label();
                cases.push((k, l));
            }
            I::Switch(t, v, def, cases)
        }
        "ret" => {
            if p.word() == Some("void") {
                I::Ret(None)
            } else {
                let x = p.tyop();
                I::Ret(Some(x))
            }
        }
        "unreachable" => I::Unreachable,
        "freeze" => {
            let (t, a) = p.tyop();
            I::Freeze(d, t, a)
        }
        "fneg" => {
            while !p.is_ty() {
                p.i += 1;
            }
            let (t, a) = p.tyop();
            I::FNeg(d, t, a)
        }
        "atomicrmw" => {
            p.eat_w("volatile");
            let op = match p.next() {
                T::W(w) => w,
                t => panic!("{t:?}"),
            };
            let (_, a) = p.tyop();
            p.expect(',');
            let (t, v) = p.tyop();
            I::Rmw(d, op.as_str().into(), t, a, v)
        }
        "cmpxchg" => {
            while !p.is_ty() {
                p.i += 1;
            }
            let (_, a) = p.tyop();
            p.expect(',');
            let (t, c) = p.tyop();
            p.expect(',');
            let (_, n) = p.tyop();
            I::CmpXchg(d, t, a, c, n)
        }
        "fence" | "cleanup" | "catch" | "filter" => I::Nop,
        "landingpad" | "resume" | "cleanupret" => I::Bad(w),
        _ => I::Bad(format!("opcode {w}")),
    }
}
