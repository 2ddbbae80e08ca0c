//! Byte-addressed objects with a sparse symbolic overlay.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub data: Vec<u8>,
    /// (node id, byte index) per byte; id 0 means concrete
    pub sym: Option<Vec<(u32, u8)>>,
    pub constant: bool,
}
impl Obj {
    pub fn new(base: u64, size: u64) -> Obj {
        Obj { base, size, data: vec![0; size as usize], sym: None, constant: false }
    }
    pub fn may_be_nonzero(&self) -> bool {
        match &self.sym {
            None => self.data.iter().any(|b| *b != 0),
            Some(s) => s.iter().zip(&self.data).any(|(x, b)| x.0 != 0 || *b != 0),
        }
    }
    pub fn read(&self, off: u64, n: u64, w: u16) -> E {
        let o = off as usize;
        let n = n as usize;
        if let Some(s) = &self.sym {
            let s = &s[o..o + n];
            if s.iter().any(|x| x.0 != 0) {
                // whole value?
                let id = s[0].0;
                if id != 0 && s[0].1 == 0 && s.iter().enumerate().all(|(i, x)| x.0 == id && x.1 as usize == i) {
                    let nd = node(id);
                    if nd.w as usize == 8 * n {
                        return extract(from_id(id), 0, w);
                    }
                }
                // group runs of the same node
                let mut acc: Option<E> = None;
                let mut i = 0;
                while i < n {
                    let part = if s[i].0 == 0 {
                        let mut j = i;
                        let mut v: u128 = 0;
                        while j < n && s[j].0 == 0 {
                            v |= (self.data[o + j] as u128) << (8 * (j - i));
                            j += 1;
                        }
                        let e = c128(8 * (j - i) as u16, v);
                        i = j;
                        e
                    } else {
                        let id = s[i].0;
                        let st = s[i].1;
                        let mut j = i + 1;
                        while j < n && s[j].0 == id && s[j].1 as usize == st as usize + (j - i) {
                            j += 1;
                        }
                        let e = extract(from_id(id), 8 * st as u16, 8 * (j - i) as u16);
                        i = j;
                        e
                    };
                    acc = Some(match acc {
                        None => part,
                        Some(a) => concat(part, a),
                    });
                }
                return extract(acc.unwrap(), 0, w);
            }
        }
        if n <= 8 {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&self.data[o..o + n]);
            return c(w, u64::from_le_bytes(b));
        }
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(&self.data[o..o + n]);
        c128(w, u128::from_le_bytes(b))
    }
    pub fn write(&mut self, off: u64, n: u64, e: E) {
        let o = off as usize;
        let n = n as usize;
        if let Some(k) = e.konst() {
            let b = k.to_le_bytes();
            self.data[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut self.sym {
                for x in &mut s[o..o + n] {
                    *x = (0, 0);
                }
            }
            return;
        }
        let e = if (e.w as usize) < 8 * n { zext(e, 8 * n as u16) } else { e };
        if let Some(k) = e.konst() {
            return self.write(off, n as u64, c128(e.w, k));
        }
        let sz = self.size as usize;
        let s = self.sym.get_or_insert_with(|| vec![(0, 0); sz]);
        // split concats so that later partial reads stay simple
        let mut parts = vec![(e, 0usize)];
        while let Some((p, at)) = parts.pop() {
            if let Some(k) = p.konst() {
                let nb = p.w as usize / 8;
                let b = k.to_le_bytes();
                for i in 0..nb {
                    self.data[o + at + i] = b[i];
                    s[o + at + i] = (0, 0);
                }
                continue;
            }
            let nd = node(p.id);
            if nd.op == Op::Concat && node(nd.b).w % 8 == 0 {
                let lo = from_id(nd.b);
                let lb = lo.w as usize / 8;
                parts.push((lo, at));
                parts.push((from_id(nd.a), at + lb));
                continue;
            }
            for i in 0..p.w as usize / 8 {
                s[o + at + i] = (p.id, i as u8);
            }
        }
    }
    pub fn byte(&self, off: u64) -> E {
        self.read(off, 1, 8)
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    pub objs: BTreeMap<u64, Rc<Obj>>,
    pub next: u64,
}
pub const HEAP: u64 = 0x10_0000_0000;
pub const GLOB: u64 = 0x1_0000_0000;
pub const FUNC: u64 = 0x4000_0000;

impl Mem {
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let base = (self.next + a - 1) / a * a;
        self.next = base + size + 32;
        self.objs.insert(base, Rc::new(Obj::new(base, size)));
        base
    }
    pub fn find(&self, addr: u64) -> Option<&Rc<Obj>> {
        let (_, o) = self.objs.range(..=addr).next_back()?;
        if addr <= o.base + o.size {
            Some(o)
        } else {
            None
        }
    }
    pub fn find_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        let (_, o) = self.objs.range_mut(..=addr).next_back()?;
        if addr <= o.base + o.size {
            Some(Rc::make_mut(o))
        } else {
            None
        }
    }
}
