//! Abstract memory: byte-addressed allocations whose bytes are either known
//! or belong to an abstract slot (data value or unknown scalar).
use crate::dom::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const T_RAW: u8 = 0;
pub const T_VAL: u8 = 1;
pub const T_VALC: u8 = 2;
pub const T_TOP: u8 = 3;
pub const T_TOPC: u8 = 4;

#[derive(Clone, Default, PartialEq)]
pub struct Alloc {
    pub bytes: Vec<u8>,
    pub tags: Vec<u8>, // empty: all raw
    pub vals: BTreeMap<u32, (u32, V)>,
    pub nodes: BTreeMap<u32, (u8, N)>,
    pub dead: bool,
}

#[derive(Debug, Clone)]
pub enum Fail {
    Panic(String),
    Unsupported(String),
    Bottom,
    Budget,
    Split(N),
}
pub type R<T> = Result<T, Fail>;
pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Fail::Unsupported(s.into()))
}

pub const STACK: u32 = 1;
pub const GLOBAL_BASE: u32 = 0x2000_0000;

#[derive(Clone)]
pub struct Mem {
    pub allocs: Vec<Option<Rc<Alloc>>>,
    pub globals: HashMap<u32, Rc<Alloc>>,
}

pub fn addr(id: u32, off: u64) -> u64 {
    ((id as u64) << 32) + off
}

impl Alloc {
    pub fn zeroed(n: usize) -> Self {
        Alloc { bytes: vec![0; n], ..Default::default() }
    }
    fn tagged(&self, off: usize, len: usize) -> bool {
        !self.tags.is_empty() && self.tags[off..off + len].iter().any(|t| *t != 0)
    }
    fn need_tags(&mut self) {
        if self.tags.len() < self.bytes.len() {
            self.tags.resize(self.bytes.len(), 0);
        }
    }
    /// Remove abstract slots overlapping [off, off+len); leftovers of partly
    /// covered slots become opaque.
    pub fn clobber(&mut self, off: usize, len: usize, dom: &mut Dom) {
        if len == 0 || self.tags.is_empty() {
            return;
        }
        if self.tags.len() < self.bytes.len() {
            self.tags.resize(self.bytes.len(), 0);
        }
        if self.tags[off..off + len].iter().all(|t| *t == 0) {
            return;
        }
        let end = off + len;
        let starts: Vec<(u32, u32, bool)> = {
            let mut v = vec![];
            for (o, (s, _)) in self.vals.range(..end as u32).rev() {
                if (*o + *s) as usize <= off {
                    break;
                }
                v.push((*o, *s, true));
            }
            for (o, (s, _)) in self.nodes.range(..end as u32).rev() {
                if (*o as usize + *s as usize) <= off {
                    break;
                }
                v.push((*o, *s as u32, false));
            }
            v
        };
        for (o, s, isval) in starts {
            let mut keep: Vec<(usize, S)> = vec![];
            for k in o as usize..(o + s) as usize {
                if k < off || k >= end {
                    keep.push((k, self.read_s(k, 1, dom)));
                }
            }
            if isval {
                self.vals.remove(&o);
            } else {
                self.nodes.remove(&o);
            }
            let (a, b) = (o as usize, (o + s) as usize);
            for t in &mut self.tags[a..b] {
                *t = 0;
            }
            for (k, x) in keep {
                match x {
                    S::N(n) => {
                        self.nodes.insert(k as u32, (1, n));
                        self.tags[k] = T_TOP;
                    }
                    S::K(v) => self.bytes[k] = v as u8,
                }
            }
        }
    }
    /// Forget everything in [a, b).
    pub fn wipe(&mut self, a: usize, b: usize) {
        let b = b.min(self.bytes.len());
        if a >= b {
            return;
        }
        for x in &mut self.bytes[a..b] {
            *x = 0;
        }
        if self.tags.is_empty() || self.tags[a..b.min(self.tags.len())].iter().all(|t| *t == 0) {
            return;
        }
        let vs: Vec<u32> = self.vals.range(a as u32..b as u32).map(|x| *x.0).collect();
        for v in vs {
            self.vals.remove(&v);
        }
        let ns: Vec<u32> = self.nodes.range(a as u32..b as u32).map(|x| *x.0).collect();
        for n in ns {
            self.nodes.remove(&n);
        }
        for t in &mut self.tags[a..b] {
            *t = 0;
        }
    }
    pub fn read_s(&self, off: usize, sz: usize, dom: &mut Dom) -> S {
        if !self.tagged(off, sz) {
            let mut b = [0u8; 16];
            b[..sz].copy_from_slice(&self.bytes[off..off + sz]);
            return S::K(u128::from_le_bytes(b));
        }
        if let Some((s, n)) = self.nodes.get(&(off as u32)) {
            if *s as usize == sz {
                return S::N(*n);
            }
            if *s as usize > sz {
                return dom.extract(S::N(*n), 0, sz as u8);
            }
        }
        // inside a single slot?
        if let Some((o, (s, n))) = self.nodes.range(..=off as u32).next_back() {
            if *o as usize + *s as usize >= off + sz {
                return dom.extract(S::N(*n), (off - *o as usize) as u8, sz as u8);
            }
        }
        if let Some((o, (s, v))) = self.vals.range(..=off as u32).next_back() {
            let d = off - *o as usize;
            if *o as usize + *s as usize >= off + sz && d / 8 == (d + sz - 1) / 8 {
                let n = S::N(dom.node(Node::MontLimb(*v, (d / 8) as u8)));
                return if sz == 8 { n } else { dom.extract(n, (d % 8) as u8, sz as u8) };
            }
        }
        // byte-wise composition
        if sz > 1 && sz <= 16 {
            let mut acc = S::K(0);
            for k in 0..sz {
                let b = self.read_s(off + k, 1, dom);
                let sh = dom.bin(Bop::Shl, sz as u8, false, b, S::K(8 * k as u128));
                acc = dom.bin(Bop::Or, sz as u8, false, acc, sh);
            }
            return acc;
        }
        S::N(dom.fresh_opaque())
    }
    pub fn write_s(&mut self, off: usize, sz: usize, s: S, dom: &mut Dom) {
        self.clobber(off, sz, dom);
        match s {
            S::K(k) => self.bytes[off..off + sz].copy_from_slice(&k.to_le_bytes()[..sz]),
            S::N(n) => {
                self.need_tags();
                for b in &mut self.bytes[off..off + sz] {
                    *b = 0;
                }
                self.nodes.insert(off as u32, (sz as u8, n));
                self.tags[off] = T_TOP;
                for t in &mut self.tags[off + 1..off + sz] {
                    *t = T_TOPC;
                }
            }
        }
    }
    pub fn write_v(&mut self, off: usize, sz: usize, v: V, dom: &mut Dom) {
        self.clobber(off, sz, dom);
        self.need_tags();
        for b in &mut self.bytes[off..off + sz] {
            *b = 0;
        }
        self.vals.insert(off as u32, (sz as u32, v));
        self.tags[off] = T_VAL;
        for t in &mut self.tags[off + 1..off + sz] {
            *t = T_VALC;
        }
    }
    pub fn read_v(&self, off: usize, sz: usize) -> Option<V> {
        if self.tags.is_empty() || self.tags[off] != T_VAL {
            return None;
        }
        match self.vals.get(&(off as u32)) {
            Some((s, v)) if *s as usize == sz => Some(*v),
            _ => None,
        }
    }
}

pub enum Piece {
    Val(V, u32),
    Node(N, u8),
}

impl Mem {
    pub fn new() -> Self {
        let mut m = Mem { allocs: vec![None; 2], globals: HashMap::new() };
        m.allocs[STACK as usize] = Some(Rc::new(Alloc::default()));
        m
    }
    pub fn alloc(&mut self, n: usize) -> u64 {
        let id = self.allocs.len() as u32;
        self.allocs.push(Some(Rc::new(Alloc::zeroed(n))));
        addr(id, 0)
    }
    #[inline]
    pub fn get<'a>(&'a self, pool: &'a [Rc<Alloc>], id: u32) -> R<&'a Rc<Alloc>> {
        if id >= GLOBAL_BASE {
            if let Some(a) = self.globals.get(&id) {
                return Ok(a);
            }
            return match pool.get((id - GLOBAL_BASE) as usize) {
                Some(a) => Ok(a),
                None => unsup(format!("bad global pointer {:#x}", id)),
            };
        }
        match self.allocs.get(id as usize) {
            Some(Some(a)) => Ok(a),
            _ => unsup(format!("dangling pointer to allocation {:#x}", id)),
        }
    }
    #[inline]
    pub fn get_mut(&mut self, pool: &[Rc<Alloc>], id: u32) -> R<&mut Alloc> {
        if id >= GLOBAL_BASE {
            if !self.globals.contains_key(&id) {
                let a = match pool.get((id - GLOBAL_BASE) as usize) {
                    Some(a) => a.clone(),
                    None => return unsup(format!("bad global pointer {:#x}", id)),
                };
                self.globals.insert(id, a);
            }
            return Ok(Rc::make_mut(self.globals.get_mut(&id).unwrap()));
        }
        match self.allocs.get_mut(id as usize) {
            Some(Some(a)) => Ok(Rc::make_mut(a)),
            _ => unsup(format!("dangling pointer to allocation {:#x}", id)),
        }
    }
    fn bounds(a: &Alloc, off: usize, len: usize) -> R<()> {
        if off + len > a.bytes.len() {
            return unsup(format!("out-of-bounds access {}+{} of {}", off, len, a.bytes.len()));
        }
        Ok(())
    }
    pub fn read_s(&self, pool: &[Rc<Alloc>], ad: u64, sz: usize, dom: &mut Dom) -> R<S> {
        if sz == 0 {
            return Ok(S::K(0));
        }
        let a = self.get(pool, (ad >> 32) as u32)?;
        let off = ad as u32 as usize;
        Self::bounds(a, off, sz)?;
        Ok(a.read_s(off, sz, dom))
    }
    pub fn write_s(&mut self, pool: &[Rc<Alloc>], ad: u64, sz: usize, s: S, dom: &mut Dom) -> R<()> {
        if sz == 0 {
            return Ok(());
        }
        let a = self.get_mut(pool, (ad >> 32) as u32)?;
        let off = ad as u32 as usize;
        Self::bounds(a, off, sz)?;
        a.write_s(off, sz, s, dom);
        Ok(())
    }
    pub fn read_v(&self, pool: &[Rc<Alloc>], ad: u64, sz: usize) -> R<Option<V>> {
        let a = self.get(pool, (ad >> 32) as u32)?;
        let off = ad as u32 as usize;
        Self::bounds(a, off, sz)?;
        Ok(a.read_v(off, sz))
    }
    pub fn write_v(&mut self, pool: &[Rc<Alloc>], ad: u64, sz: usize, v: V, dom: &mut Dom) -> R<()> {
        let a = self.get_mut(pool, (ad >> 32) as u32)?;
        let off = ad as u32 as usize;
        Self::bounds(a, off, sz)?;
        a.write_v(off, sz, v, dom);
        Ok(())
    }
    pub fn read_bytes(&self, pool: &[Rc<Alloc>], ad: u64, len: usize) -> R<Option<Vec<u8>>> {
        if len == 0 {
            return Ok(Some(vec![]));
        }
        let a = self.get(pool, (ad >> 32) as u32)?;
        let off = ad as u32 as usize;
        Self::bounds(a, off, len)?;
        if a.tagged(off, len) {
            return Ok(None);
        }
        Ok(Some(a.bytes[off..off + len].to_vec()))
    }
    pub fn write_bytes(&mut self, pool: &[Rc<Alloc>], ad: u64, b: &[u8], dom: &mut Dom) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let a = self.get_mut(pool, (ad >> 32) as u32)?;
        let off = ad as u32 as usize;
        Self::bounds(a, off, b.len())?;
        a.clobber(off, b.len(), dom);
        a.bytes[off..off + b.len()].copy_from_slice(b);
        Ok(())
    }
    /// memmove, carrying abstract slots along.
    pub fn copy(&mut self, pool: &[Rc<Alloc>], dst: u64, src: u64, len: usize, dom: &mut Dom) -> R<()> {
        if len == 0 || dst == src {
            return Ok(());
        }
        let (sid, did) = ((src >> 32) as u32, (dst >> 32) as u32);
        let (so, d_o) = (src as u32 as usize, dst as u32 as usize);
        let mut small = [0u8; 64];
        let big;
        let mut pieces: Vec<(usize, Piece)> = vec![];
        let data: &[u8] = {
            let a = self.get(pool, sid)?;
            Self::bounds(a, so, len)?;
            if a.tagged(so, len) {
                let end = so + len;
                for (o, (s, v)) in a.vals.range(so as u32..end as u32) {
                    if (*o + *s) as usize <= end {
                        pieces.push((*o as usize - so, Piece::Val(*v, *s)));
                    } else {
                        for k in *o as usize..end {
                            let S::N(n) = a.read_s(k, 1, dom) else { continue };
                            pieces.push((k - so, Piece::Node(n, 1)));
                        }
                    }
                }
                for (o, (s, n)) in a.nodes.range(so as u32..end as u32) {
                    if *o as usize + *s as usize <= end {
                        pieces.push((*o as usize - so, Piece::Node(*n, *s)));
                    } else {
                        let w = end - *o as usize;
                        for k in 0..w {
                            let S::N(n) = a.read_s(*o as usize + k, 1, dom) else { continue };
                            pieces.push((*o as usize + k - so, Piece::Node(n, 1)));
                        }
                    }
                }
                // leading partial slot
                let mut k = so;
                while k < end && (a.tags[k] == T_VALC || a.tags[k] == T_TOPC) {
                    if k + 8 <= end && a.tags[k] == T_VALC && (k..k + 8).all(|j| a.tags[j] == T_VALC) {
                        if let S::N(n) = a.read_s(k, 8, dom) {
                            pieces.push((k - so, Piece::Node(n, 8)));
                        }
                        k += 8;
                        continue;
                    }
                    if let S::N(n) = a.read_s(k, 1, dom) {
                        pieces.push((k - so, Piece::Node(n, 1)));
                    }
                    k += 1;
                }
            }
            if len <= 64 {
                small[..len].copy_from_slice(&a.bytes[so..so + len]);
                &small[..len]
            } else {
                big = a.bytes[so..so + len].to_vec();
                &big[..]
            }
        };
        let a = self.get_mut(pool, did)?;
        Self::bounds(a, d_o, len)?;
        a.clobber(d_o, len, dom);
        a.bytes[d_o..d_o + len].copy_from_slice(data);
        for (o, p) in pieces {
            match p {
                Piece::Val(v, s) => a.write_v(d_o + o, s as usize, v, dom),
                Piece::Node(n, s) => a.write_s(d_o + o, s as usize, S::N(n), dom),
            }
        }
        Ok(())
    }
}
