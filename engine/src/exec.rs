//! The abstract interpreter: conditional constant propagation over the
//! lowered MIR with value numbering of data, joining at post-dominators.
use crate::dom::*;
use crate::lower::*;
use crate::mem::*;
use crate::nat::Nat;
use rustc_middle::mir;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub func: Rc<Func<'tcx>>,
    pub base: u64,
    pub bb: usize,
    pub idx: usize,
    pub dst: u64,
    pub dst_sz: usize,
    pub target: Option<usize>,
    pub sp0: u64,
}
#[derive(Clone)]
pub struct State<'tcx> {
    pub mem: Mem,
    pub frames: Vec<Frame<'tcx>>,
    pub sp: u64,
    pub facts: Vec<(N, bool)>,
    pub fed: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Event {
    pub kind: &'static str,
    pub loc: String,
    pub what: String,
}

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub lo: Lower<'tcx>,
    pub dom: Dom,
    pub funcs: Vec<Option<Rc<Func<'tcx>>>>,
    pub nats: Vec<Option<Option<Nat>>>,
    pub fields: HashMap<Ty<'tcx>, u16>,
    pub events: BTreeMap<Event, usize>,
    pub steps: u64,
    pub budget: u64,
    pub active: Vec<(usize, usize, usize, usize)>, // (depth, func ptr, bb, k)
    pub assumed: Vec<(N, bool)>,
    pub rand: u32,
    pub feed: Vec<(u16, V)>,
    pub fresh: u32,
    pub visited: BTreeSet<String>,
    pub trace: String,
    pub obl: Vec<Obl>,
    pub dumps: Vec<(String, String)>,
    pub trees: Vec<(Rc<str>, V, usize)>,
    pub scratch: u64,
    pub joins: u64,
    pub seq: u32,
    pub digests: HashMap<u64, Vec<V>>,
    pub secrets: bool,
    pub region: bool,
    pub started: std::time::Instant,
    pub job_ms: u64,
    pub given: HashMap<(String, u64, u64), Vec<u8>>,
    pub base_pts: HashMap<u64, Point>,
    pub last_pts: Option<(Vec<N>, Vec<Point>)>,
}
#[derive(Clone, Debug)]
pub struct Obl {
    pub label: String,
    pub loc: String,
    pub verdict: &'static str, // proved | identity | violated | undecided
    pub detail: String,
}

const MAX_DEPTH: usize = 400;

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Interp {
            tcx,
            lo: Lower::new(tcx),
            dom: Dom::new(),
            funcs: vec![],
            nats: vec![],
            fields: HashMap::new(),
            events: BTreeMap::new(),
            steps: 0,
            budget: 400_000_000,
            active: vec![],
            assumed: vec![],
            rand: 0,
            feed: vec![],
            fresh: 0,
            visited: BTreeSet::new(),
            trace: String::new(),
            obl: vec![],
            dumps: vec![],
            trees: vec![],
            scratch: 0,
            joins: 0,
            seq: 0,
            digests: HashMap::new(),
            secrets: false,
            region: false,
            started: std::time::Instant::now(),
            job_ms: u64::MAX,
            given: HashMap::new(),
            base_pts: HashMap::new(),
            last_pts: None,
        }
    }
    pub fn reset(&mut self) {
        self.dom.reset();
        self.events.clear();
        self.steps = 0;
        self.active.clear();
        self.assumed.clear();
        self.rand = 0;
        self.feed.clear();
        self.fresh = 0;
        self.trace.clear();
        self.obl.clear();
        self.dumps.clear();
        self.joins = 0;
        self.seq = 0;
        self.secrets = false;
        self.region = false;
        self.started = std::time::Instant::now();
        self.base_pts.clear();
        self.last_pts = None;
    }
    pub fn loc(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let p = sm.lookup_char_pos(sp.lo());
        let f = p.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", f, p.line)
    }
    /// Innermost location inside the analysed crate.
    pub fn where_(&self, st: &State<'tcx>) -> String {
        for f in st.frames.iter().rev() {
            if f.func.krate == "zkhash" {
                let b = &f.func.blocks[f.bb];
                return format!("{} in {}", self.loc(b.span), f.func.name);
            }
        }
        match st.frames.last() {
            Some(f) => format!("{} in {}", self.loc(f.func.blocks[f.bb].span), f.func.name),
            None => String::new(),
        }
    }
    pub fn event(&mut self, st: &State<'tcx>, kind: &'static str, what: String) {
        let loc = self.where_(st);
        *self.events.entry(Event { kind, loc, what }).or_insert(0) += 1;
    }
    fn may_panic(&mut self, st: &State<'tcx>, c: N, side: bool, what: String) {
        let at = self.where_(st);
        self.may_panic_at(st, c, side, what, at)
    }
    fn may_panic_loc(&self, m: &str) -> String {
        m.rsplit(" at /").next().map(|x| format!("/{}", x)).unwrap_or_default()
    }
    /// Some inputs take the panicking side.  `maypanic`: a witness was found;
    /// `maypanic?`: no input satisfying the path facts was found.
    fn may_panic_at(&mut self, st: &State<'tcx>, c: N, side: bool, what: String, loc: String) {
        // outside the evaluated region only the first few conditions get a witness search
        let w = if self.region || self.events.len() < 40 { self.feasible(st, c, side) } else { None };
        let kind = match (w.is_some(), self.region) {
            (true, true) => "maypanic-in",
            (true, false) => "maypanic",
            (false, true) => "maypanic?-in",
            (false, false) => "maypanic?",
        };
        let what = match w {
            Some(w) => format!("{} ({})", what, w),
            None => what,
        };
        *self.events.entry(Event { kind, loc, what }).or_insert(0) += 1;
    }
    pub fn backtrace(&self, st: &State<'tcx>) -> String {
        st.frames.iter().rev().take(12).map(|f| format!("{}@{}", f.func.name, self.loc(f.func.blocks[f.bb].span))).collect::<Vec<_>>().join(" <- ")
    }

    pub fn late(&self) -> bool {
        self.started.elapsed().as_millis() as u64 > self.job_ms
    }
    // ---- facts -----------------------------------------------------------
    pub fn decide(&mut self, st: &State<'tcx>, c: S) -> Option<bool> {
        let n = match c {
            S::K(k) => return Some(k != 0),
            S::N(n) => n,
        };
        for (m, v) in st.facts.iter().chain(self.assumed.iter()) {
            if *m == n {
                return Some(*v);
            }
        }
        match self.dom.nodes[n as usize].clone() {
            Node::Bin(Bop::Xor, 1, _, x, S::K(1)) => self.decide(st, x).map(|b| !b),
            Node::Bin(Bop::And, _, _, a, b) if self.dom.is_bool(n) => match (self.decide(st, a), self.decide(st, b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Node::Bin(Bop::Or, _, _, a, b) if self.dom.is_bool(n) => match (self.decide(st, a), self.decide(st, b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Node::Ite(c, a, b) => match self.decide(st, S::N(c)) {
                Some(true) => self.decide(st, a),
                Some(false) => self.decide(st, b),
                None => None,
            },
            Node::IsZero(v) => {
                // a monomial of non-zero atoms is non-zero; of a zero atom, zero
                let p = self.dom.polys[v as usize].clone();
                if self.dom.fields[p.field as usize].n == 0 || p.terms.len() != 1 {
                    return None;
                }
                let mono = self.dom.monos[p.terms[0].0 as usize].clone();
                let mut all = true;
                for (a, _) in mono.iter() {
                    let at = self.dom.atoms[*a as usize].clone();
                    let z = match at {
                        Atom::Inv(_) => Some(false),
                        Atom::Named(w) => {
                            let s = self.dom.is_zero(w);
                            if s == S::N(n) { None } else { self.decide(st, s) }
                        }
                        _ => {
                            if mono.len() == 1 {
                                None
                            } else {
                                let w = self.dom.atom_v(at);
                                let s = self.dom.is_zero(w);
                                self.decide(st, s)
                            }
                        }
                    };
                    match z {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => all = false,
                    }
                }
                if all { Some(false) } else { None }
            }
            Node::Bin(op @ (Bop::Eq | Bop::Ne | Bop::Lt | Bop::Le | Bop::Gt | Bop::Ge), _, false, x, S::K(k)) => {
                if matches!(op, Bop::Eq | Bop::Ne) {
                    for (m, v) in st.facts.iter().chain(self.assumed.iter()) {
                        if let Node::Bin(o2 @ (Bop::Eq | Bop::Ne), _, false, y, S::K(j)) = self.dom.nodes[*m as usize] {
                            if y == x && j == k {
                                return Some(*v == (o2 == op));
                            }
                        }
                    }
                }
                let (lo, hi) = self.bounds(st, x)?;
                match op {
                    Bop::Eq if k < lo || k > hi => Some(false),
                    Bop::Eq if lo == hi && k == lo => Some(true),
                    Bop::Ne if k < lo || k > hi => Some(true),
                    Bop::Ne if lo == hi && k == lo => Some(false),
                    Bop::Lt if hi < k => Some(true),
                    Bop::Lt if lo >= k => Some(false),
                    Bop::Le if hi <= k => Some(true),
                    Bop::Le if lo > k => Some(false),
                    Bop::Gt if lo > k => Some(true),
                    Bop::Gt if hi <= k => Some(false),
                    Bop::Ge if lo >= k => Some(true),
                    Bop::Ge if hi < k => Some(false),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn bounds(&self, st: &State<'tcx>, x: S) -> Option<(u128, u128)> {
        let (mut lo, mut hi) = self.dom.range(x).unwrap_or((0, u128::MAX));
        let mut any = lo > 0 || hi < u128::MAX;
        for (m, v) in st.facts.iter().chain(self.assumed.iter()) {
            if let Node::Bin(op, _, false, y, S::K(k)) = self.dom.nodes[*m as usize] {
                if y != x {
                    continue;
                }
                any = true;
                match (op, *v) {
                    (Bop::Eq, true) | (Bop::Ne, false) => {
                        lo = lo.max(k);
                        hi = hi.min(k);
                    }
                    (Bop::Lt, true) | (Bop::Ge, false) => hi = hi.min(k.saturating_sub(1)),
                    (Bop::Le, true) | (Bop::Gt, false) => hi = hi.min(k),
                    (Bop::Gt, true) | (Bop::Le, false) => lo = lo.max(k.saturating_add(1)),
                    (Bop::Ge, true) | (Bop::Lt, false) => lo = lo.max(k),
                    (Bop::Eq, false) | (Bop::Ne, true) => {
                        if lo == k {
                            lo += 1
                        }
                        if hi == k {
                            hi = hi.saturating_sub(1)
                        }
                    }
                    _ => {}
                }
            }
        }
        if any { Some((lo, hi)) } else { None }
    }
    pub fn add_fact(&mut self, st: &mut State<'tcx>, n: N, v: bool) {
        st.facts.push((n, v));
        match self.dom.nodes[n as usize].clone() {
            Node::Bin(Bop::Xor, 1, _, S::N(x), S::K(1)) => self.add_fact(st, x, !v),
            Node::Bin(Bop::And, _, _, a, b) if v && self.dom.is_bool(n) => {
                for s in [a, b] {
                    if let S::N(m) = s {
                        self.add_fact(st, m, true)
                    }
                }
            }
            Node::Bin(Bop::Or, _, _, a, b) if !v && self.dom.is_bool(n) => {
                for s in [a, b] {
                    if let S::N(m) = s {
                        self.add_fact(st, m, false)
                    }
                }
            }
            _ => {}
        }
    }
    /// Consequences of facts about joined booleans; false: contradictory facts.
    fn propagate(&mut self, st: &mut State<'tcx>) -> bool {
        if !st.facts.iter().any(|(n, _)| matches!(self.dom.nodes[*n as usize], Node::Ite(..))) {
            return true;
        }
        for _ in 0..4 {
            let mut new: Vec<(N, bool)> = vec![];
            for (n, v) in st.facts.iter() {
                let Node::Ite(c, a, b) = self.dom.nodes[*n as usize] else { continue };
                if !self.dom.is_bool(*n) {
                    continue;
                }
                let kill = |s: S| matches!(s, S::K(k) if (k != 0) != *v);
                let r = match self.decide(st, S::N(c)) {
                    Some(true) => a,
                    Some(false) => b,
                    None if kill(a) => {
                        new.push((c, false));
                        b
                    }
                    None if kill(b) => {
                        new.push((c, true));
                        a
                    }
                    None => continue,
                };
                if kill(r) {
                    return false;
                }
                if let S::N(m) = r {
                    match self.decide(st, r) {
                        Some(x) if x != *v => return false,
                        Some(_) => {}
                        None => new.push((m, *v)),
                    }
                }
            }
            if new.is_empty() {
                break;
            }
            new.sort();
            new.dedup();
            for (n, v) in new {
                self.add_fact(st, n, v);
            }
        }
        true
    }
    /// Concrete value of a scalar under the current facts.
    pub fn conc(&mut self, st: &State<'tcx>, s: S, what: &str) -> R<u128> {
        match s {
            S::K(k) => Ok(k),
            S::N(n) => {
                if let Node::Ite(c, a, b) = self.dom.nodes[n as usize].clone() {
                    return match self.decide(st, S::N(c)) {
                        Some(true) => self.conc(st, a, what),
                        Some(false) => self.conc(st, b, what),
                        None => Err(Fail::Split(c)),
                    };
                }
                if let Some((lo, hi)) = self.bounds(st, s) {
                    if lo == hi {
                        return Ok(lo);
                    }
                }
                if self.dom.is_bool(n) {
                    return match self.decide(st, s) {
                        Some(b) => Ok(b as u128),
                        None => Err(Fail::Split(n)),
                    };
                }
                if what == "index" || what == "length" {
                    let mut sup = std::collections::HashSet::new();
                    self.dom.inputs_n(n, &mut sup);
                    let mut v: Vec<_> = sup.into_iter().collect();
                    v.sort_by_key(|n: &String| (!n.starts_with("x["), n.clone()));
                    v.truncate(6);
                    self.event(st, "index", format!("{} computed from {}", what, v.join(",")));
                }
                unsup(format!("unknown {}: {}", what, self.dom.show_n(n, 5)))
            }
        }
    }

    // ---- memory shorthands -------------------------------------------------
    pub fn rd(&mut self, st: &State<'tcx>, a: u64, sz: usize) -> R<S> {
        st.mem.read_s(&self.lo.pool, a, sz, &mut self.dom)
    }
    pub fn wr(&mut self, st: &mut State<'tcx>, a: u64, sz: usize, s: S) -> R<()> {
        st.mem.write_s(&self.lo.pool, a, sz, s, &mut self.dom)
    }
    pub fn rk(&mut self, st: &State<'tcx>, a: u64, sz: usize, what: &str) -> R<u128> {
        let s = self.rd(st, a, sz)?;
        self.conc(st, s, what)
    }
    pub fn cp(&mut self, st: &mut State<'tcx>, d: u64, s: u64, len: usize) -> R<()> {
        st.mem.copy(&self.lo.pool, d, s, len, &mut self.dom)
    }

    /// Read a data value of the given domain field at an address.
    pub fn read_val(&mut self, st: &State<'tcx>, f: u16, a: u64) -> R<V> {
        let fi = &self.dom.fields[f as usize];
        let (n, size) = (fi.n, fi.size);
        if let Some(v) = st.mem.read_v(&self.lo.pool, a, size)? {
            if self.dom.field_of(v) == f {
                return Ok(v);
            }
            return unsup("data value of another field");
        }
        if let Some(b) = st.mem.read_bytes(&self.lo.pool, a, size)? {
            return self.val_of_bytes(f, &b);
        }
        if n == 0 {
            // token with symbolic parts
            let mut ints = vec![];
            let mut k = 0;
            while k < size {
                let w = (size - k).min(8);
                ints.push(self.rd(st, a + k as u64, w)?);
                k += w;
            }
            return self.val_of_limbs(st, f, ints);
        }
        let mut limbs = vec![];
        for i in 0..n {
            limbs.push(self.rd(st, a + 8 * i as u64, 8)?);
        }
        self.val_of_limbs(st, f, limbs)
    }
    fn val_of_bytes(&mut self, f: u16, b: &[u8]) -> R<V> {
        let fi = self.dom.fields[f as usize].clone();
        if fi.n == 0 {
            let ints = b.chunks(8).map(|c| { let mut x = [0u8; 16]; x[..c.len()].copy_from_slice(c); S::K(u128::from_le_bytes(x)) }).collect();
            return Ok(self.dom.atom_v(Atom::Uf { field: f, f: "bytes".into(), ints, args: vec![] }));
        }
        let mut e = ZERO;
        for i in 0..fi.n {
            e[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        if ge(&e, &fi.p) {
            // non-canonical representation: outside the invariant of the type
            return unsup("non-canonical field representation");
        }
        Ok(self.dom.konst(f, e))
    }
    fn val_of_limbs(&mut self, st: &State<'tcx>, f: u16, limbs: Vec<S>) -> R<V> {
        let fi = self.dom.fields[f as usize].clone();
        // all limbs of one value, in order
        let mut whole: Option<V> = None;
        let mut ok = true;
        for (i, l) in limbs.iter().enumerate() {
            match l {
                S::N(n) => match self.dom.nodes[*n as usize] {
                    Node::MontLimb(v, j) if j as usize == i && (whole.is_none() || whole == Some(v)) => whole = Some(v),
                    _ => ok = false,
                },
                _ => ok = false,
            }
        }
        if let (true, Some(v)) = (ok, whole) {
            if self.dom.field_of(v) == f {
                return Ok(v);
            }
        }
        if limbs.iter().all(|l| matches!(l, S::K(_))) {
            let mut b = vec![];
            for l in &limbs {
                if let S::K(k) = l {
                    b.extend_from_slice(&(*k as u64).to_le_bytes());
                }
            }
            b.truncate(fi.size);
            return self.val_of_bytes(f, &b);
        }
        for l in &limbs {
            if let S::N(n) = l {
                if let Node::Ite(c, ..) = self.dom.nodes[*n as usize] {
                    let pick = |d: &Dom, t: bool| -> Vec<S> {
                        limbs.iter().map(|x| match x {
                            S::N(m) => match d.nodes[*m as usize] {
                                Node::Ite(c2, a, b) if c2 == c => if t { a } else { b },
                                _ => *x,
                            },
                            _ => *x,
                        }).collect()
                    };
                    let (ta, tb) = (pick(&self.dom, true), pick(&self.dom, false));
                    return match self.decide(st, S::N(c)) {
                        Some(true) => self.val_of_limbs(st, f, ta),
                        Some(false) => self.val_of_limbs(st, f, tb),
                        None => {
                            let (a, b) = (self.val_of_limbs(st, f, ta)?, self.val_of_limbs(st, f, tb)?);
                            Ok(self.dom.phi(c, a, b))
                        }
                    };
                }
            }
        }
        Ok(self.dom.atom_v(Atom::Uf { field: f, f: "limbs".into(), ints: limbs, args: vec![] }))
    }
    pub fn write_val(&mut self, st: &mut State<'tcx>, f: u16, a: u64, v: V) -> R<()> {
        let fi = self.dom.fields[f as usize].clone();
        if let Some(c) = self.dom.as_const(v) {
            let mut b = vec![];
            for i in 0..fi.n {
                b.extend_from_slice(&c[i].to_le_bytes());
            }
            b.resize(fi.size, 0);
            return st.mem.write_bytes(&self.lo.pool, a, &b, &mut self.dom);
        }
        st.mem.write_v(&self.lo.pool, a, fi.size, v, &mut self.dom)
    }

    // ---- places and operands ----------------------------------------------
    pub fn place(&mut self, st: &State<'tcx>, p: &PlaceL) -> R<(u64, Option<S>)> {
        let base = st.frames.last().unwrap().base;
        let mut cur = addr(STACK, base + p.off);
        let mut meta: Option<S> = None;
        for e in &p.elems {
            match e {
                PE::Off(o) => cur = cur.wrapping_add(*o),
                PE::Deref(uns) => {
                    let s = self.rd(st, cur, 8)?;
                    let np = self.conc(st, s, "pointer")? as u64;
                    meta = if *uns { Some(self.rd(st, cur + 8, 8)?) } else { None };
                    cur = np;
                }
                PE::Index(lo, esz) => {
                    let s = self.rd(st, addr(STACK, base + lo), 8)?;
                    let i = self.conc(st, s, "index")? as u64;
                    cur = cur.wrapping_add(i.wrapping_mul(*esz));
                    meta = None;
                }
                PE::ConstIdxEnd(o, esz) => {
                    let m = meta.ok_or(Fail::Unsupported("no slice length".into()))?;
                    let n = self.conc(st, m, "length")? as u64;
                    cur += (n - o) * esz;
                    meta = None;
                }
                PE::Subslice { from, to, from_end, esz, arr_len } => {
                    cur += from * esz;
                    if arr_len.is_none() {
                        let m = meta.ok_or(Fail::Unsupported("no slice length".into()))?;
                        let n = self.conc(st, m, "length")? as u64;
                        let l = if *from_end { n - from - to } else { to - from };
                        meta = Some(S::K(l as u128));
                    }
                }
                PE::DynField(o) => {
                    let m = meta.ok_or(Fail::Unsupported("no vtable".into()))?;
                    let vt = self.conc(st, m, "vtable")? as u64;
                    let al = self.rk(st, vt + 16, 8, "align")? as u64;
                    let al = al.max(1);
                    cur += (o + al - 1) / al * al;
                }
                PE::DropMeta => meta = None,
            }
        }
        Ok((cur, meta))
    }
    pub fn opnd_s(&mut self, st: &State<'tcx>, o: &Opnd) -> R<S> {
        match o {
            Opnd::K(k, _) => Ok(S::K(*k)),
            Opnd::Place(p, sz) => {
                if *sz > 16 {
                    return unsup("wide scalar operand");
                }
                let (a, _) = self.place(st, p)?;
                self.rd(st, a, *sz)
            }
            Opnd::Global(a, sz) => {
                if *sz > 16 {
                    return unsup("wide scalar operand");
                }
                self.rd(st, *a, *sz)
            }
            Opnd::Fat(a, m) => Ok(S::K(*a as u128 | (*m as u128) << 64)),
            Opnd::Zst => Ok(S::K(0)),
            Opnd::Bad(s) => unsup(s.clone()),
        }
    }
    pub fn put_opnd(&mut self, st: &mut State<'tcx>, dst: u64, o: &Opnd) -> R<()> {
        match o {
            Opnd::K(k, sz) => {
                if *sz <= 16 {
                    self.wr(st, dst, *sz, S::K(*k))
                } else {
                    unsup("wide constant")
                }
            }
            Opnd::Place(p, sz) => {
                if *sz == 0 {
                    return Ok(());
                }
                let (a, _) = self.place(st, p)?;
                self.cp(st, dst, a, *sz)
            }
            Opnd::Global(a, sz) => self.cp(st, dst, *a, *sz),
            Opnd::Fat(a, m) => {
                self.wr(st, dst, 8, S::K(*a as u128))?;
                self.wr(st, dst + 8, 8, S::K(*m as u128))
            }
            Opnd::Zst => Ok(()),
            Opnd::Bad(s) => unsup(s.clone()),
        }
    }
    fn as_f(&mut self, st: &State<'tcx>, o: &Opnd, sz: u8) -> R<f64> {
        let s = self.opnd_s(st, o)?;
        let k = self.conc(st, s, "float")?;
        Ok(if sz == 4 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) })
    }
    pub fn f_bits(x: f64, sz: u8) -> u128 {
        if sz == 4 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 }
    }

    pub fn scalar_bin(&mut self, st: &State<'tcx>, op: mir::BinOp, sz: u8, sg: bool, x: S, y: S, kb: Kind) -> R<S> {
        use mir::BinOp as B;
        let bop = match op {
            B::Add | B::AddUnchecked | B::AddWithOverflow => Bop::Add,
            B::Sub | B::SubUnchecked | B::SubWithOverflow => Bop::Sub,
            B::Mul | B::MulUnchecked | B::MulWithOverflow => Bop::Mul,
            B::Div => Bop::Div,
            B::Rem => Bop::Rem,
            B::BitXor => Bop::Xor,
            B::BitAnd => Bop::And,
            B::BitOr => Bop::Or,
            B::Shl | B::ShlUnchecked => Bop::Shl,
            B::Shr | B::ShrUnchecked => Bop::Shr,
            B::Eq => Bop::Eq,
            B::Ne => Bop::Ne,
            B::Lt => Bop::Lt,
            B::Le => Bop::Le,
            B::Gt => Bop::Gt,
            B::Ge => Bop::Ge,
            B::Cmp => {
                let lt = self.dom.bin(Bop::Lt, sz, sg, x, y);
                let eq = self.dom.bin(Bop::Eq, sz, sg, x, y);
                return Ok(match (self.decide(st, lt), self.decide(st, eq)) {
                    (Some(true), _) => S::K(0xff),
                    (Some(false), Some(true)) => S::K(0),
                    (Some(false), Some(false)) => S::K(1),
                    (None, Some(false)) => {
                        let S::N(l) = lt else { unreachable!() };
                        self.dom.ite(l, S::K(0xff), S::K(1))
                    }
                    (Some(false), None) => {
                        let S::N(e) = eq else { unreachable!() };
                        self.dom.ite(e, S::K(0), S::K(1))
                    }
                    _ => {
                        let (S::N(l), S::N(e)) = (lt, eq) else { return unsup("cmp") };
                        let inner = self.dom.ite(e, S::K(0), S::K(1));
                        self.dom.ite(l, S::K(0xff), inner)
                    }
                });
            }
            B::Offset => return unsup("offset"),
        };
        if let (Bop::Div | Bop::Rem, S::K(_), S::K(0)) = (bop, x, y) {
            return Err(Fail::Panic("division by zero".into()));
        }
        let mut y = y;
        if matches!(bop, Bop::Shl | Bop::Shr) {
            if let (S::K(k), Kind::Int(bs, _)) = (y, kb) {
                y = S::K((k & mask(bs)) % (8 * sz as u128));
            }
        }
        Ok(self.dom.bin(bop, sz, sg, x, y))
    }

    /// Evaluate an rvalue into memory at dst.
    fn assign(&mut self, st: &mut State<'tcx>, dst: u64, sz: usize, rv: &Rv<'tcx>) -> R<()> {
        match rv {
            Rv::Use(o) => {
                if let Opnd::K(k, _) = o {
                    return self.wr(st, dst, sz, S::K(*k));
                }
                self.put_opnd(st, dst, o)
            }
            Rv::Repeat(o, n, esz) => {
                if *n == 0 || *esz == 0 {
                    return Ok(());
                }
                if let Opnd::K(k, 1) = o {
                    return st.mem.write_bytes(&self.lo.pool, dst, &vec![*k as u8; *n as usize], &mut self.dom);
                }
                self.put_opnd(st, dst, o)?;
                for i in 1..*n {
                    self.cp(st, dst + i * esz, dst, *esz as usize)?;
                }
                Ok(())
            }
            Rv::AddrOf(p, uns) => {
                let (a, m) = self.place(st, p)?;
                self.wr(st, dst, 8, S::K(a as u128))?;
                if *uns {
                    let m = m.ok_or(Fail::Unsupported("reference to unsized place without metadata".into()))?;
                    self.wr(st, dst + 8, 8, m)?;
                }
                Ok(())
            }
            Rv::IntCast { a, from, signed, to } => {
                let s = self.opnd_s(st, a)?;
                let r = if to <= from {
                    self.dom.extract(s, 0, *to)
                } else if *signed {
                    self.dom.sext_s(s, *from, *to)
                } else {
                    self.dom.zext(s, *from)
                };
                self.wr(st, dst, sz, r)
            }
            Rv::Float2Int { a, from, to, signed } => {
                let x = self.as_f(st, a, *from)?;
                let m = mask(*to);
                let k = if *signed {
                    let hi = (m >> 1) as i128;
                    (x as i128).clamp(-hi - 1, hi) as u128 & m
                } else {
                    (x as u128).min(m)
                };
                self.wr(st, dst, sz, S::K(k))
            }
            Rv::Int2Float { a, from, signed, to } => {
                let s = self.opnd_s(st, a)?;
                let k = self.conc(st, s, "float")?;
                let x = if *signed { sext(k, *from) as f64 } else { k as f64 };
                self.wr(st, dst, sz, S::K(Self::f_bits(x, *to)))
            }
            Rv::Float2Float { a, from, to } => {
                let x = self.as_f(st, a, *from)?;
                self.wr(st, dst, sz, S::K(Self::f_bits(x, *to)))
            }
            Rv::PtrTrunc(o) => match o {
                Opnd::Place(p, _) => {
                    let (a, _) = self.place(st, p)?;
                    self.cp(st, dst, a, 8)
                }
                Opnd::Fat(a, _) => self.wr(st, dst, 8, S::K(*a as u128)),
                _ => {
                    let s = self.opnd_s(st, o)?;
                    let r = self.dom.extract(s, 0, 8);
                    self.wr(st, dst, 8, r)
                }
            },
            Rv::Unsize(o, from, to) => {
                self.put_opnd(st, dst, o)?;
                self.unsize(st, dst, *from, *to)
            }
            Rv::FnPtr(a) | Rv::Addr(a) => self.wr(st, dst, 8, S::K(*a as u128)),
            Rv::Bin(op, k, a, b, _out, kb) => match k {
                Kind::Int(isz, sg) => {
                    let (x, y) = (self.opnd_s(st, a)?, self.opnd_s(st, b)?);
                    let r = self.scalar_bin(st, *op, *isz, *sg, x, y, *kb)?;
                    self.wr(st, dst, sz, r)
                }
                Kind::Float(fs) => {
                    let (x, y) = (self.as_f(st, a, *fs)?, self.as_f(st, b, *fs)?);
                    use mir::BinOp as B;
                    let r = match op {
                        B::Add => Self::f_bits(x + y, *fs),
                        B::Sub => Self::f_bits(x - y, *fs),
                        B::Mul => Self::f_bits(x * y, *fs),
                        B::Div => Self::f_bits(x / y, *fs),
                        B::Rem => Self::f_bits(x % y, *fs),
                        B::Eq => (x == y) as u128,
                        B::Ne => (x != y) as u128,
                        B::Lt => (x < y) as u128,
                        B::Le => (x <= y) as u128,
                        B::Gt => (x > y) as u128,
                        B::Ge => (x >= y) as u128,
                        _ => return unsup("float op"),
                    };
                    self.wr(st, dst, sz, S::K(r))
                }
                Kind::FatPtr => {
                    let (x, y) = (self.opnd_s(st, a)?, self.opnd_s(st, b)?);
                    let r = self.scalar_bin(st, *op, 16, false, x, y, *kb)?;
                    self.wr(st, dst, sz, r)
                }
            },
            Rv::BinOvf(op, k, a, b, o0, o1) => {
                let Kind::Int(isz, sg) = k else { return unsup("overflow op") };
                let (x, y) = (self.opnd_s(st, a)?, self.opnd_s(st, b)?);
                let (r, o) = self.overflowing(st, *op, *isz, *sg, x, y);
                self.wr(st, dst + o0, *isz as usize, r)?;
                self.wr(st, dst + o1, 1, o)
            }
            Rv::Offset(a, b, esz) => {
                let (x, y) = (self.opnd_s(st, a)?, self.opnd_s(st, b)?);
                let x = self.conc(st, x, "pointer")? as u64;
                let y = self.conc(st, y, "index")? as u64;
                self.wr(st, dst, 8, S::K(x.wrapping_add(y.wrapping_mul(*esz)) as u128))
            }
            Rv::Not(a, n, b) => {
                let s = self.opnd_s(st, a)?;
                let r = match s {
                    S::K(k) => S::K(if *b { (k == 0) as u128 } else { !k & mask(*n) }),
                    S::N(_) if *b => self.dom.not_bool(s),
                    S::N(m) => {
                        if let Node::Ite(c, S::K(x), S::K(y)) = self.dom.nodes[m as usize] {
                            self.dom.ite(c, S::K(!x & mask(*n)), S::K(!y & mask(*n)))
                        } else {
                            S::N(self.dom.node(Node::Not(*n, m)))
                        }
                    }
                };
                self.wr(st, dst, sz, r)
            }
            Rv::Neg(a, k) => match k {
                Kind::Int(n, _) => {
                    let s = self.opnd_s(st, a)?;
                    let r = match s {
                        S::K(k) => S::K(k.wrapping_neg() & mask(*n)),
                        S::N(m) => S::N(self.dom.node(Node::Neg(*n, m))),
                    };
                    self.wr(st, dst, sz, r)
                }
                Kind::Float(n) => {
                    let x = self.as_f(st, a, *n)?;
                    self.wr(st, dst, sz, S::K(Self::f_bits(-x, *n)))
                }
                _ => unsup("neg"),
            },
            Rv::PtrMeta(o) => match o {
                Opnd::Place(p, 16) => {
                    let (a, _) = self.place(st, p)?;
                    self.cp(st, dst, a + 8, 8)
                }
                Opnd::Fat(_, m) => self.wr(st, dst, 8, S::K(*m as u128)),
                Opnd::Global(a, 16) => self.cp(st, dst, a + 8, 8),
                _ => unsup("pointer metadata"),
            },
            Rv::Discr(p, d) => {
                let (a, _) = self.place(st, p)?;
                let r = self.discr(st, a, d)?;
                self.wr(st, dst, sz, r)
            }
            Rv::Agg(v, tag) => {
                // operands may alias the destination only in their own field
                for (o, op) in v {
                    self.put_opnd(st, dst + o, op)?;
                }
                if let Some(t) = tag {
                    self.wr(st, dst + t.off, t.sz as usize, S::K(t.val))?;
                }
                Ok(())
            }
            Rv::Unsup(s) => unsup(s.clone()),
        }
    }
    pub fn overflowing(&mut self, st: &State<'tcx>, op: Bop, sz: u8, sg: bool, x: S, y: S) -> (S, S) {
        if let (S::K(a), S::K(b)) = (x, y) {
            let m = mask(sz);
            if sg {
                let (p, q) = (sext(a, sz), sext(b, sz));
                let (r, o) = match op {
                    Bop::Add => p.overflowing_add(q),
                    Bop::Sub => p.overflowing_sub(q),
                    _ => p.overflowing_mul(q),
                };
                let k = r as u128 & m;
                return (S::K(k), S::K((o || sext(k, sz) != r) as u128));
            }
            let (r, o) = match op {
                Bop::Add => a.overflowing_add(b),
                Bop::Sub => a.overflowing_sub(b),
                _ => a.overflowing_mul(b),
            };
            return (S::K(r & m), S::K((o || r > m) as u128));
        }
        let r = self.dom.bin(op, sz, sg, x, y);
        // Ite on one side: push through
        for (n, other, left) in [(x, y, true), (y, x, false)] {
            if let S::N(n) = n {
                if let Node::Ite(c, p, q) = self.dom.nodes[n as usize].clone() {
                    if matches!(other, S::K(_)) {
                        let (r1, o1) = if left { self.overflowing(st, op, sz, sg, p, other) } else { self.overflowing(st, op, sz, sg, other, p) };
                        let (r2, o2) = if left { self.overflowing(st, op, sz, sg, q, other) } else { self.overflowing(st, op, sz, sg, other, q) };
                        return (self.dom.ite(c, r1, r2), self.dom.ite(c, o1, o2));
                    }
                }
            }
        }
        if !sg {
            if let (Some((al, ah)), Some((bl, bh))) = (self.bounds(st, x).or(self.dom.range(x)), self.bounds(st, y).or(self.dom.range(y))) {
                let m = mask(sz);
                let no = match op {
                    Bop::Add => ah.checked_add(bh).map_or(false, |z| z <= m),
                    Bop::Sub => al >= bh,
                    _ => ah.checked_mul(bh).map_or(false, |z| z <= m),
                };
                if no {
                    return (r, S::K(0));
                }
                if op == Bop::Sub && ah < bl {
                    return (r, S::K(1));
                }
            }
            let o = match op {
                Bop::Add => self.dom.bin(Bop::Lt, sz, false, r, x),
                Bop::Sub => self.dom.bin(Bop::Lt, sz, false, x, y),
                _ => S::N(self.dom.node(Node::Uf("mul_overflow".into(), vec![x, y], vec![], 1))),
            };
            return (r, o);
        }
        let o = S::N(self.dom.node(Node::Uf(format!("{:?}_soverflow{}", op, sz).as_str().into(), vec![x, y], vec![], 1)));
        (r, o)
    }
    pub fn discr(&mut self, st: &State<'tcx>, a: u64, d: &DiscrRead) -> R<S> {
        Ok(match d {
            DiscrRead::Empty => return Err(Fail::Bottom),
            DiscrRead::Single(k) => S::K(*k),
            DiscrRead::Direct { off, sz, signed, out } => {
                let s = self.rd(st, a + off, *sz as usize)?;
                if *signed && out > sz {
                    self.dom.sext_s(s, *sz, *out)
                } else {
                    self.dom.extract(s, 0, (*out).min(*sz))
                }
            }
            DiscrRead::Niche { off, sz, start, vstart, vlast, untagged, .. } => {
                let s = self.rd(st, a + off, *sz as usize)?;
                self.niche(s, *sz, *start, *vstart, *vlast, *untagged)
            }
        })
    }
    fn niche(&mut self, s: S, sz: u8, start: u128, vstart: u32, vlast: u32, untagged: u32) -> S {
        match s {
            S::K(k) => {
                let rel = k.wrapping_sub(start) & mask(sz);
                if rel <= (vlast - vstart) as u128 { S::K(vstart as u128 + rel) } else { S::K(untagged as u128) }
            }
            S::N(n) => {
                if let Node::Ite(c, a, b) = self.dom.nodes[n as usize].clone() {
                    let (x, y) = (self.niche(a, sz, start, vstart, vlast, untagged), self.niche(b, sz, start, vstart, vlast, untagged));
                    return self.dom.ite(c, x, y);
                }
                if vstart == vlast {
                    let eq = self.dom.bin(Bop::Eq, sz, false, s, S::K(start));
                    return match eq {
                        S::K(0) => S::K(untagged as u128),
                        S::K(_) => S::K(vstart as u128),
                        S::N(e) => self.dom.ite(e, S::K(vstart as u128), S::K(untagged as u128)),
                    };
                }
                // small payloads (bool-like) below the niche range
                if let Some((_, hi)) = self.dom.range(s) {
                    if hi < start {
                        return S::K(untagged as u128);
                    }
                }
                S::N(self.dom.fresh_opaque())
            }
        }
    }
    fn unsize(&mut self, st: &mut State<'tcx>, dst: u64, from: Ty<'tcx>, to: Ty<'tcx>) -> R<()> {
        // locate the pointer being unsized
        let (fp, tp) = match (from.builtin_deref(true), to.builtin_deref(true)) {
            (Some(a), Some(b)) => (a, b),
            _ => {
                // smart pointer: struct with one non-ZST field that differs
                let (ty::Adt(fd, fa), ty::Adt(_, ta)) = (from.kind(), to.kind()) else { return unsup("unsize") };
                let fl = self.lo.layout(from)?;
                for (i, fdef) in fd.non_enum_variant().fields.iter().enumerate() {
                    let ft = fdef.ty(self.tcx, fa);
                    let tt = fdef.ty(self.tcx, ta);
                    let ft = self.tcx.normalize_erasing_regions(self.lo.env, ft);
                    let tt = self.tcx.normalize_erasing_regions(self.lo.env, tt);
                    if ft == tt || self.lo.size(ft)? == 0 {
                        continue;
                    }
                    let off = fl.fields.offset(i).bytes();
                    return self.unsize(st, dst + off, ft, tt);
                }
                return unsup("unsize adt");
            }
        };
        let (a, b) = self.tcx.struct_lockstep_tails_for_codegen(fp, tp, self.lo.env);
        match (a.kind(), b.kind()) {
            (ty::Array(_, n), ty::Slice(_)) => {
                let n = n.try_to_target_usize(self.tcx).ok_or(Fail::Unsupported("array len".into()))?;
                self.wr(st, dst + 8, 8, S::K(n as u128))
            }
            (ty::Dynamic(..), ty::Dynamic(..)) => {
                if a == b {
                    return Ok(());
                }
                unsup("trait upcasting")
            }
            (_, ty::Dynamic(..)) => {
                let vt = self.lo.vtable(a, b)?;
                self.wr(st, dst + 8, 8, S::K(vt as u128))
            }
            _ => unsup(format!("unsize {} to {}", a, b)),
        }
    }

    // ---- calls -------------------------------------------------------------
    pub fn func(&mut self, id: usize) -> R<Rc<Func<'tcx>>> {
        if self.funcs.len() <= id {
            self.funcs.resize(id + 1, None);
        }
        if let Some(f) = &self.funcs[id] {
            return Ok(f.clone());
        }
        let inst = self.lo.insts[id];
        let d = inst.def_id();
        let has = match inst.def {
            InstanceKind::Item(_) => (self.tcx.is_mir_available(d) || matches!(self.tcx.def_kind(d), rustc_hir::def::DefKind::Ctor(..))) && !self.tcx.is_foreign_item(d),
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        if !has {
            return unsup(format!("no body for {}", self.tcx.def_path_str(d)));
        }
        let f = Rc::new(self.lo.lower(inst)?);
        self.funcs.resize(self.lo.insts.len().max(id + 1), None);
        self.funcs[id] = Some(f.clone());
        self.visited.insert(format!("{}::{}", f.krate, f.name));
        Ok(f)
    }
    pub fn put_scratch(&mut self, st: &mut State<'tcx>, o: &Opnd) -> R<u64> {
        let sz = o.size();
        let off = (st.sp + self.scratch + 15) / 16 * 16;
        self.grow(st, off + sz as u64 + 16);
        let a = addr(STACK, off);
        self.put_opnd(st, a, o)?;
        self.scratch = off + sz as u64 - st.sp;
        Ok(a)
    }
    pub fn scratch_s(&mut self, st: &mut State<'tcx>, sz: usize, s: S) -> R<u64> {
        let off = (st.sp + self.scratch + 15) / 16 * 16;
        self.grow(st, off + sz as u64 + 16);
        let a = addr(STACK, off);
        self.wr(st, a, sz, s)?;
        self.scratch = off + sz as u64 - st.sp;
        Ok(a)
    }
    pub fn grow(&mut self, st: &mut State<'tcx>, n: u64) {
        let a = Rc::make_mut(st.mem.allocs[STACK as usize].as_mut().unwrap());
        if (a.bytes.len() as u64) < n {
            let m = (n as usize).max(a.bytes.len() * 3 / 2).max(4096);
            a.bytes.resize(m, 0);
            if !a.tags.is_empty() {
                a.tags.resize(m, 0);
            }
        }
    }
    /// Push a frame for a MIR body; args are addresses with sizes.
    pub fn push(&mut self, st: &mut State<'tcx>, f: Rc<Func<'tcx>>, args: &[(u64, usize)], dst: u64, dst_sz: usize, target: Option<usize>) -> R<()> {
        if st.frames.len() > MAX_DEPTH {
            return unsup("call depth");
        }
        let sp0 = st.sp;
        let base = (st.sp + self.scratch + 15) / 16 * 16;
        self.grow(st, base + f.frame + 64);
        let mut slots: Vec<(u64, u64)> = f.slots.clone();
        if slots.len() == args.len() + 1 {
            if let Some(i) = slots.iter().position(|s| s.1 == 0) {
                slots.remove(i);
            }
        }
        if slots.len() != args.len() {
            // drop zero-sized arguments on either side
            let s2: Vec<_> = slots.iter().filter(|s| s.1 > 0).copied().collect();
            let a2: Vec<_> = args.iter().filter(|a| a.1 > 0).copied().collect();
            if s2.len() != a2.len() {
                return unsup(format!("argument count mismatch calling {}: {} slots, {} args", f.name, slots.len(), args.len()));
            }
            for (s, a) in s2.iter().zip(a2.iter()) {
                self.cp(st, addr(STACK, base + s.0), a.0, a.1)?;
            }
        } else {
            for (s, a) in slots.iter().zip(args.iter()) {
                if a.1 > 0 {
                    if s.1 as usize != a.1 {
                        return unsup(format!("argument size mismatch calling {}: {} vs {}", f.name, s.1, a.1));
                    }
                    self.cp(st, addr(STACK, base + s.0), a.0, a.1)?;
                }
            }
        }
        st.sp = base + f.frame;
        st.frames.push(Frame { func: f, base, bb: 0, idx: 0, dst, dst_sz, target, sp0 });
        Ok(())
    }
    fn pop(&mut self, st: &mut State<'tcx>) -> R<()> {
        let f = st.frames.pop().unwrap();
        if f.dst_sz > 0 {
            self.cp(st, f.dst, addr(STACK, f.base + f.func.ret.0), f.dst_sz)?;
        }
        // clear the frame (and scratch area) so that stale data never reaches a join
        let end = f.base + f.func.frame;
        let a = Rc::make_mut(st.mem.allocs[STACK as usize].as_mut().unwrap());
        a.wipe(f.sp0 as usize, end as usize);
        st.sp = f.sp0;
        if let Some(c) = st.frames.last_mut() {
            match f.target {
                Some(t) => {
                    c.bb = t;
                    c.idx = 0;
                }
                None => return unsup("return from diverging call"),
            }
        }
        Ok(())
    }
    fn goto(&self, st: &mut State<'tcx>, bb: usize) {
        let f = st.frames.last_mut().unwrap();
        f.bb = bb;
        f.idx = 0;
    }

    pub fn is_panic(&self, inst: Instance<'tcx>) -> Option<String> {
        let d = inst.def_id();
        let k = self.tcx.crate_name(d.krate);
        let k = k.as_str();
        if !matches!(k, "core" | "std" | "alloc") {
            return None;
        }
        if !matches!(inst.def, InstanceKind::Item(_)) {
            return None;
        }
        if !matches!(self.tcx.def_kind(d), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
            return None;
        }
        let sig = self.tcx.fn_sig(d).skip_binder();
        if sig.skip_binder().output().is_never() {
            return Some(self.tcx.item_name(d).to_string());
        }
        None
    }

    /// Dispatch a call to an instance with evaluated argument addresses.
    pub fn call(&mut self, st: &mut State<'tcx>, id: usize, args: Vec<(u64, usize)>, dst: u64, dst_sz: usize, target: Option<usize>) -> R<()> {
        let inst = self.lo.insts[id];
        match inst.def {
            InstanceKind::Virtual(_, idx) => {
                let (a0, s0) = args[0];
                if s0 != 16 {
                    return unsup("virtual call on thin self");
                }
                let data = self.rd(st, a0, 8)?;
                let vt = self.rk(st, a0 + 8, 8, "vtable")? as u64;
                let fp = self.rk(st, vt + 8 * idx as u64, 8, "vtable entry")? as u64;
                let Some(i) = self.lo.fn_of.get(&((fp >> 32) as u32)).copied() else { return unsup("vtable entry") };
                let na = self.scratch_s(st, 8, data)?;
                let mut args = args;
                args[0] = (na, 8);
                let id = self.lo.inst_id(i);
                return self.call(st, id, args, dst, dst_sz, target);
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => {
                if let (Some(t), Some(_)) = (target, st.frames.last()) {
                    self.goto(st, t);
                }
                return Ok(());
            }
            _ => {}
        }
        if let Some(p) = self.is_panic(inst) {
            return Err(Fail::Panic(format!("{} at {}", p, self.where_(st))));
        }
        if self.nats.len() <= id {
            self.nats.resize(id + 1, None);
        }
        let nat = match self.nats[id].clone() {
            Some(n) => n,
            None => {
                let n = self.classify(inst);
                if self.nats.len() <= id {
                    self.nats.resize(id + 1, None);
                }
                self.nats[id] = Some(n.clone());
                n
            }
        };
        if let Some(n) = nat {
            match self.native(st, inst, &n, &args, dst, dst_sz, target)? {
                NatRes::Done => {
                    match target {
                        Some(t) => self.goto(st, t),
                        None => return unsup("native without target"),
                    }
                    return Ok(());
                }
                NatRes::Pushed => return Ok(()),
                NatRes::Fallback => {}
            }
        }
        if let InstanceKind::Intrinsic(d) = inst.def {
            return match self.intrinsic(st, inst, &args, dst, dst_sz, target)? {
                NatRes::Done => {
                    match target {
                        Some(t) => self.goto(st, t),
                        None => return unsup("intrinsic without target"),
                    }
                    Ok(())
                }
                NatRes::Pushed => Ok(()),
                NatRes::Fallback => {
                    let i = self.tcx.intrinsic(d).unwrap();
                    if i.must_be_overridden {
                        return unsup(format!("intrinsic {}", i.name));
                    }
                    let ni = Instance::new_raw(d, inst.args);
                    let nid = self.lo.inst_id(ni);
                    let f = self.func(nid)?;
                    self.push(st, f, &args, dst, dst_sz, target)
                }
            };
        }
        let f = self.func(id)?;
        self.push(st, f, &args, dst, dst_sz, target)
    }

    fn drop_place(&mut self, st: &mut State<'tcx>, a: u64, meta: Option<S>, ty: Ty<'tcx>, target: usize) -> R<()> {
        self.scratch = 0;
        if let ty::Dynamic(..) = ty.kind() {
            let m = meta.ok_or(Fail::Unsupported("drop of dyn without vtable".into()))?;
            let vt = self.conc(st, m, "vtable")? as u64;
            let fp = self.rk(st, vt, 8, "drop entry")? as u64;
            if fp == 0 {
                self.goto(st, target);
                return Ok(());
            }
            let Some(i) = self.lo.fn_of.get(&((fp >> 32) as u32)).copied() else { return unsup("drop entry") };
            let pa = self.scratch_s(st, 8, S::K(a as u128))?;
            let id = self.lo.inst_id(i);
            return self.call(st, id, vec![(pa, 8)], 0, 0, Some(target));
        }
        let i = Instance::resolve_drop_glue(self.tcx, ty);
        let id = self.lo.inst_id(i);
        let (pa, sz) = match meta {
            Some(m) if !self.lo.is_sized(ty) => {
                let p = self.scratch_s(st, 16, S::K(a as u128))?;
                self.wr(st, p, 8, S::K(a as u128))?;
                self.wr(st, p + 8, 8, m)?;
                (p, 16)
            }
            _ => (self.scratch_s(st, 8, S::K(a as u128))?, 8),
        };
        self.call(st, id, vec![(pa, sz)], 0, 0, Some(target))
    }

    // ---- main loop ----------------------------------------------------------
    /// Run until the frame depth falls below `depth`, or block `stop` of the
    /// frame at `depth` is about to be entered.
    pub fn run(&mut self, st: &mut State<'tcx>, depth: usize, stop: Option<usize>) -> R<()> {
        loop {
            let d = st.frames.len();
            if d < depth {
                return Ok(());
            }
            let (func, bb, idx) = {
                let f = st.frames.last().unwrap();
                (f.func.clone(), f.bb, f.idx)
            };
            if d == depth && idx == 0 && stop == Some(bb) {
                return Ok(());
            }
            match self.block(st, &func, bb, idx) {
                Ok(()) => {}
                Err(Fail::Split(c)) => self.fork(st, c, d, &func, None)?,
                Err(Fail::Unsupported(s)) => {
                    if self.trace.is_empty() {
                        self.trace = self.backtrace(st);
                    }
                    return Err(Fail::Unsupported(s));
                }
                Err(e) => return Err(e),
            }
        }
    }
    /// Execute the rest of one block; Split leaves the frame at the splitting instruction.
    fn block(&mut self, st: &mut State<'tcx>, func: &Rc<Func<'tcx>>, bb: usize, idx: usize) -> R<()> {
        let b = &func.blocks[bb];
        let n = b.ins.len();
        let mut i = idx;
        while i < n {
            self.steps += 1;
            let r = match &b.ins[i] {
                Ins::Assign(p, sz, rv) => match self.place(st, p) {
                    Ok((a, _)) => self.assign(st, a, *sz, rv),
                    Err(e) => Err(e),
                },
                Ins::SetDiscr(p, t) => match self.place(st, p) {
                    Ok((a, _)) => match t {
                        Some(t) => self.wr(st, a + t.off, t.sz as usize, S::K(t.val)),
                        None => Ok(()),
                    },
                    Err(e) => Err(e),
                },
                Ins::CopyNO(s, d, c, esz) => self.copy_no(st, s, d, c, *esz),
                Ins::Dead(o, s) => {
                    let base = st.frames.last().unwrap().base;
                    let a = Rc::make_mut(st.mem.allocs[STACK as usize].as_mut().unwrap());
                    a.wipe((base + o) as usize, (base + o + s) as usize);
                    Ok(())
                }
                Ins::Unsup(s) => unsup(s.clone()),
            };
            if let Err(e) = r {
                st.frames.last_mut().unwrap().idx = i;
                return Err(e);
            }
            i += 1;
        }
        st.frames.last_mut().unwrap().idx = n;
        self.steps += 1;
        if self.steps & 1023 == 0 && self.late() {
            return Err(Fail::Budget);
        }
        if self.steps > self.budget {
            return Err(Fail::Budget);
        }
        self.scratch = 0;
        match &b.term {
            Term::Goto(t) => {
                self.goto(st, *t);
                Ok(())
            }
            Term::Return => self.pop(st),
            Term::Unreachable => Err(Fail::Bottom),
            Term::Unsup(s) => unsup(s.clone()),
            Term::Switch(o, targets, other, sz) => {
                let s = self.opnd_s(st, o)?;
                if let S::K(k) = s {
                    let t = targets.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*other);
                    self.goto(st, t);
                    return Ok(());
                }
                for (k, (v, t)) in targets.iter().enumerate() {
                    let c = self.dom.bin(Bop::Eq, *sz, false, s, S::K(*v));
                    match self.decide(st, c) {
                        Some(true) => {
                            self.goto(st, *t);
                            return Ok(());
                        }
                        Some(false) => continue,
                        None => {
                            // the otherwise block may be unreachable: then this is the last feasible side
                            if k + 1 == targets.len() && matches!(func.blocks[*other].term, Term::Unreachable) && func.blocks[*other].ins.is_empty() {
                                let S::N(n) = c else { unreachable!() };
                                self.add_fact(st, n, true);
                                self.goto(st, *t);
                                return Ok(());
                            }
                            let S::N(c) = c else { unreachable!() };
                            let d = st.frames.len();
                            return self.fork(st, c, d, func, Some((*t, k)));
                        }
                    }
                }
                self.goto(st, *other);
                Ok(())
            }
            Term::Assert { cond, expected, target, msg, .. } => {
                let s = self.opnd_s(st, cond)?;
                match self.decide(st, s) {
                    Some(v) if v == *expected => {
                        self.goto(st, *target);
                        Ok(())
                    }
                    Some(_) => Err(Fail::Panic(format!("{} at {}", msg, self.where_(st)))),
                    None => {
                        let S::N(n) = s else { unreachable!() };
                        let d = self.dom.show_n(n, 5);
                        let what = format!("{} if {}{}", msg, if *expected { "not " } else { "" }, d);
                        self.may_panic(st, n, !*expected, what);
                        self.add_fact(st, n, *expected);
                        self.goto(st, *target);
                        Ok(())
                    }
                }
            }
            Term::Drop(p, ty, t, _) => {
                let (a, m) = self.place(st, p)?;
                self.drop_place(st, a, m, *ty, *t)
            }
            Term::Call { callee, args, untupled: _, dst, dst_ty: _, dst_sz, target, .. } => {
                let (da, _) = if *dst_sz > 0 || !dst.elems.is_empty() { self.place(st, dst)? } else { (0, None) };
                let mut av: Vec<(u64, usize)> = Vec::with_capacity(args.len());
                for a in args {
                    if a.by_addr {
                        // unsized by-value argument: pass its address and metadata
                        let Opnd::Place(p, _) = &a.op else { return unsup("unsized argument") };
                        let (pa, m) = self.place(st, p)?;
                        let m = m.ok_or(Fail::Unsupported("unsized argument metadata".into()))?;
                        let x = self.scratch_s(st, 16, S::K(0))?;
                        self.wr(st, x, 8, S::K(pa as u128))?;
                        self.wr(st, x + 8, 8, m)?;
                        av.push((x, 16));
                        continue;
                    }
                    match &a.op {
                        Opnd::Place(p, sz) => {
                            if *sz == 0 {
                                av.push((0, 0));
                            } else {
                                let (pa, _) = self.place(st, p)?;
                                av.push((pa, *sz));
                            }
                        }
                        Opnd::Zst => av.push((0, 0)),
                        Opnd::Global(a, sz) => av.push((*a, *sz)),
                        o => {
                            let x = self.put_scratch(st, o)?;
                            av.push((x, o.size()));
                        }
                    }
                }
                let id = match callee {
                    Callee::Inst(i) => *i,
                    Callee::Ptr(o) => {
                        let s = self.opnd_s(st, o)?;
                        let p = self.conc(st, s, "function pointer")? as u64;
                        match self.lo.fn_of.get(&((p >> 32) as u32)).copied() {
                            Some(i) => self.lo.inst_id(i),
                            None => return unsup("call of unknown function pointer"),
                        }
                    }
                    Callee::Bad(s) => return unsup(s.clone()),
                };
                self.call(st, id, av, da, *dst_sz, *target)
            }
        }
    }
    fn copy_no(&mut self, st: &mut State<'tcx>, s: &Opnd, d: &Opnd, c: &Opnd, esz: u64) -> R<()> {
        let (s, d, c) = (self.opnd_s(st, s)?, self.opnd_s(st, d)?, self.opnd_s(st, c)?);
        let s = self.conc(st, s, "pointer")? as u64;
        let d = self.conc(st, d, "pointer")? as u64;
        let c = self.conc(st, c, "length")? as u64;
        self.cp(st, d, s, (c * esz) as usize)
    }

    /// Explore both sides of an undecided condition and join where they meet.
    fn fork(&mut self, st: &mut State<'tcx>, c: N, d: usize, func: &Rc<Func<'tcx>>, then: Option<(usize, usize)>) -> R<()> {
        let f = st.frames.last().unwrap();
        let (bb, idx) = (f.bb, f.idx);
        let key = (d, Rc::as_ptr(func) as usize, bb, then.map(|t| t.1).unwrap_or(1000 + idx));
        let seen = self.active.iter().filter(|k| **k == key).count();
        let mut sup = std::collections::HashSet::new();
        self.dom.inputs_n(c, &mut sup);
        let mut names: Vec<String> = sup.into_iter().collect();
        names.sort();
        if seen >= 2 && !names.is_empty() && names.iter().all(|n| n.starts_with("rand#")) {
            // loop that redraws from the random source: assume it is left
            // (the exit condition is recorded as a global assumption)
            let exit = self.loop_exit(func, bb, then, c);
            if let Some(v) = exit {
                self.assumed.push((c, v));
                *self.events.entry(Event { kind: "assume", loc: self.where_(st), what: "redraw loop ends".into() }).or_insert(0) += 1;
                return Ok(()); // re-executes the terminator, now decided
            }
            return Err(Fail::Bottom);
        }
        if seen >= 12 || self.active.len() > 60 {
            return unsup(format!("unbounded loop on {}", self.dom.show_n(c, 5)));
        }
        let mut short = names.clone();
        short.sort_by_key(|n| !n.starts_with("x["));
        short.truncate(4);
        self.event(st, "branch", format!("{}", short.join(",")));
        let stop = func.ipdoms()[bb];
        self.active.push(key);
        let nalloc = st.mem.allocs.len();
        let mut ok: Vec<(bool, State<'tcx>)> = vec![];
        let mut fails: Vec<(bool, Fail)> = vec![];
        for side in [true, false] {
            let mut s2 = st.clone();
            self.add_fact(&mut s2, c, side);
            if !self.propagate(&mut s2) {
                fails.push((side, Fail::Bottom));
                continue;
            }
            if side {
                if let Some((t, _)) = then {
                    self.goto(&mut s2, t);
                }
            }
            match self.run(&mut s2, d, stop) {
                Ok(()) => ok.push((side, s2)),
                Err(Fail::Bottom) => fails.push((side, Fail::Bottom)),
                Err(Fail::Panic(m)) => fails.push((side, Fail::Panic(m))),
                // safe code cannot leave its allocations: such a path is not taken,
                // provided no known input satisfies its conditions
                Err(Fail::Unsupported(m)) if (m.starts_with("out-of-bounds access") || m.starts_with("dangling pointer")) && !self.satisfiable(&s2) => fails.push((side, Fail::Bottom)),
                Err(e) => {
                    self.active.pop();
                    return Err(e);
                }
            }
        }
        self.active.pop();
        for (side, e) in &fails {
            if let Fail::Panic(m) = e {
                if !ok.is_empty() {
                    let what = format!("{} if {}{}", m, if *side { "" } else { "not " }, self.dom.show_n(c, 5));
                    let at = self.may_panic_loc(m);
                    self.may_panic_at(st, c, *side, what, at);
                }
            }
        }
        match ok.len() {
            0 => {
                // prefer reporting the panic
                for (_, e) in fails {
                    if let Fail::Panic(_) = e {
                        return Err(e);
                    }
                }
                Err(Fail::Bottom)
            }
            1 => {
                let (_, s) = ok.pop().unwrap();
                *st = s;
                Ok(())
            }
            _ => {
                let (_, b) = ok.pop().unwrap();
                let (_, a) = ok.pop().unwrap();
                self.joins += 1;
                *st = self.join(c, a, b, nalloc)?;
                Ok(())
            }
        }
    }
    /// For a redraw loop: which value of the condition leaves the loop?
    fn loop_exit(&self, func: &Rc<Func<'tcx>>, bb: usize, then: Option<(usize, usize)>, _c: N) -> Option<bool> {
        let (t, _) = then?;
        let reach = |from: usize| -> bool {
            let mut seen = vec![false; func.blocks.len()];
            let mut st = vec![from];
            while let Some(b) = st.pop() {
                if b == bb {
                    return true;
                }
                if seen[b] {
                    continue;
                }
                seen[b] = true;
                st.extend(succs(&func.blocks[b].term));
            }
            false
        };
        let then_loops = reach(t);
        let others: Vec<usize> = succs(&func.blocks[bb].term).into_iter().filter(|x| *x != t).collect();
        let else_loops = others.iter().any(|x| reach(*x));
        match (then_loops, else_loops) {
            (true, false) => Some(false),
            (false, true) => Some(true),
            _ => None,
        }
    }

    fn join(&mut self, c: N, a: State<'tcx>, b: State<'tcx>, _nalloc: usize) -> R<State<'tcx>> {
        if a.frames.len() != b.frames.len() || a.sp != b.sp {
            return unsup("join of different frames");
        }
        let mut out = a.clone();
        if a.fed != b.fed {
            out.fed = usize::MAX;
        }
        out.facts = a.facts.iter().filter(|x| b.facts.contains(x)).copied().collect();
        let n = a.mem.allocs.len().max(b.mem.allocs.len());
        for i in 0..n {
            let x = a.mem.allocs.get(i).cloned().flatten();
            let y = b.mem.allocs.get(i).cloned().flatten();
            let r = match (x, y) {
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(&x, &y) { Some(x) } else { Some(Rc::new(self.join_alloc(c, &x, &y))) }
                }
                (x, y) => x.or(y),
            };
            if i < out.mem.allocs.len() {
                out.mem.allocs[i] = r;
            } else {
                out.mem.allocs.push(r);
            }
        }
        let keys: BTreeSet<u32> = a.mem.globals.keys().chain(b.mem.globals.keys()).copied().collect();
        for k in keys {
            let x = a.mem.get(&self.lo.pool, k)?.clone();
            let y = b.mem.get(&self.lo.pool, k)?.clone();
            let r = if Rc::ptr_eq(&x, &y) { x } else { Rc::new(self.join_alloc(c, &x, &y)) };
            out.mem.globals.insert(k, r);
        }
        Ok(out)
    }
    fn join_alloc(&mut self, c: N, a: &Alloc, b: &Alloc) -> Alloc {
        let n = a.bytes.len().max(b.bytes.len());
        let (mut a, mut b) = (a.clone(), b.clone());
        for x in [&mut a, &mut b] {
            x.bytes.resize(n, 0);
            x.tags.resize(n, 0);
        }
        let mut o = Alloc { bytes: a.bytes.clone(), tags: vec![0; n], ..Default::default() };
        let mut i = 0;
        while i < n {
            // fast path: equal raw stretch
            if a.tags[i] == 0 && b.tags[i] == 0 {
                if i % 8 == 0 && i + 8 <= n && a.tags[i..i + 8].iter().all(|t| *t == 0) && b.tags[i..i + 8].iter().all(|t| *t == 0) {
                    if a.bytes[i..i + 8] != b.bytes[i..i + 8] {
                        let x = u64::from_le_bytes(a.bytes[i..i + 8].try_into().unwrap()) as u128;
                        let y = u64::from_le_bytes(b.bytes[i..i + 8].try_into().unwrap()) as u128;
                        let s = self.dom.ite(c, S::K(x), S::K(y));
                        o.write_s(i, 8, s, &mut self.dom);
                    }
                    i += 8;
                    continue;
                }
                if a.bytes[i] != b.bytes[i] {
                    let s = self.dom.ite(c, S::K(a.bytes[i] as u128), S::K(b.bytes[i] as u128));
                    o.write_s(i, 1, s, &mut self.dom);
                }
                i += 1;
                continue;
            }
            let va = a.vals.get(&(i as u32)).copied().filter(|_| a.tags[i] == T_VAL);
            let vb = b.vals.get(&(i as u32)).copied().filter(|_| b.tags[i] == T_VAL);
            if va.is_some() || vb.is_some() {
                let sz = va.or(vb).unwrap().0 as usize;
                let f = self.dom.field_of(va.or(vb).unwrap().1);
                let get = |me: &mut Self, x: &Alloc, v: Option<(u32, V)>| -> Option<V> {
                    match v {
                        Some((s, v)) if s as usize == sz && me.dom.field_of(v) == f => Some(v),
                        Some(_) => None,
                        None if x.tags[i..i + sz].iter().all(|t| *t == 0) => {
                            let bs = x.bytes[i..i + sz].to_vec();
                            me.val_of_bytes(f, &bs).ok()
                        }
                        None => None,
                    }
                };
                let (x, y) = (get(self, &a, va), get(self, &b, vb));
                if let (Some(x), Some(y)) = (x, y) {
                    let v = self.dom.phi(c, x, y);
                    o.write_v(i, sz, v, &mut self.dom);
                    i += sz;
                    continue;
                }
            }
            // scalars: widest slot starting here on either side
            let na = a.nodes.get(&(i as u32)).map(|x| x.0 as usize).unwrap_or(0);
            let nb = b.nodes.get(&(i as u32)).map(|x| x.0 as usize).unwrap_or(0);
            let mut w = na.max(nb);
            if w == 0 {
                w = if i % 8 == 0 && i + 8 <= n { 8 } else { 1 };
            }
            if i + w > n {
                w = 1;
            }
            let x = a.read_s(i, w, &mut self.dom);
            let y = b.read_s(i, w, &mut self.dom);
            let s = self.dom.ite(c, x, y);
            o.write_s(i, w, s, &mut self.dom);
            i += w;
        }
        if o.tags.iter().all(|t| *t == 0) {
            o.tags.clear();
        }
        o
    }
}

pub enum NatRes {
    Done,
    Pushed,
    Fallback,
}
