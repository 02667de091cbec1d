//! Abstract domain for data values.
//!
//! A data value (field element, digest, opaque token) is an element of a
//! hash-consed value graph: a polynomial over atoms with coefficients in the
//! prime field of its type.  Atoms are analysis inputs, uninterpreted
//! applications, inverses, named sub-polynomials and control-flow joins (Phi).
//! Scalars (machine integers) are constants or nodes of a small expression
//! graph over data values.
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub type E = [u64; 4];
pub type V = u32;
pub type N = u32;

#[derive(Clone, Debug)]
pub struct FieldInfo {
    pub n: usize, // limbs; 0 for token kinds
    pub p: E,
    pub inv: u64,
    pub one: E,
    pub r2: E,
    pub size: usize, // bytes of the in-memory representation
    pub name: String,
}

pub fn ge(a: &E, b: &E) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
pub fn sub_raw(a: &E, b: &E) -> (E, bool) {
    let mut o = [0u64; 4];
    let mut br = 0u64;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(br);
        o[i] = x;
        br = (b1 | b2) as u64;
    }
    (o, br != 0)
}
pub fn add_raw(a: &E, b: &E) -> (E, bool) {
    let mut o = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let s = a[i] as u128 + b[i] as u128 + c;
        o[i] = s as u64;
        c = s >> 64;
    }
    (o, c != 0)
}
pub const ZERO: E = [0; 4];

impl FieldInfo {
    pub fn new(n: usize, p: E, size: usize, name: String) -> Self {
        let mut inv = 1u64;
        for _ in 0..63 {
            inv = inv.wrapping_mul(inv).wrapping_mul(p[0]);
        }
        inv = inv.wrapping_neg();
        let mut f = FieldInfo { n, p, inv, one: ZERO, r2: ZERO, size, name };
        // one = 2^(64n) mod p by doubling
        let mut x: E = [1, 0, 0, 0];
        if ge(&x, &p) {
            x = ZERO
        }
        for _ in 0..64 * n {
            x = f.add(&x, &x);
        }
        f.one = x;
        for _ in 0..64 * n {
            x = f.add(&x, &x);
        }
        f.r2 = x;
        f
    }
    pub fn token(size: usize, name: String) -> Self {
        FieldInfo { n: 0, p: ZERO, inv: 0, one: [1, 0, 0, 0], r2: ZERO, size, name }
    }
    pub fn add(&self, a: &E, b: &E) -> E {
        let (s, c) = add_raw(a, b);
        if c || ge(&s, &self.p) {
            sub_raw(&s, &self.p).0
        } else {
            s
        }
    }
    pub fn sub(&self, a: &E, b: &E) -> E {
        let (s, br) = sub_raw(a, b);
        if br {
            add_raw(&s, &self.p).0
        } else {
            s
        }
    }
    pub fn neg(&self, a: &E) -> E {
        self.sub(&ZERO, a)
    }
    pub fn mul(&self, a: &E, b: &E) -> E {
        let n = self.n;
        let mut t = [0u64; 6];
        for i in 0..n {
            let mut c = 0u128;
            for j in 0..n {
                let s = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
                t[j] = s as u64;
                c = s >> 64;
            }
            let s = t[n] as u128 + c;
            t[n] = s as u64;
            t[n + 1] = (s >> 64) as u64;
            let m = t[0].wrapping_mul(self.inv);
            let s = t[0] as u128 + m as u128 * self.p[0] as u128;
            let mut c = s >> 64;
            for j in 1..n {
                let s = t[j] as u128 + m as u128 * self.p[j] as u128 + c;
                t[j - 1] = s as u64;
                c = s >> 64;
            }
            let s = t[n] as u128 + c;
            t[n - 1] = s as u64;
            t[n] = t[n + 1] + (s >> 64) as u64;
            t[n + 1] = 0;
        }
        let mut o = ZERO;
        o[..n].copy_from_slice(&t[..n]);
        let over = t[n] != 0;
        if over || ge(&o, &self.p) {
            o = sub_raw(&o, &self.p).0;
            for k in n..4 {
                o[k] = 0;
            }
        }
        o
    }
    pub fn from_plain(&self, a: &E) -> E {
        self.mul(a, &self.r2)
    }
    pub fn to_plain(&self, a: &E) -> E {
        self.mul(a, &[1, 0, 0, 0])
    }
    pub fn from_u64(&self, a: u64) -> E {
        let mut x: E = [a, 0, 0, 0];
        while ge(&x, &self.p) {
            x = sub_raw(&x, &self.p).0;
            if self.n == 1 {
                x = [a % self.p[0], 0, 0, 0];
            }
        }
        self.from_plain(&x)
    }
    pub fn from_u128(&self, a: u128) -> E {
        let lo = self.from_u64(a as u64);
        let mut hi = self.from_u64((a >> 64) as u64);
        for _ in 0..64 {
            hi = self.add(&hi, &hi);
        }
        self.add(&lo, &hi)
    }
    pub fn from_be_bytes(&self, b: &[u8]) -> E {
        let k256 = self.from_u64(256);
        let mut acc = ZERO;
        for x in b {
            acc = self.mul(&acc, &k256);
            acc = self.add(&acc, &self.from_u64(*x as u64));
        }
        acc
    }
    pub fn pow(&self, a: &E, e: &[u64]) -> E {
        let mut r = self.one;
        for i in (0..e.len() * 64).rev() {
            r = self.mul(&r, &r);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inverse(&self, a: &E) -> Option<E> {
        if *a == ZERO {
            return None;
        }
        let (e, _) = sub_raw(&self.p, &[2, 0, 0, 0]);
        Some(self.pow(a, &e))
    }
    pub fn hex(&self, a: &E) -> String {
        let x = if self.n == 0 { *a } else { self.to_plain(a) };
        format!("{:016x}{:016x}{:016x}{:016x}", x[3], x[2], x[1], x[0])
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Atom {
    Base { field: u16, name: Rc<str>, random: bool },
    Named(V),
    Inv(V),
    Uf { field: u16, f: Rc<str>, ints: Vec<S>, args: Vec<V> },
    Phi { field: u16, cond: N, t: V, e: V },
    Pow { base: V, exp: Vec<u64> },
    Conv { field: u16, s: N },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum S {
    K(u128),
    N(N),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bop {
    Add, Sub, Mul, Div, Rem, Xor, And, Or, Shl, Shr, Eq, Ne, Lt, Le, Gt, Ge,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    IsZero(V),
    CmpV(V, V), // canonical-integer ordering as i8
    Limb(V, u8), // limb of the canonical representation
    MontLimb(V, u8),
    Input { name: Rc<str>, lo: u128, hi: u128, random: bool },
    Opaque(u32),
    Not(u8, N),
    Neg(u8, N),
    Bin(Bop, u8, bool, S, S), // size in bytes, signed
    Ite(N, S, S),
    Extract(N, u8, u8), // byte shift, size
    Sext(N, u8, u8),    // from size, to size
    Uf(Rc<str>, Vec<S>, Vec<V>, u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Poly {
    pub field: u16,
    pub terms: Box<[(u32, E)]>,
}

pub struct Dom {
    pub fields: Vec<FieldInfo>,
    pub polys: Vec<Rc<Poly>>,
    poly_ix: HashMap<Rc<Poly>, V>,
    pub atoms: Vec<Atom>,
    atom_ix: HashMap<Atom, u32>,
    pub monos: Vec<Rc<[(u32, u32)]>>,
    mono_ix: HashMap<Rc<[(u32, u32)]>, u32>,
    mono_mul: HashMap<(u32, u32), u32>,
    pub nodes: Vec<Node>,
    node_ix: HashMap<Node, N>,
    pub opaque: u32,
    sup: HashMap<V, Rc<HashSet<u32>>>,
    named: HashMap<V, V>,
}

pub struct Point {
    pub seed: u64,
    pub over: HashMap<u32, E>,
    memo: HashMap<V, E>,
    amemo: HashMap<u32, E>,
    nmemo: HashMap<N, u128>,
    pub ints: Vec<(N, u128)>,
    pub bad: bool,
}
impl Point {
    pub fn new(seed: u64) -> Self {
        Point { seed, over: HashMap::new(), memo: HashMap::new(), amemo: HashMap::new(), nmemo: HashMap::new(), ints: vec![], bad: false }
    }
    pub fn set_n(&mut self, n: N, k: u128) {
        self.nmemo.insert(n, k);
        self.ints.push((n, k));
    }
    /// Hypothesis: v = 0.
    pub fn force(&mut self, v: V) {
        self.memo.insert(v, ZERO);
    }
    pub fn with(&self, over: HashMap<u32, E>) -> Self {
        let mut p = Point::new(self.seed);
        p.over = over;
        p
    }
}

/// Coefficients (low first, no leading zero) of the polynomial of degree at
/// most `deg` through the points, if all points agree with it.
pub fn interpolate(f: &FieldInfo, xs: &[E], ys: &[E], deg: usize) -> Option<Vec<E>> {
    // Newton's divided differences
    let n = xs.len();
    let mut c = ys.to_vec();
    for k in 1..n {
        for i in (k..n).rev() {
            let num = f.sub(&c[i], &c[i - 1]);
            let den = f.sub(&xs[i], &xs[i - k]);
            c[i] = f.mul(&num, &f.inverse(&den)?);
        }
    }
    if c[deg + 1..].iter().any(|x| *x != ZERO) {
        return None;
    }
    let mut r = vec![ZERO; n];
    for i in (0..n).rev() {
        // r = r * (x - xs[i]) + c[i]
        for j in (0..n).rev() {
            let lo = if j > 0 { r[j - 1] } else { ZERO };
            r[j] = f.sub(&lo, &f.mul(&r[j], &xs[i]));
        }
        r[0] = f.add(&r[0], &c[i]);
    }
    trim(&mut r);
    Some(r)
}
fn trim(p: &mut Vec<E>) {
    while p.last() == Some(&ZERO) {
        p.pop();
    }
}
fn prem(f: &FieldInfo, a: &[E], m: &[E]) -> Vec<E> {
    let mut r = a.to_vec();
    trim(&mut r);
    let li = f.inverse(m.last().unwrap()).unwrap();
    while r.len() >= m.len() {
        let q = f.mul(r.last().unwrap(), &li);
        let s = r.len() - m.len();
        for i in 0..m.len() {
            let t = f.mul(&q, &m[i]);
            r[s + i] = f.sub(&r[s + i], &t);
        }
        trim(&mut r);
    }
    r
}
fn pgcd(f: &FieldInfo, a: &[E], b: &[E]) -> Vec<E> {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    trim(&mut a);
    trim(&mut b);
    while !b.is_empty() {
        let r = prem(f, &a, &b);
        a = b;
        b = r;
    }
    a
}
fn pmulmod(f: &FieldInfo, a: &[E], b: &[E], m: &[E]) -> Vec<E> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            let t = f.mul(x, y);
            r[i + j] = f.add(&r[i + j], &t);
        }
    }
    prem(f, &r, m)
}
fn ppow(f: &FieldInfo, b: &[E], e: &E, m: &[E]) -> Vec<E> {
    let mut r = prem(f, &[f.one], m);
    for i in (0..256).rev() {
        r = pmulmod(f, &r, &r, m);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = pmulmod(f, &r, b, m);
        }
    }
    r
}
/// Roots in the field of a polynomial (at most eight).
pub fn roots(f: &FieldInfo, c: &[E]) -> Vec<E> {
    let mut out = vec![];
    if c.len() < 2 {
        return out;
    }
    let mut xp = ppow(f, &[ZERO, f.one], &f.p, c);
    xp.resize(xp.len().max(2), ZERO);
    xp[1] = f.sub(&xp[1], &f.one);
    let g = if c.len() == 2 { c.to_vec() } else { pgcd(f, c, &xp) };
    let (mut h, _) = sub_raw(&f.p, &[1, 0, 0, 0]);
    for i in 0..4 {
        h[i] = h[i] >> 1 | if i < 3 { h[i + 1] << 63 } else { 0 };
    }
    let mut st = vec![g];
    let mut delta = f.one;
    let mut tries = 0;
    while let Some(g) = st.pop() {
        if g.len() < 2 || tries > 60 || out.len() >= 8 {
            continue;
        }
        if g.len() == 2 {
            out.push(f.neg(&f.mul(&g[0], &f.inverse(&g[1]).unwrap())));
            continue;
        }
        tries += 1;
        delta = f.add(&f.mul(&delta, &delta), &f.one);
        let mut w = ppow(f, &[delta, f.one], &h, &g);
        w.resize(w.len().max(1), ZERO);
        w[0] = f.sub(&w[0], &f.one);
        let a = pgcd(f, &g, &w);
        if a.len() < 2 || a.len() == g.len() {
            st.push(g);
            continue;
        }
        // the cofactor
        let mut q = vec![ZERO; g.len() - a.len() + 1];
        let mut r = g.clone();
        let li = f.inverse(a.last().unwrap()).unwrap();
        while r.len() >= a.len() {
            let k = f.mul(r.last().unwrap(), &li);
            let s = r.len() - a.len();
            q[s] = k;
            for i in 0..a.len() {
                let t = f.mul(&k, &a[i]);
                r[s + i] = f.sub(&r[s + i], &t);
            }
            trim(&mut r);
        }
        st.push(a);
        st.push(q);
    }
    out
}

fn mix(mut h: u64) -> u64 {
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
    h ^ (h >> 33)
}
fn hash_words(seed: u64, w: &[u64]) -> E {
    let mut o = ZERO;
    for k in 0..4u64 {
        let mut h = mix(seed ^ (k + 1).wrapping_mul(0x9e3779b97f4a7c15));
        for x in w {
            h = mix(h.rotate_left(23) ^ *x).wrapping_add(0x2545f4914f6cdd1d);
        }
        o[k as usize] = mix(h);
    }
    o
}

pub fn mask(sz: u8) -> u128 {
    if sz >= 16 { u128::MAX } else { (1u128 << (8 * sz as u32)) - 1 }
}
pub fn sext(x: u128, sz: u8) -> i128 {
    if sz >= 16 { x as i128 } else { let sh = 128 - 8 * sz as u32; ((x << sh) as i128) >> sh }
}

impl Dom {
    pub fn new() -> Self {
        let mut d = Dom {
            fields: vec![],
            polys: vec![],
            poly_ix: HashMap::new(),
            atoms: vec![],
            atom_ix: HashMap::new(),
            monos: vec![],
            mono_ix: HashMap::new(),
            mono_mul: HashMap::new(),
            nodes: vec![],
            node_ix: HashMap::new(),
            opaque: 0,
            sup: HashMap::new(),
            named: HashMap::new(),
        };
        d.mono(&[]);
        d.polys.push(Rc::new(Poly { field: u16::MAX, terms: Box::new([]) })); // id 0 unused
        d
    }
    pub fn reset(&mut self) {
        let f = std::mem::take(&mut self.fields);
        *self = Dom::new();
        self.fields = f;
    }
    fn mono(&mut self, m: &[(u32, u32)]) -> u32 {
        if let Some(i) = self.mono_ix.get(m) {
            return *i;
        }
        let r: Rc<[(u32, u32)]> = m.into();
        let i = self.monos.len() as u32;
        self.monos.push(r.clone());
        self.mono_ix.insert(r, i);
        i
    }
    fn mmul(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 { return b; }
        if b == 0 { return a; }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.mono_mul.get(&key) {
            return *r;
        }
        let (x, y) = (self.monos[a as usize].clone(), self.monos[b as usize].clone());
        let mut o = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i].0 < y[j].0) {
                o.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j].0 < x[i].0 {
                o.push(y[j]);
                j += 1;
            } else {
                o.push((x[i].0, x[i].1 + y[j].1));
                i += 1;
                j += 1;
            }
        }
        let r = self.mono(&o);
        self.mono_mul.insert(key, r);
        r
    }
    pub fn intern(&mut self, field: u16, terms: Vec<(u32, E)>) -> V {
        let p = Poly { field, terms: terms.into_boxed_slice() };
        if let Some(v) = self.poly_ix.get(&p) {
            return *v;
        }
        let r = Rc::new(p);
        let v = self.polys.len() as V;
        self.polys.push(r.clone());
        self.poly_ix.insert(r, v);
        v
    }
    pub fn konst(&mut self, field: u16, c: E) -> V {
        if c == ZERO {
            self.intern(field, vec![])
        } else {
            self.intern(field, vec![(0, c)])
        }
    }
    pub fn as_const(&self, v: V) -> Option<E> {
        let p = &self.polys[v as usize];
        if self.fields[p.field as usize].n == 0 { return None; }
        match p.terms.len() {
            0 => Some(ZERO),
            1 if p.terms[0].0 == 0 => Some(p.terms[0].1),
            _ => None,
        }
    }
    pub fn field_of(&self, v: V) -> u16 {
        self.polys[v as usize].field
    }
    pub fn atom_field(&self, a: u32) -> u16 {
        match &self.atoms[a as usize] {
            Atom::Base { field, .. } | Atom::Uf { field, .. } | Atom::Phi { field, .. } | Atom::Conv { field, .. } => *field,
            Atom::Named(v) | Atom::Inv(v) | Atom::Pow { base: v, .. } => self.field_of(*v),
        }
    }
    pub fn atom(&mut self, a: Atom) -> u32 {
        if let Some(i) = self.atom_ix.get(&a) {
            return *i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(a.clone());
        self.atom_ix.insert(a, i);
        i
    }
    pub fn atom_v(&mut self, a: Atom) -> V {
        let i = self.atom(a);
        let f = self.atom_field(i);
        let m = self.mono(&[(i, 1)]);
        let one = self.fields[f as usize].one;
        self.intern(f, vec![(m, one)])
    }
    pub fn node(&mut self, n: Node) -> N {
        if let Some(i) = self.node_ix.get(&n) {
            return *i;
        }
        let i = self.nodes.len() as N;
        self.nodes.push(n.clone());
        self.node_ix.insert(n, i);
        i
    }
    pub fn fresh_opaque(&mut self) -> N {
        self.opaque += 1;
        let k = self.opaque;
        self.node(Node::Opaque(k))
    }
    pub fn add(&mut self, a: V, b: V, sub: bool) -> V {
        let (pa, pb) = (self.polys[a as usize].clone(), self.polys[b as usize].clone());
        let f = &self.fields[pa.field as usize];
        let mut o = Vec::with_capacity(pa.terms.len() + pb.terms.len());
        let (mut i, mut j) = (0, 0);
        while i < pa.terms.len() || j < pb.terms.len() {
            if j >= pb.terms.len() || (i < pa.terms.len() && pa.terms[i].0 < pb.terms[j].0) {
                o.push(pa.terms[i]);
                i += 1;
            } else if i >= pa.terms.len() || pb.terms[j].0 < pa.terms[i].0 {
                let c = pb.terms[j].1;
                o.push((pb.terms[j].0, if sub { f.neg(&c) } else { c }));
                j += 1;
            } else {
                let c = if sub { f.sub(&pa.terms[i].1, &pb.terms[j].1) } else { f.add(&pa.terms[i].1, &pb.terms[j].1) };
                if c != ZERO {
                    o.push((pa.terms[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        self.intern(pa.field, o)
    }
    pub fn scale(&mut self, a: V, c: &E) -> V {
        let pa = self.polys[a as usize].clone();
        if *c == ZERO {
            return self.intern(pa.field, vec![]);
        }
        let f = &self.fields[pa.field as usize];
        let o = pa.terms.iter().map(|(m, x)| (*m, f.mul(x, c))).collect();
        self.intern(pa.field, o)
    }
    /// Name a polynomial: returns coefficient and atom value with v = c * atom.
    fn name(&mut self, v: V) -> V {
        let p = self.polys[v as usize].clone();
        if p.terms.len() <= 1 {
            return v;
        }
        if let Some(x) = self.named.get(&v) {
            return *x;
        }
        let f = &self.fields[p.field as usize];
        let lead = p.terms[p.terms.len() - 1].1;
        let inv = f.inverse(&lead).unwrap();
        let monic = self.scale(v, &inv);
        let a = self.atom_v(Atom::Named(monic));
        let r = self.scale(a, &lead);
        self.named.insert(v, r);
        r
    }
    pub fn mul(&mut self, a: V, b: V) -> V {
        if let Some(c) = self.as_const(a) {
            return self.scale(b, &c);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(a, &c);
        }
        let (na, nb) = (self.polys[a as usize].terms.len(), self.polys[b as usize].terms.len());
        // sums are named before they are multiplied, so that products of the
        // same sums get the same number however they are associated; only a
        // short sum times a single term is expanded
        let (x, y) = (a, b);
        let a = if na > 1 && (na > 4 || nb > 1 || self.named.contains_key(&x)) { self.name(x) } else { x };
        let b = if nb > 1 && (nb > 4 || na > 1 || self.named.contains_key(&y)) { self.name(y) } else { y };
        let (pa, pb) = (self.polys[a as usize].clone(), self.polys[b as usize].clone());
        let mut acc: HashMap<u32, E> = HashMap::new();
        for (m, c) in pa.terms.iter() {
            for (k, d) in pb.terms.iter() {
                let mk = self.mmul(*m, *k);
                let f = &self.fields[pa.field as usize];
                let x = f.mul(c, d);
                let e = acc.entry(mk).or_insert(ZERO);
                *e = f.add(e, &x);
            }
        }
        let mut o: Vec<(u32, E)> = acc.into_iter().filter(|(_, c)| *c != ZERO).collect();
        o.sort_by_key(|t| t.0);
        self.intern(pa.field, o)
    }
    pub fn pow(&mut self, a: V, e: &[u64]) -> V {
        let top = e.iter().rposition(|x| *x != 0);
        match top {
            None => {
                let f = self.field_of(a);
                let one = self.fields[f as usize].one;
                self.konst(f, one)
            }
            Some(0) if e[0] <= 64 => {
                let mut r: Option<V> = None;
                for i in (0..7).rev() {
                    if let Some(x) = r {
                        r = Some(self.mul(x, x));
                    }
                    if e[0] >> i & 1 == 1 {
                        r = Some(match r {
                            None => a,
                            Some(x) => self.mul(x, a),
                        });
                    }
                }
                r.unwrap()
            }
            _ => {
                let f = self.field_of(a);
                let fi = self.fields[f as usize].clone();
                if let Some(c) = self.as_const(a) {
                    let r = fi.pow(&c, e);
                    return self.konst(f, r);
                }
                let (pm2, _) = sub_raw(&fi.p, &[2, 0, 0, 0]);
                let mut ee = e.to_vec();
                ee.resize(4, 0);
                if ee[..] == pm2[..] {
                    return self.inv(a);
                }
                self.atom_v(Atom::Pow { base: a, exp: e[..=top.unwrap()].to_vec() })
            }
        }
    }
    pub fn inv(&mut self, a: V) -> V {
        let p = self.polys[a as usize].clone();
        let f = self.fields[p.field as usize].clone();
        if let Some(c) = self.as_const(a) {
            let r = f.inverse(&c).unwrap_or(ZERO);
            return self.konst(p.field, r);
        }
        let lead = p.terms[p.terms.len() - 1].1;
        let li = f.inverse(&lead).unwrap();
        let monic = self.scale(a, &li);
        let x = self.atom_v(Atom::Inv(monic));
        self.scale(x, &li)
    }

    // ---- scalar nodes -------------------------------------------------
    pub fn bin(&mut self, op: Bop, sz: u8, signed: bool, a: S, b: S) -> S {
        if let (S::K(x), S::K(y)) = (a, b) {
            if let Some(r) = bin_k(op, sz, signed, x, y) {
                return S::K(r);
            }
        }
        // identities that keep decided conditions decided
        match (op, a, b) {
            (Bop::And, S::K(0), _) | (Bop::And, _, S::K(0)) => return S::K(0),
            (Bop::And, x, S::K(k)) | (Bop::And, S::K(k), x) if k == mask(sz) => return x,
            (Bop::Or, x, S::K(0)) | (Bop::Or, S::K(0), x) => return x,
            (Bop::Or, _, S::K(k)) | (Bop::Or, S::K(k), _) if k == mask(sz) => return S::K(k),
            (Bop::Xor, x, S::K(0)) | (Bop::Xor, S::K(0), x) => return x,
            (Bop::Add, x, S::K(0)) | (Bop::Add, S::K(0), x) | (Bop::Sub, x, S::K(0)) => return x,
            (Bop::Mul, _, S::K(0)) | (Bop::Mul, S::K(0), _) => return S::K(0),
            (Bop::Shl | Bop::Shr, x, S::K(0)) => return x,
            _ => {}
        }
        // unsigned remainder / division by powers of two
        if let (false, S::K(k)) = (signed, b) {
            if k.is_power_of_two() {
                match op {
                    Bop::Rem => return self.bin(Bop::And, sz, false, a, S::K(k - 1)),
                    Bop::Div => return self.bin(Bop::Shr, sz, false, a, S::K(k.trailing_zeros() as u128)),
                    _ => {}
                }
            }
        }
        if a == b {
            match op {
                Bop::Eq | Bop::Le | Bop::Ge => return S::K(1),
                Bop::Ne | Bop::Lt | Bop::Gt => return S::K(0),
                Bop::Sub | Bop::Xor => return S::K(0),
                Bop::And | Bop::Or => return a,
                _ => {}
            }
        }
        if let (Some((al, ah)), Some((bl, bh))) = (self.range(a), self.range(b)) {
            if !signed || (ah <= mask(sz) >> 1 && bh <= mask(sz) >> 1) {
                let r = match op {
                    Bop::Lt if ah < bl => Some(1),
                    Bop::Lt if al >= bh => Some(0),
                    Bop::Le if ah <= bl => Some(1),
                    Bop::Le if al > bh => Some(0),
                    Bop::Gt if al > bh => Some(1),
                    Bop::Gt if ah <= bl => Some(0),
                    Bop::Ge if al >= bh => Some(1),
                    Bop::Ge if ah < bl => Some(0),
                    Bop::Eq if ah < bl || bh < al => Some(0),
                    Bop::Ne if ah < bl || bh < al => Some(1),
                    _ => None,
                };
                if let Some(r) = r {
                    return S::K(r);
                }
            } else if signed {
                // mixed-sign with a constant on the right
                let sa = (sext(al, sz), sext(ah, sz));
                let sb = (sext(bl, sz), sext(bh, sz));
                if sa.0 <= sa.1 && sb.0 <= sb.1 {
                    let r = match op {
                        Bop::Lt if sa.1 < sb.0 => Some(1),
                        Bop::Lt if sa.0 >= sb.1 => Some(0),
                        Bop::Le if sa.1 <= sb.0 => Some(1),
                        Bop::Le if sa.0 > sb.1 => Some(0),
                        Bop::Gt if sa.0 > sb.1 => Some(1),
                        Bop::Gt if sa.1 <= sb.0 => Some(0),
                        Bop::Ge if sa.0 >= sb.1 => Some(1),
                        Bop::Ge if sa.1 < sb.0 => Some(0),
                        _ => None,
                    };
                    if let Some(r) = r {
                        return S::K(r);
                    }
                }
            }
        }
        // boolean comparisons with constants
        if let (Bop::Eq | Bop::Ne, S::N(n), S::K(k)) = (op, a, b) {
            if let Some(r) = self.bool_cmp(n, k, op == Bop::Ne) {
                return r;
            }
        }
        if let (Bop::Eq | Bop::Ne, S::K(k), S::N(n)) = (op, a, b) {
            if let Some(r) = self.bool_cmp(n, k, op == Bop::Ne) {
                return r;
            }
        }
        // push operators into Ite with constant leaves
        for (x, y, left) in [(a, b, true), (b, a, false)] {
            if let (S::N(n), S::K(_)) = (x, y) {
                if let Node::Ite(c, t, e) = self.nodes[n as usize].clone() {
                    let (t2, e2) = if left {
                        (self.bin(op, sz, signed, t, y), self.bin(op, sz, signed, e, y))
                    } else {
                        (self.bin(op, sz, signed, y, t), self.bin(op, sz, signed, y, e))
                    };
                    return self.ite(c, t2, e2);
                }
            }
        }
        if let (S::N(n), S::N(m)) = (a, b) {
            if let (Node::Ite(c, t, e), Node::Ite(c2, t2, e2)) = (self.nodes[n as usize].clone(), self.nodes[m as usize].clone()) {
                if c == c2 {
                    let (t, e) = (self.bin(op, sz, signed, t, t2), self.bin(op, sz, signed, e, e2));
                    return self.ite(c, t, e);
                }
                let (mut l1, mut l2) = (0, 0);
                if self.const_leaves(a, &mut l1) && self.const_leaves(b, &mut l2) && l1 * l2 <= 64 {
                    let (t, e) = (self.bin(op, sz, signed, t, b), self.bin(op, sz, signed, e, b));
                    return self.ite(c, t, e);
                }
            }
        }
        // commutative operators: constants on the right, older node on the left
        let (a, b) = match (op, a, b) {
            (Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor | Bop::Eq | Bop::Ne, S::K(_), S::N(_)) => (b, a),
            (Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor | Bop::Eq | Bop::Ne, S::N(x), S::N(y)) if y < x => (b, a),
            _ => (a, b),
        };
        let (op, a, b) = match (op, a, b) {
            (Bop::Lt, S::K(_), S::N(_)) => (Bop::Gt, b, a),
            (Bop::Le, S::K(_), S::N(_)) => (Bop::Ge, b, a),
            (Bop::Gt, S::K(_), S::N(_)) => (Bop::Lt, b, a),
            (Bop::Ge, S::K(_), S::N(_)) => (Bop::Le, b, a),
            _ => (op, a, b),
        };
        S::N(self.node(Node::Bin(op, sz, signed, a, b)))
    }
    /// Only constants at the leaves; counts them.
    fn const_leaves(&self, s: S, k: &mut usize) -> bool {
        match s {
            S::K(_) => {
                *k += 1;
                *k <= 16
            }
            S::N(n) => match self.nodes[n as usize] {
                Node::Ite(_, a, b) => self.const_leaves(a, k) && self.const_leaves(b, k),
                _ => false,
            },
        }
    }
    fn bool_cmp(&mut self, n: N, k: u128, ne: bool) -> Option<S> {
        if !self.is_bool(n) {
            return None;
        }
        let pos = match k {
            0 => ne,
            1 => !ne,
            _ => return Some(S::K(ne as u128)),
        };
        Some(if pos { S::N(n) } else { self.not_bool(S::N(n)) })
    }
    pub fn is_bool(&self, n: N) -> bool {
        match &self.nodes[n as usize] {
            Node::IsZero(_) => true,
            Node::Bin(Bop::Eq | Bop::Ne | Bop::Lt | Bop::Le | Bop::Gt | Bop::Ge, ..) => true,
            Node::Bin(Bop::And | Bop::Or | Bop::Xor, _, _, a, b) => {
                let f = |s: &S| match s {
                    S::K(k) => *k <= 1,
                    S::N(n) => self.is_bool(*n),
                };
                f(a) && f(b)
            }
            Node::Ite(_, a, b) => {
                let f = |s: &S| match s {
                    S::K(k) => *k <= 1,
                    S::N(n) => self.is_bool(*n),
                };
                f(a) && f(b)
            }
            Node::Input { hi, .. } => *hi <= 1,
            _ => false,
        }
    }
    pub fn not_bool(&mut self, s: S) -> S {
        match s {
            S::K(k) => S::K((k == 0) as u128),
            S::N(n) => match self.nodes[n as usize].clone() {
                Node::Bin(Bop::Xor, 1, false, x, S::K(1)) => x,
                Node::Ite(c, a, b) if matches!((a, b), (S::K(_), S::K(_))) => {
                    let (a, b) = (self.not_bool(a), self.not_bool(b));
                    self.ite(c, a, b)
                }
                _ => S::N(self.node(Node::Bin(Bop::Xor, 1, false, s, S::K(1)))),
            },
        }
    }
    /// s simplified under the hypothesis that c has value `side`.
    fn under(&mut self, s: S, c: N, side: bool, left: u8) -> S {
        let S::N(n) = s else { return s };
        if n == c && self.is_bool(n) {
            return S::K(side as u128);
        }
        if left == 0 {
            return s;
        }
        match self.nodes[n as usize] {
            Node::Ite(c2, x, y) if c2 == c => self.under(if side { x } else { y }, c, side, left - 1),
            Node::Ite(c2, x, y) => {
                let (x2, y2) = (self.under(x, c, side, left - 1), self.under(y, c, side, left - 1));
                match self.under(S::N(c2), c, side, left - 1) {
                    S::K(k) => if k != 0 { x2 } else { y2 },
                    S::N(c3) => if (c3, x2, y2) == (c2, x, y) { s } else { self.ite(c3, x2, y2) },
                }
            }
            Node::Bin(Bop::Xor, 1, false, x, S::K(1)) => {
                let x2 = self.under(x, c, side, left - 1);
                if x2 == x { s } else { self.not_bool(x2) }
            }
            _ => s,
        }
    }
    pub fn ite(&mut self, c: N, a: S, b: S) -> S {
        if a == b {
            return a;
        }
        // facts of the branch itself
        let a = if a == S::N(c) { S::K(1) } else { a };
        let b = if b == S::N(c) { S::K(0) } else { b };
        let nc = self.node_ix.get(&Node::Bin(Bop::Xor, 1, false, S::N(c), S::K(1))).copied();
        let (a, b) = match nc {
            Some(n) => (if a == S::N(n) { S::K(0) } else { a }, if b == S::N(n) { S::K(1) } else { b }),
            None => (a, b),
        };
        let a = self.under(a, c, true, 5);
        let b = self.under(b, c, false, 5);
        if a == b {
            return a;
        }
        if a == S::K(1) && b == S::K(0) {
            return S::N(c);
        }
        if a == S::K(0) && b == S::K(1) {
            return self.not_bool(S::N(c));
        }
        S::N(self.node(Node::Ite(c, a, b)))
    }
    pub fn range(&self, s: S) -> Option<(u128, u128)> {
        self.range_at(s, 6)
    }
    fn range_at(&self, s: S, left: u8) -> Option<(u128, u128)> {
        if left == 0 {
            return if let S::K(k) = s { Some((k, k)) } else { None };
        }
        let left = left - 1;
        match s {
            S::K(k) => Some((k, k)),
            S::N(n) => match &self.nodes[n as usize] {
                Node::Input { lo, hi, .. } => Some((*lo, *hi)),
                Node::Extract(m, 0, sz) => {
                    let r = self.range_at(S::N(*m), left)?;
                    if r.1 <= mask(*sz) { Some(r) } else { Some((0, mask(*sz))) }
                }
                Node::Sext(m, a, _) => {
                    let r = self.range_at(S::N(*m), left)?;
                    if r.1 <= mask(*a) >> 1 { Some(r) } else { None }
                }
                Node::Bin(Bop::And, _, _, _, S::K(k)) => Some((0, *k)),
                Node::Bin(Bop::Shr, _, false, x, S::K(k)) => {
                    let r = self.range_at(*x, left)?;
                    Some((r.0 >> k, r.1 >> k))
                }
                Node::Uf(f, ..) if &**f == "hexdigit" => Some((0, 15)),
                Node::Bin(op @ (Bop::Add | Bop::Mul), sz, false, a, b) => {
                    let ((la, ha), (lb, hb)) = (self.range_at(*a, left)?, self.range_at(*b, left)?);
                    let (lo, hi) = if *op == Bop::Add { (la.checked_add(lb)?, ha.checked_add(hb)?) } else { (la.checked_mul(lb)?, ha.checked_mul(hb)?) };
                    if hi <= mask(*sz) { Some((lo, hi)) } else { None }
                }
                Node::Bin(Bop::Rem, _, false, _, S::K(k)) if *k > 0 => Some((0, *k - 1)),
                Node::Ite(_, a, b) => {
                    let ((la, ha), (lb, hb)) = (self.range_at(*a, left)?, self.range_at(*b, left)?);
                    Some((la.min(lb), ha.max(hb)))
                }
                _ if self.is_bool(n) => Some((0, 1)),
                _ => None,
            },
        }
    }
    pub fn extract(&mut self, s: S, shift: u8, sz: u8) -> S {
        match s {
            S::K(k) => S::K((k >> (8 * shift as u32)) & mask(sz)),
            S::N(n) => {
                if shift == 0 {
                    if let Some((_, hi)) = self.range(s) {
                        if hi <= mask(sz) {
                            return s; // width is carried by the reader
                        }
                    }
                }
                if let Node::Ite(c, a, b) = self.nodes[n as usize].clone() {
                    let (a, b) = (self.extract(a, shift, sz), self.extract(b, shift, sz));
                    return self.ite(c, a, b);
                }
                if let Node::Extract(m, sh0, _) = self.nodes[n as usize] {
                    return S::N(self.node(Node::Extract(m, sh0 + shift, sz)));
                }
                S::N(self.node(Node::Extract(n, shift, sz)))
            }
        }
    }
    pub fn zext(&mut self, s: S, _from: u8) -> S {
        s // nodes carry no width; readers truncate
    }
    /// Join of two data values under a condition (true: a).
    pub fn phi(&mut self, c: N, a: V, b: V) -> V {
        if a == b {
            return a;
        }
        let f = self.field_of(a);
        // strip nested joins on the same condition
        let a = self.phi_pick(a, c, true);
        let b = self.phi_pick(b, c, false);
        if a == b {
            return a;
        }
        if self.fields[f as usize].n > 0 {
            // equal under the branch condition?
            let (e, zero_side) = match self.nodes[c as usize].clone() {
                Node::IsZero(e) => (Some(e), true),
                Node::Bin(Bop::Xor, 1, _, S::N(m), S::K(1)) => match self.nodes[m as usize] {
                    Node::IsZero(e) => (Some(e), false),
                    _ => (None, true),
                },
                _ => (None, true),
            };
            if let Some(e) = e {
                if self.field_of(e) == f {
                    let d = self.add(a, b, true);
                    if self.divides(e, d) {
                        return if zero_side { b } else { a };
                    }
                }
            }
        }
        self.atom_v(Atom::Phi { field: f, cond: c, t: a, e: b })
    }
    fn phi_pick(&self, v: V, c: N, side: bool) -> V {
        let p = &self.polys[v as usize];
        if p.terms.len() == 1 {
            let m = &self.monos[p.terms[0].0 as usize];
            if m.len() == 1 && m[0].1 == 1 && p.terms[0].1 == self.fields[p.field as usize].one {
                if let Atom::Phi { cond, t, e, .. } = self.atoms[m[0].0 as usize] {
                    if cond == c {
                        return if side { t } else { e };
                    }
                }
            }
        }
        v
    }
    /// e = 0 implies d = 0, by simple divisibility.
    fn divides(&mut self, e: V, d: V) -> bool {
        let pe = self.polys[e as usize].clone();
        let pd = self.polys[d as usize].clone();
        if pd.terms.is_empty() {
            return true;
        }
        if pe.terms.len() == pd.terms.len() && !pe.terms.is_empty() {
            let f = self.fields[pe.field as usize].clone();
            if let Some(i) = f.inverse(&pe.terms[0].1) {
                let k = f.mul(&pd.terms[0].1, &i);
                if self.scale(e, &k) == d {
                    return true;
                }
            }
        }
        let key: u32 = if pe.terms.len() == 1 {
            let m = self.monos[pe.terms[0].0 as usize].clone();
            if m.len() != 1 {
                return false;
            }
            m[0].0
        } else {
            match self.atom_ix.get(&Atom::Named(e)) {
                Some(a) => *a,
                None => return false,
            }
        };
        pd.terms.iter().all(|(m, _)| self.monos[*m as usize].iter().any(|(a, _)| *a == key))
    }
    pub fn sext_s(&mut self, s: S, from: u8, to: u8) -> S {
        match s {
            S::K(k) => S::K(sext(k, from) as u128 & mask(to)),
            S::N(n) => {
                if let Some((_, hi)) = self.range(s) {
                    if hi <= mask(from) >> 1 {
                        return s;
                    }
                }
                if let Node::Ite(c, a, b) = self.nodes[n as usize].clone() {
                    let (a, b) = (self.sext_s(a, from, to), self.sext_s(b, from, to));
                    return self.ite(c, a, b);
                }
                S::N(self.node(Node::Sext(n, from, to)))
            }
        }
    }
    pub fn is_zero(&mut self, v: V) -> S {
        if let Some(c) = self.as_const(v) {
            return S::K((c == ZERO) as u128);
        }
        // push into a join
        let p = self.polys[v as usize].clone();
        let f = self.fields[p.field as usize].clone();
        if p.terms.len() == 1 {
            let m = self.monos[p.terms[0].0 as usize].clone();
            if m.len() == 1 {
                if let Atom::Phi { cond, t, e, .. } = self.atoms[m[0].0 as usize] {
                    let (x, y) = (self.is_zero(t), self.is_zero(e));
                    return self.ite(cond, x, y);
                }
                if let Atom::Inv(_) = self.atoms[m[0].0 as usize] {
                    return S::K(0);
                }
            }
        }
        // normalise sign/scale: monic
        if f.n == 0 {
            return S::N(self.node(Node::IsZero(v)));
        }
        let lead = p.terms[p.terms.len() - 1].1;
        let li = f.inverse(&lead).unwrap();
        let m = self.scale(v, &li);
        // a power of a single atom vanishes iff the atom does
        let q = self.polys[m as usize].clone();
        if q.terms.len() == 1 {
            let mono = self.monos[q.terms[0].0 as usize].clone();
            if mono.len() == 1 && mono[0].1 > 1 {
                let mm = self.mono(&[(mono[0].0, 1)]);
                let one = f.one;
                let b = self.intern(p.field, vec![(mm, one)]);
                return S::N(self.node(Node::IsZero(b)));
            }
        }
        S::N(self.node(Node::IsZero(m)))
    }

    // ---- evaluation at a point of the value graph (identity testing) ---
    pub fn eval_atom(&self, a: u32, pt: &mut Point) -> E {
        if let Some(x) = pt.over.get(&a) {
            return *x;
        }
        if let Some(x) = pt.amemo.get(&a) {
            return *x;
        }
        let fi = self.atom_field(a);
        let f = &self.fields[fi as usize];
        let red = |w: E| -> E { if f.n == 0 { w } else { let mut x = w; for k in f.n..4 { x[k] = 0; } 
            // reduce a uniform word below 2^(64n)
            let one = [1u64,0,0,0];
            let m = f.mul(&reduce(&x, f), &one); m } };
        let r = match &self.atoms[a as usize] {
            Atom::Base { name, .. } => {
                let mut w = vec![];
                for b in name.bytes() {
                    w.push(b as u64);
                }
                red(hash_words(pt.seed, &w))
            }
            Atom::Named(v) => self.eval(*v, pt),
            Atom::Inv(v) => {
                let x = self.eval(*v, pt);
                match f.inverse(&x) {
                    Some(y) => y,
                    None => {
                        pt.bad = true;
                        ZERO
                    }
                }
            }
            Atom::Pow { base, exp } => {
                let x = self.eval(*base, pt);
                f.pow(&x, exp)
            }
            Atom::Uf { f: name, ints, args, .. } => {
                let mut w = vec![0x5f5f, args.len() as u64, ints.len() as u64];
                for b in name.bytes() {
                    w.push(b as u64);
                }
                for i in ints {
                    let k = self.eval_s(*i, pt);
                    w.push(k as u64);
                    w.push((k >> 64) as u64);
                }
                for v in args {
                    let x = self.eval(*v, pt);
                    w.extend_from_slice(&x);
                }
                red(hash_words(7, &w))
            }
            Atom::Phi { cond, t, e, .. } => {
                if self.eval_n(*cond, pt) != 0 {
                    self.eval(*t, pt)
                } else {
                    self.eval(*e, pt)
                }
            }
            Atom::Conv { s, .. } => {
                let k = self.eval_n(*s, pt);
                f.from_u128(k)
            }
        };
        pt.amemo.insert(a, r);
        r
    }
    pub fn eval(&self, v: V, pt: &mut Point) -> E {
        if let Some(x) = pt.memo.get(&v) {
            return *x;
        }
        // iterative dependency order to avoid deep recursion
        let mut stack = vec![v];
        while let Some(&top) = stack.last() {
            if pt.memo.contains_key(&top) {
                stack.pop();
                continue;
            }
            let mut ready = true;
            let p = self.polys[top as usize].clone();
            for (m, _) in p.terms.iter() {
                for (a, _) in self.monos[*m as usize].iter() {
                    if pt.over.contains_key(a) || pt.amemo.contains_key(a) {
                        continue;
                    }
                    let deps: Vec<V> = match &self.atoms[*a as usize] {
                        Atom::Named(x) | Atom::Inv(x) | Atom::Pow { base: x, .. } => vec![*x],
                        Atom::Uf { args, .. } => args.clone(),
                        Atom::Phi { t, e, .. } => vec![*t, *e],
                        _ => vec![],
                    };
                    for d in deps {
                        if !pt.memo.contains_key(&d) {
                            stack.push(d);
                            ready = false;
                        }
                    }
                }
            }
            if !ready {
                continue;
            }
            let f = &self.fields[p.field as usize];
            let mut acc = ZERO;
            for (m, c) in p.terms.iter() {
                if f.n == 0 {
                    let mono = self.monos[*m as usize].clone();
                    if mono.len() == 1 {
                        acc = self.eval_atom(mono[0].0, pt);
                    }
                    continue;
                }
                let mut x = *c;
                let mono = self.monos[*m as usize].clone();
                for (a, e) in mono.iter() {
                    let b = self.eval_atom(*a, pt);
                    let y = f.pow(&b, &[*e as u64]);
                    x = f.mul(&x, &y);
                }
                acc = f.add(&acc, &x);
            }
            pt.memo.insert(top, acc);
            stack.pop();
        }
        pt.memo[&v]
    }
    pub fn eval_s(&self, s: S, pt: &mut Point) -> u128 {
        match s {
            S::K(k) => k,
            S::N(n) => self.eval_n(n, pt),
        }
    }
    pub fn eval_n(&self, n: N, pt: &mut Point) -> u128 {
        if let Some(x) = pt.nmemo.get(&n) {
            return *x;
        }
        let r = match self.nodes[n as usize].clone() {
            Node::IsZero(v) => (self.eval(v, pt) == ZERO) as u128,
            Node::CmpV(a, b) => {
                let f = &self.fields[self.field_of(a) as usize];
                let (x, y) = (self.eval(a, pt), self.eval(b, pt));
                let (x, y) = (f.to_plain(&x), f.to_plain(&y));
                if x == y { 0 } else if ge(&x, &y) { 1 } else { 0xff }
            }
            Node::Limb(v, i) => {
                let f = &self.fields[self.field_of(v) as usize];
                let x = self.eval(v, pt);
                if f.n == 0 { x[(i & 3) as usize] as u128 } else { f.to_plain(&x)[(i & 3) as usize] as u128 }
            }
            Node::MontLimb(v, i) => self.eval(v, pt)[(i & 3) as usize] as u128,
            Node::Input { name, lo, hi, .. } => {
                let mut w = vec![77];
                for b in name.bytes() {
                    w.push(b as u64);
                }
                let h = hash_words(pt.seed, &w);
                let x = h[0] as u128 | (h[1] as u128) << 64;
                if name.starts_with("hex:") {
                    let r = b"0123456789abcdefABCDEF"[(x % 22) as usize] as u128;
                    pt.nmemo.insert(n, r);
                    return r;
                }
                let span = hi.wrapping_sub(lo).wrapping_add(1);
                lo + if span == 0 { x } else { x % span }
            }
            Node::Opaque(k) => {
                pt.bad = true;
                hash_words(pt.seed, &[99, k as u64])[0] as u128
            }
            Node::Not(sz, m) => !self.eval_n(m, pt) & mask(sz),
            Node::Neg(sz, m) => self.eval_n(m, pt).wrapping_neg() & mask(sz),
            Node::Bin(op, sz, sg, a, b) => {
                let (x, y) = (self.eval_s(a, pt), self.eval_s(b, pt));
                bin_k(op, sz, sg, x, y).unwrap_or(0)
            }
            Node::Ite(c, a, b) => {
                if self.eval_n(c, pt) != 0 { self.eval_s(a, pt) } else { self.eval_s(b, pt) }
            }
            Node::Extract(m, sh, sz) => (self.eval_n(m, pt) >> (8 * sh as u32)) & mask(sz),
            Node::Sext(m, a, b) => sext(self.eval_n(m, pt), a) as u128 & mask(b),
            Node::Uf(name, ss, _, _) if &*name == "hexdigit" => (self.eval_s(ss[0], pt) as u8 as char).to_digit(16).unwrap_or(0) as u128,
            Node::Uf(name, ss, vs, sz) => {
                let mut w = vec![0x77];
                for b in name.bytes() {
                    w.push(b as u64);
                }
                for s in ss {
                    let k = self.eval_s(s, pt);
                    w.push(k as u64);
                    w.push((k >> 64) as u64);
                }
                for v in vs {
                    w.extend_from_slice(&self.eval(v, pt));
                }
                let h = hash_words(11, &w);
                (h[0] as u128 | (h[1] as u128) << 64) & mask(sz)
            }
        };
        pt.nmemo.insert(n, r);
        r
    }

    // ---- support ---------------------------------------------------------
    pub fn support(&mut self, v: V) -> Rc<HashSet<u32>> {
        if let Some(s) = self.sup.get(&v) {
            return s.clone();
        }
        let mut seen = HashSet::new();
        let mut seen_n = HashSet::new();
        let mut out = HashSet::new();
        let mut st = vec![v];
        let mut ns: Vec<N> = vec![];
        self.sup_walk(&mut st, &mut ns, &mut seen, &mut seen_n, &mut out);
        let r = Rc::new(out);
        self.sup.insert(v, r.clone());
        r
    }
    pub fn support_n(&mut self, n: N) -> HashSet<u32> {
        let mut out = HashSet::new();
        self.sup_walk(&mut vec![], &mut vec![n], &mut HashSet::new(), &mut HashSet::new(), &mut out);
        out
    }
    fn sup_walk(&self, st: &mut Vec<V>, ns: &mut Vec<N>, seen: &mut HashSet<V>, seen_n: &mut HashSet<N>, out: &mut HashSet<u32>) {
        loop {
            if let Some(v) = st.pop() {
                if !seen.insert(v) {
                    continue;
                }
                for (m, _) in self.polys[v as usize].terms.iter() {
                    for (a, _) in self.monos[*m as usize].iter() {
                        match &self.atoms[*a as usize] {
                            Atom::Base { .. } => {
                                out.insert(*a);
                            }
                            Atom::Named(x) | Atom::Inv(x) | Atom::Pow { base: x, .. } => st.push(*x),
                            Atom::Uf { args, ints, .. } => {
                                st.extend(args.iter().copied());
                                for i in ints {
                                    if let S::N(n) = i {
                                        ns.push(*n);
                                    }
                                }
                            }
                            Atom::Phi { t, e, cond, .. } => {
                                st.push(*t);
                                st.push(*e);
                                ns.push(*cond);
                            }
                            Atom::Conv { s, .. } => ns.push(*s),
                        }
                    }
                }
            } else if let Some(n) = ns.pop() {
                if !seen_n.insert(n) {
                    continue;
                }
                let mut ps = |s: &S, ns: &mut Vec<N>| {
                    if let S::N(m) = s {
                        ns.push(*m)
                    }
                };
                match &self.nodes[n as usize] {
                    Node::IsZero(v) | Node::Limb(v, _) | Node::MontLimb(v, _) => st.push(*v),
                    Node::CmpV(a, b) => {
                        st.push(*a);
                        st.push(*b);
                    }
                    Node::Not(_, m) | Node::Neg(_, m) | Node::Extract(m, ..) | Node::Sext(m, ..) => ns.push(*m),
                    Node::Bin(_, _, _, a, b) => {
                        ps(a, ns);
                        ps(b, ns);
                    }
                    Node::Ite(c, a, b) => {
                        ns.push(*c);
                        ps(a, ns);
                        ps(b, ns);
                    }
                    Node::Uf(_, ss, vs, _) => {
                        for s in ss {
                            ps(s, ns)
                        }
                        st.extend(vs.iter().copied());
                    }
                    Node::Input { .. } | Node::Opaque(_) => {}
                }
            } else {
                break;
            }
        }
    }
    /// Scalar inputs (by name) a node depends on.
    pub fn inputs_n(&self, n: N, out: &mut HashSet<String>) {
        let mut st: Vec<V> = vec![];
        let mut ns = vec![n];
        let mut seen = HashSet::new();
        let mut seen_n = HashSet::new();
        let mut o2 = HashSet::new();
        // generic walk, then collect Input names
        self.sup_walk(&mut st, &mut ns, &mut seen, &mut seen_n, &mut o2);
        for m in seen_n {
            if let Node::Input { name, .. } = &self.nodes[m as usize] {
                out.insert(name.to_string());
            }
            if let Node::Opaque(_) = &self.nodes[m as usize] {
                out.insert("opaque".into());
            }
        }
        for a in o2 {
            if let Atom::Base { name, .. } = &self.atoms[a as usize] {
                out.insert(name.to_string());
            }
        }
    }
    /// Phi conditions below a value.
    pub fn phi_conds(&self, v: V) -> Vec<N> {
        let mut st = vec![v];
        let mut ns = vec![];
        let mut seen = HashSet::new();
        let mut seen_n = HashSet::new();
        let mut o = HashSet::new();
        self.sup_walk(&mut st, &mut ns, &mut seen, &mut seen_n, &mut o);
        let mut out = vec![];
        for v in seen {
            for (m, _) in self.polys[v as usize].terms.iter() {
                for (a, _) in self.monos[*m as usize].iter() {
                    if let Atom::Phi { cond, .. } = &self.atoms[*a as usize] {
                        out.push(*cond);
                    }
                }
            }
        }
        for n in seen_n {
            if let Node::Ite(c, ..) = &self.nodes[n as usize] {
                out.push(*c);
            }
        }
        out.sort();
        out.dedup();
        out
    }
    pub fn show(&self, v: V, depth: usize) -> String {
        let p = &self.polys[v as usize];
        let f = &self.fields[p.field as usize];
        if p.terms.is_empty() {
            return "0".into();
        }
        let mut o = vec![];
        for (i, (m, c)) in p.terms.iter().enumerate() {
            if i >= 6 {
                o.push(format!("... ({} terms)", p.terms.len()));
                break;
            }
            let mut s = String::new();
            let mono = &self.monos[*m as usize];
            if f.n > 0 && (*c != f.one || mono.is_empty()) {
                let h = f.hex(c);
                let h = h.trim_start_matches('0');
                let neg = f.neg(c);
                let hn = f.hex(&neg);
                let hn = hn.trim_start_matches('0');
                if hn.len() < h.len() { s.push_str(&format!("-0x{}", hn)) } else { s.push_str(&format!("0x{}", if h.is_empty() { "0" } else { h })) }
            }
            for (a, e) in mono.iter() {
                if !s.is_empty() {
                    s.push('*');
                }
                s.push_str(&self.show_atom(*a, depth));
                if *e > 1 {
                    s.push_str(&format!("^{}", e));
                }
            }
            o.push(s);
        }
        o.join(" + ")
    }
    pub fn show_atom(&self, a: u32, depth: usize) -> String {
        match &self.atoms[a as usize] {
            Atom::Base { name, .. } => name.to_string(),
            _ if depth == 0 => format!("#{}", a),
            Atom::Named(v) => format!("({})", self.show(*v, depth - 1)),
            Atom::Inv(v) => format!("inv({})", self.show(*v, depth - 1)),
            Atom::Pow { base, exp } => format!("pow({},{:?})", self.show(*base, depth - 1), exp),
            Atom::Uf { f, ints, args, .. } => {
                let mut x: Vec<String> = ints.iter().map(|i| self.show_s(*i, depth - 1)).collect();
                x.extend(args.iter().map(|v| self.show(*v, depth - 1)));
                format!("{}({})", f, x.join(","))
            }
            Atom::Phi { cond, t, e, .. } => format!("phi[{}]({} | {})", self.show_n(*cond, depth - 1), self.show(*t, depth - 1), self.show(*e, depth - 1)),
            Atom::Conv { s, .. } => format!("int({})", self.show_n(*s, depth - 1)),
        }
    }
    pub fn show_s(&self, s: S, depth: usize) -> String {
        match s {
            S::K(k) => format!("{}", k),
            S::N(n) => self.show_n(n, depth),
        }
    }
    pub fn show_n(&self, n: N, depth: usize) -> String {
        if depth == 0 && !matches!(self.nodes[n as usize], Node::Input { .. }) {
            return format!("#{}", n);
        }
        let d = depth.saturating_sub(1);
        match &self.nodes[n as usize] {
            Node::IsZero(v) => format!("({} == 0)", self.show(*v, d)),
            Node::CmpV(a, b) => format!("cmp({},{})", self.show(*a, d), self.show(*b, d)),
            Node::Limb(v, i) | Node::MontLimb(v, i) => format!("limb{}({})", i, self.show(*v, d)),
            Node::Input { name, .. } => name.to_string(),
            Node::Opaque(k) => format!("opaque{}", k),
            Node::Not(_, m) => format!("!{}", self.show_n(*m, d)),
            Node::Neg(_, m) => format!("-{}", self.show_n(*m, d)),
            Node::Bin(op, _, _, a, b) => format!("({} {:?} {})", self.show_s(*a, d), op, self.show_s(*b, d)),
            Node::Ite(c, a, b) => format!("ite({},{},{})", self.show_n(*c, d), self.show_s(*a, d), self.show_s(*b, d)),
            Node::Extract(m, a, b) => format!("extract({},{},{})", self.show_n(*m, d), a, b),
            Node::Sext(m, _, _) => format!("sext({})", self.show_n(*m, d)),
            Node::Uf(f, ..) => format!("{}(..)", f),
        }
    }
}

fn reduce(x: &E, f: &FieldInfo) -> E {
    // x < 2^(64n): subtract p a bounded number of times is too slow for small
    // p, so multiply-reduce through Montgomery (result is x * R^-1 mod p, still uniform).
    let mut y = *x;
    if f.n == 1 {
        y[0] %= f.p[0];
        return y;
    }
    while ge(&y, &f.p) {
        y = sub_raw(&y, &f.p).0;
    }
    y
}

pub fn bin_k(op: Bop, sz: u8, signed: bool, x: u128, y: u128) -> Option<u128> {
    let m = mask(sz);
    let (sx, sy) = (sext(x, sz), sext(y, sz));
    Some(match op {
        Bop::Add => x.wrapping_add(y) & m,
        Bop::Sub => x.wrapping_sub(y) & m,
        Bop::Mul => x.wrapping_mul(y) & m,
        Bop::Div => {
            if y == 0 { return None; }
            if signed { sx.wrapping_div(sy) as u128 & m } else { x / y }
        }
        Bop::Rem => {
            if y == 0 { return None; }
            if signed { sx.wrapping_rem(sy) as u128 & m } else { x % y }
        }
        Bop::Xor => x ^ y,
        Bop::And => x & y,
        Bop::Or => x | y,
        Bop::Shl => {
            let k = (y % (8 * sz as u128)) as u32;
            (x << k) & m
        }
        Bop::Shr => {
            let k = (y % (8 * sz as u128)) as u32;
            if signed { (sx >> k) as u128 & m } else { x >> k }
        }
        Bop::Eq => (x == y) as u128,
        Bop::Ne => (x != y) as u128,
        Bop::Lt => (if signed { sx < sy } else { x < y }) as u128,
        Bop::Le => (if signed { sx <= sy } else { x <= y }) as u128,
        Bop::Gt => (if signed { sx > sy } else { x > y }) as u128,
        Bop::Ge => (if signed { sx >= sy } else { x >= y }) as u128,
    })
}
