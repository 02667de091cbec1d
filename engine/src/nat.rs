//! Transfer functions that are not derived from MIR: field arithmetic,
//! allocation, randomness, intrinsics and the analysis vocabulary (probe::vx).
use crate::dom::*;
use crate::exec::*;
use crate::lower::*;
use crate::mem::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub enum Nat {
    Fp(String),
    Vx(String),
    Heap(String),
    ThreadRng,
    Sample,
    Rng(String),
    Noop,
    FromHex,
}

fn peel<'tcx>(t: Ty<'tcx>) -> (Ty<'tcx>, bool) {
    match t.kind() {
        ty::Ref(_, x, _) => (*x, true),
        ty::RawPtr(x, _) => (*x, true),
        _ => (t, false),
    }
}

impl<'tcx> Interp<'tcx> {
    pub fn is_fp(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, _) => self.tcx.item_name(d.did()).as_str() == "Fp" && self.tcx.crate_name(d.did().krate).as_str() == "ark_ff",
            _ => false,
        }
    }
    pub fn find_trait(&self, name: &str, krate: &str) -> Option<DefId> {
        self.tcx.all_traits_including_private().find(|d| self.tcx.item_name(*d).as_str() == name && self.tcx.crate_name(d.krate).as_str() == krate)
    }
    /// Domain field for a data type; tokens for anything that is not ark_ff::Fp.
    pub fn field(&mut self, t: Ty<'tcx>) -> R<u16> {
        if let Some(f) = self.fields.get(&t) {
            return Ok(*f);
        }
        let size = self.lo.size(t)? as usize;
        let name = t.to_string();
        let fi = if self.is_fp(t) {
            let m = self.assoc_const_bytes(t, "PrimeField", "ark_ff", "MODULUS")?;
            let mut p = ZERO;
            let n = m.len() / 8;
            if n > 4 {
                return unsup("field wider than 4 limbs");
            }
            for i in 0..n {
                p[i] = u64::from_le_bytes(m[8 * i..8 * i + 8].try_into().unwrap());
            }
            FieldInfo::new(n, p, size, name)
        } else {
            FieldInfo::token(size, name)
        };
        let id = self.dom.fields.len() as u16;
        self.dom.fields.push(fi);
        self.fields.insert(t, id);
        Ok(id)
    }
    pub fn assoc_const_bytes(&mut self, t: Ty<'tcx>, tr: &str, krate: &str, name: &str) -> R<Vec<u8>> {
        let tcx = self.tcx;
        let td = self.find_trait(tr, krate).ok_or(Fail::Unsupported(format!("trait {}", tr)))?;
        let item = tcx.associated_items(td).in_definition_order().find(|i| i.opt_name().map_or(false, |n| n.as_str() == name)).ok_or(Fail::Unsupported(format!("const {}", name)))?;
        let args = tcx.mk_args(&[t.into()]);
        let uv = mir::UnevaluatedConst { def: item.def_id, args, promoted: None };
        let cty = tcx.type_of(item.def_id).instantiate(tcx, args).skip_norm_wip();
        let cty = tcx.normalize_erasing_regions(self.lo.env, ty::Unnormalized::new_wip(cty));
        let c = mir::Const::Unevaluated(uv, cty);
        let sz = self.lo.size(cty)? as usize;
        let o = self.lo.const_opnd(c, rustc_span::DUMMY_SP)?;
        Ok(match o {
            Opnd::K(k, _) => k.to_le_bytes()[..sz].to_vec(),
            Opnd::Global(a, s) => {
                let m = Mem::new();
                m.read_bytes(&self.lo.pool, a, s)?.unwrap()
            }
            _ => return unsup("const bytes"),
        })
    }
    /// (arg types, return type) of an instance.
    pub fn sig(&self, inst: Instance<'tcx>) -> R<(Vec<Ty<'tcx>>, Ty<'tcx>)> {
        let d = inst.def_id();
        let tcx = self.tcx;
        let s = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
        let s = tcx.instantiate_bound_regions_with_erased(s);
        let n = |t: Ty<'tcx>| tcx.normalize_erasing_regions(self.lo.env, ty::Unnormalized::new_wip(t));
        Ok((s.inputs().iter().map(|t| n(*t)).collect(), n(s.output())))
    }

    pub fn classify(&mut self, inst: Instance<'tcx>) -> Option<Nat> {
        let tcx = self.tcx;
        let d = match inst.def {
            InstanceKind::Item(d) => d,
            _ => return None,
        };
        if !matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
            return None;
        }
        let name = tcx.item_name(d).to_string();
        let krate = tcx.crate_name(d.krate).to_string();
        let path = tcx.def_path_str(d);
        if krate == "probe" && path.starts_with("vx::") {
            return Some(Nat::Vx(name));
        }
        if matches!(name.as_str(), "__rust_alloc" | "__rust_alloc_zeroed" | "__rust_dealloc" | "__rust_realloc" | "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable") {
            return Some(Nat::Heap(name));
        }
        if krate == "rand" && name == "thread_rng" {
            return Some(Nat::ThreadRng);
        }
        if name.starts_with("miri_promise_symbolic_alignment") {
            return Some(Nat::Heap(name));
        }
        if krate == "std" && matches!(name.as_str(), "_print" | "_eprint") {
            return Some(Nat::Noop);
        }
        if krate == "rand" || krate == "rand_core" || krate == "getrandom" {
            if let Some(tr) = tcx.trait_of_assoc(d).or_else(|| tcx.trait_impl_of_assoc(d).map(|i| tcx.impl_trait_ref(i).skip_binder().def_id)) {
                if tcx.item_name(tr).as_str() == "RngCore" {
                    let st = inst.args.types().next();
                    let me = self.sig(inst).ok().and_then(|s| s.0.first().map(|t| peel(*t).0));
                    if let Some(t) = me.or(st) {
                        let s = t.to_string();
                        if s.contains("ThreadRng") && !s.contains('&') || s.ends_with("OsRng") {
                            return Some(Nat::Rng(name));
                        }
                    }
                }
            }
        }
        if krate == "hex" && name == "from_hex" {
            if let Ok((_, r)) = self.sig(inst) {
                if r.to_string().contains("Vec<u8>") {
                    return Some(Nat::FromHex);
                }
            }
        }
        if krate == "ark_ff" || krate == "zkhash" || krate == "ark_std" {
            // field-level operations
            let imp = tcx.trait_impl_of_assoc(d);
            let tr = tcx.trait_of_assoc(d).or_else(|| imp.map(|i| tcx.impl_trait_ref(i).skip_binder().def_id));
            let trn = tr.map(|t| tcx.item_name(t).to_string()).unwrap_or_default();
            let (ins, out) = match self.sig(inst) {
                Ok(s) => s,
                Err(_) => return None,
            };
            if trn == "Distribution" && name == "sample" && self.is_fp(out) {
                return Some(Nat::Sample);
            }
            let fp0 = ins.first().map_or(false, |t| self.is_fp(peel(*t).0));
            let fpo = self.is_fp(out);
            let ok = match (trn.as_str(), name.as_str()) {
                ("FpConfig" | "MontConfig", "add_assign" | "sub_assign" | "mul_assign" | "double_in_place" | "neg_in_place" | "square_in_place" | "inverse" | "into_bigint") => fp0,
                ("Add", "add") | ("Sub", "sub") | ("Mul", "mul") | ("Neg", "neg") => fp0 && fpo,
                ("AddAssign", "add_assign") | ("SubAssign", "sub_assign") | ("MulAssign", "mul_assign") => fp0,
                ("Field", "double" | "double_in_place" | "square" | "square_in_place" | "neg_in_place" | "inverse") => fp0,
                ("Zero", "is_zero") | ("One", "is_one") | ("PartialEq", "eq" | "ne") | ("Ord", "cmp") | ("PartialOrd", "partial_cmp") => fp0,
                ("PrimeField", "into_bigint") => fp0,
                ("PrimeField", "from_be_bytes_mod_order" | "from_le_bytes_mod_order") => fpo,
                ("From", "from") => fpo && ins.len() == 1 && matches!(ins[0].kind(), ty::Uint(_) | ty::Bool),
                _ => false,
            };
            if ok {
                return Some(Nat::Fp(name));
            }
        }
        None
    }

    fn ptr_arg(&mut self, st: &State<'tcx>, a: (u64, usize)) -> R<u64> {
        Ok(self.rk(st, a.0, 8, "pointer")? as u64)
    }
    pub fn str_arg(&mut self, st: &State<'tcx>, a: (u64, usize)) -> R<String> {
        let p = self.rk(st, a.0, 8, "pointer")? as u64;
        let n = self.rk(st, a.0 + 8, 8, "length")? as usize;
        match st.mem.read_bytes(&self.lo.pool, p, n)? {
            Some(b) => Ok(String::from_utf8_lossy(&b).to_string()),
            None => unsup("symbolic string"),
        }
    }
    pub fn write_option(&mut self, st: &mut State<'tcx>, dst: u64, oty: Ty<'tcx>, tag: S) -> R<u64> {
        let lay = self.lo.layout(oty)?;
        let rustc_abi::Variants::Multiple { tag: t, tag_encoding: rustc_abi::TagEncoding::Direct, tag_field, .. } = &lay.variants else { return unsup("option layout") };
        let off = lay.fields.offset(tag_field.as_usize()).bytes();
        let sz = t.size(&self.tcx).bytes() as usize;
        self.wr(st, dst + off, sz, tag)?;
        let v = lay.for_variant(&self.lo.cx(), rustc_abi::VariantIdx::from_usize(1));
        Ok(dst + v.fields.offset(0).bytes())
    }

    pub fn native(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, nat: &Nat, args: &[(u64, usize)], dst: u64, dst_sz: usize, target: Option<usize>) -> R<NatRes> {
        match nat {
            Nat::Noop => {
                self.event(st, "io", self.tcx.def_path_str(inst.def_id()));
                Ok(NatRes::Done)
            }
            Nat::Heap(n) => {
                match n.as_str() {
                    "__rust_alloc" | "__rust_alloc_zeroed" => {
                        let sz = self.rk(st, args[0].0, 8, "length")? as usize;
                        if sz > 1 << 28 {
                            return unsup("huge allocation");
                        }
                        let a = st.mem.alloc(sz);
                        self.wr(st, dst, 8, S::K(a as u128))?;
                    }
                    "__rust_dealloc" => {
                        let p = self.ptr_arg(st, args[0])?;
                        let id = (p >> 32) as u32;
                        if id < GLOBAL_BASE && (id as usize) < st.mem.allocs.len() {
                            st.mem.allocs[id as usize] = None;
                        }
                    }
                    "__rust_realloc" => {
                        let p = self.ptr_arg(st, args[0])?;
                        let old = self.rk(st, args[1].0, 8, "length")? as usize;
                        let new = self.rk(st, args[3].0, 8, "length")? as usize;
                        if new > 1 << 28 {
                            return unsup("huge allocation");
                        }
                        let a = st.mem.alloc(new);
                        self.cp(st, a, p, old.min(new))?;
                        let id = (p >> 32) as usize;
                        if id < st.mem.allocs.len() {
                            st.mem.allocs[id] = None;
                        }
                        self.wr(st, dst, 8, S::K(a as u128))?;
                    }
                    _ => {}
                }
                Ok(NatRes::Done)
            }
            Nat::ThreadRng => {
                self.event(st, "rand", "thread_rng".into());
                let a = st.mem.alloc(4096);
                self.wr(st, a, 8, S::K(1 << 20))?;
                self.wr(st, a + 8, 8, S::K(1 << 20))?;
                self.wr(st, dst, 8, S::K(a as u128))?;
                Ok(NatRes::Done)
            }
            Nat::Rng(m) => {
                self.event(st, "rand", m.clone());
                match m.as_str() {
                    "next_u32" | "next_u64" => {
                        let sz = if m == "next_u32" { 4 } else { 8 };
                        let n = self.fresh_rand_node(sz);
                        self.wr(st, dst, sz as usize, S::N(n))?;
                        Ok(NatRes::Done)
                    }
                    "fill_bytes" | "try_fill_bytes" => {
                        let p = self.rk(st, args[1].0, 8, "pointer")? as u64;
                        let n = self.rk(st, args[1].0 + 8, 8, "length")? as u64;
                        for i in 0..n {
                            let r = self.fresh_rand_node(1);
                            self.wr(st, p + i, 1, S::N(r))?;
                        }
                        if dst_sz > 0 {
                            for i in 0..dst_sz {
                                self.wr(st, dst + i as u64, 1, S::K(0))?;
                            }
                        }
                        Ok(NatRes::Done)
                    }
                    _ => Ok(NatRes::Fallback),
                }
            }
            Nat::Sample => {
                let (_, out) = self.sig(inst)?;
                let f = self.field(out)?;
                let rng = inst.args.types().last().map(|t| t.to_string()).unwrap_or_default();
                let real = rng.contains("ThreadRng") || rng.contains("OsRng");
                self.event(st, "rand", format!("sample from {}", rng));
                if real && st.fed < self.feed.len() && self.feed[st.fed].0 == f {
                    let v = self.feed[st.fed].1;
                    st.fed += 1;
                    self.write_val(st, f, dst, v)?;
                    return Ok(NatRes::Done);
                }
                self.rand += 1;
                let nm = format!("{}#{}", if real { "rand" } else { "prng" }, self.rand);
                let v = self.dom.atom_v(Atom::Base { field: f, name: nm.as_str().into(), random: real });
                self.write_val(st, f, dst, v)?;
                Ok(NatRes::Done)
            }
            Nat::FromHex => {
                // argument: T: AsRef<[u8]>; only &str / &[u8] style fat pointers are handled
                if args[0].1 != 16 {
                    return Ok(NatRes::Fallback);
                }
                let p = self.rk(st, args[0].0, 8, "pointer")? as u64;
                let n = self.rk(st, args[0].0 + 8, 8, "length")? as usize;
                let mut dig = vec![];
                for i in 0..n {
                    let s = self.rd(st, p + i as u64, 1)?;
                    dig.push(match s {
                        S::K(k) if (k as u8).is_ascii_hexdigit() => S::K((k as u8 as char).to_digit(16).unwrap() as u128),
                        S::N(m) if matches!(&self.dom.nodes[m as usize], Node::Input { name, .. } if name.starts_with("hex:")) => S::N(self.dom.node(Node::Uf("hexdigit".into(), vec![s], vec![], 1))),
                        _ => return Ok(NatRes::Fallback),
                    });
                }
                if n % 2 == 1 {
                    return Ok(NatRes::Fallback);
                }
                let (_, out) = self.sig(inst)?;
                // Result<Vec<u8>, FromHexError>: build the Ok payload
                let ty::Adt(_, ga) = out.kind() else { return Ok(NatRes::Fallback) };
                let vty = ga.type_at(0);
                let lay = self.lo.layout(out)?;
                let v0 = lay.for_variant(&self.lo.cx(), rustc_abi::VariantIdx::from_usize(0));
                let off = v0.fields.offset(0).bytes();
                let mut bytes = vec![];
                for i in 0..n / 2 {
                    let h = self.dom.bin(Bop::Mul, 1, false, dig[2 * i], S::K(16));
                    bytes.push(self.dom.bin(Bop::Add, 1, false, h, dig[2 * i + 1]));
                }
                let (po, lo_, co) = self.vec_offs(vty)?;
                let data = if bytes.is_empty() { 1 } else {
                    let a = st.mem.alloc(bytes.len());
                    for (i, s) in bytes.iter().enumerate() {
                        self.wr(st, a + i as u64, 1, *s)?;
                    }
                    a
                };
                let base = dst + off;
                self.wr(st, base + po, 8, S::K(data as u128))?;
                self.wr(st, base + lo_, 8, S::K(bytes.len() as u128))?;
                self.wr(st, base + co, 8, S::K(bytes.len() as u128))?;
                if let Some(t) = self.lo.tag_write(out, rustc_abi::VariantIdx::from_usize(0))? {
                    self.wr(st, dst + t.off, t.sz as usize, S::K(t.val))?;
                }
                Ok(NatRes::Done)
            }
            Nat::Fp(m) => self.fp_op(st, inst, m, args, dst, dst_sz),
            Nat::Vx(m) => self.vx(st, inst, m, args, dst, dst_sz, target),
        }
    }
    pub fn fresh_rand_node(&mut self, sz: u8) -> N {
        self.rand += 1;
        self.dom.node(Node::Input { name: format!("rand#{}", self.rand).as_str().into(), lo: 0, hi: mask(sz), random: true })
    }
    /// Offsets of (pointer, len, cap) in a Vec.
    pub fn vec_offs(&mut self, vty: Ty<'tcx>) -> R<(u64, u64, u64)> {
        let mut ptr = None;
        let mut len = None;
        let mut cap = None;
        self.vec_walk(vty, 0, "", &mut ptr, &mut len, &mut cap)?;
        match (ptr, len, cap) {
            (Some(a), Some(b), Some(c)) => Ok((a, b, c)),
            _ => unsup("Vec layout"),
        }
    }
    fn vec_walk(&mut self, t: Ty<'tcx>, off: u64, name: &str, ptr: &mut Option<u64>, len: &mut Option<u64>, cap: &mut Option<u64>) -> R<()> {
        let lay = self.lo.layout(t)?;
        if lay.size.bytes() == 0 {
            return Ok(());
        }
        match name {
            "ptr" => { *ptr = Some(off); return Ok(()); }
            "len" => { *len = Some(off); return Ok(()); }
            "cap" => { *cap = Some(off); return Ok(()); }
            _ => {}
        }
        if let ty::Adt(d, a) = t.kind() {
            if d.is_struct() {
                for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                    let ft = self.tcx.normalize_erasing_regions(self.lo.env, f.ty(self.tcx, a));
                    let nm = f.name.to_string();
                    self.vec_walk(ft, off + lay.fields.offset(i).bytes(), &nm, ptr, len, cap)?;
                }
            }
        }
        Ok(())
    }

    fn fp_op(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, m: &str, args: &[(u64, usize)], dst: u64, dst_sz: usize) -> R<NatRes> {
        let (ins, out) = self.sig(inst)?;
        // addresses of the field operands
        let mut ops: Vec<(u16, u64)> = vec![];
        for (i, t) in ins.iter().enumerate() {
            let (x, by_ref) = peel(*t);
            if self.is_fp(x) {
                let f = self.field(x)?;
                let a = if by_ref { self.ptr_arg(st, args[i])? } else { args[i].0 };
                ops.push((f, a));
            }
        }
        let ret_self = |me: &mut Self, st: &mut State<'tcx>, a: u64| -> R<()> {
            if dst_sz == 8 && peel(out).1 {
                me.wr(st, dst, 8, S::K(a as u128))?;
            }
            Ok(())
        };
        macro_rules! v {
            ($i:expr) => {
                self.read_val(st, ops[$i].0, ops[$i].1)?
            };
        }
        match m {
            "add" | "sub" | "mul" | "add_assign" | "sub_assign" | "mul_assign" => {
                if ops.len() != 2 || ops[0].0 != ops[1].0 {
                    return Ok(NatRes::Fallback);
                }
                let (a, b) = (v!(0), v!(1));
                let r = match &m[..3] {
                    "add" => self.dom.add(a, b, false),
                    "sub" => self.dom.add(a, b, true),
                    _ => self.dom.mul(a, b),
                };
                let d = if m.len() > 3 { ops[0].1 } else { dst };
                self.write_val(st, ops[0].0, d, r)?;
                Ok(NatRes::Done)
            }
            "neg" | "neg_in_place" | "double" | "double_in_place" | "square" | "square_in_place" => {
                let a = v!(0);
                let f = ops[0].0;
                let r = if m.starts_with("neg") {
                    let z = self.dom.konst(f, ZERO);
                    self.dom.add(z, a, true)
                } else if m.starts_with("double") {
                    self.dom.add(a, a, false)
                } else {
                    self.dom.mul(a, a)
                };
                if m.ends_with("in_place") {
                    self.write_val(st, f, ops[0].1, r)?;
                    ret_self(self, st, ops[0].1)?;
                } else {
                    self.write_val(st, f, dst, r)?;
                }
                Ok(NatRes::Done)
            }
            "inverse" => {
                let a = v!(0);
                let f = ops[0].0;
                let z = self.dom.is_zero(a);
                let z = match self.decide(st, z) {
                    Some(b) => S::K(b as u128),
                    None => z,
                };
                let tag = self.dom.not_bool(z);
                let p = self.write_option(st, dst, out, tag)?;
                if z != S::K(1) {
                    let r = self.dom.inv(a);
                    self.write_val(st, f, p, r)?;
                }
                Ok(NatRes::Done)
            }
            "is_zero" | "is_one" => {
                let a = v!(0);
                let x = if m == "is_one" {
                    let one = self.dom.fields[ops[0].0 as usize].one;
                    let o = self.dom.konst(ops[0].0, one);
                    self.dom.add(a, o, true)
                } else {
                    a
                };
                let r = self.dom.is_zero(x);
                self.wr(st, dst, 1, r)?;
                Ok(NatRes::Done)
            }
            "eq" | "ne" => {
                if ops.len() != 2 || ops[0].0 != ops[1].0 {
                    return Ok(NatRes::Fallback);
                }
                let (a, b) = (v!(0), v!(1));
                let d = self.dom.add(a, b, true);
                let mut r = self.dom.is_zero(d);
                if m == "ne" {
                    r = self.dom.not_bool(r);
                }
                self.wr(st, dst, 1, r)?;
                Ok(NatRes::Done)
            }
            "cmp" | "partial_cmp" => {
                if ops.len() != 2 || dst_sz != 1 {
                    return Ok(NatRes::Fallback);
                }
                let (a, b) = (v!(0), v!(1));
                let f = self.dom.fields[ops[0].0 as usize].clone();
                let r = if a == b {
                    S::K(0)
                } else if let (Some(x), Some(y)) = (self.dom.as_const(a), self.dom.as_const(b)) {
                    let (x, y) = (f.to_plain(&x), f.to_plain(&y));
                    S::K(if ge(&x, &y) { 1 } else { 0xff })
                } else {
                    S::N(self.dom.node(Node::CmpV(a, b)))
                };
                self.wr(st, dst, 1, r)?;
                Ok(NatRes::Done)
            }
            "into_bigint" => {
                let a = v!(0);
                let f = self.dom.fields[ops[0].0 as usize].clone();
                let c = self.dom.as_const(a).map(|c| f.to_plain(&c));
                for i in 0..f.n {
                    let s = match c {
                        Some(c) => S::K(c[i] as u128),
                        None => S::N(self.dom.node(Node::Limb(a, i as u8))),
                    };
                    self.wr(st, dst + 8 * i as u64, 8, s)?;
                }
                Ok(NatRes::Done)
            }
            "from_be_bytes_mod_order" | "from_le_bytes_mod_order" => {
                let f = self.field(out)?;
                let p = self.rk(st, args[0].0, 8, "pointer")? as u64;
                let n = self.rk(st, args[0].0 + 8, 8, "length")? as usize;
                let be = m.starts_with("from_be");
                let v = match st.mem.read_bytes(&self.lo.pool, p, n)? {
                    Some(mut b) => {
                        if !be {
                            b.reverse();
                        }
                        let e = self.dom.fields[f as usize].from_be_bytes(&b);
                        self.dom.konst(f, e)
                    }
                    None => {
                        let mut ints = vec![];
                        for i in 0..n {
                            ints.push(self.rd(st, p + i as u64, 1)?);
                        }
                        if !be {
                            ints.reverse();
                        }
                        // sum of byte * 256^k
                        let fi = self.dom.fields[f as usize].clone();
                        let k256 = fi.from_u64(256);
                        let mut acc = self.dom.konst(f, ZERO);
                        for s in ints {
                            acc = self.dom.scale(acc, &k256);
                            let t = self.conv(f, s);
                            acc = self.dom.add(acc, t, false);
                        }
                        acc
                    }
                };
                self.write_val(st, f, dst, v)?;
                Ok(NatRes::Done)
            }
            "from" => {
                let f = self.field(out)?;
                let s = self.rd(st, args[0].0, args[0].1)?;
                let v = match s {
                    S::K(k) => {
                        let e = self.dom.fields[f as usize].from_u128(k);
                        self.dom.konst(f, e)
                    }
                    S::N(n) => {
                        if let Node::Ite(c, S::K(a), S::K(b)) = self.dom.nodes[n as usize] {
                            let fi = self.dom.fields[f as usize].clone();
                            let (x, y) = (self.dom.konst(f, fi.from_u128(a)), self.dom.konst(f, fi.from_u128(b)));
                            self.dom.phi(c, x, y)
                        } else if self.dom.is_bool(n) {
                            let fi = self.dom.fields[f as usize].clone();
                            let (x, y) = (self.dom.konst(f, fi.one), self.dom.konst(f, ZERO));
                            self.dom.phi(n, x, y)
                        } else {
                            self.conv(f, s)
                        }
                    }
                };
                self.write_val(st, f, dst, v)?;
                Ok(NatRes::Done)
            }
            _ => Ok(NatRes::Fallback),
        }
    }

    /// Field element of an integer; sums and constant multiples that cannot overflow are pulled apart.
    fn conv(&mut self, f: u16, s: S) -> V {
        let fi = self.dom.fields[f as usize].clone();
        match s {
            S::K(k) => {
                let e = fi.from_u128(k);
                self.dom.konst(f, e)
            }
            S::N(n) => {
                if let Node::Bin(op, sz, false, a, b) = self.dom.nodes[n as usize] {
                    if let (Some((_, ha)), Some((_, hb))) = (self.dom.range(a), self.dom.range(b)) {
                        match op {
                            Bop::Add if ha.checked_add(hb).map_or(false, |x| x <= mask(sz)) => {
                                let (x, y) = (self.conv(f, a), self.conv(f, b));
                                return self.dom.add(x, y, false);
                            }
                            Bop::Mul if ha.checked_mul(hb).map_or(false, |x| x <= mask(sz)) => {
                                let (x, y) = (self.conv(f, a), self.conv(f, b));
                                return self.dom.mul(x, y);
                            }
                            Bop::Shl if hb < 64 && ha < 1 << 60 && ha.checked_shl(hb as u32).map_or(false, |x| x <= mask(sz)) => {
                                if let S::K(k) = b {
                                    let x = self.conv(f, a);
                                    let c = fi.from_u128(1u128 << k);
                                    return self.dom.scale(x, &c);
                                }
                            }
                            Bop::Or => {
                                // disjoint bits: x << k | y with y < 2^k
                                for (p, q, hq) in [(a, b, hb), (b, a, ha)] {
                                    if let S::N(m) = p {
                                        let low = match self.dom.nodes[m as usize] {
                                            Node::Bin(Bop::Shl, _, _, _, S::K(k)) if k < 64 => 1u128 << k,
                                            Node::Bin(Bop::Mul, _, _, _, S::K(k)) if k.is_power_of_two() => k,
                                            _ => 0,
                                        };
                                        if hq < low {
                                            let (x, y) = (self.conv(f, p), self.conv(f, q));
                                            return self.dom.add(x, y, false);
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                self.dom.atom_v(Atom::Conv { field: f, s: n })
            }
        }
    }
    // ---- analysis vocabulary --------------------------------------------------
    fn vx(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, m: &str, args: &[(u64, usize)], dst: u64, _dst_sz: usize, target: Option<usize>) -> R<NatRes> {
        match m {
            // sym<T>(name, i, j) -> T
            "sym" => {
                let t = inst.args.type_at(0);
                let f = self.field(t)?;
                let nm = self.str_arg(st, args[0])?;
                let i = self.rk(st, args[1].0, 8, "index")?;
                let j = self.rk(st, args[2].0, 8, "index")?;
                let name = format!("{}[{}][{}]", nm, i, j);
                let v = self.dom.atom_v(Atom::Base { field: f, name: name.as_str().into(), random: false });
                self.write_val(st, f, dst, v)?;
            }
            // reference table entry
            "given" => {
                let t = inst.args.type_at(0);
                let f = self.field(t)?;
                let nm = self.str_arg(st, args[0])?;
                let i = self.rk(st, args[1].0, 8, "index")? as u64;
                let j = self.rk(st, args[2].0, 8, "index")? as u64;
                let Some(b) = self.given.get(&(nm.clone(), i, j)) else { return unsup(format!("no reference value {}[{}][{}]", nm, i, j)) };
                let e = self.dom.fields[f as usize].from_be_bytes(b);
                let v = self.dom.konst(f, e);
                self.write_val(st, f, dst, v)?;
            }
            "int" => {
                let nm = self.str_arg(st, args[0])?;
                let lo = self.rk(st, args[1].0, 8, "index")?;
                let hi = self.rk(st, args[2].0, 8, "index")?;
                let n = self.dom.node(Node::Input { name: nm.as_str().into(), lo, hi, random: false });
                let s = if lo == hi { S::K(lo) } else { S::N(n) };
                self.wr(st, dst, 8, s)?;
            }
            "byte" => {
                let nm = self.str_arg(st, args[0])?;
                let i = self.rk(st, args[1].0, 8, "index")?;
                let n = self.dom.node(Node::Input { name: format!("{}[{}]", nm, i).as_str().into(), lo: 0, hi: 255, random: false });
                self.wr(st, dst, 1, S::N(n))?;
            }
            // a hexadecimal digit character and its value
            "hexchar" => {
                let i = self.rk(st, args[0].0, 8, "index")?;
                let n = self.dom.node(Node::Input { name: format!("hex:c[{}]", i).as_str().into(), lo: 48, hi: 102, random: false });
                self.wr(st, dst, 1, S::N(n))?;
            }
            "hexval" => {
                let s = self.rd(st, args[0].0, 1)?;
                let n = self.dom.node(Node::Uf("hexdigit".into(), vec![s], vec![], 1));
                let n = if let S::K(k) = s { S::K((k as u8 as char).to_digit(16).unwrap_or(0) as u128) } else { S::N(n) };
                self.wr(st, dst, 8, n)?;
            }
            // eq<T>(label, i, a, b)
            "eq" => {
                let t = inst.args.type_at(0);
                let f = self.field(t)?;
                let label = self.str_arg(st, args[0])?;
                let i = self.rk(st, args[1].0, 8, "index")?;
                let (pa, pb) = (self.ptr_arg(st, args[2])?, self.ptr_arg(st, args[3])?);
                let (a, b) = (self.read_val(st, f, pa)?, self.read_val(st, f, pb)?);
                let (verdict, detail) = self.check_eq(st, a, b);
                let loc = self.where_(st);
                self.obl.push(Obl { label: format!("{}[{}]", label, i), loc, verdict, detail });
            }
            "ok" => {
                let label = self.str_arg(st, args[0])?;
                let s = self.rd(st, args[1].0, 1)?;
                let (verdict, detail) = self.check_ok(st, s);
                let loc = self.where_(st);
                self.obl.push(Obl { label, loc, verdict, detail });
            }
            "int_eq" => {
                let label = self.str_arg(st, args[0])?;
                let (a, b) = (self.rd(st, args[1].0, 8)?, self.rd(st, args[2].0, 8)?);
                let s = self.dom.bin(Bop::Eq, 8, false, a, b);
                let (verdict, detail) = self.check_ok(st, s);
                let loc = self.where_(st);
                let detail = format!("{} {} vs {}", detail, self.dom.show_s(a, 3), self.dom.show_s(b, 3));
                self.obl.push(Obl { label, loc, verdict, detail });
            }
            "assume" => {
                let s = self.rd(st, args[0].0, 1)?;
                match self.decide(st, s) {
                    Some(true) => {}
                    Some(false) => return Err(Fail::Bottom),
                    None => {
                        let S::N(n) = s else { unreachable!() };
                        self.add_fact(st, n, true);
                    }
                }
            }
            // depends<T>(label, value, name): the value depends on the named input
            "depends" => {
                let t = inst.args.type_at(0);
                let f = self.field(t)?;
                let label = self.str_arg(st, args[0])?;
                let p = self.ptr_arg(st, args[1])?;
                let nm = self.str_arg(st, args[2])?;
                let v = self.read_val(st, f, p)?;
                let sup = self.dom.support(v);
                let yes = sup.iter().any(|a| matches!(&self.dom.atoms[*a as usize], Atom::Base { name, .. } if **name == *nm));
                let loc = self.where_(st);
                self.obl.push(Obl { label, loc, verdict: if yes { "proved" } else { "violated" }, detail: if yes { String::new() } else { format!("value does not depend on {}", nm) } });
            }
            // only_random<T>(label, value): the value is a single random draw
            "is_draw" => {
                let t = inst.args.type_at(0);
                let f = self.field(t)?;
                let label = self.str_arg(st, args[0])?;
                let p = self.ptr_arg(st, args[1])?;
                let v = self.read_val(st, f, p)?;
                let bad = self.not_draw(v);
                let loc = self.where_(st);
                self.obl.push(Obl { label, loc, verdict: if bad.is_none() { "proved" } else { "violated" }, detail: bad.unwrap_or_default() });
            }
            // feed<T>(values): the next draws of the random source
            "feed" => {
                let t = inst.args.type_at(0);
                let f = self.field(t)?;
                let p = self.rk(st, args[0].0, 8, "pointer")? as u64;
                let n = self.rk(st, args[0].0 + 8, 8, "length")? as u64;
                let sz = self.dom.fields[f as usize].size as u64;
                self.feed.clear();
                for i in 0..n {
                    let v = self.read_val(st, f, p + i * sz)?;
                    self.feed.push((f, v));
                }
                st.fed = 0;
            }
            "dump" => {
                let t = inst.args.type_at(0);
                let label = self.str_arg(st, args[0])?;
                let p = self.ptr_arg(st, args[1])?;
                let j = self.dump(st, t, p, 0)?;
                self.dumps.push((label, j));
            }
            // uf<T>(name, k, args: &[T]) -> T
            "uf" => {
                let t = inst.args.type_at(0);
                let f = self.field(t)?;
                let nm = self.str_arg(st, args[0])?;
                let k = self.rd(st, args[1].0, 8)?;
                let p = self.rk(st, args[2].0, 8, "pointer")? as u64;
                let n = self.rk(st, args[2].0 + 8, 8, "length")? as u64;
                let sz = self.dom.fields[f as usize].size as u64;
                let mut a = vec![];
                for i in 0..n {
                    a.push(self.read_val(st, f, p + i * sz)?);
                }
                let v = self.dom.atom_v(Atom::Uf { field: f, f: nm.as_str().into(), ints: vec![k], args: a });
                self.write_val(st, f, dst, v)?;
            }
            // hasher model: state tokens are sequences of absorbed pieces
            "h_init" => {
                let t = inst.args.type_at(0);
                let f = self.field(t)?;
                let p = self.ptr_arg(st, args[0])?;
                let v = self.dom.atom_v(Atom::Uf { field: f, f: "seq".into(), ints: vec![], args: vec![] });
                self.write_val(st, f, p, v)?;
            }
            "h_absorb" => {
                let t = inst.args.type_at(0);
                let f = self.field(t)?;
                let p = self.ptr_arg(st, args[0])?;
                let v = self.read_val(st, f, p)?;
                let d = self.rk(st, args[1].0, 8, "pointer")? as u64;
                let n = self.rk(st, args[1].0 + 8, 8, "length")? as u64;
                let pieces = self.pieces(st, f, d, n)?;
                let nv = self.seq_append(v, f, &pieces)?;
                self.write_val(st, f, p, nv)?;
            }
            "h_out" => {
                // h_out<T, O>(state: &T, out: &mut O)
                let t = inst.args.type_at(0);
                let o = inst.args.type_at(1);
                let f = self.field(t)?;
                let fo = self.field(o)?;
                let p = self.ptr_arg(st, args[0])?;
                let q = self.ptr_arg(st, args[1])?;
                let v = self.read_val(st, f, p)?;
                let h = self.dom.atom_v(Atom::Uf { field: fo, f: "H".into(), ints: vec![], args: vec![v] });
                self.write_val(st, fo, q, h)?;
            }
            "note" => {
                let label = self.str_arg(st, args[0])?;
                let s = self.rd(st, args[1].0, 8)?;
                let t = self.dom.show_s(s, 6);
                self.dumps.push((label, format!("\"{}\"", t)));
            }
            "mark" => {
                let label = self.str_arg(st, args[0])?;
                *self.events.entry(Event { kind: "mark", loc: String::new(), what: label }).or_insert(0) += 1;
            }
            // clear recorded branch/index events (start of the region of interest)
            "begin" => {
                self.region = true;
                self.events.retain(|e, _| e.kind != "branch" && e.kind != "index");
            }
            "end" => {
                self.region = false;
                let ev: Vec<(Event, usize)> = self.events.iter().filter(|(e, _)| e.kind == "branch" || e.kind == "index").map(|(e, n)| (e.clone(), *n)).collect();
                self.events.retain(|e, _| e.kind != "branch" && e.kind != "index");
                for (e, n) in ev {
                    let k = if e.kind == "branch" { "branch-in" } else { "index-in" };
                    self.events.insert(Event { kind: k, loc: e.loc, what: e.what }, n);
                }
            }
            // field<P, R>(&P, name) -> &R
            "field" => {
                let (pt, rt) = (inst.args.type_at(0), inst.args.type_at(1));
                let nm = self.str_arg(st, args[1])?;
                let a = self.ptr_arg(st, args[0])?;
                let ty::Adt(d, ga) = pt.kind() else { return unsup("vx::field on a non-struct") };
                if !d.is_struct() {
                    return unsup("vx::field on a non-struct");
                }
                let lay = self.lo.layout(pt)?;
                let rt = self.tcx.erase_and_anonymize_regions(rt);
                let mut by_name = None;
                let mut by_type = vec![];
                for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                    let ft = self.tcx.normalize_erasing_regions(self.lo.env, f.ty(self.tcx, ga));
                    let off = lay.fields.offset(i).bytes();
                    if ft == rt {
                        if f.name.as_str() == nm {
                            by_name = Some(off);
                        }
                        by_type.push(off);
                    }
                }
                let off = match (by_name, by_type.len()) {
                    (Some(o), _) => o,
                    (None, 1) => by_type[0],
                    _ => return unsup(format!("{} has no recognisable field {} of type {}", pt, nm, rt)),
                };
                self.wr(st, dst, 8, S::K((a + off) as u128))?;
            }
            _ => return unsup(format!("vx::{}", m)),
        }
        let _ = target;
        Ok(NatRes::Done)
    }
    fn not_draw(&self, v: V) -> Option<String> {
        let p = &self.dom.polys[v as usize];
        if p.terms.len() == 1 {
            let m = &self.dom.monos[p.terms[0].0 as usize];
            if m.len() == 1 && m[0].1 == 1 && p.terms[0].1 == self.dom.fields[p.field as usize].one {
                match &self.dom.atoms[m[0].0 as usize] {
                    Atom::Base { random: true, .. } => return None,
                    Atom::Phi { t, e, .. } => return self.not_draw(*t).or_else(|| self.not_draw(*e)),
                    _ => {}
                }
            }
        }
        Some(format!("not a direct draw from the random source: {}", self.dom.show(v, 3)))
    }
    fn pieces(&mut self, st: &State<'tcx>, f: u16, d: u64, n: u64) -> R<Vec<V>> {
        let mut out = vec![];
        if n == 0 {
            return Ok(out);
        }
        let a = st.mem.get(&self.lo.pool, (d >> 32) as u32)?.clone();
        let off = d as u32 as usize;
        let end = off + n as usize;
        let mut i = off;
        while i < end {
            if !a.tags.is_empty() && a.tags[i] == T_VAL {
                if let Some((s, v)) = a.vals.get(&(i as u32)) {
                    if i + *s as usize <= end {
                        out.push(*v);
                        i += *s as usize;
                        continue;
                    }
                }
            }
            let s = a.read_s(i, 1, &mut self.dom);
            out.push(self.dom.atom_v(Atom::Uf { field: f, f: "byte".into(), ints: vec![s], args: vec![] }));
            i += 1;
        }
        Ok(out)
    }
    fn seq_append(&mut self, v: V, f: u16, p: &[V]) -> R<V> {
        let poly = self.dom.polys[v as usize].clone();
        if poly.terms.len() == 1 {
            let m = self.dom.monos[poly.terms[0].0 as usize].clone();
            if m.len() == 1 {
                match self.dom.atoms[m[0].0 as usize].clone() {
                    Atom::Uf { f: name, args, .. } if &*name == "seq" => {
                        let mut a = args;
                        a.extend_from_slice(p);
                        return Ok(self.dom.atom_v(Atom::Uf { field: f, f: "seq".into(), ints: vec![], args: a }));
                    }
                    Atom::Phi { cond, t, e, .. } => {
                        let (x, y) = (self.seq_append(t, f, p)?, self.seq_append(e, f, p)?);
                        return Ok(self.dom.phi(cond, x, y));
                    }
                    _ => {}
                }
            }
        }
        // unknown starting state
        let mut a = vec![v];
        a.extend_from_slice(p);
        Ok(self.dom.atom_v(Atom::Uf { field: f, f: "seq?".into(), ints: vec![], args: a }))
    }

    /// Typed dump of a value as JSON.
    pub fn dump(&mut self, st: &State<'tcx>, t: Ty<'tcx>, a: u64, depth: usize) -> R<String> {
        if depth > 24 {
            return unsup("dump depth");
        }
        if self.is_fp(t) {
            let f = self.field(t)?;
            let v = self.read_val(st, f, a)?;
            return Ok(match self.dom.as_const(v) {
                Some(c) => {
                    let h = self.dom.fields[f as usize].hex(&c);
                    let h = h.trim_start_matches('0');
                    format!("\"0x{}\"", if h.is_empty() { "0" } else { h })
                }
                None => format!("{{\"sym\":{}{}}}", jstr(&self.dom.show(v, 2)), self.lin(v)),
            });
        }
        match t.kind() {
            ty::Bool | ty::Uint(_) | ty::Int(_) | ty::Char => {
                let sz = self.lo.size(t)? as usize;
                let s = self.rd(st, a, sz)?;
                Ok(match s {
                    S::K(k) => format!("{}", k),
                    S::N(_) => format!("{{\"sym\":{}}}", jstr(&self.dom.show_s(s, 3))),
                })
            }
            ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                let p = self.rk(st, a, 8, "pointer")? as u64;
                match x.kind() {
                    ty::Str => {
                        let s = self.str_arg(st, (a, 16))?;
                        Ok(jstr(&s))
                    }
                    ty::Slice(e) => {
                        let n = self.rk(st, a + 8, 8, "length")? as u64;
                        self.dump_seq(st, *e, p, n, depth)
                    }
                    _ => self.dump(st, *x, p, depth + 1),
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).ok_or(Fail::Unsupported("array len".into()))?;
                self.dump_seq(st, *e, a, n, depth)
            }
            ty::Tuple(ts) => {
                let lay = self.lo.layout(t)?;
                let mut o = vec![];
                for (i, x) in ts.iter().enumerate() {
                    o.push(self.dump(st, x, a + lay.fields.offset(i).bytes(), depth + 1)?);
                }
                Ok(format!("[{}]", o.join(",")))
            }
            ty::Adt(d, ga) => {
                let nm = self.tcx.item_name(d.did()).to_string();
                let kr = self.tcx.crate_name(d.did().krate).to_string();
                if kr == "alloc" && nm == "Vec" {
                    let (po, lo_, _) = self.vec_offs(t)?;
                    let p = self.rk(st, a + po, 8, "pointer")? as u64;
                    let n = self.rk(st, a + lo_, 8, "length")? as u64;
                    return self.dump_seq(st, ga.type_at(0), p, n, depth);
                }
                if kr == "alloc" && (nm == "Arc" || nm == "Rc") {
                    let p = self.rk(st, a, 8, "pointer")? as u64;
                    let inner = ga.type_at(0);
                    let al = self.lo.layout(inner)?.align.bytes();
                    let off = (16 + al - 1) / al * al;
                    return self.dump(st, inner, p + off, depth + 1);
                }
                if kr == "alloc" && nm == "Box" {
                    let inner = ga.type_at(0);
                    let p = self.rk(st, a, 8, "pointer")? as u64;
                    if let ty::Slice(e) = inner.kind() {
                        let n = self.rk(st, a + 8, 8, "length")? as u64;
                        return self.dump_seq(st, *e, p, n, depth);
                    }
                    return self.dump(st, inner, p, depth + 1);
                }
                if d.is_struct() {
                    let lay = self.lo.layout(t)?;
                    let mut o = vec![];
                    for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                        let ft = self.tcx.normalize_erasing_regions(self.lo.env, f.ty(self.tcx, ga));
                        if self.lo.size(ft)? == 0 {
                            continue;
                        }
                        let v = match self.dump(st, ft, a + lay.fields.offset(i).bytes(), depth + 1) {
                            Ok(v) => v,
                            Err(Fail::Unsupported(s)) => format!("{{\"undumped\":{}}}", jstr(&s)),
                            Err(e) => return Err(e),
                        };
                        o.push(format!("{}:{}", jstr(f.name.as_str()), v));
                    }
                    return Ok(format!("{{{}}}", o.join(",")));
                }
                Ok(format!("{{\"type\":{}}}", jstr(&t.to_string())))
            }
            _ => Ok(format!("{{\"type\":{}}}", jstr(&t.to_string()))),
        }
    }
    /// Coefficients of a value that is affine in the inputs.
    fn lin(&self, v: V) -> String {
        let p = self.dom.polys[v as usize].clone();
        let f = &self.dom.fields[p.field as usize];
        let mut o = vec![];
        for (m, c) in p.terms.iter() {
            let mono = &self.dom.monos[*m as usize];
            let name = match mono.len() {
                0 => "1".to_string(),
                1 if mono[0].1 == 1 => match &self.dom.atoms[mono[0].0 as usize] {
                    Atom::Base { name, .. } => name.to_string(),
                    _ => return String::new(),
                },
                _ => return String::new(),
            };
            o.push(format!("{}:\"0x{}\"", jstr(&name), f.hex(c)));
        }
        format!(",\"lin\":{{{}}}", o.join(","))
    }
    fn dump_seq(&mut self, st: &State<'tcx>, e: Ty<'tcx>, p: u64, n: u64, depth: usize) -> R<String> {
        let sz = self.lo.size(e)?;
        let mut o = vec![];
        for i in 0..n {
            o.push(self.dump(st, e, p + i * sz, depth + 1)?);
        }
        Ok(format!("[{}]", o.join(",")))
    }

    // ---- obligations ------------------------------------------------------------
    /// Points of the input space: random ones and ones on the boundary of
    /// every branch condition that the compared values depend on.
    fn points(&mut self, st: &State<'tcx>, conds: &[N]) -> Vec<Point> {
        let mut out = vec![];
        for s in 1..=3u64 {
            out.push(self.base_pts.remove(&s).unwrap_or_else(|| Point::new(s)));
        }
        let mut todo: Vec<N> = conds.to_vec();
        for (n, _) in st.facts.iter() {
            todo.push(*n);
        }
        if todo.is_empty() {
            return out;
        }
        if let Some((k, pts)) = self.last_pts.take() {
            if k == todo {
                out.extend(pts);
                return out;
            }
        }
        let mut more = self.boundary(&todo, &mut out);
        out.append(&mut more);
        out
    }
    /// Keeps the points (and what was evaluated at them) for the next obligation.
    fn keep_points(&mut self, st: &State<'tcx>, conds: &[N], pts: Vec<Point>) {
        let mut todo: Vec<N> = conds.to_vec();
        for (n, _) in st.facts.iter() {
            todo.push(*n);
        }
        let mut rest = vec![];
        for mut p in pts {
            if p.bad {
                // forget what was evaluated from an unknown
                let mut q = p.with(p.over.clone());
                for (n, k) in &p.ints {
                    q.set_n(*n, *k);
                }
                p = q;
            }
            if p.seed <= 3 && p.over.is_empty() && p.ints.is_empty() {
                self.base_pts.insert(p.seed, p);
            } else {
                rest.push(p);
            }
        }
        self.last_pts = Some((todo, rest));
    }
    fn boundary(&mut self, todo: &[N], base: &mut Vec<Point>) -> Vec<Point> {
        let mut out = vec![];
        // several passes so that points may satisfy combinations
        let eqs = self.equations(todo);
        for (i, e) in eqs.iter().enumerate() {
            for s in [11u64, 12] {
                if self.late() {
                    return out;
                }
                let p = Point::new(s);
                let q = self.solve(*e, &p, if i < 12 { 12 } else { 1 });
                out.extend(q);
            }
        }
        // pairs of equations (conjunctions)
        let k = eqs.len().min(8);
        for i in 0..k {
            for j in 0..k {
                if i == j || self.late() {
                    continue;
                }
                let p = Point::new(21);
                for q in self.solve(eqs[i], &p, 3).into_iter().take(2) {
                    out.extend(self.solve(eqs[j], &q, 3));
                }
            }
        }
        // all together
        if eqs.len() > 2 {
            let mut p = Point::new(31);
            let mut any = false;
            for e in &eqs {
                if self.late() {
                    break;
                }
                if let Some(q) = self.solve(*e, &p, 3).into_iter().next() {
                    p = q;
                    any = true;
                }
            }
            if any {
                out.push(p);
            }
        }
        out.extend(self.structured(todo));
        // integer inputs
        let ints = self.int_eqs(todo);
        let mut more = vec![];
        for (n, k) in ints {
            for p in base.iter().chain(out.iter()).take(3) {
                let mut q = p.with(p.over.clone());
                q.ints = p.ints.clone();
                q.set_n(n, k);
                more.push(q);
            }
        }
        out.extend(more);
        out
    }
    /// Regular inputs: all equal, all small, one different from the rest,
    /// and small values of what a comparison or bit test looks at.
    fn structured(&mut self, conds: &[N]) -> Vec<Point> {
        let mut sup: HashSet<u32> = HashSet::new();
        let mut looked: Vec<V> = vec![];
        let mut ks: Vec<u128> = vec![];
        let mut st: Vec<N> = conds.to_vec();
        let mut seen = HashSet::new();
        while let Some(n) = st.pop() {
            if !seen.insert(n) || seen.len() > 4000 {
                continue;
            }
            match self.dom.nodes[n as usize].clone() {
                Node::IsZero(v) => sup.extend(self.dom.support(v).iter()),
                Node::CmpV(a, b) => {
                    for v in [a, b] {
                        sup.extend(self.dom.support(v).iter());
                        if self.dom.as_const(v).is_none() {
                            looked.push(v);
                        }
                    }
                    for (v, w) in [(a, b), (b, a)] {
                        if let Some(c) = self.dom.as_const(w) {
                            let f = &self.dom.fields[self.dom.field_of(v) as usize];
                            let c = f.to_plain(&c);
                            if c[1] == 0 && c[2] == 0 && c[3] == 0 {
                                ks.push(c[0] as u128);
                            }
                        }
                    }
                }
                Node::Limb(v, _) | Node::MontLimb(v, _) => {
                    sup.extend(self.dom.support(v).iter());
                    looked.push(v);
                }
                Node::Not(_, m) | Node::Neg(_, m) | Node::Extract(m, ..) | Node::Sext(m, ..) => st.push(m),
                Node::Bin(_, _, _, a, b) => {
                    for s in [a, b] {
                        match s {
                            S::N(m) => st.push(m),
                            S::K(k) => ks.push(k),
                        }
                    }
                }
                Node::Ite(c, a, b) => {
                    st.push(c);
                    for s in [a, b] {
                        if let S::N(m) = s {
                            st.push(m);
                        }
                    }
                }
                Node::Uf(_, ss, vs, _) => {
                    for s in ss {
                        if let S::N(m) = s {
                            st.push(m);
                        }
                    }
                    for v in vs {
                        sup.extend(self.dom.support(v).iter());
                        looked.push(v);
                    }
                }
                _ => {}
            }
        }
        let mut groups: Vec<Vec<u32>> = vec![];
        let mut base: Vec<(u32, String)> = sup.iter().filter_map(|a| match &self.dom.atoms[*a as usize] {
            Atom::Base { name, .. } => Some((*a, name.to_string())),
            _ => None,
        }).collect();
        base.sort();
        let inputs: Vec<u32> = base.iter().filter(|(_, n)| n.starts_with("x[") || n.starts_with("leaf") || n.starts_with("m[")).map(|(a, _)| *a).collect();
        if !inputs.is_empty() {
            groups.push(inputs.clone());
        }
        if base.len() > inputs.len() {
            groups.push(base.iter().map(|(a, _)| *a).collect());
        }
        let mut out = vec![];
        for g in &groups {
            let Some(a0) = g.first() else { continue };
            let f = self.dom.fields[self.dom.atom_field(*a0) as usize].clone();
            if f.n == 0 {
                continue;
            }
            let mut rows: Vec<Vec<E>> = vec![];
            let m1 = f.neg(&f.one);
            let half = f.inverse(&f.add(&f.one, &f.one)).unwrap();
            for c in [ZERO, f.one, m1, f.from_u64(2), f.from_u64(u64::MAX), half, f.neg(&half), f.from_u64(0x9e3779b97f4a7c15)] {
                rows.push(vec![c; g.len()]);
            }
            rows.push((0..g.len()).map(|i| f.from_u64(i as u64)).collect());
            rows.push((0..g.len()).map(|i| f.from_u64(1 + i as u64)).collect());
            rows.push((0..g.len()).map(|i| f.from_u64((g.len() - i) as u64)).collect());
            rows.push((0..g.len()).map(|i| f.neg(&f.from_u64(1 + i as u64))).collect());
            for k in 0..g.len().min(24) {
                let mut r = vec![ZERO; g.len()];
                r[k] = f.from_u64(0x1234567);
                rows.push(r);
            }
            for r in rows {
                let mut p = Point::new(51);
                for (a, e) in g.iter().zip(r) {
                    if self.dom.atom_field(*a) == self.dom.atom_field(*a0) {
                        p.over.insert(*a, e);
                    }
                }
                out.push(p);
            }
        }
        looked.sort();
        looked.dedup();
        ks.extend([0, 1, 2, 3, 4, 7, 8, 15, 16, 255, 256, u32::MAX as u128, 1 << 32, u64::MAX as u128, 1 << 63]);
        ks.sort();
        ks.dedup();
        for v in looked.into_iter().take(6) {
            let fx = self.dom.field_of(v);
            let f = self.dom.fields[fx as usize].clone();
            if f.n == 0 {
                continue;
            }
            let mut cs: Vec<E> = vec![f.neg(&f.one), f.neg(&f.from_u64(2))];
            for k in ks.iter().take(40) {
                for z in [k.wrapping_sub(1), *k, k.wrapping_add(1)] {
                    cs.push(f.from_u128(z));
                }
            }
            cs.sort();
            cs.dedup();
            for c in cs {
                if self.late() {
                    return out;
                }
                let c = self.dom.konst(fx, c);
                let d = self.dom.add(v, c, true);
                if let Some(q) = self.solve(d, &Point::new(61), 3).into_iter().next() {
                    out.push(q);
                }
            }
        }
        out
    }
    /// Value equations v = 0 suggested by branch conditions.
    fn equations(&mut self, conds: &[N]) -> Vec<V> {
        let mut out = vec![];
        let mut st: Vec<N> = conds.to_vec();
        let mut seen = HashSet::new();
        while let Some(n) = st.pop() {
            if !seen.insert(n) {
                continue;
            }
            match self.dom.nodes[n as usize].clone() {
                Node::IsZero(v) => {
                    if self.dom.fields[self.dom.field_of(v) as usize].n > 0 {
                        out.push(v)
                    }
                }
                Node::CmpV(a, b) => {
                    let d = self.dom.add(a, b, true);
                    out.push(d);
                }
                Node::Bin(_, _, _, a, b) => {
                    for (x, y) in [(a, b), (b, a)] {
                        if let (S::N(m), S::K(k)) = (x, y) {
                            if let Node::Limb(v, i) = self.dom.nodes[m as usize] {
                                let f = self.dom.field_of(v);
                                let fi = self.dom.fields[f as usize].clone();
                                if fi.n > 0 {
                                    let mut e = ZERO;
                                    e[i as usize] = k as u64;
                                    if !ge(&e, &fi.p) {
                                        let c = fi.from_plain(&e);
                                        let c = self.dom.konst(f, c);
                                        let d = self.dom.add(v, c, true);
                                        out.push(d);
                                    }
                                }
                            }
                        }
                    }
                    for s in [a, b] {
                        if let S::N(m) = s {
                            st.push(m);
                        }
                    }
                }
                Node::Not(_, m) | Node::Neg(_, m) | Node::Extract(m, ..) | Node::Sext(m, ..) => st.push(m),
                Node::Ite(c, a, b) => {
                    st.push(c);
                    for s in [a, b] {
                        if let S::N(m) = s {
                            st.push(m);
                        }
                    }
                }
                _ => {}
            }
        }
        out.sort();
        out.dedup();
        out.truncate(64);
        out
    }
    fn int_eqs(&mut self, conds: &[N]) -> Vec<(N, u128)> {
        let mut out = vec![];
        let mut st: Vec<N> = conds.to_vec();
        let mut seen = HashSet::new();
        while let Some(n) = st.pop() {
            if !seen.insert(n) {
                continue;
            }
            if let Node::Bin(_, _, _, a, b) = self.dom.nodes[n as usize].clone() {
                for (x, y) in [(a, b), (b, a)] {
                    if let (S::N(m), S::K(k)) = (x, y) {
                        if let Node::Input { lo, hi, .. } = self.dom.nodes[m as usize] {
                            let hex = matches!(&self.dom.nodes[m as usize], Node::Input { name, .. } if name.starts_with("hex:"));
                            for z in [k.wrapping_sub(1), k, k.wrapping_add(1)] {
                                if hex && !(z as u8 as char).is_ascii_hexdigit() {
                                    continue;
                                }
                                if z >= lo && z <= hi {
                                    out.push((m, z));
                                }
                            }
                        }
                        st.push(m);
                    }
                }
                for s in [a, b] {
                    if let S::N(m) = s {
                        st.push(m);
                    }
                }
            } else if let Node::Ite(c, a, b) = self.dom.nodes[n as usize].clone() {
                st.push(c);
                for s in [a, b] {
                    if let S::N(m) = s {
                        st.push(m);
                    }
                }
            }
        }
        out.truncate(64);
        out
    }
    /// Points that differ from p in one base input and make e = 0: e is
    /// interpolated as a polynomial of degree at most `deg` in that input and
    /// its roots in the field are computed.
    fn solve(&mut self, e: V, p: &Point, deg: usize) -> Vec<Point> {
        let f = self.dom.field_of(e);
        let fi = self.dom.fields[f as usize].clone();
        if fi.n == 0 {
            return vec![];
        }
        let sup = self.dom.support(e);
        let mut atoms: Vec<u32> = sup.iter().copied().filter(|a| self.dom.atom_field(*a) == f && !p.over.contains_key(a)).collect();
        atoms.sort();
        let mk = |a: u32, x: E| -> Point {
            let mut o = p.over.clone();
            o.insert(a, x);
            let mut q = p.with(o);
            for (n, k) in &p.ints {
                q.set_n(*n, *k);
            }
            q
        };
        let mut fallback = vec![];
        let n_atoms = atoms.len();
        // inputs of the state first, then the others, from both ends
        atoms.truncate(40);
        for (k, a) in atoms.iter().copied().enumerate() {
            if deg == 1 && k >= 6 {
                break;
            }
            let at = |x: E, me: &Self| -> E { me.dom.eval(e, &mut mk(a, x)) };
            let mut xs = vec![ZERO, fi.one];
            xs.push(fi.add(&fi.one, &fi.one));
            let mut ys: Vec<E> = xs.iter().map(|x| at(*x, self)).collect();
            let d = fi.sub(&ys[1], &ys[0]);
            if fi.sub(&ys[2], &ys[1]) == d {
                if d == ZERO {
                    continue;
                }
                let x = fi.neg(&fi.mul(&ys[0], &fi.inverse(&d).unwrap()));
                let mut q = mk(a, x);
                if self.dom.eval(e, &mut q) == ZERO {
                    return vec![mk(a, x)];
                }
                continue;
            }
            if deg < 2 || !fallback.is_empty() || k > 3 && n_atoms > 8 {
                continue;
            }
            while xs.len() < deg + 3 {
                let x = fi.add(xs.last().unwrap(), &fi.one);
                ys.push(at(x, self));
                xs.push(x);
            }
            let Some(c) = crate::dom::interpolate(&fi, &xs, &ys, deg) else { continue };
            for x in crate::dom::roots(&fi, &c) {
                let mut q = mk(a, x);
                if self.dom.eval(e, &mut q) == ZERO {
                    fallback.push(mk(a, x));
                }
            }
        }
        fallback
    }
    fn facts_hold(&self, st: &State<'tcx>, p: &mut Point) -> bool {
        for (n, v) in st.facts.iter().chain(self.assumed.iter()) {
            if (self.dom.eval_n(*n, p) != 0) != *v {
                return false;
            }
        }
        true
    }
    fn witness(&self, p: &Point) -> String {
        let mut o: Vec<String> = p.over.iter().map(|(a, e)| {
            let f = &self.dom.fields[self.dom.atom_field(*a) as usize];
            let h = f.hex(e);
            let h = h.trim_start_matches('0');
            format!("{}=0x{}", self.dom.show_atom(*a, 1), if h.is_empty() { "0" } else { h })
        }).collect();
        for (n, k) in &p.ints {
            o.push(format!("{}={}", self.dom.show_n(*n, 2), k));
        }
        o.sort();
        if o.is_empty() { "at generic inputs".into() } else { format!("at inputs with {}", o.join(", ")) }
    }
    pub fn check_eq(&mut self, st: &State<'tcx>, a: V, b: V) -> (&'static str, String) {
        if a == b {
            return ("proved", String::new());
        }
        let mut conds = self.dom.phi_conds(a);
        conds.extend(self.dom.phi_conds(b));
        conds.sort();
        conds.dedup();
        let pts = self.points(st, &conds);
        let mut valid = 0;
        let mut opaque = false;
        let mut cov: HashMap<N, (bool, bool)> = HashMap::new();
        let mut pts = pts;
        for p in pts.iter_mut() {
            if self.late() {
                return ("undecided", "time limit of this analysis".into());
            }
            if !self.facts_hold(st, p) {
                continue;
            }
            let bad0 = p.bad;
            p.bad = false;
            let (x, y) = (self.dom.eval(a, p), self.dom.eval(b, p));
            if p.bad || bad0 {
                p.bad = true;
                opaque = true;
                continue;
            }
            valid += 1;
            for c in &conds {
                let e = cov.entry(*c).or_insert((false, false));
                if self.dom.eval_n(*c, p) != 0 { e.0 = true } else { e.1 = true }
            }
            if x != y {
                return ("violated", format!("values differ {}: computed {} expected {}", self.witness(p), self.dom.show(a, 3), self.dom.show(b, 3)));
            }
        }
        self.keep_points(st, &conds, pts);
        if valid == 0 {
            return ("undecided", format!("no usable point (opaque={}): {} vs {}", opaque, self.dom.show(a, 2), self.dom.show(b, 2)));
        }
        let un: Vec<N> = conds.iter().copied().filter(|c| cov.get(c).map_or(true, |x| !(x.0 && x.1)) && self.decide(st, S::N(*c)).is_none()).collect();
        // a condition no point reached on one side: take that side hypothetically
        let mut differ = vec![];
        for c in un {
            let seen = cov.get(&c).copied().unwrap_or((false, false));
            for side in [true, false] {
                if if side { seen.0 } else { seen.1 } {
                    continue;
                }
                let mut p = Point::new(41);
                p.set_n(c, side as u128);
                let mut target = None;
                match (self.dom.nodes[c as usize].clone(), side) {
                    (Node::IsZero(v), true) => target = Some(v),
                    (Node::Not(1, m), false) => {
                        if let Node::IsZero(v) = self.dom.nodes[m as usize] {
                            target = Some(v);
                            p.set_n(m, 1);
                        }
                    }
                    _ => {}
                }
                if let Some(v) = target {
                    p.force(v);
                    let poly = self.dom.polys[v as usize].clone();
                    if poly.terms.len() == 1 {
                        let mono = self.dom.monos[poly.terms[0].0 as usize].clone();
                        if mono.len() == 1 {
                            p.over.insert(mono[0].0, ZERO);
                        }
                    }
                }
                let (x, y) = (self.dom.eval(a, &mut p), self.dom.eval(b, &mut p));
                if x != y {
                    differ.push(c);
                }
            }
        }
        let un = differ;
        if !un.is_empty() {
            let d: Vec<String> = un.iter().take(3).map(|c| self.dom.show_n(*c, 5)).collect();
            return ("unshown", format!("result depends on the input-dependent condition {} whose cases were not shown to agree: computed {} expected {}", d.join("; "), self.dom.show(a, 3), self.dom.show(b, 3)));
        }
        ("identity", format!("{} points", valid))
    }
    /// Some known input satisfies the path facts.
    pub fn satisfiable(&mut self, st: &State<'tcx>) -> bool {
        for mut p in self.points(st, &[]) {
            if self.facts_hold(st, &mut p) {
                return true;
            }
        }
        false
    }
    /// An input satisfying the path facts for which condition c has value `side`.
    pub fn feasible(&mut self, st: &State<'tcx>, c: N, side: bool) -> Option<String> {
        for mut p in self.points(st, &[c]) {
            p.bad = false;
            if !self.facts_hold(st, &mut p) || (self.dom.eval_n(c, &mut p) != 0) != side || p.bad {
                continue;
            }
            return Some(self.witness(&p));
        }
        None
    }
    pub fn check_ok(&mut self, st: &State<'tcx>, s: S) -> (&'static str, String) {
        match self.decide(st, s) {
            Some(true) => return ("proved", String::new()),
            Some(false) => return ("violated", "condition is false".into()),
            None => {}
        }
        let S::N(n) = s else { unreachable!() };
        let pts = self.points(st, &[n]);
        let mut valid = 0;
        for mut p in pts {
            if !self.facts_hold(st, &mut p) {
                continue;
            }
            p.bad = false;
            let r = self.dom.eval_n(n, &mut p);
            if p.bad {
                continue;
            }
            valid += 1;
            if r == 0 {
                return ("violated", format!("condition fails {}: {}", self.witness(&p), self.dom.show_n(n, 5)));
            }
        }
        if valid == 0 { ("undecided", self.dom.show_n(n, 5)) } else { ("identity", format!("{} points: {}", valid, self.dom.show_n(n, 5))) }
    }

    // ---- intrinsics -----------------------------------------------------------------
    pub fn intrinsic(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, args: &[(u64, usize)], dst: u64, dst_sz: usize, target: Option<usize>) -> R<NatRes> {
        let name = self.tcx.item_name(inst.def_id()).to_string();
        let n = name.as_str();
        let ty0 = inst.args.types().next();
        macro_rules! s {
            ($i:expr) => {
                self.rd(st, args[$i].0, args[$i].1)?
            };
        }
        macro_rules! k {
            ($i:expr, $w:expr) => {{
                let x = s!($i);
                self.conc(st, x, $w)? as u64
            }};
        }
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                self.wr(st, dst, dst_sz, v)?;
            }};
        }
        let ik = |me: &Self, t: Ty<'tcx>| -> R<(u8, bool)> {
            match me.lo.kind(t)? {
                Kind::Int(a, b) => Ok((a, b)),
                _ => unsup("int kind"),
            }
        };
        match n {
            "size_of" => ret!(S::K(self.lo.size(ty0.unwrap())? as u128)),
            "align_of" | "min_align_of" | "pref_align_of" => ret!(S::K(self.lo.layout(ty0.unwrap())?.align.bytes() as u128)),
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                let t = ty0.unwrap();
                let r = self.dyn_size(st, t, args[0].0)?;
                ret!(S::K(if n == "size_of_val" { r.0 } else { r.1 } as u128))
            }
            "needs_drop" => ret!(S::K(ty0.unwrap().needs_drop(self.tcx, self.lo.env) as u128)),
            "type_id" => {
                let t = ty0.unwrap();
                let h = self.tcx.type_id_hash(t).as_u128();
                if dst_sz == 16 { ret!(S::K(h)) } else { return unsup("type_id") }
            }
            "type_id_eq" => {
                let (a, b) = (s!(0), s!(1));
                let r = self.dom.bin(Bop::Eq, 16, false, a, b);
                ret!(r)
            }
            "type_name" => {
                let s = ty0.unwrap().to_string();
                let a = self.lo.new_global_bytes(s.as_bytes());
                self.wr(st, dst, 8, S::K(a as u128))?;
                self.wr(st, dst + 8, 8, S::K(s.len() as u128))?;
            }
            "variant_count" => return unsup("variant_count"),
            "likely" | "unlikely" => {
                let x = s!(0);
                ret!(x)
            }
            "black_box" => {
                self.cp(st, dst, args[0].0, dst_sz)?;
            }
            "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "forget" | "prefetch_read_data" => {}
            "is_val_statically_known" => ret!(S::K(0)),
            "ub_checks" | "contract_checks" => ret!(S::K(0)),
            "overflow_checks" => ret!(S::K(self.tcx.sess.overflow_checks() as u128)),
            "unreachable" => return Err(Fail::Bottom),
            "abort" | "breakpoint" => return Err(Fail::Panic(format!("abort at {}", self.where_(st)))),
            "copy_nonoverlapping" | "copy" | "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" => {
                let (mut s, mut d) = (k!(0, "pointer"), k!(1, "pointer"));
                if n.starts_with("volatile") {
                    std::mem::swap(&mut s, &mut d);
                }
                let c = k!(2, "length");
                let sz = self.lo.size(ty0.unwrap())?;
                self.cp(st, d, s, (c * sz) as usize)?;
            }
            "write_bytes" => {
                let d = k!(0, "pointer");
                let b = k!(1, "byte");
                let c = k!(2, "length");
                let sz = self.lo.size(ty0.unwrap())?;
                st.mem.write_bytes(&self.lo.pool, d, &vec![b as u8; (c * sz) as usize], &mut self.dom)?;
            }
            "compare_bytes" => {
                let (a, b, c) = (k!(0, "pointer"), k!(1, "pointer"), k!(2, "length") as usize);
                let (x, y) = (st.mem.read_bytes(&self.lo.pool, a, c)?, st.mem.read_bytes(&self.lo.pool, b, c)?);
                match (x, y) {
                    (Some(x), Some(y)) => {
                        let r: i32 = match x.cmp(&y) {
                            std::cmp::Ordering::Less => -1,
                            std::cmp::Ordering::Equal => 0,
                            _ => 1,
                        };
                        ret!(S::K(r as u32 as u128))
                    }
                    _ => {
                        let eq = self.bytes_eq(st, a, b, c)?;
                        let r = match eq {
                            S::K(0) => return unsup("ordering of symbolic bytes"),
                            S::K(_) => S::K(0),
                            S::N(e) => {
                                let o = S::N(self.dom.node(Node::Uf("memcmp".into(), vec![S::N(e)], vec![], 1)));
                                let o = self.dom.bin(Bop::Or, 4, false, o, S::K(1));
                                self.dom.ite(e, S::K(0), o)
                            }
                        };
                        ret!(r)
                    }
                }
            }
            "raw_eq" => {
                let (a, b) = (k!(0, "pointer"), k!(1, "pointer"));
                let sz = self.lo.size(ty0.unwrap())? as usize;
                let r = self.bytes_eq(st, a, b, sz)?;
                ret!(r)
            }
            "typed_swap_nonoverlapping" => {
                let (a, b) = (k!(0, "pointer"), k!(1, "pointer"));
                let sz = self.lo.size(ty0.unwrap())? as usize;
                if sz > 0 {
                    let t = st.mem.alloc(sz);
                    self.cp(st, t, a, sz)?;
                    self.cp(st, a, b, sz)?;
                    self.cp(st, b, t, sz)?;
                    st.mem.allocs.pop();
                }
            }
            "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => {
                let a = k!(0, "pointer");
                self.cp(st, dst, a, dst_sz)?;
            }
            "volatile_store" | "unaligned_volatile_store" | "write_via_move" => {
                let a = k!(0, "pointer");
                self.cp(st, a, args[1].0, args[1].1)?;
            }
            "transmute" | "transmute_unchecked" => {
                self.cp(st, dst, args[0].0, dst_sz)?;
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "bswap" | "bitreverse" => {
                let x = s!(0);
                let (sz, _) = ik(self, ty0.unwrap())?;
                let r = match x {
                    S::K(k) => {
                        let bits = 8 * sz as u32;
                        S::K(match n {
                            "ctpop" => k.count_ones() as u128,
                            "ctlz" | "ctlz_nonzero" => (k.leading_zeros() - (128 - bits)) as u128,
                            "cttz" | "cttz_nonzero" => if k == 0 { bits as u128 } else { k.trailing_zeros() as u128 },
                            "bswap" => k.swap_bytes() >> (128 - bits),
                            _ => k.reverse_bits() >> (128 - bits),
                        })
                    }
                    S::N(_) => S::N(self.dom.node(Node::Uf(format!("{}{}", n, sz).as_str().into(), vec![x], vec![], dst_sz as u8))),
                };
                ret!(r)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (sz, sg) = ik(self, ty0.unwrap())?;
                let op = match &n[..3] { "add" => Bop::Add, "sub" => Bop::Sub, _ => Bop::Mul };
                let (x, y) = (s!(0), s!(1));
                let (r, o) = self.overflowing(st, op, sz, sg, x, y);
                let (_, out) = self.sig(inst)?;
                let lay = self.lo.layout(out)?;
                self.wr(st, dst + lay.fields.offset(0).bytes(), sz as usize, r)?;
                self.wr(st, dst + lay.fields.offset(1).bytes(), 1, o)?;
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_div" | "unchecked_rem" | "exact_div" | "unchecked_shl" | "unchecked_shr" | "disjoint_bitor" => {
                let (sz, sg) = ik(self, ty0.unwrap())?;
                use mir::BinOp as B;
                let op = match n.rsplit('_').next().unwrap() {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "div" => B::Div,
                    "rem" => B::Rem,
                    "shl" => B::Shl,
                    "shr" => B::Shr,
                    _ => B::BitOr,
                };
                let (x, y) = (s!(0), s!(1));
                let kb = Kind::Int(args[1].1 as u8, false);
                let r = self.scalar_bin(st, op, sz, sg, x, y, kb)?;
                ret!(r)
            }
            "saturating_add" | "saturating_sub" => {
                let (sz, sg) = ik(self, ty0.unwrap())?;
                let op = if n.ends_with("add") { Bop::Add } else { Bop::Sub };
                let (x, y) = (s!(0), s!(1));
                let (r, o) = self.overflowing(st, op, sz, sg, x, y);
                let m = mask(sz);
                let sat = if sg {
                    let yk = self.conc(st, y, "saturating operand")?;
                    let neg = (sext(yk, sz) < 0) == (op == Bop::Add);
                    if neg { (m >> 1) + 1 } else { m >> 1 }
                } else if op == Bop::Add { m } else { 0 };
                let r = match self.decide(st, o) {
                    Some(true) => S::K(sat),
                    Some(false) => r,
                    None => {
                        let S::N(c) = o else { unreachable!() };
                        self.dom.ite(c, S::K(sat), r)
                    }
                };
                ret!(r)
            }
            "rotate_left" | "rotate_right" => {
                let (sz, _) = ik(self, ty0.unwrap())?;
                let x = s!(0);
                let kk = k!(1, "rotate amount") % (8 * sz as u64);
                let bits = 8 * sz as u64;
                let l = if n == "rotate_left" { kk } else { (bits - kk) % bits };
                if l == 0 {
                    ret!(x)
                } else {
                    let a = self.dom.bin(Bop::Shl, sz, false, x, S::K(l as u128));
                    let b = self.dom.bin(Bop::Shr, sz, false, x, S::K((bits - l) as u128));
                    let r = self.dom.bin(Bop::Or, sz, false, a, b);
                    ret!(r)
                }
            }
            "three_way_compare" => {
                let (sz, sg) = ik(self, ty0.unwrap())?;
                let (x, y) = (s!(0), s!(1));
                let r = self.scalar_bin(st, mir::BinOp::Cmp, sz, sg, x, y, Kind::Int(sz, sg))?;
                ret!(r)
            }
            "offset" | "arith_offset" | "ptr_offset" => {
                let p = k!(0, "pointer");
                let c = k!(1, "index");
                let el = match n {
                    "offset" => ty0.unwrap().builtin_deref(true).ok_or(Fail::Unsupported("offset".into()))?,
                    _ => ty0.unwrap(),
                };
                let sz = self.lo.size(el)?;
                ret!(S::K(p.wrapping_add(c.wrapping_mul(sz)) as u128))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let (a, b) = (k!(0, "pointer"), k!(1, "pointer"));
                let sz = self.lo.size(ty0.unwrap())?.max(1) as i64;
                ret!(S::K(((a.wrapping_sub(b) as i64) / sz) as u64 as u128))
            }
            "ptr_mask" => {
                let (a, b) = (k!(0, "pointer"), k!(1, "mask"));
                ret!(S::K((a & b) as u128))
            }
            "ptr_guaranteed_cmp" => {
                let (a, b) = (s!(0), s!(1));
                let r = self.dom.bin(Bop::Eq, 8, false, a, b);
                ret!(r)
            }
            "slice_get_unchecked" => {
                // (slice ptr fat, index) -> element pointer
                let p = self.rk(st, args[0].0, 8, "pointer")? as u64;
                let i = k!(1, "index");
                let (_, out) = self.sig(inst)?;
                let el = out.builtin_deref(true).ok_or(Fail::Unsupported("slice_get".into()))?;
                let sz = self.lo.size(el)?;
                ret!(S::K((p + i * sz) as u128))
            }
            "aggregate_raw_ptr" => {
                self.cp(st, dst, args[0].0, 8)?;
                if dst_sz == 16 {
                    self.cp(st, dst + 8, args[1].0, 8)?;
                }
            }
            "ptr_metadata" => {
                if dst_sz == 8 {
                    self.cp(st, dst, args[0].0 + 8, 8)?;
                }
            }
            "discriminant_value" => {
                let a = k!(0, "pointer");
                let t = ty0.unwrap();
                let d = self.lo.discr_read(t)?;
                let r = self.discr(st, a, &d)?;
                ret!(r)
            }
            "vtable_size" | "vtable_align" => {
                let v = k!(0, "pointer");
                let r = self.rd(st, v + if n == "vtable_size" { 8 } else { 16 }, 8)?;
                ret!(r)
            }
            "caller_location" => {
                let a = self.dummy_loc();
                ret!(S::K(a as u128))
            }
            "select_unpredictable" => {
                let c = s!(0);
                match self.decide(st, c) {
                    Some(b) => self.cp(st, dst, args[if b { 1 } else { 2 }].0, dst_sz)?,
                    None => {
                        let S::N(c) = c else { unreachable!() };
                        return Err(Fail::Split(c));
                    }
                }
            }
            "const_eval_select" => {
                // (tuple, const fn, runtime fn): call the runtime one
                let tup = inst.args.type_at(0);
                let rt = inst.args.types().nth(2).unwrap();
                let ty::FnDef(d, ga) = rt.kind() else { return unsup("const_eval_select") };
                let ga = ga.no_bound_vars().ok_or(Fail::Unsupported("late bound".into()))?;
                let i = match Instance::try_resolve(self.tcx, self.lo.env, *d, ga) {
                    Ok(Some(i)) => i,
                    _ => return unsup("const_eval_select resolve"),
                };
                let ty::Tuple(ts) = tup.kind() else { return unsup("const_eval_select") };
                let lay = self.lo.layout(tup)?;
                let mut av = vec![];
                for (j, t) in ts.iter().enumerate() {
                    av.push((args[0].0 + lay.fields.offset(j).bytes(), self.lo.size(t)? as usize));
                }
                let id = self.lo.inst_id(i);
                self.call(st, id, av, dst, dst_sz, target)?;
                return Ok(NatRes::Pushed);
            }
            "drop_in_place" => return unsup("drop_in_place intrinsic"),
            _ if n.starts_with("atomic_") => return self.atomic(st, inst, n, args, dst, dst_sz),
            "sqrtf64" | "floorf64" | "ceilf64" | "log2f64" | "logf64" | "log10f64" | "expf64" | "exp2f64" | "truncf64" | "roundf64" | "fabsf64" | "round_ties_even_f64" | "sinf64" | "cosf64" => {
                let x = f64::from_bits(k!(0, "float"));
                let r = match n {
                    "sqrtf64" => x.sqrt(),
                    "floorf64" => x.floor(),
                    "ceilf64" => x.ceil(),
                    "log2f64" => x.log2(),
                    "logf64" => x.ln(),
                    "log10f64" => x.log10(),
                    "expf64" => x.exp(),
                    "exp2f64" => x.exp2(),
                    "truncf64" => x.trunc(),
                    "roundf64" => x.round(),
                    "fabsf64" => x.abs(),
                    "round_ties_even_f64" => x.round_ties_even(),
                    "sinf64" => x.sin(),
                    _ => x.cos(),
                };
                ret!(S::K(r.to_bits() as u128))
            }
            "powf64" => {
                let (x, y) = (f64::from_bits(k!(0, "float")), f64::from_bits(k!(1, "float")));
                ret!(S::K(x.powf(y).to_bits() as u128))
            }
            "powif64" => {
                let x = f64::from_bits(k!(0, "float"));
                let y = k!(1, "float") as i32;
                ret!(S::K(x.powi(y).to_bits() as u128))
            }
            "catch_unwind" => {
                // (try_fn, data, catch_fn) -> i32: the non-panicking path
                let f = k!(0, "function pointer");
                let Some(i) = self.lo.fn_of.get(&((f >> 32) as u32)).copied() else { return unsup("catch_unwind") };
                self.wr(st, dst, dst_sz, S::K(0))?;
                let id = self.lo.inst_id(i);
                self.call(st, id, vec![args[1]], 0, 0, target)?;
                return Ok(NatRes::Pushed);
            }
            _ => return Ok(NatRes::Fallback),
        }
        Ok(NatRes::Done)
    }
    fn dummy_loc(&mut self) -> u64 {
        if self.trees.is_empty() {
            let a = self.lo.new_global_bytes(&[0u8; 64]);
            self.trees.push(("loc".into(), 0, a as usize));
        }
        self.trees[0].2 as u64
    }
    fn bytes_eq(&mut self, st: &State<'tcx>, a: u64, b: u64, n: usize) -> R<S> {
        let mut acc = S::K(1);
        let mut i = 0;
        while i < n {
            let w = if n - i >= 8 { 8 } else { 1 };
            let (x, y) = (self.rd(st, a + i as u64, w)?, self.rd(st, b + i as u64, w)?);
            let e = self.dom.bin(Bop::Eq, w as u8, false, x, y);
            acc = self.dom.bin(Bop::And, 1, false, acc, e);
            if acc == S::K(0) {
                return Ok(acc);
            }
            i += w;
        }
        Ok(acc)
    }
    fn dyn_size(&mut self, st: &State<'tcx>, t: Ty<'tcx>, pa: u64) -> R<(u64, u64)> {
        if self.lo.is_sized(t) {
            let l = self.lo.layout(t)?;
            return Ok((l.size.bytes(), l.align.bytes()));
        }
        let meta = self.rd(st, pa + 8, 8)?;
        let meta = self.conc(st, meta, "length")? as u64;
        self.dyn_size_m(st, t, meta)
    }
    fn dyn_size_m(&mut self, st: &State<'tcx>, t: Ty<'tcx>, meta: u64) -> R<(u64, u64)> {
        if self.lo.is_sized(t) {
            let l = self.lo.layout(t)?;
            return Ok((l.size.bytes(), l.align.bytes()));
        }
        match t.kind() {
            ty::Slice(e) => {
                let l = self.lo.layout(*e)?;
                Ok((l.size.bytes() * meta, l.align.bytes()))
            }
            ty::Str => Ok((meta, 1)),
            ty::Dynamic(..) => {
                let s = self.rk(st, meta + 8, 8, "size")? as u64;
                let a = self.rk(st, meta + 16, 8, "align")? as u64;
                Ok((s, a))
            }
            ty::Adt(d, ga) => {
                let lay = self.lo.layout(t)?;
                let n = d.non_enum_variant().fields.len();
                let last = &d.non_enum_variant().fields[rustc_abi::FieldIdx::from_usize(n - 1)];
                let ft = self.tcx.normalize_erasing_regions(self.lo.env, last.ty(self.tcx, ga));
                let (s, a) = self.dyn_size_m(st, ft, meta)?;
                let al = a.max(lay.align.bytes()).max(1);
                let off = (lay.fields.offset(n - 1).bytes() + a - 1) / a * a;
                Ok(((off + s + al - 1) / al * al, al))
            }
            _ => unsup("size_of_val"),
        }
    }
    fn atomic(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, n: &str, args: &[(u64, usize)], dst: u64, dst_sz: usize) -> R<NatRes> {
        if n.contains("fence") {
            return Ok(NatRes::Done);
        }
        let p = self.rk(st, args[0].0, 8, "pointer")? as u64;
        let t = inst.args.types().next().unwrap();
        let sz = self.lo.size(t)? as usize;
        let sg = matches!(t.kind(), ty::Int(_));
        let old = self.rd(st, p, sz)?;
        if n.starts_with("atomic_load") {
            self.wr(st, dst, dst_sz, old)?;
        } else if n.starts_with("atomic_store") {
            self.cp(st, p, args[1].0, sz)?;
        } else if n.starts_with("atomic_cxchg") {
            let exp = self.rd(st, args[1].0, sz)?;
            let new = self.rd(st, args[2].0, sz)?;
            let eq = self.dom.bin(Bop::Eq, sz as u8, false, old, exp);
            let (_, out) = self.sig(inst)?;
            let lay = self.lo.layout(out)?;
            match self.decide(st, eq) {
                Some(b) => {
                    if b {
                        self.wr(st, p, sz, new)?;
                    }
                    self.wr(st, dst + lay.fields.offset(0).bytes(), sz, old)?;
                    self.wr(st, dst + lay.fields.offset(1).bytes(), 1, S::K(b as u128))?;
                }
                None => return unsup("compare-exchange on unknown value"),
            }
        } else {
            let x = self.rd(st, args[1].0, sz)?;
            let s8 = sz as u8;
            let r = match n {
                "atomic_xchg" => x,
                "atomic_xadd" => self.dom.bin(Bop::Add, s8, sg, old, x),
                "atomic_xsub" => self.dom.bin(Bop::Sub, s8, sg, old, x),
                "atomic_and" => self.dom.bin(Bop::And, s8, sg, old, x),
                "atomic_or" => self.dom.bin(Bop::Or, s8, sg, old, x),
                "atomic_xor" => self.dom.bin(Bop::Xor, s8, sg, old, x),
                _ => return unsup(n.to_string()),
            };
            self.wr(st, p, sz, r)?;
            self.wr(st, dst, dst_sz, old)?;
        }
        let _ = ShimKind::DropGlue::<'tcx>;
        Ok(NatRes::Done)
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
