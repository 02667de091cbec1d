//! Lowering of monomorphic MIR bodies to a flat form with resolved layouts.
use crate::dom::*;
use crate::mem::*;
use rustc_abi::{FieldIdx, TagEncoding, VariantIdx, Variants};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, Body, ConstValue, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, EarlyBinder, Instance, Ty, TyCtxt};
use rustc_span::Span;
use std::cell::{OnceCell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum PE {
    Deref(bool), // pointee unsized
    Off(u64),
    DynField(u64), // offset to be aligned by the dynamic alignment of a trait object
    Index(u64, u64), // frame offset of index local, element size
    ConstIdxEnd(u64, u64), // offset from end, elem size (slices)
    Subslice { from: u64, to: u64, from_end: bool, esz: u64, arr_len: Option<u64> },
    DropMeta,
}
#[derive(Clone, Debug)]
pub struct PlaceL {
    pub off: u64,
    pub elems: Vec<PE>,
}
#[derive(Clone, Debug)]
pub enum Opnd {
    Place(PlaceL, usize),
    K(u128, usize),
    Global(u64, usize),
    Fat(u64, u64),
    Zst,
    Bad(String),
}
impl Opnd {
    pub fn size(&self) -> usize {
        match self {
            Opnd::Place(_, s) | Opnd::K(_, s) | Opnd::Global(_, s) => *s,
            Opnd::Fat(..) => 16,
            Opnd::Zst | Opnd::Bad(_) => 0,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Int(u8, bool),
    Float(u8),
    FatPtr,
}
#[derive(Clone, Debug)]
pub enum DiscrRead {
    Single(u128),
    Direct { off: u64, sz: u8, signed: bool, out: u8 },
    Niche { off: u64, sz: u8, start: u128, vstart: u32, vlast: u32, untagged: u32, out: u8 },
    Empty,
}
#[derive(Clone, Debug)]
pub struct TagWrite {
    pub off: u64,
    pub sz: u8,
    pub val: u128,
}
#[derive(Clone, Debug)]
pub enum Rv<'tcx> {
    Use(Opnd),
    Repeat(Opnd, u64, u64),
    AddrOf(PlaceL, bool),
    IntCast { a: Opnd, from: u8, signed: bool, to: u8 },
    Float2Int { a: Opnd, from: u8, to: u8, signed: bool },
    Int2Float { a: Opnd, from: u8, signed: bool, to: u8 },
    Float2Float { a: Opnd, from: u8, to: u8 },
    PtrTrunc(Opnd), // fat -> thin
    Unsize(Opnd, Ty<'tcx>, Ty<'tcx>),
    FnPtr(u64),
    Bin(mir::BinOp, Kind, Opnd, Opnd, u8, Kind),
    BinOvf(Bop, Kind, Opnd, Opnd, u64, u64),
    Offset(Opnd, Opnd, u64),
    Not(Opnd, u8, bool),
    Neg(Opnd, Kind),
    PtrMeta(Opnd),
    Discr(PlaceL, DiscrRead),
    Agg(Vec<(u64, Opnd)>, Option<TagWrite>),
    Addr(u64),
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum Ins<'tcx> {
    Assign(PlaceL, usize, Rv<'tcx>),
    SetDiscr(PlaceL, Option<TagWrite>),
    CopyNO(Opnd, Opnd, Opnd, u64),
    Dead(u64, u64),
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Inst(usize),
    Ptr(Opnd),
    Bad(String),
}
#[derive(Clone, Debug)]
pub struct Arg<'tcx> {
    pub op: Opnd,
    pub ty: Ty<'tcx>,
    pub by_addr: bool, // unsized by-value argument
}
#[derive(Clone, Debug)]
pub enum Term<'tcx> {
    Goto(usize),
    Switch(Opnd, Vec<(u128, usize)>, usize, u8),
    Return,
    Unreachable,
    Drop(PlaceL, Ty<'tcx>, usize, bool),
    Call { callee: Callee, args: Vec<Arg<'tcx>>, untupled: bool, dst: PlaceL, dst_ty: Ty<'tcx>, dst_sz: usize, target: Option<usize>, span: Span },
    Assert { cond: Opnd, expected: bool, target: usize, msg: String, span: Span },
    Unsup(String),
}
pub struct Block<'tcx> {
    pub ins: Vec<Ins<'tcx>>,
    pub term: Term<'tcx>,
    pub span: Span,
}
pub struct Func<'tcx> {
    pub inst: Instance<'tcx>,
    pub name: String,
    pub frame: u64,
    pub blocks: Vec<Block<'tcx>>,
    pub slots: Vec<(u64, u64)>,
    pub locals: Vec<(u64, u64)>,
    pub ret: (u64, u64),
    pub ipdom: OnceCell<Vec<Option<usize>>>,
    pub headers: OnceCell<Vec<bool>>,
    pub live: OnceCell<Vec<Vec<bool>>>, // per block: locals possibly live at entry
    pub body: &'tcx Body<'tcx>,
    pub krate: String,
}

pub struct Lower<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: ty::TypingEnv<'tcx>,
    pub pool: Vec<Rc<Alloc>>,
    pub galloc: HashMap<AllocId, u64>,
    pub statics: HashMap<DefId, u64>,
    pub static_of: HashMap<u32, DefId>,
    pub fnptr: HashMap<Instance<'tcx>, u64>,
    pub fn_of: HashMap<u32, Instance<'tcx>>,
    pub insts: Vec<Instance<'tcx>>,
    pub inst_ix: HashMap<Instance<'tcx>, usize>,
    pub layouts: RefCell<HashMap<Ty<'tcx>, TyAndLayout<'tcx>>>,
}

impl<'tcx> Lower<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Lower {
            tcx,
            env: ty::TypingEnv::fully_monomorphized(),
            pool: vec![],
            galloc: HashMap::new(),
            statics: HashMap::new(),
            static_of: HashMap::new(),
            fnptr: HashMap::new(),
            fn_of: HashMap::new(),
            insts: vec![],
            inst_ix: HashMap::new(),
            layouts: RefCell::new(HashMap::new()),
        }
    }
    pub fn cx(&self) -> LayoutCx<'tcx> {
        LayoutCx::new(self.tcx, self.env)
    }
    pub fn layout(&self, ty: Ty<'tcx>) -> R<TyAndLayout<'tcx>> {
        if let Some(l) = self.layouts.borrow().get(&ty) {
            return Ok(*l);
        }
        match self.tcx.layout_of(self.env.as_query_input(ty)) {
            Ok(l) => {
                self.layouts.borrow_mut().insert(ty, l);
                Ok(l)
            }
            Err(e) => unsup(format!("layout of {}: {:?}", ty, e)),
        }
    }
    pub fn size(&self, ty: Ty<'tcx>) -> R<u64> {
        Ok(self.layout(ty)?.size.bytes())
    }
    pub fn is_sized(&self, ty: Ty<'tcx>) -> bool {
        ty.is_sized(self.tcx, self.env)
    }
    pub fn inst_id(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(k) = self.inst_ix.get(&i) {
            return *k;
        }
        let k = self.insts.len();
        self.insts.push(i);
        self.inst_ix.insert(i, k);
        k
    }
    fn new_global(&mut self, a: Alloc) -> u64 {
        let id = GLOBAL_BASE + self.pool.len() as u32;
        self.pool.push(Rc::new(a));
        addr(id, 0)
    }
    pub fn new_global_bytes(&mut self, b: &[u8]) -> u64 {
        self.new_global(Alloc { bytes: b.to_vec(), ..Default::default() })
    }
    pub fn fn_addr(&mut self, i: Instance<'tcx>) -> u64 {
        if let Some(a) = self.fnptr.get(&i) {
            return *a;
        }
        let a = self.new_global(Alloc::zeroed(16));
        self.fnptr.insert(i, a);
        self.fn_of.insert((a >> 32) as u32, i);
        a
    }
    pub fn static_addr(&mut self, d: DefId) -> R<u64> {
        if let Some(a) = self.statics.get(&d) {
            return Ok(*a);
        }
        if self.tcx.is_foreign_item(d) {
            // extern static: only weak symbols of libc reach this; modelled as null
            let a = self.new_global(Alloc::zeroed(64));
            self.statics.insert(d, a);
            self.static_of.insert((a >> 32) as u32, d);
            return Ok(a);
        }
        let c = match self.tcx.eval_static_initializer(d) {
            Ok(c) => c,
            Err(_) => return unsup("static initializer"),
        };
        let a = self.new_global(Alloc::default());
        self.statics.insert(d, a);
        self.static_of.insert((a >> 32) as u32, d);
        let al = self.conv_alloc(c)?;
        self.pool[((a >> 32) as u32 - GLOBAL_BASE) as usize] = Rc::new(al);
        Ok(a)
    }
    fn conv_alloc(&mut self, c: mir::interpret::ConstAllocation<'tcx>) -> R<Alloc> {
        let inner = c.inner();
        let n = inner.size().bytes_usize();
        let mut bytes = inner.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
        let ptrs: Vec<_> = inner.provenance().ptrs().iter().map(|(o, p)| (o.bytes_usize(), p.alloc_id())).collect();
        for (o, aid) in ptrs {
            let cur = u64::from_le_bytes(bytes[o..o + 8].try_into().unwrap());
            let base = self.global_addr(aid)?;
            bytes[o..o + 8].copy_from_slice(&(base.wrapping_add(cur)).to_le_bytes());
        }
        Ok(Alloc { bytes, ..Default::default() })
    }
    pub fn global_addr(&mut self, id: AllocId) -> R<u64> {
        if let Some(a) = self.galloc.get(&id) {
            return Ok(*a);
        }
        let a = match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(c) => {
                let a = self.new_global(Alloc::default());
                self.galloc.insert(id, a);
                let al = self.conv_alloc(c)?;
                self.pool[((a >> 32) as u32 - GLOBAL_BASE) as usize] = Rc::new(al);
                a
            }
            GlobalAlloc::Static(d) => self.static_addr(d)?,
            GlobalAlloc::Function { instance } => self.fn_addr(instance),
            GlobalAlloc::VTable(ty, preds) => {
                let principal = preds.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
                let v = self.tcx.vtable_allocation((ty, principal));
                self.global_addr(v)?
            }
            GlobalAlloc::TypeId { .. } => 0,
        };
        self.galloc.insert(id, a);
        Ok(a)
    }
    pub fn vtable(&mut self, ty: Ty<'tcx>, dynty: Ty<'tcx>) -> R<u64> {
        let ty::Dynamic(preds, _) = dynty.kind() else { return unsup("vtable for non-dyn") };
        let principal = preds.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
        let v = self.tcx.vtable_allocation((ty, principal));
        self.global_addr(v)
    }

    pub fn mono<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, inst: Instance<'tcx>, t: T) -> R<T> {
        match inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, t)) {
            Ok(x) => Ok(x),
            Err(_) => unsup("normalize"),
        }
    }

    fn place(&self, inst: Instance<'tcx>, locals: &[(u64, u64)], ltys: &[Ty<'tcx>], p: &mir::Place<'tcx>) -> R<(PlaceL, Ty<'tcx>, Option<VariantIdx>)> {
        let l = p.local.as_usize();
        let mut ty = ltys[l];
        let mut var: Option<VariantIdx> = None;
        let mut out = PlaceL { off: locals[l].0, elems: vec![] };
        let push_off = |out: &mut PlaceL, o: u64| {
            if o == 0 {
                return;
            }
            if out.elems.is_empty() {
                out.off += o;
            } else if let Some(PE::Off(x)) = out.elems.last_mut() {
                *x += o;
            } else {
                out.elems.push(PE::Off(o));
            }
        };
        for e in p.projection.iter() {
            use mir::ProjectionElem as P;
            match e {
                P::Deref => {
                    let pointee = match ty.builtin_deref(true) {
                        Some(t) => t,
                        None => return unsup(format!("deref of {}", ty)),
                    };
                    out.elems.push(PE::Deref(!self.is_sized(pointee)));
                    ty = pointee;
                    var = None;
                }
                P::Field(f, fty) => {
                    let mut lay = self.layout(ty)?;
                    if let Some(v) = var {
                        lay = lay.for_variant(&self.cx(), v);
                    }
                    let off = lay.fields.offset(f.as_usize()).bytes();
                    let fty = self.mono(inst, fty)?;
                    if !self.is_sized(ty) {
                        let tail = self.tcx.struct_tail_for_codegen(fty, self.env);
                        if !self.is_sized(fty) {
                            if tail.is_trait() {
                                out.elems.push(PE::DynField(off));
                            } else {
                                push_off(&mut out, off);
                            }
                        } else {
                            push_off(&mut out, off);
                            out.elems.push(PE::DropMeta);
                        }
                    } else {
                        push_off(&mut out, off);
                    }
                    ty = fty;
                    var = None;
                }
                P::Index(i) => {
                    let et = ty.builtin_index().ok_or(Fail::Unsupported("index".into()))?;
                    out.elems.push(PE::Index(locals[i.as_usize()].0, self.size(et)?));
                    ty = et;
                    var = None;
                }
                P::ConstantIndex { offset, from_end, .. } => {
                    let et = ty.builtin_index().ok_or(Fail::Unsupported("index".into()))?;
                    let esz = self.size(et)?;
                    match ty.kind() {
                        ty::Array(_, n) => {
                            let n = n.try_to_target_usize(self.tcx).ok_or(Fail::Unsupported("array len".into()))?;
                            let k = if from_end { n - offset } else { offset };
                            push_off(&mut out, k * esz);
                        }
                        _ => {
                            if from_end {
                                out.elems.push(PE::ConstIdxEnd(offset, esz));
                            } else {
                                push_off(&mut out, offset * esz);
                                out.elems.push(PE::DropMeta);
                            }
                        }
                    }
                    ty = et;
                    var = None;
                }
                P::Subslice { from, to, from_end } => {
                    let et = ty.builtin_index().ok_or(Fail::Unsupported("index".into()))?;
                    let esz = self.size(et)?;
                    let arr_len = match ty.kind() {
                        ty::Array(_, n) => n.try_to_target_usize(self.tcx),
                        _ => None,
                    };
                    out.elems.push(PE::Subslice { from, to, from_end, esz, arr_len });
                    if let Some(n) = arr_len {
                        let m = if from_end { n - from - to } else { to - from };
                        ty = Ty::new_array(self.tcx, et, m);
                    }
                    var = None;
                }
                P::Downcast(_, v) => {
                    var = Some(v);
                }
                P::OpaqueCast(t) | P::UnwrapUnsafeBinder(t) => {
                    ty = self.mono(inst, t)?;
                }
                P::PhantomDeref => return unsup("PhantomDeref"),
            }
        }
        Ok((out, ty, var))
    }

    pub fn const_opnd(&mut self, c: mir::Const<'tcx>, span: Span) -> R<Opnd> {
        let ty = c.ty();
        let lay = self.layout(ty)?;
        if lay.size.bytes() == 0 {
            return Ok(Opnd::Zst);
        }
        let v = match c.eval(self.tcx, self.env, span) {
            Ok(v) => v,
            Err(_) => return Ok(Opnd::Bad("constant evaluation failed".into())),
        };
        self.constvalue(v, lay.size.bytes_usize())
    }
    pub fn constvalue(&mut self, v: ConstValue, sz: usize) -> R<Opnd> {
        Ok(match v {
            ConstValue::Scalar(Scalar::Int(i)) => Opnd::K(i.to_bits(i.size()), sz),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let base = self.global_addr(prov.alloc_id())?;
                Opnd::K(base.wrapping_add(off.bytes()) as u128, sz)
            }
            ConstValue::ZeroSized => Opnd::Zst,
            ConstValue::Slice { alloc_id, meta } => {
                let a = self.global_addr(alloc_id)?;
                Opnd::Fat(a, meta)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.global_addr(alloc_id)?;
                Opnd::Global(a + offset.bytes(), sz)
            }
        })
    }

    pub fn discr_read(&self, ty: Ty<'tcx>) -> R<DiscrRead> {
        let lay = self.layout(ty)?;
        let out = self.size(ty.discriminant_ty(self.tcx))? as u8;
        Ok(match &lay.variants {
            Variants::Empty => DiscrRead::Empty,
            Variants::Single { index } => {
                let d = ty.discriminant_for_variant(self.tcx, *index).map(|d| d.val).unwrap_or(index.as_u32() as u128);
                DiscrRead::Single(d)
            }
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = lay.fields.offset(tag_field.as_usize()).bytes();
                let sz = tag.size(&self.tcx).bytes() as u8;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let signed = matches!(tag.primitive(), rustc_abi::Primitive::Int(_, true));
                        DiscrRead::Direct { off, sz, signed, out }
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => DiscrRead::Niche {
                        off,
                        sz,
                        start: *niche_start,
                        vstart: niche_variants.start.as_u32(),
                        vlast: niche_variants.last.as_u32(),
                        untagged: untagged_variant.as_u32(),
                        out,
                    },
                }
            }
        })
    }
    pub fn tag_write(&self, ty: Ty<'tcx>, v: VariantIdx) -> R<Option<TagWrite>> {
        let lay = self.layout(ty)?;
        Ok(match &lay.variants {
            Variants::Empty | Variants::Single { .. } => None,
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = lay.fields.offset(tag_field.as_usize()).bytes();
                let sz = tag.size(&self.tcx).bytes() as u8;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let d = ty.discriminant_for_variant(self.tcx, v).map(|d| d.val).unwrap_or(v.as_u32() as u128);
                        Some(TagWrite { off, sz, val: d & mask(sz) })
                    }
                    TagEncoding::Niche { untagged_variant, .. } if *untagged_variant == v => None,
                    TagEncoding::Niche { niche_variants, niche_start, .. } => {
                        let rel = v.as_u32().wrapping_sub(niche_variants.start.as_u32()) as u128;
                        Some(TagWrite { off, sz, val: rel.wrapping_add(*niche_start) & mask(sz) })
                    }
                }
            }
        })
    }
    pub fn kind(&self, ty: Ty<'tcx>) -> R<Kind> {
        Ok(match ty.kind() {
            ty::Bool | ty::Uint(_) | ty::Char => Kind::Int(self.size(ty)? as u8, false),
            ty::Int(_) => Kind::Int(self.size(ty)? as u8, true),
            ty::Float(_) => Kind::Float(self.size(ty)? as u8),
            ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..) => {
                if self.size(ty)? == 16 { Kind::FatPtr } else { Kind::Int(8, false) }
            }
            ty::Adt(..) | ty::Pat(..) | ty::Tuple(..) => {
                let s = self.size(ty)?;
                if s <= 16 { Kind::Int(s as u8, false) } else { return unsup(format!("scalar kind of {}", ty)) }
            }
            _ => return unsup(format!("scalar kind of {}", ty)),
        })
    }

    pub fn lower(&mut self, inst: Instance<'tcx>) -> R<Func<'tcx>> {
        let tcx = self.tcx;
        let body: &'tcx Body<'tcx> = tcx.instance_mir(inst.def);
        let mut ltys = vec![];
        let mut locals = vec![];
        let mut off = 0u64;
        for d in body.local_decls.iter() {
            let ty = self.mono(inst, d.ty)?;
            ltys.push(ty);
            let (sz, al) = match self.layout(ty) {
                Ok(l) if l.is_sized() => (l.size.bytes(), l.align.bytes().min(16)),
                _ => (16, 8), // unsized by-value locals are held by address
            };
            off = (off + al - 1) / al * al;
            locals.push((off, sz));
            off += sz;
        }
        let frame = (off + 15) / 16 * 16;
        let mut slots = vec![];
        for l in body.args_iter() {
            if Some(l) == body.spread_arg {
                let ty = ltys[l.as_usize()];
                let lay = self.layout(ty)?;
                let n = lay.fields.count();
                for i in 0..n {
                    let f = lay.field(&self.cx(), i);
                    slots.push((locals[l.as_usize()].0 + lay.fields.offset(i).bytes(), f.size.bytes()));
                }
            } else {
                slots.push(locals[l.as_usize()]);
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(Block { ins: vec![], term: Term::Unsup("cleanup".into()), span: bb.terminator().source_info.span });
                continue;
            }
            let mut ins = vec![];
            for st in bb.statements.iter() {
                match self.stmt(inst, &locals, &ltys, st) {
                    Ok(Some(i)) => ins.push(i),
                    Ok(None) => {}
                    Err(Fail::Unsupported(s)) => ins.push(Ins::Unsup(s)),
                    Err(e) => return Err(e),
                }
            }
            let t = bb.terminator();
            let term = match self.term(inst, &locals, &ltys, body, t) {
                Ok(t) => t,
                Err(Fail::Unsupported(s)) => Term::Unsup(s),
                Err(e) => return Err(e),
            };
            blocks.push(Block { ins, term, span: t.source_info.span });
        }
        Ok(Func {
            inst,
            name: tcx.def_path_str(inst.def_id()),
            frame,
            blocks,
            slots,
            ret: locals[0],
            locals,
            ipdom: OnceCell::new(),
            headers: OnceCell::new(),
            live: OnceCell::new(),
            body,
            krate: tcx.crate_name(inst.def_id().krate).to_string(),
        })
    }
    fn opnd(&mut self, inst: Instance<'tcx>, locals: &[(u64, u64)], ltys: &[Ty<'tcx>], o: &mir::Operand<'tcx>) -> R<(Opnd, Ty<'tcx>)> {
        Ok(match o {
            mir::Operand::Copy(p) | mir::Operand::Move(p) => {
                let (pl, ty, _) = self.place(inst, locals, ltys, p)?;
                let lay = self.layout(ty)?;
                let sz = if lay.is_sized() { lay.size.bytes_usize() } else { 0 };
                (Opnd::Place(pl, sz), ty)
            }
            mir::Operand::Constant(c) => {
                let k = self.mono(inst, c.const_)?;
                (self.const_opnd(k, c.span)?, k.ty())
            }
            mir::Operand::RuntimeChecks(rc) => {
                let v = match rc {
                    mir::RuntimeChecks::UbChecks => 0,
                    mir::RuntimeChecks::ContractChecks => 0,
                    mir::RuntimeChecks::OverflowChecks => self.tcx.sess.overflow_checks() as u128,
                };
                (Opnd::K(v, 1), self.tcx.types.bool)
            }
        })
    }
    fn stmt(&mut self, inst: Instance<'tcx>, locals: &[(u64, u64)], ltys: &[Ty<'tcx>], st: &mir::Statement<'tcx>) -> R<Option<Ins<'tcx>>> {
        Ok(match &st.kind {
            StatementKind::Assign(b) => {
                let (p, rv) = &**b;
                let (pl, ty, _) = self.place(inst, locals, ltys, p)?;
                let sz = self.size(ty)? as usize;
                let r = match self.rvalue(inst, locals, ltys, rv, ty) {
                    Ok(r) => r,
                    Err(Fail::Unsupported(s)) => Rv::Unsup(s),
                    Err(e) => return Err(e),
                };
                if sz == 0 && !matches!(r, Rv::Unsup(_)) {
                    return Ok(None);
                }
                Some(Ins::Assign(pl, sz, r))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let (pl, ty, _) = self.place(inst, locals, ltys, place)?;
                Some(Ins::SetDiscr(pl, self.tag_write(ty, *variant_index)?))
            }
            StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(_) => None,
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let (s, sty) = self.opnd(inst, locals, ltys, &c.src)?;
                    let (d, _) = self.opnd(inst, locals, ltys, &c.dst)?;
                    let (n, _) = self.opnd(inst, locals, ltys, &c.count)?;
                    let el = sty.builtin_deref(true).ok_or(Fail::Unsupported("cno".into()))?;
                    let esz = self.size(el)?;
                    Some(Ins::CopyNO(s, d, n, esz))
                }
            },
            StatementKind::StorageDead(l) => {
                let (o, s) = locals[l.as_usize()];
                if s == 0 { None } else { Some(Ins::Dead(o, s)) }
            }
            _ => None,
        })
    }
    fn rvalue(&mut self, inst: Instance<'tcx>, locals: &[(u64, u64)], ltys: &[Ty<'tcx>], rv: &Rvalue<'tcx>, dty: Ty<'tcx>) -> R<Rv<'tcx>> {
        use mir::CastKind as C;
        Ok(match rv {
            Rvalue::Use(o, _) => Rv::Use(self.opnd(inst, locals, ltys, o)?.0),
            Rvalue::CopyForDeref(p) => {
                let (pl, ty, _) = self.place(inst, locals, ltys, p)?;
                let sz = self.size(ty)? as usize;
                Rv::Use(Opnd::Place(pl, sz))
            }
            Rvalue::Repeat(o, n) => {
                let (a, ty) = self.opnd(inst, locals, ltys, o)?;
                let n = self.mono(inst, *n)?;
                let n = n.try_to_target_usize(self.tcx).ok_or(Fail::Unsupported("repeat len".into()))?;
                Rv::Repeat(a, n, self.size(ty)?)
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                if let Rvalue::Reborrow(..) = rv {
                    let (pl, ty, _) = self.place(inst, locals, ltys, p)?;
                    let sz = self.size(ty)? as usize;
                    return Ok(Rv::Use(Opnd::Place(pl, sz)));
                }
                let (pl, ty, _) = self.place(inst, locals, ltys, p)?;
                Rv::AddrOf(pl, !self.is_sized(ty))
            }
            Rvalue::ThreadLocalRef(d) => Rv::Addr(self.static_addr(*d)?),
            Rvalue::Cast(k, o, t) => {
                let (a, sty) = self.opnd(inst, locals, ltys, o)?;
                let t = self.mono(inst, *t)?;
                match k {
                    C::IntToInt | C::PointerExposeProvenance | C::PointerWithExposedProvenance => {
                        let Kind::Int(fs, sg) = self.kind(sty)? else { return unsup("cast kind") };
                        let ts = self.size(t)? as u8;
                        Rv::IntCast { a, from: fs, signed: sg, to: ts }
                    }
                    C::FloatToInt => {
                        let Kind::Int(ts, sg) = self.kind(t)? else { return unsup("cast kind") };
                        Rv::Float2Int { a, from: self.size(sty)? as u8, to: ts, signed: sg }
                    }
                    C::IntToFloat => {
                        let Kind::Int(fs, sg) = self.kind(sty)? else { return unsup("cast kind") };
                        Rv::Int2Float { a, from: fs, signed: sg, to: self.size(t)? as u8 }
                    }
                    C::FloatToFloat => Rv::Float2Float { a, from: self.size(sty)? as u8, to: self.size(t)? as u8 },
                    C::PtrToPtr | C::FnPtrToPtr => {
                        if self.size(sty)? == 16 && self.size(t)? == 8 {
                            Rv::PtrTrunc(a)
                        } else {
                            Rv::Use(a)
                        }
                    }
                    C::Transmute | C::Subtype | C::BoxDerefTransmute => Rv::Use(a),
                    C::PointerCoercion(pc, _) => {
                        use ty::adjustment::PointerCoercion as PC;
                        match pc {
                            PC::ReifyFnPointer(_) => {
                                let ty::FnDef(d, args) = sty.kind() else { return unsup("reify") };
                                let i = match Instance::resolve_for_fn_ptr(self.tcx, self.env, *d, args.no_bound_vars().ok_or(Fail::Unsupported("late bound fn args".into()))?) {
                                    Some(i) => i,
                                    None => return unsup("reify resolve"),
                                };
                                Rv::FnPtr(self.fn_addr(i))
                            }
                            PC::ClosureFnPointer(_) => {
                                let ty::Closure(d, args) = sty.kind() else { return unsup("closure fn ptr") };
                                let i = Instance::resolve_closure(self.tcx, *d, args, ty::ClosureKind::FnOnce);
                                Rv::FnPtr(self.fn_addr(i))
                            }
                            PC::UnsafeFnPointer | PC::MutToConstPointer | PC::ArrayToPointer => Rv::Use(a),
                            PC::Unsize => Rv::Unsize(a, sty, t),
                        }
                    }
                }
            }
            Rvalue::BinaryOp(op, ab) => {
                use mir::BinOp as B;
                let (a, aty) = self.opnd(inst, locals, ltys, &ab.0)?;
                let (b, bty) = self.opnd(inst, locals, ltys, &ab.1)?;
                match op {
                    B::Offset => {
                        let el = aty.builtin_deref(true).ok_or(Fail::Unsupported("offset".into()))?;
                        Rv::Offset(a, b, self.size(el)?)
                    }
                    B::AddWithOverflow | B::SubWithOverflow | B::MulWithOverflow => {
                        let lay = self.layout(dty)?;
                        let k = self.kind(aty)?;
                        let bop = match op {
                            B::AddWithOverflow => Bop::Add,
                            B::SubWithOverflow => Bop::Sub,
                            _ => Bop::Mul,
                        };
                        Rv::BinOvf(bop, k, a, b, lay.fields.offset(0).bytes(), lay.fields.offset(1).bytes())
                    }
                    _ => {
                        if self.size(aty)? == 0 {
                            return Ok(Rv::Use(Opnd::K(matches!(op, B::Eq | B::Le | B::Ge) as u128, 1)));
                        }
                        let k = self.kind(aty)?;
                        let kb = self.kind(bty)?;
                        Rv::Bin(*op, k, a, b, self.size(dty)? as u8, kb)
                    }
                }
            }
            Rvalue::UnaryOp(op, o) => {
                let (a, ty) = self.opnd(inst, locals, ltys, o)?;
                match op {
                    mir::UnOp::Not => Rv::Not(a, self.size(ty)? as u8, ty.is_bool()),
                    mir::UnOp::Neg => Rv::Neg(a, self.kind(ty)?),
                    mir::UnOp::PtrMetadata => Rv::PtrMeta(a),
                }
            }
            Rvalue::Discriminant(p) => {
                let (pl, ty, _) = self.place(inst, locals, ltys, p)?;
                Rv::Discr(pl, self.discr_read(ty)?)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                let mut tag = None;
                match &**k {
                    mir::AggregateKind::Array(_) => {
                        let et = dty.builtin_index().ok_or(Fail::Unsupported("agg".into()))?;
                        let esz = self.size(et)?;
                        for (i, o) in ops.iter().enumerate() {
                            v.push((i as u64 * esz, self.opnd(inst, locals, ltys, o)?.0));
                        }
                    }
                    mir::AggregateKind::RawPtr(..) => {
                        let (a, _) = self.opnd(inst, locals, ltys, &ops[FieldIdx::from_usize(0)])?;
                        v.push((0, a));
                        let (b, _) = self.opnd(inst, locals, ltys, &ops[FieldIdx::from_usize(1)])?;
                        v.push((8, b));
                    }
                    other => {
                        let mut lay = self.layout(dty)?;
                        let mut active = None;
                        if let mir::AggregateKind::Adt(_, vi, _, _, af) = other {
                            active = *af;
                            if dty.is_enum() {
                                tag = self.tag_write(dty, *vi)?;
                                lay = lay.for_variant(&self.cx(), *vi);
                            }
                        }
                        for (i, o) in ops.iter().enumerate() {
                            let fi = active.map(|f| f.as_usize()).unwrap_or(i);
                            v.push((lay.fields.offset(fi).bytes(), self.opnd(inst, locals, ltys, o)?.0));
                        }
                    }
                }
                Rv::Agg(v, tag)
            }
            Rvalue::WrapUnsafeBinder(o, _) => Rv::Use(self.opnd(inst, locals, ltys, o)?.0),
        })
    }
    fn term(&mut self, inst: Instance<'tcx>, locals: &[(u64, u64)], ltys: &[Ty<'tcx>], body: &Body<'tcx>, t: &mir::Terminator<'tcx>) -> R<Term<'tcx>> {
        let span = t.source_info.span;
        Ok(match &t.kind {
            TerminatorKind::Goto { target, .. } => Term::Goto(target.as_usize()),
            TerminatorKind::FalseEdge { real_target, .. } => Term::Goto(real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => Term::Goto(real_target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let (o, ty) = self.opnd(inst, locals, ltys, discr)?;
                let sz = self.size(ty)? as u8;
                Term::Switch(o, targets.iter().map(|(v, b)| (v, b.as_usize())).collect(), targets.otherwise().as_usize(), sz)
            }
            TerminatorKind::Return => Term::Return,
            TerminatorKind::Unreachable => Term::Unreachable,
            TerminatorKind::Drop { place, target, .. } => {
                let (pl, ty, _) = self.place(inst, locals, ltys, place)?;
                if !ty.needs_drop(self.tcx, self.env) {
                    Term::Goto(target.as_usize())
                } else {
                    Term::Drop(pl, ty, target.as_usize(), !self.is_sized(ty))
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (o, _) = self.opnd(inst, locals, ltys, cond)?;
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("overflow in {:?}", op),
                    mir::AssertKind::OverflowNeg(_) => "overflow in neg".into(),
                    mir::AssertKind::DivisionByZero(_) => "division by zero".into(),
                    mir::AssertKind::RemainderByZero(_) => "remainder by zero".into(),
                    _ => "assert".into(),
                };
                Term::Assert { cond: o, expected: *expected, target: target.as_usize(), msg: m, span }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.mono(inst, func.ty(body, self.tcx))?;
                let (dst, dst_ty, _) = self.place(inst, locals, ltys, destination)?;
                let dst_sz = self.size(dst_ty)? as usize;
                let (callee, abi) = match fty.kind() {
                    ty::FnDef(d, ga) => {
                        let abi = self.tcx.fn_sig(*d).skip_binder().abi();
                        let c = match Instance::try_resolve(self.tcx, self.env, *d, ga.no_bound_vars().ok_or(Fail::Unsupported("late bound fn args".into()))?) {
                            Ok(Some(i)) => Callee::Inst(self.inst_id(i)),
                            _ => Callee::Bad(format!("cannot resolve {}", self.tcx.def_path_str(*d))),
                        };
                        (c, abi)
                    }
                    ty::FnPtr(_, hdr) => {
                        let (o, _) = self.opnd(inst, locals, ltys, func)?;
                        (Callee::Ptr(o), hdr.abi())
                    }
                    _ => return unsup(format!("call of {}", fty)),
                };
                let mut av = vec![];
                let n = args.len();
                let rustcall = abi == rustc_abi::ExternAbi::RustCall;
                for (i, a) in args.iter().enumerate() {
                    let (op, ty) = self.opnd(inst, locals, ltys, &a.node)?;
                    if rustcall && i + 1 == n {
                        if let ty::Tuple(ts) = ty.kind() {
                            let lay = self.layout(ty)?;
                            for (k, fty) in ts.iter().enumerate() {
                                let o = lay.fields.offset(k).bytes();
                                let fs = self.size(fty)? as usize;
                                let fo = match &op {
                                    Opnd::Place(p, _) => {
                                        let mut p = p.clone();
                                        if p.elems.is_empty() { p.off += o } else { p.elems.push(PE::Off(o)) }
                                        Opnd::Place(p, fs)
                                    }
                                    Opnd::Global(a, _) => Opnd::Global(a + o, fs),
                                    Opnd::K(v, _) => Opnd::K((v >> (8 * o)) & mask(fs.min(16) as u8), fs),
                                    Opnd::Zst => Opnd::Zst,
                                    Opnd::Fat(a, b) => if fs == 16 { Opnd::Fat(*a, *b) } else { Opnd::K(if o == 0 { *a } else { *b } as u128, fs) },
                                    Opnd::Bad(s) => Opnd::Bad(s.clone()),
                                };
                                av.push(Arg { op: fo, ty: fty, by_addr: false });
                            }
                            continue;
                        }
                    }
                    let by_addr = !self.is_sized(ty);
                    av.push(Arg { op, ty, by_addr });
                }
                Term::Call { callee, args: av, untupled: rustcall, dst, dst_ty, dst_sz, target: target.map(|b| b.as_usize()), span }
            }
            TerminatorKind::InlineAsm { .. } => Term::Unsup("inline asm".into()),
            k => Term::Unsup(format!("terminator {:?}", std::mem::discriminant(k))),
        })
    }
}

pub fn succs(t: &Term<'_>) -> Vec<usize> {
    match t {
        Term::Goto(b) => vec![*b],
        Term::Switch(_, v, o, _) => v.iter().map(|x| x.1).chain([*o]).collect(),
        Term::Drop(_, _, b, _) => vec![*b],
        Term::Call { target, .. } => target.iter().copied().collect(),
        Term::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

impl<'tcx> Func<'tcx> {
    /// Immediate post-dominator of each block (None: only the exit).
    pub fn ipdoms(&self) -> &Vec<Option<usize>> {
        self.ipdom.get_or_init(|| {
            let n = self.blocks.len();
            let exit = n;
            let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
            let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
            for (i, b) in self.blocks.iter().enumerate() {
                if let Term::Return = b.term {
                    preds[exit].push(i);
                    succ[i].push(exit);
                }
                for s in succs(&b.term) {
                    preds[s].push(i);
                    succ[i].push(s);
                }
            }
            // reverse postorder on the reversed graph from exit
            let mut order = vec![];
            let mut seen = vec![false; n + 1];
            let mut st = vec![(exit, 0usize)];
            seen[exit] = true;
            while let Some((b, i)) = st.last_mut() {
                if *i < preds[*b].len() {
                    let p = preds[*b][*i];
                    *i += 1;
                    if !seen[p] {
                        seen[p] = true;
                        st.push((p, 0));
                    }
                } else {
                    order.push(*b);
                    st.pop();
                }
            }
            order.reverse();
            let mut num = vec![usize::MAX; n + 1];
            for (i, b) in order.iter().enumerate() {
                num[*b] = i;
            }
            let mut idom: Vec<Option<usize>> = vec![None; n + 1];
            idom[exit] = Some(exit);
            let mut ch = true;
            while ch {
                ch = false;
                for &b in order.iter().skip(1) {
                    let mut nd: Option<usize> = None;
                    for &s in &succ[b] {
                        if idom[s].is_none() {
                            continue;
                        }
                        nd = Some(match nd {
                            None => s,
                            Some(mut x) => {
                                let mut y = s;
                                while x != y {
                                    while num[x] > num[y] {
                                        x = idom[x].unwrap();
                                    }
                                    while num[y] > num[x] {
                                        y = idom[y].unwrap();
                                    }
                                }
                                x
                            }
                        });
                    }
                    if nd.is_some() && idom[b] != nd {
                        idom[b] = nd;
                        ch = true;
                    }
                }
            }
            (0..n).map(|b| idom[b].filter(|d| *d != exit)).collect()
        })
    }
    /// Blocks that are targets of a back edge.
    pub fn loop_headers(&self) -> &Vec<bool> {
        self.headers.get_or_init(|| {
            let n = self.blocks.len();
            let mut h = vec![false; n];
            let mut state = vec![0u8; n];
            let mut st = vec![(0usize, 0usize)];
            state[0] = 1;
            while let Some((b, i)) = st.last_mut() {
                let ss = succs(&self.blocks[*b].term);
                if *i < ss.len() {
                    let s = ss[*i];
                    *i += 1;
                    if state[s] == 0 {
                        state[s] = 1;
                        st.push((s, 0));
                    } else if state[s] == 1 {
                        h[s] = true;
                    }
                } else {
                    state[*b] = 2;
                    st.pop();
                }
            }
            h
        })
    }
    /// Locals that may be read after entering each block (address-taken locals always count).
    pub fn live_in(&self) -> &Vec<Vec<bool>> {
        self.live.get_or_init(|| {
            use rustc_middle::mir::visit::{PlaceContext, Visitor};
            struct U { gen_: Vec<bool>, kill: Vec<bool>, taken: Vec<bool> }
            impl<'tcx> Visitor<'tcx> for U {
                fn visit_local(&mut self, l: mir::Local, c: PlaceContext, _: mir::Location) {
                    let i = l.as_usize();
                    if c.is_borrow() || c.is_address_of() {
                        self.taken[i] = true;
                    }
                    if c.is_use() && !c.is_place_assignment() {
                        if !self.kill[i] {
                            self.gen_[i] = true;
                        }
                    }
                }
                fn visit_place(&mut self, p: &mir::Place<'tcx>, c: PlaceContext, loc: mir::Location) {
                    if p.projection.is_empty() {
                        self.visit_local(p.local, c, loc);
                    } else {
                        // any projected access reads or partially writes: keep it live
                        let i = p.local.as_usize();
                        if c.is_borrow() || c.is_address_of() {
                            self.taken[i] = true;
                        }
                        if !self.kill[i] {
                            self.gen_[i] = true;
                        }
                        for e in p.projection.iter() {
                            if let mir::ProjectionElem::Index(l) = e {
                                if !self.kill[l.as_usize()] {
                                    self.gen_[l.as_usize()] = true;
                                }
                            }
                        }
                    }
                }
            }
            let nl = self.body.local_decls.len();
            let nb = self.blocks.len();
            let mut gens = vec![];
            let mut kills = vec![];
            let mut taken = vec![false; nl];
            for (bb, data) in self.body.basic_blocks.iter_enumerated() {
                let mut u = U { gen_: vec![false; nl], kill: vec![false; nl], taken: std::mem::take(&mut taken) };
                for (i, s) in data.statements.iter().enumerate() {
                    let loc = mir::Location { block: bb, statement_index: i };
                    match &s.kind {
                        StatementKind::Assign(b) => {
                            u.visit_rvalue(&b.1, loc);
                            if b.0.projection.is_empty() {
                                let k = b.0.local.as_usize();
                                if !u.gen_[k] { u.kill[k] = true; }
                            } else {
                                u.visit_statement(s, loc);
                            }
                        }
                        StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                            let k = l.as_usize();
                            if !u.gen_[k] { u.kill[k] = true; }
                        }
                        _ => u.visit_statement(s, loc),
                    }
                }
                u.visit_terminator(data.terminator(), mir::Location { block: bb, statement_index: data.statements.len() });
                taken = u.taken;
                gens.push(u.gen_);
                kills.push(u.kill);
            }
            let mut live = gens.clone();
            let mut ch = true;
            while ch {
                ch = false;
                for b in (0..nb).rev() {
                    for s in succs(&self.blocks[b].term) {
                        for l in 0..nl {
                            if live[s][l] && !kills[b][l] && !live[b][l] {
                                live[b][l] = true;
                                ch = true;
                            }
                        }
                    }
                    if let Term::Return = self.blocks[b].term {
                        if !live[b][0] && !kills[b][0] { live[b][0] = true; ch = true; }
                    }
                }
            }
            for b in live.iter_mut() {
                for l in 0..nl {
                    if taken[l] { b[l] = true; }
                }
            }
            live
        })
    }
}
