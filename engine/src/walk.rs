//! Whole-program effect analysis: reachability over the monomorphic call
//! graph, and queries on the public interface.
use crate::nat::jstr;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, visit::Visitor};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

pub struct Walk<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    parent: HashMap<Instance<'tcx>, Option<Instance<'tcx>>>,
    todo: VecDeque<Instance<'tcx>>,
    pub sinks: BTreeMap<(String, String), String>,
    pub calls: usize,
    pub cut: usize,
    pub ints: BTreeMap<u128, BTreeSet<String>>,
}

/// std entry points that run an initialiser exactly once.
const ONCE: &[&str] = &["call_once", "call_once_force", "get_or_init", "get_or_try_init", "force"];

impl<'tcx> Walk<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Walk { tcx, env: TypingEnv::fully_monomorphized(), parent: HashMap::new(), todo: VecDeque::new(), sinks: BTreeMap::new(), calls: 0, cut: 0, ints: BTreeMap::new() }
    }
    fn name(&self, i: Instance<'tcx>) -> String {
        let d = i.def_id();
        let k = self.tcx.crate_name(d.krate).to_string();
        let p = self.tcx.def_path_str(d);
        if p.starts_with(&format!("{}::", k)) || p.starts_with('<') || k == "core" || k == "alloc" { p } else { format!("{}::{}", k, p) }
    }
    fn path(&self, i: Instance<'tcx>) -> String {
        let mut v = vec![];
        let mut c = Some(i);
        while let Some(x) = c {
            v.push(self.name(x));
            c = self.parent.get(&x).copied().flatten();
        }
        v.reverse();
        v.dedup();
        v.join(" -> ")
    }
    pub fn root(&mut self, i: Instance<'tcx>) {
        if self.parent.insert(i, None).is_none() {
            self.todo.push_back(i);
        }
    }
    fn add(&mut self, from: Instance<'tcx>, i: Instance<'tcx>) {
        self.calls += 1;
        if !self.parent.contains_key(&i) {
            self.parent.insert(i, Some(from));
            self.todo.push_back(i);
        }
    }
    fn sink(&mut self, from: Instance<'tcx>, kind: &str, what: String) {
        let p = self.path(from);
        self.sinks.entry((kind.to_string(), what)).or_insert(p);
    }
    fn never(&self, d: DefId) -> bool {
        matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && self.tcx.fn_sig(d).skip_binder().output().skip_binder().is_never()
    }
    fn is_once(&self, d: DefId) -> bool {
        let k = self.tcx.crate_name(d.krate);
        if !matches!(k.as_str(), "std" | "core" | "once_cell" | "spin") {
            return false;
        }
        let Some(n) = self.tcx.opt_item_name(d) else { return false };
        let p = self.tcx.def_path_str(d);
        ONCE.contains(&n.as_str()) && (p.contains("Once") || p.contains("Lazy"))
    }
    pub fn functions(&self) -> BTreeSet<String> {
        self.parent.keys().filter(|i| self.tcx.crate_name(i.def_id().krate).as_str() == "zkhash").map(|i| self.name(*i)).collect()
    }
    pub fn run(&mut self) {
        while let Some(i) = self.todo.pop_front() {
            self.visit(i);
        }
    }
    pub fn count(&self) -> usize {
        self.parent.len()
    }
    fn visit(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {
                let kr = tcx.crate_name(d.krate);
                if kr.as_str() == "probe" && tcx.def_path_str(d).starts_with("vx::") {
                    return;
                }
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                    let n = tcx.item_name(d).to_string();
                    if n.starts_with("__rust_") || n.starts_with("__rdl_") || n.starts_with("__rg_") {
                        return;
                    }
                }
                if tcx.is_foreign_item(d) {
                    let n = tcx.item_name(d).to_string();
                    if n.starts_with("miri_") {
                        return;
                    }
                    self.sink(self.parent[&inst].unwrap_or(inst), "foreign", n);
                    return;
                }
                if self.never(d) {
                    self.cut += 1;
                    return;
                }
                if matches!(kr.as_str(), "std" | "thread_local" | "tokio") && tcx.def_path_str(d).contains("LocalKey") {
                    let n = inst.args.types().next().map(|t| t.to_string()).unwrap_or_default();
                    self.sink(self.parent[&inst].unwrap_or(inst), "thread-local", n);
                }
                if self.is_once(d) {
                    // the initialiser is part of the program, the synchronisation is not a result
                    for a in inst.args.types() {
                        self.callable(inst, a);
                    }
                    if let Some(t) = inst.args.types().next() {
                        self.callable(inst, t);
                    }
                    return;
                }
                if !(tcx.is_mir_available(d) || matches!(tcx.def_kind(d), DefKind::Ctor(..))) {
                    if tcx.intrinsic(d).is_none() {
                        let n = self.name(inst);
                        self.sink(inst, "opaque", n);
                    }
                    return;
                }
            }
            InstanceKind::Shim(_) => {}
            _ => return,
        }
        let body = tcx.instance_mir(inst.def);
        let zk = tcx.crate_name(d.krate).as_str() == "zkhash";
        let mut v = Vis { w: self, inst, body, zk };
        for (b, data) in body.basic_blocks.iter_enumerated() {
            if !data.is_cleanup {
                v.visit_basic_block_data(b, data);
            }
        }
    }
    fn callable(&mut self, from: Instance<'tcx>, t: Ty<'tcx>) {
        match t.kind() {
            ty::Closure(d, a) => {
                let i = Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::FnOnce);
                self.add(from, i);
            }
            ty::FnDef(d, a) => {
                if let Some(a) = a.no_bound_vars() {
                    if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, *d, a) {
                        self.add(from, i);
                    }
                }
            }
            _ => {}
        }
    }
    fn static_use(&mut self, inst: Instance<'tcx>, s: DefId) {
        let tcx = self.tcx;
        let what = format!("{}::{}", tcx.crate_name(s.krate), tcx.def_path_str(s));
        if matches!(tcx.crate_name(s.krate).as_str(), "alloc" | "core") {
            // reference-count cells of empty shared slices: never part of a result
            return;
        }
        if tcx.is_mutable_static(s) {
            self.sink(inst, "static-mut", what);
            return;
        }
        let t = tcx.type_of(s).instantiate_identity().skip_norm_wip();
        if !t.is_freeze(tcx, self.env) {
            let n = t.to_string();
            let head = n.split('<').next().unwrap_or("").to_string();
            let last = head.rsplit("::").next().unwrap_or("");
            if matches!(last, "Lazy" | "Once" | "OnceLock" | "LazyLock" | "OnceCell" | "LazyCell" | "OnceBox") {
                if let ty::Adt(_, a) = t.kind() {
                    for x in a.types() {
                        // function-pointer initialisers of LazyLock statics are visited through the static's own initialiser
                        if !x.is_freeze(tcx, self.env) {
                            self.sink(inst, "static-cell", format!("{}: {}", what, n));
                        }
                    }
                }
                if last == "LazyLock" || last == "LazyCell" || (last == "Lazy" && tcx.crate_name(s.krate).as_str() != "lazy_static") {
                    // visit the initialiser named in the static's body
                    let i = Instance::new_raw(s, ty::GenericArgs::empty());
                    self.static_init(inst, i, s);
                }
                return;
            }
            self.sink(inst, "static-cell", format!("{}: {}", what, n));
        }
    }
    fn static_init(&mut self, from: Instance<'tcx>, i: Instance<'tcx>, s: DefId) {
        use rustc_middle::mir::interpret::GlobalAlloc;
        let tcx = self.tcx;
        if self.parent.contains_key(&i) {
            return;
        }
        self.parent.insert(i, Some(from));
        let Ok(al) = tcx.eval_static_initializer(s) else { return };
        let mut todo = vec![al];
        let mut seen = BTreeSet::new();
        while let Some(a) = todo.pop() {
            for (_, p) in a.inner().provenance().ptrs().iter() {
                let id = p.alloc_id();
                if !seen.insert(id) {
                    continue;
                }
                match tcx.global_alloc(id) {
                    GlobalAlloc::Function { instance } => self.add(i, instance),
                    GlobalAlloc::Static(d) => self.static_use(i, d),
                    GlobalAlloc::Memory(m) => todo.push(m),
                    _ => {}
                }
            }
        }
    }
    fn mono<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, inst: Instance<'tcx>, t: T) -> Option<T> {
        inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, ty::EarlyBinder::bind(self.tcx, t)).ok()
    }
}

struct Vis<'a, 'tcx> {
    w: &'a mut Walk<'tcx>,
    inst: Instance<'tcx>,
    body: &'tcx mir::Body<'tcx>,
    zk: bool,
}

impl<'a, 'tcx> Visitor<'tcx> for Vis<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _l: mir::Location) {
        let tcx = self.w.tcx;
        if let Some(s) = c.check_static_ptr(tcx) {
            self.w.static_use(self.inst, s);
        }
        let Some(k) = self.w.mono(self.inst, c.const_) else { return };
        // references into a static through an evaluated constant
        if let mir::Const::Unevaluated(..) = k {
            if let Ok(mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) = k.eval(tcx, self.w.env, rustc_span::DUMMY_SP) {
                use rustc_middle::mir::interpret::GlobalAlloc;
                match tcx.global_alloc(p.provenance.alloc_id()) {
                    GlobalAlloc::Static(s) => self.w.static_use(self.inst, s),
                    GlobalAlloc::Memory(m) => {
                        for (_, p) in m.inner().provenance().ptrs().iter() {
                            if let GlobalAlloc::Function { instance } = tcx.global_alloc(p.alloc_id()) {
                                self.w.add(self.inst, instance);
                            }
                        }
                    }
                    GlobalAlloc::Function { instance } => self.w.add(self.inst, instance),
                    _ => {}
                }
            }
        }
        if let ty::FnDef(..) | ty::Closure(..) = k.ty().kind() {
            // mentioned function items are treated as called
            self.w.callable(self.inst, k.ty());
        }
        if self.zk && matches!(k.ty().kind(), ty::Uint(_) | ty::Int(_)) {
            if let Some(b) = k.try_eval_bits(tcx, self.w.env) {
                let n = self.w.name(self.inst);
                self.w.ints.entry(b).or_default().insert(n);
            }
        }
    }
    fn visit_rvalue(&mut self, r: &mir::Rvalue<'tcx>, l: mir::Location) {
        let tcx = self.w.tcx;
        match r {
            mir::Rvalue::ThreadLocalRef(d) => {
                let n = format!("{}::{}", tcx.crate_name(d.krate), tcx.def_path_str(*d));
                self.w.sink(self.inst, "thread-local", n);
            }
            mir::Rvalue::Cast(kind, op, t) => {
                let src = self.w.mono(self.inst, op.ty(self.body, tcx));
                let dst = self.w.mono(self.inst, *t);
                if let (Some(src), Some(dst)) = (src, dst) {
                    match kind {
                        mir::CastKind::PointerExposeProvenance if self.zk => {
                            let n = self.w.name(self.inst);
                            self.w.sink(self.inst, "address", format!("{} turns an address into a number", n));
                        }
                        mir::CastKind::Transmute if self.zk && src.is_any_ptr() && !dst.is_any_ptr() && !dst.is_fn_ptr() && matches!(dst.kind(), ty::Uint(_) | ty::Int(_)) => {
                            let n = self.w.name(self.inst);
                            self.w.sink(self.inst, "address", format!("{} turns an address into a number", n));
                        }
                        mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) => {
                            if let (Some(a), Some(b)) = (src.builtin_deref(true), dst.builtin_deref(true)) {
                                if let ty::Dynamic(p, _) = b.kind() {
                                    if !matches!(a.kind(), ty::Dynamic(..)) {
                                        if let Some(pr) = p.principal() {
                                            let name = tcx.item_name(pr.def_id()).to_string();
                                            if !matches!(name.as_str(), "Debug" | "Display" | "Any" | "Error") {
                                                let tr = tcx.instantiate_bound_regions_with_erased(pr).with_self_ty(tcx, a);
                                                for e in tcx.vtable_entries(tr) {
                                                    if let ty::VtblEntry::Method(i) = e {
                                                        self.w.add(self.inst, *i);
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: mir::Location) {
        let tcx = self.w.tcx;
        match &t.kind {
            mir::TerminatorKind::Call { func, .. } => {
                if let Some(ft) = self.w.mono(self.inst, func.ty(self.body, tcx)) {
                    if let ty::FnDef(d, a) = ft.kind() {
                        match a.no_bound_vars().and_then(|a| Instance::try_resolve(tcx, self.w.env, *d, a).ok().flatten()) {
                            Some(i) => self.w.add(self.inst, i),
                            None => {
                                let n = tcx.def_path_str(*d);
                                self.w.sink(self.inst, "unresolved", n)
                            }
                        }
                        if self.zk {
                            let n = tcx.opt_item_name(*d).map(|x| x.to_string()).unwrap_or_default();
                            let p = tcx.def_path_str(*d);
                            if matches!(n.as_str(), "addr" | "expose_provenance") && p.contains("ptr") {
                                let w = self.w.name(self.inst);
                                self.w.sink(self.inst, "address", format!("{} turns an address into a number", w));
                            }
                            if matches!(n.as_str(), "strong_count" | "weak_count") && matches!(tcx.crate_name(d.krate).as_str(), "alloc" | "std") {
                                let w = self.w.name(self.inst);
                                self.w.sink(self.inst, "sharing", format!("{} reads a reference count", w));
                            }
                        }
                    }
                }
            }
            mir::TerminatorKind::Drop { place, .. } => {
                if let Some(ty) = self.w.mono(self.inst, place.ty(self.body, tcx).ty) {
                    if ty.needs_drop(tcx, self.w.env) {
                        let i = Instance::resolve_drop_glue(tcx, ty);
                        self.w.add(self.inst, i);
                    }
                }
            }
            mir::TerminatorKind::InlineAsm { .. } => {
                let k = tcx.crate_name(self.inst.def_id().krate).to_string();
                if k == "zkhash" {
                    let n = self.w.name(self.inst);
                    self.w.sink(self.inst, "asm", n);
                }
            }
            mir::TerminatorKind::SwitchInt { targets, .. } if self.zk => {
                for (v, _) in targets.iter() {
                    let n = self.w.name(self.inst);
                    self.w.ints.entry(v).or_default().insert(n);
                }
            }
            _ => {}
        }
        self.super_terminator(t, l);
    }
}

/// Interface facts about one type: fields, mutating methods, conversions,
/// auto traits.
pub fn api<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    let env = TypingEnv::fully_monomorphized();
    let ty::Adt(def, args) = t.kind() else { return format!("{{\"type\":{}}}", jstr(&t.to_string())) };
    let mut fields = vec![];
    for v in def.variants() {
        for f in &v.fields {
            let ft = tcx.normalize_erasing_regions(env, f.ty(tcx, args));
            fields.push(format!("{{\"name\":{},\"public\":{},\"type\":{},\"freeze\":{}}}", jstr(f.name.as_str()), f.vis.is_public(), jstr(&ft.to_string()), deep_freeze(tcx, ft, 4)));
        }
    }
    let mut muts = vec![];
    let mut cells = vec![];
    let mut methods = 0;
    for imp in tcx.inherent_impls(def.did()) {
        for it in tcx.associated_items(*imp).in_definition_order() {
            if !matches!(it.kind, ty::AssocKind::Fn { .. }) || !tcx.visibility(it.def_id).is_public() {
                continue;
            }
            methods += 1;
            let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(it.def_id).instantiate_identity().skip_norm_wip());
            let has_self = it.is_method();
            let path = tcx.def_path_str(it.def_id);
            if has_self {
                if let Some(s) = sig.inputs().first() {
                    if let ty::Ref(_, _, m) = s.kind() {
                        if m.is_mut() {
                            muts.push(format!("{{\"method\":{},\"why\":\"takes &mut self\"}}", jstr(&path)));
                        }
                    }
                }
                let mut bad = None;
                for g in sig.output().walk() {
                    if let Some(x) = g.as_type() {
                        match x.kind() {
                            ty::Ref(_, _, m) if m.is_mut() => bad = Some("returns a mutable reference"),
                            ty::RawPtr(_, m) if m.is_mut() => bad = Some("returns a mutable pointer"),
                            ty::Adt(d, _) => {
                                let n = tcx.item_name(d.did()).to_string();
                                if matches!(n.as_str(), "RefCell" | "Cell" | "Mutex" | "RwLock" | "UnsafeCell" | "RefMut" | "MutexGuard" | "RwLockWriteGuard") {
                                    bad = Some("returns an interior-mutable handle");
                                }
                            }
                            _ => {}
                        }
                    }
                }
                if let Some(b) = bad {
                    muts.push(format!("{{\"method\":{},\"why\":{}}}", jstr(&path), jstr(b)));
                }
                if let Some(w) = cell_write(tcx, it.def_id, &mut HashSet::new()) {
                    cells.push(format!("{{\"method\":{},\"name\":{},\"why\":{}}}", jstr(&path), jstr(it.name().as_str()), jstr(&w)));
                }
            }
        }
    }
    for tr in tcx.all_traits_including_private() {
        if Some(tr) == tcx.lang_items().drop_trait() {
            continue;
        }
        let n = tcx.item_name(tr).to_string();
        for i in tcx.all_impls(tr) {
            let st = tcx.impl_trait_ref(i).skip_binder().self_ty();
            let ty::Adt(d, _) = st.kind() else { continue };
            if d.did() != def.did() {
                continue;
            }
            for it in tcx.associated_items(i).in_definition_order() {
                if !matches!(it.kind, ty::AssocKind::Fn { .. }) || !it.is_method() {
                    continue;
                }
                let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(it.def_id).instantiate_identity().skip_norm_wip());
                if let Some(ty::Ref(_, _, m)) = sig.inputs().first().map(|t| t.kind()) {
                    if m.is_mut() && n != "Clone" {
                        muts.push(format!("{{\"method\":{},\"why\":{}}}", jstr(&tcx.def_path_str(it.def_id)), jstr(&format!("takes &mut self (impl of {})", n))));
                    }
                }
            }
        }
    }
    let mut mods = vec![DefId { krate: def.did().krate, index: rustc_hir::def_id::CRATE_DEF_INDEX }];
    let mut seen = BTreeSet::new();
    while let Some(m) = mods.pop() {
        if !seen.insert(tcx.def_path_str(m)) {
            continue;
        }
        let kids = if m.is_local() { tcx.module_children_local(m.expect_local()) } else { tcx.module_children(m) };
        for c in kids {
            if !c.vis.is_public() {
                continue;
            }
            match c.res {
                rustc_hir::def::Res::Def(DefKind::Mod, d) if d.krate == def.did().krate => mods.push(d),
                rustc_hir::def::Res::Def(DefKind::Fn, d) if d.krate == def.did().krate => {
                    let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate_identity().skip_norm_wip());
                    for t in sig.inputs() {
                        if let ty::Ref(_, x, m) = t.kind() {
                            if let ty::Adt(a, _) = x.kind() {
                                if m.is_mut() && a.did() == def.did() {
                                    muts.push(format!("{{\"method\":{},\"why\":\"takes &mut of the type\"}}", jstr(&tcx.def_path_str(d))));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let auto = |name: &str| -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let tr = tcx.all_traits_including_private().find(|d| tcx.crate_name(d.krate).as_str() == "core" && tcx.item_name(*d).as_str() == name);
        let Some(tr) = tr else { return true };
        let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
        infcx.type_implements_trait(tr, [t], ty::ParamEnv::empty()).must_apply_modulo_regions()
    };
    let (send, sync) = (auto("Send"), auto("Sync"));
    format!("{{\"send\":{},\"sync\":{},\"type\":{},\"fields\":[{}],\"mutators\":[{}],\"cells\":[{}],\"methods\":{}}}", send, sync, jstr(&t.to_string()), fields.join(","), muts.join(","), cells.join(","), methods)
}

fn deep_freeze<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, left: u8) -> bool {
    let env = TypingEnv::fully_monomorphized();
    if left == 0 {
        return true;
    }
    for g in t.walk() {
        let Some(x) = g.as_type() else { continue };
        if !x.is_freeze(tcx, env) {
            return false;
        }
        if let ty::Adt(d, a) = x.kind() {
            if matches!(tcx.crate_name(d.did().krate).as_str(), "zkhash") {
                for f in d.all_fields() {
                    if !deep_freeze(tcx, tcx.normalize_erasing_regions(env, f.ty(tcx, a)), left - 1) {
                        return false;
                    }
                }
            }
        }
    }
    true
}

/// A write through an interior-mutable std type reachable from `d` inside the
/// crate that defines it.
fn cell_write<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, seen: &mut HashSet<DefId>) -> Option<String> {
    if !seen.insert(d) || !tcx.is_mir_available(d) {
        return None;
    }
    let body = tcx.instance_mir(InstanceKind::Item(d));
    let mut next = vec![];
    for bb in body.basic_blocks.iter() {
        for s in &bb.statements {
            if let mir::StatementKind::Assign(b) = &s.kind {
                if let mir::Rvalue::Aggregate(k, _) = &b.1 {
                    if let mir::AggregateKind::Closure(c, _) = **k {
                        next.push(c);
                    }
                }
            }
        }
        let Some(t) = &bb.terminator else { continue };
        let mir::TerminatorKind::Call { func, .. } = &t.kind else { continue };
        let Some((c, _)) = func.const_fn_def() else { continue };
        let n = tcx.item_name(c).to_string();
        let k = tcx.crate_name(c.krate).to_string();
        if matches!(k.as_str(), "core" | "alloc" | "std") {
            let Some(i) = tcx.inherent_impl_of_assoc(c) else { continue };
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            let ty::Adt(a, _) = st.kind() else { continue };
            let o = tcx.item_name(a.did()).to_string();
            let w = match o.as_str() {
                "Mutex" | "RwLock" | "ReentrantLock" => matches!(n.as_str(), "lock" | "try_lock" | "write" | "try_write" | "set" | "replace"),
                "RefCell" | "Cell" => matches!(n.as_str(), "borrow_mut" | "try_borrow_mut" | "set" | "replace" | "swap" | "replace_with" | "take" | "update"),
                "UnsafeCell" | "SyncUnsafeCell" => n == "get",
                "OnceLock" | "OnceCell" => matches!(n.as_str(), "set" | "try_insert" | "take"),
                x if x.starts_with("Atomic") => n == "store" || n == "swap" || n.starts_with("fetch_") || n.starts_with("compare_"),
                _ => false,
            };
            if w {
                return Some(format!("writes through {}::{} in {}", o, n, tcx.def_path_str(d)));
            }
        } else if c.krate == d.krate {
            next.push(c);
        }
    }
    next.into_iter().find_map(|c| cell_write(tcx, c, seen))
}
