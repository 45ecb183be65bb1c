use rustc_middle::ty::print::PrintTraitRefExt;
use crate::json::{n, s, J};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

macro_rules! o { ($($k:literal : $v:expr),* $(,)?) => { J::Obj(vec![$(($k, $v)),*]) }; }

const BODY_PREFIXES: &[&str] = &[
    "core::option::", "core::result::", "core::convert::", "core::ops::try_trait", "core::ops::control_flow",
    "core::ops::function", "core::bool::", "core::borrow", "core::clone::", "core::str::{impl#0}::parse", "alloc::borrow",
    "core::iter::traits::collect::{impl#0}",
];

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: FxHashMap<Ty<'tcx>, usize>,
    tyq: Vec<Ty<'tcx>>,
    insts: FxHashMap<Instance<'tcx>, usize>,
    instq: Vec<Instance<'tcx>>,
    statics: Vec<DefId>,
    allocs: FxHashMap<mir::interpret::AllocId, usize>,
    allocj: Vec<J>,
}

pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}
fn tystr(t: Ty<'_>) -> String {
    with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{t}"))))
}

impl<'tcx> Cx<'tcx> {
    fn erase(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.erase_and_anonymize_regions(t)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.erase(t);
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.tyq.len();
        self.tys.insert(t, i);
        self.tyq.push(t);
        i
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.tcx.erase_and_anonymize_regions(i);
        if let Some(&k) = self.insts.get(&i) { return k; }
        let k = self.instq.len();
        self.insts.insert(i, k);
        self.instq.push(i);
        k
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        if sp.is_dummy() { return J::Null; }
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        J::Arr(vec![s(format!("{}", lo.file.name.prefer_local_unconditionally())), n(lo.line)])
    }
    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<usize> {
        let args = self.tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => Some(self.inst(i)),
            _ => None,
        }
    }
    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(n(self.ty(t)));
            } else if let Some(c) = a.as_const() {
                v.push(J::Arr(vec![self.tyconst(c)]));
            }
        }
        J::Arr(v)
    }
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.try_to_target_usize(self.tcx) {
            Some(x) => n(x),
            None => s(format!("{c:?}")),
        }
    }
    fn find_fn(&self, trait_: DefId, name: &str) -> Option<DefId> {
        self.tcx.associated_items(trait_).in_definition_order().find(|i| i.opt_name().map(|x| x.as_str() == name).unwrap_or(false) ).map(|i| i.def_id)
    }
    fn trait_by_path(&self, p: &str) -> Option<DefId> {
        self.tcx.all_traits_including_private().find(|d| path(self.tcx, *d) == p)
    }
    fn ty_json(&mut self, t: Ty<'tcx>, traits: &[(&'static str, DefId, DefId)]) -> J {
        let tcx = self.tcx;
        let base = match *t.kind() {
            ty::Bool => o!{"k": s("bool")},
            ty::Char => o!{"k": s("char")},
            ty::Int(i) => o!{"k": s("int"), "w": n(i.bit_width().unwrap_or(64)), "s": J::Bool(true)},
            ty::Uint(i) => o!{"k": s("int"), "w": n(i.bit_width().unwrap_or(64)), "s": J::Bool(false)},
            ty::Float(_) => o!{"k": s("float")},
            ty::Str => o!{"k": s("str")},
            ty::Never => o!{"k": s("never")},
            ty::Slice(e) => o!{"k": s("slice"), "t": n(self.ty(e))},
            ty::Array(e, c) => o!{"k": s("array"), "t": n(self.ty(e)), "len": self.tyconst(c)},
            ty::Ref(_, e, m) => o!{"k": s("ref"), "t": n(self.ty(e)), "m": J::Bool(m.is_mut())},
            ty::RawPtr(e, m) => o!{"k": s("ptr"), "t": n(self.ty(e)), "m": J::Bool(m.is_mut())},
            ty::Tuple(ts) => o!{"k": s("tuple"), "ts": J::Arr(ts.iter().map(|x| n(self.ty(x))).collect())},
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let i = self.resolve(d, args);
                let a = self.args(args);
                o!{"k": s("fndef"), "n": s(path(tcx, d)), "inst": i.map(n).unwrap_or(J::Null), "args": a, "krate": s(tcx.crate_name(d.krate).to_string()), "ctor": self.ctor(d)}
            }
            ty::FnPtr(..) => o!{"k": s("fnptr")},
            ty::Closure(d, args) => {
                let c = args.as_closure();
                let up: Vec<J> = c.upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                let inst = Instance::resolve_closure(tcx, d, args, c.kind());
                let i = self.inst(inst);
                o!{"k": s("closure"), "n": s(path(tcx, d)), "up": J::Arr(up), "inst": n(i), "kind": s(format!("{:?}", c.kind()))}
            }
            ty::Dynamic(..) => o!{"k": s("dyn")},
            ty::Adt(def, args) => {
                let did = def.did();
                let mut vars = vec![];
                let deep = did.krate == LOCAL_CRATE || self.expand_adt(did);
                if deep {
                    let discrs: Vec<String> = if def.is_enum() {
                        def.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
                    } else { vec!["0".into()] };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = tcx.normalize_erasing_regions(self.env, f.ty(tcx, args));
                            let vis = match f.vis { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(m) => path(tcx, m.to_def_id()) };
                            fs.push(J::Arr(vec![s(f.name.as_str()), n(self.ty(ft)), s(vis)]));
                        }
                        vars.push(o!{"n": s(v.name.as_str()), "d": J::Num(discrs.get(vi.as_usize()).cloned().unwrap_or("0".into())), "f": J::Arr(fs)});
                    }
                }
                let drop = match tcx.adt_destructor(did) {
                    Some(d) => {
                        let i = Instance::try_resolve(tcx, self.env, d.did, tcx.erase_and_anonymize_regions(args)).ok().flatten();
                        match i { Some(i) if did.krate == LOCAL_CRATE => n(self.inst(i)), _ => J::Bool(true) }
                    }
                    None => J::Null,
                };
                let a = self.args(args);
                o!{"k": s("adt"), "n": s(path(tcx, did)), "krate": s(tcx.crate_name(did.krate).to_string()),
                   "kind": s(if def.is_enum() {"enum"} else if def.is_union() {"union"} else {"struct"}),
                   "deep": J::Bool(deep), "vars": J::Arr(vars), "args": a, "drop": drop}
            }
            _ => o!{"k": s("other")},
        };
        let mut f = match base { J::Obj(v) => v, _ => unreachable!() };
        f.push(("str", s(tystr(t))));
        if !matches!(t.kind(), ty::Never | ty::Str | ty::Slice(_) | ty::Dynamic(..)) {
            f.push(("nd", J::Bool(t.needs_drop(tcx, self.env))));
        }
        // trait methods the models may have to call on a value of this type
        if matches!(t.kind(), ty::Adt(..) | ty::Ref(..) | ty::Closure(..) | ty::Array(..) | ty::Tuple(..)) {
            let mut m = vec![];
            for (nm, tr, me) in traits {
                let ng = tcx.generics_of(*tr).own_params.len();
                let mut av: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
                for _ in 1..ng { av.push(t.into()); }
                let args = tcx.mk_args(&av);
                // only for local impls
                let ok = rustc_trait_selection::infer::InferCtxtExt::type_implements_trait(
                    &rustc_infer::infer::TyCtxtInferExt::infer_ctxt(tcx).build(ty::TypingMode::PostAnalysis), *tr, av.iter().copied(), ty::ParamEnv::empty()).must_apply_modulo_regions();
                if !ok { continue; }
                let local = match t.kind() { ty::Adt(d, _) => d.did().krate == LOCAL_CRATE, ty::Closure(..) => true, _ => false };
                if !local { m.push((nm.to_string(), J::Bool(true))); continue; }
                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, *me, args) {
                    if i.def_id().krate == LOCAL_CRATE {
                        let k = self.inst(i);
                        m.push((nm.to_string(), n(k)));
                    } else {
                        m.push((nm.to_string(), J::Bool(true)));
                    }
                }
            }
            f.push(("impls", J::Map(m)));
        }
        J::Obj(f)
    }
    fn expand_adt(&self, d: DefId) -> bool {
        let p = path(self.tcx, d);
        ["core::option::", "core::result::", "core::ops::", "core::cmp::", "zeroize::Zeroizing", "core::convert::", "core::iter::", "core::array::TryFromSliceError",
         "core::num::", "core::str::", "core::slice::", "core::marker::"].iter().any(|x| p.starts_with(x))
    }
    fn ctor(&mut self, d: DefId) -> J {
        if let DefKind::Ctor(of, _) = self.tcx.def_kind(d) {
            let v = self.tcx.parent(d);
            let (adt, vi) = match of {
                rustc_hir::def::CtorOf::Struct => (v, 0usize),
                rustc_hir::def::CtorOf::Variant => {
                    let a = self.tcx.parent(v);
                    (a, self.tcx.adt_def(a).variant_index_with_id(v).as_usize())
                }
            };
            J::Arr(vec![s(path(self.tcx, adt)), n(vi)])
        } else { J::Null }
    }

    // ---------------------------------------------------------------- constants
    fn const_json(&mut self, c: mir::Const<'tcx>, sp: Span) -> J {
        let t = c.ty();
        match c.eval(self.tcx, self.env, sp) {
            Ok(v) => self.cv(v, t, 0),
            Err(_) => o!{"err": s("const eval")},
        }
    }
    fn alloc_ref(&mut self, prov: mir::interpret::AllocId, off: u64, pointee: Ty<'tcx>, meta: Option<u64>, depth: usize) -> J {
        match self.tcx.global_alloc(prov) {
            GlobalAlloc::Function { instance } => o!{"fn": n(self.inst(instance))},
            GlobalAlloc::Static(d) => { if !self.statics.contains(&d) { self.statics.push(d); } o!{"static": s(path(self.tcx, d))} }
            GlobalAlloc::Memory(a) => {
                match pointee.kind() {
                    ty::Str => {
                        let len = meta.unwrap_or(0);
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                        if len > 4000 {
                            if let (Some(&k), 0) = (self.allocs.get(&prov), off) { return o!{"ref": o!{"strtab": n(k)}}; }
                            let k = self.allocj.len();
                            self.allocs.insert(prov, k);
                            self.allocj.push(s(String::from_utf8_lossy(b).to_string()));
                            return o!{"ref": o!{"strtab": n(k)}};
                        }
                        o!{"ref": o!{"str": s(String::from_utf8_lossy(b).to_string())}}
                    }
                    ty::Slice(e) => {
                        let e = *e;
                        let sz = self.tcx.layout_of(self.env.as_query_input(e)).map(|l| l.size.bytes()).unwrap_or(0);
                        let len = meta.unwrap_or(0);
                        let mut v = vec![];
                        for i in 0..len {
                            v.push(self.cv(ConstValue::Indirect { alloc_id: prov, offset: rustc_abi::Size::from_bytes(off + i * sz) }, e, depth + 1));
                        }
                        o!{"ref": o!{"arr": J::Arr(v)}}
                    }
                    _ => {
                        let v = self.cv(ConstValue::Indirect { alloc_id: prov, offset: rustc_abi::Size::from_bytes(off) }, pointee, depth + 1);
                        o!{"ref": v}
                    }
                }
            }
            _ => o!{"unk": s("alloc")},
        }
    }
    fn cv(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 { return o!{"unk": s("depth")}; }
        let scalar = |me: &Self, v: ConstValue| -> Option<Scalar> {
            match v {
                ConstValue::Scalar(x) => Some(x),
                ConstValue::Indirect { alloc_id, offset } => {
                    let sz = me.tcx.layout_of(me.env.as_query_input(t)).ok()?.size;
                    let a = me.tcx.global_alloc(alloc_id).unwrap_memory();
                    let isptr = matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..));
                    let size = if isptr { rustc_abi::Size::from_bytes(8) } else { sz };
                    a.inner().read_scalar(&me.tcx, AllocRange { start: offset, size }, isptr).ok()
                }
                _ => None,
            }
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(Scalar::Int(i)) = scalar(self, v) {
                    let sz = i.size();
                    return o!{"int": n(i.to_bits(sz))};
                }
                o!{"unk": s("scalar")}
            }
            ty::FnDef(..) | ty::Closure(..) if matches!(v, ConstValue::ZeroSized) => o!{"zst": n(self.ty(t))},
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => {
                let fat = matches!(p.kind(), ty::Str | ty::Slice(_));
                match v {
                    ConstValue::Slice { alloc_id, meta } => self.alloc_ref(alloc_id, 0, p, Some(meta), depth),
                    _ => {
                        let sc = scalar(self, v);
                        match sc {
                            Some(Scalar::Ptr(ptr, _)) => {
                                let (prov, off) = ptr.into_raw_parts();
                                let meta = if fat {
                                    if let ConstValue::Indirect { alloc_id, offset } = v {
                                        let a = tcx.global_alloc(alloc_id).unwrap_memory();
                                        a.inner().read_scalar(&tcx, AllocRange { start: offset + rustc_abi::Size::from_bytes(8), size: rustc_abi::Size::from_bytes(8) }, false)
                                            .ok().and_then(|x| x.to_target_usize(&tcx).discard_err())
                                    } else { None }
                                } else { None };
                                self.alloc_ref(prov.alloc_id(), off.bytes(), p, meta, depth)
                            }
                            Some(Scalar::Int(_)) if fat => o!{"ref": if p.is_str() { o!{"str": s("")} } else { o!{"arr": J::Arr(vec![])} }},
                            Some(Scalar::Int(_)) => o!{"ref": o!{"tup": J::Arr(vec![])}},
                            _ => o!{"unk": s("ptr")},
                        }
                    }
                }
            }
            ty::FnPtr(..) => {
                if let Some(Scalar::Ptr(ptr, _)) = scalar(self, v) {
                    let (prov, _) = ptr.into_raw_parts();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        return o!{"fn": n(self.inst(instance))};
                    }
                }
                o!{"unk": s("fnptr")}
            }
            ty::Array(..) | ty::Tuple(..) | ty::Adt(..) => {
                if let ty::Tuple(ts) = t.kind() { if ts.is_empty() { return o!{"tup": J::Arr(vec![])}; } }
                if let ty::Adt(d, _) = t.kind() { if d.is_union() { return o!{"unk": s("union")}; } }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cv(*v, *t, depth + 1)).collect();
                        match t.kind() {
                            ty::Adt(..) => o!{"adt": n(self.ty(t)), "v": n(d.variant.map(|x| x.as_usize()).unwrap_or(0)), "f": J::Arr(fs)},
                            ty::Tuple(..) => o!{"tup": J::Arr(fs)},
                            _ => o!{"arr": J::Arr(fs)},
                        }
                    }
                    None => o!{"unk": s("destructure"), "ty": n(self.ty(t))},
                }
            }
            _ => match v { ConstValue::ZeroSized => o!{"zst": n(self.ty(t))}, _ => o!{"unk": s("const"), "ty": n(self.ty(t))} },
        }
    }

    // ---------------------------------------------------------------- bodies
    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => s("*"),
                mir::ProjectionElem::Field(f, t) => J::Arr(vec![s("f"), n(f.as_usize()), n(self.ty(t))]),
                mir::ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => J::Arr(vec![s("ci"), n(offset), J::Bool(from_end)]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![s("sl"), n(from), n(to), J::Bool(from_end)]),
                mir::ProjectionElem::Downcast(_, vi) => J::Arr(vec![s("d"), n(vi.as_usize())]),
                _ => J::Arr(vec![s("?")]),
            });
        }
        J::Arr(v)
    }
    fn operand(&mut self, op: &mir::Operand<'tcx>) -> J {
        match op {
            mir::Operand::Copy(p) => J::Arr(vec![s("c"), self.place(p)]),
            mir::Operand::Move(p) => J::Arr(vec![s("m"), self.place(p)]),
            mir::Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = match c.const_.ty().kind() {
                    ty::FnDef(..) => J::Null,
                    _ => self.const_json(c.const_, c.span),
                };
                J::Arr(vec![s("k"), n(t), v])
            }
            mir::Operand::RuntimeChecks(r) => J::Arr(vec![s("rc"), s(format!("{r:?}"))]),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> J {
        match r {
            mir::Rvalue::Use(op, ..) => J::Arr(vec![s("use"), self.operand(op)]),
            mir::Rvalue::Repeat(op, c) => { let c = self.tyconst(*c); J::Arr(vec![s("repeat"), self.operand(op), c]) }
            mir::Rvalue::Ref(_, bk, p) => J::Arr(vec![s("ref"), self.place(p), J::Bool(matches!(bk, mir::BorrowKind::Mut { .. }))]),
            mir::Rvalue::Reborrow(_, m, p) => J::Arr(vec![s("ref"), self.place(p), J::Bool(m.is_mut())]),
            mir::Rvalue::RawPtr(_, p) => J::Arr(vec![s("ref"), self.place(p), J::Bool(true)]),
            mir::Rvalue::ThreadLocalRef(d) => J::Arr(vec![s("tls"), s(path(self.tcx, *d))]),
            mir::Rvalue::Cast(k, op, t) => J::Arr(vec![s("cast"), s(match k {
                mir::CastKind::PointerCoercion(pc, _) => format!("pc:{pc:?}"),
                k => format!("{k:?}"),
            }), self.operand(op), n(self.ty(*t))]),
            mir::Rvalue::BinaryOp(b, x) => J::Arr(vec![s("bin"), s(format!("{b:?}")), self.operand(&x.0), self.operand(&x.1)]),
            mir::Rvalue::UnaryOp(u, x) => J::Arr(vec![s("un"), s(format!("{u:?}")), self.operand(x)]),
            mir::Rvalue::Discriminant(p) => J::Arr(vec![s("discr"), self.place(p)]),
            mir::Rvalue::CopyForDeref(p) => J::Arr(vec![s("use"), J::Arr(vec![s("c"), self.place(p)])]),
            mir::Rvalue::Aggregate(k, ops) => {
                let f = J::Arr(ops.iter().map(|x| self.operand(x)).collect());
                match &**k {
                    mir::AggregateKind::Array(_) => J::Arr(vec![s("agg"), s("arr"), f]),
                    mir::AggregateKind::Tuple => J::Arr(vec![s("agg"), s("tup"), f]),
                    mir::AggregateKind::Adt(d, vi, args, _, uf) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t));
                        J::Arr(vec![s("agg"), s("adt"), f, n(self.ty(t)), n(vi.as_usize()), J::Bool(uf.is_some())])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        J::Arr(vec![s("agg"), s("closure"), f, n(self.ty(t))])
                    }
                    _ => J::Arr(vec![s("agg"), s("?"), f]),
                }
            }
            _ => J::Arr(vec![s("?")]),
        }
    }
    fn want_body(&self, i: Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(d) => {
                if d.krate == LOCAL_CRATE { return self.tcx.is_mir_available(d) && !self.tcx.is_foreign_item(d); }
                let raw = format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose());
                let p = path(self.tcx, d);
                (BODY_PREFIXES.iter().any(|x| raw.starts_with(x)) || p.contains("zeroize::Zeroizing")) && self.tcx.is_mir_available(d)
            }
            InstanceKind::Shim(k) => matches!(k, ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..)),
            _ => false,
        }
    }
    fn inst_json(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = i.def_id();
        let kind = match i.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".into(),
            InstanceKind::Virtual(..) => "virtual".into(),
            InstanceKind::Shim(k) => format!("shim:{}", format!("{k:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")),
            _ => "other".into(),
        };
        let args = self.args(i.args);
        let body = if self.want_body(i) { self.body_json(i) } else { J::Null };
        let ctor = if matches!(tcx.def_kind(d), DefKind::Ctor(..)) { self.ctor(d) } else { J::Null };
        let trait_item = tcx.opt_associated_item(d).and_then(|a| a.trait_item_def_id()).map(|t| s(path(tcx, t))).unwrap_or(J::Null);
        let selfty = tcx.opt_associated_item(d).and_then(|_| tcx.impl_of_assoc(d)).map(|im| {
            let t = tcx.type_of(im);
            let args = i.args;
            let t = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, t.instantiate_identity().skip_norm_wip()));
            let _ = args;
            t
        });
        let selfty = selfty.map(|t| n(self.ty(t))).unwrap_or(J::Null);
        o!{"n": s(path(tcx, d)), "krate": s(tcx.crate_name(d.krate).to_string()), "kind": s(kind), "args": args, "body": body, "ctor": ctor,
           "ti": trait_item, "self": selfty, "span": self.span(tcx.def_span(d)), "unsafe": J::Bool(self.is_unsafe(d))}
    }
    fn is_unsafe(&self, d: DefId) -> bool {
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { return false; }
        self.tcx.fn_sig(d).skip_binder().safety().is_unsafe()
    }
    fn body_json(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let body = tcx.instance_mir(i.def).clone();
        let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body));
        let locals: Vec<J> = body.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.push(J::Arr(vec![n(p.local.as_usize()), s(v.name.as_str())])); }
            }
        }
        let local_body = body.source.def_id().is_local();
        let muts: Vec<J> = body.local_decls.iter_enumerated().filter(|(_, l)| local_body && l.mutability.is_mut()).map(|(i, _)| n(i.as_usize())).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(J::Null); continue; }
            let mut st = vec![];
            for x in &bb.statements {
                let j = match &x.kind {
                    mir::StatementKind::Assign(b) => J::Arr(vec![s("="), self.place(&b.0), self.rvalue(&b.1)]),
                    mir::StatementKind::SetDiscriminant { place, variant_index } => J::Arr(vec![s("sd"), self.place(place), n(variant_index.as_usize())]),
                    mir::StatementKind::StorageDead(l) => J::Arr(vec![s("dead"), n(l.as_usize())]),
                    mir::StatementKind::Intrinsic(k) => match &**k {
                        mir::NonDivergingIntrinsic::Assume(op) => J::Arr(vec![s("assume"), self.operand(op)]),
                        _ => J::Arr(vec![s("?")]),
                    },
                    _ => continue,
                };
                let sp = self.span(x.source_info.span);
                st.push(J::Arr(vec![j, sp]));
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => J::Arr(vec![s("goto"), n(target.as_usize())]),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = targets.iter().map(|(v, b)| J::Arr(vec![n(v), n(b.as_usize())])).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    J::Arr(vec![s("switch"), self.operand(discr), J::Arr(ts), n(targets.otherwise().as_usize()), n(self.ty(dt))])
                }
                mir::TerminatorKind::Return => J::Arr(vec![s("ret")]),
                mir::TerminatorKind::Unreachable => J::Arr(vec![s("unreachable")]),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    J::Arr(vec![s("drop"), self.place(place), n(target.as_usize()), n(self.ty(pt))])
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        mir::AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        mir::AssertKind::DivisionByZero(_) => "div0".into(),
                        mir::AssertKind::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    J::Arr(vec![s("assert"), self.operand(cond), J::Bool(*expected), s(m), n(target.as_usize())])
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let callee = match *ft.kind() {
                        ty::FnDef(d, a) => {
                            let a = a.skip_binder();
                            let inst = self.resolve(d, a);
                            let aj = self.args(a);
                            o!{"n": s(path(tcx, d)), "inst": inst.map(n).unwrap_or(J::Null), "args": aj, "krate": s(tcx.crate_name(d.krate).to_string()), "trait": tcx.trait_of_assoc(d).map(|t| s(path(tcx, t))).unwrap_or(J::Null)}
                        }
                        _ => o!{"op": self.operand(func)},
                    };
                    let av = args.iter().map(|a| self.operand(&a.node)).collect();
                    let at = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, tcx); n(self.ty(t)) }).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    J::Arr(vec![s("call"), callee, J::Arr(av), self.place(destination), target.map(|t| n(t.as_usize())).unwrap_or(J::Null), J::Arr(at), n(self.ty(dt))])
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![s("goto"), n(real_target.as_usize())]),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![s("goto"), n(real_target.as_usize())]),
                mir::TerminatorKind::InlineAsm { .. } => J::Arr(vec![s("asm")]),
                _ => J::Arr(vec![s("other")]),
            };
            blocks.push(J::Arr(vec![J::Arr(st), tj, sp]));
        }
        o!{"argc": n(body.arg_count), "locals": J::Arr(locals), "blocks": J::Arr(blocks), "names": J::Arr(names), "muts": J::Arr(muts),
           "spread": body.spread_arg.map(|x| n(x.as_usize())).unwrap_or(J::Null)}
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        tys: Default::default(), tyq: vec![], insts: Default::default(), instq: vec![], statics: vec![],
        allocs: Default::default(), allocj: vec![],
    };
    // trait methods of interest
    let mut traits: Vec<(&'static str, DefId, DefId)> = vec![];
    let want: &[(&'static str, &str, &str)] = &[
        ("next", "core::iter::Iterator", "next"), ("next", "core::iter::traits::iterator::Iterator", "next"),
        ("size_hint", "core::iter::traits::iterator::Iterator", "size_hint"),
        ("next_back", "core::iter::traits::double_ended::DoubleEndedIterator", "next_back"),
        ("Display", "core::fmt::Display", "fmt"), ("Debug", "core::fmt::Debug", "fmt"),
        ("LowerHex", "core::fmt::LowerHex", "fmt"), ("UpperHex", "core::fmt::UpperHex", "fmt"),
        ("clone", "core::clone::Clone", "clone"), ("eq", "core::cmp::PartialEq", "eq"), ("cmp", "core::cmp::Ord", "cmp"),
        ("partial_cmp", "core::cmp::PartialOrd", "partial_cmp"),
        ("default", "core::default::Default", "default"), ("zeroize", "zeroize::Zeroize", "zeroize"),
        ("deref", "core::ops::deref::Deref", "deref"), ("deref_mut", "core::ops::deref::DerefMut", "deref_mut"),
        ("into_iter", "core::iter::traits::collect::IntoIterator", "into_iter"),
        ("from_str", "core::str::traits::FromStr", "from_str"),
        ("ct_eq", "subtle::ConstantTimeEq", "ct_eq"),
    ];
    for (nm, tp, me) in want {
        if let Some(t) = cx.trait_by_path(tp) {
            if let Some(m) = cx.find_fn(t, me) { traits.push((nm, t, m)); }
        }
    }
    // candidate types for generic parameters
    let mut cands: Vec<Ty<'tcx>> = vec![];
    let region = tcx.lifetimes.re_erased;
    let slice_u8 = Ty::new_imm_ref(tcx, region, Ty::new_slice(tcx, tcx.types.u8));
    let adt_by_path = |p: &str| -> Option<Ty<'tcx>> {
        for c in tcx.crates(()).iter().copied().chain([LOCAL_CRATE]) {
            let _ = c;
        }
        find_adt(tcx, p)
    };
    cands.push(slice_u8);
    for p in ["libsecp256k1::SecretKey", "libsecp256k1::PublicKey"] {
        if let Some(t) = adt_by_path(p) { cands.push(t); }
    }
    let vec_of = |t: Ty<'tcx>| -> Option<Ty<'tcx>> {
        let v = tcx.get_diagnostic_item(rustc_span::sym::Vec)?;
        let al = tcx.lang_items().global_alloc_ty()?;
        Some(Ty::new_adt(tcx, tcx.adt_def(v), tcx.mk_args(&[t.into(), tcx.type_of(al).instantiate_identity().skip_norm_wip().into()])))
    };
    if let Some(t) = vec_of(tcx.types.u8) { cands.push(t); }
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) && tcx.generics_of(id).is_empty() {
            let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
            if let Some(v) = vec_of(t) { cands.push(v); }
            cands.push(t);
        }
    }
    cands.push(tcx.types.u16);
    // roots
    let ev = tcx.effective_visibilities(());
    let mut roots = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut statics_local = vec![];
    let mut unsafe_items = vec![];
    let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    let mut keys2: Vec<rustc_span::def_id::LocalDefId> = keys;
    keys2.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
    for id in keys2 {
        let d = id.to_def_id();
        let k = tcx.def_kind(d);
        if !matches!(k, DefKind::Fn | DefKind::AssocFn) { continue; }
        let g = tcx.generics_of(d);
        let mut params = vec![];
        let mut cur = Some(g);
        while let Some(gg) = cur {
            for p in &gg.own_params { params.push((p.index, p.kind.clone(), p.name.to_string())); }
            cur = gg.parent.map(|x| tcx.generics_of(x));
        }
        params.sort_by_key(|p| p.0);
        let tparams: Vec<usize> = params.iter().filter(|p| matches!(p.1, ty::GenericParamDefKind::Type { .. })).map(|p| p.0 as usize).collect();
        let mut insts: Vec<J> = vec![];
        let mut combos: Vec<Vec<Ty<'tcx>>> = vec![vec![]];
        for _ in &tparams {
            combos = combos.into_iter().flat_map(|c| cands.iter().map(move |t| { let mut c = c.clone(); c.push(*t); c })).collect();
            if combos.len() > 4000 { break; }
        }
        let mut per: FxHashMap<Vec<Ty<'tcx>>, ()> = Default::default();
        let mut got = 0;
        for c in combos {
            if c.len() != tparams.len() || got >= 3 { continue; }
            let mut it = c.iter();
            let args: Vec<ty::GenericArg<'tcx>> = params.iter().map(|p| match p.1 {
                ty::GenericParamDefKind::Lifetime => region.into(),
                _ => (*it.next().unwrap_or(&slice_u8)).into(),
            }).collect();
            let args = tcx.mk_args(&args);
            let preds: Vec<_> = tcx.clauses_of(d).instantiate(tcx, args).clauses.into_iter().map(|p| p.skip_norm_wip()).collect();
            if !tparams.is_empty() && rustc_trait_selection::traits::impossible_clauses(tcx, preds) { continue; }
            if per.insert(c.clone(), ()).is_some() { continue; }
            if let Ok(Some(i)) = Instance::try_resolve(tcx, cx.env, d, args) {
                got += 1;
                insts.push(n(cx.inst(i)));
            }
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let im = tcx.impl_of_assoc(d);
        let trait_ = im.and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| s(with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(t.skip_binder().print_only_trait_path().to_string()))))).unwrap_or(J::Null);
        let selfs = im.map(|i| s(tystr(tcx.type_of(i).instantiate_identity().skip_norm_wip()))).unwrap_or(J::Null);
        roots.push(o!{
            "n": s(path(tcx, d)), "insts": J::Arr(insts), "pub": J::Bool(ev.is_reachable(id)), "nominal": J::Bool(tcx.visibility(d).is_public()),
            "trait": trait_, "self": selfs, "name": s(tcx.item_name(d).as_str()),
            "in": J::Arr(sig.inputs().iter().map(|t| s(tystr(*t))).collect()), "out": s(tystr(sig.output())),
            "unsafe": J::Bool(sig.safety().is_unsafe()), "const": J::Bool(tcx.is_const_fn(d)),
            "span": cx.span(tcx.def_span(d)),
        });
    }
    let send = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send"));
    let sync = tcx.lang_items().get(rustc_attr_ir::lang_items::LangItem::Sync);
    let mut consts: Vec<J> = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let g = tcx.generics_of(d);
                // instantiate type parameters with key types that satisfy the bounds
                let mut t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if !g.own_params.is_empty() {
                    for c in &cands {
                        let args: Vec<ty::GenericArg<'tcx>> = g.own_params.iter().map(|p| match p.kind { ty::GenericParamDefKind::Lifetime => region.into(), _ => (*c).into() }).collect();
                        let args = tcx.mk_args(&args);
                        let preds: Vec<_> = tcx.clauses_of(d).instantiate(tcx, args).clauses.into_iter().map(|p| p.skip_norm_wip()).collect();
                        if rustc_trait_selection::traits::impossible_clauses(tcx, preds) { continue; }
                        t = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip();
                        break;
                    }
                }
                let concrete = !rustc_middle::ty::TypeVisitableExt::has_param(&t);
                let imp = |tr: Option<DefId>| -> J {
                    match tr {
                        Some(tr) if concrete => J::Bool(rustc_trait_selection::infer::InferCtxtExt::type_implements_trait(
                            &rustc_infer::infer::TyCtxtInferExt::infer_ctxt(tcx).build(ty::TypingMode::PostAnalysis), tr, [t], ty::ParamEnv::empty()).must_apply_modulo_regions()),
                        _ => J::Null,
                    }
                };
                let freeze = if concrete { J::Bool(t.is_freeze(tcx, cx.env)) } else { J::Null };
                let mut vs = vec![];
                for v in def.variants() {
                    let fs = v.fields.iter().map(|f| {
                        let vis = match f.vis { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(m) => path(tcx, m.to_def_id()) };
                        o!{"n": s(f.name.as_str()), "vis": s(vis), "ty": s(tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))}
                    }).collect();
                    vs.push(o!{"n": s(v.name.as_str()), "f": J::Arr(fs)});
                }
                let (se, sy) = (imp(send), imp(sync));
                adts.push(o!{"n": s(path(tcx, d)), "pub": J::Bool(ev.is_reachable(id)), "vars": J::Arr(vs), "send": se, "sync": sy, "freeze": freeze,
                    "ty": if concrete { n(cx.ty(t)) } else { J::Null }, "span": cx.span(tcx.def_span(d))});
            }
            DefKind::Impl { .. } => {
                let tr = tcx.impl_opt_trait_ref(d).map(|t| s(with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(t.skip_binder().print_only_trait_path().to_string()))))).unwrap_or(J::Null);
                let is_unsafe = matches!(tcx.hir_node_by_def_id(id), rustc_hir::Node::Item(rustc_hir::Item { kind: rustc_hir::ItemKind::Impl(im), .. }) if im.of_trait.map(|t| t.safety == rustc_hir::Safety::Unsafe).unwrap_or(false));
                impls.push(o!{"trait": tr, "self": s(tystr(tcx.type_of(d).instantiate_identity().skip_norm_wip())), "unsafe": J::Bool(is_unsafe), "derived": J::Bool(tcx.is_automatically_derived(d)), "span": cx.span(tcx.def_span(d))});
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                cx.statics.push(d);
                statics_local.push(o!{"n": s(path(tcx, d)), "mut": J::Bool(mutability.is_mut()), "freeze": J::Bool(t.is_freeze(tcx, cx.env)), "ty": n(cx.ty(t)), "tls": J::Bool(tcx.is_thread_local_static(d)), "span": cx.span(tcx.def_span(d))});
            }
            k @ (DefKind::AssocConst { .. } | DefKind::Const { .. }) => {
                if matches!(k, DefKind::AssocConst { .. }) && tcx.associated_item(d).container == ty::AssocContainer::Trait { continue; }
                if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t);
                let val = match tcx.const_eval_poly(d) { Ok(v) => cx.cv(v, t, 0), Err(_) => J::Null };
                consts.push(o!{"n": s(path(tcx, d)), "name": s(tcx.item_name(d).as_str()), "ty": n(tid), "val": val, "pub": J::Bool(ev.is_reachable(id)), "span": cx.span(tcx.def_span(d))});
            }
            _ => {}
        }
    }
    // unsafe blocks
    struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<Span> }
    impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                self.out.push(b.span);
            }
            rustc_hir::intravisit::walk_block(self, b);
        }
    }
    let mut us = vec![];
    {
        let mut v = V { tcx, out: &mut us };
        tcx.hir_visit_all_item_likes_in_crate(&mut v);
    }
    for sp in us {
        let ext = sp.in_external_macro(tcx.sess.source_map());
        unsafe_items.push(J::Arr(vec![cx.span(sp), J::Bool(ext)]));
    }
    // close over instances, types, statics
    let mut ij: Vec<J> = vec![];
    let mut tj: Vec<J> = vec![];
    let mut sj: Vec<J> = vec![];
    loop {
        let mut prog = false;
        while ij.len() < cx.instq.len() {
            let i = cx.instq[ij.len()];
            let j = cx.inst_json(i);
            ij.push(j);
            prog = true;
        }
        while tj.len() < cx.tyq.len() {
            let t = cx.tyq[tj.len()];
            let j = cx.ty_json(t, &traits);
            tj.push(j);
            prog = true;
        }
        while sj.len() < cx.statics.len() {
            let d = cx.statics[sj.len()];
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let tid = cx.ty(t);
            let mut fns = vec![];
            let mut val = J::Null;
            if let Ok(a) = tcx.eval_static_initializer(d) {
                for (_, prov) in a.inner().provenance().ptrs().iter() {
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        fns.push(n(cx.inst(instance)));
                    }
                }
                let id = tcx.reserve_and_set_memory_alloc(a);
                val = cx.cv(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, t, 0);
            }
            sj.push(o!{"n": s(path(tcx, d)), "ty": n(tid), "fns": J::Arr(fns), "val": val, "krate": s(tcx.crate_name(d.krate).to_string())});
            prog = true;
        }
        if !prog { break; }
    }
    o!{"types": J::Arr(tj), "insts": J::Arr(ij), "roots": J::Arr(roots), "adts": J::Arr(adts), "impls": J::Arr(impls),
       "statics": J::Arr(sj), "statics_local": J::Arr(statics_local), "consts": J::Arr(consts), "unsafe": J::Arr(unsafe_items), "strtab": J::Arr(cx.allocj),
       "crate": s(tcx.crate_name(LOCAL_CRATE).to_string()),
       "overflow_checks": J::Bool(tcx.sess.overflow_checks()), "debug_assertions": J::Bool(tcx.sess.opts.debug_assertions)}
}

fn find_adt<'tcx>(tcx: TyCtxt<'tcx>, p: &str) -> Option<Ty<'tcx>> {
    let (kr, rest) = p.split_once("::")?;
    for c in tcx.crates(()).iter() {
        if tcx.crate_name(*c).as_str() == kr {
            for ch in tcx.module_children(c.as_def_id()) {
                if ch.ident.name.as_str() == rest {
                    if let Some(d) = ch.res.opt_def_id() {
                        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                            return Some(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                        }
                    }
                }
            }
        }
    }
    None
}
