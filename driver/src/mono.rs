//! Monomorphic MIR dump.
use crate::json::*;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, TypeVisitableExt, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::{Span, DUMMY_SP};
use std::collections::HashMap;

pub fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}

fn tystr<'tcx>(ty: Ty<'tcx>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(format!("{ty}")))
}

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: Vec<(Instance<'tcx>, usize)>,
    inst_out: Vec<J>,
}

/// Functions whose bodies are not followed (modelled by the analysis).
const LEAF: &[&str] = &[
    "core::fmt::",
    "core::panicking::",
    "core::option::unwrap_failed",
    "core::option::expect_failed",
    "core::result::unwrap_failed",
    "alloc::alloc::",
    "alloc::raw_vec::",
    "alloc::fmt::",
    "alloc::string::",
    "alloc::str::",
    "alloc::collections::",
    "std::",
    "core::slice::sort::",
    "core::str::",
    "core::hash::",
    "core::num::imp",
    "rstar::",
    "geo::algorithm::line_measures::metric_spaces::",
    "geo::algorithm::intersects::polygon",
    "robust::",
];

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: HashMap::new(),
        type_out: vec![],
        insts: HashMap::new(),
        queue: vec![],
        inst_out: vec![],
    };
    let mut roots = vec![];
    for id in tcx.mir_keys(()) {
        let did = id.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let name = tcx.item_name(did).to_string();
        if name.starts_with("vp_") && tcx.generics_of(did).own_requires_monomorphization() == false
            && tcx.generics_of(did).parent_count == 0
        {
            let inst = Instance::mono(tcx, did);
            let i = cx.inst(inst);
            roots.push(J::Arr(vec![s(&name), n(i)]));
        }
    }
    while let Some((inst, idx)) = cx.queue.pop() {
        let j = cx.instance(inst);
        cx.inst_out[idx] = j;
    }
    J::Obj(vec![
        ("roots", J::Arr(roots)),
        ("types", J::Arr(cx.type_out)),
        ("insts", J::Arr(cx.inst_out)),
    ])
}

impl<'tcx> Cx<'tcx> {
    /// Reference bodies (harness `stubs`) for std functions built on raw memory.
    fn redirect(&self, i: Instance<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let InstanceKind::Item(d) = i.def else { return None };
        if tcx.crate_name(d.krate).as_str() != "alloc" {
            return None;
        }
        let p = path(tcx, d);
        let (name, pick): (&str, &[usize]) = match p.as_str() {
            "<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter" => ("vp_stub_from_iter", &[0, 1]),
            "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend" => ("vp_stub_extend", &[0, 2]),
            "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend" => ("vp_stub_extend_ref", &[1, 3]),
            "alloc::vec::Vec::<T, A>::retain" => ("vp_stub_retain", &[0, 2]),
            "alloc::vec::Vec::<T, A>::extend_from_slice" => ("vp_stub_extend_from_slice", &[0]),
            _ => return None,
        };
        let target = tcx.mir_keys(()).iter().map(|l| l.to_def_id()).find(|d| {
            matches!(tcx.def_kind(*d), DefKind::Fn) && tcx.item_name(*d).as_str() == name
        })?;
        let args: Vec<_> = pick.iter().map(|k| i.args[*k]).collect();
        Some(Instance::new_raw(target, tcx.mk_args(&args)))
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&x) = self.insts.get(&i) {
            return x;
        }
        if let Some(r) = self.redirect(i) {
            let x = self.inst(r);
            self.insts.insert(i, x);
            return x;
        }
        let x = self.inst_out.len();
        self.inst_out.push(J::Null);
        self.insts.insert(i, x);
        self.queue.push((i, x));
        x
    }

    fn ty(&mut self, ty: Ty<'tcx>) -> J {
        n(self.ty_id(ty))
    }

    fn norm(&self, ty: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.erase_and_anonymize_regions(ty)
    }

    fn ty_id(&mut self, ty: Ty<'tcx>) -> usize {
        let ty = self.norm(ty);
        if let Some(&x) = self.types.get(&ty) {
            return x;
        }
        let x = self.type_out.len();
        self.types.insert(ty, x);
        self.type_out.push(J::Null);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(&tystr(ty)))];
        match ty.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.normalize(64).bit_width().unwrap() as usize)));
            }
            ty::Uint(i) => {
                o.push(("k", s("uint")));
                o.push(("bits", n(i.normalize(64).bit_width().unwrap() as usize)));
            }
            ty::Float(f) => {
                o.push(("k", s("float")));
                o.push(("bits", n(f.bit_width() as usize)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(&path(tcx, def.did()))));
                o.push(("crate", s(tcx.crate_name(def.did().krate).as_str())));
                o.push((
                    "adt",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                o.push(("box", J::Bool(def.is_box())));
                o.push(("hasdrop", J::Bool(def.destructor(tcx).is_some())));
                let a = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::Arr(a)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        let d = def.discriminant_for_variant(tcx, vi);
                        // sign extend by type
                        let sz = rustc_abi::Integer::from_attr(&tcx, rustc_attr(def, tcx)).size();
                        if matches!(d.ty.kind(), ty::Int(_)) {
                            J::Int(sz.sign_extend(d.val) as i128)
                        } else {
                            J::Int(d.val as i128)
                        }
                    } else {
                        J::Int(0)
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(tcx, args).skip_norm_wip();
                        let fty = tcx
                            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(fty))
                            .unwrap_or(fty);
                        let t = self.ty(fty);
                        fs.push(J::Arr(vec![s(f.name.as_str()), t]));
                    }
                    vs.push(J::Obj(vec![
                        ("name", s(v.name.as_str())),
                        ("discr", discr),
                        ("fields", J::Arr(fs)),
                    ]));
                }
                o.push(("variants", J::Arr(vs)));
            }
            ty::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("to", self.ty(*t)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("to", self.ty(*t)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Array(t, len) => {
                o.push(("k", s("array")));
                o.push(("to", self.ty(*t)));
                o.push((
                    "len",
                    len.try_to_target_usize(tcx).map(|x| J::Int(x as i128)).unwrap_or(J::Null),
                ));
            }
            ty::Slice(t) => {
                o.push(("k", s("slice")));
                o.push(("to", self.ty(*t)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(&path(tcx, *d))));
                let a = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::Arr(a)));
                if !args.has_non_region_param() {
                    let i = Instance::resolve_closure(tcx, *d, args, args.as_closure().kind());
                    let x = self.inst(i);
                    o.push(("body", n(x)));
                }
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(&path(tcx, *d))));
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, *d, args) {
                    let x = self.inst(i);
                    o.push(("inst", n(x)));
                }
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.type_out[x] = J::Obj(o);
        x
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::Null;
        }
        let lo = sm.lookup_char_pos(sp.lo());
        s(&format!("{}:{}", lo.file.name.prefer_remapped_unconditionally(), lo.line))
    }

    /// Resolved identity of a function.
    fn ident(&mut self, inst: Instance<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(&path(tcx, d))),
            ("crate", s(tcx.crate_name(d.krate).as_str())),
            (
                "kind",
                s(match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::LlvmIntrinsic(_) => "llvm",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                    InstanceKind::Shim(_) => "shim",
                }),
            ),
        ];
        if let Some(nm) = tcx.opt_item_name(d) {
            o.push(("name", s(nm.as_str())));
        }
        let mut tys = vec![];
        for t in inst.args.types() {
            tys.push(self.ty(t));
        }
        o.push(("args", J::Arr(tys)));
        if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            let ai = tcx.associated_item(d);
            let parent = tcx.parent(d);
            if matches!(tcx.def_kind(parent), DefKind::Trait) {
                o.push(("trait", s(&path(tcx, parent))));
                let st = inst.args.type_at(0);
                o.push(("self", self.ty(st)));
                o.push(("dflt", J::Bool(true)));
            } else {
                if let Some(t) = ai.trait_item_def_id() {
                    let tr = tcx.parent(t);
                    o.push(("trait", s(&path(tcx, tr))));
                }
                let nargs = tcx.generics_of(parent).count();
                let ia = tcx.mk_args(&inst.args[..nargs.min(inst.args.len())]);
                let st = tcx.type_of(parent).instantiate(tcx, ia).skip_norm_wip();
                let st = tcx
                    .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(st))
                    .unwrap_or(st);
                o.push(("self", self.ty(st)));
                if let ty::Adt(a, _) = st.kind() {
                    o.push(("selfpath", s(&path(tcx, a.did()))));
                }
            }
        }
        o
    }

    fn leaf(&self, inst: Instance<'tcx>) -> bool {
        let p = path(self.tcx, inst.def_id());
        let p2 = p.trim_start_matches('<');
        LEAF.iter().any(|l| p2.starts_with(l))
    }

    /// The formatting function behind `core::fmt::rt::Argument::new_*::<T>` for a T with an interpretable one.
    fn shown(&mut self, inst: Instance<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let p = path(tcx, inst.def_id());
        let tr = match p.as_str() {
            "core::fmt::rt::Argument::<'_>::new_display" => "Display",
            "core::fmt::rt::Argument::<'_>::new_debug" => "Debug",
            "<T as alloc::string::ToString>::to_string" => "Display",
            _ => return None,
        };
        let tr = tcx.get_diagnostic_item(rustc_span::Symbol::intern(tr))?;
        let f = *tcx.associated_item_def_ids(tr).first()?;
        let mut t = inst.args.types().next()?;
        while let ty::Ref(_, x, _) = *t.kind() {
            t = x;
        }
        match t.kind() {
            ty::Adt(a, _) if !["core", "alloc", "std"].contains(&tcx.crate_name(a.did().krate).as_str()) => {}
            _ => return None,
        }
        let i = Instance::try_resolve(tcx, self.env, f, tcx.mk_args(&[t.into()])).ok()??;
        Some(self.inst(i))
    }

    fn instance(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = self.ident(inst);
        if let InstanceKind::Shim(ShimKind::DropGlue(_, None)) = inst.def {
            return J::Obj(o);
        }
        if let InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) = inst.def {
            o.push(("dropty", self.ty(t)));
            return J::Obj(o);
        }
        if self.leaf(inst) {
            o.push(("leaf", J::Bool(true)));
            if let Some(i) = self.shown(inst) {
                o.push(("shows", n(i)));
            }
            return J::Obj(o);
        }
        let has_body = match inst.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => false,
            _ => true,
        };
        if !has_body {
            return J::Obj(o);
        }
        let body = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            EarlyBinder::bind(tcx, body.clone()),
        );
        o.push(("span", self.span(body.span)));
        o.push(("argc", n(body.arg_count)));
        if let Some(sa) = body.spread_arg {
            o.push(("spread", n(sa.as_usize())));
        }
        let mut names: Vec<J> = vec![J::Null; body.local_decls.len()];
        for vd in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vd.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = s(vd.name.as_str());
                }
            }
        }
        o.push(("names", J::Arr(names)));
        let locals = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        o.push(("locals", J::Arr(locals)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for st in &bb.statements {
                if let Some(j) = self.stmt(st, &body) {
                    ss.push(j);
                }
            }
            let t = self.term(bb.terminator(), &body);
            blocks.push(J::Obj(vec![
                ("s", J::Arr(ss)),
                ("t", t),
                ("c", J::Bool(bb.is_cleanup)),
            ]));
        }
        o.push(("blocks", J::Arr(blocks)));
        J::Obj(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::Arr(vec![s("f"), n(f.as_usize()), self.ty(t)]),
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    s("c"),
                    n(offset as usize),
                    n(min_length as usize),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    s("u"),
                    n(from as usize),
                    n(to as usize),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Downcast(_, v) => J::Arr(vec![s("v"), n(v.as_usize())]),
                ProjectionElem::OpaqueCast(_) => s("o"),
                _ => s("?"),
            });
        }
        J::Arr(vec![n(p.local.as_usize()), J::Arr(pr)])
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::Arr(vec![s("k"), self.constant(c)]),
            Operand::RuntimeChecks(_) => J::Arr(vec![s("rt")]),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let ty = self.norm(c.const_.ty());
        let t = self.ty(ty);
        // a promoted constant belongs to the body it was taken from, not to what a call of that function would resolve to
        let v = match c.const_ {
            mir::Const::Unevaluated(uv, _) if uv.promoted.is_some() => self.tcx.const_eval_global_id(
                self.env,
                mir::interpret::GlobalId { instance: ty::Instance::new_raw(uv.def, uv.args), promoted: uv.promoted },
                DUMMY_SP,
            ),
            _ => c.const_.eval(self.tcx, self.env, DUMMY_SP),
        };
        match v {
            Ok(v) => {
                let d = self.decode(v, ty, 0);
                J::Arr(vec![t, d])
            }
            Err(_) => J::Arr(vec![t, J::Arr(vec![s("err")])]),
        }
    }

    fn scalar_ptr(&mut self, ptr: mir::interpret::Pointer<Option<mir::interpret::CtfeProvenance>>, pointee: Ty<'tcx>, meta: Option<u64>, depth: usize) -> J {
        let tcx = self.tcx;
        let ptr = match ptr.into_pointer_or_addr() {
            Ok(p) => p,
            Err(a) => return J::Arr(vec![s("addr"), J::Int(a.bytes() as i128)]),
        };
        let (prov, off) = ptr.prov_and_relative_offset();
        match tcx.global_alloc(prov.alloc_id()) {
            GlobalAlloc::Function { instance } => {
                let i = self.inst(instance);
                J::Arr(vec![s("fn"), n(i)])
            }
            GlobalAlloc::Static(d) => J::Arr(vec![s("static"), s(&path(tcx, d))]),
            GlobalAlloc::Memory(alloc) => {
                let al = alloc.inner();
                match pointee.kind() {
                    ty::Str => {
                        let len = meta.unwrap_or(0) as usize;
                        let st = off.bytes() as usize;
                        let b = al.inspect_with_uninit_and_ptr_outside_interpreter(st..st + len);
                        J::Arr(vec![s("refstr"), s(&String::from_utf8_lossy(b).into_owned())])
                    }
                    ty::Slice(el) => {
                        let len = meta.unwrap_or(0);
                        let lay = tcx.layout_of(self.env.as_query_input(*el)).unwrap();
                        let mut v = vec![];
                        for i in 0..len {
                            let o2 = off + lay.size * i;
                            let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: o2 };
                            v.push(self.decode(cv, *el, depth + 1));
                        }
                        J::Arr(vec![s("refslice"), J::Arr(v)])
                    }
                    _ => {
                        let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        let d = self.decode(cv, pointee, depth + 1);
                        let t = self.ty(pointee);
                        J::Arr(vec![s("ref"), t, d])
                    }
                }
            }
            _ => J::Arr(vec![s("?alloc")]),
        }
    }

    fn decode(&mut self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::Arr(vec![s("?deep")]);
        }
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let size = tcx.layout_of(self.env.as_query_input(ty)).unwrap().size;
                let bits = match v {
                    ConstValue::Scalar(Scalar::Int(i)) => Some(i.to_bits(size)),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let a = tcx.global_alloc(alloc_id).unwrap_memory();
                        a.inner()
                            .read_scalar(&tcx, AllocRange { start: offset, size }, false)
                            .ok()
                            .and_then(|x| x.to_bits(size).discard_err())
                    }
                    _ => None,
                };
                match bits {
                    None => J::Arr(vec![s("uninit")]),
                    Some(b) => match ty.kind() {
                        ty::Int(_) => J::Int(size.sign_extend(b)),
                        ty::Float(f) if f.bit_width() == 64 => {
                            J::Arr(vec![s("f"), s(&format!("{:?}", f64::from_bits(b as u64)))])
                        }
                        ty::Float(f) if f.bit_width() == 32 => {
                            J::Arr(vec![s("f"), s(&format!("{:?}", f32::from_bits(b as u32) as f64))])
                        }
                        _ => J::Int(b as i128),
                    },
                }
            }
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => {
                let psize = rustc_abi::Size::from_bytes(8);
                match v {
                    ConstValue::Scalar(Scalar::Ptr(ptr, _)) => {
                        let ptr: mir::interpret::Pointer<Option<_>> = ptr.into();
                        self.scalar_ptr(ptr, *p, None, depth)
                    }
                    ConstValue::Scalar(Scalar::Int(i)) => {
                        J::Arr(vec![s("addr"), J::Int(i.to_bits(psize) as i128)])
                    }
                    ConstValue::Slice { alloc_id, meta } => {
                        let ptr = mir::interpret::Pointer::from(alloc_id);
                        let (prov, off) = ptr.prov_and_relative_offset();
                        let ptr = mir::interpret::Pointer::new(Some(prov), off);
                        self.scalar_ptr(ptr, *p, Some(meta), depth)
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let a = tcx.global_alloc(alloc_id).unwrap_memory();
                        let sc = a.inner().read_scalar(
                            &tcx,
                            AllocRange { start: offset, size: psize },
                            true,
                        );
                        let wide = matches!(p.kind(), ty::Str | ty::Slice(_));
                        let meta = if wide {
                            a.inner()
                                .read_scalar(
                                    &tcx,
                                    AllocRange { start: offset + psize, size: psize },
                                    false,
                                )
                                .ok()
                                .and_then(|x| x.to_bits(psize).discard_err())
                                .map(|x| x as u64)
                        } else {
                            None
                        };
                        match sc {
                            Ok(Scalar::Ptr(ptr, _)) => {
                                let ptr: mir::interpret::Pointer<Option<_>> = ptr.into();
                                self.scalar_ptr(ptr, *p, meta, depth)
                            }
                            Ok(Scalar::Int(i)) => {
                                J::Arr(vec![s("addr"), J::Int(i.to_bits(psize) as i128)])
                            }
                            _ => J::Arr(vec![s("?ptr")]),
                        }
                    }
                    _ => J::Arr(vec![s("?refconst")]),
                }
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Tuple(ts) = ty.kind() {
                    if ts.is_empty() {
                        return J::Arr(vec![s("agg"), J::Null, J::Arr(vec![])]);
                    }
                }
                if let ty::Adt(d, _) = ty.kind() {
                    if d.is_union() {
                        return J::Arr(vec![s("?union")]);
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    Some(d) => {
                        let mut fs = vec![];
                        for &(fv, ft) in d.fields {
                            fs.push(self.decode(fv, ft, depth + 1));
                        }
                        J::Arr(vec![
                            s("agg"),
                            d.variant.map(|v| n(v.as_usize())).unwrap_or(J::Null),
                            J::Arr(fs),
                        ])
                    }
                    None => J::Arr(vec![s("?agg")]),
                }
            }
            ty::FnDef(..) | ty::Closure(..) => J::Arr(vec![s("zst")]),
            ty::FnPtr(..) => match v {
                ConstValue::Scalar(Scalar::Ptr(ptr, _)) => {
                    let ptr: mir::interpret::Pointer<Option<_>> = ptr.into();
                    self.scalar_ptr(ptr, self.tcx.types.unit, None, depth)
                }
                _ => J::Arr(vec![s("?fnptr")]),
            },
            _ => J::Arr(vec![s("?const")]),
        }
    }

    fn stmt(&mut self, st: &Statement<'tcx>, body: &Body<'tcx>) -> Option<J> {
        match &st.kind {
            StatementKind::Assign(b) => {
                let (p, rv) = &**b;
                let r = self.rvalue(rv, body);
                Some(J::Arr(vec![s("="), self.place(p), r, self.span(st.source_info.span)]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(J::Arr(vec![s("d"), self.place(place), n(variant_index.as_usize())]))
            }
            StatementKind::StorageDead(l) => Some(J::Arr(vec![s("x"), n(l.as_usize())])),
            StatementKind::StorageLive(l) => Some(J::Arr(vec![s("l"), n(l.as_usize())])),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => None,
                NonDivergingIntrinsic::CopyNonOverlapping(c) => Some(J::Arr(vec![
                    s("cno"),
                    self.operand(&c.src),
                    self.operand(&c.dst),
                    self.operand(&c.count),
                ])),
            },
            _ => None,
        }
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(o, ..) => J::Arr(vec![s("use"), self.operand(o)]),
            Rvalue::CopyForDeref(p) => {
                J::Arr(vec![s("use"), J::Arr(vec![s("c"), self.place(p)])])
            }
            Rvalue::Repeat(o, c) => J::Arr(vec![
                s("rep"),
                self.operand(o),
                c.try_to_target_usize(tcx).map(|x| J::Int(x as i128)).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, bk, p) => J::Arr(vec![
                s("ref"),
                J::Bool(matches!(bk, BorrowKind::Mut { .. })),
                self.place(p),
            ]),
            Rvalue::RawPtr(_, p) => J::Arr(vec![s("ref"), J::Bool(true), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) => {
                        "unsize".to_string()
                    }
                    CastKind::PointerCoercion(
                        ty::adjustment::PointerCoercion::ReifyFnPointer(..),
                        _,
                    ) => "reify".to_string(),
                    CastKind::PointerCoercion(
                        ty::adjustment::PointerCoercion::ClosureFnPointer(..),
                        _,
                    ) => "closurefn".to_string(),
                    CastKind::PointerCoercion(..) => "ptr".to_string(),
                    CastKind::IntToInt => "i2i".to_string(),
                    CastKind::FloatToInt => "f2i".to_string(),
                    CastKind::FloatToFloat => "f2f".to_string(),
                    CastKind::IntToFloat => "i2f".to_string(),
                    CastKind::PtrToPtr => "ptr".to_string(),
                    CastKind::Transmute => "transmute".to_string(),
                    k => format!("{k:?}"),
                };
                let from = o.ty(&body.local_decls, tcx);
                let mut v =
                    vec![s("cast"), s(&ks), self.operand(o), self.ty(from), self.ty(*t)];
                if ks == "closurefn" {
                    if let ty::Closure(d, a) = from.kind() {
                        let i = Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce);
                        let x = self.inst(i);
                        v.push(n(x));
                    }
                }
                J::Arr(v)
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                J::Arr(vec![
                    s("bin"),
                    s(&format!("{op:?}")),
                    self.operand(&ab.0),
                    self.operand(&ab.1),
                    self.ty(t),
                ])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, tcx);
                J::Arr(vec![s("un"), s(&format!("{op:?}")), self.operand(a), self.ty(t)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                J::Arr(vec![s("discr"), self.place(p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let t = rv.ty(&body.local_decls, tcx);
                let tj = self.ty(t);
                let (ks, v) = match &**k {
                    AggregateKind::Array(_) => ("array", J::Null),
                    AggregateKind::Tuple => ("tuple", J::Null),
                    AggregateKind::Adt(_, v, _, _, None) => ("adt", n(v.as_usize())),
                    AggregateKind::Adt(..) => ("union", J::Null),
                    AggregateKind::Closure(..) => ("closure", J::Null),
                    AggregateKind::RawPtr(..) => ("rawptr", J::Null),
                    _ => ("other", J::Null),
                };
                J::Arr(vec![s("agg"), s(ks), tj, v, J::Arr(fs)])
            }
            Rvalue::ThreadLocalRef(d) => J::Arr(vec![s("tls"), s(&path(tcx, *d))]),
            _ => J::Arr(vec![s("?rv"), s(&format!("{rv:?}"))]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => n(b.as_usize()),
            _ => J::Null,
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let sp = self.span(t.source_info.span);
        let mut v = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![s("goto"), n(target.as_usize())],
            TerminatorKind::FalseEdge { real_target, .. }
            | TerminatorKind::FalseUnwind { real_target, .. } => {
                vec![s("goto"), n(real_target.as_usize())]
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, tcx);
                let mut ts = vec![];
                let size = tcx.layout_of(self.env.as_query_input(ty)).unwrap().size;
                for (val, b) in targets.iter() {
                    let val = if matches!(ty.kind(), ty::Int(_)) {
                        size.sign_extend(val)
                    } else {
                        val as i128
                    };
                    ts.push(J::Arr(vec![J::Int(val), n(b.as_usize())]));
                }
                vec![
                    s("switch"),
                    self.operand(discr),
                    J::Arr(ts),
                    n(targets.otherwise().as_usize()),
                    self.ty(ty),
                ]
            }
            TerminatorKind::Return => vec![s("ret")],
            TerminatorKind::Unreachable => vec![s("unreachable")],
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![s("resume")],
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&body.local_decls, tcx).ty;
                vec![s("drop"), self.place(place), n(target.as_usize()), self.ty(ty)]
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = self.callee(func, body);
                let a = args.iter().map(|x| self.operand(&x.node)).collect();
                let at = args
                    .iter()
                    .map(|x| {
                        let t = x.node.ty(&body.local_decls, tcx);
                        self.ty(t)
                    })
                    .collect();
                let dt = destination.ty(&body.local_decls, tcx).ty;
                vec![
                    s("call"),
                    f,
                    J::Arr(a),
                    self.place(destination),
                    target.map(|b| n(b.as_usize())).unwrap_or(J::Null),
                    J::Arr(at),
                    self.ty(dt),
                    self.unwind(unwind),
                ]
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(..) => "overflow",
                    AssertKind::OverflowNeg(_) => "overflow",
                    AssertKind::DivisionByZero(_) => "div0",
                    AssertKind::RemainderByZero(_) => "rem0",
                    _ => "other",
                };
                vec![
                    s("assert"),
                    self.operand(cond),
                    J::Bool(*expected),
                    s(m),
                    n(target.as_usize()),
                ]
            }
            k => vec![s("?term"), s(&format!("{k:?}"))],
        };
        v.push(sp);
        J::Arr(v)
    }

    fn callee(&mut self, f: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = f.ty(&body.local_decls, tcx);
        if let ty::FnDef(d, args) = ty.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            match Instance::try_resolve(tcx, self.env, *d, args) {
                Ok(Some(i)) => {
                    let x = self.inst(i);
                    let mut o = vec![("i", n(x))];
                    // Trait method resolved to an impl that overrides a default body in std:
                    // also offer the default body.
                    let d0 = *d;
                    if i.def_id() != d0
                        && tcx.opt_associated_item(d0).is_some()
                        && matches!(tcx.def_kind(tcx.parent(d0)), DefKind::Trait)
                        && !d0.is_local()
                        && matches!(i.def, InstanceKind::Item(_))
                        && tcx.defaultness(d0).has_value()
                        && !i.def_id().is_local()
                        && tcx.crate_name(i.def_id().krate).as_str() != "quadtree"
                    {
                        let raw = Instance::new_raw(d0, args);
                        let y = self.inst(raw);
                        o.push(("dflt", n(y)));
                    }
                    // generic args of the call as written (trait self type first)
                    let mut a = vec![];
                    for t in args.types() {
                        a.push(self.ty(t));
                    }
                    o.push(("args", J::Arr(a)));
                    J::Obj(o)
                }
                _ => J::Obj(vec![("unresolved", s(&path(tcx, *d)))]),
            }
        } else {
            J::Obj(vec![("ptr", self.operand(f))])
        }
    }
}

fn rustc_attr<'tcx>(def: &ty::AdtDef<'tcx>, tcx: TyCtxt<'tcx>) -> rustc_abi::IntegerType {
    let _ = tcx;
    def.repr().discr_type()
}
