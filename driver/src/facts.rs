//! Interface and effect facts of the analysed crate: what outside code can call and reach, how trees occur in
//! signatures, unsafe code, statics, interior mutability and auto traits.
use crate::json::*;
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgs, Ty, TyCtxt, TypingEnv, TypingMode, Upcast};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::{sym, Span};
use rustc_trait_selection::infer::InferCtxtExt;

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

fn span(tcx: TyCtxt<'_>, s: Span) -> String {
    let l = tcx.sess.source_map().lookup_char_pos(s.lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

/// How trees, data and mutable references occur in a type.
#[derive(Default)]
struct Occ {
    own: bool,
    mutable: bool,
    shared: bool,
    datum: bool,
    mutref: bool,
    anyref: bool,
    local_key: bool,
}

struct Walk<'tcx, 'a> {
    tcx: TyCtxt<'tcx>,
    trees: &'a [DefId],
    seen: Vec<(Ty<'tcx>, u8)>,
    self_is_tree: bool,
    o: Occ,
}

impl<'tcx, 'a> Walk<'tcx, 'a> {
    /// m: 0 owned, 1 behind a mutable reference, 2 behind a shared reference
    fn go(&mut self, t: Ty<'tcx>, m: u8) {
        if self.seen.contains(&(t, m)) || self.seen.len() > 4000 {
            return;
        }
        self.seen.push((t, m));
        match *t.kind() {
            ty::Ref(_, x, mu) => {
                self.o.anyref = true;
                if mu.is_mut() {
                    self.o.mutref |= m != 2;
                    self.go(x, if m == 2 { 2 } else { 1 });
                } else {
                    self.go(x, 2);
                }
            }
            ty::RawPtr(x, _) => {
                self.o.anyref = true;
                self.o.mutref = true;
                self.go(x, 1);
            }
            ty::Adt(a, args) => {
                if self.trees.contains(&a.did()) {
                    self.tree(m);
                    return;
                }
                let p = path(self.tcx, a.did());
                if p.ends_with("::LocalKey") {
                    self.o.local_key = true;
                }
                for x in args.types() {
                    self.go(x, m);
                }
                if a.did().is_local() {
                    for f in a.all_fields() {
                        let ft = f.ty(self.tcx, args).skip_norm_wip();
                        self.go(ft, m);
                    }
                }
            }
            ty::Tuple(ts) => {
                for x in ts {
                    self.go(x, m);
                }
            }
            ty::Array(x, _) | ty::Slice(x) => self.go(x, m),
            ty::Param(p) => {
                if p.name.as_str() == "Self" {
                    if self.self_is_tree {
                        self.tree(m);
                    }
                } else if p.name.as_str() == "D" && m != 2 {
                    self.o.datum = true;
                }
            }
            ty::Alias(..) => {
                let args = t.walk();
                for g in args.skip(1) {
                    if let ty::GenericArgKind::Type(x) = g.kind() {
                        if x != t {
                            // arguments of a projection do not occur in it
                            let _ = x;
                        }
                    }
                }
            }
            ty::FnPtr(..) | ty::Dynamic(..) | ty::Closure(..) => {
                for g in t.walk().skip(1) {
                    if let ty::GenericArgKind::Type(x) = g.kind() {
                        self.go(x, m);
                    }
                }
            }
            _ => {}
        }
    }

    fn tree(&mut self, m: u8) {
        match m {
            0 => self.o.own = true,
            1 => self.o.mutable = true,
            _ => self.o.shared = true,
        }
    }
}

fn occ<'tcx>(tcx: TyCtxt<'tcx>, trees: &[DefId], self_is_tree: bool, t: Ty<'tcx>) -> J {
    let mut w = Walk { tcx, trees, seen: vec![], self_is_tree, o: Occ::default() };
    w.go(t, 0);
    let o = w.o;
    J::Obj(vec![
        ("t", s(&with_no_trimmed_paths!(t.to_string()))),
        ("own", J::Bool(o.own)),
        ("mut", J::Bool(o.mutable)),
        ("shared", J::Bool(o.shared)),
        ("datum", J::Bool(o.datum)),
        ("mutref", J::Bool(o.mutref)),
        ("anyref", J::Bool(o.anyref)),
    ])
}

struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}

impl<'tcx> Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(b.span);
        }
        intravisit::walk_block(self, b);
    }
}

fn holds<'tcx>(tcx: TyCtxt<'tcx>, adt: DefId, t: Ty<'tcx>, goal: DefId, given: &[(DefId, &str)]) -> bool {
    let base = tcx.param_env(adt);
    let args = GenericArgs::identity_for_item(tcx, adt);
    let mut cl: Vec<ty::Clause<'tcx>> = base.caller_bounds().collect();
    for (tr, only) in given {
        for x in args.types() {
            if only.is_empty() || x.to_string() == *only {
                let c: ty::Clause<'tcx> = ty::TraitRef::new(tcx, *tr, [x]).upcast(tcx);
                cl.push(c);
            }
        }
    }
    let env = ty::ParamEnv::new(tcx, cl);
    let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
    infcx.type_implements_trait(goal, [t], env).must_apply_modulo_regions()
}

fn freeze<'tcx>(tcx: TyCtxt<'tcx>, adt: DefId, t: Ty<'tcx>) -> bool {
    let base = tcx.param_env(adt);
    let args = GenericArgs::identity_for_item(tcx, adt);
    let mut cl: Vec<ty::Clause<'tcx>> = base.caller_bounds().collect();
    if let Some(fz) = tcx.lang_items().freeze_trait() {
        for x in args.types() {
            let c: ty::Clause<'tcx> = ty::TraitRef::new(tcx, fz, [x]).upcast(tcx);
            cl.push(c);
        }
    }
    let env = ty::ParamEnv::new(tcx, cl);
    let te = TypingEnv::new(env, TypingMode::non_body_analysis());
    t.is_freeze(tcx, te)
}

/// Types with interior mutability inside t, however deep and behind whatever pointer.
fn cells<'tcx>(tcx: TyCtxt<'tcx>, adt: DefId, t: Ty<'tcx>, seen: &mut Vec<Ty<'tcx>>, out: &mut Vec<String>) {
    if seen.contains(&t) || seen.len() > 2000 {
        return;
    }
    seen.push(t);
    match *t.kind() {
        ty::Adt(a, args) => {
            if a.is_unsafe_cell() || (!a.did().is_local() && !freeze(tcx, adt, t)) {
                out.push(with_no_trimmed_paths!(t.to_string()));
                return;
            }
            for x in args.types() {
                cells(tcx, adt, x, seen, out);
            }
            if !a.is_phantom_data() {
                for f in a.all_fields() {
                    cells(tcx, adt, f.ty(tcx, args).skip_norm_wip(), seen, out);
                }
            }
        }
        ty::Ref(_, x, mu) => {
            if mu.is_mut() {
                out.push(with_no_trimmed_paths!(t.to_string()));
            }
            cells(tcx, adt, x, seen, out)
        }
        ty::RawPtr(x, _) => cells(tcx, adt, x, seen, out),
        ty::Array(x, _) | ty::Slice(x) => cells(tcx, adt, x, seen, out),
        ty::Tuple(ts) => {
            for x in ts {
                cells(tcx, adt, x, seen, out)
            }
        }
        ty::Dynamic(..) => out.push(with_no_trimmed_paths!(t.to_string())),
        _ => {}
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let ev = tcx.effective_visibilities(());
    let reach = |d: LocalDefId| ev.is_reachable(d);
    let defs: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();

    // tree types: local types that implement the local trait QuadTree
    let mut trees: Vec<DefId> = vec![];
    let mut treetraits: Vec<(DefId, DefId)> = vec![];
    for &d in &defs {
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
            let tr = tcx.impl_trait_ref(d.to_def_id()).instantiate_identity().skip_norm_wip();
            if let ty::Adt(a, _) = tr.self_ty().kind() {
                if tr.def_id.is_local() && tcx.item_name(tr.def_id).as_str() == "QuadTree" {
                    trees.push(a.did());
                }
            }
        }
    }
    for &d in &defs {
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
            let tr = tcx.impl_trait_ref(d.to_def_id()).instantiate_identity().skip_norm_wip();
            if let ty::Adt(a, _) = tr.self_ty().kind() {
                if tr.def_id.is_local() && trees.contains(&a.did()) {
                    treetraits.push((tr.def_id, a.did()));
                }
            }
        }
    }

    let mut fns = vec![];
    let mut statics = vec![];
    let mut unsafes = vec![];
    let mut impls = vec![];
    for &d in &defs {
        let id = d.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(id).instantiate_identity().skip_norm_wip().skip_binder();
                let parent = tcx.parent(id);
                let mut owner = "free".to_owned();
                let mut tr = J::Null;
                let mut selft = J::Null;
                let mut self_is_tree = false;
                let mut foreign = false;
                match tcx.def_kind(parent) {
                    DefKind::Impl { of_trait } => {
                        owner = if of_trait { "impl".to_owned() } else { "inherent".to_owned() };
                        let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                        selft = occ(tcx, &trees, false, st);
                        if of_trait {
                            let t = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip().def_id;
                            foreign = !t.is_local();
                            tr = s(&path(tcx, t));
                        }
                    }
                    DefKind::Trait => {
                        owner = "trait".to_owned();
                        tr = s(&path(tcx, parent));
                        self_is_tree = treetraits.iter().any(|x| x.0 == parent);
                    }
                    _ => {}
                }
                let ins: Vec<J> = sig.inputs().iter().map(|t| occ(tcx, &trees, self_is_tree, *t)).collect();
                if !sig.safety().is_safe() {
                    unsafes.push(s(&format!("unsafe fn {} at {}", path(tcx, id), span(tcx, tcx.def_span(id)))));
                }
                let mut out = sig.output();
                if let ty::Alias(..) = out.kind() {
                    out = match tcx.try_normalize_erasing_regions(TypingEnv::post_analysis(tcx, id), ty::Unnormalized::new_wip(out)) {
                        Ok(x) => x,
                        Err(_) => out,
                    };
                }
                fns.push(J::Obj(vec![
                    ("path", s(&path(tcx, id))),
                    ("name", s(tcx.item_name(id).as_str())),
                    ("owner", s(&owner)),
                    ("trait", tr),
                    ("foreign", J::Bool(foreign)),
                    ("self", selft),
                    ("selftree", J::Bool(self_is_tree)),
                    ("reach", J::Bool(reach(d))),
                    ("in", J::Arr(ins)),
                    ("out", occ(tcx, &trees, self_is_tree, out)),
                    ("span", s(&span(tcx, tcx.def_span(id)))),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let tl = tcx.is_thread_local_static(id);
                statics.push(J::Obj(vec![
                    ("path", s(&path(tcx, id))),
                    ("t", s(&with_no_trimmed_paths!(t.to_string()))),
                    ("mut", J::Bool(mutability.is_mut())),
                    ("freeze", J::Bool(t.is_freeze(tcx, TypingEnv::fully_monomorphized()))),
                    ("tls", J::Bool(tl)),
                    ("span", s(&span(tcx, tcx.def_span(id)))),
                ]));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let mut w = Walk { tcx, trees: &trees, seen: vec![], self_is_tree: false, o: Occ::default() };
                w.go(t, 0);
                if w.o.local_key {
                    statics.push(J::Obj(vec![
                        ("path", s(&path(tcx, id))),
                        ("t", s(&with_no_trimmed_paths!(t.to_string()))),
                        ("mut", J::Bool(false)),
                        ("freeze", J::Bool(false)),
                        ("tls", J::Bool(true)),
                        ("span", s(&span(tcx, tcx.def_span(id)))),
                    ]));
                }
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let mut tr = J::Null;
                if of_trait {
                    let h = tcx.impl_trait_header(id);
                    tr = s(&path(tcx, h.trait_ref.instantiate_identity().skip_norm_wip().def_id));
                    let derived = matches!(
                        tcx.def_span(id).ctxt().outer_expn_data().kind,
                        rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Derive, _)
                    );
                    if !h.safety.is_safe() && !derived {
                        unsafes.push(s(&format!("unsafe impl at {}", span(tcx, tcx.def_span(id)))));
                    }
                }
                impls.push(J::Obj(vec![
                    ("trait", tr),
                    ("self", occ(tcx, &trees, false, st)),
                    ("span", s(&span(tcx, tcx.def_span(id)))),
                ]));
            }
            DefKind::ForeignMod => unsafes.push(s(&format!("extern block at {}", span(tcx, tcx.def_span(id))))),
            _ => {}
        }
    }

    let mut v = Unsafe { tcx, found: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    let mut found = v.found;
    found.sort_by_key(|x| (x.lo(), x.hi()));
    found.dedup();
    for sp in found {
        unsafes.push(s(&format!("unsafe block at {}", span(tcx, sp))));
    }

    let send = tcx.get_diagnostic_item(sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let mut adts = vec![];
    for &d in &defs {
        let id = d.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            continue;
        }
        let a = tcx.adt_def(id);
        let mut fields = vec![];
        for f in a.all_fields() {
            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            fields.push(J::Obj(vec![
                ("name", s(f.name.as_str())),
                ("pub", J::Bool(f.vis.is_public())),
                ("t", s(&with_no_trimmed_paths!(t.to_string()))),
            ]));
        }
        let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
        let mut cs = vec![];
        cells(tcx, id, t, &mut vec![], &mut cs);
        let mut o = vec![
            ("path", s(&path(tcx, id))),
            ("tree", J::Bool(trees.contains(&id))),
            ("enum", J::Bool(a.is_enum())),
            ("reach", J::Bool(reach(d))),
            ("fields", J::Arr(fields)),
            ("cells", J::Arr(cs.iter().map(|x| s(x)).collect())),
            ("span", s(&span(tcx, tcx.def_span(id)))),
        ];
        if trees.contains(&id) {
            if let (Some(send), Some(sync)) = (send, sync) {
                o.push(("send", J::Bool(holds(tcx, id, t, send, &[(send, "D"), (send, "T"), (sync, "T")]))));
                o.push(("sync", J::Bool(holds(tcx, id, t, sync, &[(sync, "D"), (send, "T"), (sync, "T")]))));
            }
        }
        adts.push(J::Obj(o));
    }

    J::Obj(vec![
        ("trees", J::Arr(trees.iter().map(|x| s(&path(tcx, *x))).collect())),
        ("treetraits", J::Arr(treetraits.iter().map(|x| J::Arr(vec![s(&path(tcx, x.0)), s(&path(tcx, x.1))])).collect())),
        ("fns", J::Arr(fns)),
        ("impls", J::Arr(impls)),
        ("statics", J::Arr(statics)),
        ("unsafe", J::Arr(unsafes)),
        ("adts", J::Arr(adts)),
    ])
}
