use crate::json::{s, J};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

macro_rules! pp {
    ($e:expr) => {
        with_no_visible_paths!(with_no_trimmed_paths!($e))
    };
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<String, usize>,
    type_js: Vec<J>,
    adts: BTreeMap<String, J>,
    adt_queue: VecDeque<(String, ty::AdtDef<'tcx>)>,
    seen_adt: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    fns: BTreeMap<String, J>,
    consts: BTreeMap<String, J>,
    const_queue: VecDeque<(DefId, GenericArgsRef<'tcx>, TypingEnv<'tcx>)>,
    bodyless: BTreeMap<String, J>,
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_js: vec![],
        adts: BTreeMap::new(),
        adt_queue: VecDeque::new(),
        seen_adt: HashSet::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        fns: BTreeMap::new(),
        consts: BTreeMap::new(),
        const_queue: VecDeque::new(),
        bodyless: BTreeMap::new(),
    };
    let mut unsafe_blocks = vec![];
    let mut items = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    for did in tcx.hir_crate_items(()).definitions() {
        let def_id = did.to_def_id();
        let kind = tcx.def_kind(def_id);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if !tcx.is_mir_available(def_id) {
                    continue;
                }
                if kind != DefKind::Closure {
                    items.push(cx.item(did, kind));
                }
                let args = ty::GenericArgs::identity_for_item(tcx, def_id);
                let env = TypingEnv::post_analysis(tcx, def_id);
                if kind == DefKind::Closure {
                    // collected through its parent as well; identity keeps it listed once
                    let inst = Instance::new_raw(def_id, tcx.erase_and_anonymize_regions(args));
                    cx.enqueue(inst, env);
                } else {
                    let inst = Instance::new_raw(def_id, tcx.erase_and_anonymize_regions(args));
                    cx.enqueue(inst, env);
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                items.push(cx.item(did, kind));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                items.push(cx.item(did, kind));
                let t = tcx.type_of(def_id).instantiate_identity().skip_norm_wip();
                cx.ty(t);
            }
            DefKind::Trait => {
                let p = cx.path(def_id);
                let ms: Vec<J> = tcx
                    .associated_items(def_id)
                    .in_definition_order()
                    .filter(|a| a.is_fn())
                    .map(|a| {
                        J::O(vec![
                            ("name", s(a.name().to_string())),
                            ("default", J::B(a.defaultness(tcx).has_value())),
                        ])
                    })
                    .collect();
                traits.push(J::O(vec![("path", s(p)), ("methods", J::A(ms)), ("vis", s(format!("{:?}", tcx.visibility(def_id))))]));
            }
            DefKind::Impl { of_trait } => {
                let self_ty = tcx.type_of(def_id).instantiate_identity().skip_norm_wip();
                let self_id = cx.ty(self_ty);
                let (tr, targs, neg) = if of_trait {
                    let h = tcx.impl_trait_header(def_id);
                    let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                    let a: Vec<J> = tr.args.iter().skip(1).map(|a| match a.as_type() {
                        Some(t) => J::I(cx.ty(t) as i128),
                        None => s("_"),
                    }).collect();
                    (s(pp!(tcx.def_path_str(tr.def_id))), J::A(a), format!("{:?}", h.polarity))
                } else {
                    (J::Null, J::A(vec![]), "Positive".into())
                };
                let its: Vec<J> = tcx
                    .associated_items(def_id)
                    .in_definition_order()
                    .map(|a| {
                        let mut o = vec![("name", s(a.opt_name().map(|n| n.to_string()).unwrap_or_default())), ("path", s(cx.path(a.def_id)))];
                        if a.is_type() {
                            let t = tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip();
                            o.push(("ty", J::I(cx.ty(t) as i128)));
                        }
                        if a.is_fn() {
                            o.push(("key", s(cx.path_args(a.def_id, ty::GenericArgs::identity_for_item(tcx, a.def_id)))));
                        }
                        J::O(o)
                    })
                    .collect();
                impls.push(J::O(vec![
                    ("trait", tr),
                    ("trait_args", targs),
                    ("self", J::I(self_id as i128)),
                    ("polarity", s(neg)),
                    ("derived", J::B(tcx.is_automatically_derived(def_id))),
                    ("items", J::A(its)),
                    ("span", cx.span(tcx.def_span(def_id))),
                    ("generics", J::A(tcx.generics_of(def_id).own_params.iter().map(|p| s(p.name.to_string())).collect())),
                ]));
            }
            _ => {}
        }
    }
    // unsafe blocks
    for did in tcx.hir_body_owners() {
        struct V<'a>(&'a mut Vec<Span>);
        impl<'v, 'a> rustc_hir::intravisit::Visitor<'v> for V<'a> {
            fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
                    self.0.push(b.span);
                }
                rustc_hir::intravisit::walk_block(self, b)
            }
        }
        let mut v = vec![];
        if let Some(body) = tcx.hir_maybe_body_owned_by(did) {
            rustc_hir::intravisit::Visitor::visit_body(&mut V(&mut v), body);
        }
        for sp in v {
            // not those the library's own macros expand to
            if sp.from_expansion() && !sp.ctxt().outer_expn_data().macro_def_id.map_or(false, |d| d.is_local()) {
                continue;
            }
            unsafe_blocks.push(J::A(vec![s(cx.path(did.to_def_id())), cx.span(sp)]));
        }
    }
    loop {
        if let Some((i, e)) = cx.queue.pop_front() {
            cx.instance(i, e);
        } else if let Some((d, a, e)) = cx.const_queue.pop_front() {
            cx.const_item(d, a, e);
        } else if let Some((p, a)) = cx.adt_queue.pop_front() {
            cx.adt(p, a);
        } else {
            break;
        }
    }
    // auto traits of pub ADTs
    let mut autos = vec![];
    for did in tcx.hir_crate_items(()).definitions() {
        let def_id = did.to_def_id();
        if matches!(tcx.def_kind(def_id), DefKind::Struct | DefKind::Enum) {
            let t = tcx.type_of(def_id).instantiate_identity().skip_norm_wip();
            let env = TypingEnv::post_analysis(tcx, def_id);
            let mut o = vec![("path", s(cx.path(def_id)))];
            o.push(("freeze", J::B(tcx.erase_and_anonymize_regions(t).is_freeze(tcx, env))));
            for (n, d) in [
                ("send", tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send"))),
                ("sync", tcx.lang_items().sync_trait()),
            ] {
                if let Some(d) = d {
                    use rustc_infer::infer::TyCtxtInferExt;
                    use rustc_trait_selection::infer::InferCtxtExt;
                    let (icx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                    let t = tcx.erase_and_anonymize_regions(t);
                    let r = icx.type_implements_trait(d, [t], penv).must_apply_modulo_regions();
                    o.push((n, J::B(r)));
                }
            }
            autos.push(J::O(o));
        }
    }
    let tys = J::A(std::mem::take(&mut cx.type_js));
    let root = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("types", tys),
        ("adts", J::M(cx.adts.into_iter().collect())),
        ("items", J::A(items)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("autos", J::A(autos)),
        ("unsafe", J::A(unsafe_blocks)),
        ("consts", J::M(cx.consts.into_iter().collect())),
        ("bodyless", J::M(cx.bodyless.into_iter().collect())),
        ("fns", J::M(cx.fns.into_iter().collect())),
    ]);
    let mut o = String::new();
    root.write(&mut o);
    o
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        pp!(self.tcx.def_path_str(d))
    }
    fn path_args(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let args = self.tcx.erase_and_anonymize_regions(args);
        let p = pp!(self.tcx.def_path_str_with_args(d, args));
        // closures do not print their parent's args
        if self.tcx.is_closure_like(d) {
            let parent = self.tcx.typeck_root_def_id(d);
            let n = self.tcx.generics_of(parent).count();
            if n > 0 && n <= args.len() {
                let pargs = self.tcx.mk_args(&args[..n]);
                if pargs.iter().any(|a| a.as_region().is_none()) {
                    let a: Vec<String> = pargs.iter().filter(|a| a.as_region().is_none()).map(|a| pp!(format!("{a}"))).collect();
                    return format!("{p}<{}>", a.join(", "));
                }
            }
        }
        p
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            o => format!("{o:?}"),
        };
        s(format!("{}:{}:{}-{}", f, lo.line, lo.col.0 + 1, hi.line))
    }
    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        J::I(lo.line as i128)
    }

    fn item(&mut self, did: LocalDefId, kind: DefKind) -> J {
        let tcx = self.tcx;
        let d = did.to_def_id();
        let mut o = vec![
            ("path", s(self.path(d))),
            ("kind", s(format!("{kind:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string())),
            ("vis", s(if tcx.visibility(d).is_public() { "pub" } else { "priv" })),
            ("reachable", J::B(tcx.effective_visibilities(()).is_reachable(did))),
            ("exported", J::B(tcx.effective_visibilities(()).is_exported(did))),
            ("span", self.span(tcx.def_span(d))),
            ("derived", J::B(tcx.is_automatically_derived(tcx.parent(d)))),
        ];
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let key = self.path_args(d, ty::GenericArgs::identity_for_item(tcx, d));
                o.push(("key", s(key)));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<J> = sig.inputs().iter().map(|t| J::I(self.ty(*t) as i128)).collect();
                o.push(("inputs", J::A(ins)));
                o.push(("output", J::I(self.ty(sig.output()) as i128)));
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
            }
            DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                o.push(("ty", J::I(self.ty(t) as i128)));
                if let DefKind::Static { mutability, .. } = kind {
                    o.push(("mut", J::B(mutability.is_mut())));
                    let env = TypingEnv::fully_monomorphized();
                    o.push(("freeze", J::B(tcx.erase_and_anonymize_regions(t).is_freeze(tcx, env))));
                }
            }
            _ => {}
        }
        J::O(o)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let name = pp!(format!("{t}"));
        // closures need a distinct name including parent args
        let name = match t.kind() {
            ty::Closure(d, a) => format!("closure:{}", self.path_args(*d, a)),
            ty::FnDef(d, a) => format!("fndef:{}", self.path_args(*d, a.skip_binder())),
            _ => name,
        };
        if let Some(&i) = self.types.get(&name) {
            return i;
        }
        let i = self.type_js.len();
        self.types.insert(name.clone(), i);
        self.type_js.push(J::Null);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(name))];
        let k = match *t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(_) | ty::Uint(_) => {
                let (w, sg) = match t.kind() {
                    ty::Int(x) => (x.bit_width().unwrap_or(64), true),
                    ty::Uint(x) => (x.bit_width().unwrap_or(64), false),
                    _ => unreachable!(),
                };
                o.push(("w", J::I(w as i128)));
                o.push(("signed", J::B(sg)));
                "int"
            }
            ty::Float(f) => {
                o.push(("w", J::I(f.bit_width() as i128)));
                "float"
            }
            ty::Str => "str",
            ty::Never => "never",
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                if self.seen_adt.insert(p.clone()) {
                    self.adt_queue.push_back((p.clone(), def));
                }
                o.push(("def", s(p)));
                let a = self.targs(args);
                o.push(("args", a));
                "adt"
            }
            ty::Ref(_, x, m) => {
                o.push(("to", J::I(self.ty(x) as i128)));
                o.push(("mut", J::B(m.is_mut())));
                "ref"
            }
            ty::RawPtr(x, m) => {
                o.push(("to", J::I(self.ty(x) as i128)));
                o.push(("mut", J::B(m.is_mut())));
                "ptr"
            }
            ty::Array(x, n) => {
                o.push(("to", J::I(self.ty(x) as i128)));
                o.push(("len", n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null)));
                "array"
            }
            ty::Slice(x) => {
                o.push(("to", J::I(self.ty(x) as i128)));
                "slice"
            }
            ty::Tuple(xs) => {
                let v: Vec<J> = xs.iter().map(|x| J::I(self.ty(x) as i128)).collect();
                o.push(("elems", J::A(v)));
                "tuple"
            }
            ty::Closure(d, args) => {
                o.push(("def", s(self.path(d))));
                o.push(("key", s(self.path_args(d, args))));
                let v: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| J::I(self.ty(x) as i128)).collect();
                o.push(("elems", J::A(v)));
                "closure"
            }
            ty::FnDef(d, args) => {
                o.push(("def", s(self.path(d))));
                o.push(("key", s(self.path_args(d, args.skip_binder()))));
                "fndef"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Dynamic(preds, ..) => {
                if let Some(p) = preds.principal_def_id() {
                    o.push(("def", s(self.path(p))));
                }
                let au: Vec<J> = preds.auto_traits().map(|d| s(self.path(d))).collect();
                o.push(("auto", J::A(au)));
                "dyn"
            }
            ty::Param(p) => {
                o.push(("name", s(p.name.to_string())));
                o.push(("idx", J::I(p.index as i128)));
                "param"
            }
            ty::Alias(..) => "alias",
            _ => "other",
        };
        o.push(("k", s(k)));
        self.type_js[i] = J::O(o);
        i
    }

    fn targs(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let v: Vec<J> = args
            .iter()
            .filter_map(|a| {
                if let Some(t) = a.as_type() {
                    Some(J::I(self.ty(t) as i128))
                } else if a.as_const().is_some() {
                    Some(s(pp!(format!("{a}"))))
                } else {
                    None
                }
            })
            .collect();
        J::A(v)
    }

    fn adt(&mut self, p: String, def: ty::AdtDef<'tcx>) {
        let tcx = self.tcx;
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, d)| (i, d.val)).collect()
        } else {
            vec![]
        };
        for (i, v) in def.variants().iter_enumerated() {
            let fields: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let vis = f.vis.is_public();
                    J::O(vec![("name", s(f.name.to_string())), ("ty", J::I(self.ty(t) as i128)), ("pub", J::B(vis))])
                })
                .collect();
            let d = discrs.iter().find(|x| x.0 == i).map(|x| J::U(x.1)).unwrap_or(J::Null);
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("discr", d),
                ("ctor", s(match v.ctor_kind() { Some(CtorKind::Fn) => "tuple", Some(CtorKind::Const) => "unit", None => "struct" })),
                ("fields", J::A(fields)),
            ]));
        }
        let gens: Vec<J> = tcx
            .generics_of(def.did())
            .own_params
            .iter()
            .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
            .map(|p| s(p.name.to_string()))
            .collect();
        let has_drop = def.has_dtor(tcx);
        let j = J::O(vec![
            ("kind", s(kind)),
            ("local", J::B(def.did().is_local())),
            ("box", J::B(def.is_box())),
            ("drop", J::B(has_drop)),
            ("generics", J::A(gens)),
            ("span", if def.did().is_local() { self.span(tcx.def_span(def.did())) } else { J::Null }),
            ("variants", J::A(vs)),
        ]);
        self.adts.insert(p, j);
    }

    fn enqueue(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let k = self.inst_key(i);
        if !self.seen.contains(&k) {
            self.seen.insert(k.clone());
            self.queue.push_back((i, env));
        }
        k
    }

    fn inst_key(&self, i: Instance<'tcx>) -> String {
        match i.def {
            InstanceKind::Item(d) => self.path_args(d, i.args),
            InstanceKind::Intrinsic(d) => format!("intrinsic:{}", self.path_args(d, i.args)),
            InstanceKind::Virtual(d, _) => format!("virtual:{}", self.path_args(d, i.args)),
            k => {
                let t = pp!(format!("{}", tcx_shim_name(self.tcx, k)));
                format!("shim:{}:{}", t, self.path_args(k.def_id(), i.args))
            }
        }
    }

    fn inline_foreign(&self, d: DefId) -> bool {
        let p = self.path(d);
        const OK: &[&str] = &[
            "core::option::", "<core::option::", "core::result::", "<core::result::",
            "core::ops::control_flow", "<core::ops::control_flow", "core::ops::try_trait",
            "core::ops::function", "core::mem::take", "core::mem::replace", "core::mem::swap",
            "core::convert::", "<core::convert", "core::bool::", "core::cmp::", "<core::cmp",
            "core::borrow::", "<core::borrow",
        ];
        if OK.iter().any(|o| p.starts_with(o)) {
            return true;
        }
        // `<T as core::convert::Into<U>>::into` and friends
        if p.starts_with('<') {
            for t in [
                "as core::convert::Into<", "as core::convert::From<T>>", "as core::convert::AsRef", "as core::convert::TryInto<",
                "as core::ops::try_trait::", "as core::ops::function::", "as core::borrow::",
            ] {
                if p.contains(t) && !p.contains("alloc::") && !p.contains("std::") {
                    return true;
                }
            }
            if p.ends_with("::next") || p.ends_with("::next_back") {
                return p.starts_with("<core::iter::adapters");
            }
            if p.ends_with("::into_iter") && p.starts_with("<I as ") {
                return true;
            }
        }
        if p.starts_with("core::iter::adapters::") || p.starts_with("core::bool::") || p.starts_with("core::ops::range::RangeInclusive") {
            return true;
        }
        matches!(
            p.as_str(),
            "core::iter::traits::iterator::Iterator::map"
                | "core::iter::traits::iterator::Iterator::filter"
                | "core::iter::traits::iterator::Iterator::enumerate"
                | "core::iter::traits::iterator::Iterator::rev"
                | "core::iter::traits::iterator::Iterator::by_ref"
                | "core::iter::traits::iterator::Iterator::copied"
                | "core::iter::traits::iterator::Iterator::cloned"
                | "core::iter::traits::iterator::Iterator::take"
                | "core::iter::traits::iterator::Iterator::skip"
                | "core::iter::traits::iterator::Iterator::chain"
                | "core::iter::traits::iterator::Iterator::peekable"
                | "core::iter::traits::iterator::Iterator::take_while"
                | "core::iter::traits::iterator::Iterator::skip_while"
                | "core::iter::traits::iterator::Iterator::map_while"
                | "core::iter::traits::iterator::Iterator::filter_map"
                | "core::iter::traits::iterator::Iterator::inspect"
                | "core::iter::traits::iterator::Iterator::fuse"
                | "core::iter::traits::iterator::Iterator::scan"
        )
    }

    fn instance(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let key = self.inst_key(inst);
        let d = inst.def_id();
        let local = d.is_local();
        let avail = match inst.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && (local || self.inline_foreign(d)),
            InstanceKind::Shim(sk) => {
                let n = format!("{sk:?}");
                n.starts_with("ClosureOnce") || n.starts_with("FnPtr(") || n.starts_with("Reify")
            }
            _ => false,
        };
        if !avail {
            let o = J::O(vec![
                ("path", s(self.path(d))),
                ("local", J::B(local)),
            ]);
            self.bodyless.insert(key, o);
            return;
        }
        let body = tcx.instance_mir(inst.def);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => {
                self.bodyless.insert(key, J::O(vec![("path", s(self.path(d))), ("local", J::B(local)), ("err", s("normalize"))]));
                return;
            }
        };
        let j = self.body(&key, d, &body, env, local, inst.args);
        self.fns.insert(key.clone(), j);
        if let InstanceKind::Item(d) = inst.def {
            let n = if d.is_local() || tcx.is_mir_available(d) { tcx.promoted_mir(d).len() } else { 0 };
            for i in 0..n {
                let pb = tcx.promoted_mir(d)[Promoted::from_usize(i)].clone();
                if let Ok(pb) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, pb)) {
                    let pk = format!("{key}::promoted[{i}]");
                    let j = self.body(&pk, d, &pb, env, local, inst.args);
                    self.fns.insert(pk, j);
                }
            }
        }
    }

    fn const_item(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let key = format!("const:{}", self.path_args(d, args));
        let inst = Instance::new_raw(d, args);
        if !d.is_local() {
            return;
        }
        let body = tcx.mir_for_ctfe(d).clone();
        if let Ok(b) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, body)) {
            let j = self.body(&key, d, &b, env, d.is_local(), args);
            self.fns.insert(key.clone(), j);
        }
        let n = tcx.promoted_mir(d).len();
        for i in 0..n {
            let pb = tcx.promoted_mir(d)[Promoted::from_usize(i)].clone();
            if let Ok(pb) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, pb)) {
                let pk = format!("{key}::promoted[{i}]");
                let j = self.body(&pk, d, &pb, env, true, args);
                self.fns.insert(pk, j);
            }
        }
    }

    fn body(&mut self, key: &str, d: DefId, b: &Body<'tcx>, env: TypingEnv<'tcx>, local: bool, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut names: HashMap<Local, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if let Some(l) = p.as_local() {
                    names.insert(l, v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, ld)| {
                let t = self.ty(ld.ty);
                match names.get(&l) {
                    Some(n) => J::A(vec![J::I(t as i128), s(n.clone())]),
                    None => J::A(vec![J::I(t as i128)]),
                }
            })
            .collect();
        let blocks: Vec<J> = b
            .basic_blocks
            .iter()
            .map(|bb| {
                if bb.is_cleanup {
                    return J::Null;
                }
                let mut st = vec![];
                for stm in &bb.statements {
                    if let Some(j) = self.stmt(key, stm, b, env) {
                        st.push(j);
                    }
                }
                let t = self.term(key, bb.terminator(), b, env);
                J::A(vec![J::A(st), t])
            })
            .collect();
        let targs = self.targs(args);
        J::O(vec![
            ("path", s(self.path(d))),
            ("local", J::B(local)),
            ("kind", s(format!("{:?}", tcx.def_kind(d)).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string())),
            ("argc", J::I(b.arg_count as i128)),
            ("spread", match b.spread_arg { Some(l) => J::I(l.as_usize() as i128), None => J::Null }),
            ("targs", targs),
            ("span", self.span(tcx.def_span(d))),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }

    // [local, [proj...]]
    fn place(&mut self, p: &Place<'tcx>, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let _ = base;
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), J::I(f.as_usize() as i128), J::I(self.ty(t) as i128)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), J::I(offset as i128), J::B(from_end), J::I(min_length as i128)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), J::I(v.as_usize() as i128)]),
                o => J::A(vec![s("?"), s(format!("{o:?}"))]),
            });
        }
        let t = p.ty(&b.local_decls, tcx).ty;
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(pr), J::I(self.ty(t) as i128)])
    }

    fn operand(&mut self, key: &str, o: &Operand<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p, b)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p, b)]),
            Operand::Constant(c) => self.konst(key, &c.const_, env),
            Operand::RuntimeChecks(c) => {
                let bt = self.ty(self.tcx.types.bool);
                J::A(vec![s("const"), J::I(bt as i128), J::O(vec![("int", J::I(c.value(self.tcx.sess) as i128))])])
            }
        }
    }

    fn konst(&mut self, key: &str, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.ty();
        let tid = self.ty(ty);
        let mk = |j: J| J::A(vec![s("const"), J::I(tid as i128), j]);
        match ty.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let cal = self.callee(*d, args, env);
                return mk(J::O(vec![("fn", cal)]));
            }
            _ => {}
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let base = self.path_args(u.def, u.args);
                // promoteds of a const item live under its own key
                let k = if key.starts_with("const:") { key.split("::promoted[").next().unwrap().to_string() } else { base };
                return mk(J::O(vec![("promoted", s(format!("{k}::promoted[{}]", p.as_usize())))]));
            }
        }
        let item = if let mir::Const::Unevaluated(u, _) = c {
            Some((u.def, u.args))
        } else {
            None
        };
        let mut extra: Vec<(&'static str, J)> = vec![];
        if let Some((d, a)) = item {
            extra.push(("item", s(self.path_args(d, a))));
        }
        if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
            if let Some(j) = self.cval(v, ty) {
                extra.extend(j);
                return mk(J::O(extra));
            }
        }
        if let Some((d, a)) = item {
            if d.is_local() {
                let k = format!("const:{}", self.path_args(d, a));
                if self.seen.insert(k.clone()) {
                    self.const_queue.push_back((d, a, env));
                }
                extra.push(("body", s(k)));
                return mk(J::O(extra));
            }
        }
        extra.push(("opaque", s(pp!(format!("{c:?}")))));
        mk(J::O(extra))
    }

    fn cval(&mut self, v: ConstValue, ty: Ty<'tcx>) -> Option<Vec<(&'static str, J)>> {
        let tcx = self.tcx;
        match ty.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                let sc = v.try_to_scalar_int()?;
                let bits = sc.to_bits(sc.size());
                if let ty::Int(_) = ty.kind() {
                    let x = sc.size().sign_extend(bits);
                    return Some(vec![("int", J::I(x as i128))]);
                }
                return Some(vec![("int", J::U(bits))]);
            }
            ty::Float(_) => {
                let sc = v.try_to_scalar_int()?;
                let bits = sc.to_bits(sc.size());
                return Some(vec![("float", J::U(bits))]);
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    let data = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    return Some(vec![("str", s(String::from_utf8_lossy(data).into_owned()))]);
                }
                ty::Slice(t) if *t == tcx.types.u8 => {
                    let data = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    return Some(vec![("bytes", J::A(data.iter().map(|b| J::I(*b as i128)).collect()))]);
                }
                _ => {
                    if inner.has_non_region_param() {
                        return None;
                    }
                    let sc = v.try_to_scalar()?;
                    if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = sc {
                        let (prov, off) = p.into_raw_parts();
                        let id = prov.alloc_id();
                        match tcx.global_alloc(id) {
                            rustc_middle::mir::interpret::GlobalAlloc::Memory(_) => {
                                if let ty::Array(t, n) = inner.kind() {
                                    if *t == tcx.types.u8 {
                                        let n = n.try_to_target_usize(tcx)? as usize;
                                        let al = tcx.global_alloc(id).unwrap_memory();
                                        let o = off.bytes_usize();
                                        let by = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                        return Some(vec![("bytes", J::A(by.iter().map(|b| J::I(*b as i128)).collect()))]);
                                    }
                                }
                                let cv = ConstValue::Indirect { alloc_id: id, offset: off };
                                let j = self.cval(cv, *inner)?;
                                let it = self.ty(*inner);
                                return Some(vec![("ref", J::A(vec![s("const"), J::I(it as i128), J::O(j)]))]);
                            }
                            rustc_middle::mir::interpret::GlobalAlloc::Static(d) => {
                                return Some(vec![("static", s(self.path(d)))]);
                            }
                            _ => return None,
                        }
                    }
                    None
                }
            },
            ty::FnDef(..) | ty::Closure(..) => Some(vec![("zst", J::B(true))]),
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if ty.has_non_region_param() {
                    if matches!(v, ConstValue::ZeroSized) {
                        return Some(vec![("zst", J::B(true))]);
                    }
                    return None;
                }
                if let ty::Adt(def, _) = ty.kind() {
                    if def.is_union() || def.variants().is_empty() {
                        return None;
                    }
                }
                let dc = tcx.try_destructure_mir_constant_for_user_output(v, ty)?;
                let mut fs = vec![];
                for (fv, ft) in dc.fields {
                    let j = self.cval(*fv, *ft)?;
                    let it = self.ty(*ft);
                    fs.push(J::A(vec![s("const"), J::I(it as i128), J::O(j)]));
                }
                Some(vec![
                    ("variant", match dc.variant { Some(v) => J::I(v.as_usize() as i128), None => J::Null }),
                    ("fields", J::A(fs)),
                ])
            }
            _ => None,
        }
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o = vec![("path", s(self.path(d)))];
        let ta = self.targs(args);
        o.push(("targs", ta));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
        }
        o.push(("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), Some(parent)),
                _ => (parent, None),
            };
            o.push(("ctor", s(self.path(adt))));
            let def = tcx.adt_def(adt);
            let vi = match var {
                Some(v) => def.variant_index_with_id(v).as_usize(),
                None => 0,
            };
            o.push(("variant", J::I(vi as i128)));
            return J::O(o);
        }
        // closures and fn items passed as generic arguments
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                self.collect_callables(t, env);
            }
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => {
                let iargs = tcx.erase_and_anonymize_regions(i.args);
                let i = Instance { def: i.def, args: iargs };
                let k = self.enqueue(i, env);
                o.push(("key", s(k)));
                o.push(("rpath", s(self.path(i.def_id()))));
                o.push(("local", J::B(i.def_id().is_local())));
                o.push(("ikind", s(match i.def { InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::Virtual(..) => "virtual", InstanceKind::LlvmIntrinsic(_) => "intrinsic", InstanceKind::Shim(_) => "shim" })));
            }
            _ => {
                o.push(("key", J::Null));
                o.push(("local", J::B(d.is_local())));
            }
        }
        // iterator sinks: the resolved `next` of Self
        if let Some(t) = tcx.trait_of_assoc(d) {
            let tp = self.path(t);
            if tp == "core::iter::traits::iterator::Iterator" || tp == "core::iter::traits::double_ended::DoubleEndedIterator" {
                if let Some(next) = tcx.associated_items(t).in_definition_order().find(|a| a.is_fn() && (a.name().as_str() == "next" || a.name().as_str() == "next_back")) {
                    let nargs = tcx.mk_args(&args[..1]);
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, env, next.def_id, nargs) {
                        let iargs = tcx.erase_and_anonymize_regions(i.args);
                        let k = self.enqueue(Instance { def: i.def, args: iargs }, env);
                        o.push(("next", s(k)));
                    }
                }
            }
            if tp == "core::iter::traits::collect::Extend" || tp == "core::iter::traits::collect::FromIterator" || tp == "core::iter::traits::collect::IntoIterator" {
                // find `I: IntoIterator` argument
                if let Some(a) = args.types().last() {
                    self.iter_extra(a, env, &mut o);
                }
            }
        } else {
            // functions taking an IntoIterator
            let n = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
            if n == "extend" || n == "zip" || n == "chain" {
                if let Some(a) = args.types().last() {
                    self.iter_extra(a, env, &mut o);
                }
            }
        }
        J::O(o)
    }

    fn iter_extra(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        let Some(it) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("IntoIterator")) else { return };
        let Some(itr) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Iterator")) else { return };
        if let Some(f) = tcx.associated_items(it).in_definition_order().find(|a| a.is_fn()) {
            let args = tcx.mk_args(&[t.into()]);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, f.def_id, args) {
                let k = self.enqueue(Instance { def: i.def, args: tcx.erase_and_anonymize_regions(i.args) }, env);
                o.push(("into_iter", s(k)));
            }
        }
        if let Some(ty_item) = tcx.associated_items(it).in_definition_order().find(|a| a.is_type() && a.name().as_str() == "IntoIter") {
            let args = tcx.mk_args(&[t.into()]);
            let proj = Ty::new_projection(tcx, ty::IsRigid::No, ty_item.def_id, args);
            if let Ok(n) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(proj)) {
                if let Some(next) = tcx.associated_items(itr).in_definition_order().find(|a| a.is_fn() && a.name().as_str() == "next") {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, env, next.def_id, tcx.mk_args(&[n.into()])) {
                        let k = self.enqueue(Instance { def: i.def, args: tcx.erase_and_anonymize_regions(i.args) }, env);
                        o.push(("next", s(k)));
                    }
                }
            }
        }
    }

    fn collect_callables(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) {
        match t.kind() {
            ty::Closure(d, args) => {
                let a = self.tcx.erase_and_anonymize_regions(*args);
                self.enqueue(Instance::new_raw(*d, a), env);
            }
            ty::FnDef(d, args) => {
                if matches!(self.tcx.def_kind(*d), DefKind::Ctor(..)) {
                    return;
                }
                let a = self.tcx.erase_and_anonymize_regions(args.skip_binder());
                if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, *d, a) {
                    let ia = self.tcx.erase_and_anonymize_regions(i.args);
                    self.enqueue(Instance { def: i.def, args: ia }, env);
                }
            }
            ty::Adt(_, args) => {
                for a in args.types() {
                    self.collect_callables(a, env);
                }
            }
            ty::Ref(_, x, _) => self.collect_callables(*x, env),
            ty::Tuple(xs) => {
                for x in xs.iter() {
                    self.collect_callables(x, env);
                }
            }
            _ => {}
        }
    }

    fn stmt(&mut self, key: &str, st: &Statement<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        let l = self.line(st.source_info.span);
        Some(match &st.kind {
            StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                let pj = self.place(p, b);
                let rj = self.rvalue(key, r, b, env);
                J::A(vec![s("="), pj, rj, l])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pj = self.place(place, b);
                J::A(vec![s("sd"), pj, J::I(variant_index.as_usize() as i128), l])
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => return None,
                _ => J::A(vec![s("copy_nonoverlapping"), l]),
            },
            _ => return None,
        })
    }

    fn rvalue(&mut self, key: &str, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(key, o, b, env)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.operand(key, o, b, env), n])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), self.place(p, b), J::B(m)])
            }
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), self.place(p, b), s(format!("{k:?}"))]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let oj = self.operand(key, o, b, env);
                let from = o.ty(&b.local_decls, self.tcx);
                if let CastKind::PointerCoercion(..) = k {
                    self.collect_callables(from, env);
                    if let ty::Ref(_, x, _) = from.kind() {
                        self.collect_callables(*x, env);
                    }
                }
                let f = self.ty(from);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), oj, J::I(f as i128), J::I(t as i128)])
            }
            Rvalue::BinaryOp(op, bx) => {
                let (x, y) = &**bx;
                let xj = self.operand(key, x, b, env);
                let yj = self.operand(key, y, b, env);
                let t = x.ty(&b.local_decls, self.tcx);
                J::A(vec![s("bin"), s(format!("{op:?}")), xj, yj, J::I(self.ty(t) as i128)])
            }
            Rvalue::UnaryOp(op, x) => {
                let t = x.ty(&b.local_decls, self.tcx);
                J::A(vec![s("un"), s(format!("{op:?}")), self.operand(key, x, b, env), J::I(self.ty(t) as i128)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p, b)]),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(key, o, b, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, ..) => J::A(vec![s("adt"), s(self.path(*d)), J::I(v.as_usize() as i128)]),
                    AggregateKind::Closure(d, args) => {
                        let a = self.tcx.erase_and_anonymize_regions(*args);
                        let k = self.enqueue(Instance::new_raw(*d, a), env);
                        J::A(vec![s("closure"), s(k)])
                    }
                    o => J::A(vec![s("other"), s(format!("{o:?}"))]),
                };
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p, b)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), self.place(p, b), J::B(m.is_mut())]),
            o => J::A(vec![s("other"), s(format!("{o:?}"))]),
        }
    }

    fn term(&mut self, key: &str, t: &Terminator<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let l = self.line(t.source_info.span);
        let bb = |x: &BasicBlock| J::I(x.as_usize() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let oj = self.operand(key, discr, b, env);
                let dt = discr.ty(&b.local_decls, self.tcx);
                let ti = self.ty(dt);
                let sx = |v: u128| -> J {
                    if let ty::Int(it) = dt.kind() {
                        let w = it.bit_width().unwrap_or(64);
                        let x = if w < 128 && (v >> (w - 1)) & 1 == 1 { (v as i128) - (1i128 << w) } else { v as i128 };
                        J::I(x)
                    } else {
                        J::U(v)
                    }
                };
                let ts: Vec<J> = targets.iter().map(|(v, x)| J::A(vec![sx(v), bb(&x)])).collect();
                J::A(vec![s("switch"), oj, J::A(ts), bb(&targets.otherwise()), J::I(ti as i128), l])
            }
            TerminatorKind::Return => J::A(vec![s("return")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(place, b), bb(target)]),
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let fj = self.operand(key, func, b, env);
                let aj: Vec<J> = args.iter().map(|a| self.operand(key, &a.node, b, env)).collect();
                let dj = self.place(destination, b);
                let tj = target.map(|x| bb(&x)).unwrap_or(J::Null);
                let fl = self.span(*fn_span);
                J::A(vec![s("call"), fj, J::A(aj), dj, tj, l, fl])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let cj = self.operand(key, cond, b, env);
                let (mk, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.operand(key, len, b, env), self.operand(key, index, b, env)]),
                    AssertKind::Overflow(op, x, y) => (format!("Overflow({op:?})"), vec![self.operand(key, x, b, env), self.operand(key, y, b, env)]),
                    AssertKind::OverflowNeg(x) => ("OverflowNeg".into(), vec![self.operand(key, x, b, env)]),
                    AssertKind::DivisionByZero(x) => ("DivisionByZero".into(), vec![self.operand(key, x, b, env)]),
                    AssertKind::RemainderByZero(x) => ("RemainderByZero".into(), vec![self.operand(key, x, b, env)]),
                    o => (format!("{o:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(), vec![]),
                };
                J::A(vec![s("assert"), cj, J::B(*expected), s(mk), J::A(ops), bb(target), l])
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bb(real_target)]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
            o => J::A(vec![s("other"), s(format!("{o:?}"))]),
        }
    }
}

fn tcx_shim_name<'tcx>(_tcx: TyCtxt<'tcx>, k: InstanceKind<'tcx>) -> String {
    let n = format!("{k:?}");
    let n = n.strip_prefix("Shim(").unwrap_or(&n).to_string();
    n.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
