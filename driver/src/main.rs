//! Dumps the type-checked program of the `voprf` crate (instantiated MIR bodies
//! of every local function, types, visibility, impls, statics, `unsafe` uses)
//! as JSON.  Nothing is executed: the dump is the input of the static analyses
//! in `/verif/sa`.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let j = Dump::new(tcx).run();
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

struct NoCb;
impl Callbacks for NoCb {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: args[1] is the path of the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let target = std::env::var("VDRIVER_CRATE").unwrap_or_else(|_| "voprf".into());
    let out = std::env::var("VDRIVER_OUT").unwrap_or_default();
    if crate_name == target && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Zalways-encode-mir=yes".into());
        args.push("-Awarnings".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut NoCb);
    }
}

/// External functions whose (already compiled to MIR) bodies are dumped too, so
/// that combinators need no hand-written model.
const EXT_INLINE: &[&str] = &[
    "core::option",
    "core::result",
    "core::ops::control_flow",
    "core::ops::try_trait",
    "core::convert",
    "core::bool",
    "core::mem::replace",
    "core::mem::take",
    "core::cmp",
    "core::tuple",
    "core::array::from_ref",
    "core::iter::adapters::map::map_",
    "core::slice::{impl#0}::split_first",
    "core::slice::{impl#0}::split_last",
    "core::slice::{impl#0}::split_at_checked",
    "core::ops::range",
    "core::clone",
    "core::borrow",
    "core::array::equality",
];

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    bodies: Vec<J>,
    body_ix: HashMap<String, usize>,
}

struct RootCx<'tcx> {
    env: TypingEnv<'tcx>,
    map: BTreeMap<String, usize>,
    queue: VecDeque<(String, Work<'tcx>)>,
    seen: HashSet<String>,
}

enum Work<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(Instance<'tcx>, mir::Promoted),
    Const(DefId, GenericArgsRef<'tcx>),
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump {
            tcx,
            types: vec![],
            type_ix: HashMap::new(),
            bodies: vec![],
            body_ix: HashMap::new(),
        }
    }

    fn dpath(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }

    fn span(&self, s: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let f = match f.rfind("/src/") {
            Some(i) if f.contains("/rustlib/") || f.contains("/library/") => {
                format!("std:{}", &f[i + 5..])
            }
            _ => f,
        };
        J::S(format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.ty_ix(t) as i128)
    }

    fn ty_ix(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ix.get(&t) {
            return *i;
        }
        let ix = self.types.len();
        self.types.push(J::Null);
        self.type_ix.insert(t, ix);
        let j = self.ty_json(t);
        self.types[ix] = j;
        ix
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t));
            } else if let Some(c) = a.as_const() {
                v.push(J::o(vec![("c", self.cst(c))]));
            }
        }
        J::A(v)
    }

    fn cst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.try_to_target_usize(self.tcx) {
            Some(v) => J::I(v as i128),
            None => J::S(format!("{c:?}")),
        }
    }

    fn has_mut(&self, t: Ty<'tcx>, depth: usize) -> bool {
        if depth > 4 {
            return false;
        }
        match t.kind() {
            ty::Ref(_, _, m) => m.is_mut(),
            ty::Tuple(ts) => ts.iter().any(|t| self.has_mut(t, depth + 1)),
            ty::Adt(d, a) if d.did().is_local() && d.is_struct() => {
                d.all_fields().any(|f| self.has_mut(f.ty(self.tcx, a).skip_norm_wip(), depth + 1))
            }
            _ => false,
        }
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        use rustc_middle::ty::TyKind as TK;
        let s = |x: &str| J::S(x.to_string());
        match t.kind() {
            TK::Bool | TK::Char | TK::Int(_) | TK::Uint(_) | TK::Float(_) | TK::Str | TK::Never => {
                J::o(vec![("k", s("prim")), ("n", J::S(format!("{t}")))])
            }
            TK::Adt(def, args) => {
                let p = self.dpath(def.did());
                let a = self.args(args);
                let mut f = vec![("k", s("adt")), ("p", J::S(p)), ("a", a)];
                if def.is_struct() && self.has_mut(t, 0) {
                    // the fields of a struct of the crate that holds mutable references
                    let fs = def.non_enum_variant().fields.iter().map(|f| f.ty(self.tcx, args).skip_norm_wip()).collect::<Vec<_>>();
                    let fs = fs.into_iter().map(|t| self.ty(t)).collect();
                    f.push(("fs", J::A(fs)));
                }
                J::o(f)
            }
            TK::Array(e, n) => {
                let e = self.ty(*e);
                let n = self.cst(*n);
                J::o(vec![("k", s("array")), ("e", e), ("n", n)])
            }
            TK::Slice(e) => {
                let e = self.ty(*e);
                J::o(vec![("k", s("slice")), ("e", e)])
            }
            TK::RawPtr(e, _) => {
                let e = self.ty(*e);
                J::o(vec![("k", s("ptr")), ("e", e)])
            }
            TK::Ref(_, e, m) => {
                let e = self.ty(*e);
                J::o(vec![("k", s("ref")), ("e", e), ("m", J::B(m.is_mut()))])
            }
            TK::FnDef(d, a) => {
                let p = self.dpath((*d).into());
                let a = self.args(a.skip_binder());
                J::o(vec![("k", s("fndef")), ("p", J::S(p)), ("a", a)])
            }
            TK::FnPtr(..) => J::o(vec![("k", s("fnptr"))]),
            TK::Closure(d, a) => {
                let p = self.dpath((*d).into());
                let a = self.args(a);
                J::o(vec![("k", s("closure")), ("p", J::S(p)), ("a", a)])
            }
            TK::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::o(vec![("k", s("tuple")), ("a", J::A(v))])
            }
            TK::Alias(_, al) => {
                if let ty::AliasTyKind::Projection { def_id } = al.kind {
                    let d: DefId = def_id.into();
                    let p = self.dpath(d);
                    let name = self.tcx.item_name(d).to_string();
                    let tr = self.tcx.parent(d);
                    let tr = self.dpath(tr);
                    let a = self.args(al.args);
                    J::o(vec![
                        ("k", s("proj")),
                        ("p", J::S(p)),
                        ("tr", J::S(tr)),
                        ("n", J::S(name)),
                        ("a", a),
                    ])
                } else {
                    J::o(vec![("k", s("alias")), ("d", J::S(format!("{t:?}")))])
                }
            }
            TK::Param(p) => J::o(vec![("k", s("param")), ("n", J::S(p.name.to_string()))]),
            _ => J::o(vec![("k", s("other")), ("d", J::S(format!("{t:?}")))]),
        }
    }

    fn inst_key(&self, i: &Instance<'tcx>) -> String {
        let kind = match i.def {
            ty::InstanceKind::Item(_) => String::new(),
            k => format!("{k:?}"),
        };
        format!("{}|{:?}|{}", self.dpath(i.def_id()), i.args, kind)
    }

    fn wants_body(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let p = self.dpath(d);
        EXT_INLINE.iter().any(|x| p.starts_with(x)) && self.tcx.is_mir_available(d)
    }

    fn enqueue(&mut self, cx: &mut RootCx<'tcx>, i: Instance<'tcx>) -> Option<String> {
        let ok = match i.def {
            ty::InstanceKind::Item(d) => {
                matches!(
                    self.tcx.def_kind(d),
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure
                ) && (self.wants_body(d))
                    && self.tcx.is_mir_available(d)
            }
            _ => false,
        };
        if !ok {
            return None;
        }
        let k = self.inst_key(&i);
        if cx.seen.insert(k.clone()) {
            if cx.seen.len() > 3000 {
                return None;
            }
            cx.queue.push_back((k.clone(), Work::Inst(i)));
        }
        Some(k)
    }

    /// The crate's own implementation of a library trait's method, if that is what it resolves to.
    fn own_method(&mut self, cx: &mut RootCx<'tcx>, trait_: rustc_span::Symbol, method: &str, args: &[ty::GenericArg<'tcx>]) -> Option<String> {
        let tcx = self.tcx;
        let t = tcx.get_diagnostic_item(trait_)?;
        let m = tcx.associated_items(t).in_definition_order().find(|i| i.name().as_str() == method)?.def_id;
        let inst = Instance::try_resolve(tcx, cx.env, m, tcx.mk_args(args)).ok()??;
        if !inst.def_id().is_local() {
            return None;
        }
        self.enqueue(cx, inst)
    }

    /// The crate's own `Drop` implementations run when a value of type `t` goes away, as a tree
    /// over its fields.  Only types that can reach something outside themselves are listed:
    /// whatever the drop of an owned value does to its own fields is not observable.
    fn drop_plan(&mut self, cx: &mut RootCx<'tcx>, t: Ty<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        match t.kind() {
            ty::Adt(ad, args) => {
                if ad.is_manually_drop() || ad.is_phantom_data() {
                    return None;
                }
                if !ad.did().is_local() {
                    let p = self.dpath(ad.did());
                    if p != "core::option::Option" && p != "core::result::Result" {
                        let inner = args.types().any(|a| self.drop_plan(cx, a, depth + 1).is_some());
                        return inner.then(|| J::o(vec![("many", J::B(true))]));
                    }
                }
                let outward = t.walk().any(|a| a.as_type().is_some_and(|x| x.is_ref() || x.is_raw_ptr()))
                    || ad.all_fields().any(|f| {
                        f.ty(tcx, args).skip_norm_wip().walk().any(|a| {
                            a.as_type().is_some_and(|x| x.is_ref() || x.is_raw_ptr())
                                || matches!(a.kind(), ty::GenericArgKind::Lifetime(_))
                        })
                    });
                let mut own = None;
                if let (true, true, Some(d)) = (outward, ad.did().is_local(), ad.destructor(tcx)) {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, cx.env, d.did, args) {
                        own = self.enqueue(cx, i);
                    }
                }
                let mut vs = vec![];
                let mut any = own.is_some();
                for (vi, v) in ad.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for (i, f) in v.fields.iter_enumerated() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx
                            .try_normalize_erasing_regions(cx.env, ty::Unnormalized::new_wip(ft))
                            .unwrap_or(ft);
                        if let Some(p) = self.drop_plan(cx, ft, depth + 1) {
                            any = true;
                            let ft = self.ty(ft);
                            fs.push(J::A(vec![J::I(i.as_usize() as i128), ft, p]));
                        }
                    }
                    let d = if ad.is_enum() { ad.discriminant_for_variant(tcx, vi).val.to_string() } else { String::new() };
                    vs.push(J::A(vec![J::S(d), J::A(fs)]));
                }
                if !any {
                    return None;
                }
                let ti = self.ty(t);
                Some(J::o(vec![
                    ("own", own.map(J::S).unwrap_or(J::Null)),
                    ("t", ti),
                    ("e", J::B(ad.is_enum())),
                    ("vs", J::A(vs)),
                ]))
            }
            ty::Tuple(ts) => {
                let mut fs = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    if let Some(p) = self.drop_plan(cx, ft, depth + 1) {
                        let ft = self.ty(ft);
                        fs.push(J::A(vec![J::I(i as i128), ft, p]));
                    }
                }
                if fs.is_empty() {
                    return None;
                }
                let ti = self.ty(t);
                Some(J::o(vec![
                    ("own", J::Null),
                    ("t", ti),
                    ("e", J::B(false)),
                    ("vs", J::A(vec![J::A(vec![J::S(String::new()), J::A(fs)])])),
                ]))
            }
            ty::Array(e, _) | ty::Slice(e) => {
                self.drop_plan(cx, *e, depth + 1).map(|_| J::o(vec![("many", J::B(true))]))
            }
            ty::Closure(_, a) => {
                let ups: Vec<_> = a.as_closure().upvar_tys().iter().collect();
                let inner = ups.into_iter().any(|u| self.drop_plan(cx, u, depth + 1).is_some());
                inner.then(|| J::o(vec![("many", J::B(true))]))
            }
            _ => None,
        }
    }

    /// Description of a function item used as a callee or value.
    fn fn_json(&mut self, cx: &mut RootCx<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut f: Vec<(&'static str, J)> = vec![];
        f.push(("p", J::S(self.dpath(d))));
        f.push(("n", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        f.push(("a", self.args(args)));
        let is_fn_like = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..));
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            // tuple struct / variant constructor used as a function
            let (adt, variant) = match of {
                rustc_hir::def::CtorOf::Struct => (tcx.parent(d), 0usize),
                rustc_hir::def::CtorOf::Variant => {
                    let v = tcx.parent(d);
                    let e = tcx.parent(v);
                    let ix = tcx.adt_def(e).variant_index_with_id(v).as_usize();
                    (e, ix)
                }
            };
            f.push(("ctor", J::S(self.dpath(adt))));
            f.push(("variant", J::I(variant as i128)));
        }
        if is_fn_like {
            if let Some(tr) = tcx.trait_of_assoc(d) {
                f.push(("tr", J::S(self.dpath(tr))));
                if let Some(t) = args.types().next() {
                    let t = self.ty(t);
                    f.push(("self", t));
                }
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                f.push(("implself", t));
                if let Some(trd) = tcx.impl_opt_trait_ref(im) {
                    let p = self.dpath(trd.skip_binder().def_id);
                    f.push(("tr", J::S(p)));
                }
            }
            f.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                return J::o(f);
            }
            if !d.is_local() {
                // implementations of the crate itself that a library function may call
                let mut nx = vec![];
                for a in args.iter().flat_map(|a| a.walk()) {
                    let Some(t) = a.as_type() else { continue };
                    let ty::Adt(ad, _) = t.kind() else { continue };
                    if !ad.did().is_local() {
                        continue;
                    }
                    let u8s = Ty::new_slice(tcx, tcx.types.u8);
                    for (trait_, method, targs) in [
                        (rustc_span::sym::Iterator, "next", vec![t.into()]),
                        (rustc_span::sym::AsRef, "as_ref", vec![t.into(), u8s.into()]),
                    ] {
                        if let Some(k) = self.own_method(cx, trait_, method, &targs) {
                            nx.push(J::A(vec![J::S(method.to_string()), J::S(self.dpath(ad.did())), J::S(k)]));
                        }
                    }
                }
                // collect into a type of the crate
                if tcx.opt_item_name(d).map(|n| n.as_str() == "collect").unwrap_or(false) && args.types().count() == 2 {
                    let it = args.type_at(0);
                    let b = args.type_at(1);
                    if let ty::Adt(ad, _) = b.kind() {
                        if ad.did().is_local() {
                            let item = tcx
                                .get_diagnostic_item(rustc_span::sym::Iterator)
                                .and_then(|t| tcx.associated_items(t).in_definition_order().find(|i| i.name().as_str() == "Item"))
                                .and_then(|i| {
                                    let p = Ty::new_projection(tcx, ty::IsRigid::No, i.def_id, [it]);
                                    tcx.try_normalize_erasing_regions(cx.env, ty::Unnormalized::new_wip(p)).ok()
                                });
                            if let Some(item) = item {
                                let ta = vec![b.into(), item.into(), it.into()];
                                if let Some(k) = self.own_method(cx, rustc_span::sym::FromIterator, "from_iter", &ta) {
                                    nx.push(J::A(vec![J::S("from_iter".to_string()), J::S(self.dpath(ad.did())), J::S(k)]));
                                }
                            }
                        }
                    }
                }
                if tcx.opt_item_name(d).map(|n| n.as_str() == "drop").unwrap_or(false) && args.types().count() == 1 {
                    if let Some(p) = self.drop_plan(cx, args.type_at(0), 0) {
                        f.push(("drop", p));
                    }
                }
                if !nx.is_empty() {
                    f.push(("own", J::A(nx)));
                }
            }
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, cx.env, d, args) {
                let rd = inst.def_id();
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                f.push(("kind", J::S(kind.to_string())));
                if rd != d {
                    f.push(("rp", J::S(self.dpath(rd))));
                    f.push(("ra", self.args(inst.args)));
                }
                if let Some(k) = self.enqueue(cx, inst) {
                    f.push(("inst", J::S(k)));
                }
            } else if d.is_local() && tcx.trait_of_assoc(d).is_some() && tcx.defaultness(d).has_value() {
                // a provided method of one of the crate's own traits, called generically
                if let Some(k) = self.enqueue(cx, Instance::new_raw(d, args)) {
                    f.push(("definst", J::S(k)));
                }
            }
        }
        J::o(f)
    }

    fn closure_inst(&mut self, cx: &mut RootCx<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let i = Instance::new_raw(d, args);
        match self.enqueue(cx, i) {
            Some(k) => J::S(k),
            None => J::Null,
        }
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: mir::Place<'tcx>) -> J {
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            let j = match e {
                Deref => J::S("*".into()),
                Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::S("f".into()), J::I(f.as_usize() as i128), t])
                }
                Index(l) => J::A(vec![J::S("i".into()), J::I(l.as_usize() as i128)]),
                ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::S("ci".into()),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                Subslice { from, to, from_end } => J::A(vec![
                    J::S("ss".into()),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                Downcast(_, v) => J::A(vec![J::S("d".into()), J::I(v.as_usize() as i128)]),
                OpaqueCast(_) => J::S("oc".into()),
                UnwrapUnsafeBinder(_) => J::S("ub".into()),
                PhantomDeref => J::S("pd".into()),
            };
            v.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        let _ = pty;
        J::A(v)
    }

    fn place_ty(&mut self, body: &mir::Body<'tcx>, p: mir::Place<'tcx>) -> Ty<'tcx> {
        p.ty(&body.local_decls, self.tcx).ty
    }

    fn bytes_of_alloc(&self, alloc: mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        let ga = self.tcx.try_get_global_alloc(alloc)?;
        let a = match ga {
            mir::interpret::GlobalAlloc::Memory(m) => m,
            _ => return None,
        };
        let a = a.inner();
        if off + len > a.len() || !a.provenance().ptrs().is_empty() {
            return None;
        }
        Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
    }

    fn hexs(b: &[u8]) -> J {
        let mut s = String::new();
        for x in b {
            s.push_str(&format!("{x:02x}"));
        }
        J::S(s)
    }

    fn val_json(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let whole = match t.kind() {
            // types of other crates stay opaque
            ty::TyKind::Adt(a, _) => a.did().is_local() || self.dpath(a.did()).starts_with("core::"),
            ty::TyKind::Tuple(..) => true,
            ty::TyKind::Array(..) => self.byte_array_len(t).is_none(),
            _ => false,
        };
        if whole && !t.has_non_region_param() && !t.has_aliases() {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let mut fs = vec![];
                for (fv, ft) in d.fields {
                    let j = self.val_json(*fv, *ft)?;
                    fs.push(J::o(vec![("t", self.ty(*ft)), ("val", j)]));
                }
                return Some(J::o(vec![
                    ("variant", d.variant.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::Null)),
                    ("f", J::A(fs)),
                ]));
            }
        }
        match v {
            mir::ConstValue::ZeroSized => Some(J::o(vec![("zst", J::B(true))])),
            mir::ConstValue::Scalar(s) => {
                match s {
                    mir::interpret::Scalar::Int(i) => {
                        let sz = i.size();
                        let bits = i.to_bits(sz);
                        Some(J::o(vec![("int", J::S(bits.to_string())), ("sz", J::I(sz.bytes() as i128))]))
                    }
                    mir::interpret::Scalar::Ptr(p, _) => {
                        // pointer to constant bytes
                        let (prov, off) = p.into_raw_parts();
                        let aid = prov.alloc_id();
                        if let ty::TyKind::Ref(_, e, _) = t.kind() {
                            if let Some(n) = self.byte_array_len(*e) {
                                let b = self.bytes_of_alloc(aid, off.bytes() as usize, n)?;
                                return Some(J::o(vec![("bytes", Self::hexs(&b))]));
                            }
                        }
                        if let mir::interpret::GlobalAlloc::Static(d) = tcx.try_get_global_alloc(aid)? {
                            return Some(J::o(vec![("static", J::S(self.dpath(d)))]));
                        }
                        None
                    }
                }
            }
            mir::ConstValue::Slice { alloc_id, meta } => {
                let ok = match t.kind() {
                    ty::TyKind::Ref(_, e, _) => match e.kind() {
                        ty::TyKind::Str => true,
                        ty::TyKind::Slice(e) => *e == tcx.types.u8,
                        _ => false,
                    },
                    _ => false,
                };
                if !ok {
                    return None;
                }
                let b = self.bytes_of_alloc(alloc_id, 0, meta as usize)?;
                Some(J::o(vec![("bytes", Self::hexs(&b))]))
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let n = self.byte_array_len(t)?;
                let b = self.bytes_of_alloc(alloc_id, offset.bytes() as usize, n)?;
                Some(J::o(vec![("bytes", Self::hexs(&b))]))
            }
        }
    }

    fn byte_array_len(&self, t: Ty<'tcx>) -> Option<usize> {
        match t.kind() {
            ty::TyKind::Array(e, n) if *e == self.tcx.types.u8 => {
                n.try_to_target_usize(self.tcx).map(|x| x as usize)
            }
            _ => None,
        }
    }

    fn constant(&mut self, cx: &mut RootCx<'tcx>, owner: &Instance<'tcx>, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut f: Vec<(&'static str, J)> = vec![("t", self.ty(t))];
        match t.kind() {
            ty::TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let j = self.fn_json(cx, (*d).into(), a);
                f.push(("fn", j));
                return J::o(f);
            }
            ty::TyKind::Closure(d, a) => {
                let j = self.closure_inst(cx, (*d).into(), a);
                f.push(("closure", j));
                f.push(("p", J::S(self.dpath((*d).into()))));
                return J::o(f);
            }
            _ => {}
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let k = format!("{}#promoted{}", self.inst_key(owner), p.as_usize());
                // try direct evaluation to bytes first
                if let Ok(v) = self.try_eval(cx, c) {
                    if let Some(j) = self.val_json(v, t) {
                        f.push(("val", j));
                        return J::o(f);
                    }
                }
                if cx.seen.insert(k.clone()) {
                    cx.queue.push_back((k.clone(), Work::Promoted(*owner, p)));
                }
                f.push(("promoted", J::S(k)));
                return J::o(f);
            }
            if let Ok(v) = self.try_eval(cx, c) {
                if let Some(j) = self.val_json(v, t) {
                    f.push(("val", j));
                    return J::o(f);
                }
            }
            let mut d = u.def;
            let mut a = u.args;
            f.push(("uneval", J::S(self.dpath(d))));
            f.push(("n", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
            let aj = self.args(a);
            f.push(("a", aj));
            if let Some(tr) = tcx.trait_of_assoc(d) {
                f.push(("tr", J::S(self.dpath(tr))));
            }
            if matches!(tcx.def_kind(d), DefKind::AssocConst { .. } | DefKind::Const { .. } | DefKind::AnonConst) {
                if matches!(tcx.def_kind(d), DefKind::AssocConst { .. }) {
                    match Instance::try_resolve(tcx, cx.env, d, a) {
                        Ok(Some(i)) => {
                            d = i.def_id();
                            a = i.args;
                        }
                        _ => return J::o(f),
                    }
                }
                if d.is_local() {
                    let k = format!("{}|{:?}|const", self.dpath(d), a);
                    if cx.seen.insert(k.clone()) {
                        cx.queue.push_back((k.clone(), Work::Const(d, a)));
                    }
                    f.push(("constbody", J::S(k)));
                } else {
                    f.push(("rp", J::S(self.dpath(d))));
                    let aj = self.args(a);
                    f.push(("ra", aj));
                }
            }
            return J::o(f);
        }
        if let Ok(v) = self.try_eval(cx, c) {
            if let Some(j) = self.val_json(v, t) {
                f.push(("val", j));
                return J::o(f);
            }
        }
        f.push(("opaque", J::S(format!("{:?}", c.const_))));
        J::o(f)
    }

    fn try_eval(&self, cx: &RootCx<'tcx>, c: &mir::ConstOperand<'tcx>) -> Result<mir::ConstValue, ()> {
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            use rustc_middle::ty::TypeVisitableExt;
            if u.args.has_param() || u.args.has_aliases() {
                // polymorphic constant: only evaluated when it does not depend on the
                // parameters (checked by const-eval itself)
                return self.tcx.const_eval_resolve(cx.env, u, rustc_span::DUMMY_SP).map_err(|_| ());
            }
        }
        c.const_.eval(self.tcx, cx.env, rustc_span::DUMMY_SP).map_err(|_| ())
    }

    fn operand(&mut self, cx: &mut RootCx<'tcx>, owner: &Instance<'tcx>, b: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![J::S("copy".into()), self.place(b, *p)]),
            mir::Operand::Move(p) => J::A(vec![J::S("move".into()), self.place(b, *p)]),
            mir::Operand::Constant(c) => J::A(vec![J::S("const".into()), self.constant(cx, owner, c)]),
            mir::Operand::RuntimeChecks(c) => {
                J::A(vec![J::S("rtc".into()), J::S(format!("{c:?}"))])
            }
        }
    }

    fn rvalue(&mut self, cx: &mut RootCx<'tcx>, owner: &Instance<'tcx>, b: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        let s = |x: &str| J::S(x.to_string());
        match r {
            mir::Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(cx, owner, b, o)]),
            mir::Rvalue::Repeat(o, n) => {
                let o = self.operand(cx, owner, b, o);
                let n = self.cst(*n);
                J::A(vec![s("repeat"), o, n])
            }
            mir::Rvalue::Ref(_, k, p) => {
                let m = match k {
                    mir::BorrowKind::Mut { .. } => "mut",
                    mir::BorrowKind::Fake(_) => "fake",
                    mir::BorrowKind::Shared => "shared",
                };
                J::A(vec![s("ref"), s(m), self.place(b, *p)])
            }
            mir::Rvalue::Reborrow(_, m, p) => {
                let m = if m.is_mut() { "mut" } else { "shared" };
                let mut pl = self.place(b, *p);
                if let J::A(v) = &mut pl {
                    v.push(J::S("*".into()));
                }
                J::A(vec![s("ref"), s(m), pl])
            }
            mir::Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), J::S(self.dpath(*d))]),
            mir::Rvalue::RawPtr(k, p) => {
                J::A(vec![s("rawptr"), J::S(format!("{k:?}")), self.place(b, *p)])
            }
            mir::Rvalue::Cast(k, o, t) => {
                // closure / fn item to fn pointer keep the function
                let st = o.ty(&b.local_decls, self.tcx);
                let mut extra = J::Null;
                match st.kind() {
                    ty::TyKind::Closure(d, a) => extra = self.closure_inst(cx, (*d).into(), a),
                    _ => {}
                }
                let o = self.operand(cx, owner, b, o);
                let st = self.ty(st);
                let t = self.ty(*t);
                J::A(vec![s("cast"), J::S(format!("{k:?}")), o, t, st, extra])
            }
            mir::Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                let x = self.operand(cx, owner, b, &ab.0);
                let y = self.operand(cx, owner, b, &ab.1);
                J::A(vec![s("bin"), J::S(format!("{op:?}")), x, y, t])
            }
            mir::Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                let x = self.operand(cx, owner, b, a);
                J::A(vec![s("un"), J::S(format!("{op:?}")), x, t])
            }
            mir::Rvalue::Discriminant(p) => {
                let t = self.place_ty(b, *p);
                // map discriminant values to variant indices
                let mut m = vec![];
                if let ty::TyKind::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        for (vi, d) in def.discriminants(self.tcx) {
                            m.push(J::A(vec![J::I(vi.as_usize() as i128), J::S(d.val.to_string())]));
                        }
                    }
                }
                let t = self.ty(t);
                J::A(vec![s("discr"), self.place(b, *p), t, J::A(m)])
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    mir::AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::o(vec![("k", s("array")), ("t", t)])
                    }
                    mir::AggregateKind::Tuple => J::o(vec![("k", s("tuple"))]),
                    mir::AggregateKind::Adt(d, v, a, _, fld) => {
                        let p = self.dpath(*d);
                        let adt = self.tcx.adt_def(*d);
                        let e = adt.is_enum();
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let t = self.ty(t);
                        J::o(vec![
                            ("k", s("adt")),
                            ("p", J::S(p)),
                            ("v", J::I(v.as_usize() as i128)),
                            ("e", J::B(e)),
                            ("t", t),
                            ("union", match fld { Some(f) => J::I(f.as_usize() as i128), None => J::Null }),
                        ])
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let k = self.closure_inst(cx, *d, a);
                        J::o(vec![("k", s("closure")), ("p", J::S(self.dpath(*d))), ("inst", k)])
                    }
                    x => J::o(vec![("k", s("other")), ("d", J::S(format!("{x:?}")))]),
                };
                let v = ops.iter().map(|o| self.operand(cx, owner, b, o)).collect();
                J::A(vec![s("agg"), kind, J::A(v)])
            }
            mir::Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("copy"), self.place(b, *p)])])
            }
            x => J::A(vec![s("other"), J::S(format!("{x:?}"))]),
        }
    }

    fn body(&mut self, cx: &mut RootCx<'tcx>, owner: Instance<'tcx>, b: &mir::Body<'tcx>) -> J {
        let s = |x: &str| J::S(x.to_string());
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in b.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            let n = names.get(&i.as_usize()).cloned().map(J::S).unwrap_or(J::Null);
            locals.push(J::A(vec![t, n]));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    mir::StatementKind::Assign(a) => {
                        let p = self.place(b, a.0);
                        let r = self.rvalue(cx, &owner, b, &a.1);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![
                            s("setd"),
                            self.place(b, **place),
                            J::I(variant_index.as_usize() as i128),
                            sp,
                        ]));
                    }
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(_) => {}
                        y => st.push(J::A(vec![s("intr"), J::S(format!("{y:?}")), sp])),
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            use mir::TerminatorKind as T;
            let t = match &term.kind {
                T::Goto { target, .. } => J::A(vec![s("goto"), J::I(target.as_usize() as i128)]),
                T::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    let d = self.operand(cx, &owner, b, discr);
                    let mut v = vec![];
                    for (val, t) in targets.iter() {
                        v.push(J::A(vec![J::S(val.to_string()), J::I(t.as_usize() as i128)]));
                    }
                    J::A(vec![s("switch"), d, J::A(v), J::I(targets.otherwise().as_usize() as i128), sp, dt])
                }
                T::Return => J::A(vec![s("return")]),
                T::Unreachable => J::A(vec![s("unreachable")]),
                T::UnwindResume | T::UnwindTerminate(_) => J::A(vec![s("unwind")]),
                T::Drop { place, target, .. } => {
                    let pt = self.place_ty(b, *place);
                    let t = self.ty(pt);
                    let plan = self.drop_plan(cx, pt, 0).unwrap_or(J::Null);
                    J::A(vec![s("drop"), self.place(b, *place), J::I(target.as_usize() as i128), t, sp, plan])
                }
                T::Call { func, args, destination, target, .. } => {
                    let f = self.operand(cx, &owner, b, func);
                    let mut a = vec![];
                    let mut at = vec![];
                    for x in args.iter() {
                        a.push(self.operand(cx, &owner, b, &x.node));
                        let t = x.node.ty(&b.local_decls, self.tcx);
                        at.push(self.ty(t));
                    }
                    let dt = self.place_ty(b, *destination);
                    let dt = self.ty(dt);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(b, *destination),
                        match target {
                            Some(t) => J::I(t.as_usize() as i128),
                            None => J::Null,
                        },
                        sp,
                        J::A(at),
                        dt,
                    ])
                }
                T::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cx, &owner, b, cond);
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(cx, &owner, b, len);
                            let i = self.operand(cx, &owner, b, index);
                            J::A(vec![s("bounds"), l, i])
                        }
                        mir::AssertKind::Overflow(op, ..) => {
                            J::A(vec![s("overflow"), J::S(format!("{op:?}"))])
                        }
                        x => J::A(vec![s("other"), J::S(format!("{x:?}").chars().take(80).collect())]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), m, J::I(target.as_usize() as i128), sp])
                }
                T::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.as_usize() as i128)])
                }
                T::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.as_usize() as i128)])
                }
                x => J::A(vec![s("other"), J::S(format!("{x:?}").chars().take(80).collect())]),
            };
            blocks.push(J::A(vec![J::A(st), t, J::B(bb.is_cleanup)]));
        }
        let sp = self.span(b.span);
        J::o(vec![
            ("path", J::S(self.dpath(owner.def_id()))),
            ("span", sp),
            ("argc", J::I(b.arg_count as i128)),
            ("spread", match b.spread_arg { Some(l) => J::I(l.as_usize() as i128), None => J::Null }),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn process(&mut self, cx: &mut RootCx<'tcx>, key: String, w: Work<'tcx>) {
        let tcx = self.tcx;
        let j = match w {
            Work::Inst(i) => {
                let b = tcx.instance_mir(i.def).clone();
                let b = match i.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    cx.env,
                    ty::EarlyBinder::bind(tcx, b),
                ) {
                    Ok(b) => b,
                    Err(_) => return,
                };
                self.body(cx, i, &b)
            }
            Work::Promoted(i, p) => {
                let b = tcx.promoted_mir(i.def_id())[p].clone();
                let b = match i.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    cx.env,
                    ty::EarlyBinder::bind(tcx, b),
                ) {
                    Ok(b) => b,
                    Err(_) => return,
                };
                self.body(cx, i, &b)
            }
            Work::Const(d, a) => {
                let i = Instance::new_raw(d, a);
                let b = tcx.mir_for_ctfe(d).clone();
                let b = match i.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    cx.env,
                    ty::EarlyBinder::bind(tcx, b),
                ) {
                    Ok(b) => b,
                    Err(_) => return,
                };
                self.body(cx, i, &b)
            }
        };
        let mut txt = String::new();
        j.write(&mut txt);
        let ix = match self.body_ix.get(&txt) {
            Some(i) => *i,
            None => {
                let i = self.bodies.len();
                self.bodies.push(j);
                self.body_ix.insert(txt, i);
                i
            }
        };
        cx.map.insert(key, ix);
    }

    fn root(&mut self, d: LocalDefId) -> J {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(did, args);
        let mut cx = RootCx { env, map: BTreeMap::new(), queue: VecDeque::new(), seen: HashSet::new() };
        let k = self.inst_key(&inst);
        cx.seen.insert(k.clone());
        cx.queue.push_back((k.clone(), Work::Inst(inst)));
        while let Some((k, w)) = cx.queue.pop_front() {
            self.process(&mut cx, k, w);
        }
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let sig = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig)).unwrap_or(sig);
        let ins = sig.inputs().iter().map(|t| self.ty(*t)).collect();
        let outp = self.ty(sig.output());
        let mut f: Vec<(&'static str, J)> = vec![
            ("p", J::S(self.dpath(did))),
            ("n", J::S(tcx.item_name(did).to_string())),
            ("pretty", J::S(tcx.def_path_str(did))),
            ("span", self.span(tcx.def_span(did))),
            ("key", J::S(k)),
            ("in", J::A(ins)),
            ("out", outp),
            ("vis", J::S(format!("{:?}", tcx.visibility(did)))),
            ("reach", J::B(tcx.effective_visibilities(()).is_reachable(d))),
            ("exported", J::B(tcx.effective_visibilities(()).is_exported(d))),
            ("unsafe", J::B(tcx.fn_sig(did).skip_binder().safety().is_unsafe())),
        ];
        let pnames = tcx.fn_arg_idents(did).iter().map(|i| J::S(i.map(|x| x.name.to_string()).unwrap_or_default())).collect();
        f.push(("params", J::A(pnames)));
        if let Some(im) = tcx.impl_of_assoc(did) {
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let t = self.ty(t);
            f.push(("implself", t));
            f.push(("impl", J::S(self.dpath(im))));
            if let Some(trd) = tcx.impl_opt_trait_ref(im) {
                let trd = trd.skip_binder();
                let p = self.dpath(trd.def_id);
                f.push(("tr", J::S(p)));
                let a = self.args(trd.args);
                f.push(("tra", a));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            f.push(("intrait", J::S(self.dpath(tr))));
        }
        let preds: Vec<J> = tcx
            .clauses_of(did)
            .instantiate_identity(tcx)
            .clauses
            .iter()
            .map(|p| J::S(format!("{:?}", p)))
            .collect();
        f.push(("preds", J::A(preds)));
        let m = cx.map.into_iter().map(|(k, v)| (k, J::I(v as i128))).collect();
        f.push(("map", J::M(m)));
        J::o(f)
    }

    fn run(mut self) -> J {
        let tcx = self.tcx;
        let mut roots = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| tcx.def_path(d.to_def_id()).to_string_no_crate_verbose());
        for d in keys {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.is_mir_available(d.to_def_id()) {
                if tcx.is_const_fn(d.to_def_id()) {
                    // still a function body
                }
                let r = self.root(d);
                roots.push(r);
            }
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        let mut consts = vec![];
        let mut traits = vec![];
        let mut others = vec![];
        let mut externs = vec![];
        let ev = tcx.effective_visibilities(());
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            let kind = tcx.def_kind(id);
            match kind {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(did);
                    let mut vars = vec![];
                    for v in adt.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let t = self.ty(t);
                            fs.push(J::o(vec![
                                ("n", J::S(f.name.to_string())),
                                ("t", t),
                                ("vis", J::S(format!("{:?}", f.vis))),
                                ("pub", J::B(f.vis.is_public())),
                                ("exported", J::B(f.did.as_local().map(|l| ev.is_exported(l)).unwrap_or(false))),
                            ]));
                        }
                        vars.push(J::o(vec![("n", J::S(v.name.to_string())), ("f", J::A(fs))]));
                    }
                    adts.push(J::o(vec![
                        ("p", J::S(self.dpath(did))),
                        ("kind", J::S(format!("{kind:?}"))),
                        ("span", self.span(tcx.def_span(did))),
                        ("exported", J::B(ev.is_exported(id))),
                        ("reach", J::B(ev.is_reachable(id))),
                        ("variants", J::A(vars)),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = self.ty(t);
                    let mut f = vec![("p", J::S(self.dpath(did))), ("self", t), ("span", self.span(tcx.def_span(did)))];
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        let tr = tr.skip_binder();
                        f.push(("tr", J::S(self.dpath(tr.def_id))));
                        let a = self.args(tr.args);
                        f.push(("tra", a));
                        f.push(("neg", J::B(matches!(tcx.impl_polarity(did), ty::ImplPolarity::Negative))));
                        f.push(("unsafe", J::B(tcx.impl_trait_header(did).safety.is_unsafe())));
                    }
                    let items = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|i| J::o(vec![("n", J::S(i.name().to_string())), ("k", J::S(format!("{:?}", i.tag()))), ("p", J::S(self.dpath(i.def_id)))]))
                        .collect();
                    f.push(("items", J::A(items)));
                    // associated types
                    let mut at = vec![];
                    for i in tcx.associated_items(did).in_definition_order() {
                        if matches!(tcx.def_kind(i.def_id), DefKind::AssocTy) {
                            let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                            let t = tcx.try_normalize_erasing_regions(TypingEnv::post_analysis(tcx, did), ty::Unnormalized::new_wip(t)).unwrap_or(t);
                            let t = self.ty(t);
                            at.push((i.name().to_string(), t));
                        }
                    }
                    f.push(("types", J::M(at)));
                    let preds: Vec<J> = tcx.clauses_of(did).instantiate_identity(tcx).clauses.iter().map(|p| J::S(format!("{:?}", p))).collect();
                    f.push(("preds", J::A(preds)));
                    impls.push(J::o(f));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let freeze = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, did));
                    let tj = self.ty(t);
                    statics.push(J::o(vec![
                        ("p", J::S(self.dpath(did))),
                        ("span", self.span(tcx.def_span(did))),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(freeze)),
                        ("tls", J::B(tcx.is_thread_local_static(did))),
                        ("t", tj),
                    ]));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let tj = self.ty(t);
                    let tj2 = self.ty(t);
                    let mut f = vec![("p", J::S(self.dpath(did))), ("t", tj), ("exported", J::B(ev.is_exported(id))), ("span", self.span(tcx.def_span(did)))];
                    if tcx.generics_of(did).is_empty() {
                        if let Ok(v) = tcx.const_eval_poly(did) {
                            if let Some(j) = self.val_json(v, t) {
                                f.push(("val", j));
                            }
                        }
                    } else if matches!(kind, DefKind::AssocConst { .. }) && tcx.impl_of_assoc(did).is_some() {
                        let env = TypingEnv::post_analysis(tcx, did);
                        let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did));
                        let mut cx = RootCx { env, map: BTreeMap::new(), queue: VecDeque::new(), seen: HashSet::new() };
                        let k = format!("{}|{:?}|const", self.dpath(did), args);
                        cx.seen.insert(k.clone());
                        cx.queue.push_back((k.clone(), Work::Const(did, args)));
                        while let Some((k, w)) = cx.queue.pop_front() {
                            self.process(&mut cx, k, w);
                        }
                        f.push(("key", J::S(k)));
                        f.push(("pretty", J::S(tcx.def_path_str(did))));
                        f.push(("in", J::A(vec![])));
                        f.push(("out", tj2));
                        let m = cx.map.into_iter().map(|(k, v)| (k, J::I(v as i128))).collect();
                        f.push(("map", J::M(m)));
                    }
                    consts.push(J::o(f));
                }
                DefKind::Trait => {
                    let items = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|i| J::o(vec![("n", J::S(i.name().to_string())), ("k", J::S(format!("{:?}", i.tag()))), ("default", J::B(tcx.defaultness(i.def_id).has_value()))]))
                        .collect();
                    traits.push(J::o(vec![
                        ("p", J::S(self.dpath(did))),
                        ("exported", J::B(ev.is_exported(id))),
                        ("reach", J::B(ev.is_reachable(id))),
                        ("unsafe", J::B(tcx.trait_def(did).safety.is_unsafe())),
                        ("items", J::A(items)),
                    ]));
                }
                DefKind::ExternCrate => {
                    externs.push(J::o(vec![
                        ("p", J::S(self.dpath(did))),
                        ("span", self.span(tcx.def_span(did))),
                        ("crate", J::S(tcx.extern_mod_stmt_cnum(id).map(|c| tcx.crate_name(c).to_string()).unwrap_or_default())),
                    ]));
                }
                DefKind::TyAlias | DefKind::Mod | DefKind::Macro(..) | DefKind::GlobalAsm | DefKind::ForeignMod => {
                    others.push(J::o(vec![
                        ("p", J::S(self.dpath(did))),
                        ("k", J::S(format!("{kind:?}"))),
                        ("exported", J::B(ev.is_exported(id))),
                    ]));
                }
                _ => {}
            }
        }
        // names exported at the crate root
        let mut exports = vec![];
        for c in tcx.module_children_local(rustc_hir::def_id::CRATE_DEF_ID) {
            if c.vis.is_public() {
                let p = c.res.opt_def_id().map(|d| self.dpath(d)).unwrap_or_default();
                exports.push(J::A(vec![J::S(c.ident.to_string()), J::S(p)]));
            }
        }
        // unsafe uses
        let mut uv = UnsafeVisitor { tcx, found: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uv);
        let uns = std::mem::take(&mut uv.found)
            .into_iter()
            .map(|(w, s)| J::o(vec![("what", J::S(w)), ("exp", J::B(s.from_expansion())), ("span", self.span(s))]))
            .collect();
        // features of the crate and its attributes
        let krate_attrs: Vec<J> = tcx.hir_krate_attrs().iter().map(|a| J::S(format!("{a:?}").chars().take(200).collect())).collect();
        let mut deps = vec![];
        for c in tcx.crates(()) {
            deps.push(J::S(tcx.crate_name(*c).to_string()));
        }
        let opts = tcx.sess.opts.debug_assertions;
        let cfgs: Vec<J> = tcx
            .sess
            .config
            .iter()
            .map(|(k, v)| J::S(match v { Some(v) => format!("{k}={v}"), None => k.to_string() }))
            .collect();
        let _ = LOCAL_CRATE;
        J::o(vec![
            ("crate", J::S(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("debug_assertions", J::B(opts)),
            ("cfg", J::A(cfgs)),
            ("attrs", J::A(krate_attrs)),
            ("deps", J::A(deps)),
            ("roots", J::A(roots)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("statics", J::A(statics)),
            ("consts", J::A(consts)),
            ("others", J::A(others)),
            ("externs", J::A(externs)),
            ("exports", J::A(exports)),
            ("unsafe", J::A(uns)),
            ("types", J::A(std::mem::take(&mut self.types))),
            ("bodies", J::A(std::mem::take(&mut self.bodies))),
        ])
    }
}

struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, Span)>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;

    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }

    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            self.found.push((format!("block {src:?}"), b.span));
        }
        rustc_hir::intravisit::walk_block(self, b)
    }

    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        // values taken from the environment of the build
        for x in e.span.macro_backtrace() {
            if let rustc_span::ExpnKind::Macro(_, n) = x.kind {
                let n = n.as_str();
                if n == "env" || n == "option_env" {
                    let text = self.tcx.sess.source_map().span_to_snippet(x.call_site).unwrap_or_default();
                    if !text.contains("\"CARGO_PKG_") {
                        self.found.push((format!("environment {n}!"), x.call_site));
                    }
                }
            }
        }
        rustc_hir::intravisit::walk_expr(self, e)
    }

    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    if t.safety.is_unsafe() {
                        self.found.push(("unsafe impl".into(), i.span));
                    }
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => self.found.push(("foreign module".into(), i.span)),
            rustc_hir::ItemKind::GlobalAsm { .. } => self.found.push(("global asm".into(), i.span)),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i)
    }

    fn visit_fn(
        &mut self,
        k: rustc_hir::intravisit::FnKind<'tcx>,
        d: &'tcx rustc_hir::FnDecl<'tcx>,
        b: rustc_hir::BodyId,
        s: Span,
        id: LocalDefId,
    ) {
        if let Some(h) = k.header() {
            if h.is_unsafe() {
                self.found.push(("unsafe fn".into(), s));
            }
        }
        rustc_hir::intravisit::walk_fn(self, k, d, b, id)
    }
}
