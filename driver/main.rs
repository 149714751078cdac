// MIR fact extractor.  Runs as RUSTC_WRAPPER; for the crates named in $RFACTS_CRATES it writes
// $RFACTS_DIR/<crate>.json: every body of the crate after drop elaboration (mir-opt-level 0),
// with resolved callees, field and variant names, constants and source locations.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, print::{with_no_trimmed_paths, PrintTraitRefExt}, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;
use std::process::{exit, Command};

struct Cb {
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x);
    }
    o.push(']');
    o
}
fn obj(v: &[(&str, String)]) -> String {
    let mut o = String::from("{");
    for (i, (k, x)) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&esc(k));
        o.push(':');
        o.push_str(x);
    }
    o.push('}');
    o
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    owner: String,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn tystr(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(format!("{}", t))
}
fn span(tcx: TyCtxt<'_>, s: Span) -> String {
    let s = s.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(s.lo());
    let f = match lo.file.name.clone().into_local_path() {
        Some(p) => p.display().to_string(),
        None => "?".into(),
    };
    format!("{}:{}", f, lo.line)
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => pr.push("[\"deref\"]".to_string()),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(ad, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if ad.is_enum() || ad.is_struct() || ad.is_union() {
                                ad.variant(vi).fields[f].name.to_string()
                            } else {
                                f.index().to_string()
                            }
                        }
                        _ => f.index().to_string(),
                    };
                    let adt = match pt.ty.kind() {
                        ty::Adt(ad, _) => path(self.tcx, ad.did()),
                        ty::Closure(..) => "{closure}".into(),
                        _ => "".into(),
                    };
                    pr.push(list([esc("field"), f.index().to_string(), esc(&name), esc(&adt)]));
                }
                ProjectionElem::Index(l) => pr.push(list([esc("index"), l.index().to_string()])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => pr.push(list([
                    esc("constidx"),
                    offset.to_string(),
                    from_end.to_string(),
                ])),
                ProjectionElem::Subslice { from, to, from_end } => pr.push(list([
                    esc("subslice"),
                    from.to_string(),
                    to.to_string(),
                    from_end.to_string(),
                ])),
                ProjectionElem::Downcast(name, v) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(ad, _) => ad.variant(v).name.to_string(),
                        _ => name.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    pr.push(list([esc("downcast"), esc(&n)]))
                }
                _ => pr.push("[\"other\"]".to_string()),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        list([p.local.index().to_string(), list(pr)])
    }

    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut v = vec![
            ("k", esc("fn")),
            ("path", esc(&path(tcx, d))),
            ("local", d.is_local().to_string()),
            ("args", list(args.iter().map(|a| esc(&with_no_trimmed_paths!(format!("{}", a)))))),
        ];
        if let Some(t) = tcx.trait_of_assoc(d) {
            v.push(("trait", esc(&path(tcx, t))));
            v.push(("name", esc(tcx.item_name(d).as_str())));
        }
        let closures: Vec<String> = args
            .iter()
            .filter_map(|a| a.as_type())
            .filter_map(|t| match t.kind() {
                ty::Closure(cd, _) => Some(esc(&path(tcx, *cd))),
                _ => None,
            })
            .collect();
        if !closures.is_empty() {
            v.push(("closures", list(closures)));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args) {
                let rd = i.def_id();
                v.push(("res", esc(&path(tcx, rd))));
                v.push(("reslocal", rd.is_local().to_string()));
            }
        }
        obj(&v)
    }

    fn alloc_bytes(&self, s: Scalar, len: usize) -> Option<Vec<u8>> {
        if let Scalar::Ptr(p, _) = s {
            let (prov, off) = p.prov_and_relative_offset();
            if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(prov.alloc_id()) {
                let a = a.inner();
                let o = off.bytes_usize();
                if o + len <= a.len() {
                    return Some(
                        a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + len).to_vec(),
                    );
                }
            }
        }
        None
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fnref(*d, args.no_bound_vars().unwrap());
        }
        let tys = esc(&tystr(t));
        if let Const::Ty(_, k) = c.const_ {
            if let ty::ConstKind::Param(p) = k.kind() {
                return obj(&[("k", esc("param")), ("name", esc(p.name.as_str())), ("ty", tys)]);
            }
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return obj(&[
                    ("k", esc("promoted")),
                    ("owner", esc(&path(tcx, u.def))),
                    ("idx", p.index().to_string()),
                    ("ty", tys),
                ]);
            }
        }
        let mut base = vec![("ty", tys)];
        let mut val = None;
        let mut item = None;
        if let Const::Unevaluated(u, _) = c.const_ {
            item = Some(path(tcx, u.def));
            base.push(("local", u.def.is_local().to_string()));
        }
        // scalar?
        let ev = c.const_.eval(tcx, self.env, c.span).ok();
        if let Some(cv) = ev {
            if let ConstValue::Scalar(Scalar::Ptr(p, _)) = cv {
                if let GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let state = tcx.is_mutable_static(d) || !st.is_freeze(tcx, self.env);
                    return obj(&[
                        ("k", esc("static")),
                        ("path", esc(&path(tcx, d))),
                        ("ty", esc(&tystr(st))),
                        ("state", state.to_string()),
                    ]);
                }
            }
            if let Some(si) = cv.try_to_scalar_int() {
                let size = si.size();
                let bits = si.to_bits(size);
                match t.kind() {
                    ty::Bool => val = Some(("bool", (bits != 0).to_string())),
                    ty::Char => val = Some(("char", esc(&char::from_u32(bits as u32).unwrap_or('?').to_string()))),
                    ty::Int(_) => val = Some(("int", esc(&size.sign_extend(bits).to_string()))),
                    ty::Uint(_) => val = Some(("int", esc(&bits.to_string()))),
                    ty::Adt(..) => val = Some(("adtbits", esc(&bits.to_string()))),
                    _ => val = Some(("bits", esc(&bits.to_string()))),
                }
            } else if let ty::Ref(_, inner, _) = t.kind() {
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            if inner.is_str() {
                                val = Some(("str", esc(&String::from_utf8_lossy(b))));
                            } else {
                                val = Some(("bytes", list(b.iter().map(|x| x.to_string()))));
                            }
                        }
                    }
                    ty::Array(et, n) if *et == tcx.types.u8 => {
                        if let (ConstValue::Scalar(s), Some(n)) = (cv, n.try_to_target_usize(tcx)) {
                            if let Some(b) = self.alloc_bytes(s, n as usize) {
                                val = Some(("bytes", list(b.iter().map(|x| x.to_string()))));
                            }
                        }
                    }
                    _ => {}
                }
            } else if matches!(cv, ConstValue::ZeroSized) {
                val = Some(("zst", "true".into()));
            }
        }
        if let Some((k, v)) = val {
            base.push(("k", esc(k)));
            base.push(("v", v));
        } else {
            base.push(("k", esc("opaque")));
            base.push(("dbg", esc(&with_no_trimmed_paths!(format!("{}", c.const_)))));
        }
        if let Some(i) = item {
            base.push(("item", esc(&i)));
        }
        obj(&base)
    }

    fn operand(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => list([esc("copy"), self.place(p)]),
            Operand::Move(p) => list([esc("move"), self.place(p)]),
            Operand::Constant(c) => list([esc("const"), self.constant(c)]),
            #[allow(unreachable_patterns)]
            _ => list([esc("other")]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => list([esc("use"), self.operand(o)]),
            Rvalue::Repeat(o, n) => {
                list([esc("repeat"), self.operand(o), esc(&with_no_trimmed_paths!(format!("{}", n)))])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                list([esc("ref"), m.to_string(), self.place(p)])
            }
            Rvalue::RawPtr(_, p) => list([esc("ref"), "true".into(), self.place(p)]),
            Rvalue::Cast(k, o, t) => list([
                esc("cast"),
                esc(&format!("{:?}", k)),
                self.operand(o),
                esc(&tystr(*t)),
                esc(&tystr(o.ty(self.body, tcx))),
            ]),
            Rvalue::BinaryOp(op, ab) => list([
                esc("bin"),
                esc(&format!("{:?}", op)),
                self.operand(&ab.0),
                self.operand(&ab.1),
                esc(&tystr(ab.0.ty(self.body, tcx))),
            ]),
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(self.body, tcx).to_string();
                list([esc("un"), esc(&format!("{:?}", op)), self.operand(a), esc(&t)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(ad, _) = t.kind() {
                    if ad.is_enum() {
                        for (vi, d) in ad.discriminants(tcx) {
                            vs.push(list([esc(&d.val.to_string()), esc(ad.variant(vi).name.as_str())]));
                        }
                    }
                }
                list([esc("discr"), self.place(p), list(vs), esc(&tystr(t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let o = list(ops.iter().map(|o| self.operand(o)));
                match &**k {
                    AggregateKind::Array(_) => list([esc("agg"), esc("array"), esc(""), esc(""), "[]".into(), o]),
                    AggregateKind::Tuple => list([esc("agg"), esc("tuple"), esc(""), esc(""), "[]".into(), o]),
                    AggregateKind::Adt(d, vi, ..) => {
                        let ad = tcx.adt_def(*d);
                        let v = ad.variant(*vi);
                        list([
                            esc("agg"),
                            esc("adt"),
                            esc(&path(tcx, *d)),
                            esc(if ad.is_enum() { v.name.as_str() } else { "" }),
                            list(v.fields.iter().map(|f| esc(f.name.as_str()))),
                            o,
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        list([esc("agg"), esc("closure"), esc(&path(tcx, *d)), esc(""), "[]".into(), o])
                    }
                    _ => list([esc("agg"), esc("other"), esc(""), esc(""), "[]".into(), o]),
                }
            }
            Rvalue::CopyForDeref(p) => list([esc("use"), list([esc("copy"), self.place(p)])]),
            _ => list([esc("other"), esc(&format!("{:?}", r))]),
        }
    }

    fn dump(&self, extra: Vec<(&str, String)>) -> String {
        let tcx = self.tcx;
        let b = self.body;
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names[p.local.index()] = Some(v.name.to_string());
                }
            }
        }
        let locals = list(b.local_decls.iter_enumerated().map(|(i, d)| {
            list([
                esc(&tystr(d.ty)),
                names[i.index()].as_ref().map(|n| esc(n)).unwrap_or("null".into()),
            ])
        }));
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                if let StatementKind::Assign(a) = &s.kind {
                    st.push(list([
                        self.place(&a.0),
                        self.rvalue(&a.1),
                        esc(&span(tcx, s.source_info.span)),
                    ]));
                } else if let StatementKind::SetDiscriminant { place, variant_index } = &s.kind {
                    let t = place.ty(b, tcx).ty;
                    let n = match t.kind() {
                        ty::Adt(ad, _) => ad.variant(*variant_index).name.to_string(),
                        _ => "".into(),
                    };
                    st.push(list([self.place(place), list([esc("setdiscr"), esc(&n)]), esc(&span(tcx, s.source_info.span))]));
                }
            }
            let t = bb.terminator();
            let sp = esc(&span(tcx, t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => list([esc("goto"), target.index().to_string()]),
                TerminatorKind::SwitchInt { discr, targets } => list([
                    esc("switch"),
                    self.operand(discr),
                    list(targets.iter().map(|(v, t)| list([esc(&v.to_string()), t.index().to_string()]))),
                    targets.otherwise().index().to_string(),
                    esc(&tystr(discr.ty(b, tcx))),
                ]),
                TerminatorKind::Return => list([esc("return")]),
                TerminatorKind::Unreachable => list([esc("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    list([esc("drop"), self.place(place), target.index().to_string()])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => list([
                    esc("call"),
                    self.operand(func),
                    list(args.iter().map(|a| self.operand(&a.node))),
                    self.place(destination),
                    target.map(|t| t.index().to_string()).unwrap_or("null".into()),
                    sp.clone(),
                    esc(&tystr(func.ty(b, tcx))),
                ]),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => list([
                    esc("assert"),
                    self.operand(cond),
                    expected.to_string(),
                    target.index().to_string(),
                    esc(match **msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "divzero",
                        AssertKind::RemainderByZero(..) => "divzero",
                        _ => "other",
                    }),
                    sp.clone(),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    list([esc("goto"), real_target.index().to_string()])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    list([esc("goto"), real_target.index().to_string()])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    list([esc("unreachable")])
                }
                other => list([esc("other"), esc(&format!("{:?}", other))]),
            };
            blocks.push(obj(&[("s", list(st)), ("t", term), ("sp", sp)]));
        }
        let mut v = vec![
            ("path", esc(&self.owner)),
            ("argc", b.arg_count.to_string()),
            ("locals", locals),
            ("blocks", list(blocks)),
            ("span", esc(&span(tcx, b.span))),
        ];
        v.extend(extra);
        obj(&v)
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<String>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.from_expansion() {
                self.found.push(span(self.tcx, b.span));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut bodies = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| path(tcx, d.to_def_id()));
        for ld in keys {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let (body, ks): (&Body<'tcx>, &str) = match kind {
                DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(d), "fn"),
                DefKind::Closure => (tcx.optimized_mir(d), "closure"),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    (tcx.mir_for_ctfe(ld), "const")
                }
                _ => continue,
            };
            let p = path(tcx, d);
            let env = TypingEnv::post_analysis(tcx, d);
            let mut extra: Vec<(&str, String)> = vec![("kind", esc(ks))];
            extra.push(("pub", tcx.visibility(tcx.typeck_root_def_id(d)).is_public().to_string()));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                extra.push(("unsafe", (!tcx.fn_sig(d).skip_binder().safety().is_safe()).to_string()));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    extra.push(("implty", esc(&tystr(tcx.type_of(im).skip_binder()))));
                    if let Some(t) = tcx.impl_opt_trait_ref(im) {
                        extra.push((
                            "implof",
                            esc(&with_no_trimmed_paths!(format!("{}", t.skip_binder().print_only_trait_path()))),
                        ));
                    }
                }
                if let Some(t) = tcx.trait_of_assoc(d) {
                    extra.push(("traitdef", esc(&path(tcx, t))));
                }
            }
            if kind == DefKind::Closure {
                let ups: Vec<String> = tcx
                    .closure_captures(ld)
                    .iter()
                    .map(|c| {
                        list([
                            esc(&c.to_string(tcx)),
                            c.is_by_ref().to_string(),
                            (matches!(c.info.capture_kind, ty::UpvarCapture::ByRef(k) if k != ty::BorrowKind::Immutable)).to_string(),
                        ])
                    })
                    .collect();
                extra.push(("upvars", list(ups)));
            }
            let cx = Cx { tcx, body, env, owner: p.clone() };
            let mut proms = vec![];
            if ks != "const" || true {
                for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                    let pc = Cx { tcx, body: pb, env, owner: format!("{}::promoted[{}]", p, i.index()) };
                    proms.push(pc.dump(vec![("kind", esc("promoted"))]));
                }
            }
            extra.push(("promoted", list(proms)));
            bodies.push(cx.dump(extra));
        }
        // methods that traits provide, as each implementation here would have them
        let mut impls: Vec<_> = tcx
            .all_local_trait_impls(())
            .iter()
            .flat_map(|(t, v)| v.iter().map(move |i| (*t, i.to_def_id())))
            .collect();
        impls.sort_by_key(|(t, i)| (path(tcx, *t), span(tcx, tcx.def_span(*i))));
        for (tr, im) in impls {
            let known = ["egg", "ruler"].contains(&tcx.crate_name(tr.krate).as_str());
            let Some(tref) = tcx.impl_opt_trait_ref(im) else { continue };
            let tref = tref.skip_binder();
            for it in tcx.associated_items(tr).in_definition_order() {
                let t = it.def_id;
                if tcx.def_kind(t) != DefKind::AssocFn || !tcx.defaultness(t).has_value() || !tcx.is_mir_available(t) {
                    continue;
                }
                let own = tcx.impl_item_implementor_ids(im).get(&t).copied();
                if own.is_none() && !known {
                    continue;
                }
                let with = ty::GenericArgs::identity_for_item(tcx, t).rebase_onto(tcx, tr, tref.args);
                let body = ty::EarlyBinder::bind(tcx, tcx.optimized_mir(t).clone()).instantiate(tcx, with).skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, im);
                let name = with_no_trimmed_paths!(format!("<{} as {}>::{}::{{default}}", tref.self_ty(), tref.print_only_trait_path(), tcx.item_name(t)));
                let mut proms = vec![];
                for (i, pb) in tcx.promoted_mir(t).iter_enumerated() {
                    let pc = Cx { tcx, body: pb, env, owner: format!("{}::promoted[{}]", name, i.index()) };
                    proms.push(pc.dump(vec![("kind", esc("promoted"))]));
                }
                let cx = Cx { tcx, body: &body, env, owner: name };
                bodies.push(cx.dump(vec![("kind", esc("default")), ("pub", "false".to_string()), ("promoted", list(proms))]));
            }
        }
        let mut uf = UnsafeFinder { tcx, found: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uf);
        // enums and structs of the crate
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Enum | DefKind::Struct) {
                let ad = tcx.adt_def(d);
                adts.push(list([
                    esc(&path(tcx, d)),
                    list(ad.variants().iter().map(|v| {
                        list([
                            esc(v.name.as_str()),
                            list(v.fields.iter().map(|f| {
                                list([
                                    esc(f.name.as_str()),
                                    esc(&tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                    f.vis.is_public().to_string(),
                                ])
                            })),
                        ])
                    })),
                ]));
            }
        }
        let out = obj(&[
            ("crate", esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("bodies", list(bodies)),
            ("adts", list(adts)),
            ("unsafe_blocks", list(uf.found.iter().map(|s| esc(s)))),
        ]);
        std::fs::write(&self.out, out).expect("cannot write facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // args[0] = wrapper, args[1] = rustc
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("RFACTS_CRATES").unwrap_or_default();
    let is_build = args.iter().any(|a| a == "build_script_build");
    if !is_build && want.split(',').any(|c| c == krate) && !krate.is_empty() {
        let dir = std::env::var("RFACTS_DIR").expect("RFACTS_DIR");
        args.remove(0);
        // a debug assertion does not exist in a release build; overflow checks stay as they are
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=on".into());
        let mut cb = Cb { out: format!("{}/{}.json", dir, krate) };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
        exit(0);
    }
    let st = Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
    exit(st.code().unwrap_or(101));
}
// 
