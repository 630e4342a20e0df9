// MIR dumper: a rustc driver that runs the ordinary front end on one crate and
// writes its type-checked MIR (resolved callees, evaluated constants, ADT
// layouts, visibilities) as JSON.  It never runs code generation.
//
// Used through RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...].
// MIRDUMP_OUT    directory the dumps go to (<crate name>-<crate type>.json)
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};

// ---------------------------------------------------------------- JSON
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}
fn bytes_json(b: &[u8]) -> String {
    arr(b.iter().map(|x| x.to_string()))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        js(&with_no_trimmed_paths!(format!("{}", t)))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}", f, lo.line))
    }

    fn variants(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(def, _) if def.is_enum() => arr(def.discriminants(self.tcx).map(|(i, d)| {
                format!("[{},{}]", d.val, js(def.variant(i).name.as_str()))
            })),
            _ => "null".into(),
        }
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut cur = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut el = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(i, fty) => {
                    let (owner, name) = match cur.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            (self.path(def.did()), def.variant(v).fields[i].name.to_string())
                        }
                        ty::Closure(..) => ("closure".into(), i.index().to_string()),
                        _ => ("tuple".into(), i.index().to_string()),
                    };
                    format!("[\"field\",{},{},{},{}]", js(&name), i.index(), js(&owner), self.ty(fty))
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => {
                    let n = match n {
                        Some(n) => n.to_string(),
                        None => match cur.ty.kind() {
                            ty::Adt(def, _) => def.variant(v).name.to_string(),
                            _ => v.index().to_string(),
                        },
                    };
                    format!("[\"downcast\",{}]", js(&n))
                }
                _ => "[\"other\"]".to_string(),
            };
            el.push(s);
            cur = cur.projection_ty(self.tcx, e);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.index(), arr(el))
    }

    fn callee(&self, body_did: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let te = TypingEnv::post_analysis(tcx, body_did);
        let resolved = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let args = tcx.erase_and_anonymize_regions(args);
                match Instance::try_resolve(tcx, te, d, args) {
                    Ok(Some(i)) => match i.def {
                        ty::InstanceKind::Item(rd) => Some(rd),
                        _ => None,
                    },
                    _ => None,
                }
            }
            _ => None,
        };
        let mutargs = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(d).skip_binder().skip_binder();
                arr(sig.inputs().iter().enumerate().filter_map(|(i, t)| match t.kind() {
                    ty::Ref(_, _, m) if m.is_mut() => Some(i.to_string()),
                    _ => None,
                }))
            }
            _ => "[]".into(),
        };
        let tr = tcx.trait_of_assoc(d);
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        format!(
            "{{\"def\":{},\"name\":{},\"trait\":{},\"res\":{},\"reslocal\":{},\"targs\":{},\"krate\":{},\"mutargs\":{}}}",
            js(&self.path(d)),
            js(&name),
            tr.map(|t| js(&self.path(t))).unwrap_or("null".into()),
            resolved.map(|r| js(&self.path(r))).unwrap_or("null".into()),
            resolved.map(|r| r.is_local()).unwrap_or(false),
            arr(args.iter().map(|a| js(&with_no_trimmed_paths!(format!("{}", a))))),
            js(tcx.crate_name(d.krate).as_str()),
            mutargs,
        )
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let total = a.size().bytes();
                let end = len.map(|l| off + l).unwrap_or(total);
                if end > total {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize).to_vec())
            }
            _ => None,
        }
    }

    fn const_val(&self, val: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let s = val.try_to_scalar_int()?;
                let v: String = match t.kind() {
                    ty::Bool => (if s.try_to_bool().ok()? { "true" } else { "false" }).into(),
                    ty::Int(_) => s.to_int(s.size()).to_string(),
                    _ => s.to_uint(s.size()).to_string(),
                };
                let k = match t.kind() {
                    ty::Bool => "bool",
                    ty::Char => "char",
                    _ => "int",
                };
                Some(format!("\"k\":\"{}\",\"v\":{}", k, v))
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    let b = val.try_get_slice_bytes_for_diagnostics(tcx)?;
                    Some(format!("\"k\":\"str\",\"v\":{}", js(&String::from_utf8_lossy(b))))
                }
                ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                    let b = val.try_get_slice_bytes_for_diagnostics(tcx)?;
                    Some(format!("\"k\":\"bytes\",\"v\":{}", bytes_json(b)))
                }
                ty::Array(e, _) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                    if let Some(Scalar::Ptr(p, _)) = val.try_to_scalar() {
                        let (prov, off) = p.prov_and_relative_offset();
                        let b = self.alloc_bytes(prov.alloc_id(), off.bytes(), None)?;
                        return Some(format!("\"k\":\"bytes\",\"v\":{}", bytes_json(&b)));
                    }
                    None
                }
                _ => {
                    if let Some(Scalar::Ptr(p, _)) = val.try_to_scalar() {
                        let (prov, _off) = p.prov_and_relative_offset();
                        if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                            return Some(format!("\"k\":\"static\",\"v\":{}", js(&self.path(d))));
                        }
                    }
                    None
                }
            },
            ty::Tuple(l) if l.is_empty() => Some("\"k\":\"unit\",\"v\":null".into()),
            _ => None,
        }
    }

    fn constant(&self, did: DefId, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tys = self.ty(t);
        match t.kind() {
            ty::FnDef(d, args) => {
                return format!("{{\"k\":\"fn\",\"v\":{}}}", self.callee(did, *d, args.no_bound_vars().unwrap()));
            }
            _ => {}
        }
        let te = TypingEnv::post_analysis(tcx, did);
        match c {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    return format!(
                        "{{\"k\":\"promoted\",\"v\":{},\"of\":{},\"ty\":{}}}",
                        p.index(),
                        js(&self.path(u.def)),
                        tys
                    );
                }
                let v = match c.eval(tcx, te, rustc_span::DUMMY_SP) {
                    Ok(v) => self.const_val(v, t),
                    Err(_) => None,
                };
                let name = js(&self.path(u.def));
                match v {
                    Some(v) => format!("{{{},\"item\":{},\"ty\":{}}}", v, name, tys),
                    None => format!("{{\"k\":\"item\",\"v\":{},\"item\":{},\"ty\":{}}}", name, name, tys),
                }
            }
            Const::Val(v, _) => match self.const_val(*v, t) {
                Some(v) => format!("{{{},\"ty\":{}}}", v, tys),
                None => format!("{{\"k\":\"opaque\",\"v\":{},\"ty\":{}}}", js(&format!("{:?}", v)), tys),
            },
            Const::Ty(_, ct) => match ct.try_to_target_usize(tcx) {
                Some(n) => format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", n, tys),
                None => format!("{{\"k\":\"opaque\",\"v\":{},\"ty\":{}}}", js(&format!("{:?}", ct)), tys),
            },
        }
    }

    fn operand(&self, did: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"pl\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"pl\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"c\":{}}}", self.constant(did, &c.const_)),
            _ => "{\"o\":\"const\",\"c\":{\"k\":\"bool\",\"v\":false,\"ty\":\"bool\"}}".into(),
        }
    }

    fn rvalue(&self, did: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(did, body, o);
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", op(o)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}",
                op(o),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"pl\":{}}}",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"pl\":{}}}", self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"kind\":{},\"a\":{},\"to\":{},\"from\":{}}}",
                js(&format!("{:?}", k)),
                op(o),
                self.ty(*t),
                self.ty(o.ty(body, self.tcx))
            ),
            Rvalue::BinaryOp(b, ab) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"ty\":{}}}",
                js(&format!("{:?}", b)),
                op(&ab.0),
                op(&ab.1),
                self.ty(ab.0.ty(body, self.tcx))
            ),
            Rvalue::UnaryOp(u, a) => {
                format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", js(&format!("{:?}", u)), op(a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                format!(
                    "{{\"r\":\"discr\",\"pl\":{},\"variants\":{},\"ty\":{}}}",
                    self.place(body, p),
                    self.variants(t),
                    self.ty(t)
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let a = arr(ops.iter().map(|o| op(o)));
                match &**k {
                    AggregateKind::Array(_) => format!("{{\"r\":\"agg\",\"kind\":\"array\",\"a\":{}}}", a),
                    AggregateKind::Tuple => format!("{{\"r\":\"agg\",\"kind\":\"tuple\",\"a\":{}}}", a),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let va = def.variant(*v);
                        format!(
                            "{{\"r\":\"agg\",\"kind\":\"adt\",\"adt\":{},\"enum\":{},\"variant\":{},\"fields\":{},\"a\":{}}}",
                            js(&self.path(*d)),
                            def.is_enum(),
                            js(va.name.as_str()),
                            arr(va.fields.iter().map(|f| js(f.name.as_str()))),
                            a
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"r\":\"agg\",\"kind\":\"closure\",\"def\":{},\"a\":{}}}", js(&self.path(*d)), a)
                    }
                    _ => format!("{{\"r\":\"other\",\"d\":{}}}", js(&format!("{:?}", r))),
                }
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"pl\":{}}}}}", self.place(body, p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"r\":\"ref\",\"mut\":{},\"pl\":{}}}", m.is_mut(), self.place(body, p))
            }
            _ => format!("{{\"r\":\"other\",\"d\":{}}}", js(&format!("{:?}", r))),
        }
    }

    fn body(&self, did: DefId, body: &Body<'tcx>) -> String {
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names[p.local.index()] = Some(v.name.to_string());
                }
            }
        }
        let locals = arr(body.local_decls.iter_enumerated().map(|(l, d)| {
            format!(
                "{{\"ty\":{},\"name\":{}}}",
                self.ty(d.ty),
                names[l.index()].as_ref().map(|n| js(n)).unwrap_or("null".into())
            )
        }));
        let blocks = arr(body.basic_blocks.iter().map(|bb| {
            let stmts = arr(bb.statements.iter().filter_map(|s| match &s.kind {
                StatementKind::Assign(b) => Some(format!(
                    "{{\"s\":\"assign\",\"pl\":{},\"rv\":{},\"sp\":{}}}",
                    self.place(body, &b.0),
                    self.rvalue(did, body, &b.1),
                    self.span(s.source_info.span)
                )),
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let t = place.ty(body, self.tcx).ty;
                    let n = match t.kind() {
                        ty::Adt(def, _) => def.variant(*variant_index).name.to_string(),
                        _ => variant_index.index().to_string(),
                    };
                    Some(format!(
                        "{{\"s\":\"setdiscr\",\"pl\":{},\"v\":{},\"sp\":{}}}",
                        self.place(body, place),
                        js(&n),
                        self.span(s.source_info.span)
                    ))
                }
                _ => None,
            }));
            let t = bb.terminator();
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.index()),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.index())
                }
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "{{\"t\":\"switch\",\"d\":{},\"dty\":{},\"vals\":{},\"other\":{}}}",
                    self.operand(did, body, discr),
                    self.ty(discr.ty(body, self.tcx)),
                    arr(targets.iter().map(|(v, b)| format!("[{},{}]", v, b.index()))),
                    targets.otherwise().index()
                ),
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Drop { target, place, .. } => {
                    format!("{{\"t\":\"drop\",\"to\":{},\"pl\":{}}}", target.index(), self.place(body, place))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "{{\"t\":\"call\",\"f\":{},\"args\":{},\"dest\":{},\"to\":{},\"dty\":{}}}",
                    self.operand(did, body, func),
                    arr(args.iter().map(|a| self.operand(did, body, &a.node))),
                    self.place(body, destination),
                    target.map(|b| b.index().to_string()).unwrap_or("null".into()),
                    self.ty(destination.ty(body, self.tcx).ty)
                ),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (kind, a, b) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds", self.operand(did, body, index), self.operand(did, body, len))
                        }
                        AssertKind::Overflow(_, a, b) => {
                            ("overflow", self.operand(did, body, a), self.operand(did, body, b))
                        }
                        AssertKind::DivisionByZero(a) => ("div0", self.operand(did, body, a), "null".into()),
                        AssertKind::RemainderByZero(a) => ("rem0", self.operand(did, body, a), "null".into()),
                        _ => ("other", "null".into(), "null".into()),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"to\":{},\"cond\":{},\"exp\":{},\"kind\":\"{}\",\"a\":{},\"b\":{}}}",
                        target.index(),
                        self.operand(did, body, cond),
                        expected,
                        kind,
                        a,
                        b
                    )
                }
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"t\":\"resume\"}".into(),
                k => format!("{{\"t\":\"other\",\"d\":{}}}", js(&format!("{:?}", k))),
            };
            format!(
                "{{\"st\":{},\"te\":{},\"sp\":{},\"cleanup\":{}}}",
                stmts,
                term,
                self.span(t.source_info.span),
                bb.is_cleanup
            )
        }));
        format!("{{\"argc\":{},\"locals\":{},\"blocks\":{}}}", body.arg_count, locals, blocks)
    }

    fn run(&self) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        for k in tcx.mir_keys(()) {
            let d = k.to_def_id();
            let kind = tcx.def_kind(d);
            let is_ctor = matches!(kind, DefKind::Ctor(..));
            if is_ctor {
                continue;
            }
            let (body, promoted) = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => (tcx.optimized_mir(d), tcx.promoted_mir(d)),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    (tcx.mir_for_ctfe(d), tcx.promoted_mir(d))
                }
                _ => continue,
            };
            let vis = match kind {
                DefKind::Closure | DefKind::AnonConst => "private".to_string(),
                _ => {
                    if tcx.visibility(d).is_public() { "pub".into() } else { format!("{:?}", tcx.visibility(d)) }
                }
            };
            let parent = tcx.opt_parent(d);
            let impl_trait = parent.and_then(|p| match tcx.def_kind(p) {
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    Some((self.path(tr.def_id), with_no_trimmed_paths!(format!("{}", tr.self_ty()))))
                }
                DefKind::Impl { of_trait: false } => Some((
                    String::new(),
                    with_no_trimmed_paths!(format!("{}", tcx.type_of(p).instantiate_identity().skip_norm_wip())),
                )),
                _ => None,
            });
            let trait_default = parent.map(|p| matches!(tcx.def_kind(p), DefKind::Trait { .. })).unwrap_or(false);
            let derived = parent.map(|p| tcx.is_builtin_derived(p)).unwrap_or(false);
            let prom = arr(promoted.iter().map(|b| self.body(d, b)));
            let is_unsafe = match kind {
                DefKind::Fn | DefKind::AssocFn => tcx.fn_sig(d).skip_binder().safety().is_unsafe(),
                _ => false,
            };
            fns.push(format!(
                "{}:{{\"kind\":{},\"vis\":{},\"sp\":{},\"parent\":{},\"trait\":{},\"selfty\":{},\"default\":{},\"derived\":{},\"unsafe\":{},\"body\":{},\"promoted\":{}}}",
                js(&self.path(d)),
                js(&format!("{:?}", kind)),
                js(&vis),
                self.span(tcx.def_span(d)),
                parent.map(|p| js(&self.path(p))).unwrap_or("null".into()),
                impl_trait.as_ref().filter(|x| !x.0.is_empty()).map(|x| js(&x.0)).unwrap_or("null".into()),
                impl_trait.as_ref().map(|x| js(&x.1)).unwrap_or("null".into()),
                trait_default,
                derived,
                is_unsafe,
                self.body(d, body),
                prom
            ));
        }
        // ADTs, traits, consts
        let mut adts = vec![];
        let mut traits = vec![];
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let vs = arr(def.variants().iter().map(|v| {
                        format!(
                            "{{\"name\":{},\"fields\":{}}}",
                            js(v.name.as_str()),
                            arr(v.fields.iter().map(|f| format!(
                                "{{\"name\":{},\"ty\":{},\"pub\":{}}}",
                                js(f.name.as_str()),
                                self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                f.vis.is_public()
                            )))
                        )
                    }));
                    adts.push(format!("{}:{{\"variants\":{},\"sp\":{}}}", js(&self.path(d)), vs, self.span(tcx.def_span(d))));
                }
                DefKind::Trait { .. } => {
                    let items = arr(tcx.associated_items(d).in_definition_order().map(|i| {
                        let sig = if matches!(i.kind, ty::AssocKind::Fn { .. }) {
                            js(&with_no_trimmed_paths!(format!("{}", tcx.fn_sig(i.def_id).skip_binder())))
                        } else {
                            "null".into()
                        };
                        format!(
                            "{{\"name\":{},\"default\":{},\"sig\":{}}}",
                            js(i.name().as_str()),
                            i.defaultness(tcx).has_value(),
                            sig
                        )
                    }));
                    traits.push(format!("{}:{}", js(&self.path(d)), items));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if tcx.generics_of(d).is_empty() || true {
                        let c = Const::from_unevaluated(tcx, d).instantiate_identity().skip_norm_wip();
                        let has_val = tcx.generics_of(d).own_params.is_empty();
                        let v = if has_val { self.constant(d, &c) } else { "null".into() };
                        consts.push(format!(
                            "{}:{{\"c\":{},\"ty\":{},\"sp\":{}}}",
                            js(&self.path(d)),
                            v,
                            self.ty(t),
                            self.span(tcx.def_span(d))
                        ));
                    }
                }
                _ => {}
            }
        }
        // statics, unsafe code, foreign items
        let mut statics = vec![];
        let mut foreign = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tls = tcx.is_thread_local_static(d);
                    let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                    if tcx.is_foreign_item(d) {
                        foreign.push(format!("[{},{}]", js(&self.path(d)), self.span(tcx.def_span(d))));
                        continue;
                    }
                    statics.push(format!(
                        "{}:{{\"ty\":{},\"mut\":{},\"freeze\":{},\"tls\":{},\"sp\":{}}}",
                        js(&self.path(d)),
                        self.ty(t),
                        mutability.is_mut(),
                        freeze,
                        tls,
                        self.span(tcx.def_span(d))
                    ));
                }
                DefKind::Fn if tcx.is_foreign_item(d) => {
                    foreign.push(format!("[{},{}]", js(&self.path(d)), self.span(tcx.def_span(d))));
                }
                _ => {}
            }
        }
        let mut uv = Unsafe { d: self, found: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uv);
        let unsafes = arr(uv.found);
        format!(
            "{{\"crate\":{},\"statics\":{{{}}},\"foreign\":[{}],\"unsafes\":{},\"fns\":{{{}}},\"adts\":{{{}}},\"traits\":{{{}}},\"consts\":{{{}}}}}",
            js(tcx.crate_name(LOCAL_CRATE).as_str()),
            statics.join(",\n"),
            foreign.join(","),
            unsafes,
            fns.join(",\n"),
            adts.join(",\n"),
            traits.join(",\n"),
            consts.join(",\n")
        )
    }
}

// user-written unsafe blocks and unsafe impls (not those inside the expansion of another crate's macro)
struct Unsafe<'a, 'tcx> {
    d: &'a D<'tcx>,
    found: Vec<String>,
}
impl<'a, 'tcx> Unsafe<'a, 'tcx> {
    fn ours(&self, s: rustc_span::Span) -> bool {
        let mut s = s;
        while s.from_expansion() {
            let e = s.ctxt().outer_expn_data();
            if let Some(m) = e.macro_def_id {
                if m.krate != LOCAL_CRATE {
                    return false;
                }
            }
            s = e.call_site;
        }
        true
    }
}
impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.d.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if self.ours(b.span) {
                self.found.push(format!("[\"unsafe block\",{}]", self.d.span(b.span)));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        if let rustc_hir::ItemKind::Impl(im) = &i.kind {
            if let Some(t) = &im.of_trait {
                if t.safety == rustc_hir::Safety::Unsafe && self.ours(i.span) {
                    self.found.push(format!("[\"unsafe impl\",{}]", self.d.span(i.span)));
                }
            }
        }
        rustc_hir::intravisit::walk_item(self, i);
    }
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            let s = D { tcx }.run();
            let ct = tcx.crate_types().iter().map(|t| format!("{:?}", t)).collect::<Vec<_>>().join("+");
            let p = format!("{}/{}-{}.json", dir, tcx.crate_name(LOCAL_CRATE), ct);
            std::fs::write(&p, s).expect("write dump");
        }
        Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver_impl::compiler_entrypoint(&args[1..], &mut Cb);
}
