use crate::json::{n, s, J};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: HashSet<DefId>,
    adt_out: Vec<(String, J)>,
    seen: HashSet<String>,
    promoted_seen: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, String, bool)>,
    fns: Vec<(String, J)>,
}

fn np<R>(f: impl FnOnce() -> R) -> R {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(f())))
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        np(|| self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", name, lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.tyid(t))
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let st = np(|| t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("s", s(st))];
        match *t.kind() {
            TyKind::Bool => o.push(("k", s("bool"))),
            TyKind::Char => o.push(("k", s("char"))),
            TyKind::Int(it) => {
                o.push(("k", s("int")));
                o.push(("bits", n(it.bit_width().unwrap_or(64) as usize)));
            }
            TyKind::Uint(it) => {
                o.push(("k", s("uint")));
                o.push(("bits", n(it.bit_width().unwrap_or(64) as usize)));
            }
            TyKind::Float(_) => o.push(("k", s("float"))),
            TyKind::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("d", s(self.path(def.did()))));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
                self.adt(def);
            }
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Array(e, c) => {
                o.push(("k", s("array")));
                let e = self.ty(e);
                o.push(("e", e));
                if let Some(v) = c.try_to_target_usize(self.tcx) {
                    o.push(("n", n(v as usize)));
                }
            }
            TyKind::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(e);
                o.push(("e", e));
            }
            TyKind::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                let e = self.ty(e);
                o.push(("e", e));
                o.push(("m", J::B(m.is_mut())));
            }
            TyKind::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(e);
                o.push(("e", e));
                o.push(("m", J::B(m.is_mut())));
            }
            TyKind::FnDef(..) => o.push(("k", s("fndef"))),
            TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
            TyKind::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("d", s(self.path(p))));
                }
            }
            TyKind::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("d", s(self.path(d.into()))));
                let ups: Vec<J> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x))
                    .collect();
                o.push(("a", J::A(ups)));
            }
            TyKind::Never => o.push(("k", s("never"))),
            TyKind::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            TyKind::Alias(..) => o.push(("k", s("alias"))),
            TyKind::Param(p) => {
                o.push(("k", s("param")));
                o.push(("d", s(p.name.to_string())));
            }
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[i] = J::O(o);
        i
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if !self.adts.insert(def.did()) {
            return;
        }
        let tcx = self.tcx;
        let mut vs = vec![];
        if def.is_enum() || def.is_struct() || def.is_union() {
            let discrs: Vec<Option<u128>> = if def.is_enum() {
                def.discriminants(tcx).map(|(_, d)| Some(d.val)).collect()
            } else {
                vec![None]
            };
            for (i, v) in def.variants().iter().enumerate() {
                let fields: Vec<J> = v
                    .fields
                    .iter()
                    .map(|f| {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ft = np(|| ft.to_string());
                        J::A(vec![s(f.name.to_string()), s(ft)])
                    })
                    .collect();
                vs.push(J::O(vec![
                    ("name", s(v.name.to_string())),
                    (
                        "discr",
                        discrs
                            .get(i)
                            .copied()
                            .flatten()
                            .map(|d| J::I(d as i128))
                            .unwrap_or(J::Null),
                    ),
                    ("fields", J::A(fields)),
                ]));
            }
        }
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let p = self.path(def.did());
        let span = self.span(tcx.def_span(def.did()));
        self.adt_out.push((
            p,
            J::O(vec![
                ("kind", s(kind)),
                ("variants", J::A(vs)),
                ("local", J::B(def.did().is_local())),
                ("span", span),
            ]),
        ));
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => J::A(vec![
                    s("ci"),
                    n(offset as usize),
                    n(min_length as usize),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("dc"), n(v.as_usize())]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }
    fn scalar_bits(&self, sc: Scalar) -> Option<u128> {
        sc.try_to_scalar_int().ok().map(|i| i.to_bits(i.size()))
    }
    /// A scalar stored in a constant allocation.
    fn indirect_scalar(&self, v: ConstValue, t: Ty<'tcx>) -> Option<Scalar> {
        let tcx = self.tcx;
        let ConstValue::Indirect { alloc_id, offset } = v else {
            return None;
        };
        let GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(alloc_id)? else {
            return None;
        };
        let lay = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)).ok()?;
        let rng = rustc_middle::mir::interpret::AllocRange { start: offset, size: lay.size };
        a.inner().read_scalar(&tcx, rng, t.is_any_ptr()).ok()
    }
    /// Value of an evaluated constant.
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::O(vec![("opaque", s("depth"))]);
        }
        match *t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => {
                let sc = match v {
                    ConstValue::Scalar(sc) => Some(sc),
                    _ => self.indirect_scalar(v, t),
                };
                if let Some(b) = sc.and_then(|x| self.scalar_bits(x)) {
                    return J::O(vec![("int", s(b.to_string()))]);
                }
                J::O(vec![("opaque", s("scalar"))])
            }
            TyKind::FnDef(d, args) => self.fndef(d.into(), args.skip_binder()),
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                match inner.kind() {
                    TyKind::Str | TyKind::Slice(_) => {
                        if let ConstValue::Slice { .. } | ConstValue::Indirect { .. } = v {
                            let is_u8 = match inner.kind() {
                                TyKind::Str => true,
                                TyKind::Slice(e) => *e == tcx.types.u8,
                                _ => false,
                            };
                            if is_u8 {
                                if let ConstValue::Slice { .. } = v {
                                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                        return J::O(vec![(
                                            "bytes",
                                            J::A(b.iter().map(|x| n(*x as usize)).collect()),
                                        )]);
                                    }
                                }
                            }
                        }
                        return J::O(vec![("opaque", s(format!("{v:?}")))]);
                    }
                    TyKind::Dynamic(..) => return J::O(vec![("opaque", s("dyn"))]),
                    _ => {}
                }
                let sc = match v {
                    ConstValue::Scalar(sc) => Some(sc),
                    _ => self.indirect_scalar(v, t),
                };
                if let Some(Scalar::Ptr(ptr, _)) = sc {
                    let (prov, off) = ptr.into_raw_parts();
                    let aid = prov.alloc_id();
                    match tcx.try_get_global_alloc(aid) {
                        Some(GlobalAlloc::Memory(_)) => {
                            let inner_v = ConstValue::Indirect {
                                alloc_id: aid,
                                offset: off,
                            };
                            let x = self.cval(inner_v, inner, depth + 1);
                            return J::O(vec![("ref", x)]);
                        }
                        Some(GlobalAlloc::Static(d)) => {
                            return J::O(vec![("static", s(self.path(d)))])
                        }
                        Some(GlobalAlloc::Function { instance }) => {
                            return self.fndef(instance.def_id(), instance.args)
                        }
                        _ => {}
                    }
                }
                J::O(vec![("opaque", s("ref"))])
            }
            TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..) => {
                if t.has_param() {
                    return J::O(vec![("opaque", s("param"))]);
                }
                if let TyKind::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return J::O(vec![("opaque", s("union"))]);
                    }
                }
                if let TyKind::Array(e, c) = t.kind() {
                    let _ = e;
                    if let Some(k) = c.try_to_target_usize(tcx) {
                        if k > 300 {
                            return J::O(vec![("opaque", s("bigarray"))]);
                        }
                    }
                }
                let zst = matches!(v, ConstValue::ZeroSized);
                let _ = zst;
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let fs: Vec<(ConstValue, Ty<'tcx>)> = dc.fields.to_vec();
                        let fs: Vec<J> =
                            fs.into_iter().map(|(v, t)| self.cval(v, t, depth + 1)).collect();
                        let mut o = vec![("agg", J::A(fs))];
                        if let Some(vi) = dc.variant {
                            o.push(("v", n(vi.as_usize())));
                        }
                        J::O(o)
                    }
                    None => J::O(vec![("opaque", s("adt"))]),
                }
            }
            TyKind::Closure(..) => J::O(vec![("zst", J::B(true))]),
            _ => J::O(vec![("opaque", s("other"))]),
        }
    }
    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let full = np(|| self.tcx.def_path_str_with_args(d, args));
        J::O(vec![("fn", s(self.path(d))), ("full", s(full))])
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::O(vec![("c", p)])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::O(vec![("m", p)])
            }
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tj = self.ty(t);
                let mut o = vec![("t", tj)];
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    if u.promoted.is_none() {
                        let full = np(|| self.tcx.def_path_str_with_args(u.def, u.args));
                        o.push(("name", s(full)));
                    }
                }
                if let mir::Const::Ty(_, ct) = c.const_ {
                    o.push(("tyc", s(np(|| ct.to_string()))));
                }
                let v = match c.const_ {
                    mir::Const::Unevaluated(u, _) if u.args.has_param() => None,
                    cc if cc.has_param() && !matches!(t.kind(), TyKind::FnDef(..)) => None,
                    cc => cc.eval(self.tcx, env, c.span).ok(),
                };
                let vj = match v {
                    Some(v) => self.cval(v, t, 0),
                    None => match t.kind() {
                        TyKind::Ref(..) if let mir::Const::Unevaluated(u, _) = c.const_ && u.promoted.is_some() => {
                            self.promoted(u, env)
                        }
                        TyKind::FnDef(d, a) => self.fndef((*d).into(), a.skip_binder()),
                        _ => J::O(vec![("opaque", s("uneval"))]),
                    },
                };
                o.push(("v", vj));
                J::O(vec![("k", J::O(o))])
            }
            Operand::RuntimeChecks(_) => J::O(vec![("rt", J::B(false))]),
        }
    }
    /// a promoted constant of a generic body: its MIR is dumped and interpreted by the engine
    fn promoted(&mut self, u: mir::UnevaluatedConst<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let p = u.promoted.unwrap();
        let args = np(|| tcx.def_path_str_with_args(u.def, u.args));
        let key = format!("promoted#{}:{}", p.as_usize(), args);
        if self.promoted_seen.insert(key.clone()) {
            let bodies = tcx.promoted_mir(u.def);
            let b = ty::EarlyBinder::bind(tcx, bodies[p].clone()).instantiate(tcx, u.args).skip_norm_wip();
            let b = tcx.erase_and_anonymize_regions(b);
            let mut o = self.body(&b, env, None);
            let path = self.path(u.def);
            o.push(("path", s(format!("{path}::promoted"))));
            o.push(("root", J::B(false)));
            o.push(("local", J::B(false)));
            o.push(("promoted", J::B(true)));
            self.fns.push((key.clone(), J::O(o)));
        }
        J::O(vec![("promoted", s(key))])
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, c) => {
                let c = c.try_to_target_usize(self.tcx);
                J::A(vec![
                    s("repeat"),
                    self.operand(o, env),
                    c.map(|x| n(x as usize)).unwrap_or(J::Null),
                ])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
                self.place(p),
            ]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::RawPtr(k, p) => J::A(vec![
                s("ref"),
                J::B(format!("{k:?}").contains("Mut")),
                self.place(p),
            ]),
            Rvalue::Cast(k, o, t) => J::A(vec![
                s("cast"),
                s(format!("{k:?}")),
                self.operand(o, env),
                self.ty(*t),
            ]),
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{b:?}")),
                self.operand(&ops.0, env),
                self.operand(&ops.1, env),
            ]),
            Rvalue::UnaryOp(b, o) => {
                J::A(vec![s("un"), s(format!("{b:?}")), self.operand(o, env)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, env)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => J::O(vec![("k", s("array"))]),
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        let mut o = vec![
                            ("k", s("adt")),
                            ("d", s(self.path(*d))),
                            ("v", n(v.as_usize())),
                        ];
                        if let Some(f) = f {
                            o.push(("uf", n(f.as_usize())));
                        }
                        J::O(o)
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let key = self.enqueue(inst, env);
                        J::O(vec![
                            ("k", s("closure")),
                            ("d", s(self.path(*d))),
                            ("key", s(key)),
                        ])
                    }
                    AggregateKind::RawPtr(..) => J::O(vec![("k", s("rawptr"))]),
                    _ => J::O(vec![("k", s("other"))]),
                };
                J::A(vec![s("agg"), k, J::A(ops)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![s("use"), J::O(vec![("c", p)])])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(o, env)]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p)])
            }
        }
    }
    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let key = self.key(inst);
        self.enqueue_k(inst, env, key.clone(), false);
        key
    }
    fn enqueue_k(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, key: String, root: bool) {
        if key.len() > 1500 {
            return;
        }
        if self.seen.insert(key.clone()) {
            self.queue.push_back((inst, env, key, root));
        }
    }
    fn key(&self, inst: Instance<'tcx>) -> String {
        let base = np(|| self.tcx.def_path_str_with_args(inst.def_id(), inst.args));
        match inst.def {
            InstanceKind::Item(_) => {
                // impl-level args of trait impls are not always printed: add them
                if inst.args.types().next().is_some() {
                    let a = np(|| {
                        inst.args
                            .types()
                            .map(|t| t.to_string())
                            .collect::<Vec<_>>()
                            .join(", ")
                    });
                    format!("{base} [{a}]")
                } else {
                    base
                }
            }
            InstanceKind::Shim(k) => format!("{base} shim {k:?}"),
            _ => format!("{base} {:?}", inst.def),
        }
    }
    /// Should the body of this non-local instance be dumped too?
    fn inlinable_ext(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate).to_string();
        if krate != "core" && krate != "alloc" && krate != "std" {
            return false;
        }
        let p = self.path(d);
        const PRE: &[&str] = &[
            "core::option::", "core::result::", "core::convert::", "core::ops::control_flow",
            "core::ops::try_trait", "core::ops::function", "core::bool::",
        ];
        let q = p.trim_start_matches('<');
        if PRE.iter().any(|x| q.starts_with(x)) {
            return true;
        }
        for x in [
            " as core::ops::try_trait::", " as core::convert::From", " as core::convert::Into",
            " as core::convert::TryInto",
        ] {
            if p.contains(x) {
                return true;
            }
        }
        if let Some(par) = tcx.opt_parent(d) {
            if matches!(tcx.def_kind(par), DefKind::Impl { .. }) {
                let ps = self.path(par);
                if ps.contains("core::option::") || ps.contains("core::result::") {
                    return true;
                }
            }
        }
        false
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", s(self.path(d)))];
        let full = np(|| tcx.def_path_str_with_args(d, args));
        o.push(("full", s(full)));
        let ga: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("ga", J::A(ga)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            o.push(("m", s(tcx.item_name(d).to_string())));
        }
        // closures and fn items passed as type arguments
        for t in args.types() {
            for arg in t.walk() {
                if let Some(t) = arg.as_type() {
                    match *t.kind() {
                        TyKind::Closure(cd, cargs) => {
                            self.enqueue(Instance::new_raw(cd.into(), cargs), env);
                        }
                        TyKind::FnDef(fd, fargs) => {
                            let fd: DefId = fd.into();
                            let fargs = fargs.skip_binder();
                            if matches!(tcx.def_kind(fd), DefKind::Fn | DefKind::AssocFn) {
                                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, fd, fargs) {
                                    if let InstanceKind::Item(id) = i.def {
                                        if id.is_local() {
                                            self.enqueue(i, env);
                                        }
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            o.push(("kind", s("weird")));
            return J::O(o);
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                o.push(("rdef", s(self.path(rd))));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let st = np(|| st.to_string());
                    o.push(("rself", s(st)));
                }
                match i.def {
                    InstanceKind::Item(id) => {
                        if id.is_local() || (self.inlinable_ext(id) && tcx.is_mir_available(id)) {
                            if tcx.is_mir_available(id) {
                                let k = self.enqueue(i, env);
                                o.push(("key", s(k)));
                            }
                        }
                        o.push(("local", J::B(id.is_local())));
                        o.push(("kind", s("item")));
                    }
                    InstanceKind::Virtual(..) => o.push(("kind", s("virtual"))),
                    InstanceKind::Intrinsic(_) => o.push(("kind", s("intrinsic"))),
                    InstanceKind::Shim(k) => {
                        o.push(("kind", s("shim")));
                        let kn = format!("{k:?}");
                        o.push(("shim", s(kn)));
                    }
                    _ => o.push(("kind", s("other"))),
                }
            }
            Ok(None) => o.push(("kind", s("unresolved"))),
            Err(_) => o.push(("kind", s("error"))),
        }
        J::O(o)
    }
    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, inst: Option<Instance<'tcx>>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut locals = vec![];
        for (_, l) in body.local_decls.iter_enumerated() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p);
                names.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                let sp = x.source_info.span;
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(&bx.0);
                        let r = self.rvalue(&bx.1, env);
                        let sp = self.span(sp);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("sd"), p, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), s(format!("{i:?}"))]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", n(target.as_usize()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, env);
                    let dty = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dty);
                    let ts: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![s(v.to_string()), n(b.as_usize())]))
                        .collect();
                    J::O(vec![
                        ("k", s("switch")),
                        ("d", d),
                        ("dt", dt),
                        ("ts", J::A(ts)),
                        ("o", n(targets.otherwise().as_usize())),
                    ])
                }
                TerminatorKind::UnwindResume => J::O(vec![("k", s("resume"))]),
                TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("abort"))]),
                TerminatorKind::Return => J::O(vec![("k", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&body.local_decls, tcx).ty;
                    let p = self.place(place);
                    let ty = self.ty(ty);
                    J::O(vec![
                        ("k", s("drop")),
                        ("p", p),
                        ("ty", ty),
                        ("t", n(target.as_usize())),
                        ("sp", sp),
                    ])
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    unwind,
                    ..
                } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let f = match *fty.kind() {
                        TyKind::FnDef(d, a) => self.callee(d.into(), a.skip_binder(), env),
                        _ => {
                            let o = self.operand(func, env);
                            J::O(vec![("kind", s("indirect")), ("op", o)])
                        }
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, tcx);
                            self.ty(t)
                        })
                        .collect();
                    let d = self.place(destination);
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let dty = self.ty(dty);
                    let u = match unwind {
                        UnwindAction::Cleanup(b) => n(b.as_usize()),
                        _ => J::Null,
                    };
                    J::O(vec![
                        ("k", s("call")),
                        ("f", f),
                        ("a", J::A(a)),
                        ("at", J::A(at)),
                        ("d", d),
                        ("dty", dty),
                        ("t", target.map(|t| n(t.as_usize())).unwrap_or(J::Null)),
                        ("u", u),
                        ("sp", sp),
                    ])
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => {
                    let c = self.operand(cond, env);
                    let (mk, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(len, env), self.operand(index, env)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow-{op:?}"),
                            vec![self.operand(a, env), self.operand(b, env)],
                        ),
                        AssertKind::DivisionByZero(_) => ("div0".into(), vec![]),
                        AssertKind::RemainderByZero(_) => ("rem0".into(), vec![]),
                        AssertKind::OverflowNeg(a) => {
                            ("overflow-Neg".into(), vec![self.operand(a, env)])
                        }
                        m => (format!("{m:?}").chars().take(30).collect(), vec![]),
                    };
                    J::O(vec![
                        ("k", s("assert")),
                        ("c", c),
                        ("e", J::B(*expected)),
                        ("m", s(mk)),
                        ("ops", J::A(ops)),
                        ("t", n(target.as_usize())),
                        ("sp", sp),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))])
                }
                _ => J::O(vec![("k", s("other"))]),
            };
            let mut bo = vec![("s", J::A(st)), ("t", tj)];
            if b.is_cleanup {
                bo.push(("cl", J::B(true)));
            }
            blocks.push(J::O(bo));
        }
        let _ = inst;
        vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
        ]
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for l in keys {
            let d = l.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            if matches!(tcx.def_kind(d), DefKind::Closure) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(d, args);
            let env = TypingEnv::post_analysis(tcx, d);
            let key = self.key(inst);
            self.enqueue_k(inst, env, key, true);
        }
        while let Some((inst, env, key, root)) = self.queue.pop_front() {
            let InstanceKind::Item(d) = inst.def else {
                continue;
            };
            if !tcx.is_mir_available(d) {
                continue;
            }
            let mirb = tcx.instance_mir(inst.def);
            let b = inst.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                ty::EarlyBinder::bind(tcx, mirb.clone()),
            );
            let Ok(b) = b else {
                continue;
            };
            let mut o = self.body(&b, env, Some(inst));
            o.push(("path", s(self.path(d))));
            o.push(("root", J::B(root)));
            o.push(("local", J::B(d.is_local())));
            let sp = self.span(tcx.def_span(d));
            o.push(("span", sp));
            o.push(("poly", J::B(inst.args.has_param())));
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("self", s(np(|| st.to_string()))));
                if let TyKind::Adt(ad, _) = st.kind() {
                    o.push(("selfd", s(self.path(ad.did()))));
                }
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(self.path(tr.def_id))));
                    o.push(("traitref", s(np(|| tr.to_string()))));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("traitdefault", s(self.path(tr))));
            }
            if !matches!(tcx.def_kind(d), DefKind::Closure) {
                o.push(("name", s(tcx.item_name(d).to_string())));
                o.push(("pub", J::B(tcx.visibility(d).is_public())));
                if let Some(l) = d.as_local() {
                    o.push((
                        "reach",
                        J::B(tcx.effective_visibilities(()).is_reachable(l)),
                    ));
                }
            } else {
                o.push(("closure", J::B(true)));
                o.push(("parent", s(self.path(tcx.typeck_root_def_id(d)))));
            }
            self.fns.push((key, J::O(o)));
        }
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut d = D {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        adts: HashSet::new(),
        adt_out: vec![],
        seen: HashSet::new(),
        promoted_seen: HashSet::new(),
        queue: VecDeque::new(),
        fns: vec![],
    };
    d.run();
    // trait impls of the crate
    let mut impls = vec![];
    for im in tcx.trait_impls_in_crate(rustc_span::def_id::LOCAL_CRATE) {
        if let Some(tr) = tcx.impl_opt_trait_ref(*im) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            let st = tr.self_ty();
            let mut items = vec![];
            for a in tcx.associated_item_def_ids(*im) {
                if matches!(tcx.def_kind(*a), DefKind::AssocFn) {
                    items.push(J::A(vec![s(tcx.item_name(*a).to_string()), s(d.path(*a))]));
                }
            }
            let stj = d.ty(st);
            impls.push(J::O(vec![
                ("trait", s(d.path(tr.def_id))),
                ("tref", s(np(|| tr.to_string()))),
                ("self", s(np(|| st.to_string()))),
                ("selfty", stj),
                ("items", J::A(items)),
            ]));
        }
    }
    // all local ADTs and consts
    let mut consts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                d.adt(def);
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if tcx.generics_of(did).requires_monomorphization(tcx) {
                    continue;
                }
                if let Ok(v) = tcx.const_eval_poly(did) {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let vj = d.cval(v, t, 0);
                    let tj = d.ty(t);
                    consts.push((d.path(did), J::O(vec![("t", tj), ("v", vj)])));
                }
            }
            _ => {}
        }
    }
    let J_ = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
        ("types", J::A(std::mem::take(&mut d.ty_out))),
        ("adts", J::M(std::mem::take(&mut d.adt_out))),
        ("impls", J::A(impls)),
        ("consts", J::M(consts)),
        ("fns", J::M(std::mem::take(&mut d.fns))),
    ]);
    let mut out = String::new();
    J_.w(&mut out);
    out
}
