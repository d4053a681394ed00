//! obdump: dumps the type-checked, callee-resolved MIR of one crate as JSON.
//!
//! Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`. Everything the analyser reads
//! about /repo comes from this dump, so it is regenerated from the working tree on every run.
#![feature(rustc_private)]

extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_hir_pretty;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::{self, Body, Const, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

/// A JSON value.
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(n),
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl std::fmt::Display) -> J {
    J::N(x.to_string())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, J>,
    /// local ADTs still to be described, by DefId
    seen: BTreeSet<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            p
        } else {
            p
        }
    }

    fn full(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::Null;
        }
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, l.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        self.note(t);
        s(t.to_string())
    }

    fn note(&mut self, t: Ty<'tcx>) {
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                if let ty::Adt(def, _) = t.kind() {
                    self.adt(*def);
                }
            }
        }
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let name = self.path(def.did());
        if !self.seen.insert(name.clone()) {
            return;
        }
        let mut vs = vec![];
        for (i, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                format!("{}", def.discriminant_for_variant(self.tcx, i).val)
            } else {
                "0".to_string()
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let mut o = vec![("name", s(f.name.as_str())), ("ty", s(fty.to_string()))];
                if def.did().is_local() {
                    self.note(fty);
                    o.push(("attrs", self.attrs(f.did)));
                }
                fs.push(J::O(o));
            }
            let mut o = vec![("name", s(v.name.as_str())), ("discr", n(discr)), ("fields", J::A(fs))];
            if def.did().is_local() && def.is_enum() {
                o.push(("attrs", self.attrs(v.def_id)));
            }
            vs.push(J::O(o));
        }
        let mut o = vec![
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(def.did().is_local())),
            ("full", s(self.full(def.did()))),
            ("variants", J::A(vs)),
        ];
        if def.did().is_local() {
            o.push(("attrs", self.attrs(def.did())));
            o.push(("span", self.span(self.tcx.def_span(def.did()))));
        }
        self.adts.insert(name, J::O(o));
    }

    fn attrs(&self, d: DefId) -> J {
        let Some(l) = d.as_local() else { return J::Null };
        let hid = self.tcx.local_def_id_to_hir_id(l);
        let mut v = vec![];
        for a in self.tcx.hir_attrs(hid) {
            if let rustc_attr_ir::Attribute::DeriveHelper(_) = a {
                v.push(s(rustc_hir_pretty::attribute_to_string(&(&self.tcx as &dyn rustc_hir::intravisit::HirTyCtxt<'_>), a)));
            }
        }
        J::A(v)
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut pj = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(i, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.adt(*def);
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None => def.non_enum_variant(),
                            };
                            v.fields[i].name.to_string()
                        }
                        _ => i.as_usize().to_string(),
                    };
                    J::A(vec![s("f"), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("c"), n(offset), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    J::A(vec![s("v"), s(name)])
                }
                _ => J::A(vec![s("o"), s(format!("{e:?}"))]),
            };
            pj.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::O(vec![("l", n(p.local.as_usize())), ("p", J::A(pj))])
    }

    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut ga = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                ga.push(self.ty(t));
            } else if let Some(c) = a.as_const() {
                ga.push(s(c.to_string()));
            }
        }
        J::A(ga)
    }

    fn fndef(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(d))), ("full", s(self.full(d)))];
        let ga = self.gargs(args);
        o.push(("args", ga));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            if let Some(t) = args.types().next() {
                o.push(("self", self.ty(t)));
            }
        } else if let Some(i) = tcx.impl_of_assoc(d) {
            o.push(("implself", s(tcx.type_of(i).instantiate_identity().skip_norm_wip().to_string())));
        }
        let mut rd = d;
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            rd = inst.def_id();
            o.push(("rpath", s(self.path(rd))));
            o.push(("rfull", s(self.full(rd))));
            let ra = self.gargs(inst.args);
            o.push(("rargs", ra));
            if let Some(i) = tcx.impl_of_assoc(rd) {
                o.push(("rself", s(tcx.type_of(i).instantiate_identity().skip_norm_wip().to_string())));
            }
            if let ty::InstanceKind::Virtual(..) = inst.def {
                o.push(("virtual", J::B(true)));
            }
        }
        o.push(("local", J::B(rd.is_local())));
        o.push(("crate", s(tcx.crate_name(rd.krate).to_string())));
        if rd.is_local() {
            o.push(("id", s(self.full(rd))));
        }
        J::O(o)
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", self.ty(t))];
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                o.push(("fn", self.fndef(env, *d, args)));
                return J::O(o);
            }
            ty::Closure(d, _) => {
                o.push(("closure", s(self.full(*d))));
                return J::O(o);
            }
            _ => {}
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted", n(p.as_usize())));
                    o.push(("of", s(self.full(u.def))));
                } else {
                    o.push(("item", s(self.full(u.def))));
                    o.push(("itempath", s(self.path(u.def))));
                    o.push(("itemlocal", J::B(u.def.is_local())));
                }
            }
            _ => {}
        }
        let is_prim = t.is_integral() || t.is_bool() || t.is_char();
        if is_prim {
            if let Some(si) = c.const_.try_eval_scalar_int(tcx, env) {
                let v = if t.is_bool() {
                    s(if si.try_to_bool().unwrap_or(false) { "true" } else { "false" })
                } else if t.is_signed() {
                    s(si.to_int(si.size()).to_string())
                } else {
                    s(si.to_bits(si.size()).to_string())
                };
                o.push(("int", v));
            }
        }
        // string and byte-string literals
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Ok(v) = c.const_.eval(tcx, env, rustc_span::DUMMY_SP) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                    }
                }
            }
        }
        o.push(("repr", s(format!("{}", c.const_))));
        J::O(o)
    }

    fn op(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(body, *p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(body, *p))]),
            Operand::Constant(c) => J::O(vec![("k", s("const")), ("c", self.konst(env, c))]),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", s("other")), ("d", s(format!("{o:?}")))]),
        }
    }

    fn rv(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::O(vec![("k", s("use")), ("o", self.op(env, body, o))]),
            Rvalue::Repeat(o, c) => {
                J::O(vec![("k", s("repeat")), ("o", self.op(env, body, o)), ("n", s(c.to_string()))])
            }
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, mir::BorrowKind::Mut { .. }))),
                ("p", self.place(body, *p)),
            ]),
            Rvalue::RawPtr(_, p) => {
                J::O(vec![("k", s("ref")), ("mut", J::B(true)), ("raw", J::B(true)), ("p", self.place(body, *p))])
            }
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(body, self.tcx);
                J::O(vec![
                    ("k", s("cast")),
                    ("ck", s(format!("{k:?}"))),
                    ("o", self.op(env, body, o)),
                    ("ty", self.ty(*t)),
                    ("from", self.ty(ft)),
                ])
            }
            Rvalue::BinaryOp(b, ops) => {
                let lt = ops.0.ty(body, self.tcx);
                J::O(vec![
                    ("k", s("bin")),
                    ("op", s(format!("{b:?}"))),
                    ("a", self.op(env, body, &ops.0)),
                    ("b", self.op(env, body, &ops.1)),
                    ("ty", self.ty(lt)),
                ])
            }
            Rvalue::UnaryOp(u, o) => {
                let ot = o.ty(body, self.tcx);
                J::O(vec![
                    ("k", s("un")),
                    ("op", s(format!("{u:?}"))),
                    ("a", self.op(env, body, o)),
                    ("ty", self.ty(ot)),
                ])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                J::O(vec![("k", s("discr")), ("p", self.place(body, *p)), ("ty", self.ty(t))])
            }
            Rvalue::CopyForDeref(p) => {
                J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", self.place(body, *p))]))])
            }
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("k", s("use")),
                ("o", J::O(vec![("k", s("copy")), ("p", self.place(body, *p))])),
                ("reborrow", J::B(m.is_mut())),
            ]),
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<J> = fs.iter().map(|o| self.op(env, body, o)).collect();
                let mut o = vec![("k", s("agg"))];
                match &**k {
                    mir::AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    mir::AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    mir::AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        o.push(("ak", s("adt")));
                        o.push(("adt", s(self.path(*d))));
                        let var = def.variant(*v);
                        o.push(("variant", s(var.name.as_str())));
                        let names: Vec<J> = match active {
                            Some(f) => vec![s(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| s(f.name.as_str())).collect(),
                        };
                        o.push(("names", J::A(names)));
                    }
                    mir::AggregateKind::Closure(d, _) => {
                        o.push(("ak", s("closure")));
                        o.push(("id", s(self.full(*d))));
                    }
                    x => o.push(("ak", s(format!("{x:?}")))),
                }
                o.push(("ops", J::A(ops)));
                J::O(o)
            }
            x => J::O(vec![("k", s("other")), ("d", s(format!("{x:?}")))]),
        }
    }

    fn body(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            let t = self.ty(d.ty);
            locals.push(t);
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(body, p);
                names.push(J::O(vec![("n", s(v.name.as_str())), ("p", pj)]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(body, *p);
                        let rj = self.rv(env, body, r);
                        st.push(J::O(vec![("k", s("a")), ("p", pj), ("r", rj), ("s", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(body, self.tcx).ty;
                        let v = match t.kind() {
                            ty::Adt(def, _) => def.variant(*variant_index).name.to_string(),
                            _ => variant_index.as_usize().to_string(),
                        };
                        let pj = self.place(body, **place);
                        st.push(J::O(vec![("k", s("sd")), ("p", pj), ("v", s(v)), ("s", sp)]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::O(vec![("k", s("intr")), ("d", s(format!("{i:?}"))), ("s", sp)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", n(target.as_usize()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, self.tcx);
                    let signed = dt.is_signed();
                    let sz = match dt.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64),
                        _ => 128,
                    };
                    let vs: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            let val = if signed {
                                let sh = 128 - sz as u32;
                                (((v << sh) as i128) >> sh).to_string()
                            } else {
                                v.to_string()
                            };
                            J::A(vec![s(val), n(b.as_usize())])
                        })
                        .collect();
                    J::O(vec![
                        ("k", s("switch")),
                        ("o", self.op(env, body, discr)),
                        ("ty", self.ty(dt)),
                        ("vs", J::A(vs)),
                        ("other", n(targets.otherwise().as_usize())),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("k", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::Drop { target, place, .. } => {
                    let pj = self.place(body, *place);
                    J::O(vec![("k", s("drop")), ("t", n(target.as_usize())), ("p", pj)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(env, body, func);
                    let a: Vec<J> = args.iter().map(|x| self.op(env, body, &x.node)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(body, self.tcx);
                            self.ty(t)
                        })
                        .collect();
                    let rt = destination.ty(body, self.tcx).ty;
                    J::O(vec![
                        ("k", s("call")),
                        ("f", f),
                        ("a", J::A(a)),
                        ("at", J::A(at)),
                        ("d", self.place(body, *destination)),
                        ("rt", self.ty(rt)),
                        ("t", target.map_or(J::Null, |t| n(t.as_usize()))),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => J::O(vec![
                    ("k", s("assert")),
                    ("o", self.op(env, body, cond)),
                    ("e", J::B(*expected)),
                    ("m", s(format!("{:?}", msg).split('(').next().unwrap_or("").to_string())),
                    ("t", n(target.as_usize())),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))])
                }
                x => J::O(vec![("k", s("other")), ("d", s(format!("{x:?}")))]),
            };
            blocks.push(J::O(vec![("st", J::A(st)), ("t", tj), ("s", sp)]));
        }
        J::O(vec![
            ("args", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
        // what ships is a release build with overflow checks: no debug assertions, checked arithmetic
        c.opts.debug_assertions = false;
        c.opts.cg.overflow_checks = Some(true);
        c.opts.unstable_opts.ub_checks = Some(false);
        // the dump must not depend on incremental state
        c.opts.incremental = None;
    }

    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, adts: BTreeMap::new(), seen: BTreeSet::new() };
        let mut fns: Vec<(String, J)> = vec![];
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!({
            for ld in tcx.hir_body_owners() {
                let d = ld.to_def_id();
                let kind = tcx.def_kind(d);
                let id = cx.full(d);
                let env = TypingEnv::post_analysis(tcx, d);
                let mut o = vec![
                    ("path", s(cx.path(d))),
                    ("kind", s(format!("{kind:?}"))),
                    ("span", cx.span(tcx.def_span(d))),
("vis", if matches!(kind, DefKind::Fn | DefKind::AssocFn) { s(format!("{:?}", tcx.visibility(d))) } else { J::Null }),
                ];
                if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                    let own = ty::GenericArgs::identity_for_item(tcx, d);
                    let g = cx.gargs(own);
                    o.push(("generics", g));
                }
                if let Some(i) = tcx.impl_of_assoc(d) {
                    o.push(("implself", s(tcx.type_of(i).instantiate_identity().skip_norm_wip().to_string())));
                    if let Some(t) = tcx.impl_opt_trait_ref(i) {
                        let t = t.instantiate_identity().skip_norm_wip();
                        o.push(("impltrait", s(t.to_string())));
                        o.push(("implauto", J::B(tcx.is_builtin_derived(i))));
                    }
                }
                match kind {
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                        let body = tcx.optimized_mir(d);
                        o.push(("body", cx.body(env, body)));
                        let pr = tcx.promoted_mir(d);
                        let ps: Vec<J> = pr.iter().map(|b| cx.body(env, b)).collect();
                        o.push(("promoted", J::A(ps)));
                    }
                    DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                        let body = tcx.mir_for_ctfe(d);
                        o.push(("body", cx.body(env, body)));
                        let pr = tcx.promoted_mir(d);
                        let ps: Vec<J> = pr.iter().map(|b| cx.body(env, b)).collect();
                        o.push(("promoted", J::A(ps)));
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(t);
                        o.push(("ty", t));
                    }
                    _ => continue,
                }
                fns.push((id, J::O(o)));
            }
            // local ADTs, whether or not a body mentions them
            for id in tcx.hir_crate_items(()).definitions() {
                let d = id.to_def_id();
                if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                    let def = tcx.adt_def(d);
                    cx.adt(def);
                }
            }
        }));
        let adts: Vec<(String, J)> = cx.adts.clone().into_iter().collect();
        let top = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("fns", J::M(fns)),
            ("adts", J::M(adts)),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        std::fs::write(&self.out, o).expect("write dump");
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("OBDUMP_CRATE").unwrap_or_else(|_| "sumtree_orderbook".into());
    let out = std::env::var("OBDUMP_OUT").ok();
    match (name, out) {
        (Some(c), Some(out)) if c == want => {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Nop),
    }
}
