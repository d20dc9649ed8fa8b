#![feature(rustc_private)]
#![allow(clippy::all)]
// MIR fact extractor: dumps every body of the analysed crate as JSON.
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn esc(out: &mut String, x: &str) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(x) => esc(o, x),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adtmap: HashMap<DefId, ()>,
    allocs: HashMap<String, J>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = with_no_trimmed_paths!(tcx.def_path_str(d));
    p
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.tyid(t) as i128)
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::N);
        self.tymap.insert(t, id);
        let st = with_no_trimmed_paths!(format!("{t}"));
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(st))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("d", s(path(tcx, def.did()))));
                let a = args.types().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
                self.adt(*def);
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("a", J::A(vec![self.ty(*inner)])));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("a", J::A(vec![self.ty(*inner)])));
            }
            ty::Slice(inner) => {
                o.push(("k", s("slice")));
                o.push(("a", J::A(vec![self.ty(*inner)])));
            }
            ty::Array(inner, n) => {
                o.push(("k", s("array")));
                o.push(("a", J::A(vec![self.ty(*inner)])));
                o.push((
                    "n",
                    n.try_to_target_usize(tcx)
                        .map(|x| J::I(x as i128))
                        .unwrap_or(J::N),
                ));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("d", s(path(tcx, *d))));
                let a = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Coroutine(d, _) => {
                o.push(("k", s("coroutine")));
                o.push(("d", s(path(tcx, *d))));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("d", s(path(tcx, *d))));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("d", s(p.name.to_string())));
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("d", s(path(tcx, p))));
                }
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adtmap.insert(def.did(), ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let mut vs = vec![];
        let is_enum = def.is_enum();
        for (i, v) in def.variants().iter_enumerated() {
            let discr = if is_enum {
                def.discriminant_for_variant(tcx, i).val as i128
            } else {
                0
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut o = vec![("n", s(f.name.to_string()))];
                if def.did().is_local() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    o.push(("t", self.ty(t)));
                }
                fs.push(J::O(o));
            }
            vs.push(J::O(vec![
                ("n", s(v.name.to_string())),
                ("d", J::I(discr)),
                ("f", J::A(fs)),
            ]));
        }
        let mut o = vec![
            ("d", s(path(tcx, def.did()))),
            (
                "k",
                s(if is_enum {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                }),
            ),
            ("v", J::A(vs)),
            ("local", J::B(def.did().is_local())),
        ];
        if def.did().is_local() {
            o.push(("pub", J::B(tcx.visibility(def.did()).is_public())));
        }
        if let Some(d) = tcx.adt_destructor(def.did()) {
            o.push(("drop", s(path(tcx, d.did))));
        }
        self.adts.push(J::O(o));
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", f, l.line))
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut prs = vec![];
        let mut pty = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(i, t) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields[i].name.to_string()
                        }
                        _ => format!("{}", i.as_usize()),
                    };
                    let t = self.ty(t);
                    J::A(vec![s("."), s(name), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("[]"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => J::A(vec![
                    s("[c]"),
                    J::I(offset as i128),
                    J::B(from_end),
                    J::I(min_length as i128),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("[..]"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => format!("{}", vi.as_usize()),
                    };
                    J::A(vec![s("as"), s(name)])
                }
                _ => J::A(vec![s("?")]),
            };
            prs.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        let t = self.ty(pty.ty);
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(prs), t])
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let te = tcx.erase_and_anonymize_regions(t);
        let mut o: Vec<(&'static str, J)> = vec![("t", self.ty(t))];
        if let ty::FnDef(d, args) = te.kind() {
            let args = args.skip_binder();
            self.callee(env, *d, args, &mut o);
            return J::A(vec![s("fn"), J::O(o)]);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                o.push(("path", s(path(tcx, u.def))));
            }
            _ => {}
        }
        if te.is_integral() || te.is_bool() || te.is_char() {
            let c2 = tcx.erase_and_anonymize_regions(c.const_);
            if let Some(v) = c2.try_eval_scalar_int(tcx, env) {
                let val: i128 = if te.is_signed() {
                    v.to_int(v.size())
                } else {
                    v.to_uint(v.size()) as i128
                };
                o.push(("v", J::I(val)));
                return J::A(vec![s("c"), J::O(o)]);
            }
        }
        let c2 = tcx.erase_and_anonymize_regions(c.const_);
        if let ty::Ref(_, inner, _) = te.kind() {
            if inner.is_str() {
                let mut val = match c2 {
                    Const::Val(v, _) => Some(v),
                    _ => c2.eval(tcx, env, c.span).ok(),
                };
                if let Some(v) = val.take() {
                    if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push(("v", s(String::from_utf8_lossy(bytes).into_owned())));
                        return J::A(vec![s("c"), J::O(o)]);
                    }
                }
            }
        }
        o.push(("dbg", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        J::A(vec![s("c"), J::O(o)])
    }

    fn callee(
        &mut self,
        env: TypingEnv<'tcx>,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        o: &mut Vec<(&'static str, J)>,
    ) {
        let tcx = self.tcx;
        o.push(("p", s(path(tcx, d))));
        o.push(("n", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("a", J::A(a)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(path(tcx, tr))));
        }
        o.push(("local", J::B(d.is_local())));
        let resolvable = matches!(
            tcx.def_kind(d),
            DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)
        );
        if resolvable {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                match inst.def {
                    ty::InstanceKind::Item(rd) => {
                        o.push(("r", s(path(tcx, rd))));
                        let ra: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
                        o.push(("ra", J::A(ra)));
                        if let Some(imp) = tcx.impl_of_assoc(rd) {
                            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                            let tj = self.ty(st);
                            o.push(("rs", tj));
                        }
                    }
                    ty::InstanceKind::Virtual(..) => o.push(("virt", J::B(true))),
                    other => {
                        let x = format!("{other:?}");
                        o.push(("shim", s(x.split('(').next().unwrap_or("").to_string())));
                    }
                }
            }
        }
    }

    fn op(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, x: &Operand<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(b, p)]),
            Operand::Constant(c) => self.konst(env, c),
            _ => J::A(vec![s("rtc")]),
        }
    }

    fn rv(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(b, env, o)]),
            Rvalue::Repeat(o, n) => {
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| J::I(x as i128))
                    .unwrap_or(J::N);
                J::A(vec![s("repeat"), self.op(b, env, o), n])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                s(match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "f",
                    _ => "m",
                }),
                self.place(b, p),
            ]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("ptr"), s(format!("{k:?}")), self.place(b, p)]),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(b, self.tcx);
                J::A(vec![
                    s("cast"),
                    s(format!("{k:?}").split('(').next().unwrap_or("").to_string()),
                    self.op(b, env, o),
                    self.ty(*t),
                    self.ty(ot),
                    s(format!("{k:?}")),
                ])
            }
            Rvalue::BinaryOp(op, ab) => J::A(vec![
                s("bin"),
                s(format!("{op:?}")),
                self.op(b, env, &ab.0),
                self.op(b, env, &ab.1),
            ]),
            Rvalue::UnaryOp(op, a) => {
                J::A(vec![s("un"), s(format!("{op:?}")), self.op(b, env, a)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(b, p)]),
            Rvalue::Aggregate(k, fs) => {
                let fj: Vec<J> = fs.iter().map(|x| self.op(b, env, x)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let v = def.variant(*vi);
                        let names = match active {
                            Some(f) => vec![s(v.fields[*f].name.to_string())],
                            None => v.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        let ta: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                        J::A(vec![
                            s("adt"),
                            s(path(self.tcx, *d)),
                            s(v.name.to_string()),
                            J::A(names),
                            J::A(ta),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        J::A(vec![s("closure"), s(path(self.tcx, *d))])
                    }
                    AggregateKind::Coroutine(d, _) => {
                        J::A(vec![s("coroutine"), s(path(self.tcx, *d))])
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        J::A(vec![s("closure"), s(path(self.tcx, *d))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kj, J::A(fj)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("cp"), self.place(b, p)])])
            }
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("ref"), s("m"), self.place(b, p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path(self.tcx, *d))]),
            _ => J::A(vec![s("other")]),
        }
    }

    fn body(&mut self, def: LocalDefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def.to_def_id());
        let mut locals = vec![];
        for (_, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(t);
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(b, p);
                names.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(b, &pr.0);
                        let r = self.rv(b, env, &pr.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(b, place);
                        st.push(J::A(vec![s("setd"), p, J::I(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), J::I(l.as_usize() as i128)]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            let o = self.op(b, env, o);
                            st.push(J::A(vec![s("assume"), o]));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.op(b, env, &c.src);
                            let d = self.op(b, env, &c.dst);
                            let n = self.op(b, env, &c.count);
                            st.push(J::A(vec![s("copy"), a, d, n]));
                        }
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let bi = |x: BasicBlock| J::I(x.as_usize() as i128);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => J::I(b.as_usize() as i128),
                _ => J::N,
            };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bi(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(b, env, discr);
                    let dt = discr.ty(b, tcx);
                    let signed = dt.is_signed();
                    let size = if dt.is_integral() || dt.is_bool() || dt.is_char() {
                        tcx.layout_of(env.as_query_input(tcx.erase_and_anonymize_regions(dt)))
                            .ok()
                            .map(|l| l.size)
                    } else {
                        None
                    };
                    let ts = targets
                        .iter()
                        .map(|(v, t)| {
                            let val = match (signed, size) {
                                (true, Some(sz)) => sz.sign_extend(v) as i128,
                                _ => v as i128,
                            };
                            J::A(vec![J::I(val), bi(t)])
                        })
                        .collect();
                    J::A(vec![s("switch"), o, J::A(ts), bi(targets.otherwise())])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::CoroutineDrop => J::A(vec![s("cordrop")]),
                TerminatorKind::Drop { place, target, unwind, replace, .. } => {
                    let p = self.place(b, place);
                    J::A(vec![s("drop"), p, bi(*target), unw(unwind), J::B(*replace)])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(b, env, func);
                    let a: Vec<J> = args.iter().map(|x| self.op(b, env, &x.node)).collect();
                    let d = self.place(b, destination);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(bi).unwrap_or(J::N),
                        unw(unwind),
                    ])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![s("tailcall")]),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.op(b, env, cond);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.op(b, env, len), self.op(b, env, index)],
                        ),
                        AssertKind::Overflow(o, x, y) => (
                            format!("overflow:{o:?}"),
                            vec![self.op(b, env, x), self.op(b, env, y)],
                        ),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.op(b, env, x)]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.op(b, env, x)]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.op(b, env, x)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![
                        s("assert"),
                        c,
                        J::B(*expected),
                        s(k),
                        J::A(ops),
                        bi(*target),
                        unw(unwind),
                    ])
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                    let v = self.op(b, env, value);
                    let ra = self.place(b, resume_arg);
                    J::A(vec![
                        s("yield"),
                        v,
                        bi(*resume),
                        ra,
                        drop.map(bi).unwrap_or(J::N),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), bi(*real_target)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), bi(*real_target)])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", t),
                ("sp", sp),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        let did = def.to_def_id();
        let kind = if tcx.is_coroutine(did) {
            "coroutine"
        } else if tcx.is_closure_like(did) {
            "closure"
        } else {
            match tcx.def_kind(did) {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
                DefKind::Static { .. } => "static",
                _ => "other",
            }
        };
        let mut o = vec![
            ("p", s(path(tcx, did))),
            ("k", s(kind)),
            ("n", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("sp", self.span(tcx.def_span(did))),
            ("argc", J::I(b.arg_count as i128)),
            ("l", J::A(locals)),
            ("names", J::A(names)),
            ("b", J::A(blocks)),
        ];
        let par = tcx.opt_parent(did);
        if let Some(p) = par {
            o.push(("parent", s(path(tcx, p))));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            o.push(("vis", s(format!("{:?}", tcx.visibility(did)))));
            let g: Vec<J> = ty::GenericArgs::identity_for_item(tcx, did)
                .types()
                .map(|x| s(x.to_string()))
                .collect();
            o.push(("gen", J::A(g)));
            o.push(("unsafe", J::B(tcx.fn_sig(did).skip_binder().safety() == rustc_hir::Safety::Unsafe)));
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                o.push(("self", self.ty(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(path(tcx, tr.def_id))));
                    let ta: Vec<J> = tr.args.types().map(|x| self.ty(x)).collect();
                    o.push(("targs", J::A(ta)));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(did) {
                o.push(("intrait", s(path(tcx, tr))));
            }
        }
        let _ = &self.allocs;
        J::O(o)
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.crate_name(LOCAL_CRATE).as_str() != "clickhouse_rs" {
            return Compilation::Continue;
        }
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        let mut missing = vec![];
        for d in tcx.hir_body_owners() {
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {}
                _ => continue,
            }
            let st = tcx.mir_built(d);
            if st.is_stolen() {
                missing.push(s(path(tcx, d.to_def_id())));
                continue;
            }
            bodies.push((d, st.borrow().clone()));
        }
        let mut cx = Cx {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            adts: vec![],
            adtmap: HashMap::new(),
            allocs: HashMap::new(),
        };
        let mut bj = vec![];
        for (d, b) in &bodies {
            bj.push(cx.body(*d, b));
        }
        // impls
        let mut imps = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.def_id;
            if let DefKind::Impl { .. } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    items.push(J::A(vec![
                        s(it.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                        s(path(tcx, it.def_id)),
                    ]));
                }
                let mut o = vec![("self", cx.ty(st)), ("items", J::A(items))];
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(path(tcx, tr.def_id))));
                    o.push(("trs", s(with_no_trimmed_paths!(format!("{}", tr)))));
                    let ta: Vec<J> = tr.args.types().map(|x| cx.ty(x)).collect();
                    o.push(("targs", J::A(ta)));
                }
                o.push(("sp", cx.span(tcx.def_span(d))));
                imps.push(J::O(o));
            }
            if let DefKind::Struct | DefKind::Enum = tcx.def_kind(d) {
                let def = tcx.adt_def(d);
                cx.adt(def);
            }
        }
        let top = J::O(vec![
            ("bodies", J::A(bj)),
            ("types", J::A(std::mem::take(&mut cx.types))),
            ("adts", J::A(std::mem::take(&mut cx.adts))),
            ("impls", J::A(imps)),
            ("missing", J::A(missing)),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        std::fs::write(&self.out, o).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("VFACTS_OUT").unwrap_or_default();
    let is_target = args.iter().any(|a| a == "clickhouse_rs") && !out.is_empty();
    if is_target {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct No;
        impl Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
