// Fact extractor: a rustc driver that dumps the resolved program (MIR, ADTs, impls) as JSON.
// It takes no decisions: every rule lives in /verif/rules.  Injected through RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use std::fmt::Write as _;

// ---------- tiny JSON builder ----------
#[derive(Clone)]
enum J { Null, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } let _ = write!(o, "\"{}\":", k); x.w(o); } o.push('}'); }
        }
    }
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn i(x: usize) -> J { J::I(x as i128) }

struct Cx<'tcx> { tcx: TyCtxt<'tcx> }

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        let t = self.tcx;
        format!("{}{}", t.crate_name(d.krate), t.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        with_no_trimmed_paths!(format!("{}", t))
    }
    // structural description of a type: (kind, adt key, args)
    fn tyj(&self, t: Ty<'tcx>) -> J { s(self.ty(t)) }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut proj = vec![];
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*"), s(self.ty(pty.ty))]),
                ProjectionElem::Field(f, fty) => {
                    let (adt, name, variant) = match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = pty.variant_index.map(|v| v.as_usize()).unwrap_or(0);
                            let vd = &a.variants()[rustc_abi::VariantIdx::from_usize(v)];
                            (self.path(a.did()), vd.fields[f].name.to_string(), v)
                        }
                        ty::Closure(..) => ("{closure}".to_string(), f.as_usize().to_string(), 0),
                        _ => (String::new(), f.as_usize().to_string(), 0),
                    };
                    J::A(vec![s("f"), i(f.as_usize()), s(name), s(adt), s(self.ty(fty))])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::A(vec![s("c"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(n, v) => J::A(vec![s("d"), i(v.as_usize()), n.map(|n| s(n.to_string())).unwrap_or(J::Null)]),
                _ => J::A(vec![s("o")]),
            };
            proj.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        J::A(vec![i(p.local.as_usize()), J::A(proj)])
    }
    fn konst(&self, body: &Body<'tcx>, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() { return self.fndef(owner, *d, args.no_bound_vars().unwrap()); }
        let mut v = vec![("k", s("const")), ("ty", self.tyj(t))];
        let env = TypingEnv::post_analysis(tcx, owner);
        let is_int = matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char);
        if is_int {
            if let Some(sc) = c.const_.try_eval_scalar_int(tcx, env) {
                let val: i128 = if t.is_signed() { sc.to_int(sc.size()) } else { sc.to_uint(sc.size()) as i128 };
                v.push(("v", J::I(val)));
            }
        }
        if let ty::Float(_) = t.kind() {
            if let Some(sc) = c.const_.try_eval_scalar_int(tcx, env) {
                let b = sc.to_uint(sc.size());
                if sc.size().bytes() == 8 { v.push(("f", s(format!("{:?}", f64::from_bits(b as u64))))); }
            }
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                v.push(("def", s(self.key(u.def))));
                v.push(("defp", s(self.path(u.def))));
                if let Some(p) = u.promoted { v.push(("promoted", i(p.as_usize()))); }
                v.push(("args", J::A(u.args.iter().map(|a| s(with_no_trimmed_paths!(format!("{}", a)))).collect())));
            }
            Const::Ty(_, ct) => { v.push(("ct", s(with_no_trimmed_paths!(format!("{}", ct))))); }
            Const::Val(val, _) => {
                if t.peel_refs().is_str() {
                    v.push(("str", s(format!("{}", c.const_))));
                }
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = val {
                    if let interpret::GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                        v.push(("static", s(self.key(d))));
                        v.push(("staticp", s(self.path(d))));
                    }
                }
            }
        }
        J::O(v)
    }
    fn fndef(&self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![("k", s("fn")), ("path", s(self.path(d))), ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())), ("key", s(self.key(d)))];
        let eargs = tcx.erase_and_anonymize_regions(args);
        v.push(("args", J::A(eargs.iter().filter(|a| a.as_region().is_none()).map(|a| s(with_no_trimmed_paths!(format!("{}", a)))).collect())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", s(self.path(tr))));
            v.push(("self", s(self.ty(args.type_at(0)))));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            v.push(("implself", s(self.ty(tcx.type_of(imp).instantiate(tcx, args).skip_norm_wip()))));
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        if !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let nargs = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(eargs);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, nargs) {
                let rd = inst.def_id();
                v.push(("rkind", s(match inst.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Shim(_) => "shim", ty::InstanceKind::Virtual(..) => "virtual", ty::InstanceKind::Intrinsic(..) => "intrinsic", _ => "other" })));
                v.push(("rkey", s(self.key(rd))));
                v.push(("rpath", s(self.path(rd))));
                v.push(("rlocal", J::B(rd.is_local())));
                v.push(("rargs", J::A(inst.args.iter().filter(|a| a.as_region().is_none()).map(|a| s(with_no_trimmed_paths!(format!("{}", a)))).collect())));
            }
        } else { v.push(("ctor", J::B(true))); }
        J::O(v)
    }
    fn op(&self, body: &Body<'tcx>, owner: DefId, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(body, p))]),
            Operand::Constant(c) => self.konst(body, owner, c),
            Operand::RuntimeChecks(r) => J::O(vec![("k", s("const")), ("ty", s("bool")), ("v", J::I(0)), ("rtc", J::B(true))]),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, owner: DefId, r: &Rvalue<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.op(body, owner, o);
        match r {
            Rvalue::Use(o, _) => J::O(vec![("r", s("use")), ("a", op(o))]),
            Rvalue::Repeat(o, n) => J::O(vec![("r", s("repeat")), ("a", op(o)), ("n", s(with_no_trimmed_paths!(format!("{}", n))))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![("r", s("ref")), ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))), ("p", self.place(body, p))]),
            Rvalue::RawPtr(k, p) => J::O(vec![("r", s("rawptr")), ("mut", J::B(matches!(k, RawPtrKind::Mut))), ("p", self.place(body, p))]),
            Rvalue::ThreadLocalRef(d) => J::O(vec![("r", s("tls")), ("def", s(self.path(*d)))]),
            Rvalue::Cast(k, o, t) => {
                let kind = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                let from = o.ty(&body.local_decls, self.tcx);
                J::O(vec![("r", s("cast")), ("kind", s(kind)), ("a", op(o)), ("from", self.tyj(from)), ("to", self.tyj(*t))])
            }
            Rvalue::BinaryOp(b, ab) => J::O(vec![("r", s("bin")), ("op", s(format!("{:?}", b))), ("a", op(&ab.0)), ("b", op(&ab.1)), ("ty", self.tyj(ab.0.ty(&body.local_decls, self.tcx)))]),
            Rvalue::UnaryOp(u, a) => J::O(vec![("r", s("un")), ("op", s(format!("{:?}", u))), ("a", op(a)), ("ty", self.tyj(a.ty(&body.local_decls, self.tcx)))]),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(&body.local_decls, self.tcx).ty;
                J::O(vec![("r", s("discr")), ("p", self.place(body, p)), ("ty", self.tyj(pt))])
            }
            Rvalue::CopyForDeref(p) => J::O(vec![("r", s("use")), ("a", J::O(vec![("k", s("copy")), ("p", self.place(body, p))]))]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![("r", s("ref")), ("mut", J::B(matches!(m, ty::Mutability::Mut))), ("p", self.place(body, p))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::O(vec![("r", s("use")), ("a", op(o))]),
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => { v.push(("agg", s("array"))); v.push(("ty", self.tyj(*t))); }
                    AggregateKind::Tuple => v.push(("agg", s("tuple"))),
                    AggregateKind::Adt(d, var, args, _, af) => {
                        let ad = self.tcx.adt_def(*d);
                        v.push(("agg", s("adt")));
                        v.push(("adt", s(self.path(*d))));
                        v.push(("args", J::A(args.iter().filter(|a| a.as_region().is_none()).map(|a| s(with_no_trimmed_paths!(format!("{}", a)))).collect())));
                        v.push(("variant", i(var.as_usize())));
                        let vd = &ad.variants()[*var];
                        v.push(("vname", s(vd.name.to_string())));
                        v.push(("fields", J::A(vd.fields.iter().map(|f| s(f.name.to_string())).collect())));
                        if let Some(f) = af { v.push(("active", i(f.as_usize()))); }
                    }
                    AggregateKind::Closure(d, _) => { v.push(("agg", s("closure"))); v.push(("def", s(self.key(*d)))); }
                    AggregateKind::RawPtr(t, _) => { v.push(("agg", s("rawptr"))); v.push(("ty", self.tyj(*t))); }
                    _ => v.push(("agg", s("other"))),
                }
                v.push(("ops", J::A(ops.iter().map(|o| op(o)).collect())));
                J::O(v)
            }
            #[allow(unreachable_patterns)]
            o => J::O(vec![("r", s("other")), ("dbg", s(format!("{:?}", o)))]),
        }
    }
    fn body(&self, body: &Body<'tcx>, owner: DefId) -> J {
        let tcx = self.tcx;
        let locals: Vec<J> = body.local_decls.iter().map(|l| J::O(vec![("ty", self.tyj(l.ty)), ("mut", J::B(l.mutability.is_mut()))])).collect();
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(body, &p)]));
            }
        }
        let mut blocks = vec![];
        for (bb, d) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in d.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        st.push(J::O(vec![("s", s("=")), ("p", self.place(body, &b.0)), ("rv", self.rvalue(body, owner, &b.1)), ("at", self.span(x.source_info.span)),
                            ("exp", J::B(x.source_info.span.from_expansion()))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::O(vec![("s", s("setdiscr")), ("p", self.place(body, place)), ("v", i(variant_index.as_usize()))])),
                    StatementKind::Intrinsic(n) => {
                        let desc = match &**n {
                            NonDivergingIntrinsic::Assume(_) => "assume".to_string(),
                            NonDivergingIntrinsic::CopyNonOverlapping(_) => "copy_nonoverlapping".to_string(),
                        };
                        st.push(J::O(vec![("s", s("intrinsic")), ("name", s(desc)), ("at", self.span(x.source_info.span))]))
                    }
                    _ => {}
                }
            }
            let t = d.terminator();
            let at = self.span(t.source_info.span);
            let uw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => i(b.as_usize()), _ => J::Null };
            let mut tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("t", s("goto")), ("to", i(target.as_usize()))],
                TerminatorKind::SwitchInt { discr, targets } => vec![
                    ("t", s("switch")), ("d", self.op(body, owner, discr)), ("ty", self.tyj(discr.ty(&body.local_decls, tcx))),
                    ("vals", J::A(targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), i(b.as_usize())])).collect())),
                    ("else", i(targets.otherwise().as_usize()))],
                TerminatorKind::UnwindResume => vec![("t", s("resume"))],
                TerminatorKind::UnwindTerminate(_) => vec![("t", s("abort"))],
                TerminatorKind::Return => vec![("t", s("return"))],
                TerminatorKind::Unreachable => vec![("t", s("unreachable"))],
                TerminatorKind::Drop { place, target, unwind, .. } => vec![("t", s("drop")), ("p", self.place(body, place)), ("ty", self.tyj(place.ty(&body.local_decls, tcx).ty)), ("to", i(target.as_usize())), ("uw", uw(unwind))],
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => vec![
                    ("t", s("call")), ("f", self.op(body, owner, func)), ("fty", self.tyj(func.ty(&body.local_decls, tcx))),
                    ("args", J::A(args.iter().map(|a| self.op(body, owner, &a.node)).collect())),
                    ("argty", J::A(args.iter().map(|a| self.tyj(a.node.ty(&body.local_decls, tcx))).collect())),
                    ("p", self.place(body, destination)), ("to", target.map(|b| i(b.as_usize())).unwrap_or(J::Null)), ("uw", uw(unwind))],
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => vec![
                    ("t", s("assert")), ("c", self.op(body, owner, cond)), ("exp", J::B(*expected)),
                    ("msg", s(match &**msg { AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::OverflowNeg(_) => "overflow", AssertKind::DivisionByZero(_) => "div0", AssertKind::RemainderByZero(_) => "rem0", _ => "other" })),
                    ("to", i(target.as_usize())), ("uw", uw(unwind))],
                TerminatorKind::FalseEdge { real_target, .. } => vec![("t", s("goto")), ("to", i(real_target.as_usize()))],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![("t", s("goto")), ("to", i(real_target.as_usize()))],
                k => vec![("t", s("other")), ("dbg", s(format!("{:?}", k)))],
            };
            tj.push(("at", at));
            blocks.push(J::O(vec![("st", J::A(st)), ("term", J::O(tj)), ("cleanup", J::B(d.is_cleanup))]));
        }
        J::O(vec![("argc", i(body.arg_count)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks))])
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let eff = tcx.effective_visibilities(());
        let mut fns = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let (kn, is_fn) = match kind {
                DefKind::Fn => ("fn", true), DefKind::AssocFn => ("assoc", true), DefKind::Closure => ("closure", true),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => ("const", false), DefKind::Static { .. } => ("static", false),
                _ => ("anon", false),
            };
            if kn == "anon" { continue; }
            let mut v = vec![("key", s(cx.key(d))), ("path", s(cx.path(d))), ("kind", s(kn)), ("krate", s(&*krate)),
                ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
                ("at", cx.span(tcx.def_span(d))), ("exp", J::B(tcx.def_span(d).from_expansion()))];
            let parent = tcx.opt_parent(d);
            v.push(("parent", parent.map(|p| s(cx.key(p))).unwrap_or(J::Null)));
            v.push(("modpath", s(cx.path(tcx.parent_module_from_def_id(ld).to_def_id()))));
            v.push(("pub", J::B(eff.is_exported(ld))));
            v.push(("vis", s(match kind { DefKind::Closure => "closure".to_string(), _ => { let vis = tcx.visibility(d); if vis.is_public() { "pub".to_string() } else { format!("{:?}", vis) } } })));
            if is_fn && kn != "closure" {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                v.push(("unsafe", J::B(sig.safety().is_unsafe())));
                v.push(("inputs", J::A(sig.inputs().iter().map(|t| cx.tyj(*t)).collect())));
                v.push(("output", cx.tyj(sig.output())));
                let g = tcx.generics_of(d);
                v.push(("generics", J::A((0..g.count()).map(|k| s(g.param_at(k, tcx).name.to_string())).collect())));
            }
            // impl info
            let mut anc = d;
            while tcx.def_kind(anc) == DefKind::Closure { anc = tcx.parent(anc); }
            if let Some(imp) = tcx.impl_of_assoc(anc) {
                v.push(("impl", s(cx.key(imp))));
                v.push(("implself", s(cx.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip()))));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    v.push(("trait", s(cx.path(tr.def_id))));
                    v.push(("traitref", s(with_no_trimmed_paths!(format!("{}", tcx.erase_and_anonymize_regions(tr))))));
                }
                v.push(("derived", J::B(tcx.is_automatically_derived(imp))));
            } else if let Some(tr) = tcx.trait_of_assoc(anc) {
                v.push(("intrait", s(cx.path(tr))));
            }
            if is_fn {
                let b = tcx.optimized_mir(d);
                v.push(("body", cx.body(b, d)));
                let proms = tcx.promoted_mir(d);
                if !proms.is_empty() { v.push(("promoted", J::A(proms.iter().map(|p| cx.body(p, d)).collect()))); }
            } else {
                let b = tcx.mir_for_ctfe(d);
                v.push(("body", cx.body(b, d)));
            }
            fns.push(J::O(v));
        }
        let mut adts = vec![]; let mut impls = vec![]; let mut statics = vec![]; let mut macros = vec![]; let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let vars: Vec<J> = a.variants().iter().map(|v| J::O(vec![("name", s(v.name.to_string())), ("fields", J::A(v.fields.iter().map(|f| J::O(vec![
                        ("name", s(f.name.to_string())), ("ty", cx.tyj(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())), ("pub", J::B(f.vis.is_public()))])).collect()))])).collect();
                    adts.push(J::O(vec![("key", s(cx.key(d))), ("path", s(cx.path(d))), ("kind", s(format!("{:?}", tcx.def_kind(d)))), ("at", cx.span(tcx.def_span(d))), ("pub", J::B(eff.is_exported(id))), ("variants", J::A(vars))]));
                }
                DefKind::Impl { of_trait } => {
                    let mut v = vec![("key", s(cx.key(d))), ("self", s(cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()))), ("at", cx.span(tcx.def_span(d)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        v.push(("trait", s(cx.path(tr.def_id))));
                        v.push(("traitref", s(with_no_trimmed_paths!(format!("{}", tcx.erase_and_anonymize_regions(tr))))));
                        v.push(("unsafe", J::B(tcx.impl_trait_header(d).safety.is_unsafe())));
                    }
                    v.push(("derived", J::B(tcx.is_automatically_derived(d))));
                    v.push(("items", J::A(tcx.associated_item_def_ids(d).iter().map(|x| s(cx.key(*x))).collect())));
                    v.push(("preds", J::A(tcx.clauses_of(d).clauses.iter().map(|p| s(with_no_trimmed_paths!(format!("{:?}", p.0)))).collect())));
                    impls.push(J::O(v));
                }
                DefKind::Static { mutability, .. } => {
                    statics.push(J::O(vec![("path", s(cx.path(d))), ("mut", J::B(mutability.is_mut())), ("ty", cx.tyj(tcx.type_of(d).instantiate_identity().skip_norm_wip())), ("at", cx.span(tcx.def_span(d)))]));
                }
                DefKind::Trait { .. } => {
                    traits.push(J::O(vec![("path", s(cx.path(d))), ("items", J::A(tcx.associated_item_def_ids(d).iter().map(|x| s(cx.key(*x))).collect())), ("pub", J::B(eff.is_exported(id)))]));
                }
                DefKind::Macro(_) => { macros.push(J::O(vec![("path", s(cx.path(d))), ("at", cx.span(tcx.def_span(d)))])); }
                _ => {}
            }
        }
        let root = J::O(vec![("crate", s(&*krate)), ("fns", J::A(fns)), ("adts", J::A(adts)), ("impls", J::A(impls)), ("statics", J::A(statics)), ("traits", J::A(traits)), ("macros", J::A(macros)),
            ("overflow_checks", J::B(tcx.sess.overflow_checks())), ("debug_assertions", J::B(tcx.sess.opts.debug_assertions))]);
        let mut out = String::new();
        root.w(&mut out);
        std::fs::create_dir_all(&self.out).unwrap();
        let is_test = tcx.sess.is_test_crate();
        let p = format!("{}/{}{}.json", self.out, krate, if is_test { ".test" } else { "" });
        std::fs::write(&p, out).unwrap();
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let out = std::env::var("FACTS_OUT").unwrap_or_default();
    let is_query = args.iter().any(|a| a == "-vV" || a.starts_with("--print") || a == "___");
    if out.is_empty() || is_query {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    }
}
