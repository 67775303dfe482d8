//! mirdump: a rustc driver that writes the MIR of one crate, with resolved
//! callees and structured types, as JSON.  Used as RUSTC_WORKSPACE_WRAPPER.
//! argv: mirdump <rustc> <rustc args...>;  output file: $MIRDUMP_OUT/<crate>-<kind>.json
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TyKind};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

enum J { Null, Bool(bool), Num(i128), Str(String), Arr(Vec<J>), Obj(Vec<(&'static str, J)>) }

impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => { let _ = write!(o, "{}", n); }
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
fn s<T: ToString>(x: T) -> J { J::Str(x.to_string()) }
fn n(x: usize) -> J { J::Num(x as i128) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // unambiguous path: keep generic-free def path with disambiguators
        let mut p = self.tcx.crate_name(d.krate).to_string();
        p.push_str(&self.tcx.def_path(d).to_string_no_crate_verbose());
        p
    }
    fn nice(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        J::Str(format!("{}:{}", lo.file.name.prefer_remapped_unconditionally(), lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyidx.get(&t) { return n(*i); }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tyidx.insert(t, i);
        let j = match *t.kind() {
            TyKind::Bool => J::Obj(vec![("k", s("bool"))]),
            TyKind::Char => J::Obj(vec![("k", s("char"))]),
            TyKind::Str => J::Obj(vec![("k", s("str"))]),
            TyKind::Never => J::Obj(vec![("k", s("never"))]),
            TyKind::Int(_) => J::Obj(vec![("k", s("int")), ("n", s(t))]),
            TyKind::Uint(_) => J::Obj(vec![("k", s("uint")), ("n", s(t))]),
            TyKind::Float(_) => J::Obj(vec![("k", s("float")), ("n", s(t))]),
            TyKind::Adt(def, args) => {
                self.adt(def.did());
                let p = self.nice(def.did());
                let a: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x)).collect();
                J::Obj(vec![("k", s("adt")), ("path", s(p)), ("args", J::Arr(a))])
            }
            TyKind::Ref(_, x, m) => { let x = self.ty(x); J::Obj(vec![("k", s("ref")), ("t", x), ("mut", J::Bool(m.is_mut()))]) }
            TyKind::RawPtr(x, m) => { let x = self.ty(x); J::Obj(vec![("k", s("ptr")), ("t", x), ("mut", J::Bool(m.is_mut()))]) }
            TyKind::Slice(x) => { let x = self.ty(x); J::Obj(vec![("k", s("slice")), ("t", x)]) }
            TyKind::Array(x, c) => {
                let x = self.ty(x);
                let l = c.try_to_target_usize(self.tcx).map(|v| J::Num(v as i128)).unwrap_or(J::Null);
                J::Obj(vec![("k", s("array")), ("t", x), ("len", l)])
            }
            TyKind::Tuple(ts) => { let v = ts.iter().collect::<Vec<_>>().into_iter().map(|x| self.ty(x)).collect(); J::Obj(vec![("k", s("tuple")), ("ts", J::Arr(v))]) }
            TyKind::Param(p) => J::Obj(vec![("k", s("param")), ("n", s(p.name))]),
            TyKind::Closure(d, _) => J::Obj(vec![("k", s("closure")), ("id", s(self.path(d)))]),
            _ => J::Obj(vec![("k", s("other")), ("s", s(t))]),
        };
        let txt = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        let j = match j { J::Obj(mut v) => { v.push(("str", s(txt))); J::Obj(v) } x => x };
        self.types[i] = j;
        n(i)
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) { return; }
        self.adts.insert(d, ());
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        let local = d.is_local();
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { Some(def.discriminant_for_variant(self.tcx, vi).val) } else { None };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = if local {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t)
                } else { J::Null };
                fs.push(J::Obj(vec![("name", s(f.name)), ("ty", fty), ("vis", s(format!("{:?}", f.vis)))]));
            }
            vs.push(J::Obj(vec![("name", s(v.name)), ("discr", discr.map(|x| J::Num(x as i128)).unwrap_or(J::Null)), ("fields", J::Arr(fs))]));
        }
        let sp = if local { self.span(self.tcx.def_span(d)) } else { J::Null };
        let o = J::Obj(vec![
            ("path", s(self.nice(d))),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::Bool(local)), ("variants", J::Arr(vs)), ("span", sp),
        ]);
        self.adt_out.push(o);
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::Arr(vec![s("*")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::Arr(vec![s("f"), n(f.as_usize()), t]) }
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![s("ci"), n(offset as usize), n(min_length as usize), J::Bool(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![s("sub"), n(from as usize), n(to as usize), J::Bool(from_end)]),
                ProjectionElem::Downcast(nm, vi) => J::Arr(vec![s("d"), n(vi.as_usize()), nm.map(|x| s(x)).unwrap_or(J::Null)]),
                _ => J::Arr(vec![s("?")]),
            });
        }
        J::Arr(v)
    }

    fn fn_ref(&mut self, body_def: LocalDefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.nice(d))), ("id", s(self.path(d))), ("local", J::Bool(d.is_local()))];
        let targs: Vec<Ty<'tcx>> = args.types().collect();
        let targs: Vec<J> = targs.into_iter().map(|t| self.ty(t)).collect();
        o.push(("targs", J::Arr(targs)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.nice(tr))));
        }
        if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            o.push(("impl_self", st));
        }
        // resolve
        let env = ty::TypingEnv::post_analysis(tcx, body_def.to_def_id());
        let args = tcx.erase_and_anonymize_regions(args);
        let is_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
        if is_fn && !args.has_escaping() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ty::Instance::try_resolve(tcx, env, d, args)));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                if let ty::InstanceKind::Item(_) = inst.def {
                    o.push(("res", s(self.path(rd))));
                    o.push(("res_local", J::Bool(rd.is_local())));
                    o.push(("res_path", s(self.nice(rd))));
                } else {
                    o.push(("res_shim", s(format!("{:?}", inst.def))));
                }
            }
        }
        o
    }

    fn constant(&mut self, body_def: LocalDefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let TyKind::FnDef(d, args) = *t.kind() {
            let args = args.skip_binder();
            let mut o = vec![("c", s("fn"))];
            o.extend(self.fn_ref(body_def, d.into(), args));
            return J::Obj(o);
        }
        let tj = self.ty(t);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return J::Obj(vec![("c", s("promoted")), ("def", s(self.path(u.def))), ("idx", n(p.as_usize())), ("ty", tj)]);
            }
        }
        let env = ty::TypingEnv::post_analysis(tcx, body_def.to_def_id());
        let mut o = vec![("c", s("val")), ("ty", tj)];
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", s(self.nice(u.def))));
        }
        if let Const::Ty(_, cc) = c.const_ {
            if let ty::ConstKind::Param(p) = cc.kind() { o.push(("cparam", s(p.name))); return J::Obj(o); }
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => {
                match v {
                    ConstValue::Scalar(sc) => {
                        if let Ok(i) = sc.try_to_scalar_int() {
                            let sz = i.size();
                            let num = match t.kind() {
                                TyKind::Int(_) => i.to_int(sz),
                                _ => i.to_uint(sz) as i128,
                            };
                            o.push(("v", J::Num(num)));
                            if let TyKind::Float(_) = t.kind() { o.push(("float", J::Bool(true))); }
                        } else {
                            if let TyKind::Ref(_, inner, _) = t.kind() {
                                if let TyKind::Array(el, _) = inner.kind() {
                                    if matches!(el.kind(), TyKind::Uint(ty::UintTy::U8)) {
                                        if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = sc {
                                            let (prov, off) = p.prov_and_relative_offset();
                                            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                                                let a = m.inner();
                                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len());
                                                o.push(("bytes", J::Arr(b.iter().map(|x| J::Num(*x as i128)).collect())));
                                            }
                                        }
                                    }
                                }
                            }
                            o.push(("opaque", s(format!("{:?}", c.const_))));
                        }
                    }
                    ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
                    _ => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            match std::str::from_utf8(b) {
                                Ok(st) => o.push(("v", s(st))),
                                Err(_) => o.push(("bytes", J::Arr(b.iter().map(|x| J::Num(*x as i128)).collect()))),
                            }
                        } else {
                            o.push(("opaque", s(format!("{:?}", c.const_))));
                        }
                    }
                }
            }
            Err(_) => o.push(("opaque", s(format!("{:?}", c.const_)))),
        }
        J::Obj(o)
    }

    fn operand(&mut self, bd: LocalDefId, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => { let p = self.place(p); J::Arr(vec![s("copy"), p]) }
            Operand::Move(p) => { let p = self.place(p); J::Arr(vec![s("move"), p]) }
            Operand::Constant(c) => { let c = self.constant(bd, c); J::Arr(vec![s("const"), c]) }
            #[allow(unreachable_patterns)]
            other => J::Arr(vec![s("rt"), s(format!("{:?}", other))]),
        }
    }

    fn rvalue(&mut self, bd: LocalDefId, rv: &Rvalue<'tcx>) -> J {
        match rv {
            Rvalue::Use(o, ..) => { let o = self.operand(bd, o); J::Arr(vec![s("use"), o]) }
            Rvalue::Repeat(o, c) => {
                let o = self.operand(bd, o);
                let l = c.try_to_target_usize(self.tcx).map(|v| J::Num(v as i128)).unwrap_or(J::Null);
                J::Arr(vec![s("repeat"), o, l])
            }
            Rvalue::Ref(_, bk, p) => {
                let k = match bk { BorrowKind::Shared => "shared", BorrowKind::Fake(_) => "fake", BorrowKind::Mut { .. } => "mut" };
                let p = self.place(p);
                J::Arr(vec![s("ref"), s(k), p])
            }
            Rvalue::RawPtr(k, p) => { let p = self.place(p); J::Arr(vec![s("rawptr"), s(format!("{:?}", k)), p]) }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&self.tcx.optimized_mir(bd.to_def_id()).local_decls, self.tcx);
                let fj = self.ty(from);
                let o = self.operand(bd, o); let t = self.ty(*t);
                J::Arr(vec![s("cast"), s(format!("{:?}", k)), o, t, fj])
            }
            Rvalue::BinaryOp(op, b) => { let x = self.operand(bd, &b.0); let y = self.operand(bd, &b.1); J::Arr(vec![s("bin"), s(format!("{:?}", op)), x, y]) }
            Rvalue::UnaryOp(op, x) => { let x = self.operand(bd, x); J::Arr(vec![s("un"), s(format!("{:?}", op)), x]) }
            Rvalue::Discriminant(p) => { let p = self.place(p); J::Arr(vec![s("discr"), p]) }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::Obj(vec![("a", s("array"))]),
                    AggregateKind::Tuple => J::Obj(vec![("a", s("tuple"))]),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        self.adt(*d);
                        let ta: Vec<Ty<'tcx>> = args.types().collect();
                        let ta = ta.into_iter().map(|t| self.ty(t)).collect();
                        J::Obj(vec![("a", s("adt")), ("path", s(self.nice(*d))), ("variant", n(vi.as_usize())), ("targs", J::Arr(ta)),
                            ("ufield", fi.map(|f| n(f.as_usize())).unwrap_or(J::Null))])
                    }
                    AggregateKind::Closure(d, _) => J::Obj(vec![("a", s("closure")), ("id", s(self.path(*d)))]),
                    other => J::Obj(vec![("a", s("other")), ("s", s(format!("{:?}", other)))]),
                };
                let os = ops.iter().map(|o| self.operand(bd, o)).collect();
                J::Arr(vec![s("agg"), kj, J::Arr(os)])
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::Arr(vec![s("use"), J::Arr(vec![s("copy"), p])]) }
            other => J::Arr(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn body(&mut self, bd: LocalDefId, b: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut locals = vec![];
        for (_, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(J::Obj(vec![("ty", t), ("mut", J::Bool(d.mutability.is_mut()))]));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(J::Arr(vec![s(v.name), p]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stm in &bb.statements {
                let sp = self.span(stm.source_info.span);
                match &stm.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0); let r = self.rvalue(bd, &a.1);
                        st.push(J::Arr(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::Arr(vec![s("setd"), p, n(variant_index.as_usize()), sp]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::Arr(vec![s("dead"), n(l.as_usize())])),
                    StatementKind::StorageLive(l) => st.push(J::Arr(vec![s("live"), n(l.as_usize())])),
                    StatementKind::Intrinsic(i) => st.push(J::Arr(vec![s("intrinsic"), s(format!("{:?}", i)), sp])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbn = |x: BasicBlock| n(x.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![s("goto"), bbn(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    let d = self.operand(bd, discr);
                    let ts = targets.iter().map(|(v, x)| J::Arr(vec![J::Num(v as i128), bbn(x)])).collect();
                    J::Arr(vec![s("switch"), d, dt, J::Arr(ts), bbn(targets.otherwise())])
                }
                TerminatorKind::Return => J::Arr(vec![s("return")]),
                TerminatorKind::Unreachable => J::Arr(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); J::Arr(vec![s("drop"), p, bbn(*target)]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(bd, func);
                    let a = args.iter().map(|x| self.operand(bd, &x.node)).collect();
                    let d = self.place(destination);
                    let x = sp_expn(t.source_info.span);
                    J::Arr(vec![s("call"), f, J::Arr(a), d, target.map(bbn).unwrap_or(J::Null), x])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(bd, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => { let l = self.operand(bd, len); let i = self.operand(bd, index); J::Arr(vec![s("bounds"), l, i]) }
                        AssertKind::Overflow(op, x, y) => { let xt = x.ty(&b.local_decls, self.tcx); let xt = self.ty(xt); let x = self.operand(bd, x); let y = self.operand(bd, y); J::Arr(vec![s("overflow"), s(format!("{:?}", op)), x, y, xt]) }
                        AssertKind::OverflowNeg(x) => { let xt = x.ty(&b.local_decls, self.tcx); let xt = self.ty(xt); let x = self.operand(bd, x); J::Arr(vec![s("overflowneg"), x, xt]) }
                        AssertKind::DivisionByZero(x) => { let x = self.operand(bd, x); J::Arr(vec![s("div0"), x]) }
                        AssertKind::RemainderByZero(x) => { let x = self.operand(bd, x); J::Arr(vec![s("rem0"), x]) }
                        o => J::Arr(vec![s("other"), s(format!("{:?}", o))]),
                    };
                    J::Arr(vec![s("assert"), c, J::Bool(*expected), m, bbn(*target)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![s("goto"), bbn(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![s("goto"), bbn(*real_target)]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::Arr(vec![s("resume")]),
                o => J::Arr(vec![s("other"), s(format!("{:?}", o))]),
            };
            blocks.push(J::Obj(vec![("s", J::Arr(st)), ("t", tj), ("sp", sp), ("cl", J::Bool(bb.is_cleanup))]));
        }
        vec![("argc", n(b.arg_count)), ("locals", J::Arr(locals)), ("names", J::Arr(names)), ("blocks", J::Arr(blocks))]
    }
}

fn sp_expn(sp: Span) -> J {
    // outermost macro name, if the call comes out of a macro expansion
    if !sp.from_expansion() { return J::Null; }
    let mut last = J::Null;
    for e in sp.macro_backtrace() {
        last = s(format!("{:?}", e.kind));
    }
    last
}

trait Esc { fn has_escaping(&self) -> bool; }
impl<'tcx> Esc for ty::GenericArgsRef<'tcx> {
    fn has_escaping(&self) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        self.has_escaping_bound_vars()
    }
}

struct Cb { out: String }

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if tcx.dcx().has_errors().is_some() { return rustc_driver::Compilation::Continue; }
        let mut cx = Cx { tcx, types: vec![], tyidx: HashMap::new(), adts: HashMap::new(), adt_out: vec![] };
        let mut fns = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| d.local_def_index.as_usize());
        let mut other_bodies = vec![];
        for d in keys {
            let did = d.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::Ctor(..) => continue,
                k => { other_bodies.push(J::Obj(vec![("path", s(cx.nice(did))), ("kind", s(format!("{:?}", k)))])); continue }
            }
            let b = tcx.optimized_mir(did);
            let mut o: Vec<(&'static str, J)> = vec![
                ("id", s(cx.path(did))), ("path", s(cx.nice(did))), ("kind", s(format!("{:?}", kind))),
                ("span", cx.span(tcx.def_span(did))),
            ];
            let unsafe_fn = if kind != DefKind::Closure { format!("{:?}", tcx.fn_sig(did).skip_binder().safety()) } else { "Safe".into() };
            o.push(("safety", s(unsafe_fn)));
            if kind != DefKind::Closure {
                o.push(("name", s(tcx.item_name(did))));
                o.push(("vis", s(format!("{:?}", tcx.visibility(did)))));
                o.push(("pub", J::Bool(tcx.effective_visibilities(()).is_reachable(d))));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("sig", s(rustc_middle::ty::print::with_no_trimmed_paths!(sig.to_string()))));
                let ins: Vec<_> = sig.inputs().to_vec();
                let ins = ins.into_iter().map(|t| cx.ty(t)).collect();
                o.push(("inputs", J::Arr(ins)));
                let ot = cx.ty(sig.output());
                o.push(("output", ot));
            }
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                o.push(("impl_self", st));
                o.push(("derived", J::Bool(tcx.is_automatically_derived(im))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", s(cx.nice(tr.def_id))));
                    let ta: Vec<Ty<'tcx>> = tr.args.types().collect();
                    let ta = ta.into_iter().map(|t| cx.ty(t)).collect();
                    o.push(("impl_trait_args", J::Arr(ta)));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                o.push(("in_trait", s(cx.nice(tr))));
            }
            if kind == DefKind::Closure {
                o.push(("parent", s(cx.path(tcx.typeck_root_def_id(did)))));
                let ups: Vec<J> = tcx.closure_captures(d).iter().map(|c| {
                    let byref = match c.info.capture_kind { ty::UpvarCapture::ByValue => "value", ty::UpvarCapture::ByRef(k) => if matches!(k, ty::BorrowKind::Immutable) { "ref" } else { "mut" }, _ => "use" };
                    J::Arr(vec![s(c.to_symbol()), s(byref)])
                }).collect();
                o.push(("captures", J::Arr(ups)));
            }
            o.extend(cx.body(d, b));
            let prom: Vec<J> = tcx.promoted_mir(did).iter().map(|pb| J::Obj(cx.body(d, pb))).collect();
            o.push(("promoted", J::Arr(prom)));
            fns.push(J::Obj(o));
        }
        // items: impls, statics, unsafe impls
        let mut impls = vec![];
        let mut statics = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let mut o = vec![("self", st), ("span", cx.span(tcx.def_span(did))), ("derived", J::Bool(tcx.is_automatically_derived(did)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.nice(tr.def_id))));
                        let ta: Vec<Ty<'tcx>> = tr.args.types().collect();
                        let ta = ta.into_iter().map(|t| cx.ty(t)).collect();
                        o.push(("targs", J::Arr(ta)));
                        let h = tcx.impl_trait_header(did);
                        o.push(("safety", s(format!("{:?}", h.safety))));
                        o.push(("polarity", s(format!("{:?}", h.polarity))));
                    }
                    impls.push(J::Obj(o));
                }
                DefKind::Static { mutability, .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    statics.push(J::Obj(vec![("path", s(cx.nice(did))), ("ty", st), ("mut", J::Bool(mutability.is_mut())), ("span", cx.span(tcx.def_span(did)))]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(did),
                _ => {}
            }
        }
        let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let kind = format!("{:?}", tcx.crate_types());
        let files: Vec<J> = tcx.sess.source_map().files().iter()
            .filter(|f| f.cnum == rustc_hir::def_id::LOCAL_CRATE)
            .map(|f| s(f.name.prefer_remapped_unconditionally())).collect();
        let mut out = String::new();
        J::Obj(vec![
            ("crate", s(&crate_name)), ("kind", s(&kind)), ("files", J::Arr(files)),
            ("fns", J::Arr(fns)), ("other_bodies", J::Arr(other_bodies)),
            ("types", J::Arr(std::mem::take(&mut cx.types))), ("adts", J::Arr(std::mem::take(&mut cx.adt_out))),
            ("impls", J::Arr(impls)), ("statics", J::Arr(statics)),
        ]).write(&mut out);
        let k = if kind.contains("Executable") { "bin" } else { "lib" };
        std::fs::write(format!("{}/{}-{}.json", self.out, crate_name, k), out).expect("mirdump: cannot write");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: args[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let probing = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print")) || !args.iter().any(|a| a == "--crate-name");
    args.push("-Zmir-opt-level=0".into());
    args.push("-Znext-solver=coherence".into());
    rustc_driver::catch_with_exit_code(move || {
        if out.is_empty() || probing {
            struct N; impl rustc_driver::Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
    })
}
