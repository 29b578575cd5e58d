// rustc driver that dumps the type-checked program (MIR, resolved callees, types, impls) as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...].
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::*;
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv, TypingMode};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    S(String),
    I(i64),
    B(bool),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    N,
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    seen: HashMap<ty::Instance<'tcx>, ()>,
    work: Vec<(ty::Instance<'tcx>, String)>,
    known: std::collections::HashSet<String>,
}

/// external (core/alloc/std) functions whose MIR is exported so that the analysis sees through them
fn transparent(p: &str) -> bool {
    let p = p.trim_start_matches('<').trim_start_matches('&').trim_start_matches("mut ");
    const PRE: &[&str] = &[
        "core::option::",
        "core::result::",
        "core::ops::control_flow::",
        "core::ops::try_trait::",
        "core::iter::adapters::",
        "core::iter::traits::",
        "core::iter::sources::",
        "core::bool::",
        "core::cmp::max",
        "core::cmp::min",
        "core::cmp::Ord::",
        "core::cmp::PartialOrd::",
        "core::convert::",
        "core::ops::function::",
        "I as core::iter",
        "T as core::convert",
    ];
    PRE.iter().any(|x| p.starts_with(x))
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
        ty::print::with_resolve_crate_name!(tcx.def_path_str(d))
    ))
}
fn tystr<'tcx>(t: impl std::fmt::Display) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
        ty::print::with_resolve_crate_name!(t.to_string())
    ))
}
fn did(tcx: TyCtxt<'_>, d: DefId) -> String {
    let h = tcx.def_path_hash(d);
    format!("{:?}", h.0).replace("Fingerprint(", "").replace(')', "").replace(", ", "-")
}

impl<'tcx> Cx<'tcx> {
    /// key of a monomorphic instance; schedules external / generic instances for export
    fn inst(&mut self, inst: ty::Instance<'tcx>) -> Option<String> {
        use rustc_middle::ty::TypeVisitableExt;
        let tcx = self.tcx;
        if inst.args.has_non_region_param() {
            return None;
        }
        let d = match inst.def {
            ty::InstanceKind::Item(d) => d,
            _ => return None,
        };
        let base = if tcx.is_closure_like(d) {
            let n = tcx.generics_of(tcx.typeck_root_def_id(d)).count();
            &inst.args[..n]
        } else {
            &inst.args[..]
        };
        let tys: Vec<String> = base.iter().filter_map(|a| a.as_type()).map(|t| tystr(tcx.erase_and_anonymize_regions(t))).collect();
        let key = if tys.is_empty() { did(tcx, d) } else { format!("{}[{}]", did(tcx, d), tys.join(", ")) };
        if self.seen.insert(inst, ()).is_none() && !self.known.contains(&key) {
            self.known.insert(key.clone());
            let kr = tcx.crate_name(d.krate);
            let std = matches!(kr.as_str(), "core" | "alloc" | "std");
            let ws = kr.as_str() == "reductionml_core" || d.is_local();
            if (ws || (std && transparent(&path(tcx, d)))) && tcx.is_mir_available(d) && tcx.intrinsic(d).is_none() && (d.is_local() || !tys.is_empty() || std) {
                self.work.push((inst, key.clone()));
            }
        }
        Some(key)
    }
    fn iter_next(&mut self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Option<String> {
        use rustc_middle::ty::TypeVisitableExt;
        let tcx = self.tcx;
        if t.has_non_region_param() || t.has_escaping_bound_vars() {
            return None;
        }
        let nx = tcx.lang_items().next_fn()?;
        let tr = tcx.trait_of_assoc(nx)?;
        let t = tcx.erase_and_anonymize_regions(t);
        let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
        if !infcx.type_implements_trait(tr, [t], env.param_env).must_apply_modulo_regions() {
            return None;
        }
        let a = tcx.mk_args(&[t.into()]);
        match ty::Instance::try_resolve(tcx, env, nx, a) {
            Ok(Some(i)) => self.inst(i),
            _ => None,
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.tyi(t) as i64)
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        J::A(a.types().map(|t| self.ty(t)).collect())
    }
    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::N);
        self.tymap.insert(t, i);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(tystr(t)))];
        let k = |o: &mut Vec<(&'static str, J)>, n: &str| o.push(("k", s(n)));
        match t.kind() {
            ty::Adt(a, args) => {
                k(&mut o, "adt");
                o.push(("adt", s(path(self.tcx, a.did()))));
                o.push(("a", self.args(args)));
                if a.did().krate == rustc_span::def_id::LOCAL_CRATE {
                    o.push(("local", J::B(true)));
                }
                if a.is_enum() {
                    o.push(("vs", J::A(a.variants().iter().map(|v| s(v.name.as_str())).collect())));
                    // discriminant values
                    let ds: Vec<J> = a
                        .discriminants(self.tcx)
                        .map(|(_, d)| s(format!("{}", d.val)))
                        .collect();
                    o.push(("ds", J::A(ds)));
                }
            }
            ty::Ref(_, inner, m) => {
                k(&mut o, "ref");
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*inner);
                o.push(("a", J::A(vec![x])));
            }
            ty::RawPtr(inner, m) => {
                k(&mut o, "ptr");
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*inner);
                o.push(("a", J::A(vec![x])));
            }
            ty::Slice(inner) => {
                k(&mut o, "slice");
                let x = self.ty(*inner);
                o.push(("a", J::A(vec![x])));
            }
            ty::Array(inner, n) => {
                k(&mut o, "array");
                let x = self.ty(*inner);
                o.push(("a", J::A(vec![x])));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("n", J::I(n as i64)));
                }
            }
            ty::Tuple(ts) => {
                k(&mut o, "tuple");
                let v = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("a", J::A(v)));
            }
            ty::Closure(d, args) => {
                k(&mut o, "closure");
                o.push(("id", s(did(self.tcx, *d))));
                o.push(("path", s(path(self.tcx, *d))));
                let u: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("a", J::A(u)));
            }
            ty::FnDef(d, args) => {
                k(&mut o, "fndef");
                o.push(("id", s(did(self.tcx, *d))));
                o.push(("path", s(path(self.tcx, *d))));
                if let DefKind::Ctor(..) = self.tcx.def_kind(*d) {
                    let vd = self.tcx.parent(*d);
                    let (adt, v) = if matches!(self.tcx.def_kind(vd), DefKind::Variant) {
                        (self.tcx.parent(vd), self.tcx.item_name(vd).to_string())
                    } else {
                        (vd, self.tcx.item_name(vd).to_string())
                    };
                    let def = self.tcx.adt_def(adt);
                    let vi = if def.is_enum() { def.variant_index_with_ctor_id(*d).as_usize() } else { 0 };
                    let names: Vec<J> = def.variants().iter().nth(vi).unwrap().fields.iter().map(|f| s(f.name.as_str())).collect();
                    o.push(("ctor", J::A(vec![s(path(self.tcx, adt)), s(v), J::I(vi as i64), J::A(names)])));
                }
                let args = args.skip_binder();
                let a = self.args(args);
                o.push(("a", a));
                if let Ok(Some(i)) = {
                    use rustc_middle::ty::TypeVisitableExt;
                    if args.has_non_region_param() || args.has_escaping_bound_vars() {
                        Ok(None)
                    } else {
                        let ar = self.tcx.erase_and_anonymize_regions(args);
                        ty::Instance::try_resolve(self.tcx, TypingEnv::fully_monomorphized(), *d, ar)
                    }
                } {
                    if let Some(key) = self.inst(i) {
                        o.push(("key", s(key)));
                    }
                }
            }
            ty::FnPtr(..) => k(&mut o, "fnptr"),
            ty::Dynamic(preds, _) => {
                k(&mut o, "dyn");
                if let Some(p) = preds.principal_def_id() {
                    o.push(("trait", s(path(self.tcx, p))));
                }
                let au: Vec<J> = preds.auto_traits().map(|d| s(path(self.tcx, d))).collect();
                o.push(("auto", J::A(au)));
            }
            ty::Param(p) => {
                k(&mut o, "param");
                o.push(("name", s(p.name.as_str())));
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                k(&mut o, "prim")
            }
            _ => k(&mut o, "other"),
        }
        self.types[i] = J::O(o);
        i
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let exp = sp.from_expansion();
        let sp2 = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp2.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        let mut st = format!("{}:{}:{}", f, loc.line, loc.col.0 + 1);
        if exp {
            st.push('!');
            let ek = sp.ctxt().outer_expn_data();
            st.push_str(&ek.kind.descr());
        }
        s(st)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![J::I(p.local.as_usize() as i64)];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => v.push(s("*")),
                ProjectionElem::Field(f, t) => {
                    let base = pt.ty;
                    let name = match base.kind() {
                        ty::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_enum() || a.is_struct() || a.is_union() {
                                a.variant(vi).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let tj = self.ty(t);
                    v.push(J::O(vec![("f", J::I(f.as_usize() as i64)), ("n", s(name)), ("t", tj)]));
                }
                ProjectionElem::Index(l) => {
                    v.push(J::O(vec![("i", J::I(l.as_usize() as i64))]));
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    v.push(J::O(vec![
                        ("ci", J::I(offset as i64)),
                        ("ml", J::I(min_length as i64)),
                        ("fe", J::B(from_end)),
                    ]));
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    v.push(J::O(vec![
                        ("ss", J::I(from as i64)),
                        ("to", J::I(to as i64)),
                        ("fe", J::B(from_end)),
                    ]));
                }
                ProjectionElem::Downcast(n, vi) => {
                    let name = match n {
                        Some(n) => n.to_string(),
                        None => vi.as_usize().to_string(),
                    };
                    v.push(J::O(vec![("d", s(name)), ("vi", J::I(vi.as_usize() as i64))]));
                }
                _ => v.push(s("?")),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path(tcx, d))), ("id", s(did(tcx, d)))];
        o.push(("a", self.args(args)));
        o.push(("krate", s(tcx.crate_name(d.krate).as_str())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
            o.push(("m", s(tcx.item_name(d).as_str())));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self", self.ty(st)));
            if tcx.def_kind(d) == DefKind::AssocFn {
                o.push(("m", s(tcx.item_name(d).as_str())));
            }
        }
        if tcx.fn_sig(d).instantiate_identity().skip_norm_wip().safety().is_unsafe() {
            o.push(("unsafe", J::B(true)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args_e = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args_e) {
                let (kind, rd) = match inst.def {
                    ty::InstanceKind::Item(x) => ("item", x),
                    ty::InstanceKind::Virtual(x, _) => ("virtual", x),
                    other => ("shim", other.def_id()),
                };
                let mut r: Vec<(&'static str, J)> = vec![
                    ("kind", s(kind)),
                    ("path", s(path(tcx, rd))),
                    ("id", s(did(tcx, rd))),
                    ("krate", s(tcx.crate_name(rd.krate).as_str())),
                ];
                let a = self.args(inst.args);
                r.push(("a", a));
                if kind == "shim" {
                    r.push(("shim", s(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string())));
                }
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    r.push(("self", self.ty(st)));
                }
                if let Some(k) = self.inst(inst) {
                    r.push(("key", s(k)));
                }
                // closures called through a once-shim: the closure body itself
                if kind == "shim" {
                    if let Some(t) = args_e.types().next() {
                        if let ty::Closure(cd, ca) = t.kind() {
                            if let Some(k) = self.inst(ty::Instance::new_raw(*cd, ca)) {
                                r.push(("ckey", s(k)));
                            }
                        }
                    }
                }
                o.push(("r", J::O(r)));
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    let p = path(tcx, tr);
                    if p == "core::iter::traits::iterator::Iterator" && rd != d && tcx.defaultness(d).has_value() {
                        if let Some(k) = self.inst(ty::Instance::new_raw(d, args_e)) {
                            o.push(("dk", s(k)));
                        }
                    }
                }
                let tys: Vec<Ty<'tcx>> = args_e.types().collect();
                let nx: Vec<J> = tys
                    .iter()
                    .map(|t| match self.iter_next(env, *t) {
                        Some(k) => s(k),
                        None => J::N,
                    })
                    .collect();
                if rd != d && path(tcx, rd).contains("adapters::zip::Zip") {
                    if let Some(ty::Adt(_, sa)) = tys.first().map(|t| t.kind()) {
                        let z: Vec<J> = sa.types().map(|t| match self.iter_next(env, t) { Some(k) => s(k), None => J::N }).collect();
                        o.push(("zip", J::A(z)));
                    }
                }
                if nx.iter().any(|x| !matches!(x, J::N)) {
                    o.push(("nx", J::A(nx)));
                }
            }
        }
        J::O(o)
    }

    fn constant(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            ty::FnDef(d, args) => {
                let cj = self.callee(env, *d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
                o.push(("fn", cj));
                return J::O(o);
            }
            _ => {}
        }
        let tj = self.ty(t);
        o.push(("ty", tj));
        let _ = body;
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted", s(format!("{}#p{}", did(tcx, u.def), p.as_usize()))));
                } else {
                    o.push(("cdef", s(path(tcx, u.def))));
                    o.push(("cid", s(did(tcx, u.def))));
                }
            }
            _ => {}
        }
        let has_params = {
            use rustc_middle::ty::TypeVisitableExt;
            c.const_.has_non_region_param()
        };
        let is_promoted = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some() && !u.def.is_local());
        if !has_params && !is_promoted {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                match v {
                    ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                        let size = i.size();
                        if matches!(t.kind(), ty::Float(_)) {
                            let bits = i.to_bits(size);
                            let f = if size.bytes() == 4 {
                                f32::from_bits(bits as u32) as f64
                            } else {
                                f64::from_bits(bits as u64)
                            };
                            o.push(("float", s(format!("{:?}", f))));
                        } else if matches!(t.kind(), ty::Int(_)) {
                            o.push(("int", s(format!("{}", i.to_int(size)))));
                        } else {
                            o.push(("int", s(format!("{}", i.to_bits(size)))));
                        }
                    }
                    ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                        let aid = p.provenance.alloc_id();
                        match tcx.try_get_global_alloc(aid) {
                            Some(interpret::GlobalAlloc::Static(d)) => {
                                o.push(("static", s(path(tcx, d))));
                                o.push(("sid", s(did(tcx, d))));
                            }
                            Some(interpret::GlobalAlloc::Memory(m)) => {
                                // &[u8;N] byte strings
                                if let ty::Ref(_, inner, _) = t.kind() {
                                    if let ty::Array(e, _) = inner.kind() {
                                        if *e == tcx.types.u8 {
                                            let m = m.inner();
                                            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len());
                                            o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                    ConstValue::Slice { .. } => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                    o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        J::O(o)
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, p))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(body, env, c))]),
            Operand::RuntimeChecks(r) => J::O(vec![("rt", s(format!("{:?}", r)))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, _) => {
                let x = self.operand(body, env, op);
                J::O(vec![("r", s("use")), ("o", J::A(vec![x]))])
            }
            Rvalue::Repeat(op, n) => {
                let x = self.operand(body, env, op);
                let mut v = vec![("r", s("repeat")), ("o", J::A(vec![x]))];
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    v.push(("n", J::I(n as i64)));
                }
                J::O(v)
            }
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::RawPtr(k, p) => {
                J::O(vec![("r", s("rawptr")), ("mut", J::B(k.to_mutbl_lossy().is_mut())), ("p", self.place(body, p))])
            }
            Rvalue::ThreadLocalRef(d) => J::O(vec![("r", s("tls")), ("d", s(path(self.tcx, *d)))]),
            Rvalue::Cast(k, op, t) => {
                let x = self.operand(body, env, op);
                let tj = self.ty(*t);
                let mut v = vec![("r", s("cast")), ("ck", s(format!("{:?}", k))), ("o", J::A(vec![x])), ("t", tj)];
                // unsizing of closures / fn pointers
                let ot = op.ty(body, self.tcx);
                let otj = self.ty(ot);
                v.push(("ot", otj));
                J::O(v)
            }
            Rvalue::BinaryOp(b, ab) => {
                let x = self.operand(body, env, &ab.0);
                let y = self.operand(body, env, &ab.1);
                J::O(vec![("r", s("bin")), ("op", s(format!("{:?}", b))), ("o", J::A(vec![x, y]))])
            }
            Rvalue::UnaryOp(u, a) => {
                let x = self.operand(body, env, a);
                J::O(vec![("r", s("un")), ("op", s(format!("{:?}", u))), ("o", J::A(vec![x]))])
            }
            Rvalue::Discriminant(p) => J::O(vec![("r", s("discr")), ("p", self.place(body, p))]),
            Rvalue::CopyForDeref(p) => {
                let x = self.place(body, p);
                J::O(vec![("r", s("use")), ("o", J::A(vec![J::O(vec![("c", x)])]))])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v: Vec<(&'static str, J)> = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        v.push(("ak", s("array")));
                        v.push(("t", self.ty(*t)));
                    }
                    AggregateKind::Tuple => v.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        v.push(("ak", s("adt")));
                        v.push(("adt", s(path(self.tcx, *d))));
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        v.push(("v", s(var.name.as_str())));
                        v.push(("vi", J::I(vi.as_usize() as i64)));
                        let names: Vec<J> = match af {
                            Some(f) => vec![s(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| s(f.name.as_str())).collect(),
                        };
                        v.push(("fn", J::A(names)));
                        v.push(("a", self.args(args)));
                    }
                    AggregateKind::Closure(d, _) => {
                        v.push(("ak", s("closure")));
                        v.push(("id", s(did(self.tcx, *d))));
                        v.push(("path", s(path(self.tcx, *d))));
                    }
                    _ => v.push(("ak", s("other"))),
                }
                let os = ops.iter().map(|o| self.operand(body, env, o)).collect();
                v.push(("o", J::A(os)));
                J::O(v)
            }
            other => J::O(vec![("r", s("other")), ("s", s(format!("{:?}", other)))]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("continue"),
            UnwindAction::Unreachable => s("unreachable"),
            UnwindAction::Terminate(_) => s("terminate"),
            UnwindAction::Cleanup(b) => J::I(b.as_usize() as i64),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("argc", J::I(body.arg_count as i64)));
        o.push(("span", self.span(body.span)));
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    let pj = self.place(body, p);
                    dbg.push(J::O(vec![("name", s(v.name.as_str())), ("p", pj)]));
                }
            }
        }
        o.push(("dbg", J::A(dbg)));
        let mut ls = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let mut x = vec![("t", t)];
            if let Some(n) = names.get(&l.as_usize()) {
                x.push(("n", s(n.clone())));
            }
            ls.push(J::O(x));
        }
        o.push(("locals", J::A(ls)));
        let mut bs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(body, &pr.0);
                        let r = self.rvalue(body, env, &pr.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![
                            p,
                            J::O(vec![("r", s("setdiscr")), ("vi", J::I(variant_index.as_usize() as i64))]),
                            sp,
                        ]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let mut t: Vec<(&'static str, J)> = vec![];
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    t.push(("t", s("goto")));
                    t.push(("to", J::I(target.as_usize() as i64)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    t.push(("t", s("switch")));
                    t.push(("o", self.operand(body, env, discr)));
                    let dt = discr.ty(body, self.tcx);
                    t.push(("ty", self.ty(dt)));
                    let v = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![s(format!("{}", v)), J::I(b.as_usize() as i64)]))
                        .collect();
                    t.push(("v", J::A(v)));
                    t.push(("else", J::I(targets.otherwise().as_usize() as i64)));
                }
                TerminatorKind::UnwindResume => t.push(("t", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => t.push(("t", s("abort"))),
                TerminatorKind::Return => t.push(("t", s("return"))),
                TerminatorKind::Unreachable => t.push(("t", s("unreachable"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    t.push(("t", s("drop")));
                    t.push(("p", self.place(body, place)));
                    let pty = place.ty(body, self.tcx).ty;
                    t.push(("ty", self.ty(pty)));
                    t.push(("to", J::I(target.as_usize() as i64)));
                    t.push(("unw", self.unwind(unwind)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    t.push(("t", s("call")));
                    t.push(("f", self.operand(body, env, func)));
                    let a = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    t.push(("args", J::A(a)));
                    t.push(("dest", self.place(body, destination)));
                    match target {
                        Some(b) => t.push(("to", J::I(b.as_usize() as i64))),
                        None => t.push(("to", J::N)),
                    }
                    t.push(("unw", self.unwind(unwind)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    t.push(("t", s("assert")));
                    t.push(("o", self.operand(body, env, cond)));
                    t.push(("exp", J::B(*expected)));
                    let (k, ops): (&str, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                        AssertKind::Overflow(op, a, b) => {
                            t.push(("op", s(format!("{:?}", op))));
                            ("overflow", vec![a, b])
                        }
                        AssertKind::OverflowNeg(a) => ("overflow_neg", vec![a]),
                        AssertKind::DivisionByZero(a) => ("divzero", vec![a]),
                        AssertKind::RemainderByZero(a) => ("remzero", vec![a]),
                        _ => ("other", vec![]),
                    };
                    t.push(("kind", s(k)));
                    let v = ops.iter().map(|x| self.operand(body, env, x)).collect();
                    t.push(("ops", J::A(v)));
                    t.push(("to", J::I(target.as_usize() as i64)));
                    t.push(("unw", self.unwind(unwind)));
                }
                other => {
                    t.push(("t", s("other")));
                    t.push(("s", s(format!("{:?}", other))));
                }
            }
            let mut b = vec![("s", J::A(st)), ("t", J::O(t)), ("sp", sp)];
            if bb.is_cleanup {
                b.push(("cl", J::B(true)));
            }
            bs.push(J::O(b));
        }
        o.push(("bb", J::A(bs)));
        o
    }
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, penv: ty::ParamEnv<'tcx>, t: Ty<'tcx>, tr: DefId) -> bool {
    let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
    infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.out.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

/// owned-content walk: does the type own (directly or through owned indirections) interior mutability / dyn objects?
fn walk_owned<'tcx>(
    tcx: TyCtxt<'tcx>,
    t: Ty<'tcx>,
    trail: &mut Vec<String>,
    seen: &mut std::collections::HashSet<Ty<'tcx>>,
    cells: &mut Vec<J>,
    dyns: &mut Vec<J>,
    params: &mut Vec<J>,
) {
    let t = tcx.erase_and_anonymize_regions(t);
    if !seen.insert(t) {
        return;
    }
    match t.kind() {
        ty::Adt(a, args) => {
            if a.is_unsafe_cell() {
                cells.push(J::A(trail.iter().map(|x| s(x.clone())).collect()));
                return;
            }
            trail.push(tystr(t));
            for v in a.variants() {
                for f in &v.fields {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx
                        .try_normalize_erasing_regions(
                            TypingEnv::fully_monomorphized(),
                            ty::Unnormalized::new_wip(ft),
                        )
                        .unwrap_or(ft);
                    trail.push(format!(".{}", f.name));
                    walk_owned(tcx, ft, trail, seen, cells, dyns, params);
                    trail.pop();
                }
            }
            // PhantomData etc. args are covered by fields; raw-pointer owned content is covered by PhantomData.
            for x in args.types() {
                walk_owned(tcx, x, trail, seen, cells, dyns, params);
            }
            trail.pop();
        }
        ty::Ref(_, i, _) | ty::RawPtr(i, _) | ty::Slice(i) | ty::Array(i, _) => {
            walk_owned(tcx, *i, trail, seen, cells, dyns, params)
        }
        ty::Tuple(ts) => {
            for x in ts.iter() {
                walk_owned(tcx, x, trail, seen, cells, dyns, params)
            }
        }
        ty::Dynamic(p, _) => {
            if let Some(d) = p.principal_def_id() {
                let mut v: Vec<J> = trail.iter().map(|x| s(x.clone())).collect();
                v.insert(0, s(path(tcx, d)));
                dyns.push(J::A(v));
            }
        }
        ty::Param(p) => params.push(s(p.name.as_str())),
        _ => {}
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str, tag: &str) {
    let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), seen: HashMap::new(), work: vec![], known: Default::default() };
    let mut bodies = vec![];
    for &l in tcx.mir_keys(()).iter() {
        cx.known.insert(did(tcx, l.to_def_id()));
    }
    for &l in tcx.mir_keys(()).iter() {
        let d = l.to_def_id();
        let kind = tcx.def_kind(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path(tcx, d))), ("id", s(did(tcx, d)))];
        let kn = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => "const",
            DefKind::Static { .. } => "static",
            DefKind::Ctor(..) => "ctor",
            _ => "other",
        };
        o.push(("kind", s(kn)));
        if kn == "static" {
            o.push(("mut", J::B(tcx.is_mutable_static(d))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            if sig.safety().is_unsafe() {
                o.push(("unsafe", J::B(true)));
            }
            let v = tcx.visibility(d);
            o.push(("pub", J::B(v.is_public())));
            o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(l))));
        }
        let parent_fn = tcx.typeck_root_def_id(d);
        if parent_fn != d {
            o.push(("root", s(did(tcx, parent_fn))));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
            o.push(("m", s(tcx.item_name(d).as_str())));
            o.push(("default", J::B(true)));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self", cx.ty(st)));
            o.push(("m", s(tcx.item_name(d).as_str())));
            if tcx.impl_opt_trait_ref(im).is_some() {
                let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                o.push(("trait", s(path(tcx, tr.def_id))));
                o.push(("traitref", s(tystr(tr.print_only_trait_path()))));
            }
        }
        {
            let mut names: Vec<(u32, String)> = vec![];
            let mut g = Some(tcx.generics_of(parent_fn));
            while let Some(gg) = g {
                for p in &gg.own_params {
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                        names.push((p.index, p.name.to_string()));
                    }
                }
                g = gg.parent.map(|x| tcx.generics_of(x));
            }
            names.sort();
            o.push(("gen", J::A(names.into_iter().map(|x| s(x.1)).collect())));
        }
        if tcx.is_automatically_derived(tcx.parent(parent_fn)) {
            o.push(("derived", J::B(true)));
        }
        let is_fnlike = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..));
        if is_fnlike {
            let is_const_ctor = matches!(kind, DefKind::Ctor(..));
            if is_const_ctor {
                continue;
            }
            let body = tcx.optimized_mir(d);
            o.extend(cx.body(body, env));
        } else {
            let body = tcx.mir_for_ctfe(d);
            o.extend(cx.body(body, env));
        }
        bodies.push(J::O(o));
        for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
            let mut o: Vec<(&'static str, J)> = vec![
                ("path", s(format!("{}#p{}", path(tcx, d), pi.as_usize()))),
                ("id", s(format!("{}#p{}", did(tcx, d), pi.as_usize()))),
                ("kind", s("promoted")),
            ];
            o.extend(cx.body(pb, env));
            bodies.push(J::O(o));
        }
    }
    // monomorphic instances of generic / transparent external functions reachable from the crate's bodies
    let menv = TypingEnv::fully_monomorphized();
    let mut nmono = 0;
    let mut promoted_done = std::collections::HashSet::new();
    while let Some((inst, key)) = cx.work.pop() {
        nmono += 1;
        if nmono > 20000 {
            panic!("too many instances");
        }
        let d = inst.def_id();
        let mir = tcx.instance_mir(inst.def);
        let mono = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, menv, ty::EarlyBinder::bind(tcx, mir.clone())) {
            Ok(m) => m,
            Err(_) => continue,
        };
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(path(tcx, d))),
            ("id", s(key)),
            ("kind", s("mono")),
            ("krate", s(tcx.crate_name(d.krate).as_str())),
            ("def", s(did(tcx, d))),
        ];
        if tcx.is_closure_like(d) {
            o.push(("closure", J::B(true)));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            o.push(("m", s(tcx.item_name(d).as_str())));
            if tcx.impl_opt_trait_ref(im).is_some() {
                let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                o.push(("trait", s(path(tcx, tr.def_id))));
            }
        }
        o.extend(cx.body(&mono, menv));
        bodies.push(J::O(o));
        // constants that the compiler promoted out of external functions (once per function)
        if !d.is_local() && promoted_done.insert(d) {
            for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                let Ok(pm) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, menv, ty::EarlyBinder::bind(tcx, pb.clone())) else {
                    continue;
                };
                let mut o: Vec<(&'static str, J)> = vec![
                    ("path", s(format!("{}#p{}", path(tcx, d), pi.as_usize()))),
                    ("id", s(format!("{}#p{}", did(tcx, d), pi.as_usize()))),
                    ("kind", s("promoted")),
                ];
                o.extend(cx.body(&pm, menv));
                bodies.push(J::O(o));
            }
        }
    }
    // items: adts, impls, traits, unsafe
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut usf = vec![];
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send).unwrap();
    let sync = tcx.lang_items().sync_trait().unwrap();
    let items: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
    for l in items {
        let d = l.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let penv = tcx.param_env(d);
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                let mut vs = vec![];
                for v in a.variants() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let tj = cx.ty(ft);
                        fs.push(J::O(vec![
                            ("n", s(f.name.as_str())),
                            ("t", tj),
                            ("pub", J::B(tcx.visibility(f.did).is_public())),
                        ]));
                    }
                    vs.push(J::O(vec![("n", s(v.name.as_str())), ("f", J::A(fs))]));
                }
                let mut cells = vec![];
                let mut dyns = vec![];
                let mut params = vec![];
                walk_owned(tcx, st, &mut vec![], &mut Default::default(), &mut cells, &mut dyns, &mut params);
                adts.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    ("id", s(did(tcx, d))),
                    ("kind", s(if a.is_enum() { "enum" } else { "struct" })),
                    ("vs", J::A(vs)),
                    ("send", J::B(implements(tcx, penv, st, send))),
                    ("sync", J::B(implements(tcx, penv, st, sync))),
                    ("freeze", J::B(st.is_freeze(tcx, TypingEnv::post_analysis(tcx, d)))),
                    ("cells", J::A(cells)),
                    ("dyns", J::A(dyns)),
                    ("params", J::A(params)),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", cx.ty(st)), ("span", cx.span(tcx.def_span(d)))];
                if of_trait {
                    let h = tcx.impl_trait_header(d);
                    let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(path(tcx, tr.def_id))));
                    o.push(("traitref", s(tystr(tr.print_only_trait_path()))));
                    o.push(("neg", J::B(h.polarity == ty::ImplPolarity::Negative)));
                    o.push(("unsafe", J::B(h.safety.is_unsafe())));
                    let preds: Vec<J> = tcx
                        .clauses_of(d)
                        .clauses
                        .iter()
                        .map(|(p, _)| s(tystr(p)))
                        .collect();
                    o.push(("preds", J::A(preds)));
                    // for auto-trait impls: does every field satisfy the trait under the impl's where-clauses?
                    if tr.def_id == send || tr.def_id == sync {
                        if let ty::Adt(a, args) = st.kind() {
                            let penv = tcx.param_env(d);
                            let mut fs = vec![];
                            for v in a.variants() {
                                for f in &v.fields {
                                    let ft = f.ty(tcx, args).skip_norm_wip();
                                    let ok = implements(tcx, penv, ft, tr.def_id);
                                    // Sync-only via Send of T etc. is the trait solver's business
                                    let tj = cx.ty(ft);
                                    fs.push(J::O(vec![("n", s(f.name.as_str())), ("t", tj), ("ok", J::B(ok))]));
                                }
                            }
                            o.push(("autofields", J::A(fs)));
                        }
                    }
                }
                let its: Vec<J> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|i| i.is_fn())
                    .map(|i| J::O(vec![("m", s(i.name().as_str())), ("id", s(did(tcx, i.def_id)))]))
                    .collect();
                o.push(("items", J::A(its)));
                impls.push(J::O(o));
            }
            DefKind::Trait => {
                let its: Vec<J> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|i| i.is_fn())
                    .map(|i| {
                        let sig = tcx.fn_sig(i.def_id).instantiate_identity().skip_norm_wip();
                        let ins = sig.skip_binder().inputs();
                        let tys: Vec<J> = ins.iter().map(|t| cx.ty(*t)).collect();
                        let outp = cx.ty(sig.skip_binder().output());
                        J::O(vec![
                            ("m", s(i.name().as_str())),
                            ("id", s(did(tcx, i.def_id))),
                            ("default", J::B(i.defaultness(tcx).has_value())),
                            ("ins", J::A(tys)),
                            ("out", outp),
                        ])
                    })
                    .collect();
                let sup: Vec<J> = tcx
                    .explicit_super_clauses_of(d)
                    .iter_identity_copied()
                    .map(|x| { let (p, _) = x.skip_norm_wip(); s(tystr(p)) })
                    .collect();
                traits.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    ("items", J::A(its)),
                    ("super", J::A(sup)),
                    ("unsafe", J::B(tcx.trait_def(d).safety.is_unsafe())),
                ]));
            }
            DefKind::Fn | DefKind::AssocFn => {
                if let Some(b) = tcx.hir_maybe_body_owned_by(l) {
                    let mut f = UnsafeFinder { tcx, out: vec![] };
                    rustc_hir::intravisit::Visitor::visit_body(&mut f, b);
                    for sp in f.out {
                        usf.push(J::O(vec![("fn", s(path(tcx, d))), ("id", s(did(tcx, d))), ("span", cx.span(sp))]));
                    }
                }
            }
            _ => {}
        }
    }
    let j = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str())),
        ("tag", s(tag)),
        ("bodies", J::A(bodies)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("unsafe_blocks", J::A(usf)),
        ("types", J::A(std::mem::take(&mut cx.types))),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    let is_bin = tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable");
    let f = format!(
        "{}/{}{}.{}.json",
        out,
        tcx.crate_name(rustc_span::def_id::LOCAL_CRATE),
        if is_bin { "-bin" } else { "" },
        tag
    );
    std::fs::write(&f, o).unwrap();
}

struct Cb {
    out: Option<String>,
    tag: &'static str,
    stop: bool,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o, self.tag);
        }
        if self.stop {
            Compilation::Stop
        } else {
            Compilation::Continue
        }
    }
}

fn main() -> std::process::ExitCode {
    let mut a: Vec<String> = std::env::args().collect();
    // cargo passes: driver rustc <args>
    if a.len() > 1 && (a[1].ends_with("rustc") || a[1].contains("/rustc")) {
        a.remove(1);
    }
    let out = std::env::var("RML_FACTS_OUT").ok();
    let named = a.iter().any(|x| x == "--crate-name") && !a.iter().any(|x| x == "___" || x == "build_script_build");
    let query = a.iter().any(|x| x == "-vV" || x.starts_with("--print"));
    let out = if named && !query { out } else { None };
    a.push("-Zmir-opt-level=0".into());
    a.push("-Aunused".into());
    if out.is_some() {
        let mut r = a.clone();
        r.push("-Cdebug-assertions=no".into());
        r.push("-Coverflow-checks=no".into());
        let mut cb = Cb { out: out.clone(), tag: "rel", stop: true };
        let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&r, &mut cb));
        if code != std::process::ExitCode::SUCCESS {
            return code;
        }
    }
    let mut cb = Cb { out, tag: "dev", stop: false };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&a, &mut cb))
}
