//! MIR fact extractor (rustc_private).  Used as RUSTC_WORKSPACE_WRAPPER under
//! `cargo +nightly check`.  For every body of the crate being compiled it dumps
//! the (drop-elaborated, unoptimised) MIR with resolved callees as JSON into
//! $CRES_FACTS_DIR.  It never runs any code of the analysed crate.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;
use std::collections::BTreeMap;
use std::fmt::Write as _;

// ---------- tiny JSON ----------
#[derive(Clone)]
enum J { Null, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>), M(BTreeMap<String, J>) }
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{i}"); }
            J::S(t) => esc(t, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o) } o.push(']') }
            J::O(v) => { o.push('{'); let mut f = true; for (k, x) in v { if let J::Null = x { continue } if !f { o.push(',') } f = false; esc(k, o); o.push(':'); x.w(o) } o.push('}') }
            J::M(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.w(o) } o.push('}') }
        }
    }
}
fn esc(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c) }
    }
    o.push('"');
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx>, types: BTreeMap<String, J>, adts: BTreeMap<String, J>, krate: String }

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_crate_prefix!(with_no_trimmed_paths!(with_no_visible_paths!(tcx.def_path_str(d))))
}
fn id(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let name = with_crate_prefix!(with_no_trimmed_paths!(with_no_visible_paths!(format!("{t}"))));
        if self.types.contains_key(&name) { return name }
        self.types.insert(name.clone(), J::Null);
        let j = match t.kind() {
            ty::Adt(def, args) => {
                self.adt(*def);
                let a: Vec<J> = args.types().map(|x| s(self.ty(x))).collect();
                J::O(vec![("k", s("adt")), ("adt", s(path(self.tcx, def.did()))), ("args", J::A(a))])
            }
            ty::Ref(_, u, m) => { let u = self.ty(*u); J::O(vec![("k", s("ref")), ("to", s(u)), ("mut", J::B(m.is_mut()))]) }
            ty::RawPtr(u, m) => { let u = self.ty(*u); J::O(vec![("k", s("ptr")), ("to", s(u)), ("mut", J::B(m.is_mut()))]) }
            ty::Slice(u) => { let u = self.ty(*u); J::O(vec![("k", s("slice")), ("to", s(u))]) }
            ty::Array(u, n) => { let u = self.ty(*u); J::O(vec![("k", s("array")), ("to", s(u)), ("n", s(format!("{n}")))]) }
            ty::Tuple(ts) => { let v = ts.iter().map(|x| s(self.ty(x))).collect(); J::O(vec![("k", s("tuple")), ("args", J::A(v))]) }
            ty::Closure(d, a) => {
                let ups: Vec<J> = a.as_closure().upvar_tys().iter().map(|x| s(self.ty(x))).collect();
                J::O(vec![("k", s("closure")), ("id", s(id(self.tcx, *d))), ("upvars", J::A(ups))])
            }
            ty::FnDef(d, _) => J::O(vec![("k", s("fndef")), ("path", s(path(self.tcx, *d)))]),
            ty::FnPtr(sig, hdr) => J::O(vec![("k", s("fnptr")), ("abi", s(format!("{:?}", hdr.abi()))), ("sig", s(format!("{sig:?}")))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn"))]),
            ty::Param(_) => J::O(vec![("k", s("param"))]),
            _ => J::O(vec![("k", s("other"))]),
        };
        self.types.insert(name.clone(), j);
        name
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = path(self.tcx, def.did());
        if self.adts.contains_key(&p) { return }
        self.adts.insert(p.clone(), J::Null);
        let vs: Vec<J> = def.variants().iter_enumerated().map(|(vi, v)| {
            let fs: Vec<J> = v.fields.iter().map(|f| {
                let local = def.did().is_local();
                let t = if local { let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); self.ty(t) } else { String::new() };
                J::A(vec![s(f.name.to_string()), s(t)])
            }).collect();
            let d = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
            J::O(vec![("name", s(v.name.to_string())), ("d", J::I(d)), ("fields", J::A(fs))])
        }).collect();
        let k = if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" };
        let r = def.repr();
        let j = J::O(vec![("kind", s(k)), ("variants", J::A(vs)), ("repr_c", J::B(r.c())), ("local", J::B(def.did().is_local()))]);
        self.adts.insert(p, j);
    }
    fn span(&self, sp: Span) -> J {
        let cs = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(cs.lo());
        let mut v = vec![J::I(lo.line as i128)];
        for e in sp.macro_backtrace() {
            if let rustc_span::ExpnKind::Macro(_, n) = e.kind { v.push(s(n.to_string())) }
            else if let rustc_span::ExpnKind::Desugaring(k) = e.kind { v.push(s(format!("#{k:?}"))) }
        }
        J::A(v)
    }
    fn file(&self, sp: Span) -> String {
        let cs = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let f = sm.lookup_char_pos(cs.lo()).file;
        f.name.prefer_local_unconditionally().to_string()
    }
}

struct Bx<'a, 'tcx> { cx: &'a mut Cx<'tcx>, body: &'a Body<'tcx>, env: TypingEnv<'tcx>, owner: DefId }

impl<'a, 'tcx> Bx<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields.get(f).map(|x| x.name.to_string()).unwrap_or_default()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), s(n)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::A(vec![s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(n, i) => J::A(vec![s("v"), s(n.map(|x| x.to_string()).unwrap_or_default()), J::I(i.as_usize() as i128)]),
                _ => J::A(vec![s("o")]),
            };
            pt = pt.projection_ty(tcx, e);
            v.push(j);
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(v)])
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let mut o = vec![("path", s(path(tcx, d))), ("id", s(id(tcx, d)))];
        let a: Vec<J> = args.types().map(|t| s(self.cx.ty(t))).collect();
        o.push(("args", J::A(a)));
        if let Some(ai) = tcx.opt_associated_item(d) {
            let c = tcx.parent(ai.def_id);
            if tcx.def_kind(c) == DefKind::Trait {
                o.push(("trait", s(path(tcx, c))));
                if args.types().next().is_some() { let t = self.cx.ty(args.type_at(0)); o.push(("self", s(t))); }
                // the items an iterator method goes over
                for st in rustc_middle::infer::canonical::ir::elaborate::supertrait_def_ids(tcx, c) {
                    let n = tcx.generics_of(st).count();
                    if n > args.len() || (st != c && n != 1) { continue }
                    let mut item = None;
                    for x in tcx.associated_items(st).in_definition_order() {
                        if x.is_type() && x.name().as_str() == "Item" && tcx.generics_of(x.def_id).count() == n { item = Some(x.def_id) }
                    }
                    if let Some(x) = item {
                        let e = tcx.erase_and_anonymize_regions(args);
                        let p = Ty::new_projection(tcx, ty::IsRigid::No, x, e.iter().take(n));
                        if let Ok(t) = tcx.try_normalize_erasing_regions(self.env, rustc_middle::ty::Unnormalized::new_wip(p)) { o.push(("item", s(self.cx.ty(t)))); }
                        break;
                    }
                }
            }
        }
        let k = tcx.def_kind(d);
        o.push(("kind", s(format!("{k:?}"))));
        if let DefKind::Ctor(..) = k { 
            let v = tcx.parent(d);
            o.push(("ctor", s(path(tcx, v))));
        }
        if matches!(k, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            if sig.skip_binder().safety().is_unsafe() { o.push(("unsafe", J::B(true))) }
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, eargs) {
                let rk = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                    _ => "shim",
                };
                let rd = inst.def_id();
                let mut r = vec![("k", s(rk)), ("id", s(id(tcx, rd))), ("path", s(path(tcx, rd)))];
                let ra: Vec<J> = inst.args.types().map(|t| s(self.cx.ty(t))).collect();
                r.push(("args", J::A(ra)));
                o.push(("res", J::O(r)));
            }
        }
        J::O(o)
    }
    fn bytes_of(&self, alloc_id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.cx.tcx.try_get_global_alloc(alloc_id)? {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                if off + len > m.len() { return None }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let ty = c.const_.ty();
        let tn = self.cx.ty(ty);
        let mut o = vec![("ty", s(tn))];
        match ty.kind() {
            ty::FnDef(d, args) => { let f = self.callee(*d, args.skip_binder()); o.push(("fn", f)); return J::O(o) }
            ty::Closure(d, _) => { o.push(("closure", s(id(tcx, *d)))); return J::O(o) }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted { o.push(("promoted", s(format!("{}#p{}", id(tcx, u.def), p.as_usize())))); return J::O(o) }
            o.push(("item", s(path(tcx, u.def))));
            o.push(("item_id", s(id(tcx, u.def))));
        }
        if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
            match v {
                ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                    let sz = i.size();
                    if let ty::Float(ft) = ty.kind() {
                        let bits = i.to_bits(sz);
                        let f = if ft.bit_width() == 64 { f64::from_bits(bits as u64) } else { f32::from_bits(bits as u32) as f64 };
                        o.push(("float", s(format!("{f:?}"))));
                    } else if ty.is_signed() { o.push(("int", J::I(i.to_int(sz)))) }
                    else if ty.is_bool() { o.push(("bool", J::B(i.to_bits(sz) != 0))) }
                    else if ty.is_char() { o.push(("char", s(char::from_u32(i.to_bits(sz) as u32).unwrap_or('?').to_string()))) }
                    else { o.push(("int", s(format!("{}", i.to_bits(sz))))) }
                }
                ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    if let ty::Ref(_, inner, _) = ty.kind() {
                        if let ty::Array(e, n) = inner.kind() {
                            if *e == tcx.types.u8 {
                                if let Some(n) = n.try_to_target_usize(tcx) {
                                    if let Some(b) = self.bytes_of(aid, off.bytes_usize(), n as usize) { o.push(("bytes", bytes(&b))) }
                                }
                            }
                        }
                    }
                    if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(aid) { o.push(("static", s(path(tcx, d)))) ; o.push(("static_id", s(id(tcx, d)))) }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.bytes_of(alloc_id, 0, meta as usize) {
                        match ty.kind() {
                            ty::Ref(_, inner, _) if inner.is_str() => o.push(("str", s(String::from_utf8_lossy(&b).to_string()))),
                            _ => o.push(("bytes", bytes(&b))),
                        }
                    }
                }
                ConstValue::ZeroSized => { o.push(("zst", J::B(true))) }
                _ => {
                    let t = with_no_trimmed_paths!(format!("{}", Const::Val(v, ty)));
                    o.push(("val", s(t)))
                }
            }
        } else {
            o.push(("sym", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        }
        J::O(o)
    }
    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(c))]),
            _ => J::O(vec![("rt", J::B(true))]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.cx.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.op(o), s(format!("{n}"))]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), s(match k { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shared", _ => "fake" }), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path(tcx, *d))]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), s(format!("{k:?}")), self.place(p)]),
            Rvalue::Cast(k, o, t) => { let from = o.ty(&self.body.local_decls, tcx); let f = self.cx.ty(from); let t = self.cx.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), self.op(o), s(t), s(f)]) }
            Rvalue::BinaryOp(b, x) => J::A(vec![s("bin"), s(format!("{b:?}")), self.op(&x.0), self.op(&x.1)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{u:?}")), self.op(o)]),
            Rvalue::Discriminant(p) => { let t = p.ty(&self.body.local_decls, tcx).ty; let t = self.cx.ty(t); J::A(vec![s("discr"), self.place(p), s(t)]) }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => J::O(vec![("k", s("array"))]),
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, vi, _, _, f) => {
                        let def = tcx.adt_def(*d); self.cx.adt(def);
                        let v = def.variant(*vi);
                        let fs: Vec<J> = v.fields.iter().map(|f| s(f.name.to_string())).collect();
                        J::O(vec![("k", s("adt")), ("adt", s(path(tcx, *d))), ("variant", s(v.name.to_string())), ("enum", J::B(def.is_enum())), ("fields", J::A(fs)),
                            ("union", f.map_or(J::Null, |x| J::I(x.as_usize() as i128)))])
                    }
                    AggregateKind::Closure(d, _) => J::O(vec![("k", s("closure")), ("id", s(id(tcx, *d)))]),
                    _ => J::O(vec![("k", s("other"))]),
                };
                J::A(vec![s("agg"), k, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("c", self.place(p))])]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.op(o)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::O(vec![("c", self.place(p))])]),
        }
    }
    fn stmt(&mut self, st: &Statement<'tcx>) -> Option<J> {
        let sp = self.cx.span(st.source_info.span);
        Some(match &st.kind {
            StatementKind::Assign(b) => J::A(vec![s("="), self.place(&b.0), self.rv(&b.1), sp]),
            StatementKind::SetDiscriminant { place, variant_index } => {
                let t = place.ty(&self.body.local_decls, self.cx.tcx).ty;
                let n = t.ty_adt_def().map(|d| d.variant(*variant_index).name.to_string()).unwrap_or_default();
                J::A(vec![s("setd"), self.place(place), s(n), sp])
            }
            StatementKind::StorageLive(l) => J::A(vec![s("live"), J::I(l.as_usize() as i128)]),
            StatementKind::StorageDead(l) => J::A(vec![s("dead"), J::I(l.as_usize() as i128)]),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    J::A(vec![s("copynonoverlapping"), self.op(&c.src), self.op(&c.dst), self.op(&c.count), sp])
                }
                _ => return None,
            },
            _ => return None,
        })
    }
    fn term(&mut self, t: &Terminator<'tcx>) -> J {
        let sp = self.cx.span(t.source_info.span);
        let tcx = self.cx.tcx;
        let bbj = |b: BasicBlock| J::I(b.as_usize() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbj(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&self.body.local_decls, tcx);
                let tn = self.cx.ty(ty);
                let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![s(format!("{v}")), bbj(b)])).collect();
                J::A(vec![s("switch"), self.op(discr), s(tn), J::A(v), bbj(targets.otherwise()), sp])
            }
            TerminatorKind::Return => J::A(vec![s("return"), sp]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(&self.body.local_decls, tcx).ty;
                let t = self.cx.ty(t);
                J::A(vec![s("drop"), self.place(place), s(t), bbj(*target), sp])
            }
            TerminatorKind::Call { func, args, destination, target, call_source, .. } => {
                let f = self.op(func);
                let a: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&self.body.local_decls, tcx); s(self.cx.ty(t)) }).collect();
                let dt = destination.ty(&self.body.local_decls, tcx).ty;
                let dt = self.cx.ty(dt);
                let d = self.place(destination);
                J::A(vec![s("call"), f, J::A(a), d, target.map_or(J::Null, bbj), sp, J::A(at), s(dt), s(format!("{call_source:?}"))])
            }
            TerminatorKind::TailCall { .. } => J::A(vec![s("tailcall"), sp]),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.op(len), self.op(index)]),
                    AssertKind::Overflow(b, x, y) => J::A(vec![s("overflow"), s(format!("{b:?}")), self.op(x), self.op(y)]),
                    AssertKind::OverflowNeg(x) => J::A(vec![s("overflowneg"), self.op(x)]),
                    AssertKind::DivisionByZero(x) => J::A(vec![s("div0"), self.op(x)]),
                    AssertKind::RemainderByZero(x) => J::A(vec![s("rem0"), self.op(x)]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("assert"), self.op(cond), J::B(*expected), m, bbj(*target), sp])
            }
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbj(*real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbj(*real_target)]),
            _ => J::A(vec![s("other")]),
        }
    }
    fn dump(&mut self) -> (J, J, J) {
        let decls: Vec<J> = self.body.local_decls.iter().map(|d| s(self.cx.ty(d.ty))).collect();
        let mut dbg = BTreeMap::new();
        for v in &self.body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { dbg.insert(format!("{}", p.local.as_usize()), s(v.name.to_string())); }
                else { let pl = self.place(p); let mut o = String::new(); pl.w(&mut o); dbg.insert(o, s(v.name.to_string())); }
            }
        }
        let blocks: Vec<J> = self.body.basic_blocks.iter().map(|b| {
            if b.is_cleanup { return J::Null }
            let st: Vec<J> = b.statements.iter().filter_map(|x| self.stmt(x)).collect();
            let t = self.term(b.terminator());
            J::A(vec![J::A(st), t])
        }).collect();
        (J::A(decls), J::M(dbg), J::A(blocks))
    }
}

fn bytes(b: &[u8]) -> J { s(b.iter().map(|c| *c as char).collect::<String>()) }


struct Cb { out: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, types: BTreeMap::new(), adts: BTreeMap::new(), krate };
        let mut bodies = BTreeMap::new();
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().map(|x| x.to_def_id()).collect();
        keys.sort_by_key(|d| id(tcx, *d));
        for d in keys {
            let k = tcx.def_kind(d);
            let body: &Body<'_> = match k {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => tcx.mir_for_ctfe(d),
                _ => continue,
            };
            let did = id(tcx, d);
            let mut list: Vec<(String, &Body<'_>)> = vec![(did.clone(), body)];
            if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const{..} | DefKind::Static{..}) {
                for (i, p) in tcx.promoted_mir(d).iter_enumerated() { list.push((format!("{did}#p{}", i.as_usize()), p)) }
            }
            for (n, b) in list {
                let env = TypingEnv::post_analysis(tcx, d);
                let (locals, dbg, blocks) = { let mut bx = Bx { cx: &mut cx, body: b, env, owner: d }; let _ = bx.owner; bx.dump() };
                let mut o = vec![("name", s(path(tcx, d))), ("kind", s(format!("{k:?}"))), ("promoted", if n != did { J::B(true) } else { J::Null }),
                    ("file", s(cx.file(b.span))), ("span", cx.span(b.span)),
                    ("argc", J::I(b.arg_count as i128)), ("locals", locals), ("debug", dbg), ("blocks", blocks)];
                if n == did && matches!(k, DefKind::Fn | DefKind::AssocFn) {
                    let sig = tcx.fn_sig(d).skip_binder();
                    o.push(("abi", s(format!("{:?}", sig.skip_binder().abi()))));
                    o.push(("unsafe", J::B(sig.skip_binder().safety().is_unsafe())));
                    o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
                    o.push(("no_mangle", J::B(tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE))));
                }
                if let Some(ai) = tcx.opt_associated_item(d) {
                    if let Some(ti) = ai.trait_item_def_id() { o.push(("trait_item", s(path(tcx, ti)))) }
                    let c = tcx.parent(d);
                    if let DefKind::Impl { .. } = tcx.def_kind(c) {
                        let st = tcx.type_of(c).instantiate_identity().skip_norm_wip();
                        let st = cx.ty(st);
                        o.push(("impl_self", s(st)));
                        if let Some(tr) = tcx.impl_opt_trait_ref(c) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            let ta: Vec<J> = tr.args.types().map(|t| s(cx.ty(t))).collect();
                            o.push(("impl_trait", s(path(tcx, tr.def_id)))); o.push(("impl_trait_args", J::A(ta)));
                        }
                        o.push(("impl_derived", J::B(tcx.is_automatically_derived(c) || b.span.from_expansion())));
                    } else { o.push(("in_trait", s(path(tcx, c)))) }
                }
                if k == DefKind::Closure { o.push(("parent", s(id(tcx, tcx.parent(d))))) ;
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip(); let t = cx.ty(t); o.push(("closure_ty", s(t)));
                    if let Some(ld) = d.as_local() { let caps: Vec<J> = tcx.closure_captures(ld).iter().map(|c| s(c.to_symbol().to_string())).collect(); o.push(("captures", J::A(caps))) } }
                bodies.insert(n, J::O(o));
            }
        }
        let mut out = String::new();
        J::O(vec![("crate", s(cx.krate.clone())), ("types", J::M(cx.types.clone())), ("adts", J::M(cx.adts.clone())), ("bodies", J::M(bodies))]).w(&mut out);
        std::fs::write(&self.out, out).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let dir = std::env::var("CRES_FACTS_DIR").ok();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let name = get("--crate-name").unwrap_or_default();
    let is_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    if dir.is_none() || name.is_empty() || name.starts_with("build_script") || args.iter().any(|a| a == "--print" || a.starts_with("--print=")) {
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain));

    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir=no".into());
    let out = format!("{}/{}{}.json", dir.unwrap(), if is_bin { "bin_" } else { "" }, name);
    rustc_driver::catch_with_exit_code(|| { let mut cb = Cb { out: out.clone() }; rustc_driver::compiler_entrypoint(&args, &mut cb) })
}
