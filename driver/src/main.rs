// MIR/type dump driver: runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`
// and writes one JSON file per workspace crate with the resolved, drop-elaborated MIR.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, interpret::{GlobalAlloc, Scalar}, ConstValue};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_span::Span;

mod json;
use json::J;

struct Cb;

fn s<T: ToString>(x: T) -> J { J::S(x.to_string()) }
fn n(x: i128) -> J { J::N(x) }

struct D<'tcx> { tcx: TyCtxt<'tcx> }

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        // closures: parent path + {closure#n}
        let tcx = self.tcx;
        if tcx.is_closure_like(d) {
            let p = tcx.parent(d);
            let dis = tcx.def_key(d).disambiguated_data.disambiguator;
            return format!("{}::{{closure#{}}}", self.path(p), dis);
        }
        with_no_trimmed_paths!(tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        // report the outermost expansion site in user code
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", name, lo.line))
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>, depth: usize) -> J {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() { v.push(self.ty_d(t, depth)); }
            else if let Some(c) = g.as_const() { v.push(J::O(vec![("k", s("constarg")), ("v", s(format!("{}", c)))])); }
        }
        J::A(v)
    }
    fn ty(&self, t: Ty<'tcx>) -> J { self.ty_d(t, 0) }
    fn ty_d(&self, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 12 { return J::O(vec![("k", s("deep"))]); }
        let d = depth + 1;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never =>
                J::O(vec![("k", s("prim")), ("n", s(format!("{}", t)))]),
            ty::Adt(def, a) => J::O(vec![("k", s("adt")), ("n", s(self.path(def.did()))), ("a", self.args(a, d))]),
            ty::Array(e, c) => J::O(vec![("k", s("array")), ("e", self.ty_d(*e, d)),
                ("len", match c.try_to_target_usize(self.tcx) { Some(v) => n(v as i128), None => J::Null })]),
            ty::Slice(e) => J::O(vec![("k", s("slice")), ("e", self.ty_d(*e, d))]),
            ty::RawPtr(e, m) => J::O(vec![("k", s("ptr")), ("e", self.ty_d(*e, d)), ("m", J::B(m.is_mut()))]),
            ty::Ref(_, e, m) => J::O(vec![("k", s("ref")), ("e", self.ty_d(*e, d)), ("m", J::B(m.is_mut()))]),
            ty::Tuple(ts) => J::O(vec![("k", s("tuple")), ("a", J::A(ts.iter().map(|t| self.ty_d(t, d)).collect()))]),
            ty::FnDef(id, a) => { let id: DefId = (*id).into(); J::O(vec![("k", s("fndef")), ("n", s(self.path(id))), ("a", self.args(a.skip_binder(), d))]) },
            ty::Closure(id, _) => { let id: DefId = (*id).into(); J::O(vec![("k", s("closure")), ("n", s(self.path(id)))]) },
            ty::Dynamic(preds, _) => {
                let mut v = vec![];
                for p in preds.iter() {
                    match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(t) => { let id: DefId = t.def_id.into(); v.push(s(self.path(id))) },
                        ty::ExistentialPredicate::AutoTrait(t) => { let id: DefId = t.into(); v.push(s(self.path(id))) },
                        _ => {}
                    }
                }
                J::O(vec![("k", s("dyn")), ("t", J::A(v)), ("s", s(with_no_trimmed_paths!(format!("{}", t))))])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name))]),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr"))]),
            _ => J::O(vec![("k", s("other")), ("s", s(with_no_trimmed_paths!(format!("{}", t))))]),
        }
    }
    fn scalar(&self, sc: Scalar, t: Ty<'tcx>, depth: usize) -> J {
        match sc {
            Scalar::Int(i) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match t.kind() {
                    ty::Int(_) => {
                        let v = size.sign_extend(bits);
                        J::O(vec![("c", s("int")), ("v", n(v as i128))])
                    }
                    ty::Uint(_) => J::O(vec![("c", s("int")), ("v", n(bits as i128))]),
                    ty::Bool => J::O(vec![("c", s("bool")), ("v", J::B(bits != 0))]),
                    ty::Char => J::O(vec![("c", s("int")), ("v", n(bits as i128))]),
                    ty::Float(ty::FloatTy::F32) => J::O(vec![("c", s("f32")), ("bits", n(bits as i128)), ("v", s(format!("{:?}", f32::from_bits(bits as u32))))]),
                    ty::Float(ty::FloatTy::F64) => J::O(vec![("c", s("f64")), ("bits", n(bits as i128)), ("v", s(format!("{:?}", f64::from_bits(bits as u64))))]),
                    ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.destructure(ConstValue::Scalar(sc), t, depth),
                    _ => J::O(vec![("c", s("bits")), ("v", n(bits as i128))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                let pointee = match t.kind() { ty::Ref(_, e, _) => Some(*e), ty::RawPtr(e, _) => Some(*e), _ => None };
                match self.tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Memory(_)) => {
                        if let Some(e) = pointee {
                            return J::O(vec![("c", s("ref")), ("to", self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, e, depth + 1))]);
                        }
                        J::O(vec![("c", s("opaque")), ("v", s("ptr"))])
                    }
                    Some(GlobalAlloc::Static(d)) => J::O(vec![("c", s("static")), ("n", s(self.path(d)))]),
                    Some(GlobalAlloc::Function { instance }) => J::O(vec![("c", s("fnptr")), ("n", s(self.path(instance.def_id())))]),
                    _ => J::O(vec![("c", s("opaque")), ("v", s("ptr"))]),
                }
            }
        }
    }
    fn destructure(&self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 10 { return J::O(vec![("c", s("opaque"))]); }
        if let Some(dc) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
            let fields = dc.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
            return J::O(vec![("c", s("agg")), ("ty", self.ty(t)), ("variant", match dc.variant { Some(x) => n(x.as_u32() as i128), None => J::Null }), ("f", J::A(fields))]);
        }
        J::O(vec![("c", s("opaque")), ("v", s(format!("{:?}", t)))])
    }
    fn cval(&self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        match v {
            ConstValue::Scalar(sc) => self.scalar(sc, t, depth),
            ConstValue::ZeroSized => {
                match t.kind() {
                    ty::FnDef(..) => J::O(vec![("c", s("fn")), ("ty", self.ty(t))]),
                    ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.destructure(v, t, depth),
                    _ => J::O(vec![("c", s("zst")), ("ty", self.ty(t))]),
                }
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    return J::O(vec![("c", s("str")), ("v", s(String::from_utf8_lossy(b)))]);
                }
                J::O(vec![("c", s("opaque")), ("v", s("slice"))])
            }
            ConstValue::Indirect { alloc_id, offset } => {
                match t.kind() {
                    ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.destructure(v, t, depth),
                    ty::Ref(_, e, _) if e.is_str() => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            return J::O(vec![("c", s("str")), ("v", s(String::from_utf8_lossy(b)))]);
                        }
                        J::O(vec![("c", s("opaque")), ("v", s("str"))])
                    }
                    ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Char => {
                        // read the scalar from memory
                        if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                            let env = TypingEnv::fully_monomorphized();
                            if let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) {
                                let r = mir::interpret::alloc_range(offset, l.size);
                                if let Ok(sc) = a.inner().read_scalar(&self.tcx, r, false) {
                                    return self.scalar(sc, t, depth);
                                }
                            }
                        }
                        J::O(vec![("c", s("opaque"))])
                    }
                    _ => J::O(vec![("c", s("opaque")), ("v", s(format!("{:?}", t)))]),
                }
            }
        }
    }
    fn constant(&self, c: &mir::ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o = vec![("ty", self.ty(t))];
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() { o.push(("name", s(self.path(u.def)))); }
        }
        if let ty::FnDef(..) = t.kind() {
            o.push(("v", J::O(vec![("c", s("fn")), ("ty", self.ty(t))])));
            return J::O(o);
        }
        let v = match c.const_ {
            mir::Const::Val(v, t) => self.cval(v, t, 0),
            _ => {
                let generic = match c.const_ { mir::Const::Unevaluated(u, _) => ty::TypeVisitableExt::has_param(&u.args), mir::Const::Ty(_, c) => ty::TypeVisitableExt::has_param(&c), _ => false };
                if generic {
                    match c.const_ {
                        mir::Const::Unevaluated(u, _) if u.promoted.is_some() =>
                            J::O(vec![("c", s("promoted")), ("fn", s(self.path(u.def))), ("i", n(u.promoted.unwrap().as_u32() as i128))]),
                        _ => J::O(vec![("c", s("opaque")), ("v", s(with_no_trimmed_paths!(format!("{}", c.const_))))]),
                    }
                } else {
                    match c.const_.eval(self.tcx, env, c.span) {
                        Ok(v) => self.cval(v, t, 0),
                        Err(_) => J::O(vec![("c", s("opaque")), ("v", s(with_no_trimmed_paths!(format!("{}", c.const_))))]),
                    }
                }
            }
        };
        o.push(("v", v));
        J::O(o)
    }
    fn place(&self, p: &mir::Place<'tcx>, body: &mir::Body<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                mir::ProjectionElem::Deref => s("deref"),
                mir::ProjectionElem::PhantomDeref => s("deref"),
                mir::ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_u32());
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if (vi.as_usize()) < def.variants().len() {
                            let var = def.variant(vi);
                            if f.as_usize() < var.fields.len() { name = var.fields[f].name.to_string(); }
                        }
                    }
                    J::O(vec![("f", s(name)), ("i", n(f.as_u32() as i128))])
                }
                mir::ProjectionElem::Index(l) => J::O(vec![("idx", n(l.as_u32() as i128))]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, min_length } =>
                    J::O(vec![("cidx", n(offset as i128)), ("end", J::B(from_end)), ("min", n(min_length as i128))]),
                mir::ProjectionElem::Subslice { from, to, from_end } =>
                    J::O(vec![("sub", n(from as i128)), ("to", n(to as i128)), ("end", J::B(from_end))]),
                mir::ProjectionElem::Downcast(nm, v) =>
                    J::O(vec![("down", n(v.as_u32() as i128)), ("n", match nm { Some(x) => s(x), None => J::Null })]),
                _ => s("opaquecast"),
            };
            pr.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::O(vec![("l", n(p.local.as_u32() as i128)), ("p", J::A(pr))])
    }
    fn operand(&self, o: &mir::Operand<'tcx>, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::O(vec![("copy", self.place(p, body))]),
            mir::Operand::Move(p) => J::O(vec![("move", self.place(p, body))]),
            mir::Operand::Constant(c) => J::O(vec![("const", self.constant(c, env))]),
            mir::Operand::RuntimeChecks(_) => J::O(vec![("const", J::O(vec![("ty", J::O(vec![("k", s("prim")), ("n", s("bool"))])), ("v", J::O(vec![("c", s("bool")), ("v", J::B(false))]))]))]),
        }
    }
    fn rvalue(&self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let op = |o: &mir::Operand<'tcx>| self.operand(o, body, env);
        match r {
            mir::Rvalue::Use(o, _) => J::O(vec![("r", s("use")), ("o", op(o))]),
            mir::Rvalue::Repeat(o, c) => J::O(vec![("r", s("repeat")), ("o", op(o)), ("n", match c.try_to_target_usize(self.tcx) { Some(v) => n(v as i128), None => J::Null })]),
            mir::Rvalue::Ref(_, k, p) => J::O(vec![("r", s("ref")), ("m", J::B(matches!(k, mir::BorrowKind::Mut { .. }))), ("p", self.place(p, body))]),
            mir::Rvalue::Reborrow(_, m, p) => J::O(vec![("r", s("ref")), ("m", J::B(m.is_mut())), ("reb", J::B(true)), ("p", self.place(p, body))]),
            mir::Rvalue::RawPtr(_, p) => J::O(vec![("r", s("rawptr")), ("p", self.place(p, body))]),
            mir::Rvalue::ThreadLocalRef(d) => J::O(vec![("r", s("tls")), ("n", s(self.path(*d)))]),
            mir::Rvalue::Cast(k, o, t) => J::O(vec![("r", s("cast")), ("k", s(format!("{:?}", k))), ("o", op(o)), ("from", self.ty(o.ty(body, self.tcx))), ("ty", self.ty(*t))]),
            mir::Rvalue::BinaryOp(b, ab) => J::O(vec![("r", s("bin")), ("op", s(format!("{:?}", b))), ("a", op(&ab.0)), ("b", op(&ab.1)), ("ty", self.ty(ab.0.ty(body, self.tcx)))]),
            mir::Rvalue::UnaryOp(u, o) => J::O(vec![("r", s("un")), ("op", s(format!("{:?}", u))), ("o", op(o)), ("ty", self.ty(o.ty(body, self.tcx)))]),
            mir::Rvalue::Discriminant(p) => J::O(vec![("r", s("discr")), ("p", self.place(p, body)), ("ty", self.ty(p.ty(body, self.tcx).ty))]),
            mir::Rvalue::CopyForDeref(p) => J::O(vec![("r", s("use")), ("o", J::O(vec![("copy", self.place(p, body))]))]),
            mir::Rvalue::WrapUnsafeBinder(o, _) => J::O(vec![("r", s("use")), ("o", op(o))]),
            mir::Rvalue::Aggregate(k, ops) => {
                let ops_j = J::A(ops.iter().map(|o| op(o)).collect());
                let kind = match &**k {
                    mir::AggregateKind::Array(t) => J::O(vec![("k", s("array")), ("e", self.ty(*t))]),
                    mir::AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    mir::AggregateKind::Adt(d, v, a, _, act) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let fs = var.fields.iter().map(|f| s(f.name)).collect();
                        J::O(vec![("k", s("adt")), ("n", s(self.path(*d))), ("enum", J::B(def.is_enum())), ("v", n(v.as_u32() as i128)), ("vn", s(var.name)), ("f", J::A(fs)), ("a", self.args(a, 0)), ("act", match act { Some(x) => n(x.as_u32() as i128), None => J::Null })])
                    }
                    mir::AggregateKind::Closure(d, _) => J::O(vec![("k", s("closure")), ("n", s(self.path(*d)))]),
                    mir::AggregateKind::RawPtr(..) => J::O(vec![("k", s("rawptr"))]),
                    _ => J::O(vec![("k", s("other"))]),
                };
                J::O(vec![("r", s("agg")), ("k", kind), ("o", ops_j)])
            }
        }
    }
    fn callee(&self, f: &mir::Operand<'tcx>, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = f.ty(body, self.tcx);
        if let ty::FnDef(id, a) = t.kind() {
            let id: DefId = (*id).into();
            let a = a.skip_binder();
            let mut o = vec![("n", s(self.path(id))), ("a", self.args(a, 0))];
            let tcx = self.tcx;
            o.push(("local", J::B(id.is_local())));
            if let Some(ai) = tcx.opt_associated_item(id) {
                o.push(("m", s(ai.name())));
                if let Some(tr) = tcx.trait_of_assoc(id) {
                    o.push(("trait", s(self.path(tr))));
                    if let Some(st) = a.types().next() { o.push(("self", self.ty(st))); }
                }
            }
            let a2 = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, id, a2) {
                let k = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                o.push(("rk", s(k)));
                o.push(("res", s(self.path(inst.def_id()))));
                o.push(("rlocal", J::B(inst.def_id().is_local())));
                o.push(("ra", self.args(inst.args, 0)));
            }
            return J::O(o);
        }
        J::O(vec![("dynop", self.operand(f, body, env)), ("ty", self.ty(t))])
    }
    fn body(&self, d: DefId, body: &mir::Body<'tcx>, extra: &str) -> J {
        let tcx = self.tcx;
        let env = body.typing_env(tcx);
        let mut locals = vec![];
        for l in body.local_decls.iter() { locals.push(self.ty(l.ty)); }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name), self.place(p, body)]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    mir::StatementKind::Assign(b) => {
                        st.push(J::O(vec![("s", s("assign")), ("p", self.place(&b.0, body)), ("v", self.rvalue(&b.1, body, env)), ("sp", self.span(x.source_info.span))]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } =>
                        st.push(J::O(vec![("s", s("setdiscr")), ("p", self.place(place, body)), ("v", n(variant_index.as_u32() as i128))])),
                    mir::StatementKind::StorageDead(l) => st.push(J::O(vec![("s", s("dead")), ("l", n(l.as_u32() as i128))])),
                    mir::StatementKind::StorageLive(l) => st.push(J::O(vec![("s", s("live")), ("l", n(l.as_u32() as i128))])),
                    mir::StatementKind::Intrinsic(i) => {
                        st.push(J::O(vec![("s", s("intrinsic")), ("v", s(format!("{:?}", i)))]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let bbn = |b: mir::BasicBlock| n(b.as_u32() as i128);
            let uw = |u: &mir::UnwindAction| match u { mir::UnwindAction::Cleanup(b) => n(b.as_u32() as i128), _ => J::Null };
            let sp = ("sp", self.span(t.source_info.span));
            let tj = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => J::O(vec![("t", s("goto")), ("to", bbn(*target)), sp]),
                mir::TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("t", s("goto")), ("to", bbn(*real_target)), sp]),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("t", s("goto")), ("to", bbn(*real_target)), sp]),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let ty_ = discr.ty(body, tcx);
                    let vals = targets.iter().map(|(v, b)| {
                        let v = match ty_.kind() {
                            ty::Int(it) => { let w = it.bit_width().unwrap_or(64); let sh = 128 - w; (((v as i128) << sh) >> sh) as i128 }
                            _ => v as i128,
                        };
                        J::A(vec![n(v), bbn(b)])
                    }).collect();
                    J::O(vec![("t", s("switch")), ("d", self.operand(discr, body, env)), ("ty", self.ty(ty_)), ("v", J::A(vals)), ("o", bbn(targets.otherwise())), sp])
                }
                mir::TerminatorKind::Return => J::O(vec![("t", s("return")), sp]),
                mir::TerminatorKind::Unreachable => J::O(vec![("t", s("unreachable")), sp]),
                mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => J::O(vec![("t", s("resume")), sp]),
                mir::TerminatorKind::Drop { place, target, unwind, .. } =>
                    J::O(vec![("t", s("drop")), ("p", self.place(place, body)), ("ty", self.ty(place.ty(body, tcx).ty)), ("to", bbn(*target)), ("uw", uw(unwind)), sp]),
                mir::TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    let at = args.iter().map(|x| self.ty(x.node.ty(body, tcx))).collect();
                    J::O(vec![("t", s("call")), ("f", self.callee(func, body, env)), ("a", J::A(a)), ("at", J::A(at)), ("d", self.place(destination, body)),
                        ("dty", self.ty(destination.ty(body, tcx).ty)),
                        ("to", match target { Some(b) => bbn(*b), None => J::Null }), ("uw", uw(unwind)), sp])
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, body, env), self.operand(index, body, env)]),
                        mir::AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![self.operand(x, body, env), self.operand(y, body, env)]),
                        mir::AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(x, body, env)]),
                        mir::AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.operand(x, body, env)]),
                        mir::AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.operand(x, body, env)]),
                        _ => ("other".into(), vec![]),
                    };
                    let ty0 = match &**msg { mir::AssertKind::Overflow(_, x, _) => self.ty(x.ty(body, tcx)), mir::AssertKind::OverflowNeg(x) => self.ty(x.ty(body, tcx)), _ => J::Null };
                    J::O(vec![("t", s("assert")), ("c", self.operand(cond, body, env)), ("e", J::B(*expected)), ("k", s(k)), ("o", J::A(ops)), ("ty", ty0), ("to", bbn(*target)), ("uw", uw(unwind)), sp])
                }
                other => J::O(vec![("t", s("other")), ("v", s(format!("{:?}", other))), sp]),
            };
            blocks.push(J::O(vec![("c", J::B(bb.is_cleanup)), ("s", J::A(st)), ("t", tj)]));
        }
        let mut o = vec![
            ("path", s(format!("{}{}", self.path(d), extra))),
            ("span", self.span(body.span)),
            ("argc", n(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ];
        if extra.is_empty() {
            o.push(("kind", s(format!("{:?}", tcx.def_kind(d)))));
            o.push(("closure", J::B(tcx.is_closure_like(d))));
            if let Some(ai) = tcx.opt_associated_item(d) {
                o.push(("name", s(ai.name())));
                let parent = tcx.parent(d);
                match tcx.def_kind(parent) {
                    DefKind::Impl { of_trait } => {
                        o.push(("selfty", self.ty(tcx.type_of(parent).instantiate_identity().skip_norm_wip())));
                        if of_trait {
                            let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                            let trid: DefId = tr.def_id.into();
                            o.push(("trait", s(self.path(trid))));
                            o.push(("trait_args", self.args(tr.args, 0)));
                        }
                    }
                    DefKind::Trait => { o.push(("in_trait", s(self.path(parent)))); }
                    _ => {}
                }
            } else if !tcx.is_closure_like(d) {
                if let Some(nm) = tcx.opt_item_name(d) { o.push(("name", s(nm))); }
            }
            o.push(("pub", J::B(tcx.visibility(if tcx.is_closure_like(d) { tcx.typeck_root_def_id(d) } else { d }).is_public())));
            let gens = tcx.generics_of(d);
            let mut gp = vec![];
            for i in 0..gens.count() { let p = gens.param_at(i, tcx); if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { gp.push(s(p.name)); } }
            o.push(("gparams", J::A(gp)));
        }
        J::O(o)
    }
}

struct UnsafeV<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(Span, LocalDefId)>, cur: LocalDefId }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.out.push((b.span, self.tcx.hir_enclosing_body_owner(b.hir_id)));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let d = D { tcx };
    let mut bodies = vec![];
    let mut statics = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let b = tcx.optimized_mir(did);
                bodies.push(d.body(did, b, ""));
                for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                    bodies.push(d.body(did, p, &format!("::{{promoted#{}}}", i.as_u32())));
                }
            }
            DefKind::Static { mutability, .. } => {
                statics.push(J::O(vec![("n", s(d.path(did))), ("m", J::B(mutability.is_mut())), ("ty", d.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip())), ("sp", d.span(tcx.def_span(did)))]));
            }
            _ => {}
        }
    }
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut consts = vec![];
    let mut unsafe_items = vec![];
    let mut reexports = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let fs = v.fields.iter().map(|f| J::O(vec![
                        ("n", s(f.name)),
                        ("ty", d.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                        ("pub", J::B(f.vis.is_public())),
                    ])).collect();
                    let dv = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    vs.push(J::O(vec![("n", s(v.name)), ("f", J::A(fs)), ("d", n(dv))]));
                }
                let gens = tcx.generics_of(did);
                let mut gp = vec![];
                for i in 0..gens.count() { let p = gens.param_at(i, tcx); if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { gp.push(s(p.name)); } }
                adts.push(J::O(vec![("gparams", J::A(gp)), ("n", s(d.path(did))), ("enum", J::B(def.is_enum())), ("union", J::B(def.is_union())), ("v", J::A(vs)), ("sp", d.span(tcx.def_span(did)))]));
            }
            DefKind::Impl { of_trait } => {
                let mut o = vec![("self", d.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip())), ("sp", d.span(tcx.def_span(did)))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let trid: DefId = tr.def_id.into();
                    o.push(("trait", s(d.path(trid))));
                    o.push(("trait_args", d.args(tr.args, 0)));
                    let hdr = tcx.impl_trait_header(did);
                    o.push(("unsafe", J::B(hdr.safety.is_unsafe())));
                    o.push(("negative", J::B(format!("{:?}", hdr.polarity).contains("Negative"))));
                }
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    items.push(J::O(vec![("n", s(it.name())), ("p", s(d.path(it.def_id)))]));
                }
                o.push(("items", J::A(items)));
                impls.push(J::O(o));
            }
            DefKind::Trait => {
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    items.push(J::O(vec![("n", s(it.name())), ("p", s(d.path(it.def_id))), ("default", J::B(it.defaultness(tcx).has_value()))]));
                }
                let sup = tcx.explicit_super_clauses_of(did);
                let mut sp = vec![];
                for (c, _) in sp_iter(tcx, sup) { sp.push(s(with_no_trimmed_paths!(format!("{}", c)))); }
                traits.push(J::O(vec![("n", s(d.path(did))), ("items", J::A(items)), ("super", J::A(sp))]));
            }
            DefKind::Const { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if let Ok(v) = tcx.const_eval_poly(did) {
                    consts.push(J::O(vec![("n", s(d.path(did))), ("ty", d.ty(t)), ("v", d.cval(v, t, 0)), ("sp", d.span(tcx.def_span(did)))]));
                }
            }
            DefKind::Fn | DefKind::AssocFn => {
                if tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
                    unsafe_items.push(J::O(vec![("k", s("fn")), ("n", s(d.path(did))), ("sp", d.span(tcx.def_span(did)))]));
                }
            }
            DefKind::Use => {
            }
            DefKind::Mod => {
                for c in tcx.module_children_local(id) {
                    if c.vis.is_public() && !c.reexport_chain.is_empty() {
                        if let Some(r) = c.res.opt_def_id() {
                            reexports.push(J::O(vec![("m", s(d.path(did))), ("n", s(c.ident.name)), ("to", s(d.path(r)))]));
                        }
                    }
                }
            }
            DefKind::ForeignMod => unsafe_items.push(J::O(vec![("k", s("extern")), ("n", s("extern block")), ("sp", d.span(tcx.def_span(did)))])),
            _ => {}
        }
    }
    let mut uv = UnsafeV { tcx, out: vec![], cur: rustc_hir::def_id::CRATE_DEF_ID };
    tcx.hir_walk_toplevel_module(&mut uv);
    let _ = uv.cur;
    for (sp, o) in uv.out.iter() {
        unsafe_items.push(J::O(vec![("k", s("block")), ("n", s(d.path(o.to_def_id()))), ("sp", d.span(*sp))]));
    }
    let mut files = vec![];
    for f in tcx.sess.source_map().files().iter() {
        let nm = format!("{}", f.name.prefer_local_unconditionally());
        if f.cnum == rustc_hir::def_id::LOCAL_CRATE && !nm.starts_with('<') { files.push(s(nm)); }
    }
    let j = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
        ("files", J::A(files)),
        ("bodies", J::A(bodies)), ("statics", J::A(statics)), ("adts", J::A(adts)), ("impls", J::A(impls)),
        ("traits", J::A(traits)), ("consts", J::A(consts)), ("unsafe", J::A(unsafe_items)), ("reexports", J::A(reexports)),
    ]);
    let mut o = String::new();
    j.write(&mut o);
    let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let _ = std::fs::create_dir_all(out);
    std::fs::write(format!("{}/{}.json", out, name), o).expect("write dump");
}

fn sp_iter<'tcx>(_tcx: TyCtxt<'tcx>, sup: ty::EarlyBinder<'tcx, &'tcx [(ty::Clause<'tcx>, Span)]>) -> Vec<(ty::Clause<'tcx>, Span)> {
    sup.skip_binder().iter().cloned().collect()
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Ok(out) = std::env::var("MIRDUMP_OUT") { dump(tcx, &out); }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // argv: [self, real-rustc, args...] when used as a wrapper
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let is_probe = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    if !is_probe {
        for a in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Cdebug-assertions=off", "-Coverflow-checks=on", "-Awarnings"] { args.push(a.to_string()); }
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
