// MIR fact extractor: a rustc driver injected with RUSTC_WORKSPACE_WRAPPER.
// For every workspace library crate it writes <MIRFACTS_DIR>/<crate>.json with the type-checked,
// callee-resolved MIR (as built, before drop elaboration and before the coroutine transform) of
// every function, closure and async body.  It decides nothing; the rules live in ../analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, J>,
    env: TypingEnv<'tcx>,
}

fn hash(tcx: TyCtxt<'_>, d: DefId) -> String {
    let h = tcx.def_path_hash(d);
    format!("{:?}", h.0).replace("Fingerprint", "")
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() {
        // impl paths start with '<': leave those, the crate's own name is added to plain paths
        if p.starts_with('<') {
            p
        } else {
            format!("{}::{}", tcx.crate_name(LOCAL_CRATE), p)
        }
    } else {
        p
    }
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.tyid(t) as i128)
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(J::Null);
        self.tmap.insert(t, idx);
        let s = with_no_trimmed_paths!(format!("{}", t));
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(s))];
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                o.push(("k", J::s("prim")))
            }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::S(path(tcx, def.did()))));
                o.push(("hash", J::S(hash(tcx, def.did()))));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
                self.adt(*def);
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("ty", i));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("ty", i));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                let i = self.ty(*e);
                o.push(("ty", i));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.push(("len", J::I(n as i128)));
                }
            }
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                let i = self.ty(*e);
                o.push(("ty", i));
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("hash", J::S(hash(tcx, *d))));
                let _ = args;
            }
            ty::Coroutine(d, _) => {
                o.push(("k", J::s("coroutine")));
                o.push(("hash", J::S(hash(tcx, *d))));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                let args = args.skip_binder();
                let f = self.fninfo(*d, args);
                o.push(("fn", f));
            }
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::s(p.name.as_str())));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[idx] = J::O(o);
        idx
    }
    fn generics(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let g = tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            if let ty::GenericParamDefKind::Type { .. } = p.kind {
                v.push(J::s(p.name.as_str()));
            }
        }
        J::A(v)
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&def.did()) {
            return;
        }
        self.adts.insert(def.did(), J::Null);
        let tcx = self.tcx;
        let mut vs = vec![];
        for (i, v) in def.variants().iter_enumerated() {
            let mut o = vec![("name", J::s(v.name.as_str()))];
            let fs: Vec<J> = v.fields.iter().map(|f| {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(t);
                J::A(vec![J::s(f.name.as_str()), ti])
            }).collect();
            o.push(("fields", J::A(fs)));
            if def.is_enum() {
                let d = def.discriminant_for_variant(tcx, i);
                o.push(("discr", J::S(format!("{}", d.val))));
            }
            vs.push(J::O(o));
        }
        let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let o = J::O(vec![
            ("path", J::S(path(tcx, def.did()))),
            ("hash", J::S(hash(tcx, def.did()))),
            ("kind", J::s(k)),
            ("local", J::B(def.did().is_local())),
            ("generics", self.generics(def.did())),
            ("variants", J::A(vs)),
        ]);
        self.adts.insert(def.did(), o);
    }
    fn fninfo(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", J::S(path(tcx, d))),
            ("hash", J::S(hash(tcx, d))),
            ("name", J::s(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
            ("crate", J::s(tcx.crate_name(d.krate).as_str())),
        ];
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(a)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(path(tcx, t))));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let sti = self.ty(st);
            o.push(("impl_self", sti));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                o.push(("impl_trait", J::S(path(tcx, tr.skip_binder().def_id))));
            }
        }
        // resolve trait methods to their impl when the types are known here
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, args) {
            let rd = inst.def_id();
            if rd != d {
                o.push(("rhash", J::S(hash(tcx, rd))));
                o.push(("rpath", J::S(path(tcx, rd))));
                o.push(("rcrate", J::s(tcx.crate_name(rd.krate).as_str())));
                let ra: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
                o.push(("rargs", J::A(ra)));
            }
            if let ty::InstanceKind::Virtual(..) = inst.def {
                o.push(("virtual", J::B(true)));
            }
        }
        J::O(o)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut a = vec![J::s("f"), J::I(f.as_usize() as i128)];
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                        if vi.as_usize() < def.variants().len() {
                            if let Some(fd) = def.variant(vi).fields.iter().nth(f.as_usize()) {
                                a.push(J::s(fd.name.as_str()));
                            }
                        }
                    }
                    J::A(a)
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    J::s("ss"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(_, vi) => {
                    J::A(vec![J::s("d"), J::I(vi.as_usize() as i128)])
                }
                _ => J::A(vec![J::s("other")]),
            };
            pt = pt.projection_ty(tcx, e);
            v.push(j);
        }
        J::A(v)
    }
    fn scalar_bytes(&self, b: &[u8]) -> J {
        J::A(b.iter().map(|x| J::I(*x as i128)).collect())
    }
    fn konst(&mut self, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = vec![("k", J::s("const")), ("ty", ti)];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let f = self.fninfo(*d, args);
            o.push(("fn", f));
            return J::O(o);
        }
        if let Const::Unevaluated(uv, _) = c {
            if let Some(p) = uv.promoted {
                o.push(("promoted", J::I(p.as_usize() as i128)));
                return J::O(o);
            }
            o.push(("cpath", J::S(path(tcx, uv.def))));
        }
        let val = match c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => v,
            Err(_) => {
                o.push(("opaque", J::S(format!("{:?}", c))));
                return J::O(o);
            }
        };
        match val {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                let v: i128 = if matches!(t.kind(), ty::Int(_)) {
                    size.sign_extend(bits)
                } else {
                    bits as i128
                };
                o.push(("int", J::S(format!("{}", v))));
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let aid = p.provenance.alloc_id();
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Memory(alloc) => {
                        let a = alloc.inner();
                        let off = p.prov_and_relative_offset().1.bytes_usize();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..a.len());
                        if a.provenance().ptrs().is_empty() {
                            let j = self.scalar_bytes(b);
                            o.push(("bytes", j));
                        } else {
                            o.push(("opaque", J::s("ptr-with-relocs")));
                        }
                    }
                    GlobalAlloc::Static(d) => {
                        o.push(("static", J::S(path(tcx, d))));
                        o.push(("shash", J::S(hash(tcx, d))));
                    }
                    _ => o.push(("opaque", J::s("ptr"))),
                }
            }
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Slice { .. } => {
                if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                    let j = self.scalar_bytes(b);
                    o.push(("bytes", j));
                } else {
                    o.push(("opaque", J::s("slice")));
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                o.push(("opaque", J::S(format!("indirect"))));
                if let GlobalAlloc::Memory(alloc) = tcx.global_alloc(alloc_id) {
                    let a = alloc.inner();
                    if a.provenance().ptrs().is_empty() {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                            offset.bytes_usize()..a.len());
                        let j = self.scalar_bytes(b);
                        o.push(("raw", j));
                    }
                }
            }
        }
        J::O(o)
    }
    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", J::s("copy")), ("p", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("k", J::s("move")), ("p", self.place(body, p))]),
            Operand::Constant(c) => self.konst(&c.const_),
            _ => J::O(vec![("k", J::s("rtcheck"))]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("r", J::s("use")), ("o", self.operand(body, o))]),
            Rvalue::Repeat(o, n) => J::O(vec![
                ("r", J::s("repeat")),
                ("o", self.operand(body, o)),
                ("n", n.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null)),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", J::s("ref")),
                ("m", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![
                ("r", J::s("ref")),
                ("m", J::B(true)),
                ("p", self.place(body, p)),
            ]),
            Rvalue::Reborrow(_, _, p) => J::O(vec![
                ("r", J::s("reborrow")),
                ("p", self.place(body, p)),
            ]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("r", J::s("cast")),
                ("c", J::S(format!("{:?}", k))),
                ("o", self.operand(body, o)),
                ("ty", self.ty(*t)),
                ("from", {
                    let ft = o.ty(body, tcx);
                    self.ty(ft)
                }),
            ]),
            Rvalue::BinaryOp(op, ab) => J::O(vec![
                ("r", J::s("bin")),
                ("op", J::S(format!("{:?}", op))),
                ("a", self.operand(body, &ab.0)),
                ("b", self.operand(body, &ab.1)),
                ("aty", {
                    let ft = ab.0.ty(body, tcx);
                    self.ty(ft)
                }),
            ]),
            Rvalue::UnaryOp(op, a) => J::O(vec![
                ("r", J::s("un")),
                ("op", J::S(format!("{:?}", op))),
                ("a", self.operand(body, a)),
            ]),
            Rvalue::Discriminant(p) => {
                J::O(vec![("r", J::s("discr")), ("p", self.place(body, p)), ("ty", {
                    let ft = p.ty(body, tcx).ty;
                    self.ty(ft)
                })])
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("r", J::s("use")),
                ("o", J::O(vec![("k", J::s("copy")), ("p", self.place(body, p))])),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("r", J::s("agg"))];
                match &**k {
                    AggregateKind::Tuple => o.push(("a", J::s("tuple"))),
                    AggregateKind::Array(_) => o.push(("a", J::s("array"))),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        o.push(("a", J::s("adt")));
                        o.push(("v", J::I(vi.as_usize() as i128)));
                        let t = tcx.type_of(*d).instantiate(tcx, args).skip_norm_wip();
                        let ti = self.ty(t);
                        o.push(("ty", ti));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("a", J::s("closure")));
                        o.push(("hash", J::S(hash(tcx, *d))));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        o.push(("a", J::s("coroutine")));
                        o.push(("hash", J::S(hash(tcx, *d))));
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        o.push(("a", J::s("closure")));
                        o.push(("hash", J::S(hash(tcx, *d))));
                    }
                    AggregateKind::RawPtr(..) => o.push(("a", J::s("rawptr"))),
                }
                let v: Vec<J> = ops.iter().map(|x| self.operand(body, x)).collect();
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            other => J::O(vec![("r", J::s("other")), ("s", J::S(format!("{:?}", other)))]),
        }
    }
    fn line(&self, s: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let loc = sm.lookup_char_pos(s.lo());
        J::I(loc.line as i128)
    }
    fn body(&mut self, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names: Vec<J> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::I(p.local.as_usize() as i128), J::s(v.name.as_str())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, &b.1);
                        st.push(J::A(vec![J::s("="), p, r, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::A(vec![J::s("sd"), p, J::I(variant_index.as_usize() as i128), ln]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![J::s("dead"), J::I(l.as_usize() as i128)]))
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::A(vec![J::s("live"), J::I(l.as_usize() as i128)]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let bi = |b: BasicBlock| J::I(b.as_usize() as i128);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => J::I(b.as_usize() as i128),
                _ => J::Null,
            };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("t", J::s("goto")), ("to", bi(*target))]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("t", J::s("goto")), ("to", bi(*real_target))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("t", J::s("goto")), ("to", bi(*real_target))])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, tcx);
                    let mut v = vec![];
                    for (val, b) in targets.iter() {
                        let vv: i128 = if let ty::Int(_) = dt.kind() {
                            let sz = match dt.kind() {
                                ty::Int(i) => i.bit_width().unwrap_or(64),
                                _ => 64,
                            };
                            let sh = 128 - sz as u32;
                            ((val as i128) << sh) >> sh
                        } else {
                            val as i128
                        };
                        v.push(J::A(vec![J::S(format!("{}", vv)), bi(b)]));
                    }
                    J::O(vec![
                        ("t", J::s("switch")),
                        ("o", self.operand(body, discr)),
                        ("ty", self.ty(dt)),
                        ("cases", J::A(v)),
                        ("else", bi(targets.otherwise())),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("t", J::s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("t", J::s("unreachable"))]),
                TerminatorKind::UnwindResume => J::O(vec![("t", J::s("resume"))]),
                TerminatorKind::UnwindTerminate(_) => J::O(vec![("t", J::s("abort"))]),
                TerminatorKind::CoroutineDrop => J::O(vec![("t", J::s("cdrop"))]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    J::O(vec![
                    ("t", J::s("drop")),
                    ("p", self.place(body, place)),
                    ("ty", self.ty(pt)),
                    ("to", bi(*target)),
                    ("uw", uw(unwind)),
                ])},
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let dt = destination.ty(body, tcx).ty;
                    let a: Vec<J> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                    let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(body, tcx); self.ty(t) }).collect();
                    J::O(vec![
                        ("t", J::s("call")),
                        ("f", self.operand(body, func)),
                        ("args", J::A(a)),
                        ("atys", J::A(at)),
                        ("dest", self.place(body, destination)),
                        ("dty", self.ty(dt)),
                        ("to", target.map(|b| bi(b)).unwrap_or(J::Null)),
                        ("uw", uw(unwind)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => J::O(vec![
                    ("t", J::s("assert")),
                    ("o", self.operand(body, cond)),
                    ("e", J::B(*expected)),
                    ("m", J::S(match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow-{:?}", op),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    })),
                    ("to", bi(*target)),
                    ("uw", uw(unwind)),
                ]),
                TerminatorKind::Yield { value, resume, resume_arg, .. } => J::O(vec![
                    ("t", J::s("yield")),
                    ("o", self.operand(body, value)),
                    ("to", bi(*resume)),
                    ("dest", self.place(body, resume_arg)),
                ]),
                other => J::O(vec![("t", J::s("other")), ("s", J::S(format!("{:?}", other)))]),
            };
            let mut tj = tj;
            if let J::O(v) = &mut tj {
                v.push(("ln", ln));
            }
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        vec![
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }
}

// every unsafe block written in the workspace (not those inside macros of other crates) and what it does
struct Uns<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    tck: &'tcx ty::TypeckResults<'tcx>,
    depth: usize,
    owner: String,
    out: &'a mut Vec<J>,
    ops: Vec<J>,
}
impl<'a, 'tcx> Uns<'a, 'tcx> {
    fn callee(&mut self, d: DefId) {
        let k = self.tcx.def_kind(d);
        if matches!(k, DefKind::Fn | DefKind::AssocFn)
            && !self.tcx.fn_sig(d).skip_binder().safety().is_safe()
        {
            self.ops.push(J::S(format!("call {}", path(self.tcx, d))));
        }
    }
}
impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for Uns<'a, 'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        use rustc_hir::{BlockCheckMode, UnsafeSource};
        let sm = self.tcx.sess.source_map();
        if matches!(b.rules, BlockCheckMode::UnsafeBlock(UnsafeSource::UserProvided)) && !b.span.in_external_macro(sm) {
            let old = std::mem::take(&mut self.ops);
            self.depth += 1;
            rustc_hir::intravisit::walk_block(self, b);
            self.depth -= 1;
            let ops = std::mem::replace(&mut self.ops, old);
            let ln = sm.lookup_char_pos(b.span.source_callsite().lo()).line as i128;
            self.out.push(J::O(vec![
                ("what", J::s("block")),
                ("owner", J::S(self.owner.clone())),
                ("ln", J::I(ln)),
                ("ops", J::A(ops)),
            ]));
        } else {
            rustc_hir::intravisit::walk_block(self, b);
        }
    }
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        use rustc_hir::ExprKind;
        if self.depth > 0 {
            match &e.kind {
                ExprKind::MethodCall(..) => {
                    if let Some(d) = self.tck.type_dependent_def_id(e.hir_id) {
                        self.callee(d);
                    }
                }
                ExprKind::Call(f, _) => {
                    if let ty::FnDef(d, _) = self.tck.expr_ty(f).kind() {
                        self.callee(*d);
                    } else if let ty::FnPtr(_, h) = self.tck.expr_ty(f).kind() {
                        if !h.safety().is_safe() {
                            self.ops.push(J::s("call through an unsafe pointer"));
                        }
                    }
                }
                ExprKind::Unary(rustc_hir::UnOp::Deref, x) => {
                    if self.tck.expr_ty(x).is_raw_ptr() {
                        self.ops.push(J::s("dereference of a raw pointer"));
                    }
                }
                ExprKind::Field(x, _) => {
                    if self.tck.expr_ty(x).is_union() {
                        self.ops.push(J::s("read of a union field"));
                    }
                }
                ExprKind::InlineAsm(_) => self.ops.push(J::s("inline assembly")),
                ExprKind::Path(q) => {
                    let r = self.tck.qpath_res(q, e.hir_id);
                    if let Some(d) = r.opt_def_id() {
                        if let DefKind::Static { mutability, .. } = self.tcx.def_kind(d) {
                            if mutability.is_mut() || self.tcx.is_foreign_item(d) {
                                self.ops.push(J::s("use of a mutable static"));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        rustc_hir::intravisit::walk_expr(self, e);
    }
}

fn unsafe_items<'tcx>(tcx: TyCtxt<'tcx>) -> Vec<J> {
    let mut out = vec![];
    let sm = tcx.sess.source_map();
    for def in tcx.hir_body_owners() {
        let d = def.to_def_id();
        let tck = tcx.typeck(def);
        let body = tcx.hir_body_owned_by(def);
        // closures are bodies of their own
        let mut v = Uns { tcx, tck, depth: 0, owner: path(tcx, d), out: &mut out, ops: vec![] };
        rustc_hir::intravisit::Visitor::visit_body(&mut v, body);
        let k = tcx.def_kind(def);
        if matches!(k, DefKind::Fn | DefKind::AssocFn)
            && !tcx.fn_sig(d).skip_binder().safety().is_safe()
            && !tcx.def_span(d).in_external_macro(sm)
        {
            out.push(J::O(vec![("what", J::s("unsafe fn")), ("owner", J::S(path(tcx, d)))]));
        }
    }
    for id in tcx.hir_free_items() {
        let d = id.owner_id.to_def_id();
        let it = tcx.hir_item(id);
        let w = match &it.kind {
            rustc_hir::ItemKind::Impl(i) => match i.of_trait {
                Some(t) if !t.safety.is_safe() => Some("unsafe impl"),
                _ => None,
            },
            rustc_hir::ItemKind::ForeignMod { .. } => Some("extern block"),
            rustc_hir::ItemKind::Static(m, ..) if m.is_mut() => Some("static mut"),
            rustc_hir::ItemKind::Union(..) => Some("union"),
            _ => None,
        };
        if let Some(w) = w {
            if !it.span.in_external_macro(sm) {
                out.push(J::O(vec![("what", J::s(w)), ("owner", J::S(path(tcx, d)))]));
            }
        }
    }
    out
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let dir = match std::env::var("MIRFACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        // phase 1: clone every body before anything can steal it
        let mut bodies = vec![];
        for def in tcx.hir_body_owners() {
            let k = tcx.def_kind(def);
            let fnlike = matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !fnlike {
                continue;
            }
            let (b, p) = tcx.mir_promoted(def);
            let b = b.borrow().clone();
            let p: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
            bodies.push((def, k, b, p));
        }
        let mut cx = Cx {
            tcx,
            types: vec![],
            tmap: HashMap::new(),
            adts: HashMap::new(),
            env: TypingEnv::fully_monomorphized(),
        };
        let mut out = vec![];
        for (def, k, b, p) in bodies.iter() {
            let d = def.to_def_id();
            cx.env = TypingEnv::post_analysis(tcx, d);
            let mut o = vec![
                ("path", J::S(path(tcx, d))),
                ("hash", J::S(hash(tcx, d))),
                ("kind", J::S(format!("{:?}", k))),
                ("name", J::s(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
                ("coroutine", J::B(b.coroutine.is_some())),
                ("generics", cx.generics(d)),
            ];
            let sm = tcx.sess.source_map();
            let loc = sm.lookup_char_pos(tcx.def_span(d).source_callsite().lo());
            o.push(("file", J::S(format!("{}", loc.file.name.prefer_local_unconditionally()))));
            o.push(("line", J::I(loc.line as i128)));
            if matches!(k, DefKind::Closure) {
                let parent = tcx.local_parent(*def);
                o.push(("parent", J::S(hash(tcx, parent.to_def_id()))));
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let caps: Vec<J> = tcx.closure_captures(*def).iter().map(|c| {
                    J::A(vec![J::s(c.to_string(tcx)), J::B(c.is_by_ref())])
                }).collect();
                o.push(("caps", J::A(caps)));
                let _ = t;
            } else {
                o.push(("vis", J::S(format!("{:?}", tcx.visibility(d)))));
                let eff = tcx.effective_visibilities(()).is_reachable(*def);
                o.push(("reachable", J::B(eff)));
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    o.push(("impl_self", sti));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        o.push(("impl_trait", J::S(path(tcx, tr.skip_binder().def_id))));
                        o.push(("impl_trait_full", J::S(with_no_trimmed_paths!(format!("{}", tr.skip_binder())))));
                    }
                }
                if let Some(t) = tcx.trait_of_assoc(d) {
                    o.push(("trait", J::S(path(tcx, t))));
                }
                o.push(("asyncness", J::B(tcx.asyncness(d).is_async())));
            }
            o.extend(cx.body(b));
            let pr: Vec<J> = p.iter().map(|b| J::O(cx.body(b))).collect();
            o.push(("promoted", J::A(pr)));
            out.push(J::O(o));
        }
        let mut adts = vec![];
        let keys: Vec<DefId> = cx.adts.keys().cloned().collect();
        for k in keys {
            adts.push(cx.adts.remove(&k).unwrap());
        }
        let j = J::O(vec![
            ("crate", J::S(krate.clone())),
            ("types", J::A(std::mem::take(&mut cx.types))),
            ("adts", J::A(adts)),
            ("bodies", J::A(out)),
            ("unsafe", J::A(unsafe_items(tcx))),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        let ct = tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable");
        let fname = if ct { format!("{}/bin-{}.json", dir, krate) } else { format!("{}/{}.json", dir, krate) };
        std::fs::write(fname, s).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc path as argv[1]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
