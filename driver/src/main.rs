//! Compiler driver used by the checks: type-checks one crate of /repo with the
//! real rustc front end and writes the resolved program (MIR of every body,
//! ADT definitions, trait impls, foreign items) as JSON.  It never runs the code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt};
use rustc_span::source_map::FileLoader;
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::sync::Arc;

// ---------------------------------------------------------------- overlay
// Source text that rustc 1.60 accepts and the analysis compiler no longer does.
// Line numbers are preserved.
struct Overlay;
const GONE: &[&str] = &["maybe_uninit_uninit_array", "once_cell"];
fn overlay(path: &Path, s: String) -> String {
    let mut s = s;
    for g in GONE {
        s = s.replace(&format!("#![feature({})]", g), "");
    }
    if s.contains("uninit_array()") {
        s = s.replace("MaybeUninit::uninit_array()", "unsafe { MaybeUninit::uninit().assume_init() }");
    }
    if s.contains("FromResidual<Result<Infallible, E>> for Result<T, E>") && !s.contains("Residual<T> for") {
        s.push_str("\nimpl<T, E> core::ops::Residual<T> for Result<Infallible, E> { type TryType = Result<T, E>; }\n");
    }
    if path.ends_with("src/lib.rs") {
        s = s.replace(
            "#![feature(try_trait_v2)]",
            "#![feature(try_trait_v2)] #![feature(try_trait_v2_residual)]",
        );
    }
    s
}
impl FileLoader for Overlay {
    fn file_exists(&self, path: &Path) -> bool {
        path.exists()
    }
    fn read_file(&self, path: &Path) -> std::io::Result<String> {
        let s = std::fs::read_to_string(path)?;
        Ok(overlay(path, s))
    }
    fn read_binary_file(&self, path: &Path) -> std::io::Result<Arc<[u8]>> {
        // A compiled template embedded with include_bytes! is a build product; its
        // content plays no role in the analysis.
        let v = match std::fs::read(path) {
            Err(_) if path.extension().map_or(false, |e| e == "wasm") => vec![],
            r => r?,
        };
        Ok(v.into())
    }
    fn current_directory(&self) -> std::io::Result<PathBuf> {
        std::env::current_dir()
    }
}

// ---------------------------------------------------------------- dumper
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    paths: HashMap<DefId, String>,
    env: ty::TypingEnv<'tcx>,
    fenums: std::collections::BTreeMap<String, String>,
}

impl<'tcx> D<'tcx> {
    fn path(&mut self, d: DefId) -> String {
        if let Some(p) = self.paths.get(&d) {
            return p.clone();
        }
        let p = ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(
            ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        ));
        self.paths.insert(d, p.clone());
        p
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn cnst(&mut self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => arr(vec![js("param"), p.index.to_string(), js(p.name.as_str())]),
            ty::ConstKind::Value(v) => match v.try_to_leaf() {
                Some(s) => arr(vec![js("cv"), js(&s.to_bits_unchecked().to_string())]),
                None => arr(vec![js("c?"), js(&format!("{:?}", c))]),
            },
            _ => arr(vec![js("c?"), js(&format!("{:?}", c))]),
        }
    }
    fn gargs(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Lifetime(_) => v.push("null".into()),
                GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                GenericArgKind::Const(c) => v.push(self.cnst(c)),
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push("null".into());
        self.tmap.insert(t, i);
        let s = match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                arr(vec![js("p"), js(&t.to_string())])
            }
            ty::Adt(d, a) => {
                let p = self.path(d.did());
                if !d.did().is_local() && d.is_enum() && !self.fenums.contains_key(&p) {
                    let vs: Vec<String> = d
                        .discriminants(self.tcx)
                        .map(|(i, x)| arr(vec![js(d.variant(i).name.as_str()), js(&x.val.to_string()), d.variant(i).fields.len().to_string()]))
                        .collect();
                    self.fenums.insert(p.clone(), arr(vs));
                }
                let a = self.gargs(a);
                arr(vec![js("adt"), js(&p), a])
            }
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = self.cnst(n);
                arr(vec![js("array"), e.to_string(), n])
            }
            ty::Slice(e) => {
                let e = self.ty(e);
                arr(vec![js("slice"), e.to_string()])
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                arr(vec![js("ptr"), e.to_string(), js(m.prefix_str().trim())])
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e);
                arr(vec![js("ref"), e.to_string(), js(m.prefix_str().trim())])
            }
            ty::FnDef(d, a) => {
                let p = self.path(d);
                let a = self.gargs(a.skip_binder());
                arr(vec![js("fn"), js(&p), a])
            }
            ty::FnPtr(tys, _) => {
                let mut v = vec![];
                for x in tys.skip_binder().inputs_and_output.iter() {
                    v.push(self.ty(x).to_string());
                }
                arr(vec![js("fnptr"), arr(v)])
            }
            ty::Dynamic(preds, _) => {
                let mut v = vec![];
                for p in preds.iter() {
                    match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(t) => {
                            let p = self.path(t.def_id);
                            let a = self.gargs(t.args);
                            v.push(arr(vec![js(&p), a]));
                        }
                        ty::ExistentialPredicate::Projection(_) => {}
                        ty::ExistentialPredicate::AutoTrait(_) => {}
                    }
                }
                arr(vec![js("dyn"), arr(v)])
            }
            ty::Closure(d, a) => {
                let p = self.path(d);
                let a = self.gargs(a);
                arr(vec![js("closure"), js(&p), a])
            }
            ty::Coroutine(d, a) => {
                let p = self.path(d);
                let a = self.gargs(a);
                arr(vec![js("coroutine"), js(&p), a])
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for x in ts.iter() {
                    v.push(self.ty(x).to_string());
                }
                arr(vec![js("tuple"), arr(v)])
            }
            ty::Alias(_, al) => {
                let (k, d) = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => ("proj", def_id),
                    ty::AliasTyKind::Inherent { def_id } => ("inh", def_id),
                    ty::AliasTyKind::Opaque { def_id } => ("opaque", def_id),
                    ty::AliasTyKind::Free { def_id } => ("free", def_id),
                };
                if k == "opaque" {
                    // reveal (e.g. the coroutine behind an async fn)
                    let hidden = self.tcx.type_of(d).instantiate(self.tcx, al.args).skip_normalization();
                    let a = self.ty(hidden);
                    let p = self.path(d);
                    arr(vec![js("opaque"), js(&p), a.to_string()])
                } else {
                    let p = self.path(d);
                    let a = self.gargs(al.args);
                    arr(vec![js(k), js(&p), a])
                }
            }
            ty::Param(p) => arr(vec![js("param"), p.index.to_string(), js(p.name.as_str())]),
            _ => arr(vec![js("?"), js(&t.to_string())]),
        };
        self.types[i] = s;
        i
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: mir::Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            let s = match e {
                mir::ProjectionElem::Deref => js("*"),
                mir::ProjectionElem::Field(f, t) => {
                    let mut name = String::new();
                    let mut owner = String::new();
                    if let ty::Adt(ad, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                        if !ad.is_union() || true {
                            if let Some(vd) = ad.variants().get(vi) {
                                if let Some(fd) = vd.fields.get(f) {
                                    name = fd.name.to_string();
                                }
                            }
                        }
                        owner = self.path(ad.did());
                    }
                    let t = self.ty(t);
                    arr(vec![js("."), f.as_usize().to_string(), js(&name), js(&owner), t.to_string()])
                }
                mir::ProjectionElem::Index(l) => arr(vec![js("[]"), l.as_usize().to_string()]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    arr(vec![js("[c]"), offset.to_string(), from_end.to_string(), min_length.to_string()])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    arr(vec![js("[s]"), from.to_string(), to.to_string(), from_end.to_string()])
                }
                mir::ProjectionElem::Downcast(n, vi) => arr(vec![
                    js("as"),
                    vi.as_usize().to_string(),
                    js(&n.map(|x| x.to_string()).unwrap_or_default()),
                ]),
                _ => arr(vec![js("?")]),
            };
            v.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        arr(v)
    }

    fn bytes_of(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let s = off as usize;
                let e = s + len as usize;
                if e > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(s..e).to_vec())
            }
            _ => None,
        }
    }

    fn constval(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> String {
        match v {
            mir::ConstValue::Scalar(Scalar::Int(i)) => {
                arr(vec![js("int"), js(&i.to_bits_unchecked().to_string())])
            }
            mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match self.tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Static(d)) => {
                        let p = self.path(d);
                        arr(vec![js("static"), js(&p)])
                    }
                    Some(GlobalAlloc::Function { instance }) => {
                        let p = self.path(instance.def_id());
                        arr(vec![js("fnval"), js(&p)])
                    }
                    Some(GlobalAlloc::Memory(a)) => {
                        let len = a.inner().len() as u64;
                        match self.bytes_of(id, off.bytes(), len - off.bytes()) {
                            Some(b) if b.len() <= 4096 => arr(vec![js("mem"), js(&hex(&b))]),
                            _ => arr(vec![js("k?")]),
                        }
                    }
                    _ => arr(vec![js("k?")]),
                }
            }
            mir::ConstValue::ZeroSized => arr(vec![js("zst")]),
            mir::ConstValue::Slice { alloc_id, meta } => {
                let elem = match t.kind() {
                    ty::Ref(_, e, _) | ty::RawPtr(e, _) => *e,
                    _ => t,
                };
                match elem.kind() {
                    ty::Str => match self.bytes_of(alloc_id, 0, meta) {
                        Some(b) => arr(vec![js("str"), js(&String::from_utf8_lossy(&b))]),
                        None => arr(vec![js("k?")]),
                    },
                    _ => match self.bytes_of(alloc_id, 0, meta) {
                        Some(b) if b.len() <= 4096 => arr(vec![js("bytes"), js(&hex(&b))]),
                        _ => arr(vec![js("k?")]),
                    },
                }
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let sz = self
                    .tcx
                    .layout_of(self.env.as_query_input(t))
                    .map(|l| l.size.bytes())
                    .unwrap_or(0);
                // &str / &[u8] stored indirectly
                match self.bytes_of(alloc_id, offset.bytes(), sz) {
                    Some(b) if b.len() <= 4096 => arr(vec![js("mem"), js(&hex(&b))]),
                    _ => arr(vec![js("k?")]),
                }
            }
        }
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return arr(vec![js("k"), tid.to_string(), arr(vec![js("fnval")])]);
        }
        let mut name = "null".to_string();
        let v = match c.const_ {
            mir::Const::Ty(_, ct) if matches!(t.kind(), ty::Ref(..)) => match c.const_.eval(self.tcx, self.env, c.span) {
                Ok(v) => self.constval(v, t),
                Err(_) => self.cnst(ct),
            },
            mir::Const::Ty(_, ct) => self.cnst(ct),
            mir::Const::Val(v, _) => self.constval(v, t),
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let d = self.path(u.def);
                    arr(vec![js("promoted"), p.as_usize().to_string(), js(&d)])
                } else {
                    name = js(&self.path(u.def));
                    let generic = {
                        use rustc_middle::ty::TypeVisitableExt;
                        u.args.has_param()
                    };
                    if generic {
                        let a = self.gargs(u.args);
                        arr(vec![js("generic"), a])
                    } else {
                        match c.const_.eval(self.tcx, self.env, c.span) {
                            Ok(v) => self.constval(v, t),
                            Err(_) => arr(vec![js("k?")]),
                        }
                    }
                }
            }
        };
        if name == "null" {
            arr(vec![js("k"), tid.to_string(), v])
        } else {
            arr(vec![js("k"), tid.to_string(), v, name])
        }
    }

    fn op(&mut self, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => arr(vec![js("c"), self.place(body, *p)]),
            mir::Operand::Move(p) => arr(vec![js("m"), self.place(body, *p)]),
            mir::Operand::Constant(c) => self.konst(c),
            mir::Operand::RuntimeChecks(_) => arr(vec![js("rc")]),
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> String {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => arr(vec![js("use"), self.op(body, o)]),
            Repeat(o, n) => {
                let o = self.op(body, o);
                let n = self.cnst(*n);
                arr(vec![js("repeat"), o, n])
            }
            Ref(_, bk, p) => {
                let m = match bk {
                    mir::BorrowKind::Mut { .. } => "mut",
                    mir::BorrowKind::Shared => "shared",
                    _ => "fake",
                };
                arr(vec![js("ref"), js(m), self.place(body, *p)])
            }
            ThreadLocalRef(d) => {
                let p = self.path(*d);
                arr(vec![js("tls"), js(&p)])
            }
            RawPtr(_, p) => arr(vec![js("ref"), js("raw"), self.place(body, *p)]),
            Cast(k, o, t) => {
                let o = self.op(body, o);
                let t = self.ty(*t);
                arr(vec![js("cast"), js(&format!("{:?}", k)), o, t.to_string()])
            }
            BinaryOp(b, ab) => {
                let a = self.op(body, &ab.0);
                let c = self.op(body, &ab.1);
                arr(vec![js("bin"), js(&format!("{:?}", b)), a, c])
            }
            UnaryOp(u, o) => {
                let o = self.op(body, o);
                arr(vec![js("un"), js(&format!("{:?}", u)), o])
            }
            Discriminant(p) => arr(vec![js("discr"), self.place(body, *p)]),
            CopyForDeref(p) => arr(vec![js("use"), arr(vec![js("c"), self.place(body, *p)])]),
            Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops.iter() {
                    v.push(self.op(body, o));
                }
                let v = arr(v);
                let k = match &**k {
                    mir::AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        arr(vec![js("array"), t.to_string()])
                    }
                    mir::AggregateKind::Tuple => arr(vec![js("tuple")]),
                    mir::AggregateKind::Adt(d, vi, a, _, f) => {
                        let ad = self.tcx.adt_def(*d);
                        let p = self.path(*d);
                        let a = self.gargs(a);
                        let vd = ad.variant(*vi);
                        let names: Vec<String> = vd.fields.iter().map(|f| js(f.name.as_str())).collect();
                        arr(vec![
                            js("adt"),
                            js(&p),
                            vi.as_usize().to_string(),
                            js(vd.name.as_str()),
                            a,
                            arr(names),
                            f.map(|x| x.as_usize().to_string()).unwrap_or("null".into()),
                        ])
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let p = self.path(*d);
                        let a = self.gargs(a);
                        arr(vec![js("closure"), js(&p), a])
                    }
                    mir::AggregateKind::Coroutine(d, a) => {
                        let p = self.path(*d);
                        let a = self.gargs(a);
                        arr(vec![js("coroutine"), js(&p), a])
                    }
                    mir::AggregateKind::CoroutineClosure(d, a) => {
                        let p = self.path(*d);
                        let a = self.gargs(a);
                        arr(vec![js("coroutineclosure"), js(&p), a])
                    }
                    mir::AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        arr(vec![js("rawptr"), t.to_string()])
                    }
                };
                arr(vec![js("agg"), k, v])
            }
            other => arr(vec![js("?"), js(&format!("{:?}", other))]),
        }
    }

    fn body(&mut self, b: &mir::Body<'tcx>) -> String {
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut names = vec![];
        for vi in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = vi.value {
                let s = self.place(b, p);
                names.push(arr(vec![js(vi.name.as_str()), s]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    mir::StatementKind::Assign(x) => {
                        let p = self.place(b, x.0);
                        let r = self.rvalue(b, &x.1);
                        st.push(arr(vec![js("="), p, r]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(b, **place);
                        st.push(arr(vec![js("sd"), p, variant_index.as_usize().to_string()]));
                    }
                    mir::StatementKind::Intrinsic(i) => {
                        st.push(arr(vec![js("intr"), js(&format!("{:?}", i))]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = js(&self.span(term.source_info.span));
            use mir::TerminatorKind::*;
            let t = match &term.kind {
                Goto { target, .. } => arr(vec![js("goto"), target.as_usize().to_string()]),
                SwitchInt { discr, targets } => {
                    let o = self.op(b, discr);
                    let ot = self.ty(discr.ty(&b.local_decls, self.tcx));
                    let mut v = vec![];
                    for (val, t) in targets.iter() {
                        v.push(arr(vec![js(&val.to_string()), t.as_usize().to_string()]));
                    }
                    arr(vec![js("switch"), o, arr(v), targets.otherwise().as_usize().to_string(), ot.to_string()])
                }
                UnwindResume => arr(vec![js("resume")]),
                UnwindTerminate(_) => arr(vec![js("abort")]),
                Return => arr(vec![js("ret")]),
                Unreachable => arr(vec![js("unreachable")]),
                Drop { place, target, .. } => {
                    let pt = self.ty(place.ty(&b.local_decls, self.tcx).ty);
                    arr(vec![js("drop"), self.place(b, *place), target.as_usize().to_string(), pt.to_string()])
                }
                Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let f = self.op(b, func);
                    let ft = self.ty(func.ty(&b.local_decls, self.tcx));
                    let mut v = vec![];
                    for a in args.iter() {
                        v.push(self.op(b, &a.node));
                    }
                    let d = self.place(b, *destination);
                    let uw = match unwind {
                        mir::UnwindAction::Cleanup(bb) => bb.as_usize().to_string(),
                        _ => "null".into(),
                    };
                    let sp = js(&self.span(*fn_span));
                    arr(vec![
                        js("call"),
                        f,
                        arr(v),
                        d,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        ft.to_string(),
                        uw,
                        sp,
                    ])
                }
                Assert { cond, expected, msg, target, .. } => {
                    let o = self.op(b, cond);
                    let (k, x) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            ("bounds", arr(vec![self.op(b, len), self.op(b, index)]))
                        }
                        mir::AssertKind::Overflow(op, l, r) => {
                            ("overflow", arr(vec![js(&format!("{:?}", op)), self.op(b, l), self.op(b, r)]))
                        }
                        mir::AssertKind::OverflowNeg(_) => ("overflowneg", "[]".into()),
                        mir::AssertKind::DivisionByZero(_) => ("div0", "[]".into()),
                        mir::AssertKind::RemainderByZero(_) => ("rem0", "[]".into()),
                        _ => ("other", "[]".into()),
                    };
                    arr(vec![
                        js("assert"),
                        o,
                        expected.to_string(),
                        js(k),
                        x,
                        target.as_usize().to_string(),
                    ])
                }
                Yield { resume, resume_arg, .. } => {
                    let p = self.place(b, *resume_arg);
                    arr(vec![js("yield"), resume.as_usize().to_string(), p])
                }
                FalseEdge { real_target, .. } => arr(vec![js("goto"), real_target.as_usize().to_string()]),
                FalseUnwind { real_target, .. } => arr(vec![js("goto"), real_target.as_usize().to_string()]),
                other => arr(vec![js("?"), js(&format!("{:?}", other))]),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"sp\":{}{}}}",
                arr(st),
                t,
                sp,
                if bb.is_cleanup { ",\"cl\":1" } else { "" }
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":[\n{}]",
            b.arg_count,
            arr(locals),
            arr(names),
            blocks.join(",\n")
        )
    }

    fn generics(&mut self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            v.push(js(p.name.as_str()));
        }
        arr(v)
    }

    fn item(&mut self, ld: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        self.env = ty::TypingEnv::post_analysis(tcx, d);
        let p = self.path(d);
        let mut extra = String::new();
        let (k, body): (&str, String) = match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(d).skip_binder();
                let sig = sig.skip_binder();
                let _ = write!(extra, ",\"abi\":{}", js(&format!("{}", sig.abi())));
                let attrs = tcx.codegen_fn_attrs(d);
                if let Some(n) = attrs.symbol_name {
                    let _ = write!(extra, ",\"export\":{}", js(n.as_str()));
                } else if attrs.contains_extern_indicator() {
                    let _ = write!(extra, ",\"export\":{}", js(tcx.item_name(d).as_str()));
                }
                let _ = write!(extra, ",\"pub\":{}", tcx.visibility(d).is_public());
                let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                let o = self.ty(sig.output());
                let _ = write!(extra, ",\"sig\":[{},{}]", arr(ins), o);
                let _ = tcx.mir_drops_elaborated_and_const_checked(ld);
                let b = stashed::<'tcx>(ld)?;
                ("fn", self.body(b))
            }
            DefKind::Closure => {
                let caps: Vec<String> = tcx
                    .closure_captures(ld)
                    .iter()
                    .map(|c| js(&c.to_string(tcx)))
                    .collect();
                let _ = write!(extra, ",\"captures\":{}", arr(caps));
                let _ = tcx.mir_drops_elaborated_and_const_checked(ld);
                let b = stashed::<'tcx>(ld)?;
                (if tcx.is_coroutine(d) { "coroutine" } else { "closure" }, self.body(b))
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let b = tcx.mir_for_ctfe(d);
                ("const", self.body(b))
            }
            _ => return None,
        };
        // promoteds
        let mut pv = vec![];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            for pb in tcx.promoted_mir(d).iter() {
                pv.push(format!("{{{}}}", self.body(pb)));
            }
        }
        let g = self.generics(d);
        let mut parent = "null".to_string();
        if let Some(ai) = tcx.opt_associated_item(d) {
            let pd = tcx.parent(d);
            if tcx.def_kind(pd) == DefKind::Trait {
                parent = arr(vec![js("trait"), js(&self.path(pd))]);
            } else {
                let st = tcx.type_of(pd).instantiate_identity().skip_normalization();
                let st = self.ty(st);
                parent = arr(vec![js("impl"), st.to_string()]);
            }
            let _ = ai;
        }
        let sp = js(&self.span(tcx.def_span(d)));
        Some(format!(
            "{{\"path\":{},\"kind\":\"{}\",\"gen\":{},\"parent\":{},\"span\":{}{},{},\"promoted\":{}}}",
            js(&p),
            k,
            g,
            parent,
            sp,
            extra,
            body,
            arr(pv)
        ))
    }

    fn dump(&mut self, out: &Path) {
        let tcx = self.tcx;
        let mut bodies = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut stolen = vec![];
        for ld in owners {
            let isfn = matches!(tcx.def_kind(ld), DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            match self.item(ld) {
                Some(s) => bodies.push(s),
                None => {
                    if isfn {
                        stolen.push(js(&self.path(ld.to_def_id())))
                    }
                }
            }
        }
        // ADTs
        let mut adts = vec![];
        let mut foreign = vec![];
        let items = tcx.hir_crate_items(());
        for ld in items.definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let mut vs = vec![];
                    let discrs: Vec<String> = if ad.is_enum() {
                        ad.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
                    } else {
                        vec!["0".into()]
                    };
                    for (i, v) in ad.variants().iter().enumerate() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                            let t = self.ty(t);
                            let vis = tcx.visibility(f.did).is_public();
                            fs.push(arr(vec![js(f.name.as_str()), t.to_string(), vis.to_string()]));
                        }
                        vs.push(arr(vec![js(v.name.as_str()), js(&discrs[i]), arr(fs)]));
                    }
                    let p = self.path(d);
                    let g = self.generics(d);
                    let sp = js(&self.span(tcx.def_span(d)));
                    adts.push(format!(
                        "{{\"path\":{},\"gen\":{},\"kind\":{},\"variants\":{},\"span\":{},\"reprc\":{}}}",
                        js(&p),
                        g,
                        js(&format!("{:?}", ad.adt_kind())),
                        arr(vs),
                        sp,
                        ad.repr().c()
                    ));
                }
                _ => {}
            }
        }
        let wmap = tcx.foreign_modules(rustc_hir::def_id::LOCAL_CRATE);
        for (_, fm) in wmap.iter() {
            for fi in fm.foreign_items.iter() {
                if tcx.def_kind(*fi) != DefKind::Fn {
                    continue;
                }
                let p = self.path(*fi);
                let sig = tcx.fn_sig(*fi).skip_binder().skip_binder();
                let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                let o = self.ty(sig.output());
                let mut module = String::new();
                for nl in tcx.native_libraries(rustc_hir::def_id::LOCAL_CRATE).iter() {
                    if nl.foreign_module == Some(fm.def_id) {
                        module = nl.name.to_string();
                    }
                }
                let sp = js(&self.span(tcx.def_span(*fi)));
                foreign.push(format!(
                    "{{\"path\":{},\"sig\":[{},{}],\"module\":{},\"span\":{}}}",
                    js(&p),
                    arr(ins),
                    o,
                    js(&module),
                    sp
                ));
            }
        }
        // trait impls
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is {
                let d = i.to_def_id();
                let tref = tcx.impl_trait_ref(d).instantiate_identity().skip_normalization();
                let tp = self.path(*tr);
                let a = self.gargs(tref.args);
                let mut its = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let p = self.path(it.def_id);
                    let (k, t) = match it.kind {
                        ty::AssocKind::Fn { .. } => ("fn", "null".to_string()),
                        ty::AssocKind::Type { .. } => {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_normalization();
                            ("ty", self.ty(t).to_string())
                        }
                        ty::AssocKind::Const { .. } => ("const", "null".to_string()),
                    };
                    let nm = it.opt_name().map(|x| x.to_string()).unwrap_or_default();
                    its.push(arr(vec![js(&nm), js(k), js(&p), t]));
                }
                let g = self.generics(d);
                let sp = js(&self.span(tcx.def_span(d)));
                impls.push(format!(
                    "{{\"trait\":{},\"args\":{},\"gen\":{},\"items\":{},\"span\":{}}}",
                    js(&tp),
                    a,
                    g,
                    arr(its),
                    sp
                ));
            }
        }
        // traits
        let mut traits = vec![];
        for ld in items.definitions() {
            let d = ld.to_def_id();
            if tcx.def_kind(d) == DefKind::Trait {
                let p = self.path(d);
                let mut its = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let ip = self.path(it.def_id);
                    let nm = it.opt_name().map(|x| x.to_string()).unwrap_or_default();
                    its.push(arr(vec![js(&nm), js(&ip), it.defaultness(tcx).has_value().to_string()]));
                }
                traits.push(format!("{{\"path\":{},\"items\":{}}}", js(&p), arr(its)));
            }
        }
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let feats: Vec<String> = {
            let mut v: Vec<String> = vec![];
            for (k, x) in tcx.sess.config.iter() {
                if k.as_str() == "feature" {
                    if let Some(x) = x {
                        v.push(x.to_string());
                    }
                }
            }
            v.sort();
            v.iter().map(|x| js(x)).collect()
        };
        let s = format!(
            "{{\"crate\":{},\"features\":{},\"bodies\":[\n{}],\n\"adts\":[{}],\n\"impls\":[{}],\n\"traits\":[{}],\n\"foreign\":[{}],\n\"fenums\":{{{}}},\n\"stolen\":[{}],\n\"types\":[\n{}]}}\n",
            js(krate.as_str()),
            arr(feats),
            bodies.join(",\n"),
            adts.join(",\n"),
            impls.join(",\n"),
            traits.join(",\n"),
            foreign.join(",\n"),
            self.fenums.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",\n"),
            stolen.join(","),
            self.types.join(",\n")
        );
        std::fs::create_dir_all(out).unwrap();
        let kt = if tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable") { "bin" } else { "lib" };
        let f = out.join(format!("{}.{}.json", krate, kt));
        let tmp = out.join(format!("{}.{}.tmp{}", krate, kt, std::process::id()));
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, &f).unwrap();
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

// Bodies are cloned when the query first produces them: later passes (coroutine
// layout) steal the pre-state-machine MIR of async bodies.
static BODIES: std::sync::Mutex<Vec<(u32, usize)>> = std::sync::Mutex::new(Vec::new());
fn stash<'tcx>(
    tcx: TyCtxt<'tcx>,
    key: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<mir::Body<'tcx>> {
    let r = (rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.mir_drops_elaborated_and_const_checked)(tcx, key);
    if !tcx.is_coroutine(key.to_def_id()) {
        let b: Box<mir::Body<'tcx>> = Box::new(r.borrow().clone());
        let p = Box::into_raw(b) as usize;
        BODIES.lock().unwrap().push((key.local_def_index.as_u32(), p));
    }
    r
}
fn stash_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    key: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<mir::Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<mir::Promoted, mir::Body<'tcx>>>,
) {
    let r = (rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.mir_promoted)(tcx, key);
    if tcx.is_coroutine(key.to_def_id()) {
        let b: Box<mir::Body<'tcx>> = Box::new(r.0.borrow().clone());
        let p = Box::into_raw(b) as usize;
        BODIES.lock().unwrap().push((key.local_def_index.as_u32(), p));
    }
    r
}
fn stashed<'tcx>(key: LocalDefId) -> Option<&'tcx mir::Body<'tcx>> {
    let g = BODIES.lock().unwrap();
    for (k, p) in g.iter().rev() {
        if *k == key.local_def_index.as_u32() {
            // SAFETY: leaked box created by `stash` in this same session; the
            // arena it points into outlives `after_analysis`.
            return Some(unsafe { &*(*p as *const mir::Body<'tcx>) });
        }
    }
    None
}

struct Cb {
    out: Option<PathBuf>,
}
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.file_loader = Some(Box::new(Overlay));
        c.override_queries = Some(|_, p| {
            p.queries.mir_drops_elaborated_and_const_checked = stash;
            p.queries.mir_promoted = stash_promoted;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let env = ty::TypingEnv::fully_monomorphized();
            let mut d = D { tcx, types: vec![], tmap: HashMap::new(), paths: HashMap::new(), env, fenums: Default::default() };
            d.dump(out);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].starts_with('-') {
        args.remove(1);
    }
    let probing = args.iter().any(|a| a == "-vV" || a == "--version" || a == "-V" || a.starts_with("--print"));
    let build_script = args.iter().any(|a| a == "build_script_build");
    let mut out = std::env::var_os("SVM_MIR_OUT").map(PathBuf::from);
    if probing || build_script {
        out = None;
    }
    if !probing {
        args.push("--cap-lints".into());
        args.push("allow".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
    }
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
}
