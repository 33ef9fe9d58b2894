// MIR fact extractor for the yaml-peg checks (rustc_private).
// Used as RUSTC_WORKSPACE_WRAPPER: compiles the crate with the flags cargo gives and, for the
// library crate, writes the resolved program (MIR of every function, specialised for the closures
// it is called with; types; impls; visibility) as JSON to $YP_FACTS.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_infer;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, interpret::{GlobalAlloc, Scalar}};
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Instance, Ty, TyCtxt};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>), M(Vec<(String, J)>) }
fn s(x: impl ToString) -> J { J::S(x.to_string()) }
fn esc(o: &mut String, t: &str) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"), J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{i}"); } J::S(t) => esc(o, t),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(o, k); o.push(':'); x.w(o); } o.push('}'); }
            J::M(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(o, k); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: BTreeMap<String, J>,
    adts: BTreeMap<String, J>,
    externs: BTreeMap<String, J>,
    seen: HashSet<String>,
    work: VecDeque<(Instance<'tcx>, DefId, String)>,
    out: Vec<(String, J)>,
    keymap: HashMap<String, String>,
    cur: Option<DefId>,
}

// Library functions whose own MIR is exported: the pure combinators of Option, Result and bool.
fn std_body(p: &str) -> bool {
    let n = p.replace("core::option", "std::option").replace("core::result", "std::result").replace("core::convert", "std::convert")
        .replace("core::ops", "std::ops");
    let p = n.as_str();
    for x in ["std::option::Option::<", "std::result::Result::<", "<std::option::Option<", "<std::result::Result<",
        "core::bool::<impl bool>::", "<T as std::convert::", "std::ops::ControlFlow::<", "<std::ops::ControlFlow<"] {
        if p.starts_with(x) {
            return !["::fmt", "::hash", "::eq", "::ne", "::partial_cmp", "::cmp", "::into_iter", "::iter", "::iter_mut", "::from_iter",
                "::try_from", "::try_into", "::sum", "::product", "::insert", "::get_or_insert", "::get_or_insert_with",
                "::as_slice", "::as_mut_slice", "::as_pin_ref", "::as_pin_mut"].iter().any(|e| p.ends_with(e));
        }
    }
    false
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String { with_no_trimmed_paths!(tcx.def_path_str(d)) }

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: rustc_span::Span) -> J {
        // user-visible location: outermost expansion site for macro-generated code
        let sp0 = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp0.lo());
        s(format!("{}:{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line, lo.col.0 + 1))
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = path(self.tcx, def.did());
        if self.adts.contains_key(&p) { return; }
        self.adts.insert(p.clone(), J::N);
        let id = ty::GenericArgs::identity_for_item(self.tcx, def.did());
        let mut vs = vec![];
        for (i, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { J::I(def.discriminant_for_variant(self.tcx, i).val as i128) } else { J::N };
            let fs = v.fields.iter().map(|f| {
                let t = f.ty(self.tcx, id).skip_norm_wip();
                J::O(vec![("name", s(f.name)), ("ty", s(with_no_trimmed_paths!(t.to_string()))),
                    ("pub", J::B(f.vis.is_public()))])
            }).collect();
            vs.push(J::O(vec![("name", s(v.name)), ("discr", discr), ("fields", J::A(fs))]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let j = J::O(vec![("kind", s(kind)), ("local", J::B(def.did().is_local())), ("variants", J::A(vs)),
            ("pub", J::B(self.tcx.visibility(def.did()).is_public()))]);
        self.adts.insert(p, j);
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let name = with_no_trimmed_paths!(t.to_string());
        if self.tys.contains_key(&name) { return J::S(name); }
        self.tys.insert(name.clone(), J::N);
        let j = match *t.kind() {
            ty::Adt(def, args) => {
                self.adt(def);
                let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("adt")), ("path", s(path(self.tcx, def.did()))), ("args", J::A(a))])
            }
            ty::Ref(_, t, m) => { let j = self.ty(t); J::O(vec![("k", s("ref")), ("to", j), ("mut", J::B(m.is_mut()))]) }
            ty::RawPtr(t, m) => { let j = self.ty(t); J::O(vec![("k", s("ptr")), ("to", j), ("mut", J::B(m.is_mut()))]) }
            ty::Tuple(ts) => { let v = ts.iter().map(|t| self.ty(t)).collect(); J::O(vec![("k", s("tuple")), ("args", J::A(v))]) }
            ty::Slice(t) => { let j = self.ty(t); J::O(vec![("k", s("slice")), ("to", j)]) }
            ty::Array(t, n) => { let j = self.ty(t); let n = n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::N);
                J::O(vec![("k", s("array")), ("to", j), ("len", n)]) }
            ty::Closure(d, args) => {
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("closure")), ("path", s(path(self.tcx, d))), ("upvars", J::A(ups))])
            }
            ty::FnDef(d, args) => { let mut v = vec![]; for a in args.skip_binder().types() { v.push(self.ty(a)); }
                J::O(vec![("k", s("fndef")), ("path", s(path(self.tcx, d))), ("args", J::A(v))]) }
            ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Bool | ty::Char | ty::Str | ty::Never => J::O(vec![("k", s("prim"))]),
            ty::Param(_) => J::O(vec![("k", s("param"))]),
            ty::Alias(..) => J::O(vec![("k", s("alias"))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn"))]),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr"))]),
            _ => J::O(vec![("k", s("other"))]),
        };
        self.tys.insert(name.clone(), j);
        J::S(name)
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: mir::Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection {
            let j = match e {
                mir::ProjectionElem::Deref => J::O(vec![("k", s("deref"))]),
                mir::ProjectionElem::Field(i, t) => {
                    let mut name = J::N;
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if def.is_enum() || def.is_struct() || def.is_union() {
                            if let Some(f) = def.variant(v).fields.get(i) { name = s(f.name); }
                        }
                    }
                    let tj = self.ty(t);
                    J::O(vec![("k", s("field")), ("i", J::I(i.as_u32() as i128)), ("name", name), ("ty", tj)])
                }
                mir::ProjectionElem::Index(l) => J::O(vec![("k", s("index")), ("local", J::I(l.as_u32() as i128))]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::O(vec![("k", s("cindex")), ("off", J::I(offset as i128)), ("min", J::I(min_length as i128)), ("end", J::B(from_end))]),
                mir::ProjectionElem::Subslice { from, to, from_end } =>
                    J::O(vec![("k", s("subslice")), ("from", J::I(from as i128)), ("to", J::I(to as i128)), ("end", J::B(from_end))]),
                mir::ProjectionElem::Downcast(n, v) =>
                    J::O(vec![("k", s("downcast")), ("i", J::I(v.as_u32() as i128)), ("name", n.map(s).unwrap_or(J::N))]),
                _ => J::O(vec![("k", s("other"))]),
            };
            proj.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        J::O(vec![("l", J::I(p.local.as_u32() as i128)), ("p", J::A(proj))])
    }

    fn bytes(&self, alloc_id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(alloc_id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len <= a.size().bytes() {
                    Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
                } else { None }
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o = vec![("k", s("const")), ("ty", tj)];
        if let ty::FnDef(d, args) = *t.kind() {
            o.push(("fn", s(path(self.tcx, d))));
            // a function used as a value
            let args = args.no_bound_vars().unwrap_or_else(|| self.tcx.erase_and_anonymize_regions(args.skip_binder()));
            if let (Some(root), Ok(Some(i))) = (self.cur, Instance::try_resolve(self.tcx, env, d, args)) {
                if let ty::InstanceKind::Item(x) = i.def {
                    if x.is_local() && self.tcx.is_mir_available(x) && !self.tcx.is_constructor(x) {
                        let k = self.enqueue(i, x, root);
                        o.push(("fkey", s(k)));
                    }
                }
            }
            return J::O(o);
        }
        if let ty::Closure(d, args) = *t.kind() { self.closure(d, args); }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", s(path(self.tcx, u.def))));
            if let Some(p) = u.promoted { o.push(("promoted", J::I(p.as_u32() as i128))); }
        }
        let v = match c.const_.eval(self.tcx, env, c.span) { Ok(v) => v, Err(_) => { o.push(("unknown", J::B(true))); return J::O(o); } };
        match v {
            mir::ConstValue::ZeroSized => { o.push(("zst", J::B(true))); }
            mir::ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let bits = i.to_bits(sz);
                let val: i128 = match t.kind() {
                    ty::Int(_) => sz.sign_extend(bits) as i128,
                    _ => bits as i128,
                };
                match t.kind() {
                    ty::Bool => o.push(("bool", J::B(val != 0))),
                    ty::Char => { o.push(("char", s(char::from_u32(val as u32).unwrap_or('\u{fffd}')))); o.push(("int", J::I(val))); }
                    ty::Float(_) => { o.push(("fbits", J::I(val))); }
                    _ => o.push(("int", if val < 0 && !matches!(t.kind(), ty::Int(_)) { J::S(bits.to_string()) } else { J::I(val) })),
                }
            }
            mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                if let ty::Ref(_, inner, _) = *t.kind() {
                    if let ty::Array(e, n) = *inner.kind() {
                        if e == self.tcx.types.u8 {
                            if let Some(n) = n.try_to_target_usize(self.tcx) {
                                if let Some(b) = self.bytes(prov.alloc_id(), off.bytes(), n) {
                                    o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())));
                                }
                            }
                        }
                    } else if matches!(inner.kind(), ty::Ref(_, i2, _) if i2.is_str()) {
                        // &&str constant: read the inner fat pointer
                        let cv = mir::ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            o.push(("str", s(String::from_utf8_lossy(b))));
                        }
                    } else if matches!(inner.kind(), ty::Uint(_) | ty::Int(_) | ty::Bool | ty::Char) {
                        if let Ok(layout) = self.tcx.layout_of(env.as_query_input(inner)) {
                            let n = layout.size.bytes();
                            if let Some(b) = self.bytes(prov.alloc_id(), off.bytes(), n) {
                                let mut v: u128 = 0;
                                for (i, x) in b.iter().enumerate() { v |= (*x as u128) << (8 * i); }
                                let val = if let ty::Int(_) = inner.kind() { layout.size.sign_extend(v) as i128 } else { v as i128 };
                                o.push(("refint", J::I(val)));
                            }
                        }
                    }
                }
            }
            mir::ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    let one = inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == self.tcx.types.u8);
                    if one {
                        if let Some(b) = self.bytes(alloc_id, 0, meta) {
                            if inner.is_str() { o.push(("str", s(String::from_utf8_lossy(&b)))); }
                            else { o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect()))); }
                        }
                    }
                }
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                if let ty::Array(e, n) = *t.kind() {
                    if e == self.tcx.types.u8 {
                        if let Some(n) = n.try_to_target_usize(self.tcx) {
                            if let Some(b) = self.bytes(alloc_id, offset.bytes(), n) {
                                o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())));
                            }
                        }
                    }
                }
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) { o.push(("str", s(String::from_utf8_lossy(b)))); }
                    }
                }
            }
        }
        J::O(o)
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>, op: &mir::Operand<'tcx>) -> J {
        match op {
            mir::Operand::Copy(p) => J::O(vec![("k", s("copy")), ("pl", self.place(body, *p))]),
            mir::Operand::Move(p) => J::O(vec![("k", s("move")), ("pl", self.place(body, *p))]),
            mir::Operand::Constant(c) => self.constant(c, env),
            mir::Operand::RuntimeChecks(_) => J::O(vec![("k", s("const")), ("ty", s("bool")), ("rtcheck", J::B(true))]),
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::O(vec![("k", s("use")), ("op", self.operand(body, env, o))]),
            Repeat(o, c) => J::O(vec![("k", s("repeat")), ("op", self.operand(body, env, o)),
                ("n", c.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::N))]),
            Ref(_, bk, p) => J::O(vec![("k", s("ref")), ("mut", J::B(matches!(bk, mir::BorrowKind::Mut { .. }))), ("pl", self.place(body, *p))]),
            RawPtr(k, p) => J::O(vec![("k", s("rawptr")), ("kind", s(format!("{k:?}"))), ("pl", self.place(body, *p))]),
            ThreadLocalRef(d) => J::O(vec![("k", s("tls")), ("def", s(path(self.tcx, *d)))]),
            Cast(ck, o, t) => { let from = o.ty(&body.local_decls, self.tcx); let fj = self.ty(from); let tj = self.ty(*t);
                J::O(vec![("k", s("cast")), ("ck", s(format!("{ck:?}").split('(').next().unwrap())), ("op", self.operand(body, env, o)), ("from", fj), ("ty", tj)]) }
            BinaryOp(b, ab) => { let t = ab.0.ty(&body.local_decls, self.tcx); let tj = self.ty(t);
                J::O(vec![("k", s("bin")), ("op", s(format!("{b:?}"))), ("a", self.operand(body, env, &ab.0)), ("b", self.operand(body, env, &ab.1)), ("ty", tj)]) }
            UnaryOp(u, o) => { let t = o.ty(&body.local_decls, self.tcx); let tj = self.ty(t);
                J::O(vec![("k", s("un")), ("op", s(format!("{u:?}"))), ("a", self.operand(body, env, o)), ("ty", tj)]) }
            Discriminant(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; let tj = self.ty(t);
                J::O(vec![("k", s("discr")), ("pl", self.place(body, *p)), ("ty", tj)]) }
            Aggregate(ak, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let mut o = vec![("k", s("agg")), ("ops", J::A(fs))];
                match &**ak {
                    mir::AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    mir::AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    mir::AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        o.push(("ak", s("adt"))); o.push(("adt", s(path(self.tcx, *d))));
                        o.push(("vi", J::I(v.as_u32() as i128))); o.push(("variant", s(def.variant(*v).name)));
                        o.push(("fields", J::A(def.variant(*v).fields.iter().map(|f| s(f.name)).collect())));
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        self.closure(*d, args);
                        let t = Ty::new_closure(self.tcx, *d, args); let tj = self.ty(t);
                        o.push(("ak", s("closure"))); o.push(("def", s(path(self.tcx, *d)))); o.push(("ty", tj)); }
                    _ => o.push(("ak", s("other"))),
                }
                J::O(o)
            }
            CopyForDeref(p) => J::O(vec![("k", s("use")), ("op", J::O(vec![("k", s("copy")), ("pl", self.place(body, *p))]))]),
            Reborrow(_, m, p) => J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("pl", self.place(body, *p)), ("reborrow", J::B(true))]),
            WrapUnsafeBinder(o, _) => J::O(vec![("k", s("use")), ("op", self.operand(body, env, o))]),
        }
    }

    fn inst_key(&self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        with_no_trimmed_paths!({
            let tcx = self.tcx;
            let p = tcx.def_path_str(def);
            let mut v = vec![];
            let use_args: ty::GenericArgsRef<'tcx> = if tcx.is_closure_like(def) {
                tcx.mk_args(args.as_closure().parent_args())
            } else { args };
            for t in use_args.types() { v.push(t.to_string()); }
            if v.is_empty() { p } else { format!("{p} <{}>", v.join(", ")) }
        })
    }

    fn extern_info(&mut self, d: DefId) {
        let p = path(self.tcx, d);
        if self.externs.contains_key(&p) { return; }
        let tcx = self.tcx;
        let mut doc = String::new();
        for a in tcx.get_all_attrs(d) {
            if let Some(x) = rustc_ast::attr::AttributeExt::doc_str(a) { doc.push_str(x.as_str()); doc.push('\n'); }
        }
        let panics = match doc.find("# Panics") {
            Some(i) => { let r = &doc[i + 8..]; let e = r.find("\n#").or(r.find("\n #")).unwrap_or(r.len().min(600)); r[..e].trim().to_string() }
            None => String::new(),
        };
        let mut o = vec![("crate", s(tcx.crate_name(d.krate))), ("panics_doc", s(panics)), ("has_doc", J::B(!doc.is_empty()))];
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            o.push(("never", J::B(sig.output().is_never())));
            o.push(("track", J::B(tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER))));
        }
        if let Some(t) = tcx.trait_of_assoc(d) { o.push(("trait", s(path(tcx, t)))); }
        self.externs.insert(p, J::O(o));
    }

    fn callee(&mut self, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId, rootargs: &str, func: &mir::Operand<'tcx>) -> J {
        let tcx = self.tcx;
        let fty = func.ty(&body.local_decls, tcx);
        let _ = rootargs;
        match *fty.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| tcx.erase_and_anonymize_regions(args.skip_binder()));
                self.extern_info(d);
                let tys: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                let mut o = vec![("path", s(path(tcx, d))), ("args", J::A(tys)), ("name", s(tcx.item_name(d)))];
                if let Some(t) = tcx.trait_of_assoc(d) { o.push(("trait", s(path(tcx, t)))); }
                if path(tcx, d).ends_with("iter::Iterator::collect") {
                    // the implementation of the collection which gathers the items
                    let ps = tcx.clauses_of(d).instantiate(tcx, args);
                    for p in ps.clauses {
                        let Ok(p) = tcx.try_normalize_erasing_regions(env, p) else { continue };
                        let Some(tp) = p.as_trait_clause() else { continue };
                        let tr = tp.skip_binder().trait_ref;
                        if !path(tcx, tr.def_id).ends_with("::FromIterator") { continue; }
                        let Some(m) = tcx.associated_items(tr.def_id).in_definition_order().find(|a| a.is_fn()) else { continue };
                        let a2 = tcx.mk_args_from_iter(tr.args.iter().chain(args.iter().take(1)));
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, m.def_id, a2) {
                            if let ty::InstanceKind::Item(x) = i.def {
                                if x.is_local() { let k = self.enqueue(i, x, root); o.push(("ckey", s(k))); }
                            }
                        }
                    }
                }
                match Instance::try_resolve(tcx, env, d, args) {
                    Ok(Some(i)) => {
                        let (kind, rd) = match i.def {
                            ty::InstanceKind::Item(x) => ("item", x),
                            ty::InstanceKind::Intrinsic(x) => ("intrinsic", x),
                            ty::InstanceKind::Virtual(x, _) => ("virtual", x),
                            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => ("closure_once", closure),
                            ty::InstanceKind::Shim(ty::ShimKind::FnPtr(x, t)) => {
                                // FnDef called through an Fn* trait
                                if let ty::FnDef(fd, fargs) = *t.kind() {
                                    let fargs = fargs.no_bound_vars().unwrap_or_else(|| tcx.erase_and_anonymize_regions(fargs.skip_binder()));
                                    self.extern_info(fd);
                                    o.push(("rkind", s("fndef_call"))); o.push(("rpath", s(path(tcx, fd))));
                                    let ra: Vec<J> = fargs.types().map(|t| self.ty(t)).collect();
                                    o.push(("rargs", J::A(ra)));
                                    if let Ok(Some(fi)) = Instance::try_resolve(tcx, env, fd, fargs) {
                                        if let ty::InstanceKind::Item(x) = fi.def {
                                            if x.is_local() { let k = self.enqueue(fi, x, root); o.push(("key", s(k))); }
                                        }
                                    }
                                    return J::O(o);
                                }
                                ("fnptr_shim", x)
                            }
                            ty::InstanceKind::Shim(_) => ("shim", d),
                            _ => ("other", d),
                        };
                        o.push(("rkind", s(kind)));
                        o.push(("rpath", s(path(tcx, rd))));
                        let ra: Vec<J> = i.args.types().map(|t| self.ty(t)).collect();
                        o.push(("rargs", J::A(ra)));
                        if rd.is_local() && matches!(kind, "item" | "closure_once") && tcx.is_mir_available(rd) {
                            let inst = if kind == "closure_once" {
                                // args of the shim: the closure type's args
                                match i.args.type_at(0).kind() {
                                    ty::Closure(cd, ca) => Instance::new_raw(*cd, ca),
                                    _ => Instance::new_raw(rd, i.args),
                                }
                            } else { i };
                            let k = self.enqueue(inst, rd, root);
                            o.push(("key", s(k)));
                        } else if !rd.is_local() {
                            self.extern_info(rd);
                            if kind == "item" && std_body(&path(tcx, rd)) && tcx.is_mir_available(rd) {
                                let k = self.enqueue(i, rd, root);
                                o.push(("key", s(k)));
                            }
                        }
                    }
                    _ => { o.push(("rkind", s("unresolved"))); }
                }
                J::O(o)
            }
            _ => { let tj = self.ty(fty); J::O(vec![("rkind", s("indirect")), ("ty", tj), ("op", self.operand(body, env, func))]) }
        }
    }

    fn closure(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) {
        if let Some(root) = self.cur {
            if d.is_local() && self.tcx.is_mir_available(d) {
                self.enqueue(Instance::new_raw(d, args), d, root);
            }
        }
    }

    fn enqueue(&mut self, i: Instance<'tcx>, d: DefId, root: DefId) -> String {
        let k = self.inst_key(d, i.args);
        if self.seen.insert(k.clone()) { self.work.push_back((i, root, k.clone())); }
        k
    }

    fn body_parts(&mut self, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId) -> (Vec<J>, Vec<J>, Vec<J>) {
        let tcx = self.tcx;
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut upnames: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_u32(), v.name.to_string()); }
                else { let pj = self.place(body, p); upnames.push(J::O(vec![("name", s(v.name)), ("pl", pj)])); }
            }
        }
        let locals: Vec<J> = body.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty);
            J::O(vec![("ty", t), ("name", names.get(&l.as_u32()).map(s).unwrap_or(J::N)), ("mut", J::B(d.mutability.is_mut()))])
        }).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    mir::StatementKind::Assign(pr) => {
                        let rv = self.rvalue(body, env, &pr.1);
                        st.push(J::O(vec![("k", s("assign")), ("pl", self.place(body, pr.0)), ("rv", rv), ("sp", self.span(x.source_info.span))]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } =>
                        st.push(J::O(vec![("k", s("setdiscr")), ("pl", self.place(body, **place)), ("vi", J::I(variant_index.as_u32() as i128))])),
                    mir::StatementKind::StorageDead(l) => st.push(J::O(vec![("k", s("dead")), ("l", J::I(l.as_u32() as i128))])),
                    mir::StatementKind::Intrinsic(i) => st.push(J::O(vec![("k", s("intrinsic")), ("d", s(format!("{i:?}")))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let bi = |b: mir::BasicBlock| J::I(b.as_u32() as i128);
            let mut o = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", bi(*target))],
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx); let dj = self.ty(dt);
                    let v = targets.iter().map(|(v, b)| {
                        let v = if let ty::Int(it) = dt.kind() { let sz = it.bit_width().unwrap_or(64); let sh = 128 - sz as u32; ((v as i128) << sh) >> sh } else { v as i128 };
                        J::A(vec![J::I(v), bi(b)]) }).collect();
                    vec![("k", s("switch")), ("op", self.operand(body, env, discr)), ("ty", dj), ("ts", J::A(v)), ("else", bi(targets.otherwise()))]
                }
                mir::TerminatorKind::UnwindResume => vec![("k", s("resume"))],
                mir::TerminatorKind::UnwindTerminate(_) => vec![("k", s("abort"))],
                mir::TerminatorKind::Return => vec![("k", s("return"))],
                mir::TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                mir::TerminatorKind::Drop { place, target, unwind, .. } => {
                    let dty = place.ty(&body.local_decls, tcx).ty; let tj = self.ty(dty);
                    let mut v = vec![("k", s("drop")), ("pl", self.place(body, *place)), ("t", bi(*target)), ("ty", tj)];
                    if let mir::UnwindAction::Cleanup(b) = unwind { v.push(("uw", bi(*b))); } v }
                mir::TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let c = self.callee(body, env, root, "", func);
                    let a = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty; let dtj = self.ty(dt);
                    let mut v = vec![("k", s("call")), ("f", c), ("args", J::A(a)), ("dest", self.place(body, *destination)), ("dty", dtj),
                        ("t", target.map(bi).unwrap_or(J::N))];
                    if let mir::UnwindAction::Cleanup(b) = unwind { v.push(("uw", bi(*b))); }
                    v
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (String, Vec<J>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(body, env, len), self.operand(body, env, index)]),
                        mir::AssertKind::Overflow(b, x, y) => (format!("overflow_{b:?}"), vec![self.operand(body, env, x), self.operand(body, env, y)]),
                        mir::AssertKind::OverflowNeg(x) => ("overflow_Neg".into(), vec![self.operand(body, env, x)]),
                        mir::AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.operand(body, env, x)]),
                        mir::AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.operand(body, env, x)]),
                        _ => ("other".into(), vec![]),
                    };
                    vec![("k", s("assert")), ("cond", self.operand(body, env, cond)), ("exp", J::B(*expected)), ("msg", s(mk)), ("ops", J::A(ops)), ("t", bi(*target))]
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } | mir::TerminatorKind::FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("t", bi(*real_target))],
                x => vec![("k", s("other")), ("d", s(format!("{x:?}")))],
            };
            o.push(("sp", self.span(t.source_info.span)));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(o)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        (locals, upnames, blocks)
    }

    fn dump(&mut self, inst: Instance<'tcx>, root: DefId, key: &str) {
        let tcx = self.tcx;
        let did = inst.def_id();
        self.cur = Some(root);
        let env = ty::TypingEnv::post_analysis(tcx, root);
        let raw = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => { self.out.push((key.to_string(), J::O(vec![("path", s(path(tcx, did))), ("error", s("normalize"))]))); return; }
        };
        let (locals, upnames, blocks) = self.body_parts(&body, env, root);
        // rvalue-promoted constants, where their value is not known before monomorphisation
        let mut prom = vec![];
        if did.is_local() && matches!(inst.def, ty::InstanceKind::Item(_)) && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            let ps = tcx.promoted_mir(did);
            for pb in ps.iter() {
                match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, pb.clone())) {
                    Ok(x) => { let (l, _, b) = self.body_parts(&x, env, root);
                        prom.push(J::O(vec![("path", s(path(tcx, did))), ("span", self.span(tcx.def_span(did))), ("argc", J::I(0)), ("closure", J::B(false)),
                            ("locals", J::A(l)), ("upvars", J::A(vec![])), ("blocks", J::A(b))])); }
                    Err(_) => prom.push(J::N),
                }
            }
        }
        let o = vec![("path", s(path(tcx, did))), ("span", self.span(tcx.def_span(did))), ("argc", J::I(body.arg_count as i128)),
            ("closure", J::B(tcx.is_closure_like(did))), ("locals", J::A(locals)), ("upvars", J::A(upnames)), ("blocks", J::A(blocks)), ("promoted", J::A(prom)),
            ("root", s(path(tcx, root)))];
        self.out.push((key.to_string(), J::O(o)));
    }
}

mod hirwalk {
    use rustc_hir::{self as hir, intravisit::{self, Visitor}};
    use rustc_middle::ty::TyCtxt;
    pub struct V<'tcx> { pub tcx: TyCtxt<'tcx>, pub uns: Vec<rustc_span::Span> }
    impl<'tcx> Visitor<'tcx> for V<'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt { self.tcx }
        fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
            if let hir::BlockCheckMode::UnsafeBlock(_) = b.rules { self.uns.push(b.span); }
            intravisit::walk_block(self, b);
        }
    }
}


struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("YP_FACTS") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let mut cx = Cx { tcx, tys: BTreeMap::new(), adts: BTreeMap::new(), externs: BTreeMap::new(), seen: HashSet::new(), work: VecDeque::new(), out: vec![], keymap: HashMap::new(), cur: None };
        let _ = &cx.keymap;
        let ev = tcx.effective_visibilities(());
        let mut fns: Vec<J> = vec![];
        let mut impls: Vec<J> = vec![];
        let mut items: Vec<J> = vec![];
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for l in &keys {
            let d = l.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) { continue; }
            if tcx.is_constructor(d) { continue; }
            let gen_ct = tcx.generics_of(d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance::new_raw(d, args);
            let key = cx.enqueue(inst, d, d);
            let parent = tcx.parent(d);
            let mut o = vec![("path", s(path(tcx, d))), ("key", s(key)), ("pub", J::B(ev.is_reachable(*l))), ("exported", J::B(ev.is_exported(*l))),
                ("vis_pub", J::B(tcx.visibility(d).is_public())),
                ("span", cx.span(tcx.def_span(d))), ("name", s(tcx.item_name(d)))];
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            o.push(("inputs", J::A(sig.inputs().iter().map(|t| s(with_no_trimmed_paths!(t.to_string()))).collect())));
            o.push(("output", s(with_no_trimmed_paths!(sig.output().to_string()))));
            o.push(("generics", J::I(gen_ct.own_params.len() as i128)));
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                o.push(("impl_self", s(with_no_trimmed_paths!(tcx.type_of(parent).instantiate_identity().skip_norm_wip().to_string()))));
                if of_trait { o.push(("trait", s(with_no_trimmed_paths!(path(tcx, tcx.impl_trait_ref(parent).skip_binder().def_id))))); }
                o.push(("derived", J::B(tcx.is_builtin_derived(parent))));
            } else if let DefKind::Trait = tcx.def_kind(parent) { o.push(("in_trait", s(path(tcx, parent)))); }
            fns.push(J::O(o));
        }
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            let k = tcx.def_kind(d);
            items.push(J::O(vec![("path", s(path(tcx, d))), ("kind", s(format!("{k:?}"))), ("span", cx.span(tcx.def_span(d)))]));
            if let DefKind::Impl { of_trait } = k {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", s(with_no_trimmed_paths!(st.to_string()))), ("span", cx.span(tcx.def_span(d))),
                    ("derived", J::B(tcx.is_builtin_derived(d)))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).skip_binder();
                    let h = tcx.impl_trait_header(d);
                    o.push(("trait", s(path(tcx, tr.def_id))));
                    o.push(("trait_ref", s(with_no_trimmed_paths!(tr.to_string()))));
                    o.push(("unsafe", J::B(!h.safety.is_safe())));
                    o.push(("neg", J::B(matches!(h.polarity, ty::ImplPolarity::Negative))));
                }
                let v: Vec<J> = tcx.associated_items(d).in_definition_order().map(|a| s(a.name())).collect();
                o.push(("items", J::A(v)));
                impls.push(J::O(o));
            }
            if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union) { cx.adt(tcx.adt_def(d)); }
            if matches!(k, DefKind::Static { .. }) { let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                items.push(J::O(vec![("path", s(path(tcx, d))), ("kind", s(format!("{k:?}"))), ("span", cx.span(tcx.def_span(d))),
                    ("ty", s(with_no_trimmed_paths!(t.to_string()))), ("freeze", J::B(t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized())))])); }
            if matches!(k, DefKind::TyAlias) { let t = tcx.type_of(d).instantiate_identity().skip_norm_wip(); cx.ty(t);
                items.push(J::O(vec![("path", s(path(tcx, d))), ("kind", s("alias_to")), ("to", s(with_no_trimmed_paths!(t.to_string())))])); }
        }
        while let Some((i, r, k)) = cx.work.pop_front() { cx.dump(i, r, &k); }
        // unsafe blocks
        let mut v = hirwalk::V { tcx, uns: vec![] };
        tcx.hir_walk_toplevel_module(&mut v);
        let uns: Vec<J> = v.uns.iter().filter(|sp| !sp.from_expansion() || sp.ctxt().outer_expn_data().macro_def_id.is_some_and(|d| d.is_local())).map(|sp| cx.span(*sp)).collect();
        // inherent constants
        let mut consts = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(l), DefKind::Const { .. }) {
                let t = tcx.type_of(l).instantiate_identity().skip_norm_wip();
                let mut o = vec![("path", s(path(tcx, l.to_def_id()))), ("ty", s(with_no_trimmed_paths!(t.to_string())))];
                if let Ok(cv) = tcx.const_eval_poly(l.to_def_id()) {
                    if let Some(i) = cv.try_to_scalar_int() { o.push(("int", J::I(i.to_bits(i.size()) as i128))); }
                    if let ty::Ref(_, inner, _) = t.kind() { if inner.is_str() {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) { o.push(("str", s(String::from_utf8_lossy(b)))); } } }
                }
                consts.push(J::O(o));
            }
        }
        let crates: Vec<J> = tcx.crates(()).iter().map(|c| s(tcx.crate_name(*c))).collect();
        let feats: Vec<J> = tcx.sess.config.iter().filter(|(a, _)| a.as_str() == "feature").filter_map(|(_, b)| b.map(s)).collect();
        let freeze = freeze_facts(&mut cx);
        let top = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))), ("features", J::A(feats)), ("crates", J::A(crates)),
            ("fns", J::A(fns)), ("impls", J::A(impls)), ("items", J::A(items)), ("consts", J::A(consts)), ("unsafe_blocks", J::A(uns)),
            ("freeze", freeze),
            ("overflow_checks", J::B(tcx.sess.overflow_checks())),
            ("adts", J::M(cx.adts.into_iter().collect())), ("tys", J::M(cx.tys.into_iter().collect())),
            ("externs", J::M(cx.externs.into_iter().collect())), ("bodies", J::M(cx.out)),
        ]);
        let mut t = String::new();
        top.w(&mut t);
        std::fs::write(&out, t).unwrap();
        Compilation::Continue
    }
}

// Interior-mutability (Freeze) and auto-trait facts of the instantiated local types.
fn freeze_facts<'tcx>(cx: &mut Cx<'tcx>) -> J {
    let tcx = cx.tcx;
    let mut v = vec![];
    let mut locals: Vec<DefId> = vec![];
    for id in tcx.hir_crate_items(()).free_items() {
        let d = id.owner_id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) { locals.push(d); }
    }
    let reprs: Vec<DefId> = locals.iter().copied().filter(|d| { let p = path(tcx, *d); p.ends_with("::RcRepr") || p.ends_with("::ArcRepr") }).collect();
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    for d in &locals {
        let g = tcx.generics_of(*d);
        let tps: Vec<_> = g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).collect();
        if tps.len() > 1 { continue; }
        let cands: Vec<Ty<'tcx>> = if tps.is_empty() { vec![tcx.types.u8] } else if tps[0].name.as_str() == "R" {
            reprs.iter().map(|r| tcx.type_of(*r).instantiate_identity().skip_norm_wip()).collect() } else { vec![tcx.types.u8] };
        for c in cands {
            let args = ty::GenericArgs::for_item(tcx, *d, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => c.into(),
            });
            let t = Ty::new_adt(tcx, tcx.adt_def(*d), args);
            let env = ty::TypingEnv::fully_monomorphized();
            let fr = t.is_freeze(tcx, env);
            let chk = |tr: Option<DefId>| -> J {
                use rustc_infer::infer::TyCtxtInferExt;
                use rustc_trait_selection::infer::InferCtxtExt;
                match tr { Some(tr) => {
                    let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
                    J::B(infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions())
                } None => J::N }
            };
            v.push(J::O(vec![("ty", s(with_no_trimmed_paths!(t.to_string()))), ("freeze", J::B(fr)), ("send", chk(send)), ("sync", chk(sync))]));
        }
    }
    J::A(v)
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    if std::env::var("YP_FACTS").is_ok() && args.iter().any(|a| a == "--crate-name") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
