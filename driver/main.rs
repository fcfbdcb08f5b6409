// Facts extractor: a rustc driver (injected with RUSTC_WRAPPER) that dumps the
// type-checked program of the `vcard4` crate -- MIR of every instance reachable
// from the crate's own functions, ADT layouts, attributes and evaluated
// constants -- as JSON.  It decides nothing; the rules live in ../engine.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_ast_pretty;
extern crate rustc_data_structures;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn o(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(out, "{}", i);
            }
            J::S(x) => {
                out.push('"');
                for c in x.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::S(k.clone()).w(out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
    adt_queue: VecDeque<DefId>,
    fns: BTreeMap<String, J>,
    queue: VecDeque<(String, Instance<'tcx>, bool)>,
    seen: HashSet<String>,
}

// external modules whose (small, generic) bodies are worth analysing themselves
const INLINE_EXT: &[&str] = &[
    "core::option", "std::option", "core::result", "std::result", "core::ops", "std::ops",
    "core::iter", "std::iter", "core::bool", "std::bool", "core::convert", "std::convert",
    "core::mem", "std::mem", "core::cmp", "std::cmp", "core::tuple", "std::tuple", "core::array", "std::array",
    "core::borrow", "std::borrow", "alloc::borrow", "core::clone", "core::default", "std::clone", "std::default",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", f, lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.tyid(t) as i128)
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.tys.push(J::Null);
        self.tymap.insert(t, id);
        let st = with_no_trimmed_paths!(format!("{}", t));
        let mut v: Vec<(&str, J)> = vec![("s", s(st))];
        match *t.kind() {
            ty::Bool => v.push(("k", s("bool"))),
            ty::Char => v.push(("k", s("char"))),
            ty::Str => v.push(("k", s("str"))),
            ty::Never => v.push(("k", s("never"))),
            ty::Int(_) | ty::Uint(_) => v.push(("k", s("int"))),
            ty::Float(_) => v.push(("k", s("float"))),
            ty::Adt(def, args) => {
                v.push(("k", s("adt")));
                v.push(("adt", s(self.path(def.did()))));
                let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                v.push(("args", J::A(a)));
                if self.adt_seen.insert(def.did()) {
                    self.adt_queue.push_back(def.did());
                }
            }
            ty::Ref(_, inner, m) => {
                v.push(("k", s("ref")));
                v.push(("mut", J::B(m.is_mut())));
                let x = self.ty(inner);
                v.push(("t", x));
            }
            ty::RawPtr(inner, m) => {
                v.push(("k", s("ptr")));
                v.push(("mut", J::B(m.is_mut())));
                let x = self.ty(inner);
                v.push(("t", x));
            }
            ty::Slice(inner) => {
                v.push(("k", s("slice")));
                let x = self.ty(inner);
                v.push(("t", x));
            }
            ty::Array(inner, n) => {
                v.push(("k", s("array")));
                let x = self.ty(inner);
                v.push(("t", x));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    v.push(("n", J::I(n as i128)));
                }
            }
            ty::Tuple(ts) => {
                v.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                v.push(("ts", J::A(a)));
            }
            ty::Closure(d, args) => {
                v.push(("k", s("closure")));
                v.push(("def", s(format!("{:?}", d))));
                let _ = args;
            }
            ty::FnDef(d, _) => {
                v.push(("k", s("fndef")));
                v.push(("def", s(self.path(d.into()))));
            }
            ty::FnPtr(..) => v.push(("k", s("fnptr"))),
            ty::Dynamic(..) => v.push(("k", s("dyn"))),
            ty::Param(_) => v.push(("k", s("param"))),
            _ => v.push(("k", s("other"))),
        }
        self.tys[id] = o(v);
        id
    }

    fn attrs(&self, hid: rustc_hir::HirId) -> J {
        let mut out = Vec::new();
        for a in self.tcx.hir_attrs(hid) {
            if let rustc_attr_ir::Attribute::Tool(it) | rustc_attr_ir::Attribute::DeriveHelper(it) = a {
                let p: Vec<String> = it.path.segments.iter().map(|x| x.to_string()).collect();
                let args = match &it.args {
                    rustc_attr_ir::AttrArgs::Empty => String::new(),
                    rustc_attr_ir::AttrArgs::Delimited(d) => rustc_ast_pretty::pprust::tts_to_string(&d.tokens),
                    rustc_attr_ir::AttrArgs::Eq { expr, .. } => format!("= {}", expr.symbol),
                };
                out.push(J::A(vec![s(p.join("::")), s(args)]));
            }
        }
        J::A(out)
    }

    fn dump_adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let key = self.path(d);
        let mut variants = Vec::new();
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
            let mut fields = Vec::new();
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let tt = self.ty(t);
                let at = match f.did.as_local() {
                    Some(l) => self.attrs(tcx.local_def_id_to_hir_id(l)),
                    None => J::A(vec![]),
                };
                fields.push(o(vec![
                    ("name", s(f.name.to_string())),
                    ("ty", tt),
                    ("attrs", at),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            let at = match v.def_id.as_local() {
                Some(l) => self.attrs(tcx.local_def_id_to_hir_id(l)),
                None => J::A(vec![]),
            };
            variants.push(o(vec![
                ("name", s(v.name.to_string())),
                ("discr", J::I(discr)),
                ("fields", J::A(fields)),
                ("attrs", at),
            ]));
        }
        let at = match d.as_local() {
            Some(l) => self.attrs(tcx.local_def_id_to_hir_id(l)),
            None => J::A(vec![]),
        };
        let sp = self.span(tcx.def_span(d));
        let item = o(vec![
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(d.is_local())),
            ("variants", J::A(variants)),
            ("attrs", at),
            ("pub", J::B(tcx.visibility(d).is_public())),
            ("span", sp),
        ]);
        self.adts.insert(key, item);
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 8 {
            return o(vec![("k", s("opaque"))]);
        }
        match (v, t.kind()) {
            (ConstValue::Scalar(interpret::Scalar::Int(i)), k) => match k {
                ty::Bool => return o(vec![("k", s("bool")), ("v", J::B(i.try_to_bool().unwrap_or(false)))]),
                ty::Char => {
                    let c = char::from_u32(i.to_bits(i.size()) as u32).unwrap_or('?');
                    return o(vec![("k", s("char")), ("v", s(c.to_string()))]);
                }
                ty::Int(_) => return o(vec![("k", s("int")), ("v", J::I(i.to_int(i.size())))]),
                ty::Uint(_) => return o(vec![("k", s("int")), ("v", J::I(i.to_bits(i.size()) as i128))]),
                ty::Float(_) => {
                    return o(vec![("k", s("float")), ("v", J::I(i.to_bits(i.size()) as i128))]);
                }
                _ => {}
            },
            (ConstValue::Slice { .. }, ty::Ref(_, inner, _)) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return o(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).to_string()))]);
                }
            }
            (ConstValue::Slice { .. }, ty::Ref(_, inner, _)) => {
                if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return o(vec![("k", s("bytes")), ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]);
                        }
                    }
                }
            }
            (ConstValue::ZeroSized, _) => {}
            (ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), ty::Ref(_, inner, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                if let Some(interpret::GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(aid) {
                    let pv = ConstValue::Indirect { alloc_id: aid, offset: off };
                    let r = self.cval(pv, *inner, depth + 1);
                    return o(vec![("k", s("ref")), ("v", r)]);
                }
                return o(vec![("k", s("opaque"))]);
            }
            _ => {}
        }
        match *t.kind() {
            ty::Array(e, _) if e == tcx.types.u8 => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let Some(n) = match t.kind() { ty::Array(_, n) => n.try_to_target_usize(tcx), _ => None } {
                        if let Some(interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                            let a = a.inner();
                            let st = offset.bytes() as usize;
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize);
                            return o(vec![("k", s("bytes")), ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]);
                        }
                    }
                }
            }
            ty::Ref(_, inner, _) => {
                // a reference stored inside an allocation
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let Some(interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                        let a = a.inner();
                        let psz = tcx.data_layout.pointer_size();
                        let r = interpret::alloc_range(offset, psz);
                        if let Ok(interpret::Scalar::Ptr(p, _)) = a.read_scalar(&tcx, r, true) {
                            let (prov, off) = p.into_raw_parts();
                            let pid = prov.alloc_id();
                            if inner.is_str() {
                                let r2 = interpret::alloc_range(offset + psz, psz);
                                if let Ok(len) = a.read_scalar(&tcx, r2, false) {
                                    let len = len.to_target_usize(&tcx).discard_err().unwrap_or(0) as usize;
                                    if let Some(interpret::GlobalAlloc::Memory(b)) = tcx.try_get_global_alloc(pid) {
                                        let st = off.bytes() as usize;
                                        let bytes = b.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + len);
                                        return o(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(bytes).to_string()))]);
                                    }
                                }
                            } else if inner.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                                let pv = ConstValue::Indirect { alloc_id: pid, offset: off };
                                let r = self.cval(pv, inner, depth + 1);
                                return o(vec![("k", s("ref")), ("v", r)]);
                            }
                        }
                    }
                }
                return o(vec![("k", s("opaque"))]);
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    let mut out = vec![("k", s("agg"))];
                    if let ty::Adt(def, _) = t.kind() {
                        out.push(("adt", s(self.path(def.did()))));
                        let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                        out.push(("vi", J::I(vi as i128)));
                        let _ = self.ty(t);
                    } else if let ty::Array(..) = t.kind() {
                        out.push(("adt", s("array")));
                    } else {
                        out.push(("adt", s("tuple")));
                    }
                    out.push(("fs", J::A(fs)));
                    return o(out);
                }
            }
            _ => {}
        }
        if matches!(v, ConstValue::ZeroSized) {
            return o(vec![("k", s("zst"))]);
        }
        match v {
            ConstValue::Indirect { alloc_id, offset } if matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char) => {
                if let Some(interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                    if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                        if let Ok(sc) = a.inner().read_scalar(&tcx, interpret::alloc_range(offset, l.size), false) {
                            return self.cval(ConstValue::Scalar(sc), t, depth + 1);
                        }
                    }
                }
            }
            _ => {}
        }
        o(vec![("k", s("opaque")), ("s", s(format!("{:?}", v)))])
    }

    fn konst(&mut self, c: &Const<'tcx>, tenv: TypingEnv<'tcx>, sp: Span) -> J {
        let t = c.ty();
        let tj = self.ty(t);
        let mut extra = Vec::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                extra.push(("item", s(self.path(u.def))));
            }
        }
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let callee = self.callee((*d).into(), args, tenv);
            return o(vec![("ty", tj), ("fn", callee)]);
        }
        let v = match c.eval(self.tcx, tenv, sp) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => o(vec![("k", s("opaque"))]),
        };
        let mut out = vec![("ty", tj), ("c", v)];
        out.extend(extra);
        o(out)
    }

    fn inst_key(&self, i: &Instance<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{:?}|{}", i.def, {
            let a: Vec<String> = i.args.iter().map(|x| format!("{}", x)).collect();
            a.join(",")
        }))
    }

    fn want_body(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        if d.is_local() {
            return !self.is_generated_lexer(d);
        }
        let p = self.path(d);
        let p2 = p.trim_start_matches('<');
        let ok = INLINE_EXT.iter().any(|m| p.starts_with(m) || p2.starts_with(m));
        // trait-impl paths print as `<T as core::...>::f`: use the module path instead
        let dp = format!("{:?}", d);
        let ok2 = INLINE_EXT.iter().any(|m| {
            let last = m.split("::").last().unwrap();
            let krate = m.split("::").next().unwrap();
            dp.contains(&format!("~ {}[", krate)) && dp.contains(&format!("::{}::", last))
        });
        // std iterators over strings/slices/vectors are modelled, not inlined
        let no = ["::str::", "::slice::", "::vec::", "::char::", "::fmt::", "::num::"].iter().any(|m| dp.contains(m));
        (ok || ok2) && !no && tcx.is_mir_available(d)
    }

    fn is_generated_lexer(&self, d: DefId) -> bool {
        let mut cur = Some(d);
        while let Some(x) = cur {
            let sp = self.tcx.def_span(x);
            let mut ctxt = sp.ctxt();
            while !ctxt.is_root() {
                let e = ctxt.outer_expn_data();
                if let rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Derive, n) = e.kind {
                    if n.as_str() == "Logos" || n.as_str().ends_with("::Logos") {
                        return true;
                    }
                }
                ctxt = e.call_site.ctxt();
            }
            cur = self.tcx.opt_parent(x);
        }
        false
    }

    // resolved callee description
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, tenv: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let decl = self.path(d);
        let mut out = vec![("decl", s(decl))];
        let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        out.push(("targs", J::A(targs)));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let p = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(p) {
                DefKind::Variant => {
                    let ad = tcx.parent(p);
                    (ad, tcx.adt_def(ad).variant_index_with_id(p).as_usize())
                }
                _ => (p, 0),
            };
            out.push(("ctor", s(self.path(adt))));
            out.push(("vi", J::I(vi as i128)));
            return o(out);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            out.push(("trait", s(self.path(tr))));
            if tcx.fn_trait_kind_from_def_id(tr).is_some() {
                if let ty::FnDef(fd, fargs) = args.type_at(0).kind() {
                    let (fd, fargs) = ((*fd).into(), fargs.skip_binder());
                    let inner = self.callee(fd, fargs, tenv);
                    out.push(("fnitem", inner));
                    return o(out);
                }
            }
            out.push(("m", s(tcx.item_name(d).to_string())));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, tenv, d, args) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                out.push(("res", s(self.path(rd))));
                out.push(("local", J::B(rd.is_local())));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let st = with_no_trimmed_paths!(format!("{}", st));
                    out.push(("impl_self", s(st)));
                }
                match i.def {
                    InstanceKind::Item(_) => {
                        // track_caller => may panic by contract
                        if tcx.codegen_fn_attrs(rd).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER) {
                            out.push(("tc", J::B(true)));
                        }
                        let k = self.inst_key(&i);
                        if self.want_body(rd) {
                            if self.seen.insert(k.clone()) {
                                self.queue.push_back((k.clone(), i, false));
                            }
                            out.push(("key", s(k)));
                        } else if self.is_generated_lexer(rd) {
                            out.push(("lexer", J::B(true)));
                        }
                    }
                    InstanceKind::Intrinsic(_) => out.push(("intrinsic", s(tcx.item_name(rd).to_string()))),
                    InstanceKind::Virtual(..) => out.push(("virtual", J::B(true))),
                    InstanceKind::Shim(sk) => {
                        out.push(("shim", s(format!("{:?}", sk).split('(').next().unwrap_or("").split(' ').next().unwrap_or("").to_string())));
                        if let ty::ShimKind::ClosureOnce { closure, .. } = sk {
                            // the closure's own body
                            if let ty::Closure(cd, cargs) = args.type_at(0).kind() {
                                let ci = Instance::new_raw((*cd).into(), *cargs);
                                let _ = closure;
                                let k = self.inst_key(&ci);
                                if self.want_body((*cd).into()) {
                                    if self.seen.insert(k.clone()) {
                                        self.queue.push_back((k.clone(), ci, false));
                                    }
                                    out.push(("key", s(k)));
                                }
                            }
                        }
                    }
                    _ => {}
                }
                if tcx.is_closure_like(rd) {
                    out.push(("closure", J::B(true)));
                }
                // an overridden iterator method of a modelled iterator: also offer the
                // trait's default body
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    if self.path(tr).ends_with("iter::Iterator") && rd != d && !rd.is_local() && tcx.is_mir_available(d) {
                        let k = {
                            let di = Instance::new_raw(d, args);
                            let k = self.inst_key(&di);
                            if self.seen.insert(k.clone()) {
                                self.queue.push_back((k.clone(), di, false));
                            }
                            k
                        };
                        out.push(("dflt", s(k)));
                    }
                }
            }
            _ => {
                out.push(("unresolved", J::B(true)));
            }
        }
        // the Display/FromStr/... implementation a generic std helper dispatches to
        let decl = self.path(d);
        let want: Option<(&str, &str, usize)> = if decl.ends_with("ToString::to_string") || decl.ends_with("new_display") {
            Some(("Display", "fmt", 0))
        } else if decl.ends_with("new_debug") {
            Some(("Debug", "fmt", 0))
        } else if decl.ends_with("str>::parse") {
            Some(("FromStr", "from_str", 0))
        } else if decl.ends_with("FromIterator::from_iter") {
            Some(("Iterator", "next", 2))
        } else if decl.ends_with("::extend") {
            Some(("IntoIterator", "into_iter", usize::MAX))
        } else {
            None
        };
        if let Some((tr, m, ix)) = want {
            let trd = match tr {
                "Display" => tcx.get_diagnostic_item(rustc_span::sym::Display),
                "Debug" => tcx.get_diagnostic_item(rustc_span::sym::Debug),
                "FromStr" => tcx
                    .clauses_of(d)
                    .clauses
                    .iter()
                    .filter_map(|(c, _)| c.as_trait_clause())
                    .map(|c| c.def_id())
                    .find(|t| tcx.item_name(*t).as_str() == "FromStr"),
                "Iterator" => tcx.get_diagnostic_item(rustc_span::sym::Iterator),
                "IntoIterator" => tcx.get_diagnostic_item(rustc_span::sym::IntoIterator),
                _ => None,
            };
            let tys: Vec<Ty<'tcx>> = args.types().collect();
            let t = if ix == usize::MAX { tys.last().copied() } else { tys.get(ix).copied() };
            if let (Some(trd), Some(t)) = (trd, t) {
                if let Some(md) = tcx.associated_item_def_ids(trd).iter().copied().find(|x| tcx.item_name(*x).as_str() == m) {
                    // look through references: Display for &T is Display for T
                    let mut t2 = t;
                    if tr == "Display" || tr == "Debug" {
                        while let ty::Ref(_, i, _) = t2.kind() {
                            t2 = *i;
                        }
                    }
                    let a2 = tcx.mk_args(&[t2.into()]);
                    let mut aux = self.callee(md, a2, tenv);
                    // what is extended by may be an iterator itself
                    let own = matches!(&aux, J::O(v) if v.iter().any(|(k, x)| k == "res" && matches!(x, J::S(n) if n == "<I as std::iter::IntoIterator>::into_iter")));
                    if tr == "IntoIterator" && own {
                        let it = tcx.get_diagnostic_item(rustc_span::sym::Iterator);
                        if let Some(nd) = it.and_then(|it| tcx.associated_item_def_ids(it).iter().copied().find(|x| tcx.item_name(*x).as_str() == "next")) {
                            aux = self.callee(nd, a2, tenv);
                        }
                    }
                    let tj = self.ty(t2);
                    out.push(("aux", aux));
                    out.push(("auxty", tj));
                }
            }
        }
        o(out)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = Vec::new();
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut ad = J::Null;
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if def.is_enum() || !def.variants().is_empty() {
                            if let Some(fd) = def.variant(vi).fields.get(f) {
                                name = fd.name.to_string();
                            }
                        }
                        ad = s(self.path(def.did()));
                    }
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), s(name), ad])
                }
                ProjectionElem::Downcast(_, vi) => {
                    let n = if let ty::Adt(def, _) = pt.ty.kind() { def.variant(vi).name.to_string() } else { String::new() };
                    J::A(vec![s("v"), J::I(vi.as_usize() as i128), s(n)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                _ => J::A(vec![s("?")]),
            };
            proj.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(proj)])
    }

    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, tenv: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let x = self.place(p, body);
                J::A(vec![s("cp"), x])
            }
            Operand::Move(p) => {
                let x = self.place(p, body);
                J::A(vec![s("mv"), x])
            }
            Operand::Constant(c) => {
                let x = self.konst(&c.const_, tenv, c.span);
                J::A(vec![s("k"), x])
            }
            _ => J::A(vec![s("rt")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, tenv: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(op, _) => {
                let x = self.operand(op, body, tenv);
                J::A(vec![s("use"), x])
            }
            Rvalue::Repeat(op, n) => {
                let x = self.operand(op, body, tenv);
                let n = n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), x, n])
            }
            Rvalue::Ref(_, bk, p) => {
                let x = self.place(p, body);
                J::A(vec![s("ref"), x, J::B(matches!(bk, BorrowKind::Mut { .. }))])
            }
            Rvalue::Reborrow(_, m, p) => {
                let x = self.place(p, body);
                J::A(vec![s("use"), J::A(vec![s("cp"), x]), J::B(m.is_mut())])
            }
            Rvalue::RawPtr(_, p) => {
                let x = self.place(p, body);
                J::A(vec![s("ref"), x, J::B(true)])
            }
            Rvalue::Cast(k, op, t) => {
                let x = self.operand(op, body, tenv);
                let from = op.ty(&body.local_decls, self.tcx);
                let f = self.ty(from);
                let t = self.ty(*t);
                let kn = format!("{:?}", k);
                J::A(vec![s("cast"), s(kn), x, t, f])
            }
            Rvalue::BinaryOp(b, ab) => {
                let x = self.operand(&ab.0, body, tenv);
                let y = self.operand(&ab.1, body, tenv);
                J::A(vec![s("bin"), s(format!("{:?}", b)), x, y])
            }
            Rvalue::UnaryOp(u, a) => {
                let x = self.operand(a, body, tenv);
                J::A(vec![s("un"), s(format!("{:?}", u)), x])
            }
            Rvalue::Discriminant(p) => {
                let x = self.place(p, body);
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                J::A(vec![s("discr"), x, t])
            }
            Rvalue::Aggregate(k, ops) => {
                let xs: Vec<J> = ops.iter().map(|op| self.operand(op, body, tenv)).collect();
                let (name, vi) = match &**k {
                    AggregateKind::Array(_) => ("array".to_string(), 0),
                    AggregateKind::Tuple => ("tuple".to_string(), 0),
                    AggregateKind::Adt(d, vi, ..) => (self.path(*d), vi.as_usize()),
                    AggregateKind::Closure(d, cargs) => {
                        let ci = Instance::new_raw((*d).into(), *cargs);
                        let k = self.inst_key(&ci);
                        if self.want_body((*d).into()) && self.seen.insert(k.clone()) {
                            self.queue.push_back((k.clone(), ci, false));
                        }
                        (format!("closure:{}", k), 0)
                    }
                    _ => ("other".to_string(), 0),
                };
                J::A(vec![s("agg"), s(name), J::I(vi as i128), J::A(xs)])
            }
            Rvalue::CopyForDeref(p) => {
                let x = self.place(p, body);
                J::A(vec![s("use"), J::A(vec![s("cp"), x])])
            }
            _ => J::A(vec![s("?"), s(format!("{:?}", r))]),
        }
    }

    fn dump_fn(&mut self, key: String, inst: Instance<'tcx>, identity: bool) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let tenv = if d.is_local() { TypingEnv::post_analysis(tcx, d) } else { TypingEnv::fully_monomorphized() };
        let has_params = {
            use rustc_middle::ty::TypeVisitableExt;
            inst.args.has_param()
        };
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = if identity || has_params {
            // generic: keep parameters (args may mention parameters of a caller, which
            // then stay opaque)
            if identity {
                raw.clone()
            } else {
                EarlyBinder::bind(tcx, raw.clone()).instantiate(tcx, inst.args).skip_norm_wip()
            }
        } else {
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, TypingEnv::fully_monomorphized(), EarlyBinder::bind(tcx, raw.clone()))
        };
        let tenv = if has_params || identity { tenv } else { TypingEnv::fully_monomorphized() };
        let mut locals = Vec::new();
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames: Vec<J> = Vec::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    upnames.push(s(v.name.to_string()));
                }
            }
        }
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            let n = names.get(&l.as_usize()).cloned();
            locals.push(J::A(vec![t, n.map(J::S).unwrap_or(J::Null)]));
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut stmts = Vec::new();
            if !bb.is_cleanup {
                for st in &bb.statements {
                    match &st.kind {
                        StatementKind::Assign(b) => {
                            let (p, r) = &**b;
                            let pj = self.place(p, &body);
                            let rj = self.rvalue(r, &body, tenv);
                            let sp = self.span(st.source_info.span);
                            stmts.push(J::A(vec![s("="), pj, rj, sp]));
                        }
                        StatementKind::StorageDead(l) => {
                            stmts.push(J::A(vec![s("dead"), J::I(l.as_usize() as i128)]));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let pj = self.place(place, &body);
                            stmts.push(J::A(vec![s("sd"), pj, J::I(variant_index.as_usize() as i128)]));
                        }
                        _ => {}
                    }
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = if bb.is_cleanup {
                J::A(vec![s("cleanup")])
            } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), J::I(target.as_usize() as i128)]),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let x = self.operand(discr, &body, tenv);
                        let dt = discr.ty(&body.local_decls, tcx);
                        let dt = self.ty(dt);
                        let ts: Vec<J> = targets
                            .iter()
                            .map(|(v, b)| J::A(vec![J::I(v as i128), J::I(b.as_usize() as i128)]))
                            .collect();
                        J::A(vec![s("switch"), x, J::A(ts), J::I(targets.otherwise().as_usize() as i128), dt])
                    }
                    TerminatorKind::Return => J::A(vec![s("return")]),
                    TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                    TerminatorKind::Drop { place, target, .. } => {
                        let x = self.place(place, &body);
                        J::A(vec![s("drop"), x, J::I(target.as_usize() as i128)])
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = self.operand(func, &body, tenv);
                        let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, &body, tenv)).collect();
                        let dst = self.place(destination, &body);
                        let tg = target.map(|t| J::I(t.as_usize() as i128)).unwrap_or(J::Null);
                        let aty: Vec<J> = args
                            .iter()
                            .map(|x| {
                                let t = x.node.ty(&body.local_decls, tcx);
                                self.ty(t)
                            })
                            .collect();
                        J::A(vec![s("call"), f, J::A(a), dst, tg, sp, J::A(aty)])
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let c = self.operand(cond, &body, tenv);
                        let (mk, mops): (String, Vec<J>) = match &**msg {
                            AssertKind::BoundsCheck { len, index } => {
                                let a = self.operand(len, &body, tenv);
                                let b = self.operand(index, &body, tenv);
                                ("bounds".into(), vec![a, b])
                            }
                            AssertKind::Overflow(op, a, b) => {
                                let a = self.operand(a, &body, tenv);
                                let b = self.operand(b, &body, tenv);
                                (format!("overflow {:?}", op), vec![a, b])
                            }
                            AssertKind::OverflowNeg(a) => {
                                let a = self.operand(a, &body, tenv);
                                ("overflow Neg".into(), vec![a])
                            }
                            AssertKind::DivisionByZero(a) => {
                                let a = self.operand(a, &body, tenv);
                                ("div0".into(), vec![a])
                            }
                            AssertKind::RemainderByZero(a) => {
                                let a = self.operand(a, &body, tenv);
                                ("rem0".into(), vec![a])
                            }
                            _ => ("other".into(), vec![]),
                        };
                        J::A(vec![s("assert"), c, J::B(*expected), s(mk), J::A(mops), J::I(target.as_usize() as i128), sp])
                    }
                    TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), J::I(real_target.as_usize() as i128)]),
                    TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), J::I(real_target.as_usize() as i128)]),
                    k => J::A(vec![s("?"), s(format!("{:?}", k))]),
                }
            };
            blocks.push(o(vec![("s", J::A(stmts)), ("t", tj)]));
        }
        let impl_of = tcx.impl_of_assoc(d);
        let mut extra: Vec<(&str, J)> = Vec::new();
        if let Some(im) = impl_of {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let stj = self.ty(st);
            extra.push(("impl_self", stj));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                extra.push(("impl_trait", s(self.path(tr.def_id))));
                extra.push(("impl_trait_full", s(with_no_trimmed_paths!(format!("{}", tr)))));
            }
        }
        if let Some(l) = d.as_local() {
            let root = tcx.typeck_root_def_id(l.to_def_id());
            if matches!(tcx.def_kind(root), DefKind::Fn | DefKind::AssocFn) {
                extra.push(("pub", J::B(tcx.effective_visibilities(()).is_reachable(root.expect_local()))));
            }
            // derive-generated?
            let sp = tcx.def_span(d);
            if sp.from_expansion() {
                let e = sp.ctxt().outer_expn_data();
                if let rustc_span::ExpnKind::Macro(mk, n) = e.kind {
                    extra.push(("macro", s(format!("{}:{}", mk.descr(), n))));
                }
            }
        }
        let argc = body.arg_count;
        let name = self.path(d);
        let dsp = self.span(tcx.def_span(d));
        let mut out = vec![
            ("name", s(name)),
            ("local", J::B(d.is_local())),
            ("span", dsp),
            ("argc", J::I(argc as i128)),
            ("closure", J::B(tcx.is_closure_like(d))),
            ("spread", body.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("identity", J::B(identity)),
            ("upnames", J::A(upnames)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ];
        out.extend(extra);
        self.fns.insert(key, o(out));
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            tys: vec![],
            tymap: HashMap::new(),
            adts: BTreeMap::new(),
            adt_seen: HashSet::new(),
            adt_queue: VecDeque::new(),
            fns: BTreeMap::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
        };
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut consts = Vec::new();
        let mut statics = Vec::new();
        for l in owners {
            let d = l.to_def_id();
            if cx.is_generated_lexer(d) {
                continue;
            }
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let generic = tcx.generics_of(d).requires_monomorphization(tcx);
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let inst = Instance::new_raw(d, args);
                    let k = cx.inst_key(&inst);
                    if cx.seen.insert(k.clone()) {
                        cx.queue.push_back((k, inst, generic));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if !tcx.generics_of(d).requires_monomorphization(tcx) {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        if let Ok(v) = tcx.const_eval_poly(d) {
                            let tj = cx.ty(t);
                            let vj = cx.cval(v, t, 0);
                            consts.push(o(vec![("name", s(cx.path(d))), ("ty", tj), ("c", vj)]));
                        }
                    }
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tj = cx.ty(t);
                    statics.push(o(vec![("name", s(cx.path(d))), ("ty", tj), ("mut", J::B(mutability.is_mut()))]));
                }
                _ => {}
            }
        }
        while let Some((k, i, id)) = cx.queue.pop_front() {
            cx.dump_fn(k, i, id);
        }
        // local ADTs even when unreachable from any body
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) && !cx.is_generated_lexer(id.to_def_id()) {
                if cx.adt_seen.insert(id.to_def_id()) {
                    cx.adt_queue.push_back(id.to_def_id());
                }
            }
        }
        while let Some(d) = cx.adt_queue.pop_front() {
            cx.dump_adt(d);
        }
        // trait impls of the crate
        let mut impls = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
                let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let stj = cx.ty(st);
                let mut e = vec![("self", stj)];
                if of_trait {
                    let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
                    e.push(("trait", s(cx.path(tr.def_id))));
                    e.push(("full", s(with_no_trimmed_paths!(format!("{}", tr)))));
                    let hdr = tcx.impl_trait_header(id);
                    e.push(("unsafe", J::B(!hdr.safety.is_safe())));
                }
                let items: Vec<J> = tcx.associated_item_def_ids(id).iter().map(|d| s(cx.path(*d))).collect();
                e.push(("items", J::A(items)));
                impls.push(o(e));
            }
        }
        while let Some(d) = cx.adt_queue.pop_front() {
            cx.dump_adt(d);
        }
        let crate_attrs = cx.attrs(rustc_hir::CRATE_HIR_ID);
        let doc = o(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("types", J::A(cx.tys)),
            ("adts", J::O(cx.adts.into_iter().collect())),
            ("fns", J::O(cx.fns.into_iter().collect())),
            ("consts", J::A(consts)),
            ("statics", J::A(statics)),
            ("impls", J::A(impls)),
            ("crate_attrs", crate_attrs),
        ]);
        let mut st = String::new();
        doc.w(&mut st);
        std::fs::write(&self.out, st).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is = |k: &str, v: &str| args.windows(2).any(|w| w[0] == k && w[1] == v);
    let target = is("--crate-name", "vcard4") && is("--crate-type", "lib") && !args.iter().any(|a| a == "--test");
    let out = std::env::var("VCARD_FACTS_OUT").unwrap_or_default();
    if target && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Zub-checks=no".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
