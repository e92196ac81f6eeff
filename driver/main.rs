// MIR dumper: a rustc driver that writes the type-checked program (MIR, resolved callees,
// ADT tables) of the analysed crates as JSON.  Invoked by cargo as RUSTC_WRAPPER.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------- minimal JSON ----------
#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    esc(n, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    esc(n, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    local_name: String,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    bodies: BTreeMap<String, J>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
}

const STD_PREFIX: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::control_flow::",
    "core::bool::",
    "core::cmp::",
];

impl<'tcx> D<'tcx> {
    fn krate(&self, d: DefId) -> String {
        if d.krate == LOCAL_CRATE {
            self.local_name.clone()
        } else {
            self.tcx.crate_name(d.krate).to_string()
        }
    }
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.krate(d), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    /// readable path: `crate::Type::method`, `<Type as Trait>::method`
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let k = self.krate(d);
        let dp = tcx.def_path_str(d);
        let p = ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
        let _ = dp;
        if d.krate == LOCAL_CRATE && !p.starts_with('<') {
            format!("{}::{}", k, p)
        } else {
            p
        }
    }
    fn adt_path(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.krate(d),
            self.tcx
                .def_path(d)
                .data
                .iter()
                .map(|x| format!("::{}", x.as_sym(true)))
                .collect::<String>()
        )
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(k) = self.tymap.get(&t) {
            return i(*k);
        }
        let idx = self.types.len();
        self.types.push(J::N);
        self.tymap.insert(t, idx);
        let st = ty::print::with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("s", s(st))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => {
                o.push(("k", s("int")));
                o.push(("n", s(x.name_str())));
            }
            ty::Uint(x) => {
                o.push(("k", s("uint")));
                o.push(("n", s(x.name_str())));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                let p = self.adt_path(def.did());
                o.push(("p", s(p.clone())));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
                self.adt(*def, p);
            }
            ty::Array(e, n) => {
                o.push(("k", s("array")));
                let e = self.ty(*e);
                o.push(("e", e));
                o.push((
                    "n",
                    n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::N),
                ));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::RawPtr(e, _) => {
                o.push(("k", s("ptr")));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("key", s(self.key(*d))));
                let a: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::FnDef(..) => {
                o.push(("k", s("fndef")));
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[idx] = J::O(o);
        i(idx)
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>, p: String) {
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::N);
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let local = matches!(self.krate(def.did()).as_str(), "service" | "trust_graph" | "fluence_keypair");
        let mut vs = vec![];
        for v in def.variants() {
            let mut fs = vec![];
            for f in &v.fields {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if local {
                    self.ty(t)
                } else {
                    J::N
                };
                fs.push(J::O(vec![
                    ("n", s(f.name.as_str())),
                    ("t", t),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            vs.push(J::O(vec![("n", s(v.name.as_str())), ("f", J::A(fs))]));
        }
        let discrs: Vec<J> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(_, d)| J::I(d.val as i128)).collect()
        } else {
            vec![]
        };
        let sp = self.span(self.tcx.def_span(def.did()));
        self.adts.insert(
            p,
            J::O(vec![
                ("kind", s(kind)),
                ("v", J::A(vs)),
                ("discr", J::A(discrs)),
                ("transparent", J::B(def.repr().transparent())),
                ("span", sp),
            ]),
        );
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::N;
        }
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    // ----- constants -----
    fn read_alloc(&mut self, id: AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 8 {
            return J::N;
        }
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(_)) => {}
            Some(GlobalAlloc::Static(d)) => {
                return J::O(vec![("static", s(self.key(d)))]);
            }
            Some(GlobalAlloc::Function { instance }) => {
                return J::O(vec![("fnptr", s(self.key(instance.def_id())))]);
            }
            _ => return J::N,
        }
        let GlobalAlloc::Memory(alloc) = self.tcx.global_alloc(id) else { return J::N };
        let a = alloc.inner();
        let env = TypingEnv::fully_monomorphized();
        let rd = |o: u64, n: u64| -> Option<u128> {
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize);
            let mut v = 0u128;
            for (k, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * k);
            }
            Some(v)
        };
        let size = a.len() as u64;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) else { return J::N };
                let n = l.size.bytes();
                if off + n > size {
                    return J::N;
                }
                let v = rd(off, n).unwrap();
                self.int_json(v, n, t)
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                if off + 8 > size {
                    return J::N;
                }
                let Some(prov) = a.provenance().get_ptr(rustc_abi::Size::from_bytes(off)) else {
                    return J::N;
                };
                let addend = rd(off, 8).unwrap() as u64;
                match e.kind() {
                    ty::Str | ty::Slice(_) => {
                        let len = rd(off + 8, 8).unwrap() as u64;
                        self.read_slice(prov.alloc_id(), addend, len, *e, depth + 1)
                    }
                    _ => self.read_alloc(prov.alloc_id(), addend, *e, depth + 1),
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                self.read_slice(id, off, n, Ty::new_slice(self.tcx, *e), depth + 1)
            }
            ty::Tuple(ts) => {
                let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) else { return J::N };
                let mut v = vec![];
                for (k, x) in ts.iter().enumerate() {
                    v.push(self.read_alloc(id, off + l.fields.offset(k).bytes(), x, depth + 1));
                }
                J::O(vec![("tuple", J::A(v))])
            }
            ty::Adt(def, args) if def.is_struct() => {
                let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) else { return J::N };
                let mut v = vec![];
                let fs: Vec<_> = def.non_enum_variant().fields.iter().collect();
                for (k, f) in fs.iter().enumerate() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    v.push(self.read_alloc(id, off + l.fields.offset(k).bytes(), ft, depth + 1));
                }
                let p = self.adt_path(def.did());
                self.adt(*def, p.clone());
                J::O(vec![("adt", s(p)), ("variant", J::I(0)), ("f", J::A(v))])
            }
            ty::Adt(def, _args) if def.is_enum() => {
                let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) else { return J::N };
                match &l.variants {
                    rustc_abi::Variants::Multiple {
                        tag,
                        tag_encoding: rustc_abi::TagEncoding::Direct,
                        tag_field,
                        ..
                    } if def.variants().iter().all(|v| v.fields.is_empty()) => {
                        let n = tag.size(&self.tcx).bytes();
                        let o = off + l.fields.offset(tag_field.as_usize()).bytes();
                        let v = rd(o, n).unwrap();
                        for (idx, d) in def.discriminants(self.tcx) {
                            if d.val == v {
                                let p = self.adt_path(def.did());
                                self.adt(*def, p.clone());
                                return J::O(vec![
                                    ("adt", s(p)),
                                    ("variant", i(idx.as_usize())),
                                    ("f", J::A(vec![])),
                                ]);
                            }
                        }
                        J::N
                    }
                    rustc_abi::Variants::Single { index } if def.variants()[*index].fields.is_empty() => {
                        let p = self.adt_path(def.did());
                        self.adt(*def, p.clone());
                        J::O(vec![("adt", s(p)), ("variant", i(index.as_usize())), ("f", J::A(vec![]))])
                    }
                    _ => J::N,
                }
            }
            _ => J::N,
        }
    }
    fn read_slice(&mut self, id: AllocId, off: u64, len: u64, t: Ty<'tcx>, depth: usize) -> J {
        match t.kind() {
            ty::Str => {
                if let Some(GlobalAlloc::Memory(alloc)) = self.tcx.try_get_global_alloc(id) {
                    let b = alloc
                        .inner()
                        .inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                    return J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]);
                }
                J::N
            }
            ty::Slice(e) => {
                let env = TypingEnv::fully_monomorphized();
                let Ok(l) = self.tcx.layout_of(env.as_query_input(*e)) else { return J::N };
                let n = l.size.bytes();
                let mut v = vec![];
                for k in 0..len {
                    v.push(self.read_alloc(id, off + k * n, *e, depth + 1));
                }
                J::O(vec![("arr", J::A(v))])
            }
            _ => J::N,
        }
    }
    fn int_json(&self, v: u128, n: u64, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool => J::O(vec![("bool", J::B(v != 0))]),
            ty::Int(_) => {
                let sh = 128 - 8 * n as u32;
                let x = ((v << sh) as i128) >> sh;
                J::O(vec![("int", J::I(x))])
            }
            _ => J::O(vec![("int", s(v.to_string()))]),
        }
    }
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(Scalar::Int(x)) => match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                    self.int_json(x.to_bits(x.size()), x.size().bytes(), t)
                }
                ty::Adt(def, args) if def.is_enum() => {
                    let v = x.to_bits(x.size());
                    let _ = args;
                    for (idx, d) in def.discriminants(self.tcx) {
                        if d.val == v && def.variant(idx).fields.is_empty() {
                            let p = self.adt_path(def.did());
                            self.adt(*def, p.clone());
                            return J::O(vec![
                                ("adt", s(p)),
                                ("variant", i(idx.as_usize())),
                                ("f", J::A(vec![])),
                            ]);
                        }
                    }
                    J::O(vec![("bits", s(v.to_string()))])
                }
                ty::Adt(def, args) if def.is_struct() => {
                    // newtype around a scalar
                    let fs: Vec<_> = def.non_enum_variant().fields.iter().collect();
                    let p = self.adt_path(def.did());
                    self.adt(*def, p.clone());
                    if fs.len() == 1 {
                        let ft = fs[0].ty(self.tcx, args).skip_norm_wip();
                        let inner = self.const_val(v, ft);
                        return J::O(vec![("adt", s(p)), ("variant", J::I(0)), ("f", J::A(vec![inner]))]);
                    }
                    J::O(vec![("bits", s(x.to_bits(x.size()).to_string()))])
                }
                _ => J::O(vec![("bits", s(x.to_bits(x.size()).to_string()))]),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let e = match t.kind() {
                    ty::Ref(_, e, _) | ty::RawPtr(e, _) => *e,
                    _ => return J::N,
                };
                self.read_alloc(prov.alloc_id(), off.bytes(), e, 0)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let e = match t.kind() {
                    ty::Ref(_, e, _) => *e,
                    _ => return J::N,
                };
                self.read_slice(alloc_id, 0, meta, e, 0)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                self.read_alloc(alloc_id, offset.bytes(), t, 0)
            }
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![];
        let tj = self.ty(t);
        o.push(("ty", tj));
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.callee(*d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), env);
            o.push(("fn", f));
            return J::O(o);
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            match uv.promoted {
                Some(p) => {
                    o.push(("promoted", s(format!("{}::promoted{}", self.key(uv.def), p.as_usize()))));
                }
                None => {
                    o.push(("const", s(self.key(uv.def))));
                    o.push(("cpath", s(self.path(uv.def))));
                }
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            if let Some(v) = ct.try_to_target_usize(self.tcx) {
                o.push(("v", J::O(vec![("int", s(v.to_string()))])));
                return J::O(o);
            }
        }
        let has_param = {
            use rustc_middle::ty::TypeVisitableExt;
            c.const_.has_param()
        };
        if !has_param {
            if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
                let j = self.const_val(v, t);
                o.push(("v", j));
            }
        }
        J::O(o)
    }
    fn inst(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let dk = self.tcx.def_kind(d);
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            return J::N;
        }
        match Instance::try_resolve(self.tcx, env, d, args) {
            Ok(Some(inst)) => {
                let kind = format!("{:?}", inst.def);
                let kind = kind.split('(').next().unwrap_or("").to_string();
                let rd = inst.def_id();
                self.want(rd);
                let impl_of = self.tcx.impl_of_assoc(rd);
                let derived = impl_of.map(|x| self.derived(x)).unwrap_or(false);
                J::O(vec![
                    ("key", s(self.key(rd))),
                    ("path", s(self.path(rd))),
                    ("kind", s(kind)),
                    ("derived", J::B(derived)),
                    ("krate", s(self.krate(rd))),
                ])
            }
            _ => J::N,
        }
    }
    fn derived(&self, d: DefId) -> bool {
        rustc_attr_ir::find_attr!(self.tcx, d, AutomaticallyDerived)
    }
    fn want(&mut self, d: DefId) {
        if d.krate == LOCAL_CRATE || self.seen.contains(&d) {
            return;
        }
        let k = self.key(d);
        if STD_PREFIX.iter().any(|p| k.starts_with(p))
            && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
            && self.tcx.is_mir_available(d)
        {
            self.seen.insert(d);
            self.queue.push_back(d);
        }
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("key", s(self.key(d))),
            ("path", s(self.path(d))),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("krate", s(self.krate(d))),
        ];
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("a", J::A(a)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.adt_path(tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            if let ty::Adt(def, _) = st.kind() {
                o.push(("impl_adt", s(self.adt_path(def.did()))));
            }
        }
        self.want(d);
        let r = self.inst(d, args, env);
        o.push(("r", r));
        // secondary resolution through std blanket impls
        let p = self.key(d);
        let two = |d: &mut Self, tr: &str, m: &str, args: Vec<ty::GenericArg<'tcx>>| -> J {
            let Some(trd) = d.find_trait(tr) else { return J::N };
            let m = rustc_span::Symbol::intern(m);
            let Some(item) = d.tcx.associated_items(trd).in_definition_order().find(|x| x.name() == m) else {
                return J::N;
            };
            let a = d.tcx.mk_args(&args);
            d.inst(item.def_id, a, env)
        };
        let ga = |k: usize| args.get(k).copied();
        let sec = match p.as_str() {
            "core::convert::Into::into" if args.len() >= 2 => {
                two(self, "From", "from", vec![ga(1).unwrap(), ga(0).unwrap()])
            }
            "core::convert::TryInto::try_into" if args.len() >= 2 => {
                two(self, "TryFrom", "try_from", vec![ga(1).unwrap(), ga(0).unwrap()])
            }
            "alloc::string::ToString::to_string" => {
                let t = args.types().next().unwrap().peel_refs();
                two(self, "Display", "fmt", vec![t.into()])
            }
            _ => {
                let nm = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
                let tr = tcx.trait_of_assoc(d).map(|t| self.adt_path(t)).unwrap_or_default();
                if nm == "ne" && tr == "core::cmp::PartialEq" {
                    two(self, "PartialEq", "eq", args.iter().collect())
                } else if tr == "core::cmp::PartialOrd" && nm != "partial_cmp" {
                    two(self, "PartialOrd", "partial_cmp", args.iter().collect())
                } else if (nm == "new_display" || nm == "new_debug") && self.krate(d) == "core" {
                    let t = args.types().next().unwrap().peel_refs();
                    let tn = if nm == "new_display" { "Display" } else { "Debug" };
                    two(self, tn, "fmt", vec![t.into()])
                } else if nm == "parse" && self.krate(d) == "core" {
                    let t: Vec<_> = args.types().collect();
                    if let Some(t) = t.last() {
                        two(self, "FromStr", "from_str", vec![(*t).into()])
                    } else {
                        J::N
                    }
                } else {
                    J::N
                }
            }
        };
        if !matches!(sec, J::N) {
            o.push(("r2", sec));
        }
        J::O(o)
    }
    fn find_trait(&self, n: &str) -> Option<DefId> {
        let want = match n {
            "From" => "core::convert::From",
            "TryFrom" => "core::convert::TryFrom",
            "Display" => "core::fmt::Display",
            "Debug" => "core::fmt::Debug",
            "PartialEq" => "core::cmp::PartialEq",
            "PartialOrd" => "core::cmp::PartialOrd",
            "FromStr" => "core::str::traits::FromStr",
            _ => return None,
        };
        self.tcx.all_traits_including_private().find(|d| self.adt_path(*d) == want)
    }

    // ----- bodies -----
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => pr.push(J::A(vec![s("*")])),
                ProjectionElem::Field(f, _) => {
                    let mut nm = f.as_usize().to_string();
                    let mut ap = String::new();
                    if let ty::Tuple(_) = pt.ty.kind() {
                        ap = "()".into();
                    }
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        ap = self.adt_path(def.did());
                        self.adt(*def, ap.clone());
                        let v = match pt.variant_index {
                            Some(v) => v,
                            None => rustc_abi::FIRST_VARIANT,
                        };
                        if !def.variants().is_empty() && f.as_usize() < def.variant(v).fields.len() {
                            nm = def.variant(v).fields[f].name.to_string();
                        }
                    }
                    pr.push(J::A(vec![s("f"), s(nm), s(ap)]));
                }
                ProjectionElem::Downcast(_, v) => {
                    let mut nm = v.as_usize().to_string();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        nm = def.variant(v).name.to_string();
                    }
                    pr.push(J::A(vec![s("d"), s(nm)]));
                }
                ProjectionElem::Index(l) => pr.push(J::A(vec![s("i"), i(l.as_usize())])),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    pr.push(J::A(vec![s("ci"), i(offset as usize), i(min_length as usize), J::B(from_end)]))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    pr.push(J::A(vec![s("ss"), i(from as usize), i(to as usize), J::B(from_end)]))
                }
                _ => pr.push(J::A(vec![s("o")])),
            }
            pt = pt.projection_ty(tcx, e);
        }
        J::A(vec![i(p.local.as_usize()), J::A(pr)])
    }
    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, body)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, body)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c, env)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, body, env)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                s("repeat"),
                self.operand(o, body, env),
                n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::N),
            ]),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), self.place(p, body)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(p, body)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.key(*d))]),
            Rvalue::Cast(k, o, t) => {
                let kd = format!("{:?}", k);
                let from = self.ty(o.ty(&body.local_decls, self.tcx));
                let o2 = self.operand(o, body, env);
                let tj = self.ty(*t);
                J::A(vec![s("cast"), s(kd), o2, tj, from])
            }
            Rvalue::BinaryOp(op, b) => J::A(vec![
                s("bin"),
                s(format!("{:?}", op)),
                self.operand(&b.0, body, env),
                self.operand(&b.1, body, env),
                self.ty(b.0.ty(&body.local_decls, self.tcx)),
            ]),
            Rvalue::UnaryOp(op, o) => {
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(o, body, env)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let tj = self.ty(t);
                J::A(vec![s("discr"), self.place(p, body), tj])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|x| self.operand(x, body, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let p = self.adt_path(*d);
                        self.adt(def, p.clone());
                        let var = def.variant(*v);
                        let names: Vec<J> = match active {
                            Some(f) => vec![s(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| s(f.name.as_str())).collect(),
                        };
                        J::A(vec![s("adt"), s(p), s(var.name.as_str()), J::A(names), J::B(def.is_enum())])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.key(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, body)])])
            }
            Rvalue::Reborrow(_, _, p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, body)])])
            }
            _ => J::A(vec![s("unknown"), s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, key: String, def: DefId, kind: &str) {
        let tcx = self.tcx;
        let env = body.typing_env(tcx);
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names: BTreeMap<String, J> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize().to_string()).or_insert(s(v.name.as_str()));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let ln = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(&b.1, body, env);
                        st.push(J::A(vec![s("="), p, r, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        st.push(J::A(vec![s("setd"), p, i(variant_index.as_usize()), ln]));
                    }
                    StatementKind::Intrinsic(n) => {
                        st.push(J::A(vec![s("intr"), s(format!("{:?}", n)), J::N, ln]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, body, env);
                    let dt = self.ty(discr.ty(&body.local_decls, tcx));
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(a, b)| J::A(vec![s(a.to_string()), i(b.as_usize())]))
                        .collect();
                    J::A(vec![s("switch"), d, J::A(v), i(targets.otherwise().as_usize()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("resume")])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![s("drop"), self.place(place, body), i(target.as_usize())])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => self.konst(c, env),
                        o => J::O(vec![("op", self.operand(o, body, env))]),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| self.ty(x.node.ty(&body.local_decls, tcx)))
                        .collect();
                    let d = self.place(destination, body);
                    let dt = self.ty(destination.ty(&body.local_decls, tcx).ty);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(|x| i(x.as_usize())).unwrap_or(J::N),
                        J::A(at),
                        dt,
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(cond, body, env);
                    let (mk, mo): (&str, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds",
                            vec![self.operand(len, body, env), self.operand(index, body, env)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            "overflow",
                            vec![
                                s(format!("{:?}", op)),
                                self.operand(a, body, env),
                                self.operand(b, body, env),
                            ],
                        ),
                        AssertKind::DivisionByZero(_) => ("divzero", vec![]),
                        AssertKind::RemainderByZero(_) => ("remzero", vec![]),
                        _ => ("other", vec![]),
                    };
                    J::A(vec![
                        s("assert"),
                        c,
                        J::B(*expected),
                        i(target.as_usize()),
                        s(mk),
                        J::A(mo),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_usize())])
                }
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("l", ln),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        let mut o = vec![
            ("path", s(self.path(def))),
            ("name", s(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_default())),
            ("krate", s(self.krate(def))),
            ("kind", s(kind)),
            ("span", self.span(body.span)),
            ("argc", i(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::M(names)),
            ("blocks", J::A(blocks)),
        ];
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(def).is_public())));
            let reach = def.as_local().map(|l| {
                tcx.effective_visibilities(()).is_reachable(l)
            }).unwrap_or(false);
            o.push(("reach", J::B(reach)));
        }
        if let Some(im) = tcx.impl_of_assoc(def) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self_ty", self.ty(st)));
            o.push(("derived", J::B(self.derived(im))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(self.adt_path(tr.def_id))));
                let a: Vec<J> = tr.args.types().skip(1).map(|x| self.ty(x)).collect();
                o.push(("targs", J::A(a)));
            }
        }
        if let Some(p) = tcx.opt_parent(def) {
            o.push(("parent", s(self.key(p))));
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) && kind != "promoted" {
            // type parameters, in the order of a callee's type arguments; the last `own` are the function's
            let gen: Vec<J> = ty::GenericArgs::identity_for_item(tcx, def)
                .types()
                .map(|x| s(x.to_string()))
                .collect();
            let own = tcx
                .generics_of(def)
                .own_params
                .iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .count();
            if !gen.is_empty() {
                o.push(("gen", J::A(gen)));
                o.push(("own", i(own)));
            }
        }
        self.bodies.insert(key, J::O(o));
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        for ld in tcx.hir_body_owners() {
            let def = ld.to_def_id();
            let dk = tcx.def_kind(def);
            let key = self.key(def);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if !tcx.is_mir_available(def) {
                        continue;
                    }
                    let b = tcx.optimized_mir(def);
                    self.body(b, key.clone(), def, if dk == DefKind::Closure { "closure" } else { "fn" });
                    let pr = tcx.promoted_mir(def);
                    for (n, p) in pr.iter_enumerated() {
                        self.body(p, format!("{}::promoted{}", key, n.as_usize()), def, "promoted");
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let b = tcx.mir_for_ctfe(def);
                    self.body(b, key.clone(), def, "const");
                    let pr = tcx.promoted_mir(def);
                    for (n, p) in pr.iter_enumerated() {
                        self.body(p, format!("{}::promoted{}", key, n.as_usize()), def, "promoted");
                    }
                }
                _ => {}
            }
        }
        while let Some(d) = self.queue.pop_front() {
            let b = tcx.optimized_mir(d);
            let k = self.key(d);
            self.body(b, k, d, "std");
        }
    }
}

struct Cb {
    out: String,
    name: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut d = D {
            tcx,
            local_name: self.name.clone(),
            types: vec![],
            tymap: HashMap::new(),
            adts: BTreeMap::new(),
            bodies: BTreeMap::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
        };
        d.run();
        let j = J::O(vec![
            ("crate", s(self.name.clone())),
            ("types", J::A(std::mem::take(&mut d.types))),
            ("adts", J::M(std::mem::take(&mut d.adts))),
            ("bodies", J::M(std::mem::take(&mut d.bodies))),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(format!("{}/{}.json", self.out, self.name), o).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the path of rustc
    let rustc = args.remove(1);
    let mut name = String::new();
    let mut bin = false;
    for k in 0..args.len() {
        if args[k] == "--crate-name" {
            name = args[k + 1].clone();
        }
        if args[k] == "--crate-type" && args[k + 1] == "bin" {
            bin = true;
        }
    }
    let out = std::env::var("SA_OUT").unwrap_or_default();
    let is_build = name == "build_script_build";
    let want = match (name.as_str(), bin) {
        ("fluence_keypair", false) => Some("fluence_keypair"),
        ("trust_graph", false) => Some("trust_graph"),
        ("trust_graph", true) => Some("service"),
        ("sa_prelude", false) => Some("sa_prelude"),
        _ => None,
    };
    if want.is_none() || out.is_empty() || is_build {
        let e = std::process::Command::new(&rustc).args(&args[1..]).status();
        std::process::exit(e.ok().and_then(|x| x.code()).unwrap_or(101));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums,-ElaborateBoxDerefs".into());
    let mut cb = Cb { out, name: want.unwrap().into() };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
