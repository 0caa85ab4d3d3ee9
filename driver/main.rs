//! Fact extractor: a rustc driver that dumps, for one crate, the monomorphic
//! MIR of every function reachable from the crate's own items (callees
//! resolved through the trait system), its types, impls and constants.
//! It never runs the analysed code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name, PrintTraitRefExt as _};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};

enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
fn i(x: usize) -> J {
    J::Int(x as i128)
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(n) => {
                let _ = write!(o, "{n}");
            }
            J::Str(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (n, x) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (n, (k, x)) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    seen: HashSet<Instance<'tcx>>,
    queue: VecDeque<Instance<'tcx>>,
}

fn p(f: impl FnOnce() -> String) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(f()))
}

struct Cx<'a, 'tcx> {
    d: &'a mut Dump<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

/// Small generic std functions whose own MIR is analysed like workspace code.
const INLINE_PREFIX: &[&str] = &[
    "std::option::", "std::result::", "std::convert::", "std::ops::", "std::cmp::", "std::mem::", "std::bool::",
    "std::array::", "<std::option::", "<std::result::", "<T as std::convert", "std::tuple", "std::default",
    "std::borrow::", "<std::ops", "<T as std::", "<std::boxed",
];
fn norm(path: &str) -> String {
    let mut x = path.to_string();
    for c in ["core", "alloc"] {
        for pre in ["", "<"] {
            let from = format!("{pre}{c}::");
            if x.starts_with(&from) {
                x = format!("{pre}std::{}", &x[from.len()..]);
            }
        }
    }
    x
}

impl<'tcx> Dump<'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> J {
        s(p(|| format!("{t}")))
    }
    fn dp(&self, d: DefId) -> String {
        p(|| self.tcx.def_path_str(d))
    }
    fn key(&self, inst: Instance<'tcx>) -> String {
        let base = p(|| self.tcx.def_path_str_with_args(inst.def_id(), inst.args));
        match inst.def {
            InstanceKind::Item(d) if self.tcx.is_closure_like(d) => {
                // args of a closure include its parent's
                format!("{base}")
            }
            InstanceKind::Item(_) => base,
            other => {
                let tag = format!("{other:?}");
                let tag = tag.split('(').next().unwrap_or("").to_string();
                let tag = if tag == "Shim" { format!("{other:?}").split('(').nth(1).unwrap_or("").to_string() } else { tag };
                format!("{base}#{tag}")
            }
        }
    }
    fn wants(&self, inst: Instance<'tcx>) -> bool {
        let InstanceKind::Item(d) = inst.def else { return false };
        if d.is_local() {
            return self.tcx.is_mir_available(d) || self.tcx.hir_maybe_body_owned_by(d.expect_local()).is_some();
        }
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        let path = self.dp(d);
        let krate = self.tcx.crate_name(d.krate);
        let krate = krate.as_str();
        if matches!(krate, "core" | "alloc" | "std") {
            // closures of inlinable std functions come with them
            return INLINE_PREFIX.iter().any(|x| norm(&path).starts_with(x));
        }
        // workspace crates: generic functions instantiated downstream
        matches!(krate, "wasp_compiler" | "wasm_merge" | "wastrumentation") || krate.starts_with("wastrumentation_")
    }
    fn push(&mut self, inst: Instance<'tcx>) {
        if self.wants(inst) && !inst.args.has_escaping_bound_vars() && self.seen.insert(inst) {
            self.queue.push_back(inst);
        }
    }

    fn resolve(&self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let args = self.tcx.erase_and_anonymize_regions(args);
        Instance::try_resolve(self.tcx, env, d, args).ok().flatten()
    }

    /// Resolve `<self_ty as Trait<args..>>::method`.
    fn resolve_trait(&self, env: TypingEnv<'tcx>, trait_path: &str, method: &str, tys: &[ty::GenericArg<'tcx>]) -> Option<Instance<'tcx>> {
        self.resolve_trait_x(env, trait_path, method, tys, None)
    }
    fn resolve_trait_x(&self, env: TypingEnv<'tcx>, trait_path: &str, method: &str, tys: &[ty::GenericArg<'tcx>], extra: Option<ty::GenericArg<'tcx>>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let tr = tcx.all_traits_including_private().find(|d| norm(&self.dp(*d)) == trait_path)?;
        let m = tcx.associated_items(tr).in_definition_order().find(|x| x.name().as_str() == method)?.def_id;
        let want = tcx.generics_of(tr).count();
        if want != tys.len() {
            return None;
        }
        let targs = tcx.mk_args(tys);
        let tref = ty::TraitRef::new_from_args(tcx, tr, targs);
        if targs.has_escaping_bound_vars() { return None; }
        let _ = tref;
        let args = ty::GenericArgs::for_item(tcx, m, |param, _| {
            if (param.index as usize) < tys.len() {
                tys[param.index as usize]
            } else {
                match param.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => extra.unwrap_or(tcx.types.unit.into()),
                }
            }
        });
        self.resolve(env, m, args)
    }

    fn iter_item(&self, env: TypingEnv<'tcx>, it: ty::GenericArg<'tcx>) -> Option<Ty<'tcx>> {
        let tcx = self.tcx;
        let tr = tcx.all_traits_including_private().find(|d| norm(&self.dp(*d)) == "std::iter::Iterator")?;
        let item = tcx.associated_items(tr).in_definition_order().find(|x| x.name().as_str() == "Item")?.def_id;
        let proj = Ty::new_projection(tcx, ty::IsRigid::No, item, [it]);
        tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new(proj)).ok()
    }

    fn derived(&self, inst: Instance<'tcx>) -> bool {
        let d = inst.def_id();
        match self.tcx.impl_of_assoc(d) {
            Some(imp) => self.tcx.is_automatically_derived(imp),
            None => false,
        }
    }

    fn inst_json(&mut self, inst: Instance<'tcx>) -> J {
        self.push(inst);
        let d = inst.def_id();
        J::Obj(vec![
            ("key", s(self.key(inst))),
            ("path", s(self.dp(d))),
            ("derived", J::Bool(self.derived(inst))),
            ("kind", s(match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(_) => "shim",
                _ => "other",
            })),
        ])
    }

    fn fn_json(&mut self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let path = self.dp(d);
        let mut o = vec![("path", s(path.clone()))];
        let tyargs: Vec<J> = args.iter().filter(|a| a.as_region().is_none()).map(|a| s(p(|| format!("{a}")))).collect();
        o.push(("args", J::Arr(tyargs)));
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, variant) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), Some(tcx.item_name(parent).to_string())),
                _ => (parent, None),
            };
            let adt_def = tcx.adt_def(adt);
            let vname = variant.unwrap_or_else(|| adt_def.non_enum_variant().name.to_string());
            o.push(("ctor", J::Arr(vec![s(self.dp(adt)), s(vname)])));
            return J::Obj(o);
        }
        if let Some(inst) = self.resolve(env, d, args) {
            let j = self.inst_json(inst);
            o.push(("inst", j));
        }
        let ga: Vec<ty::GenericArg<'tcx>> = args.iter().filter(|a| a.as_region().is_none()).collect();
        let npath = norm(&path);
        let last = ga.last().copied();
        let inner: Option<Instance<'tcx>> = match npath.as_str() {
            "std::convert::Into::into" if ga.len() == 2 => self.resolve_trait(env, "std::convert::From", "from", &[ga[1], ga[0]]),
            "std::convert::TryInto::try_into" if ga.len() == 2 => self.resolve_trait(env, "std::convert::TryFrom", "try_from", &[ga[1], ga[0]]),
            "std::string::ToString::to_string" => self.resolve_trait(env, "std::fmt::Display", "fmt", &[ga[0]]),
            "std::fmt::rt::Argument::<'_>::new_display" => self.resolve_trait(env, "std::fmt::Display", "fmt", &[last.unwrap()]),
            "std::fmt::rt::Argument::<'_>::new_debug" => self.resolve_trait(env, "std::fmt::Debug", "fmt", &[last.unwrap()]),
            "std::str::<impl str>::parse" => self.resolve_trait(env, "std::str::FromStr", "from_str", &[last.unwrap()]),
            "std::ops::FromResidual::from_residual" | "std::ops::try_trait::FromResidual::from_residual" => {
                // Result<T, F> from Result<Infallible, E>
                let second = |t: Ty<'tcx>| if let ty::Adt(_, a) = t.kind() { a.types().nth(1) } else { None };
                let f = ga[0].as_type().and_then(second);
                let e = ga.get(1).and_then(|g| g.as_type()).and_then(second);
                match (f, e) {
                    (Some(f), Some(e)) => self.resolve_trait(env, "std::convert::From", "from", &[f.into(), e.into()]),
                    _ => None,
                }
            }
            "std::iter::Iterator::collect" => {
                let item = self.iter_item(env, ga[0]);
                item.and_then(|it| self.resolve_trait_x(env, "std::iter::FromIterator", "from_iter", &[last.unwrap(), it.into()], Some(ga[0])))
                    .filter(|i| !matches!(tcx.crate_name(i.def_id().krate).as_str(), "core" | "alloc" | "std"))
            }
            _ => None,
        };
        if let Some(inst) = inner {
            let j = self.inst_json(inst);
            o.push(("inner", j));
        }
        // equality of keys is what a hash set or map decides by
        if npath.starts_with("std::collections::") || npath.contains("::contains") || npath.contains("dedup") {
            if let Some(t) = ga.first() {
                if let Some(inst) = self.resolve_trait(env, "std::cmp::PartialEq", "eq", &[*t, *t]) {
                    let j = self.inst_json(inst);
                    o.push(("elem_eq", j));
                }
            }
        }
        J::Obj(o)
    }

    fn adt_json(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let adt = tcx.adt_def(d);
        let vs = adt
            .variants()
            .iter_enumerated()
            .map(|(vi, v)| {
                let discr = if adt.is_enum() { J::Int(adt.discriminant_for_variant(tcx, vi).val as i128) } else { J::Int(0) };
                J::Obj(vec![
                    ("name", s(v.name.to_string())),
                    ("discr", discr),
                    ("fields", J::Arr(v.fields.iter().map(|f| {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        J::Arr(vec![s(f.name.to_string()), s(p(|| format!("{t}"))), J::Bool(f.vis.is_public())])
                    }).collect())),
                ])
            })
            .collect();
        let mut o = vec![("path", s(self.dp(d))), ("enum", J::Bool(adt.is_enum())), ("variants", J::Arr(vs))];
        if tcx.generics_of(d).count() == 0 {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                o.push(("size", i(l.size.bytes() as usize)));
            }
        }
        J::Obj(o)
    }

    fn const_val(&mut self, env: TypingEnv<'tcx>, val: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 40 {
            return J::Obj(vec![("unk", s("deep"))]);
        }
        match t.kind() {
            ty::FnDef(d, args) => {
                let f = self.fn_json(env, *d, args.skip_binder());
                return J::Obj(vec![("fn", f)]);
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(*d, tcx.erase_and_anonymize_regions(*args));
                let j = self.inst_json(inst);
                return J::Obj(vec![("closure", j)]);
            }
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => {
                if let Some(sc) = self.read_scalar(env, val, t) {
                    if let Scalar::Int(x) = sc {
                        let bits = x.to_bits(x.size());
                        let n: i128 = match t.kind() {
                            ty::Int(_) => x.size().sign_extend(bits),
                            _ => bits as i128,
                        };
                        return J::Obj(vec![("int", J::Int(n)), ("ty", self.ty(t))]);
                    }
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if inner.is_str() {
                    if let ConstValue::Slice { .. } | ConstValue::Indirect { .. } = val {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::Obj(vec![("str", s(String::from_utf8_lossy(b)))]);
                        }
                    }
                }
                if let ty::Slice(el) = inner.kind() {
                    let (id, off, len) = match val {
                        ConstValue::Slice { alloc_id, meta } => (Some(alloc_id), 0u64, meta),
                        ConstValue::Indirect { alloc_id, offset } => {
                            let (pp, l) = self.read_fat(alloc_id, offset);
                            match pp {
                                Some((a, o)) => (Some(a), o, l),
                                None => (None, 0, 0),
                            }
                        }
                        _ => (None, 0, 0),
                    };
                    if let (Some(id), Ok(lay)) = (id, tcx.layout_of(env.as_query_input(*el))) {
                        let sz = lay.size.bytes();
                        if let GlobalAlloc::Memory(_) = tcx.global_alloc(id) {
                            let els = (0..len)
                                .map(|k| {
                                    let v = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off + k * sz) };
                                    self.const_val(env, v, *el, depth + 1)
                                })
                                .collect();
                            return J::Obj(vec![("ref", J::Obj(vec![("seq", J::Arr(els))]))]);
                        }
                    }
                }
                if inner.is_sized(tcx, env) {
                    let ptr = match val {
                        ConstValue::Scalar(Scalar::Ptr(ptr, _)) => {
                            let (prov, off) = ptr.into_raw_parts();
                            Some((prov.alloc_id(), off.bytes()))
                        }
                        ConstValue::Indirect { alloc_id, offset } => self.read_fat(alloc_id, offset).0,
                        _ => None,
                    };
                    if let Some((id, off)) = ptr {
                        match tcx.global_alloc(id) {
                            GlobalAlloc::Memory(_) => {
                                let v = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) };
                                let j = self.const_val(env, v, *inner, depth + 1);
                                return J::Obj(vec![("ref", j)]);
                            }
                            GlobalAlloc::Static(d) => {
                                return J::Obj(vec![("static", s(self.dp(d)))]);
                            }
                            _ => {}
                        }
                    }
                }
            }
            ty::FnPtr(..) => {
                if let ConstValue::Scalar(Scalar::Ptr(ptr, _)) = val {
                    let (prov, _) = ptr.into_raw_parts();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        let j = self.inst_json(instance);
                        return J::Obj(vec![("fn", J::Obj(vec![("path", s("fnptr")), ("args", J::Arr(vec![])), ("inst", j)]))]);
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Tuple(l) = t.kind() {
                    if l.is_empty() {
                        return J::Obj(vec![("tuple", J::Arr(vec![]))]);
                    }
                }
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.is_union() {
                        return J::Obj(vec![("unk", s("union"))]);
                    }
                }
                let val2 = val;
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(val2, t) {
                    let fields: Vec<J> = dc.fields.iter().map(|(v, ft)| self.const_val(env, *v, *ft, depth + 1)).collect();
                    return match t.kind() {
                        ty::Adt(adt, _) => {
                            let vi = dc.variant.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            let v = adt.variant(vi);
                            J::Obj(vec![
                                ("adt", s(self.dp(adt.did()))),
                                ("variant", s(v.name.to_string())),
                                ("names", J::Arr(v.fields.iter().map(|f| s(f.name.to_string())).collect())),
                                ("fields", J::Arr(fields)),
                            ])
                        }
                        ty::Tuple(_) => J::Obj(vec![("tuple", J::Arr(fields))]),
                        _ => J::Obj(vec![("seq", J::Arr(fields))]),
                    };
                }
            }
            _ => {}
        }
        J::Obj(vec![("unk", s(p(|| format!("{t}"))))])
    }

    fn read_scalar(&self, env: TypingEnv<'tcx>, val: ConstValue, t: Ty<'tcx>) -> Option<Scalar> {
        match val {
            ConstValue::Scalar(sc) => Some(sc),
            ConstValue::Indirect { alloc_id, offset } => {
                let lay = self.tcx.layout_of(env.as_query_input(t)).ok()?;
                if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                    a.inner()
                        .read_scalar(&self.tcx, rustc_middle::mir::interpret::AllocRange { start: offset, size: lay.size }, false)
                        .ok()
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn read_fat(&self, id: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size) -> (Option<(rustc_middle::mir::interpret::AllocId, u64)>, u64) {
        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) {
            let a = a.inner();
            let ps = rustc_abi::Size::from_bytes(8);
            let ptr = a
                .read_scalar(&self.tcx, rustc_middle::mir::interpret::AllocRange { start: off, size: ps }, true)
                .ok()
                .and_then(|sc| match sc {
                    Scalar::Ptr(ptr, _) => {
                        let (prov, o) = ptr.into_raw_parts();
                        Some((prov.alloc_id(), o.bytes()))
                    }
                    _ => None,
                });
            let len = if off.bytes() + 16 <= a.size().bytes() {
                a.read_scalar(&self.tcx, rustc_middle::mir::interpret::AllocRange { start: off + ps, size: ps }, false)
                    .ok()
                    .and_then(|sc| match sc {
                        Scalar::Int(x) => Some(x.to_bits(x.size()) as u64),
                        _ => None,
                    })
                    .unwrap_or(0)
            } else {
                0
            };
            return (ptr, len);
        }
        (None, 0)
    }
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, pl: Place<'tcx>) -> J {
        let tcx = self.d.tcx;
        let mut out = vec![i(pl.local.as_usize())];
        let mut pty = PlaceTy::from_ty(self.body.local_decls[pl.local].ty);
        for el in pl.projection.iter() {
            match el {
                PlaceElem::Deref => out.push(s("*")),
                PlaceElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = match pty.variant_index {
                                Some(v) => adt.variant(v),
                                None if adt.is_enum() => adt.variant(rustc_abi::VariantIdx::from_u32(0)),
                                None => adt.non_enum_variant(),
                            };
                            J::Arr(vec![s("f"), i(f.as_usize()), s(v.fields[f].name.to_string()), s(self.d.dp(adt.did())), s(v.name.to_string())])
                        }
                        ty::Closure(..) => J::Arr(vec![s("f"), i(f.as_usize()), J::Null, s("closure")]),
                        _ => J::Arr(vec![s("f"), i(f.as_usize()), J::Null, J::Null]),
                    };
                    out.push(name);
                }
                PlaceElem::Downcast(_, v) => {
                    if let ty::Adt(adt, _) = pty.ty.kind() {
                        out.push(J::Arr(vec![s("v"), s(adt.variant(v).name.to_string()), s(self.d.dp(adt.did()))]));
                    } else {
                        out.push(J::Arr(vec![s("v"), s(format!("{v:?}")), J::Null]));
                    }
                }
                PlaceElem::Index(l) => out.push(J::Arr(vec![s("i"), i(l.as_usize())])),
                PlaceElem::ConstantIndex { offset, min_length, from_end } => {
                    out.push(J::Arr(vec![s("ci"), i(offset as usize), i(min_length as usize), J::Bool(from_end)]))
                }
                PlaceElem::Subslice { from, to, from_end } => {
                    out.push(J::Arr(vec![s("ss"), i(from as usize), i(to as usize), J::Bool(from_end)]))
                }
                _ => out.push(s("?")),
            }
            pty = pty.projection_ty(tcx, el);
        }
        J::Arr(out)
    }
    fn place_ty(&self, pl: Place<'tcx>) -> Ty<'tcx> {
        pl.ty(&self.body.local_decls, self.d.tcx).ty
    }
    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(pl) => J::Arr(vec![s("c"), self.place(*pl)]),
            Operand::Move(pl) => J::Arr(vec![s("m"), self.place(*pl)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let k = match t.kind() {
                    ty::FnDef(..) => {
                        let env = self.env;
                        self.d.const_val(env, ConstValue::ZeroSized, t, 0)
                    }
                    _ => match c.const_.eval(self.d.tcx, self.env, rustc_span::DUMMY_SP) {
                        Ok(v) => {
                            let env = self.env;
                            self.d.const_val(env, v, t, 0)
                        }
                        Err(_) => J::Obj(vec![("unk", s(p(|| format!("{}", c.const_))))]),
                    },
                };
                J::Arr(vec![s("k"), k])
            }
            other => J::Arr(vec![s("k"), J::Obj(vec![("unk", s(format!("{other:?}")))])]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.d.tcx;
        match r {
            Rvalue::Use(o, ..) => J::Arr(vec![s("use"), self.op(o)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| J::Int(x as i128)).unwrap_or(J::Null);
                J::Arr(vec![s("repeat"), self.op(o), n])
            }
            Rvalue::Ref(_, bk, pl) => J::Arr(vec![s("ref"), J::Bool(matches!(bk, BorrowKind::Mut { .. })), self.place(*pl)]),
            Rvalue::RawPtr(_, pl) => J::Arr(vec![s("ref"), J::Bool(true), self.place(*pl)]),
            Rvalue::Cast(k, o, t) => J::Arr(vec![s("cast"), s(format!("{k:?}")), self.op(o), self.d.ty(*t)]),
            Rvalue::BinaryOp(b, x) => J::Arr(vec![s("bin"), s(format!("{b:?}")), self.op(&x.0), self.op(&x.1)]),
            Rvalue::UnaryOp(u, x) => J::Arr(vec![s("un"), s(format!("{u:?}")), self.op(x)]),
            Rvalue::Discriminant(pl) => {
                let t = self.place_ty(*pl);
                let (vs, path) = match t.kind() {
                    ty::Adt(adt, _) if adt.is_enum() => (
                        adt.discriminants(tcx)
                            .map(|(vi, d)| J::Arr(vec![J::Int(d.val as i128), s(adt.variant(vi).name.to_string())]))
                            .collect(),
                        s(self.d.dp(adt.did())),
                    ),
                    _ => (vec![], J::Null),
                };
                J::Arr(vec![s("discr"), self.place(*pl), J::Arr(vs), path])
            }
            Rvalue::CopyForDeref(pl) => J::Arr(vec![s("use"), J::Arr(vec![s("c"), self.place(*pl)])]),
            Rvalue::Aggregate(k, ops) => {
                let fields: Vec<J> = ops.iter().map(|o| self.op(o)).collect();
                match &**k {
                    AggregateKind::Array(_) => J::Arr(vec![s("array"), J::Arr(fields)]),
                    AggregateKind::Tuple => J::Arr(vec![s("tuple"), J::Arr(fields)]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let adt = tcx.adt_def(*d);
                        let v = adt.variant(*vi);
                        let names: Vec<J> = match active {
                            Some(a) => vec![s(v.fields[*a].name.to_string())],
                            None => v.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        J::Arr(vec![s("adt"), s(self.d.dp(*d)), s(v.name.to_string()), J::Arr(names), J::Arr(fields)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, tcx.erase_and_anonymize_regions(*args));
                        let j = self.d.inst_json(inst);
                        J::Arr(vec![s("closure"), j, J::Arr(fields)])
                    }
                    other => J::Arr(vec![s("agg?"), s(format!("{other:?}")), J::Arr(fields)]),
                }
            }
            Rvalue::ThreadLocalRef(d) => J::Arr(vec![s("tls"), s(self.d.dp(*d))]),
            other => J::Arr(vec![s("?"), s(format!("{other:?}"))]),
        }
    }
    fn dump(&mut self) -> J {
        let body = self.body;
        let locals = body
            .local_decls
            .iter()
            .map(|l| self.d.ty(l.ty))
            .collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(pl) = v.value {
                if pl.projection.is_empty() {
                    names.push(J::Arr(vec![i(pl.local.as_usize()), s(v.name.to_string())]));
                }
            }
        }
        let sm = self.d.tcx.sess.source_map();
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let r = self.rv(&b.1);
                        st.push(J::Arr(vec![self.place(b.0), r]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::Arr(vec![self.place(**place), J::Arr(vec![s("setdiscr"), i(variant_index.as_usize())])]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = sm.lookup_char_pos(t.source_info.span.source_callsite().lo()).line;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![s("goto"), i(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.d.tcx);
                    let ts = targets.iter().map(|(v, b)| J::Arr(vec![J::Int(v as i128), i(b.as_usize())])).collect();
                    J::Arr(vec![s("switch"), self.op(discr), J::Arr(ts), i(targets.otherwise().as_usize()), self.d.ty(dt)])
                }
                TerminatorKind::Return => J::Arr(vec![s("return")]),
                TerminatorKind::Unreachable => J::Arr(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::Arr(vec![s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = self.place_ty(*place);
                    J::Arr(vec![s("drop"), self.place(*place), i(target.as_usize()), self.d.ty(ty)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a = args.iter().map(|x| self.op(&x.node)).collect();
                    J::Arr(vec![
                        s("call"),
                        f,
                        J::Arr(a),
                        self.place(*destination),
                        target.map(|t| i(t.as_usize())).unwrap_or(J::Null),
                        i(line),
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = format!("{msg:?}");
                    J::Arr(vec![s("assert"), self.op(cond), J::Bool(*expected), i(target.as_usize()), s(m), i(line)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![s("goto"), i(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![s("goto"), i(real_target.as_usize())]),
                other => J::Arr(vec![s("?"), s(format!("{other:?}"))]),
            };
            blocks.push(J::Arr(vec![J::Arr(st), tj]));
        }
        J::Obj(vec![
            ("args", i(body.arg_count)),
            ("spread", body.spread_arg.map(|l| i(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ])
    }
}

struct Cb {
    out: String,
    types_only: bool,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump { tcx, seen: HashSet::new(), queue: VecDeque::new() };
        let mut poly: HashSet<Instance<'tcx>> = HashSet::new();
        let mut consts = vec![];
        for ld in tcx.mir_keys(()).iter().filter(|_| !self.types_only) {
            let def = ld.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, def));
                    let inst = Instance::new_raw(def, args);
                    if args.types().next().is_some() || args.consts().next().is_some() {
                        poly.insert(inst);
                    }
                    if d.seen.insert(inst) {
                        d.queue.push_back(inst);
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    consts.push(def);
                }
                _ => {}
            }
        }
        let mut fns = vec![];
        let sm = tcx.sess.source_map();
        while let Some(inst) = d.queue.pop_front() {
            let InstanceKind::Item(def) = inst.def else { continue };
            let env = if poly.contains(&inst) { TypingEnv::post_analysis(tcx, def) } else { TypingEnv::fully_monomorphized() };
            let env = if inst.args.has_param() { TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(def)) } else { env };
            let raw = match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => tcx.instance_mir(inst.def),
                _ => continue,
            };
            let body: Body<'tcx> = if inst.args.has_param() {
                raw.clone()
            } else {
                match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone())) {
                    Ok(b) => b,
                    Err(_) => continue,
                }
            };
            let j = Cx { d: &mut d, body: &body, env }.dump();
            let J::Obj(mut o) = j else { unreachable!() };
            let lo = sm.lookup_char_pos(tcx.def_span(def).lo());
            let file = if def.is_local() { lo.file.name.prefer_local_unconditionally().to_string() } else { String::new() };
            let mut head = vec![
                ("key", s(d.key(inst))),
                ("path", s(d.dp(def))),
                ("local", J::Bool(def.is_local())),
                ("file", s(file)),
                ("line", i(lo.line)),
                ("derived", J::Bool(d.derived(inst))),
                ("poly", J::Bool(inst.args.has_param())),
                ("closure", J::Bool(tcx.is_closure_like(def))),
                ("public", J::Bool(tcx.def_kind(def) != DefKind::Closure && tcx.visibility(def).is_public())),
            ];
            if def.is_local() && tcx.def_kind(def) == DefKind::Fn && tcx.codegen_fn_attrs(def).contains_extern_indicator() {
                let abi = tcx.fn_sig(def).instantiate_identity().skip_binder().abi();
                head.push(("export", J::Arr(vec![s(tcx.symbol_name(inst).name.to_string()), s(format!("{abi}"))])));
            }
            if tcx.def_kind(def) == DefKind::AssocFn {
                if let Some(imp) = tcx.impl_of_assoc(def) {
                    head.push(("impl_of", s(p(|| format!("{}", tcx.type_of(imp).instantiate_identity().skip_norm_wip())))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        head.push(("impl_trait", s(p(|| format!("{}", tr.instantiate_identity().skip_norm_wip().print_only_trait_path())))));
                    }
                }
            }
            head.append(&mut o);
            fns.push(J::Obj(head));
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let items: Vec<DefId> = tcx.hir_crate_items(()).definitions().map(|x| x.to_def_id()).collect();
        for def in items {
            match tcx.def_kind(def) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(d.adt_json(def)),
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(def).instantiate_identity().skip_norm_wip();
                    impls.push(J::Obj(vec![
                        ("trait", s(p(|| format!("{}", tr.print_only_trait_path())))),
                        ("self", s(p(|| format!("{}", tr.self_ty())))),
                        ("derived", J::Bool(tcx.is_automatically_derived(def))),
                        ("methods", J::Arr(tcx.associated_items(def).in_definition_order().map(|x| s(x.name().to_string())).collect())),
                    ]));
                }
                _ => {}
            }
        }
        let mut cs = vec![];
        for def in consts {
            if tcx.generics_of(def).count() != 0 {
                continue;
            }
            let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
            let env = TypingEnv::fully_monomorphized();
            let v = if matches!(tcx.def_kind(def), DefKind::Static { .. }) {
                match tcx.eval_static_initializer(def) {
                    Ok(a) => {
                        let id = tcx.reserve_and_set_memory_alloc(a);
                        Ok(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO })
                    }
                    Err(_) => Err(()),
                }
            } else {
                tcx.const_eval_poly(def).map_err(|_| ())
            };
            if let Ok(v) = v {
                let j = d.const_val(env, v, t, 0);
                cs.push(J::Obj(vec![("path", s(d.dp(def))), ("ty", d.ty(t)), ("value", j)]));
            }
        }
        // other crates see a re-exported item under the name of its re-export
        let mut aliases = vec![];
        for def in tcx.hir_crate_items(()).definitions() {
            if tcx.def_kind(def) != DefKind::Mod && def != rustc_hir::def_id::CRATE_DEF_ID {
                continue;
            }
            let root = tcx.crate_name(LOCAL_CRATE).to_string();
            let module = if def == rustc_hir::def_id::CRATE_DEF_ID { root } else { d.dp(def.to_def_id()) };
            for m in tcx.module_children_local(def) {
                if m.reexport_chain.is_empty() {
                    continue;
                }
                if let Some(x) = m.res.opt_def_id() {
                    if x.is_local() {
                        aliases.push(J::Arr(vec![s(format!("{module}::{}", m.ident)), s(d.dp(x))]));
                    }
                }
            }
        }
        let top = J::Obj(vec![
            ("aliases", J::Arr(aliases)),
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("fns", J::Arr(fns)),
            ("adts", J::Arr(adts)),
            ("impls", J::Arr(impls)),
            ("consts", J::Arr(cs)),
        ]);
        let mut out = String::new();
        top.write(&mut out);
        let path = format!("{}/{}.json", self.out, tcx.crate_name(LOCAL_CRATE));
        std::fs::write(format!("{path}.tmp"), out).unwrap();
        std::fs::rename(format!("{path}.tmp"), path).unwrap();
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|k| args.get(k + 1)).cloned().unwrap_or_default();
    let out = std::env::var("VF_OUT").unwrap_or_default();
    let skip = out.is_empty() || name.is_empty() || name == "___" || name == "build_script_build";
    // the interfaces we supply in place of unavailable dependencies: types only
    let types_only = std::env::var("VF_SKIP").map(|v| v.split(',').any(|x| x == name)).unwrap_or(false);
    if !skip {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Zub-checks=no".into());
        args.push("--cap-lints=allow".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out, types_only });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
