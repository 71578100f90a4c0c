// Fact extractor: runs inside the compiler on the current source of the analysed crate and writes down its
// resolved MIR (monomorphised as far as the generic context of each root function permits) and item structure.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

// ---------------------------------------------------------------- demands

/// What an item of the crate demands beyond what the interface of the crate itself says about the types it is generic over:
/// its clauses that do not follow from those by which it names the traits of the interface.
fn demands<'a>(tcx: TyCtxt<'a>, did: DefId, own: Ty<'a>) -> Vec<String> {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_infer::traits::{Obligation, ObligationCause};
    use rustc_trait_selection::traits::normalize_param_env_or_error;
    use rustc_trait_selection::traits::query::evaluate_obligation::InferCtxtExt;
    let api = ["ContractApi", "RgbSeal", "ReadOperation"];
    let all: Vec<ty::Clause<'a>> =
        tcx.clauses_of(did).instantiate_identity(tcx).clauses.into_iter().map(|c| c.skip_norm_wip()).collect();
    let mut base = vec![];
    let mut rest = vec![];
    for c in all {
        if let Some(t) = c.as_trait_clause() {
            let t = t.skip_binder();
            let d = t.trait_ref.def_id;
            let name = tcx.item_name(d).to_string();
            let param = matches!(t.self_ty().kind(), ty::Param(_));
            if d.is_local() && name == "ContractVerify" && t.self_ty() == own {
                continue;
            }
            if param
                && (d.is_local() && api.contains(&name.as_str())
                    || name == "MetaSized"
                    || name == "PointeeSized"
                    || t.self_ty() != own && Some(d) == tcx.lang_items().sized_trait())
            {
                base.push(c);
                continue;
            }
        } else if matches!(c.kind().skip_binder(), ty::ClauseKind::ConstArgHasType(..)) {
            base.push(c);
            continue;
        } else if let Some(p) = c.as_projection_clause() {
            let p = p.skip_binder();
            let d = p.def_id();
            let of_reader = d.is_local() && tcx.item_name(tcx.parent(d)).as_str() == "ReadOperation";
            let term = p.term.as_type().is_some_and(|t| matches!(t.kind(), ty::Param(_)));
            if of_reader && term {
                base.push(c);
                continue;
            }
        }
        rest.push(c);
    }
    let env = normalize_param_env_or_error(tcx, ty::ParamEnv::new(tcx, base.into_iter()), ObligationCause::dummy());
    rest.into_iter()
        .filter(|c| {
            if c.as_type_outlives_clause().is_some() || c.as_region_outlives_clause().is_some() {
                return true;
            }
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            !infcx.predicate_must_hold_modulo_regions(&Obligation::new(tcx, ObligationCause::dummy(), env, *c))
        })
        .map(|c| with_no_trimmed_paths!(format!("{c}")))
        .collect()
}

// ---------------------------------------------------------------- JSON

enum J {
    S(String),
    N(i128),
    B(bool),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
    Z,
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::N(x as i128) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(x) => esc(x, o),
            J::N(x) => write!(o, "{x}").unwrap(),
            J::B(x) => write!(o, "{x}").unwrap(),
            J::Z => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(",\n")
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

// ---------------------------------------------------------------- names

fn dpath(tcx: TyCtxt<'_>, id: DefId) -> String {
    let krate = tcx.crate_name(id.krate);
    format!("{}{}", krate, tcx.def_path(id).to_string_no_crate_verbose())
}
fn tystr(ty: Ty<'_>) -> String { with_no_trimmed_paths!(ty.to_string()) }
fn head(tcx: TyCtxt<'_>, mut ty: Ty<'_>) -> String {
    loop {
        match ty.kind() {
            ty::Ref(_, t, _) => ty = *t,
            _ => break,
        }
    }
    match ty.kind() {
        ty::Adt(d, _) => dpath(tcx, d.did()),
        ty::Slice(_) => "[]".into(),
        ty::Array(..) => "[;]".into(),
        ty::Closure(..) => "{closure}".into(),
        ty::FnDef(..) => "{fndef}".into(),
        ty::Dynamic(..) => "dyn".into(),
        ty::Tuple(_) => "()".into(),
        ty::Param(p) => format!("param:{}", p.name),
        ty::Alias(..) => format!("alias:{}", tystr(ty)),
        _ => tystr(ty),
    }
}
/// A canonical name of a function: `Trait::method`, `Type::method` or `path::function`.
fn cname(tcx: TyCtxt<'_>, id: DefId) -> String {
    if let Some(t) = tcx.trait_of_assoc(id) {
        return format!("{}::{}", dpath(tcx, t), tcx.item_name(id));
    }
    if let Some(i) = tcx.impl_of_assoc(id) {
        if matches!(tcx.def_kind(i), DefKind::Impl { of_trait: true }) {
            let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
            return format!("{}::{}", dpath(tcx, tr.def_id), tcx.item_name(id));
        }
        let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
        return format!("{}::{}", head(tcx, st), tcx.item_name(id));
    }
    dpath(tcx, id)
}

// ---------------------------------------------------------------- extraction

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: BTreeMap<String, J>,
    seen: HashSet<String>,
    queue: VecDeque<(String, Work<'tcx>, TypingEnv<'tcx>, u32)>,
    skipped: usize,
}
#[derive(Clone)]
enum Work<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(Instance<'tcx>, Promoted),
    Const(Instance<'tcx>),
}

const MAX_BODIES: usize = 6000;

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line, lo.col.0 + 1))
    }

    fn wanted(&self, id: DefId, depth: u32) -> bool {
        if id.is_local() {
            return true;
        }
        if depth > 12 {
            return false;
        }
        let krate = self.tcx.crate_name(id.krate);
        let krate = krate.as_str();
        let path = self.tcx.def_path(id).to_string_no_crate_verbose();
        match krate {
            "core" => {
                ["::option", "::result", "::bool", "::convert", "::ops", "::cmp", "::borrow", "::clone", "::mem", "::default", "::tuple", "::any", "::pin"]
                    .iter()
                    .any(|p| path.starts_with(p))
            }
            "alloc" => ["::borrow"].iter().any(|p| path.starts_with(p)),
            "std" => false,
            "serde" | "serde_core" => false,
            _ => true,
        }
    }

    fn request(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> Option<String> {
        let InstanceKind::Item(id) = inst.def else { return None };
        if !matches!(self.tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            return None;
        }
        // collecting into a type of the crate
        let into_own = || {
            cname(self.tcx, id).ends_with("Iterator::collect")
                && inst.args.types().nth(1).is_some_and(|t| matches!(t.kind(), ty::Adt(adt, _) if adt.did().is_local()))
        };
        if !(self.wanted(id, depth) || into_own()) || !self.tcx.is_mir_available(id) {
            return None;
        }
        if self.tcx.is_coroutine(id) {
            return None;
        }
        let key = self.key(inst);
        if self.seen.contains(&key) {
            return Some(key);
        }
        if self.seen.len() > MAX_BODIES {
            self.skipped += 1;
            return None;
        }
        if !id.is_local() {
            let body = self.tcx.optimized_mir(id);
            if body.basic_blocks.len() > 120 {
                self.skipped += 1;
                return None;
            }
        }
        self.seen.insert(key.clone());
        let d = if id.is_local() { 0 } else { depth + 1 };
        self.queue.push_back((key.clone(), Work::Inst(inst), env, d));
        Some(key)
    }
    fn key(&self, inst: Instance<'tcx>) -> String {
        let args = with_no_trimmed_paths!(format!("{:?}", inst.args));
        format!("{}{}", dpath(self.tcx, inst.def_id()), args)
    }

    fn callee(&mut self, id: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        let mut o = vec![("cn", s(cname(tcx, id))), ("path", s(dpath(tcx, id)))];
        o.push(("targs", J::A(args.iter().filter_map(|a| a.as_type()).map(|t| s(tystr(t))).collect())));
        if let DefKind::Ctor(..) = tcx.def_kind(id) {
            let var = tcx.parent(id);
            let (adt, name) = match tcx.def_kind(var) {
                DefKind::Variant => (tcx.parent(var), tcx.item_name(var).to_string()),
                _ => (var, String::new()),
            };
            o.push(("ctor", s(dpath(tcx, adt))));
            o.push(("variant", s(name)));
            let v = if tcx.def_kind(var) == DefKind::Variant {
                tcx.adt_def(adt).variant_with_id(var)
            } else {
                tcx.adt_def(adt).non_enum_variant()
            };
            o.push(("fields", J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect())));
            return J::O(o);
        }
        if let Some(t) = tcx.trait_of_assoc(id) {
            o.push(("trait", s(dpath(tcx, t))));
            if let Some(st) = args.types().next() {
                o.push(("self", s(head(tcx, st))));
                o.push(("selfty", s(tystr(st))));
                if let ty::Closure(cid, cargs) = st.kind() {
                    let _ = (cid, cargs);
                }
            }
        } else if let Some(i) = tcx.impl_of_assoc(id) {
            let st = tcx.type_of(i).instantiate(tcx, args).skip_norm_wip();
            o.push(("selfty", s(tystr(st))));
        }
        o.push(("unsafe", J::B(tcx.fn_sig(id).skip_binder().safety().is_unsafe())));
        // iterators of the crate among the types: their `next`, and what they are made from: its `into_iter`
        for (what, next) in [("nexts", tcx.lang_items().next_fn()), ("intos", tcx.lang_items().into_iter_fn())] {
            let Some(next) = next else { continue };
            let mut nexts = vec![];
            for t in args.types() {
                let t = t.peel_refs();
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.did().is_local() && next != id {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, next, tcx.mk_args(&[t.into()])) {
                            if inst.def_id().is_local() {
                                if let Some(k) = self.request(inst, env, depth) {
                                    nexts.push(J::A(vec![s(dpath(tcx, adt.did())), s(k)]));
                                }
                            }
                        }
                    }
                }
            }
            if !nexts.is_empty() {
                o.push((what, J::A(nexts)));
            }
        }
        let env2 = env;
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env2, id, args) {
            match inst.def {
                InstanceKind::Item(rid) => {
                    o.push(("res", s(cname(tcx, rid))));
                    o.push(("rpath", s(dpath(tcx, rid))));
                    o.push(("rcrate", s(tcx.crate_name(rid.krate).to_string())));
                    if let Some(k) = self.request(inst, env, depth) {
                        o.push(("key", s(k)));
                    }
                }
                InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => o.push(("intrinsic", J::B(true))),
                InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                InstanceKind::Shim(_) => o.push(("shim", J::B(true))),
            }
        }
        J::O(o)
    }

    /// The address and the length a reference to a slice in memory consists of.
    fn fat(&self, alloc_id: rustc_middle::mir::interpret::AllocId, offset: rustc_abi::Size) -> Option<(rustc_middle::mir::interpret::AllocId, rustc_abi::Size, u64)> {
        use rustc_middle::mir::interpret::{alloc_range, Scalar};
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) else { return None };
        let w = self.tcx.data_layout.pointer_size();
        let at = |o, prov| a.inner().read_scalar(&self.tcx, alloc_range(o, w), prov).ok();
        let Scalar::Ptr(p, _) = at(offset, true)? else { return None };
        let Scalar::Int(len) = at(offset + w, false)? else { return None };
        let (prov, off) = p.into_raw_parts();
        Some((prov.alloc_id(), off, len.to_bits(w) as u64))
    }

    fn const_val(&mut self, val: ConstValue, ty: Ty<'tcx>, env: TypingEnv<'tcx>, depth: u32, lvl: u32) -> J {
        let tcx = self.tcx;
        match ty.kind() {
            ty::FnDef(id, args) => {
                return J::O(vec![("fn", self.callee(*id, args.no_bound_vars().unwrap(), env, depth))]);
            }
            ty::Closure(id, args) => {
                let inst = Instance::new_raw(*id, args);
                let k = self.request(inst, env, depth);
                return J::O(vec![("closure", k.map(s).unwrap_or(J::Z))]);
            }
            _ => {}
        }
        match val {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let v = if ty.is_signed() { i.to_int(i.size()) } else { bits as i128 };
                match ty.kind() {
                    ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => return J::O(vec![("int", J::N(v))]),
                    _ => {}
                }
            }
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(id) => {
                        return J::O(vec![
                            ("static", s(dpath(tcx, id))),
                            ("mutable", J::B(tcx.is_mutable_static(id))),
                            ("local", J::B(id.is_local())),
                            ("ty", s(tystr(ty))),
                        ])
                    }
                    GlobalAlloc::Function { instance } => {
                        return J::O(vec![("fnptr", s(cname(tcx, instance.def_id())))])
                    }
                    GlobalAlloc::Memory(alloc) => {
                        if let ty::Ref(_, inner, _) = ty.kind() {
                            let ok = inner.is_sized(tcx, env);
                            if ok && lvl < 6 {
                                let v = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let _ = alloc;
                                return J::O(vec![("ref", self.const_val(v, *inner, env, depth, lvl + 1))]);
                            }
                        }
                    }
                    _ => {}
                }
            }
            ConstValue::ZeroSized => {
                if let ty::Tuple(l) = ty.kind() {
                    if l.is_empty() {
                        return J::O(vec![("unit", J::B(true))]);
                    }
                }
            }
            ConstValue::Slice { .. } => {
                if let Some(bytes) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                    return J::O(vec![
                        ("str", s(String::from_utf8_lossy(bytes).to_string())),
                        ("bytes", J::A(bytes.iter().take(4096).map(|b| J::N(*b as i128)).collect())),
                    ]);
                }
            }
            _ => {}
        }
        if let ty::Ref(_, inner, _) = ty.kind() {
            let elem = match inner.kind() {
                ty::Slice(e) => Some(*e),
                ty::Str => Some(tcx.types.u8),
                _ => None,
            };
            let place = match val {
                ConstValue::Slice { alloc_id, meta } => Some((alloc_id, rustc_abi::Size::ZERO, meta)),
                ConstValue::Indirect { alloc_id, offset } => self.fat(alloc_id, offset),
                _ => None,
            };
            if let (Some(e), Some((alloc_id, offset, len))) = (elem, place) {
                if inner.is_str() {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let o = offset.bytes() as usize;
                        let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + len as usize).to_vec();
                        return J::O(vec![
                            ("str", s(String::from_utf8_lossy(&bytes).to_string())),
                            ("bytes", J::A(bytes.iter().take(4096).map(|b| J::N(*b as i128)).collect())),
                        ]);
                    }
                } else if lvl < 6 && len <= 256 {
                    let v = ConstValue::Indirect { alloc_id, offset };
                    return J::O(vec![("ref", self.const_val(v, Ty::new_array(tcx, e, len), env, depth, lvl + 1))]);
                }
            }
        }
        let destructurable = match ty.kind() {
            ty::Array(_, len) => len.try_to_target_usize(tcx).map(|x| x <= 256).unwrap_or(false),
            ty::Adt(d, _) => !d.is_union() && !d.variants().is_empty(),
            ty::Tuple(_) => true,
            _ => false,
        };
        let has_params = {
            use rustc_middle::ty::TypeVisitableExt;
            ty.has_param() || ty.has_non_region_infer() || ty.has_aliases()
        };
        if destructurable && !has_params && lvl < 6 {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(val, ty) {
                let fields: Vec<J> =
                    d.fields.iter().map(|(v, t)| self.const_val(*v, *t, env, depth, lvl + 1)).collect();
                let mut o = vec![];
                match ty.kind() {
                    ty::Adt(def, _) => {
                        let v = def.variant(d.variant.unwrap_or(rustc_abi::FIRST_VARIANT));
                        o.push(("adt", s(dpath(tcx, def.did()))));
                        o.push(("variant", s(if def.is_enum() { v.name.to_string() } else { String::new() })));
                        o.push(("fields", J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect())));
                    }
                    ty::Tuple(_) => o.push(("tuple", J::B(true))),
                    _ => o.push(("array", J::B(true))),
                }
                o.push(("vals", J::A(fields)));
                return J::O(o);
            }
        }
        if let (ty::Adt(def, _), ConstValue::ZeroSized) = (ty.kind(), val) {
            if def.is_struct() {
                return J::O(vec![
                    ("adt", s(dpath(tcx, def.did()))),
                    ("variant", s("")),
                    ("zst", J::B(true)),
                    ("fields", J::A(vec![])),
                    ("vals", J::A(vec![])),
                ]);
            }
        }
        J::O(vec![("opaque", s(with_no_trimmed_paths!(format!("{val:?}")))), ("ty", s(tystr(ty)))])
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, me: Instance<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        match ty.kind() {
            ty::FnDef(id, args) => return J::O(vec![("fn", self.callee(*id, args.no_bound_vars().unwrap(), env, depth))]),
            _ => {}
        }
        let _ = me;
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let inst = Instance::new_raw(u.def, u.args);
                let key = format!("{}#promoted{}", self.key(inst), p.index());
                if self.seen.insert(key.clone()) {
                    self.queue.push_back((key.clone(), Work::Promoted(inst, p), env, depth));
                }
                return J::O(vec![("promoted", s(key)), ("ty", s(tystr(ty)))]);
            }
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => {
                let mut j = self.const_val(v, ty, env, depth, 0);
                if let (Const::Unevaluated(u, _), J::O(o)) = (c.const_, &mut j) {
                    o.push(("item", s(dpath(tcx, u.def))));
                }
                j
            }
            Err(_) => match c.const_ {
                Const::Unevaluated(u, _) => {
                    // A constant depending on generic parameters
                    let mut o = vec![("item", s(dpath(tcx, u.def))), ("ty", s(tystr(ty)))];
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                        let id = inst.def_id();
                        if id.is_local() || tcx.is_mir_available(id) {
                            let key = format!("{}#const", self.key(inst));
                            if self.seen.insert(key.clone()) {
                                self.queue.push_back((key.clone(), Work::Const(inst), env, depth + 1));
                            }
                            o.push(("constbody", s(key)));
                        }
                    }
                    J::O(o)
                }
                Const::Ty(_, c) => J::O(vec![("param", s(format!("{c:?}"))), ("ty", s(tystr(ty)))]),
                _ => J::O(vec![("opaque", s("?")), ("ty", s(tystr(ty)))]),
            },
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut proj = vec![];
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("deref"), s(if pt.ty.is_box() { "box" } else if pt.ty.is_raw_ptr() { "raw" } else { "ref" })]),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(v).fields[f].name.to_string()
                        }
                        _ => f.index().to_string(),
                    };
                    J::A(vec![s("f"), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("idx"), n(l.index())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("cidx"), n(offset as usize), n(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.index().to_string(),
                    };
                    J::A(vec![s("as"), s(name)])
                }
                _ => J::A(vec![s("other")]),
            };
            proj.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(vec![n(p.local.index()), J::A(proj)])
    }

    /// The box whose pointer is taken: the compiler turns `*b` into `*(transmute(b.0.0))`.
    fn boxed(&self, o: &Operand<'tcx>, to: Ty<'tcx>, body: &Body<'tcx>) -> Option<Place<'tcx>> {
        let p = o.place()?;
        if !to.is_raw_ptr() {
            return None;
        }
        let mut rest: &[_] = p.projection;
        while let Some((ProjectionElem::Field(f, _), r)) = rest.split_last() {
            if f.index() != 0 {
                return None;
            }
            let b = Place { local: p.local, projection: self.tcx.mk_place_elems(r) };
            if b.ty(&body.local_decls, self.tcx).ty.is_box() {
                return Some(b);
            }
            rest = r;
        }
        None
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, me: Instance<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p, body)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p, body)]),
            Operand::Constant(c) => {
                let v = self.constant(c, me, env, depth);
                J::A(vec![s("const"), v, s(tystr(c.const_.ty()))])
            }
            Operand::RuntimeChecks(_) => {
                J::A(vec![s("const"), J::O(vec![("int", J::N(0)), ("rt", J::B(true))]), s("bool")])
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, me: Instance<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, body, me, env, depth)]),
            Rvalue::Repeat(o, c) => {
                let len = c.try_to_target_usize(tcx).map(|x| J::N(x as i128)).unwrap_or_else(|| s(format!("{c:?}")));
                J::A(vec![s("repeat"), self.operand(o, body, me, env, depth), len])
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared | BorrowKind::Fake(_) => "ref",
                    _ => "mut",
                };
                J::A(vec![s(m), self.place(p, body)])
            }
            Rvalue::Reborrow(_, m, p) => J::A(vec![s(if m.is_mut() { "rbmut" } else { "rbref" }), self.place(p, body)]),
            Rvalue::ThreadLocalRef(id) => J::A(vec![s("tls"), s(dpath(tcx, *id))]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), self.place(p, body)]),
            Rvalue::Cast(k, o, t) => {
                if let Some(p) = self.boxed(o, *t, body) {
                    return J::A(vec![s("raw"), self.place(&p, body)]);
                }
                let from = o.ty(&body.local_decls, tcx);
                let kind = format!("{k:?}");
                J::A(vec![s("cast"), s(kind), self.operand(o, body, me, env, depth), s(tystr(*t)), s(tystr(from))])
            }
            Rvalue::BinaryOp(op, b) => J::A(vec![
                s("bin"),
                s(format!("{op:?}")),
                self.operand(&b.0, body, me, env, depth),
                self.operand(&b.1, body, me, env, depth),
                s(tystr(b.0.ty(&body.local_decls, tcx))),
            ]),
            Rvalue::UnaryOp(op, o) => {
                J::A(vec![s("un"), s(format!("{op:?}")), self.operand(o, body, me, env, depth)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let vars = match t.kind() {
                    ty::Adt(def, _) if def.is_enum() => def
                        .discriminants(tcx)
                        .map(|(i, d)| J::A(vec![J::N(d.val as i128), s(def.variant(i).name.to_string())]))
                        .collect(),
                    _ => vec![],
                };
                J::A(vec![s("discr"), self.place(p, body), J::A(vars), s(head(tcx, t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let vals: Vec<J> = ops.iter().map(|o| self.operand(o, body, me, env, depth)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => J::O(vec![("array", J::B(true))]),
                    AggregateKind::Tuple => J::O(vec![("tuple", J::B(true))]),
                    AggregateKind::Adt(id, v, _, _, act) => {
                        let def = tcx.adt_def(*id);
                        let var = def.variant(*v);
                        let fields: Vec<J> = match act {
                            Some(a) => vec![s(var.fields[*a].name.to_string())],
                            None => var.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        J::O(vec![
                            ("adt", s(dpath(tcx, *id))),
                            ("variant", s(if def.is_enum() { var.name.to_string() } else { String::new() })),
                            ("fields", J::A(fields)),
                        ])
                    }
                    AggregateKind::Closure(id, args) => {
                        let inst = Instance::new_raw(*id, args);
                        let k = self.request(inst, env, depth);
                        let name = dpath(tcx, *id);
                        J::O(vec![("closure", k.map(s).unwrap_or(J::Z)), ("name", s(name))])
                    }
                    _ => J::O(vec![("other", J::B(true))]),
                };
                J::A(vec![s("agg"), kind, J::A(vals)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p, body)])]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(o, body, me, env, depth)]),
        }
    }

    fn dump(&mut self, key: String, work: Work<'tcx>, env: TypingEnv<'tcx>, depth: u32) {
        let tcx = self.tcx;
        let (inst, raw, kind) = match &work {
            Work::Inst(i) => (*i, tcx.optimized_mir(i.def_id()).clone(), "fn"),
            Work::Promoted(i, p) => (*i, tcx.promoted_mir(i.def_id())[*p].clone(), "promoted"),
            Work::Const(i) => (*i, tcx.mir_for_ctfe(i.def_id()).clone(), "const"),
        };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => raw,
        };
        let id = inst.def_id();
        let mut o = vec![
            ("name", s(cname(tcx, id))),
            ("path", s(dpath(tcx, id))),
            ("kind", s(if tcx.is_closure_like(id) && kind == "fn" { "closure" } else { kind })),
            ("local", J::B(id.is_local())),
            ("crate", s(tcx.crate_name(id.krate).to_string())),
            ("argc", n(body.arg_count)),
            ("span", self.span(body.span)),
        ];
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if let Some(l) = p.as_local() {
                    names.insert(l.index(), v.name.to_string());
                } else {
                    upv.push(s(v.name.to_string()));
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                J::A(vec![
                    s(tystr(d.ty)),
                    names.get(&l.index()).map(|x| s(x.clone())).unwrap_or(J::Z),
                    s(head(tcx, d.ty)),
                ])
            })
            .collect();
        o.push(("locals", J::A(locals)));
        o.push(("spread", body.spread_arg.map(|l| n(l.index())).unwrap_or(J::Z)));
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(J::Z);
                continue;
            }
            let mut ss = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(&b.0, &body);
                        let rv = self.rvalue(&b.1, &body, inst, env, depth);
                        let t = b.0.ty(&body.local_decls, tcx).ty;
                        ss.push(J::A(vec![s("="), pl, rv, self.span(st.source_info.span), s(head(tcx, t))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let name = match t.kind() {
                            ty::Adt(def, _) => def.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        let pl = self.place(place, &body);
                        ss.push(J::A(vec![s("setdiscr"), pl, s(name)]));
                    }
                    StatementKind::StorageDead(l) => ss.push(J::A(vec![s("dead"), n(l.index())])),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.index())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, tcx);
                    let op = self.operand(discr, &body, inst, env, depth);
                    let vals: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::N(v as i128), n(b.index())]))
                        .collect();
                    J::A(vec![s("switch"), op, J::A(vals), n(targets.otherwise().index()), s(tystr(t)), sp])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let pl = self.place(place, &body);
                    J::A(vec![s("drop"), pl, n(target.index()), s(tystr(t)), sp])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = match func.const_fn_def() {
                        Some((id, a)) => self.callee(id, a, env, depth),
                        None => {
                            let op = self.operand(func, &body, inst, env, depth);
                            J::O(vec![("cn", s("{indirect}")), ("op", op)])
                        }
                    };
                    let a: Vec<J> = args.iter().map(|a| self.operand(&a.node, &body, inst, env, depth)).collect();
                    let at: Vec<J> = args.iter().map(|a| s(tystr(a.node.ty(&body.local_decls, tcx)))).collect();
                    let rt = destination.ty(&body.local_decls, tcx).ty;
                    let d = self.place(destination, &body);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(|b| n(b.index())).unwrap_or(J::Z),
                        self.span(*fn_span),
                        J::A(at),
                        s(tystr(rt)),
                        s(head(tcx, rt)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, &body, inst, env, depth);
                    let (kind, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    let oty: Vec<J> = ops.iter().map(|x| s(tystr(x.ty(&body.local_decls, tcx)))).collect();
                    let ops: Vec<J> = ops.into_iter().map(|x| self.operand(x, &body, inst, env, depth)).collect();
                    J::A(vec![s("assert"), c, J::B(*expected), s(kind), J::A(ops), n(target.index()), sp, J::A(oty)])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.index())])
                }
                other => J::A(vec![s("other"), s(format!("{other:?}"))]),
            };
            blocks.push(J::O(vec![("s", J::A(ss)), ("t", t)]));
        }
        o.push(("blocks", J::A(blocks)));
        self.out.insert(key, J::O(o));
    }
}

// ---------------------------------------------------------------- item structure

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, String, Span)>,
    cur: String,
}
impl<'tcx> Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let foreign = b.span.from_expansion()
                && b.span.ctxt().outer_expn_data().macro_def_id.map(|d| !d.is_local()).unwrap_or(true);
            if foreign {
                intravisit::walk_block(self, b);
                return;
            }
            let o = b.hir_id.owner.def_id.to_def_id();
            self.found.push(("block".into(), cname_item(self.tcx, o), b.span));
        }
        intravisit::walk_block(self, b)
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        let id = i.owner_id.def_id.to_def_id();
        self.cur = dpath(self.tcx, id);
        match self.tcx.def_kind(id) {
            DefKind::ForeignMod => self.found.push(("foreign module".into(), self.cur.clone(), i.span)),
            DefKind::Fn => {
                if self.tcx.fn_sig(id).skip_binder().safety().is_unsafe() {
                    self.found.push(("function".into(), self.cur.clone(), i.span));
                }
            }
            DefKind::Trait => {
                if self.tcx.trait_def(id).safety.is_unsafe() {
                    self.found.push(("trait".into(), self.cur.clone(), i.span));
                }
            }
            DefKind::Impl { of_trait: true } => {
                // the compiler's own derives may add an unsafe marker for its optimisations
                let x = i.span.ctxt().outer_expn_data();
                let own = matches!(x.kind, rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Derive, _))
                    && x.macro_def_id.is_some_and(|m| ["core", "std"].contains(&self.tcx.crate_name(m.krate).as_str()));
                if !own && self.tcx.impl_trait_header(id).safety.is_unsafe() {
                    self.found.push(("impl".into(), self.cur.clone(), i.span));
                }
            }
            DefKind::Static { mutability, .. } => {
                if mutability.is_mut() {
                    self.found.push(("static mut".into(), self.cur.clone(), i.span));
                }
            }
            _ => {}
        }
        intravisit::walk_item(self, i)
    }
    fn visit_impl_item(&mut self, i: &'tcx rustc_hir::ImplItem<'tcx>) {
        let id = i.owner_id.def_id.to_def_id();
        if self.tcx.def_kind(id) == DefKind::AssocFn && self.tcx.fn_sig(id).skip_binder().safety().is_unsafe() {
            self.found.push(("function".into(), cname(self.tcx, id), i.span));
        }
        intravisit::walk_impl_item(self, i)
    }
    fn visit_trait_item(&mut self, i: &'tcx rustc_hir::TraitItem<'tcx>) {
        let id = i.owner_id.def_id.to_def_id();
        if self.tcx.def_kind(id) == DefKind::AssocFn && self.tcx.fn_sig(id).skip_binder().safety().is_unsafe() {
            self.found.push(("function".into(), cname(self.tcx, id), i.span));
        }
        intravisit::walk_trait_item(self, i)
    }
}
fn cname_item(tcx: TyCtxt<'_>, id: DefId) -> String {
    match tcx.def_kind(id) {
        DefKind::Fn | DefKind::AssocFn => cname(tcx, id),
        _ => dpath(tcx, id),
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("RGBFACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let mut cx = Cx { tcx, out: BTreeMap::new(), seen: HashSet::new(), queue: VecDeque::new(), skipped: 0 };
        let mut roots = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut statics = vec![];
        for l in owners {
            let id = l.to_def_id();
            match tcx.def_kind(id) {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, id);
                    let inst = Instance::new_raw(id, args);
                    let env = TypingEnv::post_analysis(tcx, id);
                    let key = cx.request(inst, env, 0);
                    let mut o = vec![("cn", s(cname(tcx, id))), ("path", s(dpath(tcx, id))), ("span", cx.span(tcx.def_span(id)))];
                    o.push(("key", key.map(s).unwrap_or(J::Z)));
                    o.push(("sig", s(with_no_trimmed_paths!(format!("{:?}", tcx.fn_sig(id).instantiate_identity().skip_norm_wip())))));
                    o.push(("inputs", J::A(tcx.fn_sig(id).instantiate_identity().skip_norm_wip().skip_binder().inputs().iter().map(|t| s(head(tcx, *t))).collect())));
                    o.push(("output", s(head(tcx, tcx.fn_sig(id).instantiate_identity().skip_norm_wip().skip_binder().output()))));
                    if let Some(i) = tcx.impl_of_assoc(id) {
                        let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                        o.push(("self", s(head(tcx, st))));
                        o.push(("selfty", s(tystr(st))));
                        if matches!(tcx.def_kind(i), DefKind::Impl { of_trait: true }) {
                            let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                            o.push(("trait", s(dpath(tcx, tr.def_id))));
                        }
                        o.push(("derived", J::B(tcx.is_automatically_derived(i))));
                    }
                    if let Some(t) = tcx.trait_of_assoc(id) {
                        o.push(("intrait", s(dpath(tcx, t))));
                    }
                    o.push(("vis", s(if tcx.visibility(id).is_public() { "pub" } else { "priv" })));
                    roots.push(J::O(o));
                }
                DefKind::Static { mutability, .. } => statics.push(J::O(vec![
                    ("path", s(dpath(tcx, id))),
                    ("mutable", J::B(mutability.is_mut())),
                    ("ty", s(tystr(tcx.type_of(id).instantiate_identity().skip_norm_wip()))),
                    ("span", cx.span(tcx.def_span(id))),
                    ("freeze", J::B(tcx.type_of(id).instantiate_identity().skip_norm_wip().is_freeze(tcx, TypingEnv::post_analysis(tcx, id)))),
                ])),
                _ => {}
            }
        }
        while let Some((k, w, e, d)) = cx.queue.pop_front() {
            cx.dump(k, w, e, d);
        }
        // Traits and their implementations
        let mut traits = vec![];
        let mut impls = vec![];
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Trait => {
                    let items: Vec<J> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|a| {
                            let mut o = vec![
                                ("name", s(a.opt_name().map(|x| x.to_string()).unwrap_or_else(|| "{opaque}".into()))),
                                ("kind", s(format!("{:?}", a.tag()))),
                                ("default", J::B(a.defaultness(tcx).has_value())),
                            ];
                            if tcx.def_kind(a.def_id) == DefKind::AssocFn {
                                o.push(("sig", s(with_no_trimmed_paths!(format!("{:?}", tcx.fn_sig(a.def_id).instantiate_identity().skip_norm_wip())))));
                            }
                            if matches!(tcx.def_kind(a.def_id), DefKind::AssocFn) && tcx.item_name(did).as_str() == "ContractVerify" {
                                o.push(("demands", J::A(demands(tcx, a.def_id, tcx.types.self_param).into_iter().map(s).collect())));
                            }
                            J::O(o)
                        })
                        .collect();
                    let preds: Vec<J> = tcx
                        .clauses_of(did)
                        .instantiate_identity(tcx)
                        .clauses
                        .iter()
                        .map(|p| s(with_no_trimmed_paths!(format!("{:?}", p.as_ref().skip_norm_wip()))))
                        .collect();
                    traits.push(J::O(vec![
                        ("path", s(dpath(tcx, did))),
                        ("items", J::A(items)),
                        ("preds", J::A(preds)),
                        ("span", cx.span(tcx.def_span(did))),
                        ("vis", s(if tcx.effective_visibilities(()).is_exported(id) { "pub" } else { "priv" })),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut o = vec![("selfty", s(tystr(st))), ("self", s(head(tcx, st))), ("span", cx.span(tcx.def_span(did)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(dpath(tcx, tr.def_id))));
                        o.push(("traitref", s(with_no_trimmed_paths!(format!("{tr:?}")))));
                    }
                    o.push(("items", J::A(tcx.associated_items(did).in_definition_order().map(|a| s(a.opt_name().map(|x| x.to_string()).unwrap_or_else(|| "{opaque}".into()))).collect())));
                    let g = tcx.generics_of(did);
                    o.push(("params", J::A(g.own_params.iter().map(|p| s(p.name.to_string())).collect())));
                    let preds: Vec<J> = tcx
                        .clauses_of(did)
                        .instantiate_identity(tcx)
                        .clauses
                        .iter()
                        .map(|p| s(with_no_trimmed_paths!(format!("{:?}", p.as_ref().skip_norm_wip()))))
                        .collect();
                    o.push(("preds", J::A(preds)));
                    let of_procedure = of_trait
                        && tcx.item_name(tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip().def_id).as_str() == "ContractVerify";
                    if matches!(st.kind(), ty::Param(_)) && of_procedure {
                        o.push(("demands", J::A(demands(tcx, did, st).into_iter().map(s).collect())));
                    }
                    o.push(("derived", J::B(tcx.is_automatically_derived(did))));
                    let mut consts = vec![];
                    for a in tcx.associated_items(did).in_definition_order() {
                        if let (DefKind::AssocConst { .. }, Some(name)) = (tcx.def_kind(a.def_id), a.opt_name()) {
                            let ty = tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip();
                            let env = TypingEnv::post_analysis(tcx, a.def_id);
                            let v = match tcx.const_eval_poly(a.def_id) {
                                Ok(v) => cx.const_val(v, ty, env, 0, 0),
                                Err(_) => J::Z,
                            };
                            consts.push(J::A(vec![s(name.to_string()), v]));
                        }
                    }
                    o.push(("consts", J::A(consts)));
                    impls.push(J::O(o));
                }
                DefKind::Struct | DefKind::Enum => {
                    let def = tcx.adt_def(did);
                    let vars: Vec<J> = def
                        .variants()
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("name", s(v.name.to_string())),
                                ("fields", J::A(v.fields.iter().map(|f| {
                                    J::A(vec![s(f.name.to_string()), s(tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))])
                                }).collect())),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![("path", s(dpath(tcx, did))), ("variants", J::A(vars)), ("span", cx.span(tcx.def_span(did))),
                        ("vis", s(if did.as_local().is_none_or(|id| tcx.effective_visibilities(()).is_reachable(id)) { "pub" } else { "priv" }))]));
                }
                _ => {}
            }
        }
        let mut uv = UnsafeV { tcx, found: vec![], cur: String::new() };
        tcx.hir_visit_all_item_likes_in_crate(&mut uv);
        let mut unsafe_items: Vec<J> = uv
            .found
            .iter()
            .map(|(k, p, sp)| J::O(vec![("kind", s(k.clone())), ("in", s(p.clone())), ("span", cx.span(*sp))]))
            .collect();
        let mut asm = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn | DefKind::Static { .. }) {
                let at = tcx.codegen_fn_attrs(id.to_def_id());
                let fixed = rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE;
                if at.flags.contains(fixed) || at.symbol_name.is_some() || at.link_section.is_some() {
                    unsafe_items.push(J::O(vec![
                        ("kind", s("symbol".to_string())),
                        ("in", s(dpath(tcx, id.to_def_id()))),
                        ("span", cx.span(tcx.def_span(id))),
                    ]));
                }
            }
            if tcx.def_kind(id) == DefKind::GlobalAsm {
                asm.push(s(dpath(tcx, id.to_def_id())));
            }
        }
        let features: Vec<J> = {
            let mut v: Vec<String> = tcx
                .sess
                .config
                .iter()
                .map(|(k, x)| match x {
                    Some(x) => format!("{k}={x}"),
                    None => k.to_string(),
                })
                .filter(|x| x.starts_with("feature=") || x == "debug_assertions")
                .collect();
            v.sort();
            v.into_iter().map(s).collect()
        };
        let env_read: Vec<J> = {
            let mut v: Vec<String> = tcx.sess.env_depinfo.borrow().iter().map(|(k, _)| k.to_string()).collect();
            v.sort();
            v.into_iter().map(s).collect()
        };
        let skipped = cx.skipped;
        let items_seen = tcx.hir_crate_items(()).definitions().count();
        let root = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("features", J::A(features)),
            ("env_read", J::A(env_read)),
            ("items_seen", n(items_seen)),
            ("skipped", n(skipped)),
            ("roots", J::A(roots)),
            ("traits", J::A(traits)),
            ("impls", J::A(impls)),
            ("adts", J::A(adts)),
            ("statics", J::A(statics)),
            ("unsafe", J::A(unsafe_items)),
            ("global_asm", J::A(asm)),
            ("bodies", J::M(std::mem::take(&mut cx.out))),
        ]);
        let mut o = String::new();
        root.w(&mut o);
        std::fs::write(&out, o).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As a rustc workspace wrapper, we get the path of rustc as the first argument
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if let Ok(rec) = std::env::var("RGBFACTS_RECORD") {
        let is_lib = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == std::env::var("RGBFACTS_CRATE").unwrap_or_default());
        if is_lib {
            let mut o = String::new();
            let mut env = BTreeMap::new();
            for (k, v) in std::env::vars() {
                if k.starts_with("CARGO") || k == "OUT_DIR" {
                    env.insert(k, J::S(v));
                }
            }
            let cwd = std::env::current_dir().unwrap().display().to_string();
            J::O(vec![("args", J::A(args[1..].iter().map(|x| s(x.clone())).collect())), ("env", J::M(env)), ("cwd", J::S(cwd))]).w(&mut o);
            std::fs::write(rec, o).expect("write record");
        }
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
