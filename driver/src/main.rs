//! rustc driver: exports resolved, per-root monomorphised MIR facts of selected crates as JSON.
//!
//! Used as RUSTC_WRAPPER. For crates listed in KFACTS_CRATES (comma separated, `lib` targets) it writes
//! `$KFACTS_OUT/<crate>.json`; for everything else it behaves exactly like rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_parse;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, CRATE_DEF_ID};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{
    AggregateKind, BinOp, Body, BorrowKind, CastKind, Const, ConstValue, MutBorrowKind, Operand, Place,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp, UnwindAction,
};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgKind, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv,
};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    for (i, s) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct InstKey<'tcx> {
    /// root whose typing environment the instance lives in; None when fully monomorphic
    root: Option<DefId>,
    inst: Instance<'tcx>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: HashMap<LocalDefId, (Body<'tcx>, Vec<Body<'tcx>>)>,
    types: Vec<String>,
    type_ids: HashMap<(Option<DefId>, Ty<'tcx>), usize>,
    type_json_ids: HashMap<String, usize>,
    adts: BTreeMap<String, String>,
    adt_pending: Vec<DefId>,
    adt_seen: HashSet<DefId>,
    inst_ids: HashMap<InstKey<'tcx>, usize>,
    queue: VecDeque<(usize, InstKey<'tcx>)>,
    names: HashMap<DefId, String>,
    out: std::io::BufWriter<std::fs::File>,
    extern_inline: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn name(&mut self, d: DefId) -> String {
        if let Some(n) = self.names.get(&d) {
            return n.clone();
        }
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        let n = match tcx.def_kind(d) {
            _ if key.parent.is_none() => tcx.crate_name(d.krate).to_string(),
            DefKind::Impl { of_trait } => {
                let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let s = self.ty_head(self_ty);
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let t = self.name(tr.def_id);
                    format!("<{} as {}>", s, t)
                } else {
                    s
                }
            }
            _ => {
                let parent = tcx.parent(d);
                let p = self.name(parent);
                let last = match key.disambiguated_data.data {
                    rustc_hir::definitions::DefPathData::TypeNs(s)
                    | rustc_hir::definitions::DefPathData::ValueNs(s)
                    | rustc_hir::definitions::DefPathData::MacroNs(s) => s.to_string(),
                    rustc_hir::definitions::DefPathData::Closure => {
                        format!("{{closure#{}}}", key.disambiguated_data.disambiguator)
                    }
                    ref o => format!("{{{:?}#{}}}", o, key.disambiguated_data.disambiguator),
                };
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    p
                } else if matches!(tcx.def_kind(parent), DefKind::ForeignMod) {
                    format!("extern::{}", last)
                } else {
                    format!("{}::{}", p, last)
                }
            }
        };
        self.names.insert(d, n.clone());
        n
    }

    fn ty_head(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.name(a.did()),
            ty::Ref(_, t, m) => {
                let h = self.ty_head(*t);
                format!("&{}{}", if m.is_mut() { "mut " } else { "" }, h)
            }
            ty::Dynamic(p, _) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", self.name(d)),
                None => "dyn".to_string(),
            },
            ty::Param(p) => p.name.to_string(),
            ty::Tuple(ts) => {
                if ts.is_empty() {
                    "()".into()
                } else {
                    format!("({})", ts.len())
                }
            }
            _ => with_no_trimmed_paths!(with_no_visible_paths!(t.to_string())),
        }
    }

    fn args_json(&mut self, root: Option<DefId>, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(root, t).to_string()),
                GenericArgKind::Const(c) => v.push(esc(&c.to_string())),
                GenericArgKind::Lifetime(_) => {}
                _ => {}
            }
        }
        arr(v)
    }

    /// interns a type. Types are shared over the crate; `Param`s carry only their name.
    fn ty(&mut self, root: Option<DefId>, t: Ty<'tcx>) -> usize {
        let root = None.or(root.filter(|_| false));
        if let Some(i) = self.type_ids.get(&(root, t)) {
            return *i;
        }
        let j = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                format!("{{\"k\":\"prim\",\"n\":{}}}", esc(&t.to_string()))
            }
            ty::Never => "{\"k\":\"never\"}".to_string(),
            ty::Adt(a, args) => {
                let n = self.name(a.did());
                if self.adt_seen.insert(a.did()) {
                    self.adt_pending.push(a.did());
                }
                let aj = self.args_json(root, args);
                format!("{{\"k\":\"adt\",\"n\":{},\"a\":{}}}", esc(&n), aj)
            }
            ty::Ref(_, t, m) => {
                let i = self.ty(root, *t);
                format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", i, m.is_mut())
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(root, *t);
                format!("{{\"k\":\"ptr\",\"t\":{},\"m\":{}}}", i, m.is_mut())
            }
            ty::Tuple(ts) => {
                let v: Vec<_> = ts.iter().map(|t| self.ty(root, t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(v))
            }
            ty::Array(t, n) => {
                let i = self.ty(root, *t);
                match n.try_to_target_usize(self.tcx) {
                    Some(n) => format!("{{\"k\":\"slice\",\"t\":{},\"len\":{}}}", i, n),
                    None => format!("{{\"k\":\"slice\",\"t\":{}}}", i),
                }
            }
            ty::Slice(t) => {
                let i = self.ty(root, *t);
                format!("{{\"k\":\"slice\",\"t\":{}}}", i)
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            ty::Closure(d, args) => {
                let n = self.name(*d);
                let up: Vec<_> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(root, t).to_string())
                    .collect();
                let targs = { let pa = self.tcx.mk_args(args.as_closure().parent_args()); self.args_json(root, pa) };
                let uid = format!("{:?}", d.index);
                format!(
                    "{{\"k\":\"closure\",\"n\":{},\"d\":{},\"a\":{},\"u\":{},\"ck\":{}}}",
                    esc(&n),
                    esc(&uid),
                    targs,
                    arr(up),
                    esc(&args.as_closure().kind_ty().to_opt_closure_kind().map(|k| format!("{:?}", k)).unwrap_or_default())
                )
            }
            ty::Coroutine(d, args) => {
                let n = self.name(*d);
                let up: Vec<_> = args
                    .as_coroutine()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(root, t).to_string())
                    .collect();
                let ret = args.as_coroutine().return_ty();
                let ret = self.ty(root, ret);
                format!(
                    "{{\"k\":\"coroutine\",\"n\":{},\"d\":{},\"u\":{},\"r\":{}}}",
                    esc(&n),
                    esc(&format!("{:?}:{}", d.krate, d.index.as_u32())),
                    arr(up),
                    ret
                )
            }
            ty::FnDef(d, args) => {
                let n = self.name(*d);
                let aj = self.args_json(root, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
                format!("{{\"k\":\"fndef\",\"n\":{},\"a\":{}}}", esc(&n), aj)
            }
            ty::FnPtr(..) => format!(
                "{{\"k\":\"fnptr\",\"s\":{}}}",
                esc(&with_no_trimmed_paths!(with_no_visible_paths!(t.to_string())))
            ),
            ty::Dynamic(preds, _) => {
                let n = match preds.principal_def_id() {
                    Some(d) => self.name(d),
                    None => "dyn".into(),
                };
                let aj = match preds.principal() {
                    Some(p) => {
                        let p = p.skip_binder();
                        self.args_json(root, p.args)
                    }
                    None => "[]".into(),
                };
                format!("{{\"k\":\"dyn\",\"n\":{},\"a\":{}}}", esc(&n), aj)
            }
            ty::Alias(..) => format!(
                "{{\"k\":\"alias\",\"s\":{}}}",
                esc(&with_no_trimmed_paths!(with_no_visible_paths!(t.to_string())))
            ),
            _ => format!(
                "{{\"k\":\"other\",\"s\":{}}}",
                esc(&with_no_trimmed_paths!(with_no_visible_paths!(t.to_string())))
            ),
        };
        let id = if let Some(i) = self.type_json_ids.get(&j) {
            *i
        } else {
            let i = self.types.len();
            self.types.push(j.clone());
            self.type_json_ids.insert(j, i);
            i
        };
        self.type_ids.insert((root, t), id);
        id
    }

    fn flush_adts(&mut self) {
        while let Some(d) = self.adt_pending.pop() {
            let tcx = self.tcx;
            let n = self.name(d);
            let adt = tcx.adt_def(d);
            let kind = if adt.is_enum() {
                "enum"
            } else if adt.is_union() {
                "union"
            } else {
                "struct"
            };
            let mut vs = vec![];
            for (vi, v) in adt.variants().iter_enumerated() {
                let fs: Vec<_> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                let fts: Vec<_> = v
                    .fields
                    .iter()
                    .map(|f| {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        if d.is_local() || true {
                            self.ty(None, t).to_string()
                        } else {
                            "null".into()
                        }
                    })
                    .collect();
                let discr = if adt.is_enum() {
                    adt.discriminant_for_variant(tcx, vi).val.to_string()
                } else {
                    "0".into()
                };
                vs.push(format!(
                    "{{\"n\":{},\"f\":{},\"t\":{},\"d\":{}}}",
                    esc(v.name.as_str()),
                    arr(fs),
                    arr(fts),
                    discr
                ));
            }
            // generic parameter names
            let g = tcx.generics_of(d);
            let gp: Vec<_> = g
                .own_params
                .iter()
                .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                .map(|p| esc(p.name.as_str()))
                .collect();
            let mut drop_inst = "null".to_string();
            if let Some(dtor) = tcx.adt_destructor(d) {
                drop_inst = esc(&self.name(dtor.did));
            }
            self.adts.insert(
                n.clone(),
                format!(
                    "{{\"kind\":\"{}\",\"local\":{},\"g\":{},\"v\":{},\"drop\":{}}}",
                    kind,
                    d.is_local(),
                    arr(gp),
                    arr(vs),
                    drop_inst
                ),
            );
        }
    }

    fn loc(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let exp = sp.from_expansion();
        // the macro that produced it, if any
        let mac = if exp {
            let data = sp.ctxt().outer_expn_data();
            match data.macro_def_id {
                Some(d) => {
                    let k = self.tcx.crate_name(d.krate);
                    format!("{}::{}", k, self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())
                }
                None => format!("{:?}", data.kind).chars().take(40).collect(),
            }
        } else {
            String::new()
        };
        let csp = sp.source_callsite();
        let lo = sm.lookup_char_pos(csp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| "?".into()),
            o => format!("{:?}", o),
        };
        if mac.is_empty() {
            esc(&format!("{}:{}", f, lo.line))
        } else {
            esc(&format!("{}:{}!{}", f, lo.line, mac))
        }
    }

    fn has_body(&self, inst: Instance<'tcx>) -> bool {
        match inst.def {
            InstanceKind::Item(d) => {
                if let Some(l) = d.as_local() {
                    self.bodies.contains_key(&l)
                } else {
                    false
                }
            }
            _ => false,
        }
    }

    fn extern_ok(&mut self, inst: Instance<'tcx>) -> bool {
        let d = match inst.def {
            InstanceKind::Item(d) => d,
            _ => return false,
        };
        if d.is_local() {
            return false;
        }
        let n = self.name(d);
        // strip leading `<` for impls
        let hit = self.extern_inline.iter().any(|p| {
            if let Some(x) = p.strip_prefix('=') {
                n == x
            } else if let Some(x) = p.strip_prefix('~') {
                n.contains(x)
            } else {
                n.starts_with(p.as_str())
            }
        });
        hit && self.tcx.is_mir_available(d) && !self.tcx.is_coroutine(d)
    }

    fn inst_id(&mut self, root: DefId, inst: Instance<'tcx>) -> Option<usize> {
        if !(self.has_body(inst) || self.extern_ok(inst)) {
            return None;
        }
        let r = if inst.args.has_param() || inst.args.has_aliases() { Some(root) } else { None };
        let key = InstKey { root: r, inst };
        if let Some(i) = self.inst_ids.get(&key) {
            return Some(*i);
        }
        let i = self.inst_ids.len();
        self.inst_ids.insert(key, i);
        self.queue.push_back((i, key));
        Some(i)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(None, t);
                    format!("[\"f\",{},{}]", f.as_u32(), ti)
                }
                ProjectionElem::Downcast(_, vi) => format!("[\"v\",{}]", vi.as_u32()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { .. } => "[\"ss\"]".to_string(),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(v))
    }

    fn alloc_bytes(&self, alloc_id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(alloc_id)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if (off + len) as usize <= a.len() {
                    Some(
                        a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize)
                            .to_vec(),
                    )
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn const_json(&mut self, env: TypingEnv<'tcx>, root: DefId, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(None, t);
        let mut extra = String::new();
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let ci = self.callee_json(env, root, *d, args);
            return format!("{{\"k\":\"fn\",\"ty\":{},\"c\":{}}}", ti, ci);
        }
        if let (ty::Closure(d, args), Const::Val(ConstValue::ZeroSized, _)) = (t.kind(), c) {
            // a closure that captures nothing, propagated as a constant
            let i = self.inst_id(root, Instance::new_raw(*d, args));
            let n = self.name(*d);
            return format!(
                "{{\"k\":\"clo\",\"ty\":{},\"n\":{},\"i\":{}}}",
                ti,
                esc(&n),
                i.map(|i| i.to_string()).unwrap_or("null".into())
            );
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                // a promoted of the body being exported
                return format!("{{\"k\":\"promoted\",\"ty\":{},\"i\":{}}}", ti, p.as_u32());
            }
            let n = self.name(u.def);
            let _ = write!(extra, ",\"def\":{}", esc(&n));
            let ga: Vec<String> = u.args.types().map(|t| self.ty(None, t).to_string()).collect();
            if !ga.is_empty() {
                let _ = write!(extra, ",\"ga\":[{}]", ga.join(","));
            }
        }
        let val = match c {
            Const::Val(v, _) => Some(*v),
            Const::Ty(_, ct) => {
                if let Some(s) = ct.try_to_scalar() {
                    Some(ConstValue::Scalar(s))
                } else {
                    let _ = write!(extra, ",\"cp\":{}", esc(&ct.to_string()));
                    None
                }
            }
            Const::Unevaluated(..) => {
                if c.has_param() || c.has_aliases() {
                    None
                } else {
                    c.eval(tcx, env, rustc_span::DUMMY_SP).ok()
                }
            }
        };
        if let Some(v) = val {
            if let Some(j) = self.enum_json(env, t, ti, v) {
                return j;
            }
        }
        match val {
            Some(ConstValue::Scalar(Scalar::Int(i))) => {
                let bits = i.to_bits_unchecked();
                let v = if let ty::Int(_) = t.kind() {
                    i.to_int(i.size()).to_string()
                } else {
                    bits.to_string()
                };
                format!("{{\"k\":\"int\",\"ty\":{},\"v\":{}{}}}", ti, v, extra)
            }
            Some(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Static(d)) => {
                        let n = self.name(d);
                        format!("{{\"k\":\"static\",\"ty\":{},\"n\":{}}}", ti, esc(&n))
                    }
                    Some(GlobalAlloc::Memory(m)) => {
                        // &[u8; N] literals
                        let a = m.inner();
                        let by = a
                            .inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len())
                            .to_vec();
                        let isu8 = matches!(t.kind(), ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Array(e, _) if *e == tcx.types.u8));
                        if isu8 && by.len() < 4096 {
                            format!(
                                "{{\"k\":\"bytes\",\"ty\":{},\"v\":{}{}}}",
                                ti,
                                esc(&String::from_utf8_lossy(&by)),
                                extra
                            )
                        } else {
                            format!("{{\"k\":\"opq\",\"ty\":{},\"s\":{}{}}}", ti, esc(&format!("{:?}", by.len())), extra)
                        }
                    }
                    _ => format!("{{\"k\":\"opq\",\"ty\":{}{}}}", ti, extra),
                }
            }
            Some(ConstValue::Slice { alloc_id, meta }) => match self.alloc_bytes(alloc_id, 0, meta) {
                Some(b) => format!(
                    "{{\"k\":\"str\",\"ty\":{},\"v\":{}{}}}",
                    ti,
                    esc(&String::from_utf8_lossy(&b)),
                    extra
                ),
                None => format!("{{\"k\":\"opq\",\"ty\":{}{}}}", ti, extra),
            },
            Some(ConstValue::ZeroSized) => format!("{{\"k\":\"zst\",\"ty\":{}{}}}", ti, extra),
            Some(ConstValue::Indirect { .. }) => {
                let s = with_no_trimmed_paths!(with_no_visible_paths!(c.to_string()));
                format!("{{\"k\":\"opq\",\"ty\":{},\"s\":{}{}}}", ti, esc(&s), extra)
            }
            _ => {
                let s = with_no_trimmed_paths!(with_no_visible_paths!(c.to_string()));
                format!("{{\"k\":\"opq\",\"ty\":{},\"s\":{}{}}}", ti, esc(&s), extra)
            }
        }
    }

    /// a constant of an enum type: which variant it is, and of what
    fn enum_json(&mut self, env: TypingEnv<'tcx>, t: Ty<'tcx>, ti: usize, v: ConstValue) -> Option<String> {
        let tcx = self.tcx;
        let ty::Adt(ad, _) = t.kind() else { return None };
        if !ad.is_enum() {
            return None;
        }
        if !(t.has_param() || t.has_aliases()) {
            let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
            let var = d.variant?;
            let fs: Vec<String> = d.fields.iter().map(|(fv, ft)| self.value_json(env, *ft, *fv)).collect();
            return Some(format!("{{\"k\":\"enum\",\"ty\":{},\"v\":{},\"f\":{}}}", ti, var.as_u32(), arr(fs)));
        }
        // of a generic type: the variant from the layout, if it has no fields
        let ConstValue::Scalar(Scalar::Int(i)) = v else { return None };
        let bits = i.to_bits_unchecked();
        let layout = tcx.layout_of(env.as_query_input(t)).ok()?;
        let var = match &layout.variants {
            rustc_abi::Variants::Single { index } => *index,
            rustc_abi::Variants::Multiple { tag_encoding: rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, .. } => {
                let rel = bits.wrapping_sub(*niche_start);
                if rel <= (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128 {
                    rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                } else {
                    *untagged_variant
                }
            }
            _ => return None,
        };
        if ad.variant(var).fields.is_empty() {
            return Some(format!("{{\"k\":\"enum\",\"ty\":{},\"v\":{},\"f\":[]}}", ti, var.as_u32()));
        }
        None
    }

    fn value_json(&mut self, env: TypingEnv<'tcx>, t: Ty<'tcx>, v: ConstValue) -> String {
        let c = Const::Val(v, t);
        self.const_json(env, DefId::local(rustc_hir::def_id::CRATE_DEF_INDEX), &c)
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, root: DefId, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.const_json(env, root, &c.const_)),
            _ => "[\"k\",{\"k\":\"int\",\"ty\":0,\"v\":0,\"rt\":true}]".to_string(),
        }
    }

    /// vtable of `src: dyn Trait`: method def name -> instance
    fn vtable_json(&mut self, env: TypingEnv<'tcx>, root: DefId, src: Ty<'tcx>, dst: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let ty::Dynamic(preds, _) = dst.kind() else { return "null".into() };
        let Some(principal) = preds.principal() else { return "{}".into() };
        if matches!(src.kind(), ty::Dynamic(..)) {
            return "{\"up\":true}".into();
        }
        let tr = tcx.instantiate_bound_regions_with_erased(principal.with_self_ty(tcx, src));
        let mut items = vec![];
        // own and supertraits' methods, local traits only
        let mut todo = vec![tr];
        let mut seen = HashSet::new();
        while let Some(tr) = todo.pop() {
            if !seen.insert(tr.def_id) {
                continue;
            }
            for (cl, _) in tcx
                .explicit_super_clauses_of(tr.def_id)
                .iter_instantiated_copied(tcx, tr.args)
                .map(|c| c.skip_norm_wip())
            {
                if let Some(tc) = cl.as_trait_clause() {
                    todo.push(tcx.instantiate_bound_regions_with_erased(tc.map_bound(|t| t.trait_ref)));
                }
            }
            if !tr.def_id.is_local() && !tcx.crate_name(tr.def_id.krate).as_str().starts_with("kameo") {
                continue;
            }
            for it in tcx.associated_items(tr.def_id).in_definition_order() {
                if !matches!(it.kind, ty::AssocKind::Fn { .. }) {
                    continue;
                }
                if tcx.generics_of(it.def_id).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                    continue;
                }
                let margs = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                    if (p.index as usize) < tr.args.len() {
                        tr.args[p.index as usize]
                    } else {
                        tcx.lifetimes.re_erased.into()
                    }
                });
                let n = self.name(it.def_id);
                let Ok(margs) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(margs)) else { continue };
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, it.def_id, margs) {
                    if let Some(i) = self.inst_id(root, inst) {
                        items.push(format!("{}:{}", esc(&n), i));
                    }
                }
            }
        }
        format!("{{{}}}", items.join(","))
    }

    fn callee_json(
        &mut self,
        env: TypingEnv<'tcx>,
        root: DefId,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
    ) -> String {
        let tcx = self.tcx;
        let n = self.name(d);
        let aj = self.args_json(None, args);
        let mut o = format!("{{\"n\":{},\"a\":{}", esc(&n), aj);
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            // constructor function
            let parent = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.parent(parent);
                    (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_u32())
                }
                _ => (parent, 0),
            };
            let an = self.name(adt);
            if self.adt_seen.insert(adt) {
                self.adt_pending.push(adt);
            }
            let _ = write!(o, ",\"ctor\":[{},{}]}}", esc(&an), vi);
            return o;
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            let tn = self.name(t);
            let _ = write!(o, ",\"tr\":{}", esc(&tn));
        }
        if let Some(i) = tcx.intrinsic(d) {
            let _ = write!(o, ",\"intr\":{}", esc(i.name.as_str()));
        }
        match tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)) {
            Ok(args) => match Instance::try_resolve(tcx, env, d, args) {
                Ok(Some(inst)) => {
                    let rd = inst.def_id();
                    let rn = self.name(rd);
                    let kind = match inst.def {
                        InstanceKind::Item(_) => "item",
                        InstanceKind::Virtual(..) => "virtual",
                        InstanceKind::Intrinsic(..) => "intrinsic",
                        InstanceKind::LlvmIntrinsic(..) => "llvm",
                        InstanceKind::Shim(s) => match s {
                            ty::ShimKind::ClosureOnce { .. } => "closure_once",
                            ty::ShimKind::FnPtr(..) => "fnptr",
                            ty::ShimKind::Clone(..) => "clone",
                            ty::ShimKind::DropGlue(..) => "drop",
                            _ => "shim",
                        },
                    };
                    let raj = self.args_json(None, inst.args);
                    let _ = write!(o, ",\"rn\":{},\"rk\":\"{}\",\"ra\":{}", esc(&rn), kind, raj);
                    let target = if kind == "closure_once" {
                        // call_once on a by-ref closure: run the closure body
                        if let ty::Closure(cd, cargs) = inst.args.type_at(0).kind() {
                            Some(Instance::new_raw(*cd, cargs))
                        } else {
                            None
                        }
                    } else {
                        Some(inst)
                    };
                    if let Some(t) = target {
                        if let Some(i) = self.inst_id(root, t) {
                            let _ = write!(o, ",\"i\":{}", i);
                        }
                    }
                }
                _ => {}
            },
            Err(_) => {}
        }
        o.push('}');
        o
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, root: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(env, root, o)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.operand(env, root, o)),
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "f",
                    BorrowKind::Mut { kind: MutBorrowKind::TwoPhaseBorrow } => "m",
                    BorrowKind::Mut { .. } => "m",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"p\",{}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.name(*d))),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(None, *t);
                let src = o.ty(&body.local_decls, self.tcx);
                let si = self.ty(None, src);
                let (kn, vt) = match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize, _) => {
                        let (a, b) = self.unsize_pair(env, src, *t);
                        let vt = match (a, b) {
                            (Some(a), Some(b)) => {
                                let ai = self.ty(None, a);
                                let v = self.vtable_json(env, root, a, b);
                                format!("[{},{}]", ai, v)
                            }
                            _ => "null".into(),
                        };
                        ("unsize", vt)
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_), _) => {
                        let mut vt = "null".into();
                        if let ty::Closure(d, args) = src.kind() {
                            if let Some(i) = self.inst_id(root, Instance::new_raw(*d, args)) {
                                vt = i.to_string();
                            }
                        }
                        ("closurefn", vt)
                    }
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_), _) => ("reify", "null".into()),
                    CastKind::PointerCoercion(..) => ("coerce", "null".into()),
                    CastKind::Transmute => ("transmute", "null".into()),
                    CastKind::IntToInt => ("int", "null".into()),
                    CastKind::PtrToPtr => ("ptr", "null".into()),
                    CastKind::Subtype => ("subtype", "null".into()),
                    _ => ("other", "null".into()),
                };
                format!("[\"cast\",\"{}\",{},{},{},{}]", kn, self.operand(env, root, o), si, ti, vt)
            }
            Rvalue::BinaryOp(op, ops) => {
                let on = match op {
                    BinOp::Eq => "eq",
                    BinOp::Ne => "ne",
                    BinOp::Lt => "lt",
                    BinOp::Le => "le",
                    BinOp::Gt => "gt",
                    BinOp::Ge => "ge",
                    o => return {
                        let s = format!("{:?}", o);
                        format!("[\"bin\",{},{},{}]", esc(&s), self.operand(env, root, &ops.0), self.operand(env, root, &ops.1))
                    },
                };
                format!(
                    "[\"bin\",\"{}\",{},{}]",
                    on,
                    self.operand(env, root, &ops.0),
                    self.operand(env, root, &ops.1)
                )
            }
            Rvalue::UnaryOp(op, o) => {
                let on = match op {
                    UnOp::Not => "not",
                    UnOp::Neg => "neg",
                    UnOp::PtrMetadata => "meta",
                };
                format!("[\"un\",\"{}\",{}]", on, self.operand(env, root, o))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(None, t);
                format!("[\"discr\",{},{}]", self.place(p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let opsj: Vec<_> = ops.iter().map(|o| self.operand(env, root, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let n = self.name(*d);
                        if self.adt_seen.insert(*d) {
                            self.adt_pending.push(*d);
                        }
                        let aj = self.args_json(None, args);
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            esc(&n),
                            vi.as_u32(),
                            aj,
                            active.map(|a| a.as_u32().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let i = self.inst_id(root, Instance::new_raw(*d, args));
                        let n = self.name(*d);
                        format!("[\"closure\",{},{}]", esc(&n), i.map(|i| i.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let i = self.inst_id(root, Instance::new_raw(*d, args));
                        let n = self.name(*d);
                        format!("[\"coroutine\",{},{}]", esc(&n), i.map(|i| i.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::CoroutineClosure(d, args) => {
                        let i = self.inst_id(root, Instance::new_raw(*d, args));
                        let n = self.name(*d);
                        format!("[\"coclosure\",{},{}]", esc(&n), i.map(|i| i.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kj, arr(opsj))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(env, root, o)),
            _ => "[\"unk\"]".to_string(),
        }
    }

    /// the pointee pair of an unsizing coercion
    fn unsize_pair(&self, env: TypingEnv<'tcx>, src: Ty<'tcx>, dst: Ty<'tcx>) -> (Option<Ty<'tcx>>, Option<Ty<'tcx>>) {
        let tcx = self.tcx;
        match (src.kind(), dst.kind()) {
            (
                ty::Ref(_, a, _) | ty::RawPtr(a, _),
                ty::Ref(_, b, _) | ty::RawPtr(b, _),
            ) => {
                let (a, b) = tcx.struct_lockstep_tails_for_codegen(*a, *b, env);
                (Some(a), Some(b))
            }
            (ty::Adt(da, aa), ty::Adt(db, ab)) if da.did() == db.did() => {
                // Box<T>, Pin<Box<T>>, Arc<T>: first differing type argument
                for (x, y) in aa.types().zip(ab.types()) {
                    if x != y {
                        if matches!(y.kind(), ty::Dynamic(..)) {
                            return (Some(x), Some(y));
                        }
                        return self.unsize_pair(env, x, y);
                    }
                }
                (None, None)
            }
            _ => (None, None),
        }
    }

    fn body_json(&mut self, env: TypingEnv<'tcx>, root: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        for vd in &body.var_debug_info {
            if let rustc_middle::mir::VarDebugInfoContents::Place(p) = &vd.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(vd.name.to_string());
                }
            }
        }
        let mut ls = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(None, d.ty);
            match names.get(&l.as_usize()) {
                Some(n) => ls.push(format!("[{},{}]", t, esc(n))),
                None => ls.push(format!("[{}]", t)),
            }
        }
        let mut bs = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = r {
                            // match guard artefact
                            let pj = self.place(p);
                            ss.push(format!("[\"a\",{},[\"unk\"]]", pj));
                            continue;
                        }
                        let pj = self.place(p);
                        let rj = self.rvalue(env, root, body, r);
                        ss.push(format!("[\"a\",{},{}]", pj, rj));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        ss.push(format!("[\"sd\",{},{}]", pj, variant_index.as_u32()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_u32())),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l.as_u32())),
                    _ => {}
                }
            }
            let term = data.terminator();
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_u32().to_string(),
                UnwindAction::Continue => "null".to_string(),
                _ => "null".to_string(),
            };
            let loc = self.loc(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let di = self.ty(None, dt);
                    let v: Vec<_> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.operand(env, root, discr),
                        di,
                        arr(v),
                        targets.otherwise().as_u32(),
                        loc
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".to_string(),
                TerminatorKind::CoroutineDrop => "[\"cordrop\"]".to_string(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pti = self.ty(None, pt);
                    format!(
                        "[\"drop\",{},{},{},{},{}]",
                        self.place(place),
                        target.as_u32(),
                        unw(unwind),
                        pti,
                        loc
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(env, root, func);
                    let a: Vec<_> = args.iter().map(|a| self.operand(env, root, &a.node)).collect();
                    let d = self.place(destination);
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let dti = self.ty(None, dty);
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        f,
                        arr(a),
                        d,
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                        unw(unwind),
                        dti,
                        loc
                    )
                }
                TerminatorKind::TailCall { .. } => "[\"unk\"]".to_string(),
                TerminatorKind::Assert { cond, expected, target, unwind, msg } => {
                    let m = format!("{:?}", msg);
                    let m: String = m.chars().take(40).collect();
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.operand(env, root, cond),
                        expected,
                        target.as_u32(),
                        unw(unwind),
                        esc(&m),
                        loc
                    )
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{}]", resume.as_u32(), self.place(resume_arg), loc)
                }
                TerminatorKind::InlineAsm { .. } => "[\"unk\"]".to_string(),
            };
            bs.push(format!("[{},{},{}]", if data.is_cleanup { 1 } else { 0 }, arr(ss), t));
        }
        format!("\"argc\":{},\"l\":{},\"b\":{}", body.arg_count, arr(ls), arr(bs))
    }

    fn emit_instance(&mut self, id: usize, key: InstKey<'tcx>) {
        let tcx = self.tcx;
        let inst = key.inst;
        let d = inst.def_id();
        let envdef = key.root.unwrap_or(d);
        let env = match key.root {
            Some(r) => TypingEnv::post_analysis(tcx, r),
            None => TypingEnv::fully_monomorphized(),
        };
        let (body, promoted): (Body<'tcx>, Vec<Body<'tcx>>) = if let Some(l) = d.as_local() {
            let (b, p) = self.bodies.get(&l).unwrap();
            (b.clone(), p.clone())
        } else {
            let b = tcx.instance_mir(inst.def).clone();
            let p = tcx.promoted_mir(d).iter().cloned().collect();
            (b, p)
        };
        let norm = |b: Body<'tcx>| -> Body<'tcx> {
            let bb = b.clone();
            match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b)) {
                Ok(x) => x,
                Err(_) => bb,
            }
        };
        let body = norm(body);
        let promoted: Vec<Body<'tcx>> = promoted.into_iter().map(norm).collect();
        let root = envdef;
        let bj = self.body_json(env, root, &body);
        let pj: Vec<_> = promoted
            .iter()
            .map(|p| format!("{{{}}}", self.body_json(env, root, p)))
            .collect();
        let n = self.name(d);
        let kind = if tcx.is_coroutine(d) {
            "coroutine"
        } else if tcx.is_closure_like(d) {
            "closure"
        } else {
            "fn"
        };
        let aj = self.args_json(None, inst.args);
        let rootn = key.root.map(|r| esc(&self.name(r))).unwrap_or("null".into());
        let up: Vec<String> = if d.is_local() && kind != "fn" {
            tcx.closure_captures(d.expect_local()).iter().map(|c| esc(&c.to_string(tcx))).collect()
        } else {
            vec![]
        };
        let loc = self.loc(tcx.def_span(d));
        let line = format!(
            "{{\"id\":{},\"n\":{},\"kind\":\"{}\",\"args\":{},\"root\":{},\"up\":{},\"loc\":{},{},\"prom\":{}}}\n",
            id,
            esc(&n),
            kind,
            aj,
            rootn,
            arr(up),
            loc,
            bj,
            arr(pj)
        );
        self.out.write_all(line.as_bytes()).unwrap();
    }

    fn run(&mut self, index_path: &str) {
        let tcx = self.tcx;
        let mut fns = vec![];
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|d| d.local_def_index);
        for l in owners.iter().copied() {
            let d = l.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) || !self.bodies.contains_key(&l) {
                if matches!(k, DefKind::Static { .. }) && self.bodies.contains_key(&l) {
                    // statics' initialisers are exported as roots too
                    let inst = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
                    let key = InstKey { root: Some(d), inst };
                    let i = self.inst_ids.len();
                    self.inst_ids.insert(key, i);
                    self.queue.push_back((i, key));
                    let n = self.name(d);
                    let loc = self.loc(tcx.def_span(d));
                    fns.push(format!("{{\"n\":{},\"i\":{},\"static\":true,\"loc\":{}}}", esc(&n), i, loc));
                }
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(d, args);
            let r = if args.has_param() || args.has_aliases() { Some(d) } else { None };
            let key = InstKey { root: r, inst };
            let i = match self.inst_ids.get(&key) {
                Some(i) => *i,
                None => {
                    let i = self.inst_ids.len();
                    self.inst_ids.insert(key, i);
                    self.queue.push_back((i, key));
                    i
                }
            };
            let n = self.name(d);
            let vis = tcx.effective_visibilities(()).is_reachable(l);
            let parent = tcx.parent(d);
            let (mut imp, mut tr) = ("null".to_string(), "null".to_string());
            let mut trargs = "null".to_string();
            match tcx.def_kind(parent) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    imp = self.ty(None, st).to_string();
                    if of_trait {
                        let t = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                        tr = esc(&self.name(t.def_id));
                        trargs = self.args_json(None, t.args);
                    }
                }
                DefKind::Trait => {
                    tr = esc(&self.name(parent));
                }
                _ => {}
            }
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<_> = sig.inputs().iter().map(|t| self.ty(None, *t).to_string()).collect();
            let o = self.ty(None, sig.output());
            let loc = self.loc(tcx.def_span(d));
            fns.push(format!(
                "{{\"n\":{},\"i\":{},\"pub\":{},\"async\":{},\"impl\":{},\"tr\":{},\"tra\":{},\"in\":{},\"out\":{},\"loc\":{},\"item\":{}}}",
                esc(&n),
                i,
                vis,
                tcx.asyncness(d).is_async(),
                imp,
                tr,
                trargs,
                arr(ins),
                o,
                loc,
                esc(&tcx.item_name(d).to_string())
            ));
        }
        while let Some((id, key)) = self.queue.pop_front() {
            self.emit_instance(id, key);
        }
        // trait impls of the crate
        let mut impls = vec![];
        for (tr, ims) in tcx.all_local_trait_impls(()).iter() {
            for im in ims {
                let tn = self.name(*tr);
                let st = tcx.type_of(*im).instantiate_identity().skip_norm_wip();
                let sti = self.ty(None, st);
                let tra = tcx.impl_trait_ref(im.to_def_id()).instantiate_identity().skip_norm_wip();
                let targs = self.args_json(None, tra.args);
                let mut ms = vec![];
                for it in tcx.associated_items(im.to_def_id()).in_definition_order() {
                    ms.push(esc(&it.opt_name().map(|s| s.to_string()).unwrap_or_default()));
                }
                let preds: Vec<_> = tcx.clauses_of(im.to_def_id()).instantiate_identity(tcx).into_iter()
                    .map(|(c, _)| esc(&with_no_trimmed_paths!(with_no_visible_paths!(c.skip_norm_wip().to_string())))).collect();
                // associated type values
                let mut ats = vec![];
                let mut acs = vec![];
                for it in tcx.associated_items(im.to_def_id()).in_definition_order() {
                    if matches!(it.kind, ty::AssocKind::Type { .. }) {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let ti = self.ty(None, t);
                        ats.push(format!("{}:{}", esc(it.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str()), ti));
                    }
                    if matches!(it.kind, ty::AssocKind::Const { .. }) && !tcx.generics_of(it.def_id).requires_monomorphization(tcx) {
                        let c = Const::from_unevaluated(tcx, it.def_id).instantiate_identity().skip_norm_wip();
                        let j = self.const_json(TypingEnv::fully_monomorphized(), im.to_def_id(), &c);
                        acs.push(format!("{}:{}", esc(it.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str()), j));
                    }
                }
                impls.push(format!(
                    "{{\"tr\":{},\"ty\":{},\"a\":{},\"m\":{},\"p\":{},\"loc\":{},\"at\":{{{}}},\"ac\":{{{}}}}}",
                    esc(&tn),
                    sti,
                    targs,
                    arr(ms),
                    arr(preds),
                    self.loc(tcx.def_span(im.to_def_id())),
                    ats.join(","),
                    acs.join(",")
                ));
            }
        }
        impls.sort();
        self.flush_adts();
        self.flush_adts();
        let adts: Vec<_> = self.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let j = format!(
            "{{\"crate\":{},\"types\":{},\"adts\":{{{}}},\"fns\":{},\"impls\":{}}}",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            arr(self.types.clone()),
            adts.join(","),
            arr(fns),
            arr(impls)
        );
        self.out.flush().unwrap();
        std::fs::write(index_path, j).unwrap();
    }
}

struct Cb {
    out: String,
    scen: String,
    inline: Vec<String>,
}
impl Callbacks for Cb {
    /// generic functions of the analysed crates stay readable from the crates that use them
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.always_encode_mir = true;
    }
    /// Scenario modules: extra source text (written against the public API of the crate) appended to the crate
    /// root, so that rules can start from API-level programs instead of internal function names.
    fn after_crate_root_parsing(
        &mut self,
        c: &rustc_interface::interface::Compiler,
        krate: &mut rustc_ast::ast::Crate,
    ) -> Compilation {
        if let Ok(src) = std::fs::read_to_string(&self.scen) {
            let name = rustc_span::FileName::Custom("scenario".to_string());
            let mut parser =
                match rustc_parse::new_parser_from_source_str(&c.sess.psess, name, src, rustc_parse::lexer::StripTokens::Nothing) {
                    Ok(p) => p,
                    Err(ds) => {
                        for d in ds {
                            d.emit();
                        }
                        return Compilation::Stop;
                    }
                };
            loop {
                match parser.parse_item(
                    rustc_parse::parser::ForceCollect::No,
                    rustc_parse::parser::AllowConstBlockItems::Yes,
                ) {
                    Ok(Some(i)) => krate.items.push(i),
                    Ok(None) => break,
                    Err(d) => {
                        d.emit();
                        return Compilation::Stop;
                    }
                }
            }
        }
        Compilation::Continue
    }
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let _ = CRATE_DEF_ID;
        let mut bodies = HashMap::new();
        // refuse to extract from a crate that does not type-check
        for l in tcx.hir_body_owners() {
            let k = tcx.def_kind(l);
            if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst) {
                continue;
            }
            if tcx.typeck(l).tainted_by_errors.is_some() {
                return Compilation::Continue;
            }
            let (b, p) = tcx.mir_promoted(l);
            let body = b.borrow().clone();
            let prom = p.borrow().iter().cloned().collect::<Vec<_>>();
            bodies.insert(l, (body, prom));
        }
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let bp = format!("{}/{}.bodies", self.out, name);
        let ip = format!("{}/{}.json", self.out, name);
        let mut cx = Cx {
            tcx,
            bodies,
            types: vec![],
            type_ids: HashMap::new(),
            type_json_ids: HashMap::new(),
            adts: BTreeMap::new(),
            adt_pending: vec![],
            adt_seen: HashSet::new(),
            inst_ids: HashMap::new(),
            queue: VecDeque::new(),
            names: HashMap::new(),
            out: std::io::BufWriter::new(std::fs::File::create(&bp).unwrap()),
            extern_inline: self.inline.clone(),
        };
        cx.run(&ip);
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() {
    std::env::set_var("RUSTC_ICE", "0");
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let crates = std::env::var("KFACTS_CRATES").unwrap_or_default();
    let out = std::env::var("KFACTS_OUT").unwrap_or_default();
    let inline = std::env::var("KFACTS_INLINE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let want = match &name {
        Some(n) => is_lib && !out.is_empty() && crates.split(',').any(|c| c == n),
        None => false,
    };
    rustc_driver_impl::install_ice_hook("", |_| ());
    let code = rustc_driver_impl::catch_with_exit_code(|| {
        if want {
            rustc_driver_impl::compiler_entrypoint(
                &args,
                &mut Cb { scen: format!("{}/{}.rs", std::env::var("KFACTS_SCEN").unwrap_or_default(), name.clone().unwrap_or_default()), out, inline: inline.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() },
            );
        } else {
            rustc_driver_impl::compiler_entrypoint(&args, &mut Nop);
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
