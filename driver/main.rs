//! MIR extractor: runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check` and writes the
//! type-checked MIR (resolved callees, evaluated constants, type tables) of the analysed crate
//! and of the library functions it reaches, as JSON, for the abstract interpreter in /verif/sa.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Job<'tcx> {
    def: DefId,
    env: TypingEnv<'tcx>,
    key: String,
}

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<Job<'tcx>>,
    seen: HashSet<String>,
    envs: HashMap<String, usize>,
    tys: HashMap<String, usize>,
    tyjson: Vec<String>,
    deny: Vec<&'static str>,
}

const DENY: &[&str] = &[
    "core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::panicking", "std::io",
    "std::thread", "alloc::alloc", "std::alloc", "core::str", "alloc::str", "std::str",
    "alloc::string", "std::string", "std::collections", "alloc::collections", "core::num::flt2dec",
    "std::sys", "std::sync", "alloc::sync", "core::sync", "std::panic", "core::panic",
    "core::ptr", "std::ptr", "alloc::raw_vec", "core::alloc", "std::backtrace", "backtrace",
    "core::slice::sort", "core::unicode", "std::env", "std::path", "std::fs", "std::time",
    "num_cpus", "std::error", "core::error", "crossbeam_utils", "core::ub_checks", "std::vec",
    "alloc::vec", "alloc::slice", "std::slice", "core::slice", "std::rc", "alloc::rc",
    "std::intrinsics", "core::intrinsics", "std::boxed", "alloc::boxed", "core::hint", "std::hint",
];

impl<'tcx> Ex<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span_str(&self, s: Span) -> (String, usize) {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }

    fn env_id(&mut self, env: TypingEnv<'tcx>) -> usize {
        let s = with_no_trimmed_paths!(format!("{:?}", env.param_env.caller_bounds().collect::<Vec<_>>()));
        let n = self.envs.len();
        *self.envs.entry(s).or_insert(n)
    }

    fn norm_env(&self, env: TypingEnv<'tcx>, args: GenericArgsRef<'tcx>) -> TypingEnv<'tcx> {
        if args.has_param() { env } else { TypingEnv::fully_monomorphized() }
    }

    fn key_of(&mut self, d: DefId) -> String {
        let p = self.path(d);
        format!("{}#{}:{}", p, d.krate.as_u32(), d.index.as_u32())
    }

    fn expandable(&self, d: DefId) -> bool {
        if d.is_local() {
            return self.tcx.is_mir_available(d);
        }
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        let p = self.path(d);
        let q = p.trim_start_matches('<');
        for x in &self.deny {
            if q.starts_with(x) {
                return false;
            }
        }
        if p.starts_with('<') {
            // inherent/trait impl path "<T as Trait>::m": look at defining module
            let parent = self.tcx.parent(d);
            let mp = self.path(self.tcx.parent(parent));
            for x in &self.deny {
                if mp.starts_with(x) {
                    return false;
                }
            }
        }
        true
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> Option<String> {
        match inst.def {
            ty::InstanceKind::Item(d) => self.enqueue_def(d),
            _ => None,
        }
    }

    fn enqueue_def(&mut self, d: DefId) -> Option<String> {
        if !matches!(
            self.tcx.def_kind(d),
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure
        ) {
            return None;
        }
        if !self.expandable(d) {
            return None;
        }
        let key = self.key_of(d);
        if self.seen.insert(key.clone()) {
            let env = TypingEnv::post_analysis(self.tcx, d);
            self.queue.push_back(Job { def: d, env, key: key.clone() });
        }
        Some(key)
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let tcx = self.tcx;
        let mut s = with_no_trimmed_paths!(format!("{}", t));
        if let ty::Closure(d, _) = t.kind() {
            s = format!("{}@{}", s, d.index.as_u32());
        }
        if let ty::FnDef(d, _) = t.kind() {
            s = format!("fndef {} {}", d.index.as_u32(), s);
        }
        if t.has_param() {
            let e = self.env_id(env);
            s = format!("{}|{}", s, e);
        }
        if let Some(&i) = self.tys.get(&s) {
            return i;
        }
        let id = self.tyjson.len();
        self.tys.insert(s.clone(), id);
        self.tyjson.push(String::new());
        let name = esc(&with_no_trimmed_paths!(format!("{}", t)));
        let j = match t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":{name}}}"),
            ty::Char => format!("{{\"k\":\"char\",\"s\":{name}}}"),
            ty::Int(i) => format!(
                "{{\"k\":\"int\",\"s\":{name},\"bits\":{},\"sg\":1}}",
                i.bit_width().unwrap_or(64)
            ),
            ty::Uint(i) => format!(
                "{{\"k\":\"int\",\"s\":{name},\"bits\":{},\"sg\":0}}",
                i.bit_width().unwrap_or(64)
            ),
            ty::Float(_) => format!("{{\"k\":\"float\",\"s\":{name}}}"),
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let mut targs = vec![];
                for a in args.iter() {
                    if let Some(t) = a.as_type() {
                        targs.push(self.ty(t, env).to_string());
                    }
                }
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let local = def.did().is_local();
                let full = local
                    || ["std::option::Option", "std::result::Result", "core::option::Option",
                        "core::result::Result", "std::ops::Range", "subtle::CtOption",
                        "subtle::Choice", "std::cmp::Ordering", "std::ops::ControlFlow"]
                        .contains(&p.as_str());
                let mut vs = vec![];
                let discrs: BTreeMap<u32, String> = if def.is_enum() {
                    def.discriminants(tcx).map(|(v, d)| (v.as_u32(), d.val.to_string())).collect()
                } else {
                    BTreeMap::new()
                };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = if full {
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(env, ft)
                                .unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                            self.ty(ft, env).to_string()
                        } else {
                            "null".into()
                        };
                        let fvis = f.vis.is_public();
                        fs.push(format!("[{},{},{}]", esc(f.name.as_str()), fty, fvis));
                    }
                    vs.push(format!(
                        "{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}",
                        esc(v.name.as_str()),
                        discrs.get(&vi.as_u32()).cloned().unwrap_or("0".into()),
                        fs.join(",")
                    ));
                }
                let mut dropk = "null".to_string();
                if local {
                    if let Some(d) = tcx.adt_destructor(def.did()) {
                        // impl<..> Drop for T<..>: use the ADT's args
                        if let Some(k) = self.enqueue_def(d.did) {
                            dropk = esc(&k);
                        }
                    }
                }
                format!(
                    "{{\"k\":\"adt\",\"s\":{name},\"p\":{},\"kind\":\"{kind}\",\"a\":[{}],\"v\":[{}],\"drop\":{dropk},\"local\":{local}}}",
                    esc(&p), targs.join(","), vs.join(",")
                )
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner, env);
                format!("{{\"k\":\"ref\",\"s\":{name},\"t\":{i},\"mut\":{}}}", m.is_mut())
            }
            ty::RawPtr(inner, _) => {
                let i = self.ty(*inner, env);
                format!("{{\"k\":\"ptr\",\"s\":{name},\"t\":{i}}}")
            }
            ty::Array(inner, len) => {
                let i = self.ty(*inner, env);
                let l = len.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"s\":{name},\"t\":{i},\"len\":{l}}}")
            }
            ty::Slice(inner) => {
                let i = self.ty(*inner, env);
                format!("{{\"k\":\"slice\",\"s\":{name},\"t\":{i}}}")
            }
            ty::Str => format!("{{\"k\":\"str\",\"s\":{name}}}"),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t, env).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"s\":{name},\"a\":[{}]}}", v.join(","))
            }
            ty::Closure(d, cargs) => {
                let _ = cargs;
                let k = self.enqueue_def(*d).map(|k| esc(&k)).unwrap_or("null".into());
                format!("{{\"k\":\"closure\",\"s\":{name},\"key\":{k}}}")
            }
            ty::FnDef(d, fargs) => {
                let c = self.callee(*d, fargs.no_bound_vars().unwrap(), env);
                format!("{{\"k\":\"fndef\",\"s\":{name},\"c\":{c}}}")
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{name}}}"),
            ty::Never => format!("{{\"k\":\"never\",\"s\":{name}}}"),
            ty::Param(_) => format!("{{\"k\":\"param\",\"s\":{name}}}"),
            ty::Alias(..) => format!("{{\"k\":\"alias\",\"s\":{name}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{name}}}"),
        };
        self.tyjson[id] = j;
        id
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let mut key: Option<String> = None;
        let mut dkey: Option<String> = None;
        let mut rp: Option<String> = None;
        let mut kind = "none";
        let mut trait_p: Option<String> = None;
        let mut selfty: Option<usize> = None;
        let dk = tcx.def_kind(d);
        let mut ctor: Option<String> = None;
        let mut ra: Vec<String> = vec![];
        if let DefKind::Ctor(of, _) = dk {
            kind = "ctor";
            let parent = tcx.parent(d);
            let (adt, vidx) = match of {
                rustc_hir::def::CtorOf::Struct => (parent, 0usize),
                rustc_hir::def::CtorOf::Variant => {
                    let adt = tcx.parent(parent);
                    (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_usize())
                }
            };
            let adt_ty = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
            let t = self.ty(adt_ty, env);
            ctor = Some(format!("[{},{}]", t, vidx));
        } else {
            if let Some(tr) = tcx.trait_of_assoc(d) {
                trait_p = Some(self.path(tr));
                selfty = Some(self.ty(args.type_at(0), env));
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    trait_p = Some(self.path(tr.skip_binder().def_id));
                }
                let n = tcx.generics_of(im).count();
                let st = tcx
                    .type_of(im)
                    .instantiate(tcx, tcx.mk_args(&args[..n.min(args.len())]))
                    .skip_norm_wip();
                let st = tcx
                    .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(st))
                    .unwrap_or(st);
                selfty = Some(self.ty(st, env));
            }
            let e = self.norm_env(env, args);
            match Instance::try_resolve(tcx, e, d, args) {
                Ok(Some(inst)) => {
                    rp = Some(self.path(inst.def_id()));
                    kind = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Intrinsic(_) => "intrinsic",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        _ => "shim",
                    };
                    key = self.enqueue(inst);
                    for a in inst.args.iter() {
                        if let Some(t) = a.as_type() {
                            ra.push(self.ty(t, env).to_string());
                        }
                    }
                }
                _ => {
                    if tcx.trait_of_assoc(d).is_some()
                        && d.is_local()
                        && tcx.defaultness(d).has_value()
                    {
                        dkey = self.enqueue_def(d);
                    }
                }
            }
        }
        let mut targs = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                targs.push(self.ty(t, env).to_string());
            } else if let Some(c) = a.as_const() {
                targs.push(esc(&format!("{}", c)));
            }
        }
        let o = |x: Option<String>| x.map(|s| esc(&s)).unwrap_or("null".into());
        format!(
            "{{\"p\":{},\"kind\":\"{kind}\",\"k\":{},\"dk\":{},\"rp\":{},\"tr\":{},\"st\":{},\"a\":[{}],\"ra\":[{}],\"ctor\":{},\"m\":{}}}",
            esc(&p), o(key), o(dkey), o(rp), o(trait_p),
            selfty.map(|x| x.to_string()).unwrap_or("null".into()),
            targs.join(","),
            ra.join(","),
            ctor.unwrap_or("null".into()),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())
        )
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 24 {
            return "[\"?\",\"deep\"]".into();
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = match v {
                    ConstValue::Scalar(s) => Some(s),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let size = match tcx.layout_of(env.as_query_input(t)) {
                            Ok(l) => l.size,
                            Err(_) => return "[\"?\",\"layout\"]".into(),
                        };
                        match tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(a) => a
                                .inner()
                                .read_scalar(&tcx, AllocRange { start: offset, size }, false)
                                .ok(),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                match sc {
                    Some(Scalar::Int(i)) => {
                        let bits = i.to_bits(i.size());
                        match t.kind() {
                            ty::Bool => format!("[\"b\",{}]", bits != 0),
                            ty::Char => format!("[\"ch\",{}]", bits),
                            ty::Int(_) => format!(
                                "[\"i\",\"{}\",{},1]",
                                i.size().sign_extend(bits),
                                i.size().bits()
                            ),
                            _ => format!("[\"i\",\"{}\",{},0]", bits, i.size().bits()),
                        }
                    }
                    _ => "[\"?\",\"scalar\"]".into(),
                }
            }
            ty::FnDef(d, a) => format!("[\"fn\",{}]", self.callee(*d, a.no_bound_vars().unwrap(), env)),
            ty::Ref(_, inner, _) => {
                // str / byte slices
                if let ty::Str = inner.kind() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("[\"s\",{}]", esc(&String::from_utf8_lossy(b)));
                    }
                    return "[\"?\",\"str\"]".into();
                }
                if let ty::Slice(el) = inner.kind() {
                    if el == &tcx.types.u8 {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!(
                                "[\"bs\",[{}]]",
                                b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                            );
                        }
                    }
                    if let ConstValue::Slice { alloc_id, meta } = v {
                        let l = match tcx.layout_of(env.as_query_input(*el)) {
                            Ok(l) => l.size,
                            Err(_) => return "[\"?\",\"layout\"]".into(),
                        };
                        let mut out = vec![];
                        for i in 0..meta {
                            out.push(self.cval(
                                ConstValue::Indirect { alloc_id, offset: l * i },
                                *el, env, depth + 1,
                            ));
                        }
                        return format!("[\"ref\",[\"arr\",[{}]]]", out.join(","));
                    }
                    return "[\"?\",\"slice\"]".into();
                }
                let ptr = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                    ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(a) => {
                            let size = tcx.data_layout.pointer_size();
                            match a.inner().read_scalar(&tcx, AllocRange { start: offset, size }, true) {
                                Ok(Scalar::Ptr(p, _)) => Some(p),
                                _ => None,
                            }
                        }
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(p) = ptr {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    match tcx.global_alloc(aid) {
                        GlobalAlloc::Memory(_) => {
                            let r = self.cval(
                                ConstValue::Indirect { alloc_id: aid, offset: off },
                                *inner, env, depth + 1,
                            );
                            return format!("[\"ref\",{}]", r);
                        }
                        GlobalAlloc::Static(d) => {
                            return format!("[\"static\",{}]", esc(&self.path(d)));
                        }
                        _ => {}
                    }
                }
                "[\"?\",\"ref\"]".into()
            }
            ty::Array(..) | ty::Adt(..) | ty::Tuple(..) => {
                if t.has_param() {
                    return "[\"?\",\"param\"]".into();
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let fields: Vec<(ConstValue, Ty<'tcx>)> = dc.fields.to_vec();
                        let mut out = vec![];
                        for (fv, ft) in fields {
                            out.push(self.cval(fv, ft, env, depth + 1));
                        }
                        match t.kind() {
                            ty::Array(..) => format!("[\"arr\",[{}]]", out.join(",")),
                            ty::Tuple(..) => format!("[\"tup\",[{}]]", out.join(",")),
                            _ => {
                                let id = self.ty(t, env);
                                format!(
                                    "[\"adt\",{},{},[{}]]",
                                    id,
                                    dc.variant.map(|v| v.as_usize()).unwrap_or(0),
                                    out.join(",")
                                )
                            }
                        }
                    }
                    None => {
                        if let ConstValue::ZeroSized = v {
                            let id = self.ty(t, env);
                            return format!("[\"z\",{}]", id);
                        }
                        "[\"?\",\"destructure\"]".into()
                    }
                }
            }
            _ => {
                if let ConstValue::ZeroSized = v {
                    let id = self.ty(t, env);
                    return format!("[\"z\",{}]", id);
                }
                "[\"?\",\"kind\"]".into()
            }
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return format!("[\"fn\",{}]", self.callee(*d, a.no_bound_vars().unwrap(), env));
        }
        let mut named = None;
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                named = Some((self.path(u.def), u));
            }
        }
        let r = {
            match c.const_.eval(tcx, env, c.span) {
                Ok(v) => {
                    if t.has_param() {
                        if let ConstValue::ZeroSized = v {
                            let id = self.ty(t, env);
                            format!("[\"z\",{}]", id)
                        } else {
                            self.cval(v, t, env, 0)
                        }
                    } else {
                        self.cval(v, t, TypingEnv::fully_monomorphized(), 0)
                    }
                }
                Err(_) => {
                    match c.const_ {
                        Const::Unevaluated(u, _) => {
                            if let Some(pr) = u.promoted {
                                // promoted depending on generics: dump its body
                                let k = self.promoted(u.def, pr.as_usize(), u.args, env);
                                format!("[\"promoted\",{}]", esc(&k))
                            } else {
                                let st = if tcx.trait_of_assoc(u.def).is_some() {
                                    self.ty(u.args.type_at(0), env).to_string()
                                } else {
                                    "null".into()
                                };
                                format!("[\"uneval\",{},{}]", esc(&self.path(u.def)), st)
                            }
                        }
                        _ => format!("[\"param\",{}]", esc(&format!("{}", c.const_))),
                    }
                }
            }
        };
        match named {
            Some((n, _)) => format!("[\"named\",{},{}]", esc(&n), r),
            None => r,
        }
    }

    fn promoted(
        &mut self,
        d: DefId,
        idx: usize,
        _args: GenericArgsRef<'tcx>,
        _env: TypingEnv<'tcx>,
    ) -> String {
        let key = format!("promoted[{}] {}", idx, self.key_of(d));
        if self.seen.insert(key.clone()) {
            let env = TypingEnv::post_analysis(self.tcx, d);
            self.queue.push_back(Job { def: d, env, key: key.clone() });
        }
        key
    }

    fn place(&mut self, p: &Place<'tcx>, _env: TypingEnv<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_u32());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let _ = write!(o, "[\"f\",{}]", f.as_u32());
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, "[\"d\",{}]", v.as_u32());
                }
                _ => o.push_str("[\"o\"]"),
            }
        }
        o.push_str("]]");
        o
    }

    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, env)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, env)),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty(), env);
                format!("[\"k\",{},{}]", self.konst(c, env), t)
            }
            _ => "[\"rc\"]".into(),
        }
    }

    fn body(&mut self, job: &Job<'tcx>) -> String {
        let tcx = self.tcx;
        let env = job.env;
        let d = job.def;
        let body: mir::Body<'tcx> = if job.key.starts_with("promoted[") {
            let idx: usize = job.key[9..job.key.find(']').unwrap()].parse().unwrap();
            tcx.promoted_mir(d)[Promoted::from_usize(idx)].clone()
        } else {
            tcx.optimized_mir(d).clone()
        };
        let (file, line) = self.span_str(body.span);
        let mut o = String::new();
        let mut names = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let in_test = false;
        let _ = in_test;
        let vis = if d.is_local() && !tcx.is_closure_like(d) {
            tcx.visibility(d).is_public()
        } else {
            false
        };
        let eff = if let Some(l) = d.as_local() {
            tcx.effective_visibilities(()).is_reachable(l)
        } else {
            false
        };
        let parent_impl_trait = if !tcx.is_closure_like(d) && tcx.is_mir_available(d) {
            tcx.impl_of_assoc(d).and_then(|im| tcx.impl_opt_trait_ref(im)).map(|t| self.path(t.skip_binder().def_id))
        } else {
            None
        };
        let self_ty = if !tcx.is_closure_like(d) {
            tcx.impl_of_assoc(d).map(|im| {
                let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                self.ty(t, env)
            })
        } else {
            None
        };
        let mut targs = vec![];
        if !tcx.is_closure_like(d) {
            for a in ty::GenericArgs::identity_for_item(tcx, d).iter() {
                if let Some(t) = a.as_type() {
                    targs.push(self.ty(t, env).to_string());
                }
            }
        }
        let _ = write!(
            o,
            "{{\"key\":{},\"path\":{},\"file\":{},\"line\":{},\"local\":{},\"pub\":{},\"eff\":{},\"argc\":{},\"tr\":{},\"st\":{},\"closure\":{},\"targs\":[{}],\"nm\":{},",
            esc(&job.key),
            esc(&self.path(d)),
            esc(&file),
            line,
            d.is_local(),
            vis,
            eff,
            body.arg_count,
            parent_impl_trait.map(|s| esc(&s)).unwrap_or("null".into()),
            self_ty.map(|s| s.to_string()).unwrap_or("null".into()),
            tcx.is_closure_like(d),
            targs.join(","),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
        );
        let spread = body.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into());
        let _ = write!(o, "\"spread\":{},", spread);
        let lt: Vec<String> = body
            .local_decls
            .iter()
            .map(|l| self.ty(l.ty, env).to_string())
            .collect();
        let _ = write!(o, "\"locals\":[{}],", lt.join(","));
        let nm: Vec<String> = names.iter().map(|(k, v)| format!("\"{}\":{}", k, esc(v))).collect();
        let _ = write!(o, "\"names\":{{{}}},\"blocks\":[", nm.join(","));
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("[[");
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (pl, rv) = &**b;
                        let (_, ln) = self.span_str(st.source_info.span);
                        let rvs = self.rvalue(rv, &body, env);
                        Some(format!("[\"=\",{},{},{}]", self.place(pl, env), rvs, ln))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pt = place.ty(&body.local_decls, tcx).ty;
                        let t = self.ty(pt, env);
                        Some(format!(
                            "[\"sd\",{},{},{}]",
                            self.place(place, env),
                            variant_index.as_u32(),
                            t
                        ))
                    }
                    _ => None,
                };
                if let Some(s) = s {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&s);
                }
            }
            o.push_str("],");
            let term = bb.terminator();
            let (_, ln) = self.span_str(term.source_info.span);
            let ts = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, tcx);
                    let tid = self.ty(t, env);
                    let arms: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32()))
                        .collect();
                    format!(
                        "[\"sw\",{},[{}],{},{},{}]",
                        self.op(discr, env),
                        arms.join(","),
                        targets.otherwise().as_u32(),
                        tid,
                        ln
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let t = self.ty(pt, env);
                    format!("[\"drop\",{},{},{}]", self.place(place, env), target.as_u32(), t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, env);
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node, env)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, tcx);
                            self.ty(t, env).to_string()
                        })
                        .collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt, env);
                    format!(
                        "[\"call\",{},[{}],{},{},{},[{}],{}]",
                        f,
                        a.join(","),
                        self.place(destination, env),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                        ln,
                        at.join(","),
                        dt
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.op(len, env), self.op(index, env))
                        }
                        AssertKind::Overflow(b, _, _) => format!("[\"overflow\",{}]", esc(&format!("{:?}", b))),
                        _ => format!("[\"other\",{}]", esc(&format!("{:?}", std::mem::discriminant(&**msg)))),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.op(cond, env),
                        expected,
                        target.as_u32(),
                        m,
                        ln
                    )
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                _ => "[\"other\"]".into(),
            };
            let _ = write!(o, "{},{}]", ts, bb.is_cleanup);
        }
        o.push_str("]}");
        o
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o, env)),
            Rvalue::Repeat(o, n) => {
                let l = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.op(o, env), l)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p, env))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p, env)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, env)),
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(&body.local_decls, tcx);
                let a = self.ty(st, env);
                let b = self.ty(*t, env);
                let ks = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PointerCoercion(c, _) => format!("coerce {:?}", c),
                    CastKind::Transmute => "transmute".to_string(),
                    CastKind::PtrToPtr => "ptr".to_string(),
                    k => format!("{:?}", k),
                };
                let mut extra = "null".to_string();
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ReifyFnPointer(..), _) = k {
                    if let ty::FnDef(d, a) = st.kind() {
                        extra = self.callee(*d, a.no_bound_vars().unwrap(), env);
                    }
                }
                format!("[\"cast\",{},{},{},{},{}]", esc(&ks), self.op(o, env), a, b, extra)
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, tcx);
                let tid = self.ty(t, env);
                let t2 = ops.1.ty(&body.local_decls, tcx);
                let tid2 = self.ty(t2, env);
                format!(
                    "[\"bin\",\"{:?}\",{},{},{},{}]",
                    b,
                    self.op(&ops.0, env),
                    self.op(&ops.1, env),
                    tid,
                    tid2
                )
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, tcx);
                let tid = self.ty(t, env);
                format!("[\"un\",\"{:?}\",{},{}]", u, self.op(o, env), tid)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let tid = self.ty(t, env);
                format!("[\"disc\",{},{}]", self.place(p, env), tid)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o, env)).collect();
                let os = os.join(",");
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t, env);
                        format!("[\"agg\",\"arr\",{},0,[{}]]", t, os)
                    }
                    AggregateKind::Tuple => format!("[\"agg\",\"tup\",0,0,[{}]]", os),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let t = tcx.type_of(*d).instantiate(tcx, a).skip_norm_wip();
                        let t = self.ty(t, env);
                        format!("[\"agg\",\"adt\",{},{},[{}]]", t, v.as_u32(), os)
                    }
                    AggregateKind::Closure(d, a) => {
                        let _ = a;
                        let k = self
                            .enqueue_def(*d)
                            .map(|k| esc(&k))
                            .unwrap_or("null".into());
                        format!("[\"agg\",\"clo\",{},0,[{}]]", k, os)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",0,0,[{}]]", os),
                    _ => format!("[\"agg\",\"other\",0,0,[{}]]", os),
                }
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            _ => "[\"other\"]".into(),
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match std::env::var("SA_MIR_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let mut ex = Ex {
            tcx,
            queue: VecDeque::new(),
            seen: HashSet::new(),
            envs: HashMap::new(),
            tys: HashMap::new(),
            tyjson: vec![],
            deny: DENY.to_vec(),
        };
        let _ = ex.env_id(TypingEnv::fully_monomorphized());
        let mut roots = vec![];
        let mut consts = vec![];
        for l in tcx.hir_body_owners() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let p = ex.path(d);
                    if let Some(k) = ex.enqueue_def(d) {
                        roots.push(format!("[{},{}]", esc(&p), esc(&k)));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let p = ex.path(d);
                    let g = tcx.generics_of(d);
                    if g.count() == 0 {
                        let env = TypingEnv::fully_monomorphized();
                        let t = tcx
                            .try_normalize_erasing_regions(env, tcx.type_of(d).instantiate_identity())
                            .unwrap_or(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                        if let Ok(v) = tcx.const_eval_poly(d) {
                            let s = ex.cval(v, t, env, 0);
                            let (f, ln) = ex.span_str(tcx.def_span(d));
                            consts.push(format!("[{},{},{},{}]", esc(&p), s, esc(&f), ln));
                        }
                    }
                }
                _ => {}
            }
        }
        // local trait impls
        let mut impls = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let stn = esc(&with_no_trimmed_paths!(format!("{}", st)));
                let tr = if of_trait {
                    esc(&ex.path(tcx.impl_trait_ref(d).skip_binder().def_id))
                } else {
                    "null".into()
                };
                let items: Vec<String> = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .map(|i| format!("[{},{}]", esc(&tcx.opt_item_name(*i).map(|s| s.to_string()).unwrap_or_default()), esc(&ex.path(*i))))
                    .collect();
                let tys: Vec<String> = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .filter(|i| matches!(tcx.def_kind(**i), DefKind::AssocTy))
                    .map(|i| {
                        let t = tcx.type_of(*i).instantiate_identity().skip_norm_wip();
                        format!("[{},{}]", esc(&tcx.opt_item_name(*i).map(|s| s.to_string()).unwrap_or_default()),
                            esc(&with_no_trimmed_paths!(format!("{}", t))))
                    })
                    .collect();
                impls.push(format!("{{\"st\":{},\"tr\":{},\"items\":[{}],\"tys\":[{}]}}", stn, tr, items.join(","), tys.join(",")));
            }
        }
        let mut bodies = vec![];
        let mut n = 0usize;
        while let Some(j) = ex.queue.pop_front() {
            if std::env::var("SA_TRACE").is_ok() { eprintln!("SA {} {} q={} ty={}", n, j.key, ex.queue.len(), ex.tyjson.len()); }
            bodies.push(ex.body(&j));
            n += 1;
            if n > 60000 {
                eprintln!("SA: too many bodies");
                std::process::exit(3);
            }
        }
        let j = format!(
            "{{\"crate\":{},\"roots\":[{}],\"consts\":[{}],\"impls\":[{}],\"types\":[{}],\"bodies\":[\n{}\n]}}",
            esc(tcx.crate_name(LOCAL_CRATE).as_str()),
            roots.join(","),
            consts.join(","),
            impls.join(","),
            ex.tyjson.join(","),
            bodies.join(",\n")
        );
        std::fs::write(&out, j).expect("write SA_MIR_OUT");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
