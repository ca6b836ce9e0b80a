#![feature(rustc_private)]
#![allow(clippy::all)]
//! Fact extractor: a rustc driver (RUSTC_WORKSPACE_WRAPPER) that serialises the
//! type-checked, resolved MIR (phase: promoted, i.e. before borrowck/drop elaboration and
//! before the coroutine transform) of every body of a workspace crate, with resolved callees,
//! constants, ADT layouts and trait impls, as JSON lines. It runs no code of the crate.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_data_structures;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::{Mutex, OnceLock};

type PromotedFn = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
);
static ORIG: OnceLock<PromotedFn> = OnceLock::new();

struct Stash(Vec<(LocalDefId, Body<'static>, Vec<Body<'static>>)>);
unsafe impl Send for Stash {}
static STASH: Mutex<Stash> = Mutex::new(Stash(Vec::new()));

fn my_mir_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
) {
    let r = (ORIG.get().unwrap())(tcx, def);
    let body: Body<'tcx> = r.0.borrow().clone();
    let proms: Vec<Body<'tcx>> = r.1.borrow().iter().cloned().collect();
    // SAFETY: the stash is drained in after_analysis, while the same TyCtxt is alive.
    let body: Body<'static> = unsafe { std::mem::transmute(body) };
    let proms: Vec<Body<'static>> = unsafe { std::mem::transmute(proms) };
    STASH.lock().unwrap().0.push((def, body, proms));
    r
}

fn js(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    crate_name: String,
    tys: RefCell<HashMap<Ty<'tcx>, usize>>,
    ty_strs: RefCell<Vec<String>>,
    adts: RefCell<BTreeMap<String, DefId>>,
    paths: RefCell<HashMap<DefId, String>>,
    evaluated: RefCell<HashSet<DefId>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        if let Some(p) = self.paths.borrow().get(&d) {
            return p.clone();
        }
        let p = with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(self.tcx.def_path_str(d))));
        self.paths.borrow_mut().insert(d, p.clone());
        p
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(format!("{}", t))))
    }
    fn ty(&self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.borrow().get(&t) {
            return *i;
        }
        self.note_adts(t);
        // encode structured: kind + args
        let mut s = String::new();
        s.push_str("{\"s\":");
        js(&mut s, &self.tystr(t));
        match t.kind() {
            ty::Adt(a, args) => {
                s.push_str(",\"k\":\"adt\",\"adt\":");
                js(&mut s, &self.path(a.did()));
                s.push_str(",\"a\":[");
                let mut first = true;
                for x in args.types() {
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    let _ = write!(s, "{}", self.ty(x));
                }
                s.push(']');
            }
            ty::Ref(_, x, m) => {
                let _ = write!(s, ",\"k\":\"ref\",\"m\":{},\"a\":[{}]", m.is_mut() as u8, self.ty(*x));
            }
            ty::RawPtr(x, _) => {
                let _ = write!(s, ",\"k\":\"ptr\",\"a\":[{}]", self.ty(*x));
            }
            ty::Slice(x) | ty::Array(x, _) => {
                let _ = write!(s, ",\"k\":\"slice\",\"a\":[{}]", self.ty(*x));
            }
            ty::Tuple(xs) => {
                s.push_str(",\"k\":\"tuple\",\"a\":[");
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    let _ = write!(s, "{}", self.ty(x));
                }
                s.push(']');
            }
            ty::Closure(d, args) => {
                s.push_str(",\"k\":\"closure\",\"def\":");
                js(&mut s, &self.path(*d));
                s.push_str(",\"a\":[");
                for (i, x) in args.as_closure().upvar_tys().iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    let _ = write!(s, "{}", self.ty(x));
                }
                s.push(']');
            }
            ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                s.push_str(",\"k\":\"coroutine\",\"def\":");
                js(&mut s, &self.path(*d));
            }
            ty::FnDef(d, _) => {
                s.push_str(",\"k\":\"fndef\",\"def\":");
                js(&mut s, &self.path(*d));
            }
            ty::FnPtr(..) => s.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(p, ..) => {
                s.push_str(",\"k\":\"dyn\",\"tr\":");
                let n = p.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                js(&mut s, &n);
            }
            ty::Param(p) => {
                s.push_str(",\"k\":\"param\",\"n\":");
                js(&mut s, p.name.as_str());
            }
            ty::Alias(..) => {
                s.push_str(",\"k\":\"alias\"");
                if let ty::Alias(_, al) = t.kind() {
                    let _ = al;
                }
            }
            ty::Bool => s.push_str(",\"k\":\"bool\""),
            ty::Char => s.push_str(",\"k\":\"char\""),
            ty::Int(_) | ty::Uint(_) => s.push_str(",\"k\":\"int\""),
            ty::Float(_) => s.push_str(",\"k\":\"float\""),
            ty::Str => s.push_str(",\"k\":\"str\""),
            ty::Never => s.push_str(",\"k\":\"never\""),
            _ => s.push_str(",\"k\":\"other\""),
        }
        s.push('}');
        // recursion may have inserted t in the meantime (recursive types go through ADT args only)
        if let Some(i) = self.tys.borrow().get(&t) {
            return *i;
        }
        let mut v = self.ty_strs.borrow_mut();
        let i = v.len();
        v.push(s);
        self.tys.borrow_mut().insert(t, i);
        i
    }
    fn note_adts(&self, t: Ty<'tcx>) {
        if let ty::Adt(a, _) = t.kind() {
            let p = self.path(a.did());
            self.adts.borrow_mut().entry(p).or_insert(a.did());
        }
    }

    fn span(&self, sp: rustc_span::Span) -> (String, usize, bool) {
        let exp = sp.from_expansion();
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_default(),
            _ => String::new(),
        };
        (f, lo.line, exp)
    }

    fn place(&self, o: &mut String, body: &Body<'tcx>, p: &Place<'tcx>) {
        let _ = write!(o, "[{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut nm = String::new();
                    match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            self.note_adts(pty.ty);
                            let v = if a.is_enum() {
                                pty.variant_index.map(|i| a.variant(i))
                            } else {
                                Some(a.non_enum_variant())
                            };
                            if let Some(v) = v {
                                if let Some(fd) = v.fields.get(f) {
                                    nm = fd.name.as_str().to_string();
                                }
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            if let Some(l) = d.as_local() {
                                let caps = self.tcx.closure_captures(l);
                                if let Some(c) = caps.get(f.as_usize()) {
                                    nm = c.to_symbol().as_str().to_string();
                                }
                            }
                        }
                        _ => {}
                    }
                    let _ = write!(o, "[\"f\",{},", f.as_usize());
                    js(o, &nm);
                    o.push(']');
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = match pty.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.as_str().to_string(),
                        _ => n.map(|n| n.as_str().to_string()).unwrap_or_default(),
                    };
                    let _ = write!(o, "[\"v\",{},", v.as_usize());
                    js(o, &nm);
                    o.push(']');
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"c\",{},{}]", offset, from_end as u8);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end as u8);
                }
                _ => o.push_str("\"?\""),
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        o.push(']');
    }

    fn bytes_of(&self, alloc_id: rustc_middle::mir::interpret::AllocId) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(alloc_id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec())
            }
            _ => None,
        }
    }

    fn const_val(&self, o: &mut String, cv: ConstValue, t: Ty<'tcx>) {
        match cv {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(si)) => {
                if t.is_bool() {
                    let b = si.to_bits(si.size()) != 0;
                    let _ = write!(o, ",\"b\":{}", b);
                } else if t.is_char() {
                    let c = char::from_u32(si.to_bits(si.size()) as u32).unwrap_or('?');
                    o.push_str(",\"c\":");
                    js(o, &c.to_string());
                } else if t.is_integral() {
                    let v = si.to_bits(si.size());
                    if t.is_signed() {
                        let _ = write!(o, ",\"i\":{}", si.size().sign_extend(v));
                    } else {
                        let _ = write!(o, ",\"i\":{}", v);
                    }
                } else if t.is_floating_point() {
                    let v = si.to_bits(si.size());
                    let f = if si.size().bytes() == 8 {
                        f64::from_bits(v as u64)
                    } else if si.size().bytes() == 4 {
                        f32::from_bits(v as u32) as f64
                    } else {
                        f64::NAN
                    };
                    o.push_str(",\"fl\":");
                    js(o, &format!("{:?}", f));
                } else if let ty::Adt(a, _) = t.kind() {
                    // field-less enum constant
                    if a.is_enum() {
                        let bits = si.to_bits(si.size());
                        for (vi, d) in a.discriminants(self.tcx) {
                            if d.val == bits {
                                o.push_str(",\"var\":");
                                js(o, a.variant(vi).name.as_str());
                                break;
                            }
                        }
                    }
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.bytes_of(alloc_id) {
                    let n = (meta as usize).min(b.len());
                    let isstr = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
                    o.push_str(if isstr { ",\"str\":" } else { ",\"bytes\":" });
                    js(o, &String::from_utf8_lossy(&b[..n]));
                }
            }
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                // &[u8; N] byte strings (format templates), &str behind refs etc.
                let (prov, off) = p.prov_and_relative_offset();
                match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Static(d)) => {
                        o.push_str(",\"static\":");
                        js(o, &self.path(d));
                    }
                    Some(GlobalAlloc::Memory(a)) if off.bytes() == 0 => {
                        let a = a.inner();
                        if let ty::Ref(_, x, _) = t.kind() {
                            match x.kind() {
                                ty::Array(e, _) if *e == self.tcx.types.u8 => {
                                    let b =
                                        a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                    o.push_str(",\"bytes\":");
                                    js(o, &b.iter().map(|&c| c as char).collect::<String>());
                                }
                                _ => {
                                    let mut strs = Vec::new();
                                    self.strs_in(prov.alloc_id(), &mut strs, 0);
                                    if !strs.is_empty() {
                                        o.push_str(",\"strs\":[");
                                        for (i, s) in strs.iter().enumerate() {
                                            if i > 0 {
                                                o.push(',');
                                            }
                                            js(o, s);
                                        }
                                        o.push(']');
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            ConstValue::Indirect { alloc_id, .. } => {
                let mut strs = Vec::new();
                self.strs_in(alloc_id, &mut strs, 0);
                let isstr = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
                if isstr && strs.len() == 1 {
                    o.push_str(",\"str\":");
                    js(o, &strs[0]);
                } else if !strs.is_empty() {
                    o.push_str(",\"strs\":[");
                    for (i, s) in strs.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        js(o, s);
                    }
                    o.push(']');
                }
            }
            _ => {}
        }
    }

    /// string data reachable from an allocation (arrays of &str and nested tuples)
    fn strs_in(&self, id: rustc_middle::mir::interpret::AllocId, out: &mut Vec<String>, depth: usize) {
        if depth > 3 || out.len() > 2000 {
            return;
        }
        if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(id) {
            let a = a.inner();
            let ptrs: Vec<_> = a.provenance().ptrs().iter().map(|(o, p)| (*o, *p)).collect();
            if ptrs.is_empty() {
                return;
            }
            let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
            for (off, prov) in ptrs {
                let o = off.bytes() as usize;
                // fat pointer: (ptr, len)
                if o + 16 <= raw.len() {
                    let len = u64::from_le_bytes(raw[o + 8..o + 16].try_into().unwrap()) as usize;
                    if let Some(GlobalAlloc::Memory(b)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                        let b = b.inner();
                        let start = u64::from_le_bytes(raw[o..o + 8].try_into().unwrap()) as usize;
                        if b.provenance().ptrs().is_empty() && start.saturating_add(len) <= b.len() {
                            let bs = b.inspect_with_uninit_and_ptr_outside_interpreter(start..start + len);
                            if let Ok(s) = std::str::from_utf8(bs) {
                                out.push(s.to_string());
                                continue;
                            }
                        }
                    }
                }
                self.strs_in(prov.alloc_id(), out, depth + 1);
            }
        }
    }

    fn konst(&self, o: &mut String, owner: LocalDefId, c: &ConstOperand<'tcx>) {
        let t = c.const_.ty();
        let _ = write!(o, "[\"k\",{{\"t\":{}", self.ty(t));
        match t.kind() {
            ty::FnDef(d, args) => {
                o.push_str(",\"fn\":");
                self.callee(o, owner, *d, args.skip_binder());
            }
            _ => {
                match c.const_ {
                    Const::Unevaluated(u, _) => {
                        if let Some(p) = u.promoted {
                            let _ = write!(o, ",\"prom\":{}", p.as_usize());
                        } else {
                            o.push_str(",\"item\":");
                            js(o, &self.path(u.def));
                            let generic = self.tcx.generics_of(u.def).requires_monomorphization(self.tcx);
                            if !generic {
                                if let Ok(cv) = self.tcx.const_eval_poly(u.def) {
                                    self.const_val(o, cv, t);
                                }
                            }
                        }
                    }
                    Const::Val(cv, _) => self.const_val(o, cv, t),
                    Const::Ty(_, ct) => {
                        if let Some(v) = ct.try_to_target_usize(self.tcx) {
                            let _ = write!(o, ",\"i\":{}", v);
                        }
                        else if let Some(v) = ct.try_to_value() {
                            // constant patterns
                            if matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) {
                                if let Some(b) = v.try_to_raw_bytes(self.tcx) {
                                    o.push_str(",\"str\":");
                                    js(o, &String::from_utf8_lossy(b));
                                }
                            } else if t.is_char() || t.is_integral() || t.is_bool() {
                                if let Some(s) = v.try_to_leaf() {
                                    self.const_val(o, ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(s)), t);
                                }
                            }
                        }
                    }
                }
            }
        }
        o.push_str("}]");
    }

    fn callee(&self, o: &mut String, owner: LocalDefId, d: DefId, args: ty::GenericArgsRef<'tcx>) {
        o.push_str("{\"p\":");
        js(o, &self.path(d));
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            o.push_str(",\"tr\":");
            js(o, &self.path(tr));
        }
        let tys: Vec<usize> = args.types().map(|t| self.ty(t)).collect();
        let _ = write!(o, ",\"g\":{:?}", tys);
        let env = TypingEnv::post_analysis(self.tcx, owner.to_def_id());
        let args = self.tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(self.tcx, env, d, args)
        }))
        .unwrap_or(Ok(None))
        {
            let rd = inst.def_id();
            match inst.def {
                ty::InstanceKind::Virtual(..) => o.push_str(",\"virt\":1"),
                _ => {
                    if rd != d {
                        o.push_str(",\"r\":");
                        js(o, &self.path(rd));
                    } else {
                        o.push_str(",\"res\":1");
                    }
                }
            }
        }
        o.push('}');
    }

    fn operand(&self, o: &mut String, owner: LocalDefId, body: &Body<'tcx>, op: &Operand<'tcx>) {
        match op {
            Operand::Copy(p) => {
                o.push_str("[\"c\",");
                self.place(o, body, p);
                o.push(']');
            }
            Operand::Move(p) => {
                o.push_str("[\"m\",");
                self.place(o, body, p);
                o.push(']');
            }
            Operand::Constant(c) => self.konst(o, owner, c),
            #[allow(unreachable_patterns)]
            _ => o.push_str("[\"?\"]"),
        }
    }

    fn rvalue(&self, o: &mut String, owner: LocalDefId, body: &Body<'tcx>, rv: &Rvalue<'tcx>) {
        match rv {
            Rvalue::Use(op, ..) => {
                o.push_str("[\"use\",");
                self.operand(o, owner, body, op);
                o.push(']');
            }
            Rvalue::Repeat(op, _) => {
                o.push_str("[\"rep\",");
                self.operand(o, owner, body, op);
                o.push(']');
            }
            Rvalue::Ref(_, bk, p) => {
                let _ = write!(o, "[\"ref\",{},", matches!(bk, BorrowKind::Mut { .. }) as u8);
                self.place(o, body, p);
                o.push(']');
            }
            Rvalue::RawPtr(_, p) => {
                o.push_str("[\"ref\",1,");
                self.place(o, body, p);
                o.push(']');
            }
            Rvalue::Cast(k, op, t) => {
                o.push_str("[\"cast\",");
                js(o, &format!("{:?}", k));
                o.push(',');
                self.operand(o, owner, body, op);
                let _ = write!(o, ",{}]", self.ty(*t));
            }
            Rvalue::BinaryOp(b, ops) => {
                o.push_str("[\"bin\",");
                js(o, &format!("{:?}", b));
                o.push(',');
                self.operand(o, owner, body, &ops.0);
                o.push(',');
                self.operand(o, owner, body, &ops.1);
                o.push(']');
            }
            Rvalue::UnaryOp(u, op) => {
                o.push_str("[\"un\",");
                js(o, &format!("{:?}", u));
                o.push(',');
                self.operand(o, owner, body, op);
                o.push(']');
            }
            Rvalue::Discriminant(p) => {
                o.push_str("[\"disc\",");
                self.place(o, body, p);
                let t = p.ty(body, self.tcx).ty;
                let _ = write!(o, ",{}]", self.ty(t));
            }
            Rvalue::Aggregate(k, ops) => {
                o.push_str("[\"agg\",");
                match &**k {
                    AggregateKind::Array(_) => o.push_str("[\"array\"]"),
                    AggregateKind::Tuple => o.push_str("[\"tuple\"]"),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let p = self.path(*d);
                        self.adts.borrow_mut().entry(p.clone()).or_insert(*d);
                        o.push_str("[\"adt\",");
                        js(o, &p);
                        o.push(',');
                        js(o, ad.variant(*v).name.as_str());
                        let _ = write!(o, ",{},[", v.as_usize());
                        for (i, f) in ad.variant(*v).fields.iter().enumerate() {
                            if i > 0 {
                                o.push(',');
                            }
                            js(o, f.name.as_str());
                        }
                        o.push_str("]]");
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push_str("[\"closure\",");
                        js(o, &self.path(*d));
                        o.push(']');
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        o.push_str("[\"coroutine\",");
                        js(o, &self.path(*d));
                        o.push(']');
                    }
                    AggregateKind::RawPtr(..) => o.push_str("[\"rawptr\"]"),
                }
                o.push_str(",[");
                for (i, op) in ops.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    self.operand(o, owner, body, op);
                }
                o.push_str("]]");
            }
            Rvalue::CopyForDeref(p) => {
                o.push_str("[\"use\",[\"c\",");
                self.place(o, body, p);
                o.push_str("]]");
            }
            Rvalue::ThreadLocalRef(d) => {
                o.push_str("[\"tls\",");
                js(o, &self.path(*d));
                o.push(']');
            }
            _ => o.push_str("[\"?\"]"),
        }
    }

    fn body(&self, o: &mut String, owner: LocalDefId, body: &Body<'tcx>) {
        // locals
        o.push_str("\"locals\":[");
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}", self.ty(l.ty));
        }
        o.push_str("],\"names\":{");
        let mut first = true;
        let mut seen = HashSet::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() && seen.insert(p.local) {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "\"{}\":", p.local.as_usize());
                    js(o, v.name.as_str());
                }
            }
        }
        let _ = write!(o, "}},\"argc\":{},\"bb\":[", body.arg_count);
        for (bi, b) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cu\":{},\"s\":[", b.is_cleanup as u8);
            let mut first = true;
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let (p, rv) = &**bx;
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        o.push('[');
                        self.place(o, body, p);
                        o.push(',');
                        self.rvalue(o, owner, body, rv);
                        let _ = write!(o, ",{}]", self.span(s.source_info.span).1);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        o.push('[');
                        self.place(o, body, place);
                        let _ = write!(o, ",[\"setd\",{}],0]", variant_index.as_usize());
                    }
                    StatementKind::StorageDead(l) => {
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        let _ = write!(o, "[\"dead\",{}]", l.as_usize());
                    }
                    _ => {}
                }
            }
            o.push_str("],\"t\":");
            let t = b.terminator();
            let (_, line, exp) = self.span(t.source_info.span);
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", target.as_usize());
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_usize());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push_str("[\"switch\",");
                    self.operand(o, owner, body, discr);
                    let t = discr.ty(body, self.tcx);
                    let _ = write!(o, ",{},[", self.ty(t));
                    let mut first = true;
                    for (v, bb) in targets.iter() {
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        let _ = write!(o, "[{},{}]", v, bb.as_usize());
                    }
                    let _ = write!(o, "],{},{}]", targets.otherwise().as_usize(), line);
                }
                TerminatorKind::Return => o.push_str("[\"ret\"]"),
                TerminatorKind::CoroutineDrop => o.push_str("[\"codrop\"]"),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push_str("[\"unw\"]"),
                TerminatorKind::Unreachable => o.push_str("[\"unreach\"]"),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push_str("[\"drop\",");
                    self.place(o, body, place);
                    let _ = write!(o, ",{}]", target.as_usize());
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push_str("[\"call\",");
                    self.operand(o, owner, body, func);
                    o.push_str(",[");
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        self.operand(o, owner, body, &a.node);
                    }
                    o.push_str("],");
                    self.place(o, body, destination);
                    match target {
                        Some(t) => {
                            let _ = write!(o, ",{}", t.as_usize());
                        }
                        None => o.push_str(",null"),
                    }
                    let _ = write!(o, ",{},{}]", line, exp as u8);
                }
                TerminatorKind::TailCall { .. } => o.push_str("[\"tail\"]"),
                TerminatorKind::Assert { cond, expected, target, .. } => {
                    o.push_str("[\"assert\",");
                    self.operand(o, owner, body, cond);
                    let _ = write!(o, ",{},{}]", expected, target.as_usize());
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    o.push_str("[\"yield\",");
                    self.operand(o, owner, body, value);
                    let _ = write!(o, ",{},", resume.as_usize());
                    self.place(o, body, resume_arg);
                    o.push(']');
                }
                TerminatorKind::InlineAsm { .. } => o.push_str("[\"asm\"]"),
            }
            o.push('}');
        }
        o.push(']');
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, cfg: &mut rustc_interface::interface::Config) {
        cfg.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_promoted);
            p.queries.mir_promoted = my_mir_promoted;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let crate_name = tcx.crate_name(LOCAL_CRATE).to_string();
        let bodies = std::mem::take(&mut STASH.lock().unwrap().0);
        let cx = Cx {
            tcx,
            crate_name: crate_name.clone(),
            tys: Default::default(),
            ty_strs: Default::default(),
            adts: Default::default(),
            paths: Default::default(),
            evaluated: Default::default(),
        };
        let _ = (&cx.crate_name, &cx.evaluated);
        let kind = if tcx.sess.opts.test {
            "test"
        } else if tcx.crate_types().iter().any(|c| format!("{:?}", c).contains("Executable")) {
            "bin"
        } else {
            "lib"
        };
        let base = format!("{}/{}.{}", self.out, crate_name, kind);
        let tmp = format!("{}.tmp{}", base, std::process::id());
        let f = std::fs::File::create(&tmp).expect("facts file");
        let mut w = std::io::BufWriter::new(f);
        let mut nb = 0usize;
        for (def, body, proms) in bodies {
            // SAFETY: same session
            let body: Body<'tcx> = unsafe { std::mem::transmute(body) };
            let proms: Vec<Body<'tcx>> = unsafe { std::mem::transmute(proms) };
            let did = def.to_def_id();
            let mut o = String::new();
            o.push_str("{\"id\":");
            js(&mut o, &cx.path(did));
            let dk = tcx.def_kind(did);
            let k = match dk {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                DefKind::Closure => {
                    if tcx.is_coroutine(did) { "coroutine" } else { "closure" }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => "const",
                DefKind::Static { .. } => "static",
                DefKind::Ctor(..) => "ctor",
                _ => "other",
            };
            let _ = write!(o, ",\"kind\":\"{}\"", k);
            let (file, line, exp) = cx.span(tcx.def_span(did));
            o.push_str(",\"file\":");
            js(&mut o, &file);
            let _ = write!(o, ",\"line\":{},\"exp\":{}", line, exp as u8);
            let parent = tcx.opt_parent(did);
            if let Some(p) = parent {
                o.push_str(",\"parent\":");
                js(&mut o, &cx.path(p));
            }
            // impl info
            let root = tcx.typeck_root_def_id(did);
            if let Some(rp) = tcx.opt_parent(root) {
                if let DefKind::Impl { .. } = tcx.def_kind(rp) {
                    let st = tcx.type_of(rp).instantiate_identity();
                    let st = st.skip_norm_wip();
                    let _ = write!(o, ",\"self\":{}", cx.ty(st));
                    if let Some(tr) = tcx.impl_opt_trait_ref(rp) {
                        o.push_str(",\"trait\":");
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        js(&mut o, &cx.path(tr.def_id));
                        o.push_str(",\"traitref\":");
                        js(&mut o, &with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(format!("{}", tr)))));
                    }
                    if tcx.is_automatically_derived(rp) {
                        o.push_str(",\"derived\":1");
                    }
                } else if let DefKind::Trait = tcx.def_kind(rp) {
                    o.push_str(",\"intrait\":");
                    js(&mut o, &cx.path(rp));
                }
            }
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let v = tcx.visibility(did);
                let _ = write!(o, ",\"pub\":{}", v.is_public() as u8);
                o.push_str(",\"name\":");
                js(&mut o, tcx.item_name(did).as_str());
                let _ = write!(o, ",\"async\":{}", tcx.asyncness(did).is_async() as u8);
            }
            {
                // type parameters, parents first (same order as a callee's "g")
                let mut names: Vec<String> = Vec::new();
                let mut chain = Vec::new();
                let mut g = tcx.generics_of(tcx.typeck_root_def_id(did));
                loop {
                    chain.push(g);
                    match g.parent {
                        Some(p) => g = tcx.generics_of(p),
                        None => break,
                    }
                }
                for g in chain.iter().rev() {
                    for p in &g.own_params {
                        if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                            names.push(p.name.as_str().to_string());
                        }
                    }
                }
                o.push_str(",\"gen\":[");
                for (i, n) in names.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    js(&mut o, n);
                }
                o.push(']');
            }
            if matches!(dk, DefKind::Closure) {
                o.push_str(",\"caps\":[");
                for (i, c) in tcx.closure_captures(def).iter().enumerate() {
                    if i > 0 { o.push(','); }
                    js(&mut o, c.to_symbol().as_str());
                }
                o.push(']');
            }
            o.push(',');
            cx.body(&mut o, def, &body);
            o.push_str(",\"proms\":[");
            for (i, p) in proms.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push('{');
                cx.body(&mut o, def, p);
                o.push('}');
            }
            o.push_str("]}\n");
            w.write_all(o.as_bytes()).unwrap();
            nb += 1;
        }
        w.flush().unwrap();
        drop(w);
        std::fs::rename(&tmp, format!("{}.jsonl", base)).unwrap();

        // meta: impls, traits, adts, types
        let mut o = String::new();
        o.push_str("{\"crate\":");
        js(&mut o, &crate_name);
        let _ = write!(o, ",\"bodies\":{},\"impls\":[", nb);
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { .. } => {
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        o.push_str("{\"tr\":");
                        js(&mut o, &cx.path(tr.def_id));
                        o.push_str(",\"ref\":");
                        js(&mut o, &with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(format!("{}", tr)))));
                        let _ = write!(o, ",\"self\":{}", cx.ty(tr.self_ty()));
                        let _ = write!(o, ",\"derived\":{}", tcx.is_automatically_derived(did) as u8);
                        o.push_str(",\"items\":{");
                        let mut f2 = true;
                        for it in tcx.associated_items(did).in_definition_order() {
                            if it.is_fn() {
                                if let Some(td) = it.trait_item_def_id() {
                                    if !f2 {
                                        o.push(',');
                                    }
                                    f2 = false;
                                    js(&mut o, &cx.path(td));
                                    o.push(':');
                                    js(&mut o, &cx.path(it.def_id));
                                }
                            }
                        }
                        o.push_str("}}");
                    }
                }
                DefKind::Struct | DefKind::Enum => {
                    let p = cx.path(did);
                    cx.adts.borrow_mut().entry(p).or_insert(did);
                }
                _ => {}
            }
        }
        o.push_str("],\"consts\":{");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Const { .. } | DefKind::AssocConst { .. })
                && !tcx.generics_of(did).requires_monomorphization(tcx)
                && tcx.hir_maybe_body_owned_by(id).is_some()
            {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if let Ok(cv) = tcx.const_eval_poly(did) {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    js(&mut o, &cx.path(did));
                    let _ = write!(o, ":{{\"t\":{}", cx.ty(t));
                    cx.const_val(&mut o, cv, t);
                    o.push('}');
                }
            }
        }
        o.push_str("},\"adts\":{");
        let mut done: HashSet<String> = HashSet::new();
        let mut first = true;
        loop {
            let todo: Vec<(String, DefId)> =
                cx.adts.borrow().iter().filter(|(p, _)| !done.contains(*p)).map(|(p, d)| (p.clone(), *d)).collect();
            if todo.is_empty() {
                break;
            }
            for (p, d) in todo {
                done.insert(p.clone());
                let a = tcx.adt_def(d);
                if !first {
                    o.push(',');
                }
                first = false;
                js(&mut o, &p);
                let k = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
                let _ = write!(o, ":{{\"k\":\"{}\",\"local\":{},\"v\":[", k, d.is_local() as u8);
                let discrs: Vec<u128> = if a.is_enum() {
                    a.discriminants(tcx).map(|(_, d)| d.val).collect()
                } else {
                    vec![0]
                };
                for (i, v) in a.variants().iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str("{\"n\":");
                    js(&mut o, v.name.as_str());
                    let _ = write!(o, ",\"d\":{},\"f\":[", discrs.get(i).copied().unwrap_or(i as u128));
                    for (j, f) in v.fields.iter().enumerate() {
                        if j > 0 {
                            o.push(',');
                        }
                        o.push('[');
                        js(&mut o, f.name.as_str());
                        let full = d.is_local();
                        if full {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let _ = write!(o, ",{}", cx.ty(ft));
                        } else {
                            o.push_str(",-1");
                        }
                        o.push(']');
                    }
                    o.push_str("]}");
                }
                o.push_str("]}");
            }
        }
        o.push_str("},\"files\":[");
        let mut first = true;
        for f in tcx.sess.source_map().files().iter() {
            if f.cnum != LOCAL_CRATE { continue; }
            if let rustc_span::FileName::Real(r) = &f.name {
                if let Some(p) = r.local_path() {
                    if !first { o.push(','); }
                    first = false;
                    js(&mut o, &p.to_string_lossy());
                }
            }
        }
        o.push_str("],\"types\":[");
        for (i, t) in cx.ty_strs.borrow().iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(t);
        }
        o.push_str("]}");
        std::fs::write(format!("{}.meta.json", base), o).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("RUDOF_FACTS_OUT").unwrap_or_default();
    let is_query = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"))
        || !args.iter().any(|a| a == "--crate-name");
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let plain = out.is_empty() || is_query || name.starts_with("build_script") || name == "___";
    let code = rustc_driver::catch_with_exit_code(|| {
        if plain {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out: out.clone() });
        }
    });
    return code;
}
