// mirdump: a rustc driver that writes the monomorphised MIR reachable from the
// public, non-generic functions of one crate (env MIRDUMP_CRATE) as JSON to the
// file named by MIRDUMP_OUT.  Used as RUSTC_WORKSPACE_WRAPPER; every other
// crate is compiled normally.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_abi::{FieldIdx, VariantIdx};
use rustc_const_eval::interpret::Projectable;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_defs: Vec<String>,
    queue: VecDeque<Instance<'tcx>>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    inst_meta: Vec<String>,
    inst_bodies: Vec<Option<String>>,
    local_crates: HashSet<String>,
    statics: HashMap<DefId, Option<String>>,
    const_depth: usize,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

impl<'tcx> Cx<'tcx> {
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)))
    }

    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let id = self.type_defs.len();
        self.types.insert(t, id);
        self.type_defs.push(String::new());
        let name = self.ty_str(t);
        let mut o = format!("{{\"s\":{}", js(&name));
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(i) => {
                let b = i.bit_width().unwrap_or(64);
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":true", b);
            }
            ty::Uint(i) => {
                let b = i.bit_width().unwrap_or(64);
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":false", b);
            }
            ty::Float(f) => {
                let _ = write!(o, ",\"k\":\"float\",\"bits\":{}", f.bit_width());
            }
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Tuple(ts) => {
                o.push_str(",\"k\":\"tuple\",\"f\":[");
                for (i, t) in ts.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let x = self.ty(t);
                    let _ = write!(o, "{}", x);
                }
                o.push(']');
            }
            ty::Array(e, n) => {
                let x = self.ty(*e);
                let n = n.try_to_target_usize(tcx).map(|v| v as i64).unwrap_or(-1);
                let _ = write!(o, ",\"k\":\"array\",\"e\":{},\"n\":{}", x, n);
            }
            ty::Slice(e) => {
                let x = self.ty(*e);
                let _ = write!(o, ",\"k\":\"slice\",\"e\":{}", x);
            }
            ty::Ref(_, e, m) => {
                let x = self.ty(*e);
                let _ = write!(o, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", x, m.is_mut());
            }
            ty::RawPtr(e, m) => {
                let x = self.ty(*e);
                let _ = write!(o, ",\"k\":\"ptr\",\"e\":{},\"mut\":{}", x, m.is_mut());
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let c = self.callee(*d, args);
                let _ = write!(o, ",\"k\":\"fndef\",\"callee\":{}", c);
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => {
                let p = t.kind();
                let pr = if let ty::Dynamic(preds, ..) = p {
                    preds.principal_def_id().map(|d| path(tcx, d)).unwrap_or_default()
                } else {
                    String::new()
                };
                let _ = write!(o, ",\"k\":\"dyn\",\"trait\":{}", js(&pr));
            }
            ty::Closure(d, args) => {
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let inst = Instance::new_raw(*d, args);
                let _ = write!(o, ",\"k\":\"closure\",\"def\":{}", js(&path(tcx, *d)));
                let iid = self.enqueue(inst);
                let _ = write!(o, ",\"inst\":{},\"kind\":{}", iid, js(&format!("{:?}", args.as_closure().kind())));
                o.push_str(",\"f\":[");
                for (i, t) in ups.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let t = self.norm(*t);
                    let x = self.ty(t);
                    let _ = write!(o, "{}", x);
                }
                o.push(']');
            }
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let p = path(tcx, def.did());
                let kr = self.krate(def.did());
                let _ = write!(o, ",\"k\":\"adt\",\"adt\":{},\"path\":{},\"crate\":{}", js(kind), js(&p), js(&kr));
                o.push_str(",\"args\":[");
                let mut first = true;
                for a in args.types() {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let x = self.ty(a);
                    let _ = write!(o, "{}", x);
                }
                o.push(']');
                let std = matches!(kr.as_str(), "std" | "alloc" | "core" | "hashbrown");
                let expand = !std || p.starts_with("core::option") || p.starts_with("core::result")
                    || p.starts_with("core::ops") || p.starts_with("core::cmp")
                    || p.starts_with("alloc::borrow::Cow") || p.starts_with("core::num::wrapping")
                    || p.starts_with("std::io::ErrorKind") || p.contains("convert::Infallible");
                if expand && !def.is_union() {
                    o.push_str(",\"variants\":[");
                    for (vi, v) in def.variants().iter_enumerated() {
                        if vi.as_usize() > 0 {
                            o.push(',');
                        }
                        let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                        let _ = write!(o, "{{\"n\":{},\"d\":\"{}\",\"f\":[", js(v.name.as_str()), d);
                        for (i, f) in v.fields.iter().enumerate() {
                            if i > 0 {
                                o.push(',');
                            }
                            let ft = f.ty(tcx, args);
                            let ft = self.norm2(ft.skip_norm_wip());
                            let x = self.ty(ft);
                            let _ = write!(o, "[{},{}]", js(f.name.as_str()), x);
                        }
                        o.push_str("]}");
                    }
                    o.push(']');
                }
            }
            _ => {
                o.push_str(",\"k\":\"other\"");
            }
        }
        o.push('}');
        self.type_defs[id] = o;
        id
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.norm2(t)
    }
    fn norm2(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn enqueue(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&x) = self.inst_ids.get(&i) {
            return x;
        }
        let id = self.inst_meta.len();
        self.inst_ids.insert(i, id);
        self.inst_meta.push(String::new());
        self.inst_bodies.push(None);
        self.queue.push_back(i);
        id
    }

    /// Describes a (possibly trait) function with its resolved instance.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(o, "\"path\":{}", js(&path(tcx, d)));
        let _ = write!(o, ",\"crate\":{}", js(&self.krate(d)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{},\"method\":{}", js(&path(tcx, tr)), js(tcx.item_name(d).as_str()));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let st = self.norm2(st);
            let x = self.ty(st);
            let _ = write!(o, ",\"implself\":{},\"method\":{}", x, js(tcx.item_name(d).as_str()));
        }
        o.push_str(",\"args\":[");
        let mut first = true;
        let tys: Vec<Ty<'tcx>> = args.types().collect();
        for a in tys {
            if !first {
                o.push(',');
            }
            first = false;
            let a = self.norm2(a);
            let x = self.ty(a);
            let _ = write!(o, "{}", x);
        }
        o.push(']');
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Ctor(..)) {
            o.push_str(",\"kind\":\"ctor\"}");
            return o;
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::LlvmIntrinsic(_) => "llvm",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(_) => "shim",
                };
                let rd = inst.def.def_id();
                let _ = write!(o, ",\"kind\":{},\"rpath\":{},\"rcrate\":{}", js(kind), js(&path(tcx, rd)), js(&self.krate(rd)));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                    let st = self.norm2(st);
                    let x = self.ty(st);
                    let _ = write!(o, ",\"rself\":{}", x);
                }
                if let InstanceKind::Shim(s) = inst.def {
                    let sn = format!("{:?}", s);
                    let sn = sn.split('(').next().unwrap_or("").split(' ').next().unwrap_or("").to_string();
                    let _ = write!(o, ",\"shim\":{}", js(&sn));
                }
                if self.want_body(inst) {
                    let id = self.enqueue(inst);
                    let _ = write!(o, ",\"inst\":{}", id);
                }
            }
            _ => o.push_str(",\"kind\":\"unresolved\""),
        }
        o.push('}');
        o
    }

    fn want_body(&self, i: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Item(d) => {
                if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                    return false;
                }
                if tcx.is_foreign_item(d) || !tcx.is_mir_available(d) {
                    return false;
                }
                let kr = self.krate(d);
                if self.local_crates.contains(&kr) {
                    return true;
                }
                if kr == "core" || kr == "std" || kr == "alloc" {
                    let p = path(tcx, d);
                    const OK: &[&str] = &[
                        "core::option::", "core::result::", "core::mem::swap", "core::mem::replace", "core::mem::take",
                        "core::cmp::", "core::convert::", "core::clone::", "core::default::", "core::ops::", "core::bool",
                        "core::tuple::", "core::num::", "core::f32::", "core::f64::", "std::f32::", "std::f64::", "core::iter::",
                        "core::array::", "core::borrow::", "alloc::borrow::", "core::any::", "core::str::", "core::slice::",
                        "core::char::", "std::num::",
                    ];
                    let p2 = p.trim_start_matches('<');
                    return OK.iter().any(|o| p2.starts_with(o)) || p.starts_with('<');
                }
                false
            }
            InstanceKind::Shim(s) => matches!(
                s,
                ty::ShimKind::ClosureOnce { .. }
                    | ty::ShimKind::FnPtr(..)
                    | ty::ShimKind::Clone(..)
                    | ty::ShimKind::VTable(..)
                    | ty::ShimKind::Reify(..)
            ),
            _ => false,
        }
    }

    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }

    fn body_json(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let body = tcx.instance_mir(inst.def).clone();
        if body.tainted_by_errors.is_some() {
            return None;
        }
        let body: Body<'tcx> =
            match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body)) {
                Ok(b) => b,
                Err(_) => return None,
            };
        let mut o = String::new();
        let _ = write!(o, "\"nargs\":{},\"spread\":{},\"span\":{},\"locals\":[", body.arg_count,
            body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1), js(&self.span(body.span)));
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let x = self.ty(l.ty);
            let _ = write!(o, "{}", x);
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cleanup\":{},\"st\":[", bb.is_cleanup);
            let mut first = true;
            for s in &bb.statements {
                let sj = self.stmt(s, &body);
                if let Some(sj) = sj {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&sj);
                }
            }
            o.push_str("],\"t\":");
            let t = self.term(bb.terminator(), &body);
            o.push_str(&t);
            o.push('}');
        }
        o.push(']');
        Some(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_usize());
        let mut first = true;
        for e in p.projection.iter() {
            let x = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let x = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), x)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => continue,
            };
            if !first {
                o.push(',');
            }
            first = false;
            o.push_str(&x);
        }
        o.push_str("]]");
        o
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c),
            _ => "{\"k\":\"runtime\"}".to_string(),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let v = match c.const_.eval(tcx, self.env, c.span) {
            Ok(val) => self.const_val(val, t),
            Err(_) => "{\"u\":\"eval-error\"}".to_string(),
        };
        format!("{{\"k\":\"const\",\"ty\":{},\"v\":{}}}", tid, v)
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match rustc_const_eval::const_eval::mk_eval_cx_for_const_val(tcx.at(rustc_span::DUMMY_SP), self.env, v, t) {
            Some((ecx, op)) => self.op_json(&ecx, &op),
            None => "{\"u\":\"no-op\"}".to_string(),
        }
    }

    fn op_json(
        &mut self,
        ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>,
        op: &rustc_const_eval::interpret::OpTy<'tcx>,
    ) -> String {
        let tcx = self.tcx;
        let t = op.layout.ty;
        if self.const_depth > 40 {
            return "{\"u\":\"depth\"}".into();
        }
        self.const_depth += 1;
        let r = (|| -> Option<String> {
            Some(match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                    let s = ecx.read_scalar(op).discard_err()?;
                    let si = s.try_to_scalar_int().ok()?;
                    format!("{{\"b\":\"{}\"}}", si.to_bits(si.size()))
                }
                ty::FnDef(..) => "{\"z\":1}".to_string(),
                ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                    // A pointer to a static is named, anything else is read through.
                    if let Ok(sc) = ecx.read_immediate(op).discard_err().map(|i| i.to_scalar_or_meta()).ok_or(()) {
                        if let Some(p) = sc {
                            if let Some(aid) = p {
                                match tcx.try_get_global_alloc(aid) {
                                    Some(mir::interpret::GlobalAlloc::Static(d)) => {
                                        return Some(format!("{{\"static\":{}}}", js(&path(tcx, d))));
                                    }
                                    Some(mir::interpret::GlobalAlloc::Function { instance }) => {
                                        return Some(format!("{{\"fn\":{}}}", js(&path(tcx, instance.def_id()))));
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                    if matches!(e.kind(), ty::Dynamic(..) | ty::Foreign(..)) {
                        return Some("{\"u\":\"dynref\"}".into());
                    }
                    let m = ecx.deref_pointer(op).discard_err()?;
                    if matches!(e.kind(), ty::Str) {
                        let s = ecx.read_str(&m).discard_err()?;
                        return Some(format!("{{\"str\":{}}}", js(s)));
                    }
                    let o2: rustc_const_eval::interpret::OpTy<'tcx> = m.into();
                    let eid = self.ty(*e);
                    format!("{{\"ref\":{},\"ty\":{}}}", self.op_json(ecx, &o2), eid)
                }
                ty::Array(_, n) => {
                    let n = n.try_to_target_usize(tcx)?;
                    if n > 65536 {
                        return Some("{\"u\":\"big\"}".into());
                    }
                    let mut o = String::from("{\"a\":[");
                    for i in 0..n {
                        if i > 0 {
                            o.push(',');
                        }
                        let f = ecx.project_index(op, i).discard_err()?;
                        o.push_str(&self.op_json(ecx, &f));
                    }
                    o.push_str("]}");
                    o
                }
                ty::Slice(_) => {
                    let n = op.len(ecx).discard_err()?;
                    let mut o = String::from("{\"a\":[");
                    for i in 0..n {
                        if i > 0 {
                            o.push(',');
                        }
                        let f = ecx.project_index(op, i).discard_err()?;
                        o.push_str(&self.op_json(ecx, &f));
                    }
                    o.push_str("]}");
                    o
                }
                ty::Tuple(ts) => {
                    let n = ts.len();
                    let mut o = String::from("{\"s\":[");
                    for i in 0..n {
                        if i > 0 {
                            o.push(',');
                        }
                        let f = ecx.project_field(op, FieldIdx::from_usize(i)).discard_err()?;
                        o.push_str(&self.op_json(ecx, &f));
                    }
                    o.push_str("]}");
                    o
                }
                ty::Closure(_, args) => {
                    let n = args.as_closure().upvar_tys().len();
                    let mut o = String::from("{\"s\":[");
                    for i in 0..n {
                        if i > 0 {
                            o.push(',');
                        }
                        let f = ecx.project_field(op, FieldIdx::from_usize(i)).discard_err()?;
                        o.push_str(&self.op_json(ecx, &f));
                    }
                    o.push_str("]}");
                    o
                }
                ty::Adt(def, _) if !def.is_union() && !def.variants().is_empty() => {
                    let (vi, down) = if def.is_enum() {
                        let v: VariantIdx = ecx.read_discriminant(op).discard_err()?;
                        (v, ecx.project_downcast(op, v).discard_err()?)
                    } else {
                        (VariantIdx::from_usize(0), op.clone())
                    };
                    let n = def.variant(vi).fields.len();
                    let mut o = format!("{{\"v\":{},\"s\":[", vi.as_usize());
                    for i in 0..n {
                        if i > 0 {
                            o.push(',');
                        }
                        let f = ecx.project_field(&down, FieldIdx::from_usize(i)).discard_err()?;
                        o.push_str(&self.op_json(ecx, &f));
                    }
                    o.push_str("]}");
                    o
                }
                _ => return None,
            })
        })();
        self.const_depth -= 1;
        r.unwrap_or_else(|| "{\"u\":\"unreadable\"}".to_string())
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(op)),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(tcx).map(|v| v as i64).unwrap_or(-1);
                format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(op), n)
            }
            Rvalue::Ref(_, _, p) => format!("{{\"k\":\"ref\",\"p\":{}}}", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"ref\",\"p\":{}}}", self.place(p)),
            Rvalue::Cast(kind, op, t) => {
                let st = op.ty(&body.local_decls, tcx);
                let sid = self.ty(st);
                let tid = self.ty(*t);
                let mut vt = String::new();
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) = kind {
                    if let Some((conc, dynt)) = self.unsize_pair(st, *t) {
                        vt = self.vtable(conc, dynt);
                    }
                }
                let kn = format!("{:?}", kind);
                format!("{{\"k\":\"cast\",\"c\":{},\"o\":{},\"from\":{},\"to\":{}{}}}", js(&kn), self.operand(op), sid, tid, vt)
            }
            Rvalue::BinaryOp(b, ops) => {
                let (x, y) = &**ops;
                let lt = x.ty(&body.local_decls, tcx);
                let lid = self.ty(lt);
                format!("{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"ty\":{}}}", js(&format!("{:?}", b)), self.operand(x), self.operand(y), lid)
            }
            Rvalue::UnaryOp(u, x) => {
                let lt = x.ty(&body.local_decls, tcx);
                let lid = self.ty(lt);
                format!("{{\"k\":\"un\",\"op\":{},\"a\":{},\"ty\":{}}}", js(&format!("{:?}", u)), self.operand(x), lid)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let tid = self.ty(t);
                format!("{{\"k\":\"disc\",\"p\":{},\"ty\":{}}}", self.place(p), tid)
            }
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let mut o = String::from("{\"k\":\"agg\"");
                match &**k {
                    AggregateKind::Array(t) => {
                        let x = self.ty(*t);
                        let _ = write!(o, ",\"a\":\"array\",\"e\":{}", x);
                    }
                    AggregateKind::Tuple => o.push_str(",\"a\":\"tuple\""),
                    AggregateKind::Adt(_, vi, _, _, act) => {
                        let t = r.ty(&body.local_decls, tcx);
                        let x = self.ty(t);
                        let _ = write!(o, ",\"a\":\"adt\",\"ty\":{},\"v\":{}", x, vi.as_usize());
                        if let Some(a) = act {
                            let _ = write!(o, ",\"active\":{}", a.as_usize());
                        }
                    }
                    AggregateKind::Closure(..) => {
                        let t = r.ty(&body.local_decls, tcx);
                        let x = self.ty(t);
                        let _ = write!(o, ",\"a\":\"closure\",\"ty\":{}", x);
                    }
                    AggregateKind::RawPtr(..) => o.push_str(",\"a\":\"rawptr\""),
                    _ => o.push_str(",\"a\":\"other\""),
                }
                o.push_str(",\"ops\":[");
                for (i, op) in ops.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&self.operand(op));
                }
                o.push_str("]}");
                o
            }
            Rvalue::ThreadLocalRef(d) => format!("{{\"k\":\"tls\",\"d\":{}}}", js(&path(tcx, *d))),
            _ => format!("{{\"k\":\"other\",\"d\":{}}}", js(&format!("{:?}", r))),
        }
    }

    /// (concrete type, dyn type) of an unsizing coercion through smart pointers.
    fn unsize_pair(&self, from: Ty<'tcx>, to: Ty<'tcx>) -> Option<(Ty<'tcx>, Ty<'tcx>)> {
        match (from.kind(), to.kind()) {
            (ty::Ref(_, a, _), ty::Ref(_, b, _))
            | (ty::RawPtr(a, _), ty::RawPtr(b, _))
            | (ty::Ref(_, a, _), ty::RawPtr(b, _)) => {
                if matches!(b.kind(), ty::Dynamic(..)) && !matches!(a.kind(), ty::Dynamic(..)) { Some((*a, *b)) } else { None }
            }
            (ty::Adt(_, aa), ty::Adt(_, bb)) => {
                let mut a = aa.types();
                let mut b = bb.types();
                let (a, b) = (a.next()?, b.next()?);
                if matches!(b.kind(), ty::Dynamic(..)) && !matches!(a.kind(), ty::Dynamic(..)) { Some((a, b)) } else { None }
            }
            _ => None,
        }
    }

    fn vtable(&mut self, conc: Ty<'tcx>, dynt: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let cid = self.ty(conc);
        let did = self.ty(dynt);
        let mut o = format!(",\"vt\":{{\"conc\":{},\"dyn\":{},\"m\":[", cid, did);
        if let ty::Dynamic(preds, ..) = dynt.kind() {
            if let Some(p) = preds.principal() {
                let p = tcx.instantiate_bound_regions_with_erased(p);
                let tr = p.with_self_ty(tcx, conc);
                let mut first = true;
                for tr in [tr] {
                    let did = tr.def_id;
                    let items: Vec<DefId> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .filter(|i| i.is_fn())
                        .map(|i| i.def_id)
                        .collect();
                    for m in items {
                        if tcx.generics_of(m).own_requires_monomorphization() {
                            continue;
                        }
                        let args = ty::GenericArgs::for_item(tcx, m, |param, _| {
                            if (param.index as usize) < tr.args.len() { tr.args[param.index as usize] } else { tcx.lifetimes.re_erased.into() }
                        });
                        let args = tcx.erase_and_anonymize_regions(args);
                        let c = self.callee(m, args);
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        o.push_str(&c);
                    }
                }
            }
        }
        o.push_str("]}");
        o
    }

    fn stmt(&mut self, s: &Statement<'tcx>, body: &Body<'tcx>) -> Option<String> {
        let sp = self.span(s.source_info.span);
        Some(match &s.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let pj = self.place(p);
                let rj = self.rvalue(r, body);
                let pt = p.ty(&body.local_decls, self.tcx).ty;
                let ptid = self.ty(pt);
                format!("{{\"k\":\"=\",\"p\":{},\"pt\":{},\"r\":{},\"sp\":{}}}", pj, ptid, rj, js(&sp))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                format!("{{\"k\":\"setdisc\",\"p\":{},\"v\":{}}}", self.place(place), variant_index.as_usize())
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => return None,
                NonDivergingIntrinsic::CopyNonOverlapping(_) => "{\"k\":\"other\",\"d\":\"copy_nonoverlapping\"}".to_string(),
            },
            _ => return None,
        })
    }

    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let sp = js(&self.span(t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&body.local_decls, tcx);
                let did = self.ty(dt);
                let mut o = format!("{{\"k\":\"switch\",\"o\":{},\"ty\":{},\"cases\":[", self.operand(discr), did);
                for (i, (v, b)) in targets.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "[\"{}\",{}]", v, b.as_usize());
                }
                let _ = write!(o, "],\"else\":{},\"sp\":{}}}", targets.otherwise().as_usize(), sp);
                o
            }
            TerminatorKind::Return => "{\"k\":\"return\"}".into(),
            TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"k\":\"resume\"}".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&body.local_decls, tcx).ty;
                let tid = self.ty(ty);
                format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}}}", self.place(place), tid, target.as_usize())
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = format!("{:?}", msg);
                format!(
                    "{{\"k\":\"assert\",\"o\":{},\"exp\":{},\"msg\":{},\"t\":{},\"sp\":{}}}",
                    self.operand(cond), expected, js(&m), target.as_usize(), sp
                )
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(&body.local_decls, tcx);
                let callee = match ft.kind() {
                    ty::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap()),
                    _ => {
                        let x = self.ty(ft);
                        format!("{{\"kind\":\"indirect\",\"ty\":{},\"o\":{}}}", x, self.operand(func))
                    }
                };
                let mut o = format!("{{\"k\":\"call\",\"f\":{},\"a\":[", callee);
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&self.operand(&a.node));
                }
                let dt = destination.ty(&body.local_decls, tcx).ty;
                let dtid = self.ty(dt);
                let _ = write!(
                    o,
                    "],\"d\":{},\"dt\":{},\"t\":{},\"sp\":{}}}",
                    self.place(destination), dtid,
                    target.map(|t| t.as_usize() as i64).unwrap_or(-1), sp
                );
                o
            }
            k => format!("{{\"k\":\"other\",\"d\":{}}}", js(&format!("{:?}", k))),
        }
    }
}

// ---------------------------------------------------------------------------
// The resolved call graph of everything reachable from the roots, through any
// crate for which MIR is available.  Leaves are functions without MIR.
struct Calls<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    ids: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<Instance<'tcx>>,
    seen_alloc: HashSet<mir::interpret::AllocId>,
}
#[derive(Default)]
struct CallNode {
    edges: Vec<(usize, String)>,
    virt: Vec<(String, String, String)>,
    statics: Vec<String>,
    other: Vec<String>,
    fixed: Vec<(usize, String)>,
}
impl<'a, 'tcx> Calls<'a, 'tcx> {
    fn id(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&x) = self.ids.get(&i) {
            return x;
        }
        let n = self.ids.len();
        self.ids.insert(i, n);
        self.queue.push_back(i);
        n
    }
    fn alloc(&mut self, aid: mir::interpret::AllocId, n: &mut CallNode, sp: &str) {
        let tcx = self.cx.tcx;
        match tcx.try_get_global_alloc(aid) {
            Some(mir::interpret::GlobalAlloc::Static(d)) => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = self.cx.norm(t);
                let m = tcx.is_mutable_static(d);
                let fz = t.is_freeze(tcx, self.cx.env);
                let mut inner = String::from("[");
                if let ty::Adt(_, a) = t.kind() {
                    let mut first = true;
                    for x in a.types() {
                        if !first { inner.push(','); }
                        first = false;
                        let _ = write!(inner, "{}", x.is_freeze(tcx, self.cx.env));
                    }
                }
                inner.push(']');
                let adt = if let ty::Adt(a, _) = t.kind() { path(tcx, a.did()) } else { String::new() };
                n.statics.push(format!(
                    "{{\"path\":{},\"crate\":{},\"mut\":{},\"freeze\":{},\"tls\":{},\"ty\":{},\"adt\":{},\"inner\":{},\"sp\":{}}}",
                    js(&path(tcx, d)), js(&self.cx.krate(d)), m, fz, tcx.is_thread_local_static(d), js(&self.cx.ty_str(t)), js(&adt), inner, js(sp)
                ));
            }
            Some(mir::interpret::GlobalAlloc::Function { instance }) => {
                let e = self.id(instance);
                n.edges.push((e, sp.to_string()));
            }
            Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                if self.seen_alloc.len() > 200000 {
                    return;
                }
                let ps: Vec<_> = a.inner().provenance().ptrs().iter().map(|(_, p)| p.alloc_id()).collect();
                for q in ps {
                    self.alloc(q, n, sp);
                }
            }
            _ => {}
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, n: &mut CallNode, sp: &str) {
        let tcx = self.cx.tcx;
        if let Ok(v) = c.const_.eval(tcx, self.cx.env, c.span) {
            match v {
                ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => self.alloc(p.provenance.alloc_id(), n, sp),
                ConstValue::Slice { alloc_id, .. } => self.alloc(alloc_id, n, sp),
                ConstValue::Indirect { alloc_id, .. } => self.alloc(alloc_id, n, sp),
                _ => {}
            }
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>, n: &mut CallNode, sp: &str) {
        if let Operand::Constant(c) = o {
            self.konst(c, n, sp)
        }
    }
    fn func(&mut self, d: DefId, a: GenericArgsRef<'tcx>, n: &mut CallNode, sp: &str) {
        let tcx = self.cx.tcx;
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            return;
        }
        match Instance::try_resolve(tcx, self.cx.env, d, a) {
            Ok(Some(i)) => match i.def {
                InstanceKind::Virtual(..) => {
                    let tr = tcx.trait_of_assoc(d).map(|t| path(tcx, t)).unwrap_or_default();
                    n.virt.push((tr, tcx.item_name(d).as_str().to_string(), sp.to_string()));
                }
                _ => {
                    let e = self.id(i);
                    n.edges.push((e, sp.to_string()));
                }
            },
            _ => n.other.push(format!("unresolved {}", path(tcx, d))),
        }
    }
    fn place(&mut self, _p: &Place<'tcx>) {}
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, n: &mut CallNode, sp: &str) {
        let tcx = self.cx.tcx;
        match r {
            Rvalue::Use(o, ..) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) => self.operand(o, n, sp),
            Rvalue::BinaryOp(_, ab) => {
                self.operand(&ab.0, n, sp);
                self.operand(&ab.1, n, sp);
            }
            Rvalue::Cast(k, o, t) => {
                self.operand(o, n, sp);
                let from = o.ty(&body.local_decls, tcx);
                let ks = format!("{:?}", k);
                if ks.starts_with("PointerExposeProvenance") {
                    n.other.push(format!("address {}", sp));
                }
                if ks.contains("ReifyFnPointer") {
                    if let ty::FnDef(d, a) = from.kind() {
                        self.func(*d, a.no_bound_vars().unwrap(), n, sp);
                    }
                }
                if ks.contains("Unsize") {
                    if let Some((c, dt)) = self.cx.unsize_pair(from, *t) {
                        if let ty::Dynamic(preds, ..) = dt.kind() {
                            if let Some(p) = preds.principal() {
                                let p = tcx.instantiate_bound_regions_with_erased(p);
                                let tr = tcx.erase_and_anonymize_regions(p.with_self_ty(tcx, c));
                                for m in tcx.own_existential_vtable_entries(tr.def_id) {
                                    let args = ty::GenericArgs::for_item(tcx, *m, |param, _| {
                                        if (param.index as usize) < tr.args.len() { tr.args[param.index as usize] } else { tcx.lifetimes.re_erased.into() }
                                    });
                                    let args = tcx.erase_and_anonymize_regions(args);
                                    self.func(*m, args, n, sp);
                                }
                            }
                        }
                    }
                }
            }
            Rvalue::Aggregate(k, ops) => {
                for o in ops.iter() {
                    self.operand(o, n, sp);
                }
                if let AggregateKind::Closure(d, a) = &**k {
                    let i = Instance::resolve_closure(tcx, *d, a, a.as_closure().kind());
                    let e = self.id(i);
                    n.edges.push((e, sp.to_string()));
                }
            }
            Rvalue::ThreadLocalRef(d) => n.statics.push(format!(
                "{{\"path\":{},\"crate\":{},\"mut\":false,\"freeze\":false,\"tls\":true,\"ty\":\"\",\"adt\":\"\",\"inner\":[],\"sp\":{}}}",
                js(&path(tcx, *d)), js(&self.cx.krate(*d)), js(sp)
            )),
            _ => {}
        }
    }
    fn walk(&mut self, i: Instance<'tcx>) -> Option<CallNode> {
        let tcx = self.cx.tcx;
        let d = i.def.def_id();
        match i.def {
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => return None,
            InstanceKind::Item(_) => {
                if tcx.is_foreign_item(d) || !tcx.is_mir_available(d) {
                    return None;
                }
            }
            _ => {}
        }
        let body = tcx.instance_mir(i.def).clone();
        if body.tainted_by_errors.is_some() {
            return None;
        }
        let body: Body<'tcx> = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.cx.env, EarlyBinder::bind(tcx, body)).ok()?;
        let mut n = CallNode::default();
        for bb in body.basic_blocks.iter() {
            for s in &bb.statements {
                let sp = self.cx.span(s.source_info.span);
                if let StatementKind::Assign(pr) = &s.kind {
                    self.place(&pr.0);
                    self.rvalue(&pr.1, &body, &mut n, &sp);
                }
            }
            let t = bb.terminator();
            let sp = self.cx.span(t.source_info.span);
            match &t.kind {
                TerminatorKind::Call { func, args, .. } | TerminatorKind::TailCall { func, args, .. } => {
                    for a in args.iter() {
                        self.operand(&a.node, &mut n, &sp);
                    }
                    match func.ty(&body.local_decls, tcx).kind() {
                        ty::FnDef(d, a) => {
                            let k = n.edges.len();
                            self.func(*d, a.no_bound_vars().unwrap(), &mut n, &sp);
                            // a call on constants alone
                            if n.edges.len() > k && !args.is_empty() && args.iter().all(|a| matches!(a.node, Operand::Constant(_))) {
                                let e = n.edges[k].0;
                                n.fixed.push((e, sp.clone()));
                            }
                        }
                        _ => {
                            self.operand(func, &mut n, &sp);
                            n.virt.push(("fn".to_string(), "pointer".to_string(), sp.clone()));
                        }
                    }
                }
                TerminatorKind::Drop { place, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    if t.needs_drop(tcx, self.cx.env) {
                        let e = Instance::resolve_drop_glue(tcx, t);
                        if matches!(t.kind(), ty::Dynamic(..)) {
                            n.virt.push(("drop".to_string(), self.cx.ty_str(t), sp.clone()));
                        } else {
                            let e = self.id(e);
                            n.edges.push((e, sp.clone()));
                        }
                    }
                }
                TerminatorKind::InlineAsm { .. } => n.other.push(format!("asm {}", sp)),
                TerminatorKind::SwitchInt { discr, .. } => self.operand(discr, &mut n, &sp),
                TerminatorKind::Assert { cond, .. } => self.operand(cond, &mut n, &sp),
                _ => {}
            }
        }
        Some(n)
    }
    fn run(&mut self, roots: &[(String, Instance<'tcx>)]) -> String {
        let tcx = self.cx.tcx;
        let mut o = String::from("{\"roots\":{");
        for (k, (nm, i)) in roots.iter().enumerate() {
            if k > 0 { o.push(','); }
            let id = self.id(*i);
            let _ = write!(o, "{}:{}", js(nm), id);
        }
        o.push_str("},\"nodes\":[\n");
        let mut first = true;
        while let Some(i) = self.queue.pop_front() {
            let d = i.def.def_id();
            let name = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", i)));
            let n = self.walk(i);
            if !first { o.push_str(",\n"); }
            first = false;
            let kind = format!("{:?}", i.def);
            let kind = kind.split(|c| c == '(' || c == ' ' || c == '{').next().unwrap_or("").to_string();
            let _ = write!(o, "{{\"name\":{},\"path\":{},\"crate\":{},\"kind\":{},\"foreign\":{}", js(&name), js(&path(tcx, d)), js(&self.cx.krate(d)), js(&kind),
                matches!(i.def, InstanceKind::Item(_)) && tcx.is_foreign_item(d));
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"trait\":{}", js(&path(tcx, tr)));
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                let _ = write!(o, ",\"method\":{}", js(tcx.item_name(d).as_str()));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let _ = write!(o, ",\"trait\":{}", js(&path(tcx, tr.skip_binder().def_id)));
                }
            }
            if let Some(n) = n {
                o.push_str(",\"edges\":[");
                for (k, (e, sp)) in n.edges.iter().enumerate() {
                    if k > 0 { o.push(','); }
                    let _ = write!(o, "[{},{}]", e, js(sp));
                }
                o.push_str("],\"virt\":[");
                for (k, (a, b, sp)) in n.virt.iter().enumerate() {
                    if k > 0 { o.push(','); }
                    let _ = write!(o, "[{},{},{}]", js(a), js(b), js(sp));
                }
                o.push_str("],\"fixed\":[");
                for (k, (e, sp)) in n.fixed.iter().enumerate() {
                    if k > 0 { o.push(','); }
                    let _ = write!(o, "[{},{}]", e, js(sp));
                }
                let _ = write!(o, "],\"statics\":[{}],\"other\":[", n.statics.join(","));
                for (k, x) in n.other.iter().enumerate() {
                    if k > 0 { o.push(','); }
                    o.push_str(&js(x));
                }
                o.push(']');
            }
            o.push('}');
        }
        o.push_str("]}\n");
        o
    }
}

trait ScalarMeta {
    fn to_scalar_or_meta(&self) -> Option<Option<rustc_middle::mir::interpret::AllocId>>;
}
impl<'tcx> ScalarMeta for rustc_const_eval::interpret::ImmTy<'tcx> {
    fn to_scalar_or_meta(&self) -> Option<Option<rustc_middle::mir::interpret::AllocId>> {
        use rustc_const_eval::interpret::Immediate;
        let s = match **self {
            Immediate::Scalar(s) => s,
            Immediate::ScalarPair(s, _) => s,
            _ => return None,
        };
        match s {
            rustc_middle::mir::interpret::Scalar::Ptr(p, _) => Some(Some(p.provenance.alloc_id())),
            _ => Some(None),
        }
    }
}

struct Cb {
    krate: String,
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let me = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if me != self.krate {
            return rustc_driver::Compilation::Continue;
        }
        let mut local: HashSet<String> = std::env::var("MIRDUMP_LOCAL").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
        local.insert(me.clone());
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            types: HashMap::new(),
            type_defs: Vec::new(),
            queue: VecDeque::new(),
            inst_ids: HashMap::new(),
            inst_meta: Vec::new(),
            inst_bodies: Vec::new(),
            local_crates: local,
            statics: HashMap::new(),
            const_depth: 0,
        };
        let mut roots = Vec::new();
        let mut rinst = Vec::new();
        let all = std::env::var("MIRDUMP_ALLFNS").is_ok();
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if !all && !(tcx.visibility(did).is_public() && matches!(tcx.def_kind(did), DefKind::Fn)) {
                continue;
            }
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                continue;
            }
            if !tcx.is_mir_available(did) {
                continue;
            }
            let i = Instance::mono(tcx, did);
            let id = cx.enqueue(i);
            roots.push((path(tcx, did), id));
            rinst.push((path(tcx, did), i));
        }
        while let Some(i) = cx.queue.pop_front() {
            let id = cx.inst_ids[&i];
            let d = i.def.def_id();
            let name = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", i)));
            let mut m = format!("\"name\":{},\"def\":{},\"crate\":{},\"kind\":{}", js(&name), js(&path(tcx, d)), js(&cx.krate(d)), js(&format!("{:?}", i.def).split('(').next().unwrap_or("").to_string()));
            if let Some(im) = tcx.impl_of_assoc(d) {
                let _ = write!(m, ",\"method\":{}", js(tcx.item_name(d).as_str()));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let _ = write!(m, ",\"trait\":{}", js(&path(tcx, tr.skip_binder().def_id)));
                }
            }
            cx.inst_meta[id] = m;
            let b = cx.body_json(i);
            cx.inst_bodies[id] = b;
        }
        let _ = &cx.statics;
        let mut o = String::from("{\"roots\":{");
        for (i, (n, id)) in roots.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}:{}", js(n), id);
        }
        o.push_str("},\n\"types\":[\n");
        for (i, t) in cx.type_defs.iter().enumerate() {
            if i > 0 {
                o.push_str(",\n");
            }
            o.push_str(t);
        }
        o.push_str("],\n\"insts\":[\n");
        for i in 0..cx.inst_meta.len() {
            if i > 0 {
                o.push_str(",\n");
            }
            o.push('{');
            o.push_str(&cx.inst_meta[i]);
            if let Some(b) = &cx.inst_bodies[i] {
                o.push(',');
                o.push_str(b);
            }
            o.push('}');
        }
        o.push_str("]}\n");
        if let Ok(p) = std::env::var("MIRDUMP_CALLS") {
            let mut c = Calls { cx: &cx, ids: HashMap::new(), queue: VecDeque::new(), seen_alloc: HashSet::new() };
            let j = c.run(&rinst);
            std::fs::write(&p, j).expect("mirdump: cannot write the call graph");
        }
        std::fs::write(&self.out, o).expect("mirdump: cannot write output");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper the first argument is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let krate = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let mut cb = Cb { krate, out };
    std::process::exit(if rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb)) == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
