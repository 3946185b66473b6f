// Fact extractor: a rustc driver which dumps, for the crate named in HB_CRATE,
// the type-checked MIR (promoted phase: before drop elaboration and before the
// coroutine transform) as JSON, with resolved callees, types and constants.
// It runs nothing of the analysed crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::Mutex;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }
fn opt(v: Option<String>) -> String { v.unwrap_or_else(|| "null".into()) }
fn bytes_json(b: &[u8]) -> String {
    format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

#[derive(Default)]
struct Store {
    types: Vec<String>,
    type_ix: HashMap<String, usize>, // keyed by json text
    adts: HashMap<String, String>,
    adt_order: Vec<String>,
    bodies: Vec<String>,
    ext_seen: std::collections::HashSet<DefId>,
    ext_todo: Vec<DefId>,
}
static STORE: Mutex<Option<Store>> = Mutex::new(None);

struct Cx<'a, 'tcx> { tcx: TyCtxt<'tcx>, st: &'a mut Store, env: TypingEnv<'tcx>, decls: Vec<LocalDecl<'tcx>> }

fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    let k = tcx.crate_name(d.krate);
    format!("{}{}", k, tcx.def_path(d).to_string_no_crate_verbose())
}
fn pstr(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(d)))
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        esc(&format!("{}:{}", f, lo.line))
    }
    fn intern(&mut self, j: String) -> usize {
        if let Some(i) = self.st.type_ix.get(&j) { return *i; }
        let i = self.st.types.len();
        self.st.types.push(j.clone());
        self.st.type_ix.insert(j, i);
        i
    }
    fn targs(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() { v.push(self.ty(t).to_string()); }
            else if let Some(c) = g.as_const() {
                v.push(format!("{{\"const\":{}}}", esc(&format!("{}", c))));
            }
        }
        arr(&v)
    }
    fn adt(&mut self, d: DefId) -> String {
        let id = uid(self.tcx, d);
        if !self.st.adts.contains_key(&id) {
            self.st.adts.insert(id.clone(), String::new());
            self.st.adt_order.push(id.clone());
            let def = self.tcx.adt_def(d);
            let mut vs = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let dis = if def.is_enum() { format!("{}", def.discriminant_for_variant(self.tcx, vi).val) } else { "0".into() };
                let mut fs = vec![];
                for f in v.fields.iter() {
                    // field types only for crates' public structure we care about
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = if d.krate == LOCAL_CRATE { self.ty(t).to_string() } else { "null".into() };
                    fs.push(format!("{{\"name\":{},\"ty\":{}}}", esc(f.name.as_str()), ti));
                }
                vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), dis, arr(&fs)));
            }
            let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let gens: Vec<String> = self.tcx.generics_of(d).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| esc(p.name.as_str())).collect();
            let j = format!("{{\"id\":{},\"path\":{},\"kind\":\"{}\",\"local\":{},\"generics\":{},\"variants\":{}}}",
                esc(&id), esc(&pstr(self.tcx, d)), k, d.is_local(), arr(&gens), arr(&vs));
            self.st.adts.insert(id.clone(), j);
        }
        id
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", t)));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"n\":{},\"signed\":true,\"bits\":{}", esc(i.name_str()), i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"int\",\"n\":{},\"signed\":false,\"bits\":{}", esc(i.name_str()), i.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(d, a) => { let id = self.adt(d.did()); let a = self.targs(a); format!("\"k\":\"adt\",\"id\":{},\"args\":{}", esc(&id), a) }
            ty::Array(e, n) => { let e = self.ty(*e); format!("\"k\":\"array\",\"el\":{},\"len\":{}", e, opt(n.try_to_target_usize(self.tcx).map(|x| x.to_string()))) }
            ty::Slice(e) => { let e = self.ty(*e); format!("\"k\":\"slice\",\"el\":{}", e) }
            ty::Ref(_, e, m) => { let e = self.ty(*e); format!("\"k\":\"ref\",\"el\":{},\"mut\":{}", e, m.is_mut()) }
            ty::RawPtr(e, m) => { let e = self.ty(*e); format!("\"k\":\"ptr\",\"el\":{},\"mut\":{}", e, m.is_mut()) }
            ty::Tuple(l) => { let v: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect(); format!("\"k\":\"tuple\",\"els\":{}", arr(&v)) }
            ty::FnDef(d, a) => { let a = self.targs(a.skip_binder()); format!("\"k\":\"fndef\",\"id\":{},\"path\":{},\"args\":{}", esc(&uid(self.tcx, *d)), esc(&pstr(self.tcx, *d)), a) }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Closure(d, _) => format!("\"k\":\"closure\",\"id\":{}", esc(&uid(self.tcx, *d))),
            ty::Coroutine(d, _) => format!("\"k\":\"coroutine\",\"id\":{}", esc(&uid(self.tcx, *d))),
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Dynamic(p, ..) => {
                let pr = p.principal_def_id().map(|d| uid(self.tcx, d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", esc(&pr))
            }
            ty::Alias(_, at) => {
                match at.kind {
                    ty::AliasTyKind::Opaque { def_id } => { let a = self.targs(at.args); format!("\"k\":\"opaque\",\"id\":{},\"args\":{}", esc(&uid(self.tcx, def_id.into())), a) }
                    ty::AliasTyKind::Projection { def_id } => { let a = self.targs(at.args); format!("\"k\":\"proj\",\"id\":{},\"args\":{}", esc(&uid(self.tcx, def_id.into())), a) }
                    _ => "\"k\":\"alias\"".to_string(),
                }
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.intern(format!("{{{},\"s\":{}}}", body, esc(&s)))
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(self.decls[p.local.as_usize()].ty);
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, _) => {
                    let (name, adt) = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            (d.variant(vi).fields[i].name.to_string(), esc(&self.adt(d.did())))
                        }
                        _ => (i.as_u32().to_string(), "null".to_string()),
                    };
                    format!("[\"f\",{},{},{}]", i.as_u32(), esc(&name), adt)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, i) => {
                    let (name, adt) = match pt.ty.kind() {
                        ty::Adt(d, _) => (d.variant(i).name.to_string(), esc(&self.adt(d.did()))),
                        _ => (i.as_u32().to_string(), "null".to_string()),
                    };
                    format!("[\"v\",{},{},{}]", i.as_u32(), esc(&name), adt)
                }
                _ => "[\"oc\"]".to_string(),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_u32(), arr(&v))
    }
    fn fnref(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let ta = self.targs(a);
        let mut tr = "null".to_string();
        let mut selfty = "null".to_string();
        if let Some(t) = tcx.trait_of_assoc(d) {
            tr = esc(&uid(tcx, t));
            if a.len() > 0 { if let Some(t) = a[0].as_type() { selfty = self.ty(t).to_string(); } }
        } else if let Some(imp) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate(tcx, a).skip_norm_wip();
            selfty = self.ty(st).to_string();
        }
        let mut res = "null".to_string();
        let mut resp = "null".to_string();
        let mut resa = "null".to_string();
        let ea = tcx.erase_and_anonymize_regions(a);
        if !ea.has_escaping_bound_vars() {
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ty::Instance::try_resolve(tcx, self.env, d, ea)));
            if let Ok(Ok(Some(inst))) = ok {
                let rd = inst.def_id();
                if !rd.is_local() && matches!(tcx.def_kind(rd), DefKind::Fn | DefKind::AssocFn) {
                    let id = uid(tcx, rd);
                    if ["core::option::", "core::result::", "core::bool::", "core::ops::control_flow::"].iter().any(|p| id.starts_with(p)) && self.st.ext_seen.insert(rd) { self.st.ext_todo.push(rd); }
                }
                res = esc(&uid(tcx, rd));
                resp = esc(&pstr(tcx, rd));
                resa = self.targs(inst.args);
            }
        }
        let uns = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => tcx.fn_sig(d).skip_binder().safety().is_unsafe(),
            _ => false,
        };
        let ctor = match tcx.def_kind(d) {
            DefKind::Ctor(of, _) => {
                let parent = tcx.parent(d);
                let (adt, vi) = if matches!(of, rustc_hir::def::CtorOf::Variant) {
                    let ad = tcx.parent(parent);
                    (ad, tcx.adt_def(ad).variant_index_with_id(parent).as_u32())
                } else { (parent, 0) };
                let id = self.adt(adt);
                format!("[{},{}]", esc(&id), vi)
            }
            _ => "null".into(),
        };
        format!("{{\"id\":{},\"path\":{},\"args\":{},\"trait\":{},\"self\":{},\"rid\":{},\"rpath\":{},\"rargs\":{},\"unsafe\":{},\"ctor\":{}}}",
            esc(&uid(tcx, d)), esc(&pstr(tcx, d)), ta, tr, selfty, res, resp, resa, uns, ctor)
    }
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: Option<usize>) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let n = a.len();
                let end = len.map(|l| off + l).unwrap_or(n);
                if end > n { return None; }
                if !a.provenance().ptrs().is_empty() { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            _ => None,
        }
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let ti = self.ty(t);
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let u = i.to_bits(sz);
                let val = if matches!(t.kind(), ty::Int(_)) { format!("{}", sz.sign_extend(u)) } else { format!("{}", u) };
                let k = match t.kind() { ty::Bool => "bool", ty::Char => "char", ty::Int(_) | ty::Uint(_) => "int", _ => "scalar" };
                format!("{{\"k\":\"{}\",\"v\":{},\"ty\":{}}}", k, val, ti)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                if let GlobalAlloc::Static(d) = self.tcx.global_alloc(aid) {
                    return format!("{{\"k\":\"static\",\"id\":{},\"ty\":{}}}", esc(&uid(self.tcx, d)), ti);
                }
                if let GlobalAlloc::Function { instance } = self.tcx.global_alloc(aid) {
                    let f = self.fnref(instance.def_id(), instance.args);
                    return format!("{{\"k\":\"fn\",\"f\":{},\"ty\":{}}}", f, ti);
                }
                if let ty::Ref(_, e, _) = t.kind() {
                    if let ty::Array(el, n) = e.kind() {
                        if *el == self.tcx.types.u8 {
                            if let Some(n) = n.try_to_target_usize(self.tcx) {
                                if let Some(b) = self.alloc_bytes(aid, off.bytes_usize(), Some(n as usize)) {
                                    return format!("{{\"k\":\"bytes\",\"v\":{},\"ty\":{}}}", bytes_json(&b), ti);
                                }
                            }
                        }
                    }
                }
                format!("{{\"k\":\"ptr\",\"ty\":{}}}", ti)
            }
            ConstValue::ZeroSized => {
                if let ty::FnDef(d, a) = t.kind() {
                    let f = self.fnref(*d, a.skip_binder());
                    return format!("{{\"k\":\"fn\",\"f\":{},\"ty\":{}}}", f, ti);
                }
                format!("{{\"k\":\"zst\",\"ty\":{}}}", ti)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let isstr = matches!(t.kind(), ty::Ref(_, e, _) if e.is_str());
                match self.alloc_bytes(alloc_id, 0, Some(meta as usize)) {
                    Some(b) if isstr => format!("{{\"k\":\"str\",\"v\":{},\"ty\":{}}}", esc(&String::from_utf8_lossy(&b)), ti),
                    Some(b) => format!("{{\"k\":\"bytes\",\"v\":{},\"ty\":{}}}", bytes_json(&b), ti),
                    None => format!("{{\"k\":\"slice\",\"ty\":{}}}", ti),
                }
            }
            ConstValue::Indirect { .. } => format!("{{\"k\":\"indirect\",\"ty\":{}}}", ti),
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        match c.const_ {
            Const::Val(v, _) => self.constval(v, t),
            Const::Unevaluated(u, _) => {
                let ti = self.ty(t);
                let a = self.targs(u.args);
                let mut tr = "null".to_string();
                if let Some(t) = self.tcx.trait_of_assoc(u.def) { tr = esc(&uid(self.tcx, t)); }
                // foreign constants are evaluated by the compiler (no crate code is run)
                let mut val = "null".to_string();
                if !u.def.is_local() && u.promoted.is_none() {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(self.tcx, self.env, rustc_span::DUMMY_SP)));
                    if let Ok(Ok(v)) = r { val = self.constval(v, t); }
                }
                format!("{{\"k\":\"unev\",\"id\":{},\"path\":{},\"args\":{},\"trait\":{},\"promoted\":{},\"val\":{},\"ty\":{}}}",
                    esc(&uid(self.tcx, u.def)), esc(&pstr(self.tcx, u.def)), a, tr, opt(u.promoted.map(|p| p.as_u32().to_string())), val, ti)
            }
            Const::Ty(ty, ct) => {
                let ti = self.ty(ty);
                if let Some(n) = ct.try_to_target_usize(self.tcx) { return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", n, ti); }
                if let Some(v) = ct.try_to_value() {
                    if matches!(ty.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)) {
                        if let Some(i) = v.try_to_leaf() { return self.constval(ConstValue::Scalar(Scalar::Int(i)), ty); }
                    }
                    if matches!(ty.kind(), ty::Ref(_, e, _) if e.is_str()) {
                        if let Some(b) = v.try_to_raw_bytes(self.tcx) { return format!("{{\"k\":\"str\",\"v\":{},\"ty\":{}}}", esc(&String::from_utf8_lossy(b)), ti); }
                    }
                }
                format!("{{\"k\":\"constparam\",\"s\":{},\"ty\":{}}}", esc(&format!("{}", ct)), ti)
            }
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c)),
            _ => { let b = self.ty(self.tcx.types.bool); format!("[\"k\",{{\"k\":\"bool\",\"v\":0,\"ty\":{}}}]", b) }
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), opt(n.try_to_target_usize(self.tcx).map(|x| x.to_string()))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", match k { BorrowKind::Mut { .. } => "\"mut\"", BorrowKind::Shared => "\"sh\"", _ => "\"fake\"" }, self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&uid(self.tcx, *d))),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => { let o = self.operand(o); let t = self.ty(*t); let ks = match k { CastKind::IntToInt => "int".to_string(), CastKind::Transmute => "transmute".into(), CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c), k => format!("{:?}", k) }; format!("[\"cast\",{},{},{}]", esc(&ks), o, t) }
            Rvalue::BinaryOp(b, ab) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(&ab.0), self.operand(&ab.1)),
            Rvalue::UnaryOp(u, a) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(a)),
            Rvalue::Discriminant(p) => {
                let mut pt = PlaceTy::from_ty(self.decls[p.local.as_usize()].ty);
                for e in p.projection.iter() { pt = pt.projection_ty(self.tcx, e); }
                let t = pt.ty;
                let a = match t.kind() { ty::Adt(d, _) => esc(&self.adt(d.did())), _ => "null".into() };
                format!("[\"discr\",{},{}]", self.place(p), a)
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, a, _, act) => { let id = self.adt(*d); let a = self.targs(a); format!("[\"adt\",{},{},{},{}]", esc(&id), vi.as_u32(), a, opt(act.map(|x| x.as_u32().to_string()))) }
                    AggregateKind::Closure(d, a) => { let a = self.targs(a); format!("[\"closure\",{},{}]", esc(&uid(self.tcx, *d)), a) },
                    AggregateKind::Coroutine(d, a) => { let a = self.targs(a); format!("[\"coroutine\",{},{}]", esc(&uid(self.tcx, *d)), a) },
                    AggregateKind::CoroutineClosure(d, _) => format!("[\"coroclosure\",{}]", esc(&uid(self.tcx, *d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", k, arr(&v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> String {
        self.decls = b.local_decls.iter().cloned().collect();
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut upnames = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_u32(), v.name.to_string()); }
                else { upnames.push(format!("[{},{}]", self.place(&p), esc(v.name.as_str()))); }
            }
        }
        let mut locs = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locs.push(format!("[{},{}]", t, opt(names.get(&l.as_u32()).map(|x| esc(x)))));
        }
        let mut bbs = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => { let p = self.place(&pr.0); let r = self.rvalue(&pr.1); ss.push(format!("[\"=\",{},{},{}]", p, r, self.span(s.source_info.span))); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); ss.push(format!("[\"sd\",{},{}]", p, variant_index.as_u32())); }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_u32())),
                    StatementKind::Intrinsic(_) => ss.push("[\"intr\"]".into()),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr);
                    let dt = discr.ty(&b.local_decls, self.tcx); let dt = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_u32())).collect();
                    format!("[\"switch\",{},{},{},{}]", o, arr(&v), targets.otherwise().as_u32(), dt)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target.as_u32()),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{},{}]", f, arr(&a), d, opt(target.map(|t| t.as_u32().to_string())), self.span(*fn_span))
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(cond);
                    let m = match &**msg { AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)), AssertKind::Overflow(op, l, r) => format!("[\"overflow\",\"{:?}\",{},{}]", op, self.operand(l), self.operand(r)), AssertKind::DivisionByZero(o) => format!("[\"div0\",{}]", self.operand(o)), AssertKind::RemainderByZero(o) => format!("[\"rem0\",{}]", self.operand(o)), AssertKind::OverflowNeg(_) => "[\"negoverflow\"]".into(), k => format!("[\"other\",{}]", esc(&format!("{:?}", std::mem::discriminant(k)))) };
                    format!("[\"assert\",{},{},{},{}]", c, expected, target.as_u32(), m)
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!("[\"yield\",{},{},{}]", self.operand(value), resume.as_u32(), self.place(resume_arg)),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => "[\"unwind\"]".into(),
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
                TerminatorKind::TailCall { .. } => "[\"tailcall\"]".into(),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"cl\":{}}}", arr(&ss), tj, sp, bb.is_cleanup));
        }
        format!("\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}", b.arg_count, arr(&locs), arr(&upnames), arr(&bbs))
    }
}

fn dump_body(tcx: TyCtxt<'_>, def: LocalDefId) {
    let (m, p) = tcx.mir_promoted(def);
    if m.is_stolen() { return; }
    let m = m.borrow();
    let mut guard = STORE.lock().unwrap();
    let st = guard.get_or_insert_with(Store::default);
    let did = def.to_def_id();
    let env = TypingEnv::post_analysis(tcx, did);
    let env = if tcx.is_typeck_child(did) { let _ = env; TypingEnv::non_body_analysis(tcx, did) } else { TypingEnv::non_body_analysis(tcx, did) };
    let mut cx = Cx { tcx, st, env, decls: Vec::new() };
    let kind = tcx.def_kind(did);
    let b = cx.body(&m);
    let mut proms = vec![];
    { let p = p.borrow(); for pb in p.iter() { let j = cx.body(pb); proms.push(format!("{{{}}}", j)); } }
    let mut gens = vec![];
    let mut g = Some(tcx.generics_of(tcx.typeck_root_def_id(did)));
    while let Some(gg) = g {
        for q in &gg.own_params { if !matches!(q.kind, ty::GenericParamDefKind::Lifetime) { gens.push((q.index, q.name.to_string())); } }
        g = gg.parent.map(|p| tcx.generics_of(p));
    }
    gens.sort();
    let gens: Vec<String> = gens.iter().map(|(_, n)| esc(n)).collect();
    let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn);
    let (uns, asy, vis) = if is_fn {
        (tcx.fn_sig(did).skip_binder().safety().is_unsafe(), tcx.asyncness(did).is_async(), format!("{:?}", tcx.visibility(did)))
    } else { (false, false, String::new()) };
    let reach = is_fn && tcx.effective_visibilities(()).is_exported(def);
    let cor = match tcx.coroutine_kind(did) { Some(k) => esc(&format!("{:?}", k)), None => "null".into() };
    let parent = tcx.opt_parent(did).map(|d| esc(&uid(tcx, d)));
    let imp = if is_fn { tcx.impl_of_assoc(did).map(|d| esc(&uid(tcx, d))) } else { None };
    let sp = cx.span(tcx.def_span(did));
    let auto = tcx.impl_of_assoc(did).map(|d| tcx.is_automatically_derived(d)).unwrap_or(false);
    let j = format!("{{\"id\":{},\"name\":{},\"kind\":{},\"parent\":{},\"impl\":{},\"derived\":{},\"generics\":{},\"unsafe\":{},\"async\":{},\"coroutine\":{},\"vis\":{},\"exported\":{},\"sp\":{},{},\"promoted\":{}}}",
        esc(&uid(tcx, did)), esc(&pstr(tcx, did)), esc(&format!("{:?}", kind)), opt(parent), opt(imp), auto, arr(&gens), uns, asy, cor, esc(&vis), reach, sp, b, arr(&proms));
    st_push(st, j);
}
// Bodies of the standard library's own Option/Result/bool combinators, read from the compiled
// standard library, so that the analysis need not model each of them by hand.
fn dump_ext(tcx: TyCtxt<'_>) {
    loop {
        let did = { let mut g = STORE.lock().unwrap(); match g.as_mut().and_then(|s| s.ext_todo.pop()) { Some(d) => d, None => return } };
        if !tcx.is_mir_available(did) { continue; }
        let m = tcx.optimized_mir(did);
        let mut guard = STORE.lock().unwrap();
        let st = guard.as_mut().unwrap();
        let mut cx = Cx { tcx, st, env: TypingEnv::non_body_analysis(tcx, did), decls: Vec::new() };
        let b = cx.body(m);
        let mut gens = vec![];
        let mut g = Some(tcx.generics_of(did));
        while let Some(gg) = g {
            for q in &gg.own_params { if !matches!(q.kind, ty::GenericParamDefKind::Lifetime) { gens.push((q.index, q.name.to_string())); } }
            g = gg.parent.map(|p| tcx.generics_of(p));
        }
        gens.sort();
        let gens: Vec<String> = gens.iter().map(|(_, n)| esc(n)).collect();
        let imp = tcx.impl_of_assoc(did).map(|d| esc(&uid(tcx, d)));
        let j = format!("{{\"id\":{},\"name\":{},\"kind\":\"Ext\",\"parent\":null,\"impl\":{},\"derived\":false,\"generics\":{},\"unsafe\":false,\"async\":false,\"coroutine\":null,\"vis\":\"\",\"exported\":false,\"sp\":\"std\",{},\"promoted\":[]}}",
            esc(&uid(tcx, did)), esc(&pstr(tcx, did)), opt(imp), arr(&gens), b);
        st_push(st, j);
    }
}
fn st_push(st: &mut Store, j: String) { st.bodies.push(j); }

struct UnsafeFinder<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(String, String, Span)>, cur: String }
impl<'tcx> Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
            self.out.push(("block".into(), uid(self.tcx, owner.to_def_id()), b.span));
        }
        intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        let d = i.owner_id.to_def_id();
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait { if t.safety.is_unsafe() { self.out.push(("impl".into(), uid(self.tcx, d), i.span)); } }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => self.out.push(("extern".into(), uid(self.tcx, d), i.span)),
            rustc_hir::ItemKind::Static(m, ..) if m.is_mut() => self.out.push(("static_mut".into(), uid(self.tcx, d), i.span)),
            rustc_hir::ItemKind::Trait { safety, .. } if safety.is_unsafe() => self.out.push(("trait".into(), uid(self.tcx, d), i.span)),
            _ => {}
        }
        intravisit::walk_item(self, i);
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.always_encode_mir = false;
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        // force type checking errors first
        let _ = tcx.hir_crate_items(());
        for d in tcx.hir_body_owners() {
            let kind = tcx.def_kind(d.to_def_id());
            if matches!(kind, DefKind::AnonConst) { continue; }
            dump_body(tcx, d);
        }
        dump_ext(tcx);
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut guard = STORE.lock().unwrap();
        let st = guard.get_or_insert_with(Store::default);
        let mut impls = vec![];
        let mut traits = vec![];
        let mut items = vec![];
        let mut cx = Cx { tcx, st, env: TypingEnv::fully_monomorphized(), decls: Vec::new() };
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let (tr, ta) = match tcx.impl_opt_trait_ref(d) {
                        Some(t) => { let t = t.instantiate_identity().skip_norm_wip(); (esc(&uid(tcx, t.def_id)), cx.targs(t.args)) }
                        None => ("null".into(), "[]".into()),
                    };
                    let mut its = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let mut ty = "null".to_string();
                        if it.is_type() { let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip(); ty = cx.ty(t).to_string(); }
                        its.push(format!("{{\"name\":{},\"id\":{},\"kind\":{},\"ty\":{}}}", esc(it.name().as_str()), esc(&uid(tcx, it.def_id)), esc(it.tag().descr()), ty));
                    }
                    let gens: Vec<String> = tcx.generics_of(d).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| esc(p.name.as_str())).collect();
                    impls.push(format!("{{\"id\":{},\"trait\":{},\"targs\":{},\"self\":{},\"derived\":{},\"generics\":{},\"items\":{},\"sp\":{}}}", esc(&uid(tcx, d)), tr, ta, sti, tcx.is_automatically_derived(d), arr(&gens), arr(&its), cx.span(tcx.def_span(d))));
                }
                DefKind::Trait => {
                    let mut its = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        its.push(format!("{{\"name\":{},\"id\":{},\"default\":{},\"kind\":{}}}", esc(it.name().as_str()), esc(&uid(tcx, it.def_id)), it.defaultness(tcx).has_value(), esc(it.tag().descr())));
                    }
                    traits.push(format!("{{\"id\":{},\"items\":{}}}", esc(&uid(tcx, d)), arr(&its)));
                }
                DefKind::Struct | DefKind::Enum => { cx.adt(d); }
                _ => {}
            }
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Fn | DefKind::Trait | DefKind::Mod | DefKind::Const{..} | DefKind::Static{..} | DefKind::AssocFn | DefKind::TyAlias) {
                items.push(format!("{{\"id\":{},\"path\":{},\"kind\":{},\"exported\":{},\"sp\":{}}}", esc(&uid(tcx, d)), esc(&pstr(tcx, d)), esc(&format!("{:?}", k)), tcx.effective_visibilities(()).is_exported(id), cx.span(tcx.def_span(d))));
            }
        }
        let mut uf = UnsafeFinder { tcx, out: vec![], cur: String::new() };
        tcx.hir_walk_toplevel_module(&mut uf);
        let uns: Vec<String> = uf.out.iter().map(|(k, o, s)| format!("{{\"kind\":{},\"owner\":{},\"sp\":{}}}", esc(k), esc(o), cx.span(*s))).collect();
        let _ = &uf.cur;
        let st = &*cx.st;
        let adts: Vec<String> = st.adt_order.iter().map(|k| st.adts[k].clone()).collect();
        let out = format!("{{\"crate\":{},\n\"types\":{},\n\"adts\":{},\n\"impls\":{},\n\"traits\":{},\n\"items\":{},\n\"unsafe\":{},\n\"bodies\":[\n{}\n]}}\n",
            esc(tcx.crate_name(LOCAL_CRATE).as_str()), arr(&st.types), arr(&adts), arr(&impls), arr(&traits), arr(&items), arr(&uns), st.bodies.join(",\n"));
        let p = std::env::var("HB_OUT").expect("HB_OUT");
        std::fs::write(&p, out).expect("write facts");
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let want = std::env::var("HB_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) && !args.iter().any(|a| a == "--test" || a.starts_with("--print"));
    if is { rustc_driver::compiler_entrypoint(&args, &mut Cb); } else { rustc_driver::compiler_entrypoint(&args, &mut Nop); }
}
