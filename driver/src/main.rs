//! MIR dumper: a rustc driver that runs as a RUSTC_WRAPPER for the crates of
//! interest and writes, per crate, a JSON description of the type-checked
//! program: monomorphic MIR bodies reachable from the crate's own functions,
//! resolved callees, type table, items and spans.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_ast::attr::AttributeExt;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

macro_rules! np { ($e:expr) => { with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!($e))) } }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    bodies: Vec<String>,
}

fn external_ok(path: &str) -> bool {
    // library functions whose own MIR may be inlined by the analysis
    const P: &[&str] = &[
        "core::option::", "core::result::", "core::cmp::", "core::num::", "core::bool::",
        "core::ops::", "core::convert::", "core::mem::replace", "core::mem::take", "core::mem::swap",
        "core::tuple::", "core::iter::traits::iterator::Iterator::", "core::default::", "core::clone::",
        "core::borrow::", "core::hash::", "core::array::", "core::iter::adapters::", "core::slice::",
        "alloc::slice::", "alloc::vec::", "rand_core::", "bitreader::", "core::iter::",
    ];
    let t = path.trim_start_matches('<').trim_start_matches('&');
    P.iter().any(|p| t.starts_with(p)) || path.contains(" as core::") && !path.contains("fmt")
}

impl<'tcx> Dump<'tcx> {
    fn inst_key(&self, inst: Instance<'tcx>) -> String {
        let d = inst.def_id();
        let base = np!(self.tcx.def_path_str_with_args(d, inst.args));
        match inst.def {
            InstanceKind::Item(_) => base,
            other => {
                let k = format!("{:?}", other);
                let k = k.split('(').next().unwrap_or("").to_string();
                format!("{}#{}", base, k)
            }
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.tymap.insert(t, i);
        let tcx = self.tcx;
        let s = match t.kind() {
            TyKind::Bool => r#"{"k":"bool"}"#.to_string(),
            TyKind::Char => r#"{"k":"char"}"#.to_string(),
            TyKind::Int(x) => format!(r#"{{"k":"int","bits":{}}}"#, x.bit_width().unwrap_or(64)),
            TyKind::Uint(x) => format!(r#"{{"k":"uint","bits":{},"name":{}}}"#, x.bit_width().unwrap_or(64), esc(x.name_str())),
            TyKind::Float(x) => format!(r#"{{"k":"float","bits":{}}}"#, x.bit_width()),
            TyKind::Str => r#"{"k":"str"}"#.to_string(),
            TyKind::Never => r#"{"k":"never"}"#.to_string(),
            TyKind::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(tcx);
                format!(r#"{{"k":"array","elem":{},"len":{}}}"#, e, n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            TyKind::Slice(e) => { let e = self.ty(*e); format!(r#"{{"k":"slice","elem":{}}}"#, e) }
            TyKind::RawPtr(e, m) => { let e = self.ty(*e); format!(r#"{{"k":"ptr","to":{},"mut":{}}}"#, e, m.is_mut()) }
            TyKind::Ref(_, e, m) => { let e = self.ty(*e); format!(r#"{{"k":"ref","to":{},"mut":{}}}"#, e, m.is_mut()) }
            TyKind::Tuple(es) => { let v: Vec<String> = es.iter().map(|e| self.ty(e).to_string()).collect(); format!(r#"{{"k":"tuple","fields":[{}]}}"#, v.join(",")) }
            TyKind::Adt(def, args) => {
                let path = np!(tcx.def_path_str(def.did()));
                let a: Vec<String> = args.types().map(|e| self.ty(e).to_string()).collect();
                let ca: Vec<String> = args.consts().map(|c| c.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())).collect();
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = Vec::new();
                let expand = def.did().is_local() || def.is_enum() || !path.starts_with("alloc::") && !path.starts_with("std::") && !path.starts_with("hashbrown");
                if expand {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let fty = f.ty(tcx, args).skip_norm_wip();
                            let te = TypingEnv::fully_monomorphized();
                            let fty = if fty.has_param() { fty } else {
                                tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(fty)).unwrap_or(fty) };
                            let fi = self.ty(fty);
                            let vis = match f.vis { ty::Visibility::Public => "pub", _ => "restricted" };
                            fs.push(format!(r#"{{"name":{},"ty":{},"vis":"{}"}}"#, esc(f.name.as_str()), fi, vis));
                        }
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        vs.push(format!(r#"{{"name":{},"discr":{},"fields":[{}]}}"#, esc(v.name.as_str()), discr, fs.join(",")));
                    }
                }
                format!(r#"{{"k":"adt","kind":"{}","path":{},"args":[{}],"cargs":[{}],"expanded":{},"variants":[{}]}}"#, kind, esc(&path), a.join(","), ca.join(","), expand, vs.join(","))
            }
            TyKind::FnDef(did, args) => {
                let args = args.skip_binder();
                let path = np!(tcx.def_path_str(*did));
                let a: Vec<String> = args.types().map(|e| self.ty(e).to_string()).collect();
                format!(r#"{{"k":"fndef","path":{},"args":[{}]}}"#, esc(&path), a.join(","))
            }
            TyKind::Closure(did, args) => {
                let inst = Instance::new_raw(*did, args);
                let key = self.inst_key(inst);
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|e| self.ty(e).to_string()).collect();
                format!(r#"{{"k":"closure","key":{},"upvars":[{}],"kind":{}}}"#, esc(&key), ups.join(","),
                    esc(&format!("{:?}", args.as_closure().kind_ty())))
            }
            TyKind::FnPtr(..) => r#"{"k":"fnptr"}"#.to_string(),
            TyKind::Dynamic(..) => format!(r#"{{"k":"dyn","str":{}}}"#, esc(&np!(t.to_string()))),
            TyKind::Param(p) => format!(r#"{{"k":"param","name":{}}}"#, esc(p.name.as_str())),
            _ => format!(r#"{{"k":"other","str":{}}}"#, esc(&np!(t.to_string()))),
        };
        let name = np!(t.to_string());
        let s = format!("{},\"s\":{}}}", &s[..s.len() - 1], esc(&name));
        self.tys[i] = s;
        i
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let cs = sp.source_callsite();
        let c = sm.lookup_char_pos(cs.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        let cf = format!("{}", c.file.name.prefer_remapped_unconditionally());
        format!("[{},{},{},{}]", esc(&f), lo.line, esc(&cf), c.line)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => r#"["deref"]"#.to_string(),
                ProjectionElem::Field(f, t) => format!(r#"["field",{},{}]"#, f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!(r#"["index",{}]"#, l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["cindex",{},{},{}]"#, offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["subslice",{},{},{}]"#, from, to, from_end),
                ProjectionElem::Downcast(n, i) => format!(r#"["downcast",{},{}]"#, i.index(), esc(n.map(|x| x.to_string()).unwrap_or_default().as_str())),
                _ => r#"["cast"]"#.to_string(),
            });
        }
        format!("[{},[{}]]", p.local.index(), v.join(","))
    }

    fn read_alloc(&mut self, aid: AllocId, off: u64, t: Ty<'tcx>, te: TypingEnv<'tcx>, depth: u32) -> Option<String> {
        if depth > 6 { return None; }
        let tcx = self.tcx;
        let GlobalAlloc::Memory(alloc) = tcx.try_get_global_alloc(aid)? else { return None };
        let alloc = alloc.inner();
        let lay = tcx.layout_of(te.as_query_input(t)).ok()?;
        let bytes_at = |o: u64, n: u64| -> Option<Vec<u8>> {
            let r = (o as usize)..((o + n) as usize);
            if r.end > alloc.len() { return None; }
            Some(alloc.inspect_with_uninit_and_ptr_outside_interpreter(r).to_vec())
        };
        match t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => {
                let b = bytes_at(off, lay.size.bytes())?;
                let mut v: u128 = 0;
                for (i, x) in b.iter().enumerate() { v |= (*x as u128) << (8 * i); }
                Some(format!(r#"{{"int":"{}"}}"#, v))
            }
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                if n > 4096 { return None; }
                let el = tcx.layout_of(te.as_query_input(*e)).ok()?;
                let mut v = Vec::new();
                for i in 0..n { v.push(self.read_alloc(aid, off + i * el.size.bytes(), *e, te, depth + 1)?); }
                Some(format!(r#"{{"seq":[{}]}}"#, v.join(",")))
            }
            TyKind::Adt(d, _) if d.is_enum() => {
                self.destructured(ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off) }, t, te, depth)
            }
            TyKind::Tuple(_) | TyKind::Adt(..) => {
                let ftys: Vec<Ty<'tcx>> = match t.kind() {
                    TyKind::Tuple(es) => es.iter().collect(),
                    TyKind::Adt(d, a) if d.is_struct() => d.non_enum_variant().fields.iter().map(|f| {
                        let x = f.ty(tcx, a);
                        tcx.try_normalize_erasing_regions(te, x).unwrap_or(x.skip_norm_wip()) }).collect(),
                    _ => return None,
                };
                let mut v = Vec::new();
                for (i, f) in ftys.iter().enumerate() {
                    let o = lay.fields.offset(i).bytes();
                    v.push(self.read_alloc(aid, off + o, *f, te, depth + 1)?);
                }
                Some(format!(r#"{{"agg":[{}]}}"#, v.join(",")))
            }
            TyKind::Ref(_, inner, _) => {
                let prov = alloc.provenance().get_ptr(rustc_abi::Size::from_bytes(off))?;
                let b = bytes_at(off, 8)?;
                let mut o: u64 = 0;
                for (i, x) in b.iter().enumerate() { o |= (*x as u64) << (8 * i); }
                let target = prov.alloc_id();
                match inner.kind() {
                    TyKind::Str | TyKind::Slice(_) => {
                        let b = bytes_at(off + 8, 8)?;
                        let mut n: u64 = 0;
                        for (i, x) in b.iter().enumerate() { n |= (*x as u64) << (8 * i); }
                        let x = self.read_slice(target, o, n, *inner, te, depth + 1)?;
                        Some(format!(r#"{{"ref":{}}}"#, x))
                    }
                    _ => {
                        let x = self.read_alloc(target, o, *inner, te, depth + 1)?;
                        Some(format!(r#"{{"ref":{}}}"#, x))
                    }
                }
            }
            _ => None,
        }
    }

    /// an enum value: its variant and the values of its fields
    fn destructured(&mut self, cv: ConstValue, t: Ty<'tcx>, te: TypingEnv<'tcx>, depth: u32) -> Option<String> {
        if depth > 6 || t.has_param() { return None; }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(cv, t)?;
        let var = d.variant?;
        let mut v = Vec::new();
        for (fv, ft) in d.fields.iter() { v.push(self.constval(*fv, *ft, te, depth + 1)?); }
        Some(format!(r#"{{"variant":{},"agg":[{}]}}"#, var.index(), v.join(",")))
    }

    fn constval(&mut self, cv: ConstValue, t: Ty<'tcx>, te: TypingEnv<'tcx>, depth: u32) -> Option<String> {
        let tcx = self.tcx;
        match cv {
            ConstValue::ZeroSized => Some(r#"{"zst":true}"#.to_string()),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let v = i.to_bits(i.size());
                match t.kind() {
                    TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) =>
                        Some(format!(r#"{{"int":"{}"}}"#, v)),
                    TyKind::Adt(d, _) if d.is_enum() => match self.destructured(cv, t, te, depth) {
                        Some(s) => Some(s),
                        None => Some(format!(r#"{{"enumbits":"{}"}}"#, v)),
                    },
                    TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..) => Some(format!(r#"{{"scalar":"{}"}}"#, v)),
                    _ => None,
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                if let TyKind::Adt(d, _) = t.kind() { if d.is_enum() { return self.destructured(cv, t, te, depth); } }
                let inner = match t.kind() { TyKind::Ref(_, i, _) => *i, _ => return None };
                if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(aid) {
                    return Some(format!(r#"{{"static":{}}}"#, esc(&np!(tcx.def_path_str(d)))));
                }
                let x = self.read_alloc(aid, off.bytes(), inner, te, depth)?;
                Some(format!(r#"{{"ref":{}}}"#, x))
            }
            ConstValue::Slice { alloc_id, meta } => {
                let inner = match t.kind() { TyKind::Ref(_, i, _) => *i, _ => return None };
                let x = self.read_slice(alloc_id, 0, meta, inner, te, depth)?;
                Some(format!(r#"{{"ref":{}}}"#, x))
            }
            ConstValue::Indirect { alloc_id, offset } => self.read_alloc(alloc_id, offset.bytes(), t, te, depth),
        }
    }

    fn read_slice(&mut self, aid: AllocId, off: u64, n: u64, t: Ty<'tcx>, te: TypingEnv<'tcx>, depth: u32) -> Option<String> {
        let tcx = self.tcx;
        match t.kind() {
            TyKind::Str => {
                let GlobalAlloc::Memory(alloc) = tcx.try_get_global_alloc(aid)? else { return None };
                let alloc = alloc.inner();
                let r = (off as usize)..((off + n) as usize);
                if r.end > alloc.len() { return None; }
                let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(r);
                Some(format!(r#"{{"str":{}}}"#, esc(&String::from_utf8_lossy(b))))
            }
            TyKind::Slice(e) => {
                if n > 4096 { return None; }
                let el = tcx.layout_of(te.as_query_input(*e)).ok()?;
                let mut v = Vec::new();
                for i in 0..n { v.push(self.read_alloc(aid, off + i * el.size.bytes(), *e, te, depth + 1)?); }
                Some(format!(r#"{{"seq":[{}]}}"#, v.join(",")))
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, te: TypingEnv<'tcx>, sp: Span) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let tcx = self.tcx;
        match t.kind() {
            TyKind::FnDef(did, args) => {
                let r = self.resolve(*did, args.skip_binder(), te);
                return format!(r#"["const",{},{{"fn":{}}}]"#, ti, r);
            }
            TyKind::Closure(did, args) => {
                let inst = Instance::new_raw(*did, args);
                let k = self.enqueue(inst, te);
                return format!(r#"["const",{},{{"closure":{}}}]"#, ti, esc(&k));
            }
            _ => {}
        }
        let generic = c.has_param();
        let _ = generic;
        let v: Option<String> = (|| {
            let cv = c.eval(tcx, te, sp).ok()?;
            self.constval(cv, t, te, 0)
        })();
        let s = np!(format!("{}", c));
        match v {
            Some(v) => format!(r#"["const",{},{}]"#, ti, v),
            None => format!(r#"["const",{},{{"opaque":{}}}]"#, ti, esc(&s)),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, te: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["copy",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["move",{}]"#, self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_, te, c.span),
            _ => r#"["runtimecheck"]"#.to_string(),
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, te: TypingEnv<'tcx>) -> String {
        let k = self.inst_key(inst);
        if self.seen.contains(&k) { return k; }
        self.seen.insert(k.clone());
        self.queue.push_back((k.clone(), inst, te));
        k
    }

    /// JSON describing a callee: declared path, resolved key, generic args
    fn resolve(&mut self, did: DefId, args: GenericArgsRef<'tcx>, te: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let path = np!(tcx.def_path_str(did));
        let full = np!(tcx.def_path_str_with_args(did, args));
        let a: Vec<String> = args.types().map(|e| self.ty(e).to_string()).collect();
        let krate = tcx.crate_name(did.krate).to_string();
        let args2 = tcx.erase_and_anonymize_regions(args);
        let r = Instance::try_resolve(tcx, te, did, args2).ok().flatten();
        let (key, rpath, local) = match r {
            Some(inst) => {
                let k = self.enqueue(inst, te);
                (esc(&k), esc(&np!(tcx.def_path_str(inst.def_id()))), tcx.crate_name(inst.def_id().krate).to_string())
            }
            None => ("null".to_string(), "null".to_string(), krate.clone()),
        };
        let sig: Vec<String> = if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) && !args2.has_escaping_bound_vars() {
            let s = tcx.fn_sig(did).instantiate(tcx, args2).skip_norm_wip();
            let s = tcx.instantiate_bound_regions_with_erased(s);
            s.inputs_and_output.iter().map(|t| { let u = tcx.try_normalize_erasing_regions(te, rustc_middle::ty::Unnormalized::new_wip(t)).unwrap_or(t); self.ty(u).to_string() }).collect()
        } else { vec![] };
        let tr = tcx.trait_of_assoc(did).map(|t| esc(&np!(tcx.def_path_str(t)))).unwrap_or("null".into());
        format!(r#"{{"path":{},"full":{},"key":{},"rpath":{},"targs":[{}],"crate":{},"rcrate":{},"trait":{},"sig":[{}]}}"#,
            esc(&path), esc(&full), key, rpath, a.join(","), esc(&krate), esc(&local), tr, sig.join(","))
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, te: TypingEnv<'tcx>) -> String {
        match rv {
            Rvalue::Use(o, ..) => format!(r#"["use",{}]"#, self.operand(o, te)),
            Rvalue::Repeat(o, n) => format!(r#"["repeat",{},{}]"#, self.operand(o, te), n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Ref(_, bk, p) => format!(r#"["ref",{},{}]"#, matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!(r#"["rawptr",{},{}]"#, esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!(r#"["tls",{}]"#, esc(&np!(self.tcx.def_path_str(*d)))),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, te);
                let t = self.ty(*t);
                format!(r#"["cast",{},{},{}]"#, esc(&format!("{:?}", k)), o, t)
            }
            Rvalue::BinaryOp(op, b) => format!(r#"["bin",{},{},{}]"#, esc(&format!("{:?}", op)), self.operand(&b.0, te), self.operand(&b.1, te)),
            Rvalue::UnaryOp(op, o) => format!(r#"["un",{},{}]"#, esc(&format!("{:?}", op)), self.operand(o, te)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let vs: Vec<String> = ops.iter().map(|o| self.operand(o, te)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => format!(r#"["array",{}]"#, self.ty(*t)),
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => format!(r#"["adt",{},{}]"#, esc(&np!(self.tcx.def_path_str(*d))), v.index()),
                    AggregateKind::Closure(d, a) => {
                        let inst = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*a));
                        let key = self.enqueue(inst, te);
                        format!(r#"["closure",{}]"#, esc(&key))
                    }
                    _ => r#"["other"]"#.to_string(),
                };
                format!(r#"["agg",{},[{}]]"#, k, vs.join(","))
            }
            Rvalue::CopyForDeref(p) => format!(r#"["use",["copy",{}]]"#, self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!(r#"["ref",{},{}]"#, m.is_mut(), self.place(p)),
            _ => format!(r#"["other",{}]"#, esc(&format!("{:?}", rv))),
        }
    }

    fn body(&mut self, key: &str, inst: Instance<'tcx>, te: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let def = inst.def;
        let did = inst.def_id();
        let path = np!(tcx.def_path_str(did));
        let local = did.is_local();
        let krate = tcx.crate_name(did.krate).to_string();
        match def {
            InstanceKind::Item(d) => {
                if tcx.is_foreign_item(d) || tcx.intrinsic(d).is_some() { return; }
                if !tcx.is_mir_available(d) { return; }
                if !local && krate != "xorf" && krate != "keyword_pir_lwe" && !external_ok(&path) && !external_ok(key) { return; }
            }
            _ => return,
        }
        let b = tcx.instance_mir(def);
        let b: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, b.clone())) {
            Ok(b) => b,
            Err(_) => return,
        };
        let mut locals = Vec::new();
        for (_, d) in b.local_decls.iter_enumerated() {
            locals.push(self.ty(d.ty).to_string());
        }
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = Vec::new();
        for (_, bd) in b.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &bd.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1, te);
                        st.push(format!(r#"["assign",{},{},{}]"#, p, r, self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!(r#"["setdiscr",{},{}]"#, p, variant_index.index()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!(r#"["dead",{}]"#, l.index())),
                    StatementKind::Intrinsic(i) => st.push(format!(r#"["intrinsic",{}]"#, esc(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bd.terminator();
            let sp = self.span(t.source_info.span);
            let uw = |_u: &UnwindAction| String::new();
            let _ = uw;
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, te);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!(r#"["{}",{}]"#, v, b.index())).collect();
                    format!(r#"["switch",{},[{}],{},{}]"#, o, v.join(","), targets.otherwise().index(), dt)
                }
                TerminatorKind::Return => r#"["return"]"#.to_string(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    let dt = place.ty(&b.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!(r#"["drop",{},{},{}]"#, p, target.index(), dt)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, te);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, te)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!(r#"["call",{},[{}],{},{},{}]"#, f, a.join(","), d, target.map(|x| x.index().to_string()).unwrap_or("null".into()), dt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, te);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(r#"["bounds",{},{}]"#, self.operand(len, te), self.operand(index, te)),
                        AssertKind::Overflow(op, a, b) => format!(r#"["overflow",{},{},{}]"#, esc(&format!("{:?}", op)), self.operand(a, te), self.operand(b, te)),
                        AssertKind::OverflowNeg(a) => format!(r#"["overflow","Neg",{}]"#, self.operand(a, te)),
                        AssertKind::DivisionByZero(a) => format!(r#"["divzero",{}]"#, self.operand(a, te)),
                        AssertKind::RemainderByZero(a) => format!(r#"["divzero",{}]"#, self.operand(a, te)),
                        x => format!(r#"["other",{}]"#, esc(&format!("{:?}", x))),
                    };
                    format!(r#"["assert",{},{},{},{}]"#, c, expected, m, target.index())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!(r#"["goto",{}]"#, real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!(r#"["goto",{}]"#, real_target.index()),
                TerminatorKind::UnwindResume => r#"["resume"]"#.to_string(),
                TerminatorKind::UnwindTerminate(_) => r#"["abort"]"#.to_string(),
                TerminatorKind::InlineAsm { .. } => r#"["asm"]"#.to_string(),
                x => format!(r#"["other",{}]"#, esc(&format!("{:?}", x))),
            };
            blocks.push(format!(r#"{{"s":[{}],"t":{},"sp":{},"cleanup":{}}}"#, st.join(","), ts, sp, bd.is_cleanup));
        }
        let dk = tcx.def_kind(did);
        let vis = if local && !matches!(dk, DefKind::Closure) { if tcx.visibility(did).is_public() { "pub" } else { "priv" } } else { "?" };
        let reach = if let Some(l) = did.as_local() { tcx.effective_visibilities(()).is_reachable(l) } else { false };
        let is_unsafe = matches!(dk, DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        let parent_impl = tcx.impl_of_assoc(did).and_then(|i| if tcx.def_kind(i) == (DefKind::Impl { of_trait: true }) { Some(tcx.impl_trait_ref(i)) } else { None })
            .map(|t| esc(&np!(t.skip_binder().to_string()))).unwrap_or("null".into());
        let derived = tcx.impl_of_assoc(did).map(|i| tcx.is_builtin_derived(i)).unwrap_or(false);
        let cst = if matches!(dk, DefKind::Closure) || !tcx.is_const_fn(did) { false } else { true };
        let out = format!(
            r#"{{"key":{},"path":{},"crate":{},"local":{},"kind":{},"argc":{},"locals":[{}],"names":[{}],"span":{},"vis":"{}","reachable":{},"unsafe":{},"constfn":{},"trait":{},"derived":{},"generic":{},"blocks":[{}]}}"#,
            esc(key), esc(&path), esc(&krate), local, esc(&format!("{:?}", dk)), b.arg_count, locals.join(","), names.join(","),
            self.span(tcx.def_span(did)), vis, reach, is_unsafe, cst, parent_impl, derived, inst.args.has_param(), blocks.join(",\n")
        );
        self.bodies.push(out);
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        let mut items = Vec::new();
        let mut unsafe_blocks = Vec::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            let dk = tcx.def_kind(did);
            let path = match dk { DefKind::Use | DefKind::ForeignMod | DefKind::GlobalAsm | DefKind::Impl { .. } => format!("{:?}", did), _ => np!(tcx.def_path_str(did)) };
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => {
                    let g = tcx.generics_of(did);
                    let _ = g;
                    if matches!(dk, DefKind::Closure) { continue; }
                    if matches!(dk, DefKind::AssocFn) {
                        if !tcx.is_mir_available(did) { 
                            items.push(format!(r#"{{"kind":"TraitFnDecl","path":{}}}"#, esc(&path)));
                            continue; }
                    }
                    if !tcx.is_mir_available(did) { continue; }
                    let args = GenericArgs::identity_for_item(tcx, did);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let mono = !args.has_param();
                    let te = if mono { TypingEnv::fully_monomorphized() } else { TypingEnv::post_analysis(tcx, did) };
                    let inst = Instance::new_raw(did, args);
                    let k = self.enqueue(inst, te);
                    let vis = if tcx.visibility(did).is_public() { "pub" } else { "priv" };
                    let reach = tcx.effective_visibilities(()).is_reachable(ld);
                    items.push(format!(r#"{{"kind":"{}","path":{},"key":{},"mono":{},"vis":"{}","reachable":{},"span":{}}}"#,
                        if matches!(dk, DefKind::Fn) { "Fn" } else if matches!(dk, DefKind::AssocFn) { "AssocFn" } else { "Ctor" }, esc(&path), esc(&k), mono, vis, reach, self.span(tcx.def_span(did))));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let ti = self.ty(t);
                    let reach = tcx.effective_visibilities(()).is_reachable(ld);
                    let mut sattrs = Vec::new();
                    if let Some(l) = did.as_local() {
                        for a in tcx.hir_attrs(tcx.local_def_id_to_hir_id(l)) { sattrs.push(esc(&format!("{:?}", a.path()))); }
                    }
                    items.push(format!(r#"{{"kind":"Adt","path":{},"ty":{},"reachable":{},"attrs":[{}],"span":{}}}"#, esc(&path), ti, reach, sattrs.join(","), self.span(tcx.def_span(did))));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(tcx.erase_and_anonymize_regions(t));
                    items.push(format!(r#"{{"kind":"Static","path":{},"mut":{},"ty":{},"span":{}}}"#, esc(&path), mutability.is_mut(), ti, self.span(tcx.def_span(did))));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let mut val = "null".to_string();
                    let args = GenericArgs::identity_for_item(tcx, did);
                    if !args.has_param() && matches!(dk, DefKind::Const { .. }) {
                        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                        let c = mir::Const::Unevaluated(mir::UnevaluatedConst::new(did, args), t);
                        val = self.constant(&c, TypingEnv::fully_monomorphized(), tcx.def_span(did));
                    }
                    items.push(format!(r#"{{"kind":"Const","path":{},"value":{},"span":{}}}"#, esc(&path), val, self.span(tcx.def_span(did))));
                }
                DefKind::Impl { .. } => {
                    let tr = if matches!(dk, DefKind::Impl { of_trait: true }) { esc(&np!(tcx.impl_trait_ref(did).skip_binder().to_string())) } else { "null".into() };
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    items.push(format!(r#"{{"kind":"Impl","trait":{},"self":{},"derived":{},"span":{}}}"#, tr, esc(&np!(st.to_string())), tcx.is_builtin_derived(did), self.span(tcx.def_span(did))));
                }
                DefKind::Trait => items.push(format!(r#"{{"kind":"Trait","path":{}}}"#, esc(&path))),
                DefKind::Macro(_) | DefKind::Mod => items.push(format!(r#"{{"kind":"{}","path":{}}}"#, if matches!(dk, DefKind::Mod) { "Mod" } else { "Macro" }, esc(&path))),
                DefKind::ExternCrate => {
                    let n = did.as_local().and_then(|l| tcx.extern_mod_stmt_cnum(l)).map(|c| tcx.crate_name(c).to_string()).unwrap_or_default();
                    items.push(format!(r#"{{"kind":"ExternCrate","path":{},"crate":{}}}"#, esc(&path), esc(&n)));
                }
                DefKind::ForeignMod => items.push(format!(r#"{{"kind":"ForeignMod","path":{}}}"#, esc(&path))),
                _ => {}
            }
        }
        // unsafe blocks
        struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<Span> }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules { self.out.push(b.span); }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let mut spans = Vec::new();
        tcx.hir_visit_all_item_likes_in_crate(&mut V { tcx, out: &mut spans });
        for s in spans { unsafe_blocks.push(self.span(s)); }

        while let Some((k, inst, te)) = self.queue.pop_front() {
            self.body(&k, inst, te);
        }
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let dir = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let json = format!(
            "{{\"crate\":{},\"debug_assertions\":{},\"types\":[\n{}\n],\"items\":[\n{}\n],\"unsafe_blocks\":[{}],\"bodies\":[\n{}\n]}}\n",
            esc(&name), tcx.sess.opts.debug_assertions, self.tys.join(",\n"), items.join(",\n"), unsafe_blocks.join(","), self.bodies.join(",\n")
        );
        let fin = format!("{}/{}.json", dir, name);
        let tmp = format!("{}.{}.tmp", fin, std::process::id());
        std::fs::write(&tmp, json).expect("write dump");
        std::fs::rename(&tmp, &fin).expect("rename dump");
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
        c.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump { tcx, tys: vec![], tymap: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), bodies: vec![] };
        d.run();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    let real = args.remove(1);
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let mut crate_name = None;
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() { crate_name = Some(args[i + 1].clone()); }
        i += 1;
    }
    let dump = crate_name.as_ref().map(|c| want.split(',').any(|w| w == c)).unwrap_or(false)
        && std::env::var("MIRDUMP_OUT").is_ok();
    if !dump {
        let st = std::process::Command::new(&real).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args[0] = real;
    let r = rustc_driver::catch_with_exit_code(|| { rustc_driver::compiler_entrypoint(&args, &mut Cb) });
    std::process::exit(if r == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
