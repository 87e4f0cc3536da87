//! MIR extractor: dumps monomorphic MIR reachable from the crates of interest as JSON.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span as rustc_span_;
use rustc_span_::def_id as rustc_span_def;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use rustc_public::CrateDefType;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateItem, ItemKind};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn public<T: PartialEq + Copy + std::fmt::Debug>(v: rustc_middle::ty::Visibility<T>) -> bool { matches!(v, rustc_middle::ty::Visibility::Public) }
fn safe<'t>(tcx: rustc_middle::ty::TyCtxt<'t>, d: rustc_span_def::DefId) -> bool { format!("{:?}", tcx.fn_sig(d).skip_binder().safety()) == "Safe" }

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Dump {
    types: Vec<String>,
    tymap: HashMap<Ty, usize>,
    fns: BTreeMap<String, String>,
    seen: HashSet<String>,
    queue: VecDeque<Instance>,
    allocs: BTreeMap<usize, String>,
    files: Vec<String>,
    filemap: HashMap<String, usize>,
}

impl Dump {
    /// library routines whose own bodies work on raw vector internals are replaced by plain loops
    /// with the same meaning (probe::std_models)
    fn subst(&mut self, def: FnDef, args: &GenericArgs) -> Option<Instance> {
        let g = |i: usize| args.0.get(i).and_then(|a| a.ty().copied());
        let adt = |t: Ty| match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((d.name().to_string(), a)), _ => None };
        let n = def.name().to_string();
        let (m, a): (&str, Vec<GenericArgKind>) = if n.ends_with("::Iterator::collect") {
            let it = g(0)?;
            let (b, ba) = adt(g(1)?)?;
            match b.as_str() {
                "std::vec::Vec" | "alloc::vec::Vec" => ("collect_vec", vec![GenericArgKind::Type(it)]),
                "std::result::Result" | "core::result::Result" => {
                    let (v, va) = adt(*ba.0[0].ty()?)?;
                    if !v.ends_with("vec::Vec") { return None; }
                    ("collect_result", vec![va.0[0].clone(), ba.0[1].clone(), GenericArgKind::Type(it)])
                }
                "std::collections::HashMap" | "std::collections::hash::map::HashMap" | "std::collections::hash_map::HashMap" => ("collect_map", vec![ba.0[0].clone(), ba.0[1].clone(), GenericArgKind::Type(it)]),
                "std::option::Option" | "core::option::Option" => {
                    let (v, va) = adt(*ba.0[0].ty()?)?;
                    if !v.ends_with("vec::Vec") { return None; }
                    ("collect_option", vec![va.0[0].clone(), GenericArgKind::Type(it)])
                }
                _ => return None,
            }
        } else if n.ends_with("::Extend::extend") {
            let (v, va) = adt(g(0)?)?;
            if !v.ends_with("vec::Vec") { return None; }
            let tys: Vec<Ty> = args.0.iter().filter_map(|a| a.ty().copied()).collect();
            let item = *tys.get(1)?; let it = *tys.get(2)?;
            let (i, _) = adt(it)?;
            if i.ends_with("vec::Vec") || i.ends_with("slice::Iter") { return None; }
            let byref = matches!(item.kind(), TyKind::RigidTy(RigidTy::Ref(..)));
            let t0 = va.0[0].ty().copied()?;
            if byref && item != t0 { ("extend_ref", vec![GenericArgKind::Type(t0), GenericArgKind::Type(it)]) } else { ("extend_own", vec![GenericArgKind::Type(t0), GenericArgKind::Type(it)]) }
        } else if n.ends_with("::Index::index") || n.ends_with("::IndexMut::index_mut") {
            // of a Vec: that of its slice
            let (v, va) = adt(g(0)?)?;
            if !v.ends_with("vec::Vec") { return None; }
            (if n.ends_with("_mut") { "vec_index_mut" } else { "vec_index" }, vec![va.0[0].clone(), GenericArgKind::Type(g(1)?)])
        } else if n.ends_with("::IntoIterator::into_iter") {
            let TyKind::RigidTy(RigidTy::Ref(_, to, mt)) = g(0)?.kind() else { return None };
            let (v, va) = adt(to)?;
            if !v.ends_with("vec::Vec") { return None; }
            (if mt == Mutability::Mut { "vec_iter_mut" } else { "vec_iter" }, vec![va.0[0].clone()])
        } else if n.contains("hash_map::Entry::<") && (n.ends_with("::or_insert_with") || n.ends_with("::or_insert")) {
            let tys: Vec<GenericArgKind> = args.0.iter().filter(|a| a.ty().is_some()).cloned().collect();
            let lf = args.0.iter().find(|a| a.ty().is_none())?.clone();
            let mut v = vec![lf]; v.extend(tys.into_iter().filter(|a| a.ty().and_then(|t| adt(*t)).map_or(true, |(n, _)| !n.ends_with("::Global"))));
            (if n.ends_with("_with") { "or_insert_with" } else { "or_insert" }, v)
        } else { return None };
        for f in rustc_public::local_crate().fn_defs() {
            let fname = f.name().to_string();
            if fname.ends_with(&format!("std_models::{m}")) {
                let mut full = vec![];
                // lifetime parameters of the replacement come first
                if m == "extend_ref" { full.push(GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })); }
                full.extend(a);
                return Instance::resolve(f, &GenericArgs(full)).ok();
            }
        }
        None
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tymap.get(&t) { return *i; }
        if let TyKind::RigidTy(RigidTy::Pat(base, _)) = t.kind() {
            // range-restricted scalars are their base type
            let i = self.ty(base);
            self.tymap.insert(t, i);
            return i;
        }
        let id = self.types.len();
        self.tymap.insert(t, id);
        self.types.push(String::new());
        let mut s = String::new();
        let (mut size, mut align) = (None, None);
        let shape = t.layout().ok().map(|l| l.shape());
        if let Some(sh) = &shape {
            if sh.is_sized() { size = Some(sh.size.bytes()); }
            align = Some(sh.abi_align);
        }
        let _ = write!(s, "{{\"s\":{},\"size\":{},\"align\":{}", js(&format!("{}", t)),
            size.map(|x| x.to_string()).unwrap_or("null".into()), align.map(|x| x.to_string()).unwrap_or("null".into()));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => s.push_str(",\"k\":\"bool\""),
                RigidTy::Char => s.push_str(",\"k\":\"char\""),
                RigidTy::Int(i) => { let _ = write!(s, ",\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8); }
                RigidTy::Uint(i) => { let _ = write!(s, ",\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8); }
                RigidTy::Float(_) => s.push_str(",\"k\":\"float\""),
                RigidTy::Str => s.push_str(",\"k\":\"str\""),
                RigidTy::Never => s.push_str(",\"k\":\"never\""),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    let _ = write!(s, ",\"k\":\"array\",\"elem\":{e},\"n\":{n}");
                }
                RigidTy::Slice(e) => { let e = self.ty(e); let _ = write!(s, ",\"k\":\"slice\",\"elem\":{e}"); }
                RigidTy::RawPtr(e, m) => { let e = self.ty(e); let _ = write!(s, ",\"k\":\"ptr\",\"to\":{e},\"mut\":{}", m == Mutability::Mut); }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); let _ = write!(s, ",\"k\":\"ref\",\"to\":{e},\"mut\":{}", m == Mutability::Mut); }
                RigidTy::Tuple(ts) => {
                    let offs: Vec<u64> = match shape.as_ref().map(|s| &s.fields) { Some(FieldsShape::Arbitrary { offsets }) => offsets.iter().map(|o| o.bytes() as u64).collect(), _ => vec![] };
                    let ids: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                    let _ = write!(s, ",\"k\":\"tuple\",\"fields\":{:?},\"offs\":{:?}", ids, offs);
                }
                RigidTy::FnDef(def, args) => {
                    let inst = self.subst(def, &args).or_else(|| Instance::resolve(def, &args).ok());
                    let (key, extra) = match inst { Some(i) => (self.want(i), self.inst_info(i)), None => (String::new(), String::new()) };
                    let _ = write!(s, ",\"k\":\"fndef\",\"fn\":{},\"def\":{}{}", js(&key), js(&def.name()), extra);
                    let a: Vec<usize> = args.0.iter().filter_map(|a| a.ty().copied()).map(|t| self.ty(t)).collect();
                    let _ = write!(s, ",\"args\":{:?}", a);
                }
                RigidTy::FnPtr(_) => s.push_str(",\"k\":\"fnptr\""),
                RigidTy::Closure(def, args) => {
                    let offs: Vec<u64> = match shape.as_ref().map(|s| &s.fields) { Some(FieldsShape::Arbitrary { offsets }) => offsets.iter().map(|o| o.bytes() as u64).collect(), _ => vec![] };
                    // upvar types: last generic arg is the tuple of upvars
                    let up = args.0.last().and_then(|a| a.ty().copied());
                    let ids: Vec<usize> = match up.map(|u| u.kind()) { Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => ts.iter().map(|t| self.ty(*t)).collect(), _ => vec![] };
                    let _ = write!(s, ",\"k\":\"closure\",\"def\":{},\"fields\":{:?},\"offs\":{:?}", js(&def.name()), ids, offs);
                }
                RigidTy::Adt(def, args) => {
                    let kind = def.kind();
                    let a: Vec<usize> = args.0.iter().filter_map(|a| a.ty().copied()).map(|t| self.ty(t)).collect();
                    let _ = write!(s, ",\"k\":\"{}\",\"def\":{},\"args\":{:?}", if kind == AdtKind::Enum { "enum" } else if kind == AdtKind::Union { "union" } else { "struct" }, js(&def.name()), a);
                    let mut voffs: Vec<Vec<u64>> = vec![];
                    if let Some(sh) = &shape {
                        match &sh.variants {
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                for v in variants { voffs.push(v.offsets.iter().map(|o| o.bytes() as u64).collect()); }
                                let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.get(*tag_field).map(|o| o.bytes()).unwrap_or(0), _ => 0 };
                                let enc = match tag_encoding { TagEncoding::Direct => "\"direct\"".to_string(), TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!("[{},{},{},{}]", untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start) };
                                let tsz = match tag { rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                                let _ = write!(s, ",\"tag\":{{\"off\":{toff},\"enc\":{enc},\"size\":{tsz}}}");
                            }
                            _ => {}
                        }
                        if voffs.is_empty() {
                            if let FieldsShape::Arbitrary { offsets } = &sh.fields { voffs.push(offsets.iter().map(|o| o.bytes() as u64).collect()); }
                        }
                    }
                    s.push_str(",\"variants\":[");
                    for (i, v) in def.variants().iter().enumerate() {
                        if i > 0 { s.push(','); }
                        let d = if kind == AdtKind::Enum { def.discriminant_for_variant(v.idx()).val } else { 0 };
                        let fs = v.fields();
                        let names: Vec<String> = fs.iter().map(|f| js(&f.name)).collect();
                        let ids: Vec<usize> = fs.iter().map(|f| self.ty(f.ty_with_args(&args))).collect();
                        let offs = if voffs.len() == 1 && i > 0 { vec![] } else { voffs.get(i).cloned().unwrap_or_default() };
                        let _ = write!(s, "{{\"name\":{},\"discr\":{},\"fields\":{:?},\"names\":[{}],\"offs\":{:?}}}", js(&v.name()), d, ids, names.join(","), offs);
                    }
                    s.push(']');
                    let _ = write!(s, ",\"repr\":{}", js(&format!("{:?}", def.repr().flags)));
                }
                RigidTy::Dynamic(..) => s.push_str(",\"k\":\"dyn\""),
                other => { let _ = write!(s, ",\"k\":\"other\",\"dbg\":{}", js(&format!("{:?}", other).chars().take(80).collect::<String>())); }
            },
            other => { let _ = write!(s, ",\"k\":\"generic\",\"dbg\":{}", js(&format!("{:?}", other).chars().take(80).collect::<String>())); }
        }
        s.push('}');
        self.types[id] = s;
        id
    }

    fn want(&mut self, i: Instance) -> String {
        let key = i.mangled_name().to_string();
        if self.seen.insert(key.clone()) { self.queue.push_back(i); }
        key
    }

    fn inst_info(&mut self, i: Instance) -> String {
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let mut s = format!(",\"ik\":\"{kind}\",\"iname\":{}", js(&i.name()));
        if let InstanceKind::Virtual { idx } = i.kind { let _ = write!(s, ",\"vidx\":{idx}"); }
        if let Some(n) = i.intrinsic_name() { let _ = write!(s, ",\"intr\":{}", js(&n)); }
        s
    }

    fn span(&mut self, sp: Span) -> String {
        let f = sp.get_filename().to_string();
        let l = sp.get_lines();
        let id = match self.filemap.get(&f) { Some(i) => *i, None => { let i = self.files.len(); self.files.push(f.clone()); self.filemap.insert(f, i); i } };
        format!("[{},{}]", id, l.start_line)
    }

    fn alloc(&mut self, a: &Allocation) -> String {
        let mut s = String::from("{\"b\":[");
        for (i, b) in a.bytes.iter().enumerate() {
            if i > 0 { s.push(','); }
            match b { Some(b) => { let _ = write!(s, "{b}"); } None => s.push_str("null") }
        }
        s.push_str("],\"p\":[");
        let ptrs = a.provenance.ptrs.clone();
        for (i, (off, prov)) in ptrs.iter().enumerate() {
            if i > 0 { s.push(','); }
            let id = self.galloc(prov.0);
            let _ = write!(s, "[{},{}]", off, id);
        }
        s.push_str("]}");
        s
    }

    fn galloc(&mut self, id: rustc_public::mir::alloc::AllocId) -> usize {
        let raw = format!("{:?}", id);
        let n: usize = raw.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(usize::MAX);
        if self.allocs.contains_key(&n) { return n; }
        self.allocs.insert(n, String::new());
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"fn\":{}}}", js(&self.want(i))),
            GlobalAlloc::Memory(a) => { let x = self.alloc(&a); format!("{{\"k\":\"mem\",\"a\":{x}}}") }
            GlobalAlloc::Static(d) => {
                let init = d.eval_initializer().ok().map(|a| self.alloc(&a)).unwrap_or("null".into());
                format!("{{\"k\":\"static\",\"name\":{},\"a\":{init}}}", js(&d.name()))
            }
            GlobalAlloc::VTable(t, _) => { let t = self.ty(t); format!("{{\"k\":\"vtable\",\"ty\":{t}}}") }
            _ => "{\"k\":\"other\"}".into(),
        };
        self.allocs.insert(n, s);
        n
    }

    fn cnst(&mut self, c: &MirConst) -> String {
        let ty = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => { let x = self.alloc(a); format!("{{\"ty\":{ty},\"a\":{x}}}") }
            ConstantKind::ZeroSized => format!("{{\"ty\":{ty},\"zst\":1}}"),
            ConstantKind::Ty(t) => match t.eval_target_usize() {
                Ok(v) => format!("{{\"ty\":{ty},\"v\":{v}}}"),
                Err(_) => match t.kind() { TyConstKind::Value(_, a) => { let x = self.alloc(a); format!("{{\"ty\":{ty},\"a\":{x}}}") } _ => format!("{{\"ty\":{ty},\"dbg\":{}}}", js(&format!("{:?}", t.kind()))) },
            },
            ConstantKind::Unevaluated(u) => format!("{{\"ty\":{ty},\"uneval\":{}}}", js(&u.def.name())),
            ConstantKind::Param(p) => format!("{{\"ty\":{ty},\"param\":{}}}", js(&p.name)),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut s = format!("[{}", p.local);
        for e in &p.projection {
            s.push(',');
            match e {
                ProjectionElem::Deref => s.push_str("\"*\""),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); let _ = write!(s, "[\"f\",{i},{t}]"); }
                ProjectionElem::Index(l) => { let _ = write!(s, "[\"i\",{l}]"); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(s, "[\"c\",{offset},{min_length},{from_end}]"); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(s, "[\"s\",{from},{to},{from_end}]"); }
                ProjectionElem::Downcast(v) => { let _ = write!(s, "[\"d\",{}]", v.to_index()); }
                ProjectionElem::OpaqueCast(t) => { let t = self.ty(*t); let _ = write!(s, "[\"o\",{t}]"); }
            }
        }
        s.push(']');
        s
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => { let p = self.place(p); format!("{{\"c\":{p}}}") }
            Operand::Move(p) => { let p = self.place(p); format!("{{\"m\":{p}}}") }
            Operand::Constant(c) => { let c = self.cnst(&c.const_); format!("{{\"k\":{c}}}") }
            Operand::RuntimeChecks(r) => format!("{{\"rc\":\"{:?}\"}}", r),
        }
    }

    fn ops(&mut self, o: &[Operand]) -> String {
        let v: Vec<String> = o.iter().map(|o| self.op(o)).collect();
        format!("[{}]", v.join(","))
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => { let p = self.place(p); format!("[\"addr\",{p}]") }
            Rvalue::Ref(_, k, p) => { let m = matches!(k, BorrowKind::Mut { .. }); let p = self.place(p); format!("[\"ref\",{p},{m}]") }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p); format!("[\"use\",{{\"c\":{p}}}]") }
            Rvalue::Aggregate(k, ops) => {
                let o = self.ops(ops);
                match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"agg\",\"array\",{t},0,{o}]") }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{o}]"),
                    AggregateKind::Adt(d, v, args, _, f) => { let t = self.ty(d.ty_with_args(args)); let fi = f.map(|x| x.to_string()).unwrap_or("null".into()); format!("[\"agg\",\"adt\",{t},{},{o},{fi}]", v.to_index()) }
                    AggregateKind::Closure(d, args) => { let t = self.ty(Ty::new_closure(*d, args.clone())); format!("[\"agg\",\"closure\",{t},0,{o}]") }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); format!("[\"agg\",\"rawptr\",{t},0,{o}]") }
                    _ => format!("[\"agg\",\"other\",null,0,{o}]"),
                }
            }
            Rvalue::BinaryOp(b, x, y) => { let x = self.op(x); let y = self.op(y); format!("[\"bin\",\"{:?}\",{x},{y}]", b) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let x = self.op(x); let y = self.op(y); format!("[\"cbin\",\"{:?}\",{x},{y}]", b) }
            Rvalue::UnaryOp(u, x) => { let x = self.op(x); format!("[\"un\",\"{:?}\",{x}]", u) }
            Rvalue::Cast(k, x, t) => {
                let x = self.op(x); let t = self.ty(*t);
                let ks = match k { CastKind::PointerCoercion(p) => format!("{:?}", p).split('(').next().unwrap().to_string(), k => format!("{:?}", k) };
                format!("[\"cast\",\"{ks}\",{x},{t}]")
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); format!("[\"use\",{{\"c\":{p}}}]") }
            Rvalue::Discriminant(p) => { let p = self.place(p); format!("[\"discr\",{p}]") }
            Rvalue::Len(p) => { let p = self.place(p); format!("[\"len\",{p}]") }
            Rvalue::Repeat(x, n) => { let x = self.op(x); let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()); format!("[\"repeat\",{x},{n}]") }
            Rvalue::Use(x, _) => { let x = self.op(x); format!("[\"use\",{x}]") }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }

    fn body(&mut self, b: &Body, name: &str, argc: usize, extra: &str) -> String {
        let mut s = String::new();
        let sp = self.span(b.span);
        let _ = write!(s, "{{\"name\":{},\"span\":{sp},\"argc\":{argc}{extra},\"locals\":[", js(name));
        for (i, l) in b.locals().iter().enumerate() {
            if i > 0 { s.push(','); }
            let t = self.ty(l.ty);
            let _ = write!(s, "{t}");
        }
        s.push_str("],\"vars\":[");
        let mut first = true;
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first { s.push(','); }
                first = false;
                let p = self.place(p);
                let _ = write!(s, "[{},{p}]", js(&v.name));
            }
        }
        s.push_str("],\"blocks\":[");
        for (i, bb) in b.blocks.iter().enumerate() {
            if i > 0 { s.push(','); }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let x = match &st.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rvalue(r); format!("[\"=\",{p},{r}") }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); format!("[\"sd\",{p},{}", variant_index.to_index()) }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => { let a = self.op(&c.src); let d = self.op(&c.dst); let n = self.op(&c.count); format!("[\"cpy\",{a},{d},{n}") }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let o = self.op(o); format!("[\"assume\",{o}") }
                    _ => continue,
                };
                if !first { s.push(','); }
                first = false;
                let sp = self.span(st.source_info.span);
                s.push_str(&x);
                let _ = write!(s, ",{sp}]");
            }
            s.push_str("],\"t\":");
            let t = &bb.terminator;
            let sp = self.span(t.source_info.span);
            let x = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    format!("[\"switch\",{d},[{}],{}", br.join(","), targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"abort\"".into(),
                TerminatorKind::Unreachable => "[\"unreach\"".into(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); format!("[\"drop\",{p},{target}") }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a = self.ops(args);
                    let d = self.place(destination);
                    format!("[\"call\",{f},{a},{d},{}", target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => { let l = self.op(len); let i = self.op(index); format!("[\"bounds\",{l},{i}]") }
                        AssertMessage::Overflow(b, x, y) => { let x = self.op(x); let y = self.op(y); format!("[\"overflow\",\"{:?}\",{x},{y}]", b) }
                        AssertMessage::OverflowNeg(_) => "[\"overflow\",\"Neg\"]".into(),
                        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "[\"divzero\"]".into(),
                        m => format!("[{}]", js(&format!("{:?}", m).chars().take(30).collect::<String>())),
                    };
                    format!("[\"assert\",{c},{expected},{m},{target}")
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"".into(),
            };
            let _ = write!(s, "{x},{sp}]}}");
        }
        s.push_str("]}");
        s
    }

    fn drain(&mut self) {
        while let Some(i) = self.queue.pop_front() {
            let key = i.mangled_name().to_string();
            let name = i.name().to_string();
            let info = self.inst_info(i);
            let def = i.def;
            let krate = CrateItem::try_from(i).ok().map(|c| c.krate().name.to_string()).unwrap_or_default();
            let tn = i.trimmed_name().to_string();
            let a: Vec<usize> = i.args().0.iter().filter_map(|a| a.ty().copied()).map(|t| self.ty(t)).collect();
            let open = rustc_middle::ty::tls::with(|tcx| {
                let d = rustc_public::rustc_internal::internal(tcx, def.def_id());
                let k = tcx.def_kind(d);
                format!("{k:?}") == "Fn" && public(tcx.visibility(d)) && safe(tcx, d) || format!("{k:?}") == "AssocFn" && public(tcx.visibility(d)) && safe(tcx, d)
            });
            let extra = format!("{info},\"open\":{},\"krate\":{},\"tname\":{},\"targs\":{:?}", open as u8, js(&krate), js(&tn), a);
            let skip = name.starts_with("core::fmt") || name.starts_with("std::fmt") || name.starts_with("alloc::fmt") || name.starts_with("core::panicking") || name.starts_with("std::panicking") || name.contains("std::sys::") || name.contains("std::backtrace") || name.starts_with("std::io");
            let b = if skip || matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) { None } else { i.body() };
            let out = match b {
                Some(b) => { let argc = b.arg_locals().len(); self.body(&b, &name, argc, &extra) }
                None => format!("{{\"name\":{}{extra},\"nobody\":1}}", js(&name)),
            };
            self.fns.insert(key, out);
        }
    }
}

fn dump(out: &str, crates: &[String]) {
    let mut d = Dump::default();
    let mut roots: Vec<String> = vec![];
    let mut poly: Vec<String> = vec![];
    let mut consts: Vec<String> = vec![];
    for it in rustc_public::all_local_items() {
        if it.kind() == ItemKind::Fn {
            if !it.requires_monomorphization() {
                if let Ok(i) = Instance::try_from(it) { let k = d.want(i); roots.push(js(&k)); }
            }
        }
    }
    for c in crates {
        for k in rustc_public::find_crates(c) {
            for f in k.fn_defs() {
                let item = CrateItem(f.def_id());
                if item.requires_monomorphization() { poly.push(js(&f.name())); continue; }
                if let Ok(i) = Instance::try_from(item) { let k = d.want(i); roots.push(js(&k)); }
            }
        }
    }
    let mut impls: Vec<String> = vec![];
    let mut all = crates.to_vec();
    all.push(rustc_public::local_crate().name.to_string());
    let mut kr: Vec<rustc_public::Crate> = vec![rustc_public::local_crate()];
    for c in crates { kr.extend(rustc_public::find_crates(c)); }
    for k in kr {
        for im in k.trait_impls() {
            let t = im.trait_impl().value;
            let tn = t.def_id.name().to_string();
            let self_ty = t.self_ty();
            let gen_ = im.generics_of().params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime));
            if gen_ { continue; }
            let st = d.ty(self_ty);
            let targs: Vec<usize> = t.args().0.iter().filter_map(|a| a.ty().copied()).map(|t| d.ty(t)).collect();
            let mut fns: Vec<String> = vec![];
            let mut cs: Vec<String> = vec![];
            for a in im.associated_items() {
                match &a.kind {
                    AssocKind::Fn { name, .. } => {
                        let item = CrateItem(a.def_id.def_id());
                        if item.requires_monomorphization() { continue; }
                        if let Ok(i) = Instance::try_from(item) { let key = d.want(i); fns.push(format!("{}:{}", js(name), js(&key))); }
                    }
                    AssocKind::Const { name } => {
                        let item = CrateItem(a.def_id.def_id());
                        if item.requires_monomorphization() { continue; }
                        if let Ok(i) = Instance::try_from(item) {
                            let ty = item.ty();
                            if let Ok(al) = i.try_const_eval(ty) { let x = d.alloc(&al); let tyid = d.ty(ty); cs.push(format!("{}:{{\"ty\":{tyid},\"a\":{x}}}", js(name))); }
                        }
                    }
                    _ => {}
                }
            }
            let sp = d.span(im.span());
            impls.push(format!("{{\"trait\":{},\"self\":{st},\"targs\":{:?},\"fns\":{{{}}},\"consts\":{{{}}},\"span\":{sp},\"krate\":{}}}", js(&tn), targs, fns.join(","), cs.join(","), js(&k.name)));
        }
        for a in k.adts() {
            if a.generics_of().params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime)) { continue; }
            let t = d.ty(a.ty());
            consts.push(format!("{{\"adt\":{},\"ty\":{t},\"krate\":{}}}", js(&a.name()), js(&k.name)));
        }
    }
    d.drain();
    let mut s = String::new();
    s.push_str("{\"files\":[");
    s.push_str(&d.files.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
    s.push_str("],\n\"roots\":["); s.push_str(&roots.join(","));
    s.push_str("],\n\"poly\":["); s.push_str(&poly.join(","));
    s.push_str("],\n\"adts\":["); s.push_str(&consts.join(","));
    s.push_str("],\n\"impls\":["); s.push_str(&impls.join(",\n"));
    s.push_str("],\n\"types\":["); s.push_str(&d.types.join(",\n"));
    s.push_str("],\n\"allocs\":{"); s.push_str(&d.allocs.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",\n"));
    s.push_str("},\n\"fns\":{"); s.push_str(&d.fns.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",\n"));
    s.push_str("}}\n");
    std::fs::write(out, s).expect("write dump");
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect(); // args[0] = path of rustc
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    if name.is_empty() || name == "___" || name != target {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let crates: Vec<String> = std::env::var("MIRDUMP_DEPS").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    args[0] = "rustc".into();
    let r = run!(&args, || { dump(&out, &crates); std::ops::ControlFlow::<(), ()>::Continue(()) });
    if r.is_err() { std::process::exit(1); }
}
