//! Fact extractor: a rustc driver that, for the crate it compiles, collects
//! every function instance reachable from that crate's own functions (through
//! resolved calls, closures, function pointers, statics and constants) and
//! writes the monomorphic MIR, evaluated constants and type layouts as JSON.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape, Primitive, Scalar};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    fns: HashMap<Instance, usize>,
    fn_order: Vec<Instance>,
    work: VecDeque<Instance>,
    types: HashMap<Ty, usize>,
    type_json: Vec<Option<String>>,
    type_work: Vec<Ty>,
    statics: HashMap<String, Option<String>>,
    std_ok: Vec<String>,
}

fn vidx(v: &VariantIdx) -> usize {
    let s = format!("{:?}", v);
    let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    d.parse().expect("variant index")
}

impl Cx {
    fn fid(&mut self, i: Instance) -> usize {
        if let Some(&n) = self.fns.get(&i) { return n; }
        let n = self.fn_order.len();
        self.fns.insert(i, n);
        self.fn_order.push(i);
        self.work.push_back(i);
        n
    }
    fn tid(&mut self, t: Ty) -> usize {
        if let Some(&n) = self.types.get(&t) { return n; }
        let n = self.type_json.len();
        self.types.insert(t, n);
        self.type_json.push(None);
        self.type_work.push(t);
        n
    }

    fn adt_args_json(&mut self, args: &GenericArgs) -> String {
        let mut v = vec![];
        for a in args.0.iter() {
            if let GenericArgKind::Type(t) = a { v.push(self.tid(*t).to_string()); }
        }
        format!("[{}]", v.join(","))
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let size = t.layout().map(|l| l.shape().size.bytes() as i64).unwrap_or(-1);
        let k = t.kind();
        let r = match k.rigid() { Some(r) => r.clone(), None => return "{\"k\":\"other\"}".into() };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\",\"size\":1}".into(),
            RigidTy::Char => "{\"k\":\"char\",\"size\":4}".into(),
            RigidTy::Int(_) => format!("{{\"k\":\"int\",\"size\":{},\"signed\":true}}", size),
            RigidTy::Uint(_) => format!("{{\"k\":\"int\",\"size\":{},\"signed\":false}}", size),
            RigidTy::Float(_) => format!("{{\"k\":\"float\",\"size\":{}}}", size),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => {
                let id = self.tid(e);
                format!("{{\"k\":\"array\",\"elem\":{},\"len\":{},\"size\":{}}}", id, n.eval_target_usize().unwrap_or(0), size)
            }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"elem\":{}}}", self.tid(e)),
            RigidTy::RawPtr(e, _) => format!("{{\"k\":\"ptr\",\"elem\":{}}}", self.tid(e)),
            RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"elem\":{},\"mut\":{}}}", self.tid(e), m == Mutability::Mut),
            RigidTy::FnDef(d, args) => {
                match Instance::resolve(d, &args) {
                    Ok(i) => { let f = self.fid(i); format!("{{\"k\":\"fndef\",\"fn\":{},\"name\":{}}}", f, esc(&d.name())) }
                    Err(_) => format!("{{\"k\":\"fndef\",\"name\":{}}}", esc(&d.name())),
                }
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\",\"size\":8}".into(),
            RigidTy::Closure(d, args) => {
                let up = self.tuple_upvars(&args);
                let f = [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce].iter().find_map(|k| {
                    Instance::resolve_closure(d, &args, k.clone()).ok().filter(|i| i.has_body() && matches!(i.kind, InstanceKind::Item)) });
                let fj = match f { Some(i) => self.fid(i).to_string(), None => "null".into() };
                format!("{{\"k\":\"closure\",\"name\":{},\"upvars\":{},\"fn\":{}}}", esc(&d.name()), up, fj)
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.tid(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"elems\":[{}],\"size\":{}}}", v.join(","), size)
            }
            RigidTy::Dynamic(..) => "{\"k\":\"dyn\"}".into(),
            RigidTy::Adt(def, args) => {
                let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                let mut vs = vec![];
                for v in def.variants_iter() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        let id = self.tid(ft);
                        fs.push(format!("[{},{}]", esc(&f.name), id));
                    }
                    let d = if def.kind() == AdtKind::Enum { def.discriminant_for_variant(v.idx()).val } else { 0 };
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", esc(&v.name()), d, fs.join(",")));
                }
                let a = self.adt_args_json(&args);
                format!("{{\"k\":\"adt\",\"adt\":\"{}\",\"name\":{},\"args\":{},\"size\":{},\"variants\":[{}]}}", kind, esc(&def.name()), a, size, vs.join(","))
            }
            _ => "{\"k\":\"other\"}".into(),
        }
    }

    fn tuple_upvars(&mut self, args: &GenericArgs) -> String {
        // last generic arg of a closure is the tuple of upvar types
        if let Some(GenericArgKind::Type(t)) = args.0.last() {
            if let Some(RigidTy::Tuple(ts)) = t.kind().rigid() {
                let v: Vec<String> = ts.clone().iter().map(|t| self.tid(*t).to_string()).collect();
                return format!("[{}]", v.join(","));
            }
        }
        "[]".into()
    }

    fn span(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut s = format!("[{}", p.local);
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => s.push_str(",\"*\""),
                ProjectionElem::Field(i, t) => { let id = self.tid(*t); let _ = write!(s, ",{{\"f\":{},\"t\":{}}}", i, id); }
                ProjectionElem::Index(l) => { let _ = write!(s, ",{{\"i\":{}}}", l); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(s, ",{{\"c\":{},\"e\":{}}}", offset, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(s, ",{{\"s\":[{},{}],\"e\":{}}}", from, to, from_end); }
                ProjectionElem::Downcast(v) => { let _ = write!(s, ",{{\"v\":{}}}", vidx(v)); }
                ProjectionElem::OpaqueCast(_) => {}
            }
        }
        s.push(']');
        s
    }

    fn read_uint(&self, a: &Allocation, off: usize, size: usize) -> Option<u128> {
        if size == 0 || size > 16 { return None; }
        a.read_partial_uint(off..off + size).ok()
    }

    fn prov(&self, a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        for (o, p) in &a.provenance.ptrs {
            if *o == off { return Some(GlobalAlloc::from(p.0)); }
        }
        None
    }

    fn decode_ptr(&mut self, a: &Allocation, off: usize, pointee: Ty, depth: usize) -> String {
        let val = self.read_uint(a, off, 8).unwrap_or(0) as usize;
        match self.prov(a, off) {
            None => format!("{{\"k\":\"addr\",\"v\":{}}}", val),
            Some(GlobalAlloc::Function(i)) => { let f = self.fid(i); format!("{{\"k\":\"fn\",\"fn\":{}}}", f) }
            Some(GlobalAlloc::Static(d)) => { let n = d.name(); self.add_static(d); format!("{{\"k\":\"static\",\"name\":{},\"off\":{}}}", esc(&n), val) }
            Some(GlobalAlloc::Memory(m)) => {
                match pointee.kind().rigid() {
                    Some(RigidTy::Str) => {
                        let len = self.read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let bytes: Vec<u8> = m.bytes[val..val + len].iter().map(|b| b.unwrap_or(0)).collect();
                        format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(&bytes)))
                    }
                    Some(RigidTy::Slice(e)) => {
                        let len = self.read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let e = *e;
                        let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        if es == 1 {
                            let bytes: Vec<String> = m.bytes[val..val + len].iter().map(|b| b.unwrap_or(0).to_string()).collect();
                            return format!("{{\"k\":\"ref\",\"v\":{{\"k\":\"bytes\",\"slice\":true,\"v\":[{}]}}}}", bytes.join(","));
                        }
                        let mut v = vec![];
                        for i in 0..len { v.push(self.decode(&m, val + i * es, e, depth + 1)); }
                        format!("{{\"k\":\"ref\",\"v\":{{\"k\":\"array\",\"slice\":true,\"v\":[{}]}}}}", v.join(","))
                    }
                    Some(RigidTy::Dynamic(..)) => "{\"k\":\"opaque\",\"why\":\"dyn\"}".into(),
                    _ => { let d = self.decode(&m, val, pointee, depth + 1); format!("{{\"k\":\"ref\",\"v\":{}}}", d) }
                }
            }
            Some(_) => "{\"k\":\"opaque\",\"why\":\"prov\"}".into(),
        }
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 { return "{\"k\":\"opaque\",\"why\":\"depth\"}".into(); }
        let shape = match t.layout() { Ok(l) => l.shape(), Err(_) => return "{\"k\":\"opaque\",\"why\":\"layout\"}".into() };
        let size = shape.size.bytes();
        let k = t.kind();
        let r = match k.rigid() { Some(r) => r.clone(), None => return "{\"k\":\"opaque\",\"why\":\"kind\"}".into() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Float(_) => {
                match self.read_uint(a, off, size) { Some(v) => format!("{{\"k\":\"int\",\"v\":{}}}", v), None => "{\"k\":\"opaque\",\"why\":\"uninit\"}".into() }
            }
            RigidTy::Int(_) => {
                match self.read_uint(a, off, size) {
                    Some(v) => {
                        let bits = size * 8;
                        let sv: i128 = if bits < 128 && (v >> (bits - 1)) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                        format!("{{\"k\":\"int\",\"v\":{}}}", sv)
                    }
                    None => "{\"k\":\"opaque\",\"why\":\"uninit\"}".into()
                }
            }
            RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => self.decode_ptr(a, off, p, depth),
            RigidTy::FnPtr(_) => self.decode_ptr(a, off, t, depth),
            RigidTy::Array(e, n) => {
                let len = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let is_u8 = matches!(e.kind().rigid(), Some(RigidTy::Uint(UintTy::U8)));
                if is_u8 {
                    let bytes: Vec<String> = a.bytes[off..off + len].iter().map(|b| b.unwrap_or(0).to_string()).collect();
                    return format!("{{\"k\":\"bytes\",\"v\":[{}]}}", bytes.join(","));
                }
                let mut v = vec![];
                for i in 0..len { v.push(self.decode(a, off + i * es, e, depth + 1)); }
                format!("{{\"k\":\"array\",\"v\":[{}]}}", v.join(","))
            }
            RigidTy::Tuple(ts) => {
                let offs = match &shape.fields { FieldsShape::Arbitrary { offsets, .. } => offsets.clone(), _ => vec![] };
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() { let o = offs.get(i).map(|o| o.bytes()).unwrap_or(0); v.push(self.decode(a, off + o, *t, depth + 1)); }
                format!("{{\"k\":\"tuple\",\"v\":[{}]}}", v.join(","))
            }
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union { return "{\"k\":\"opaque\",\"why\":\"union\"}".into(); }
                let (vidx, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return "{\"k\":\"opaque\",\"why\":\"empty\"}".into(),
                    VariantsShape::Single { index } => {
                        let offs = match &shape.fields { FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                        (vidx(index), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &shape.fields { FieldsShape::Arbitrary { offsets, .. } => offsets[*tag_field].bytes(), _ => 0 };
                        let prim = match tag { Scalar::Initialized { value, .. } => *value, Scalar::Union { value } => *value };
                        let tsz = match prim { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, _ => 8 };
                        let tagv = if self.prov(a, off + toff).is_some() { None } else { self.read_uint(a, off + toff, tsz) };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let tv = match tagv { Some(v) => v, None => return "{\"k\":\"opaque\",\"why\":\"tag\"}".into() };
                                let mut found = None;
                                let mask: u128 = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                for v in def.variants_iter() {
                                    if def.discriminant_for_variant(v.idx()).val & mask == tv { found = Some(vidx(&v.idx())); }
                                }
                                match found { Some(f) => f, None => return "{\"k\":\"opaque\",\"why\":\"tagv\"}".into() }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let s = vidx(niche_variants.start());
                                let e = vidx(niche_variants.end());
                                let u = vidx(untagged_variant);
                                match tagv {
                                    None => u,
                                    Some(tv) => {
                                        let mask: u128 = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        if rel <= (e - s) as u128 { s + rel as usize } else { u }
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let v = match def.variants_iter().nth(vidx) { Some(v) => v, None => return "{\"k\":\"opaque\"}".into() };
                let mut fs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let o = offs.get(i).copied().unwrap_or(0);
                    fs.push(self.decode(a, off + o, ft, depth + 1));
                }
                let id = self.tid(t);
                format!("{{\"k\":\"adt\",\"t\":{},\"variant\":{},\"v\":[{}]}}", id, vidx, fs.join(","))
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => { let id = self.tid(t); format!("{{\"k\":\"zst\",\"t\":{}}}", id) }
            _ => "{\"k\":\"opaque\",\"why\":\"ty\"}".into(),
        }
    }

    fn add_static(&mut self, d: StaticDef) {
        let n = d.name();
        if self.statics.contains_key(&n) { return; }
        self.statics.insert(n.clone(), None);
        let t = d.ty();
        let id = self.tid(t);
        let body = match d.eval_initializer() {
            Ok(a) => self.decode(&a, 0, t, 0),
            Err(_) => "{\"k\":\"opaque\"}".into(),
        };
        let sp = self.span(&d.span());
        self.statics.insert(n, Some(format!("{{\"t\":{},\"span\":{},\"v\":{}}}", id, esc(&sp), body)));
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let id = self.tid(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => "{\"k\":\"zst\"}".to_string(),
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => { let ty = *ty; let a = a.clone(); self.decode(&a, 0, ty, 0) }
                TyConstKind::ZSTValue(_) => "{\"k\":\"zst\"}".to_string(),
                _ => "{\"k\":\"opaque\"}".to_string(),
            },
            _ => "{\"k\":\"opaque\"}".to_string(),
        };
        format!("{{\"t\":{},\"c\":{}}}", id, v)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => "{\"c\":{\"k\":\"int\",\"v\":0}}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Cast(k, o, t) => { let oj = self.operand(o); let ti = self.tid(*t);
                let ks = match k { CastKind::PointerCoercion(p) => match p {
                        PointerCoercion::ReifyFnPointer(_) => "ReifyFn".to_string(),
                        PointerCoercion::ClosureFnPointer(_) => "ClosureFn".to_string(),
                        PointerCoercion::UnsafeFnPointer => "UnsafeFn".to_string(),
                        PointerCoercion::Unsize => "Unsize".to_string(),
                        PointerCoercion::ArrayToPointer => "ArrayToPtr".to_string(),
                        _ => "Ptr".to_string() },
                    other => format!("{:?}", other) };
                // reified closures: record callee
                let mut extra = String::from("null");
                if ks == "ClosureFn" {
                    let oty = match o { Operand::Constant(c) => Some(c.const_.ty()), _ => None };
                    if let Some(ty) = oty { if let Some(RigidTy::Closure(d, a)) = ty.kind().rigid() {
                        if let Ok(i) = Instance::resolve_closure(*d, a, ClosureKind::FnOnce) { extra = self.fid(i).to_string(); } } }
                }
                format!("[\"cast\",\"{}\",{},{},{}]", ks, oj, ti, extra) }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(d, vi, args, _, f) => {
                        let t = d.ty_with_args(args);
                        let id = self.tid(t);
                        let fi = match f { Some(f) => f.to_string(), None => "null".into() };
                        format!("{{\"t\":{},\"variant\":{},\"ufield\":{}}}", id, vidx(vi), fi)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        let id = self.tid(t);
                        let f = [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce].iter().find_map(|k| Instance::resolve_closure(*d, args, k.clone()).ok());
                        let fj = match f { Some(i) => self.fid(i).to_string(), None => "null".into() };
                        format!("{{\"closure\":{},\"fn\":{}}}", id, fj)
                    }
                    AggregateKind::RawPtr(..) => "\"rawptr\"".to_string(),
                    _ => "\"other\"".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kj, v.join(","))
            }
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(_) => "[\"other\"]".into(),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let mut s = String::new();
        let locals: Vec<String> = b.locals().iter().map(|l| self.tid(l.ty).to_string()).collect();
        let mut dbg: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { dbg.push(format!("[{},{}]", p.local, esc(&v.name))); }
            }
        }
        let _ = write!(s, "\"argc\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[", b.arg_locals().len(), locals.join(","), dbg.join(","));
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 { s.push(','); }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let j = match &st.kind {
                    StatementKind::Assign(p, r) => { let pj = self.place(p); let rj = self.rvalue(r); format!("[\"=\",{},{}]", pj, rj) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let pj = self.place(place); format!("[\"setd\",{},{}]", pj, vidx(variant_index)) }
                    _ => continue,
                };
                if !first { s.push(','); }
                first = false;
                s.push_str(&j);
            }
            let sp = self.span(&bb.terminator.source_info.span);
            let line = sp.rsplit(':').next().unwrap_or("0").to_string();
            s.push_str("],\"l\":"); s.push_str(&line);
            s.push_str(",\"t\":");
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let o = self.operand(discr);
                    format!("[\"switch\",{},[{}],{}]", o, br.join(","), targets.otherwise())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pty = place.ty(b.locals()).ok();
                    let pj = self.place(place);
                    let tj = pty.map(|t| self.tid(t).to_string()).unwrap_or("null".into());
                    format!("[\"drop\",{},{},{}]", pj, target, tj)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).ok();
                    let fj = match fty.as_ref().and_then(|t| t.kind().rigid().cloned()) {
                        Some(RigidTy::FnDef(d, ga)) => match Instance::resolve(d, &ga) {
                            Ok(i) => { let f = self.fid(i); format!("{{\"fn\":{},\"decl\":{}}}", f, esc(&d.name())) }
                            Err(_) => format!("{{\"unresolved\":{}}}", esc(&d.name())),
                        },
                        _ => { let o = self.operand(func); format!("{{\"ptr\":{}}}", o) }
                    };
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let dj = self.place(destination);
                    format!("[\"call\",{},[{}],{},{}]", fj, a.join(","), dj, target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = match msg { AssertMessage::BoundsCheck { .. } => "BoundsCheck".to_string(), AssertMessage::Overflow(op, ..) => format!("Overflow:{:?}", op), o => format!("{:?}", o).chars().take(24).collect() };
                    format!("[\"assert\",{},{},{},{}]", c, expected, esc(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            s.push_str(&t);
            s.push('}');
        }
        s.push(']');
        s
    }

    fn wants_body(&self, name: &str, krate: &str) -> bool {
        match krate {
            "core" | "alloc" | "std" => self.std_ok.iter().any(|p| name.contains(p.as_str())),
            k => !(k == "serde_json" || k == "wasm_bindgen" || k == "itoa" || k == "ryu" || k == "zmij" || k == "memchr" || k == "once_cell" || k == "hashbrown"),
        }
    }
}

fn analyze() -> ControlFlow<()> {
    let out = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
    let std_ok: Vec<String> = std::env::var("MIRFACTS_STD").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut cx = Cx { fns: HashMap::new(), fn_order: vec![], work: VecDeque::new(), types: HashMap::new(), type_json: vec![], type_work: vec![], statics: HashMap::new(), std_ok };
    for item in rustc_public::all_local_items() {
        match item.kind() {
            rustc_public::ItemKind::Fn => {
                if !item.requires_monomorphization() {
                    if let Ok(i) = Instance::try_from(item) { cx.fid(i); }
                }
            }
            _ => {}
        }
    }
    let nroots = cx.fn_order.len();
    let mut fnj: Vec<String> = vec![];
    let mut bodies = 0usize;
    while let Some(i) = cx.work.pop_front() {
        let id = cx.fns[&i];
        let name = i.name();
        let dname = i.def.name();
        let krate = i.def.krate().name;
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let mut j = format!("{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"root\":{}", id, esc(&name), esc(&dname), esc(&krate), kind, id < nroots);
        let sp = cx.span(&i.def.span());
        let _ = write!(j, ",\"span\":{}", esc(&sp));
        let iargs = i.args();
        let aj = cx.adt_args_json(&iargs);
        let _ = write!(j, ",\"targs\":{}", aj);
        if let Some(RigidTy::FnDef(d, _)) = i.ty().kind().rigid() {
            if let Some(ai) = d.associated_item() {
                let _ = write!(j, ",\"assoc\":{}", esc(&format!("{:?}", ai.container)));
            }
        }
        if kind != "virtual" && kind != "llvm" && i.has_body() && (kind != "intrinsic") && cx.wants_body(&name, &krate) {
            if let Some(b) = i.body() {
                bodies += 1;
                let bj = cx.body(&b);
                j.push(',');
                j.push_str(&bj);
            }
        }
        j.push('}');
        fnj.push(j);
        while let Some(t) = cx.type_work.pop() {
            let n = cx.types[&t];
            let tj = cx.ty_json(t);
            let disp = format!("{}", t);
            let tj = format!("{},\"str\":{}}}", &tj[..tj.len() - 1], esc(&disp));
            cx.type_json[n] = Some(tj);
        }
    }
    while let Some(t) = cx.type_work.pop() {
        let n = cx.types[&t];
        let tj = cx.ty_json(t);
        let disp = format!("{}", t);
        let tj = format!("{},\"str\":{}}}", &tj[..tj.len() - 1], esc(&disp));
        cx.type_json[n] = Some(tj);
    }
    let mut s = String::new();
    s.push_str("{\"fns\":[\n");
    s.push_str(&fnj.join(",\n"));
    s.push_str("\n],\"types\":[\n");
    let tj: Vec<String> = cx.type_json.iter().map(|t| t.clone().unwrap_or("null".into())).collect();
    s.push_str(&tj.join(",\n"));
    s.push_str("\n],\"statics\":{\n");
    let st: Vec<String> = cx.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v.clone().unwrap_or("null".into()))).collect();
    s.push_str(&st.join(",\n"));
    s.push_str("\n}}\n");
    std::fs::write(&out, s).expect("write facts");
    eprintln!("mirfacts: {} instances, {} bodies, {} types", cx.fn_order.len(), bodies, cx.type_json.len());
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let target = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let cn = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned().unwrap_or_default();
    if !target.is_empty() && cn == target {
        let r = run!(&args, analyze);
        if r.is_err() { std::process::exit(1); }
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
