//! Compiler driver: dumps the monomorphised MIR of a crate (and of the library code it reaches)
//! as JSON, with resolved callees, structural types, evaluated constants, ABI and source spans.
//! Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<T>(it: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let v: Vec<String> = it.into_iter().map(|x| f(x)).collect();
    format!("[{}]", v.join(","))
}

struct Cx<'t> {
    tcx: TyCtxt<'t>,
    types: Vec<String>,
    tmap: HashMap<Ty, usize>,
    inst: Vec<Instance>,
    imap: HashMap<Instance, usize>,
    bodies: Vec<Option<String>>,
    statics: Vec<StaticDef>,
    errs: Vec<String>,
}

/// Library functions whose bodies are never needed (the analyser models them or treats them as opaque).
const NO_BODY: &[&str] = &[
    "core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::panicking", "std::rt", "alloc::raw_vec",
    "alloc::alloc", "std::alloc", "core::str", "alloc::str", "alloc::string", "core::ptr", "core::intrinsics",
    "core::alloc", "core::slice::sort", "std::io", "std::sys", "core::num::fmt", "core::num::flt2dec",
    "core::char", "core::unicode", "alloc::collections", "core::slice::memchr",
];

impl<'t> Cx<'t> {
    fn span(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.tmap.insert(t, i);
        self.types.push(String::new());
        let s = self.ty_str(t);
        self.types[i] = s;
        i
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => "{\"c\":null}".into(),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn size(&self, t: Ty) -> String {
        match t.layout() {
            Ok(l) => {
                let s = l.shape();
                if s.is_unsized() {
                    "null".into()
                } else {
                    format!("[{},{}]", s.size.bytes(), s.abi_align)
                }
            }
            Err(_) => "null".into(),
        }
    }

    fn ty_str(&mut self, t: Ty) -> String {
        let sz = self.size(t);
        let k = t.kind();
        let Some(r) = k.rigid() else { return format!("{{\"k\":\"other\",\"n\":{}}}", q(&format!("{:?}", k))) };
        let base = match r {
            RigidTy::Bool => "\"k\":\"bool\"".to_string(),
            RigidTy::Char => "\"k\":\"char\"".to_string(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"n\":\"i{}\",\"us\":{}", i.num_bytes() * 8, matches!(i, IntTy::Isize)),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"n\":\"u{}\",\"us\":{}", i.num_bytes() * 8, matches!(i, UintTy::Usize)),
            RigidTy::Float(f) => format!("\"k\":\"float\",\"n\":\"{}\"", match f { FloatTy::F32 => "f32", FloatTy::F64 => "f64", FloatTy::F16 => "f16", _ => "f128" }),
            RigidTy::Str => "\"k\":\"str\"".into(),
            RigidTy::Never => "\"k\":\"never\"".into(),
            RigidTy::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"t\":{e},\"len\":{n}")
            }
            RigidTy::Slice(e) => format!("\"k\":\"slice\",\"t\":{}", self.ty(*e)),
            RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"t\":{},\"m\":{}", self.ty(*e), *m == Mutability::Mut),
            RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"t\":{},\"m\":{}", self.ty(*e), *m == Mutability::Mut),
            RigidTy::Tuple(ts) => {
                let v = arr(ts.clone(), |x| self.ty(x).to_string());
                format!("\"k\":\"tuple\",\"f\":{v}")
            }
            RigidTy::FnDef(d, a) => {
                let inst = Instance::resolve(*d, a).ok().map(|i| self.instance(i).to_string()).unwrap_or("null".into());
                let args = self.args(a);
                format!("\"k\":\"fndef\",\"n\":{},\"inst\":{},\"args\":{}", q(&d.name().to_string()), inst, args)
            }
            RigidTy::FnPtr(_) => format!("\"k\":\"fnptr\",\"n\":{}", q(&format!("{:?}", r))),
            RigidTy::Closure(d, a) => {
                // the last generic argument is the tuple of captured values, the one before it
                // the signature, the one before that the kind
                let n = a.0.len();
                let mut up = "[]".to_string();
                if let Some(GenericArgKind::Type(t)) = a.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                        up = arr(ts, |x| self.ty(x).to_string());
                    }
                }
                let mut kind = "?";
                if n >= 3 {
                    if let GenericArgKind::Type(t) = &a.0[n - 3] {
                        kind = match t.kind().rigid() {
                            Some(RigidTy::Int(IntTy::I8)) => "Fn",
                            Some(RigidTy::Int(IntTy::I16)) => "FnMut",
                            Some(RigidTy::Int(IntTy::I32)) => "FnOnce",
                            _ => "?",
                        };
                    }
                }
                let ck = match kind { "Fn" => ClosureKind::Fn, "FnMut" => ClosureKind::FnMut, _ => ClosureKind::FnOnce };
                let inst = Instance::resolve_closure(*d, a, ck).ok().map(|i| self.instance(i).to_string()).unwrap_or("null".into());
                format!("\"k\":\"closure\",\"n\":{},\"kind\":\"{}\",\"up\":{},\"inst\":{}", q(&d.name().to_string()), kind, up, inst)
            }
            RigidTy::Dynamic(..) => format!("\"k\":\"dyn\",\"n\":{}", q(&format!("{:?}", t))),
            RigidTy::Foreign(d) => format!("\"k\":\"foreign\",\"n\":{}", q(&d.name().to_string())),
            RigidTy::Adt(d, a) => {
                let name = d.name().to_string();
                let args = self.args(a);
                let kind = if d.kind().is_enum() { "enum" } else if d.kind().is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                for (vi, v) in d.variants().iter().enumerate() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(a);
                        fs.push(format!("[{},{}]", q(&f.name.to_string()), self.ty(ft)));
                    }
                    let discr = if kind == "enum" { d.discriminant_for_variant(VariantIdx::to_val(vi)).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", q(&v.name().to_string()), discr, fs.join(",")));
                }
                let mut lay = String::from("null");
                if let Ok(l) = t.layout() {
                    let s = l.shape();
                    if let FieldsShape::Arbitrary { offsets } = &s.fields {
                        lay = arr(offsets.iter(), |o| o.bytes().to_string());
                    }
                }
                let repr = format!("{:?}", d.repr());
                format!("\"k\":\"adt\",\"a\":\"{kind}\",\"n\":{},\"args\":{args},\"v\":[{}],\"off\":{lay},\"box\":{},\"repr\":{}", q(&name), vs.join(","), d.is_box(), q(&repr))
            }
            other => format!("\"k\":\"other\",\"n\":{}", q(&format!("{:?}", other))),
        };
        format!("{{{base},\"sz\":{sz}}}")
    }

    fn instance(&mut self, i: Instance) -> usize {
        if let Some(x) = self.imap.get(&i) {
            return *x;
        }
        let n = self.inst.len();
        self.imap.insert(i, n);
        self.inst.push(i);
        n
    }

    // ---- constants
    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => "{\"z\":1}".to_string(),
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.decode(t, a, 0, 0),
                TyConstKind::ZSTValue(_) => "{\"z\":1}".to_string(),
                _ => match tc.eval_target_usize() {
                    Ok(n) => format!("{{\"i\":{n}}}"),
                    Err(_) => "{\"u\":\"tyconst\"}".into(),
                },
            },
            other => format!("{{\"u\":{}}}", q(&format!("{:?}", other).chars().take(80).collect::<String>())),
        };
        format!("[\"const\",{ti},{v}]")
    }

    fn rd(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if off + n > a.bytes.len() {
            return None;
        }
        a.read_partial_uint(off..off + n).ok()
    }

    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 12 {
            return "{\"u\":\"depth\"}".into();
        }
        let k = t.kind();
        let Some(r) = k.rigid() else { return "{\"u\":\"nonrigid\"}".into() };
        let size = match t.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return "{\"u\":\"layout\"}".into(),
        };
        match r {
            RigidTy::Bool => match Self::rd(a, off, 1) { Some(v) => format!("{{\"b\":{}}}", v), None => "{\"u\":\"uninit\"}".into() },
            RigidTy::Char => match Self::rd(a, off, 4) { Some(v) => format!("{{\"i\":{}}}", v), None => "{\"u\":\"uninit\"}".into() },
            RigidTy::Uint(_) => {
                match Self::rd(a, off, size) { Some(v) => format!("{{\"i\":{}}}", v), None => "{\"u\":\"uninit\"}".into() }
            }
            RigidTy::Int(_) => match Self::rd(a, off, size) {
                Some(v) => {
                    let sh = 128 - 8 * size as u32;
                    format!("{{\"i\":{}}}", ((v << sh) as i128) >> sh)
                }
                None => "{\"u\":\"uninit\"}".into(),
            },
            RigidTy::Float(f) => match Self::rd(a, off, size) {
                Some(v) => match f {
                    FloatTy::F32 => format!("{{\"f\":\"{}\"}}", hexf(f32::from_bits(v as u32) as f64)),
                    FloatTy::F64 => format!("{{\"f\":\"{}\"}}", hexf(f64::from_bits(v as u64))),
                    _ => "{\"u\":\"float\"}".into(),
                },
                None => "{\"u\":\"uninit\"}".into(),
            },
            RigidTy::Tuple(ts) => {
                let offs = field_offsets(t);
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    v.push(self.decode(*ft, a, off + offs.get(i).copied().unwrap_or(0), depth + 1));
                }
                format!("{{\"s\":[{}]}}", v.join(","))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(*e, a, off + i * es, depth + 1));
                }
                format!("{{\"a\":[{}]}}", v.join(","))
            }
            RigidTy::FnDef(..) | RigidTy::Never => "{\"z\":1}".into(),
            RigidTy::Closure(..) if size == 0 => "{\"z\":1}".into(),
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let addr = Self::ptr_off(a, off);
                let Some(id) = prov else {
                    return format!("{{\"addr\":{}}}", addr.unwrap_or(0));
                };
                let ga = GlobalAlloc::from(id);
                match ga {
                    GlobalAlloc::Memory(m) => self.pointee(*e, &m, addr.unwrap_or(0) as usize, a, off, depth),
                    GlobalAlloc::Static(s) => {
                        if !self.statics.contains(&s) {
                            self.statics.push(s);
                        }
                        let n = q(&s.name().to_string());
                        match s.eval_initializer() {
                            Ok(m) => {
                                let p = self.pointee(*e, &m, addr.unwrap_or(0) as usize, a, off, depth);
                                format!("{{\"static\":{n},\"p\":{p}}}")
                            }
                            Err(_) => format!("{{\"static\":{n},\"p\":null}}"),
                        }
                    }
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.instance(i)),
                    _ => "{\"u\":\"galloc\"}".into(),
                }
            }
            RigidTy::Adt(d, args) => {
                let shape = t.layout().unwrap().shape();
                if d.kind().is_struct() {
                    let offs = field_offsets(t);
                    let vs = d.variants();
                    let mut v = vec![];
                    for (i, f) in vs[0].fields().iter().enumerate() {
                        let ft = f.ty_with_args(args);
                        v.push(self.decode(ft, a, off + offs.get(i).copied().unwrap_or(0), depth + 1));
                    }
                    format!("{{\"s\":[{}]}}", v.join(","))
                } else if d.kind().is_enum() {
                    let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Single { index } => (index.to_index(), field_offsets(t)),
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = field_offsets(t).get(*tag_field).copied().unwrap_or(0);
                            let tsz = scalar_size(tag);
                            let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let tagv = if has_prov { None } else { Self::rd(a, off + toff, tsz) };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(tv) = tagv else { return "{\"u\":\"tag\"}".into() };
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let mut f = None;
                                    for i in 0..d.variants().len() {
                                        if d.discriminant_for_variant(VariantIdx::to_val(i)).val & mask == tv {
                                            f = Some(i);
                                        }
                                    }
                                    match f { Some(i) => i, None => return "{\"u\":\"badtag\"}".into() }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    match tagv {
                                        None => untagged_variant.to_index(),
                                        Some(tv) => {
                                            let rel = tv.wrapping_sub(*niche_start) & mask;
                                            let lo = niche_variants.start().to_index() as u128;
                                            let hi = niche_variants.end().to_index() as u128;
                                            if rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                                        }
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                        }
                        _ => return "{\"u\":\"empty\"}".into(),
                    };
                    let vs = d.variants();
                    let mut v = vec![];
                    for (i, f) in vs[vi].fields().iter().enumerate() {
                        let ft = f.ty_with_args(args);
                        v.push(self.decode(ft, a, off + offs.get(i).copied().unwrap_or(0), depth + 1));
                    }
                    format!("{{\"e\":{vi},\"s\":[{}]}}", v.join(","))
                } else {
                    "{\"u\":\"union\"}".into()
                }
            }
            _ => {
                if size == 0 { "{\"z\":1}".into() } else { "{\"u\":\"kind\"}".into() }
            }
        }
    }

    fn ptr_off(a: &Allocation, off: usize) -> Option<u128> {
        // pointer bytes hold the offset into the target allocation
        let mut v: u128 = 0;
        for i in (0..8).rev() {
            let b = a.bytes.get(off + i).copied().flatten()?;
            v = (v << 8) | b as u128;
        }
        Some(v)
    }

    fn pointee(&mut self, e: Ty, m: &Allocation, moff: usize, a: &Allocation, off: usize, depth: usize) -> String {
        let k = e.kind();
        match k.rigid() {
            Some(RigidTy::Str) => {
                let n = Self::ptr_off(a, off + 8).unwrap_or(0) as usize;
                let mut s = vec![];
                for i in 0..n {
                    s.push(m.bytes.get(moff + i).copied().flatten().unwrap_or(b'?'));
                }
                format!("{{\"str\":{}}}", q(&String::from_utf8_lossy(&s)))
            }
            Some(RigidTy::Slice(x)) => {
                let n = Self::ptr_off(a, off + 8).unwrap_or(0) as usize;
                let es = x.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let mut v = vec![];
                for i in 0..n.min(4096) {
                    v.push(self.decode(*x, m, moff + i * es, depth + 1));
                }
                format!("{{\"ref\":{{\"a\":[{}]}}}}", v.join(","))
            }
            Some(RigidTy::Dynamic(..)) => "{\"u\":\"dyn\"}".into(),
            _ => {
                let d = self.decode(e, m, moff, depth + 1);
                format!("{{\"ref\":{d}}}")
            }
        }
    }

    // ---- bodies
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                other => format!("[\"?\",{}]", q(&format!("{:?}", other))),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rtc\",\"{:?}\"]", r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                let t = p.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"ref\",{},{},{}]", m, self.place(p), t)
            }
            Rvalue::AddressOf(k, p) => {
                let t = p.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"addr\",{},{},{}]", q(&format!("{:?}", k)), self.place(p), t)
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), t)
            }
            Rvalue::Cast(k, o, t) => {
                let f = o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let ks = match k { CastKind::PointerCoercion(p) => format!("Coerce{:?}", p), k => format!("{:?}", k) };
                format!("[\"cast\",{},{},{},{}]", q(&ks), self.operand(o), f, self.ty(*t))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(u64::MAX)),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", q(&i.name().to_string())),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v = arr(ops.iter(), |o| self.operand(o));
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},{}]", self.ty(*t), v),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,{}]", v),
                    AggregateKind::Adt(d, vi, a, _, fi) => {
                        let t = self.ty(d.ty_with_args(a));
                        let fi = fi.map(|x| x.to_string()).unwrap_or("null".into());
                        format!("[\"agg\",\"adt\",{},{},{},{}]", t, v, vi.to_index(), fi)
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"agg\",\"closure\",{},{}]", t, v)
                    }
                    AggregateKind::RawPtr(t, m) => format!("[\"agg\",\"rawptr\",{},{},{}]", self.ty(*t), v, *m == Mutability::Mut),
                    _ => format!("[\"agg\",\"?\",null,{}]", v),
                }
            }
        }
    }

    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            UnwindAction::Continue => "\"cont\"".into(),
            UnwindAction::Unreachable => "\"unreach\"".into(),
            UnwindAction::Terminate => "\"term\"".into(),
        }
    }

    fn stmt(&mut self, s: &Statement, locals: &[LocalDecl]) -> Option<String> {
        let sp = q(&self.span(&s.source_info.span));
        Some(match &s.kind {
            StatementKind::Assign(p, r) => format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, locals), sp),
            StatementKind::SetDiscriminant { place, variant_index } => format!("[\"setd\",{},{},{}]", self.place(place), variant_index.to_index(), sp),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => format!("[\"assume\",{},{}]", self.operand(o), sp),
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                format!("[\"cno\",{},{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), sp)
            }
            StatementKind::StorageDead(l) => format!("[\"dead\",{l}]"),
            _ => return None,
        })
    }

    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
        let sp = q(&self.span(&t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let br = arr(targets.branches(), |(v, b)| format!("[{v},{b}]"));
                format!("[\"switch\",{},{},{},{},{}]", self.operand(discr), br, targets.otherwise(), ty, sp)
            }
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, unwind } => {
                let ty = place.ty(locals).ok();
                let ti = ty.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let inst = match ty {
                    Some(t) => {
                        let i = Instance::resolve_drop_in_place(t);
                        if i.is_empty_shim() { "null".into() } else { self.instance(i).to_string() }
                    }
                    None => "null".into(),
                };
                format!("[\"drop\",{},{},{},{},{},{}]", self.place(place), target, Self::unwind(unwind), ti, inst, sp)
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let fty = func.ty(locals).ok();
                let (mut inst, mut def, mut ga) = ("null".to_string(), "null".to_string(), "[]".to_string());
                let mut fnop = "null".to_string();
                if let Some(ft) = fty {
                    match ft.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                            def = { let did = rustc_public::rustc_internal::internal(self.tcx, d.def_id()); q(&rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(did)))) };
                            ga = self.args(&a);
                            match Instance::resolve(d, &a) {
                                Ok(i) => inst = self.instance(i).to_string(),
                                Err(e) => self.errs.push(format!("resolve {:?}: {:?}", d.name(), e)),
                            }
                        }
                        _ => fnop = self.operand(func),
                    }
                }
                let av = arr(args.iter(), |o| self.operand(o));
                let at = arr(args.iter(), |o| o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()));
                let tg = target.map(|t| t.to_string()).unwrap_or("null".into());
                format!("[\"call\",{},{},{},{},{},{},{},{},{},{}]", inst, def, ga, av, at, self.place(destination), tg, Self::unwind(unwind), fnop, sp)
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                    AssertMessage::DivisionByZero(o) => format!("[\"div0\",{}]", self.operand(o)),
                    AssertMessage::RemainderByZero(o) => format!("[\"rem0\",{}]", self.operand(o)),
                    AssertMessage::Overflow(op, a, b) => format!("[\"ovf\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
                    other => format!("[\"other\",{}]", q(&format!("{:?}", other).chars().take(40).collect::<String>())),
                };
                format!("[\"assert\",{},{},{},{},{},{}]", self.operand(cond), expected, m, target, Self::unwind(unwind), sp)
            }
            TerminatorKind::InlineAsm { destination, unwind, template, .. } => {
                let tg = destination.map(|t| t.to_string()).unwrap_or("null".into());
                format!("[\"asm\",{},{},{},{}]", tg, Self::unwind(unwind), q(template), sp)
            }
        }
    }

    fn body(&mut self, n: usize) {
        let inst = self.inst[n];
        let name = inst.name().to_string();
        let path = {
            let did = rustc_public::rustc_internal::internal(self.tcx, inst.def.def_id());
            rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(did)))
        };
        let krate = inst.def.krate();
        let local = krate.is_local;
        let args = inst.args();
        let ga = self.args(&args);
        let intr = inst.intrinsic_name().map(|s| q(&s.to_string())).unwrap_or("null".into());
        let kind = match inst.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim", _ => "other" };
        let foreign = inst.is_foreign_item();
        let skip = !local && (NO_BODY.iter().any(|p| path.starts_with(p)) || foreign || inst.kind == InstanceKind::Intrinsic);
        let mut o = format!(
            "{{\"id\":{n},\"name\":{},\"path\":{},\"crate\":{},\"local\":{local},\"kind\":\"{kind}\",\"args\":{ga},\"intr\":{intr},\"foreign\":{foreign}",
            q(&name), q(&path), q(&krate.name.to_string())
        );
        if local || foreign {
            let _ = write!(o, ",\"sym\":{}", q(&inst.mangled_name().to_string()));
        }
        if local {
            if let Ok(abi) = inst.fn_abi() {
                let conv = format!("{:?}", abi.conv);
                let ats = arr(abi.args.iter(), |a| self.ty(a.ty).to_string());
                let rt = self.ty(abi.ret.ty);
                let _ = write!(o, ",\"abi\":{{\"conv\":{},\"args\":{ats},\"ret\":{rt}}}", q(&conv));
            }
            let _ = write!(o, ",\"span\":{}", q(&self.span(&inst.def.span())));
        }
        if kind == "shim" {
            let t = inst.ty();
            let _ = write!(o, ",\"shimty\":{}", q(&format!("{:?}", t.kind()).chars().take(60).collect::<String>()));
        }
        if !skip {
            if let Some(b) = inst.body() {
                let locals: Vec<LocalDecl> = b.locals().to_vec();
                let lt = arr(locals.iter(), |l| self.ty(l.ty).to_string());
                let nargs = b.arg_locals().len();
                let mut dbg = vec![];
                for v in &b.var_debug_info {
                    if let Some(l) = v.local() {
                        dbg.push(format!("[{},{}]", l, q(&v.name.to_string())));
                    } else if let VarDebugInfoContents::Place(p) = &v.value {
                        dbg.push(format!("[{},{}]", self.place(p), q(&v.name.to_string())));
                    }
                }
                let mut bs = vec![];
                for bb in &b.blocks {
                    let mut st = vec![];
                    for s in &bb.statements {
                        if let Some(x) = self.stmt(s, &locals) {
                            st.push(x);
                        }
                    }
                    let t = self.term(&bb.terminator, &locals);
                    bs.push(format!("[[{}],{}]", st.join(","), t));
                }
                let spread = b.spread_arg().map(|s| s.to_string()).unwrap_or("null".into());
                let _ = write!(o, ",\"locals\":{lt},\"nargs\":{nargs},\"spread\":{spread},\"dbg\":[{}],\"blocks\":[{}]", dbg.join(","), bs.join(",\n"));
            }
        }
        o.push('}');
        self.bodies[n] = Some(o);
    }
}

fn hexf(f: f64) -> String {
    format!("{:016x}", f.to_bits())
}

fn field_offsets(t: Ty) -> Vec<usize> {
    match t.layout() {
        Ok(l) => match l.shape().fields {
            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
            _ => vec![],
        },
        Err(_) => vec![],
    }
}

fn scalar_size(s: &Scalar) -> usize {
    let p = match s {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Float { length } => length.bits() / 8,
        Primitive::Pointer(_) => 8,
    }
}

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let krate = rustc_public::local_crate();
    if out.is_empty() || krate.name.to_string() != want {
        return ControlFlow::Continue(());
    }
    // only the library target itself
    let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), inst: vec![], imap: HashMap::new(), bodies: vec![], statics: vec![], errs: vec![] };
    let mut items = vec![];
    for it in rustc_public::all_local_items() {
        let kind = it.kind();
        let ks = match kind { ItemKind::Fn => "fn", ItemKind::Static => "static", ItemKind::Const => "const", ItemKind::Ctor(_) => "ctor", _ => "other" };
        let mono = it.requires_monomorphization();
        let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
        let vis = if matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Static { .. }) {
            if tcx.visibility(did).is_public() { "pub" } else { "priv" }
        } else { "priv" };
        let reach = did.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
        let mut extra = String::new();
        if kind == ItemKind::Static {
            if let Ok(s) = StaticDef::try_from(it) {
                let t = cx.ty(s.ty());
                let m = tcx.is_mutable_static(did);
                let tl = tcx.is_thread_local_static(did);
                extra = format!(",\"ty\":{t},\"mut\":{m},\"tls\":{tl}");
            }
        }
        if kind == ItemKind::Const && !mono {
            if let Ok(v) = tcx.const_eval_poly(did) {
                if let Some(si) = v.try_to_scalar_int() {
                    extra = format!(",\"val\":{}", q(&si.to_bits_unchecked().to_string()));
                }
            }
        }
        let mut id = "null".to_string();
        if kind == ItemKind::Fn && !mono {
            if let Ok(i) = Instance::try_from(it) {
                id = cx.instance(i).to_string();
            }
        }
        items.push(format!("{{\"name\":{},\"kind\":\"{ks}\",\"generic\":{mono},\"vis\":\"{vis}\",\"reach\":{reach},\"fn\":{id},\"span\":{}{extra}}}", q(&it.name().to_string()), q(&cx.span(&it.span()))));
    }
    let mut n = 0;
    while n < cx.inst.len() {
        cx.bodies.push(None);
        cx.body(n);
        n += 1;
    }
    // local ADTs that are not generic: by name
    let mut adts = vec![];
    for a in krate.adts() {
        if a.generics_of().params.is_empty() && a.generics_of().parent_count == 0 {
            let t = cx.ty(a.ty());
            adts.push(format!("[{},{}]", q(&a.name().to_string()), t));
        } else {
            adts.push(format!("[{},null]", q(&a.name().to_string())));
        }
    }
    while n < cx.inst.len() {
        cx.bodies.push(None);
        cx.body(n);
        n += 1;
    }
    let mut st = vec![];
    for s in cx.statics.clone() {
        let did = rustc_public::rustc_internal::internal(tcx, s.def_id());
        let t = cx.ty(s.ty());
        st.push(format!("{{\"name\":{},\"ty\":{},\"mut\":{}}}", q(&s.name().to_string()), t, tcx.is_mutable_static(did)));
    }
    // trait impls on local ADTs with unsafe or auto-trait relevance
    let mut impls = vec![];
    for im in rustc_public::all_trait_impls() {
        let tr = im.trait_impl().value;
        impls.push(format!("[{},{}]", q(&tr.def_id.name().to_string()), q(&format!("{:?}", im.name().to_string()))));
        if impls.len() > 4000 { break; }
    }
    let _ = impls;
    let mut o = String::new();
    o.push_str("{\"items\":[");
    o.push_str(&items.join(",\n"));
    o.push_str("],\n\"adts\":[");
    o.push_str(&adts.join(","));
    o.push_str("],\n\"statics\":[");
    o.push_str(&st.join(","));
    o.push_str("],\n\"errors\":");
    o.push_str(&arr(cx.errs.iter(), |e| q(e)));
    o.push_str(",\n\"types\":[");
    o.push_str(&cx.types.join(",\n"));
    o.push_str("],\n\"fns\":[");
    o.push_str(&cx.bodies.iter().map(|b| b.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"));
    o.push_str("]}\n");
    std::fs::write(&out, o).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let r = rustc_public::run_with_tcx!(&args, dump);
    match r {
        Ok(_) => std::process::exit(0),
        Err(rustc_public::CompilerError::Skipped) => std::process::exit(0),
        Err(rustc_public::CompilerError::Interrupted(_)) => std::process::exit(0),
        Err(_) => std::process::exit(1),
    }
}
