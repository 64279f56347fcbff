//! mirdump: a rustc wrapper that compiles the target crate as usual and writes the MIR of every
//! monomorphic function of the crate, and of everything they call (up to a stop list), as JSON.
#![feature(rustc_private)]
#![allow(unused_parens)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, VariantsShape};
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T, F: FnMut(&T) -> String>(v: &[T], mut f: F) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } o.push_str(&f(x)); }
    o.push(']');
    o
}

const STOP: &[&str] = &["nalgebra", "generational_arena", "hashbrown", "simba", "approx", "num_traits", "downcast_rs", "typenum", "generic_array"];
const STOP_PREFIX: &[&str] = &["std::io::", "std::fmt::", "core::fmt::", "alloc::fmt::", "core::panicking::", "std::panicking::", "std::rt::",
    "std::alloc::", "alloc::alloc::", "std::collections::", "alloc::raw_vec::", "std::sys", "std::thread", "std::process", "std::hash", "core::hash", "alloc::collections"];

struct Cx {
    types: Vec<String>,
    type_ids: HashMap<Ty, usize>,
    todo: VecDeque<Instance>,
    seen: HashMap<String, bool>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.type_ids.get(&t) { return *i; }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(String::new());
        let disp = esc(&format!("{}", t));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"name\":{}", esc(&format!("{:?}", f))),
                RigidTy::Adt(def, args) => {
                    let kind = if (def.kind() == AdtKind::Enum) { "enum" } else if (def.kind() == AdtKind::Union) { "union" } else { "struct" };
                    let a: Vec<String> = args.0.iter().map(|g| match g {
                        GenericArgKind::Type(t) => self.ty(*t).to_string(),
                        GenericArgKind::Const(c) => esc(&format!("{:?}", c.eval_target_usize().ok())),
                        GenericArgKind::Lifetime(_) => "null".into(),
                    }).collect();
                    let krate = def.krate().name;
                    let vs: Vec<String> = def.variants().iter().enumerate().map(|(vi, v)| {
                        let fs: Vec<String> = v.fields().iter().map(|f| {
                            let ft = f.ty_with_args(&args);
                            format!("[{},{}]", esc(&f.name.to_string()), self.ty(ft))
                        }).collect();
                        let d = if (def.kind() == AdtKind::Enum) { def.discriminant_for_variant(VariantIdx::to_val(vi)).val.to_string() } else { "0".into() };
                        format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", esc(&v.name().to_string()), d, fs.join(","))
                    }).collect();
                    format!("\"k\":\"adt\",\"adt\":{},\"name\":{},\"crate\":{},\"args\":[{}],\"variants\":[{}]", esc(kind), esc(&def.name().to_string()), esc(&krate.to_string()), a.join(","), vs.join(","))
                }
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => format!("\"k\":\"array\",\"elem\":{},\"len\":{}", self.ty(e), n.eval_target_usize().unwrap_or(0)),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::FnDef(d, args) => {
                    let inst = self.callee(d, &args);
                    format!("\"k\":\"fndef\",\"name\":{},\"callee\":{}", esc(&d.name().to_string()), inst)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, args) => {
                    let mut ups: Vec<String> = vec![];
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                            for u in ts { ups.push(self.ty(u).to_string()); }
                        }
                    }
                    let mut callee = "null".to_string();
                    if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnOnce) { callee = self.inst(i); }
                    let mut by_ref = "null".to_string();
                    if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnMut) { by_ref = self.inst(i); }
                    let mut by_sh = "null".to_string();
                    if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::Fn) { by_sh = self.inst(i); }
                    format!("\"k\":\"closure\",\"name\":{},\"upvars\":[{}],\"once\":{},\"mutc\":{},\"shared\":{}", esc(&d.name().to_string()), ups.join(","), callee, by_ref, by_sh)
                }
                RigidTy::Dynamic(preds, _) => {
                    let n = preds.first().map(|p| match p.clone().skip_binder() {
                        ExistentialPredicate::Trait(t) => t.def_id.name().to_string(),
                        _ => "?".into(),
                    }).unwrap_or_default();
                    format!("\"k\":\"dyn\",\"trait\":{}", esc(&n))
                }
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(",")) }
                other => format!("\"k\":\"other\",\"dbg\":{}", esc(&format!("{:?}", other).chars().take(60).collect::<String>())),
            },
            other => format!("\"k\":\"other\",\"dbg\":{}", esc(&format!("{:?}", other).chars().take(60).collect::<String>())),
        };
        self.types[id] = format!("{{\"disp\":{},{}}}", disp, body);
        id
    }
    fn inst(&mut self, i: Instance) -> String {
        let name = i.name().to_string();
        let key = i.mangled_name().to_string();
        let (kind, extra) = match i.kind {
            InstanceKind::Item => ("item", String::new()),
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => ("intrinsic", format!(",\"intrinsic\":{}", esc(&i.intrinsic_name().map(|s| s.to_string()).unwrap_or_default()))),
            InstanceKind::Virtual { idx } => ("virtual", format!(",\"idx\":{}", idx)),
            InstanceKind::Shim => ("shim", String::new()),
        };
        if !matches!(i.kind, InstanceKind::Virtual { .. }) && !self.seen.contains_key(&key) {
            self.seen.insert(key.clone(), false);
            self.todo.push_back(i);
        }
        format!("{{\"kind\":\"{}\",\"name\":{},\"key\":{}{}}}", kind, esc(&name), esc(&key), extra)
    }
    fn callee(&mut self, d: FnDef, args: &GenericArgs) -> String {
        let targs: Vec<String> = args.0.iter().filter_map(|g| match g { GenericArgKind::Type(t) => Some(self.ty(*t).to_string()), _ => None }).collect();
        let dn = esc(&d.name().to_string());
        match Instance::resolve(d, args) {
            Ok(i) => { let s = self.inst(i); format!("{{\"def\":{},\"targs\":[{}],\"inst\":{}}}", dn, targs.join(","), s) }
            Err(_) => format!("{{\"def\":{},\"targs\":[{}],\"inst\":null}}", dn, targs.join(",")),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let pr = list(&p.projection, |e| match e {
            ProjectionElem::Deref => "[\"d\"]".into(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            #[allow(unreachable_patterns)]
            _ => "[\"?\"]".into(),
        });
        format!("{{\"l\":{},\"p\":{}}}", p.local, pr)
    }
    fn read_int(bytes: &[Option<u8>]) -> Option<u128> {
        let mut v: u128 = 0;
        if bytes.len() > 16 { return None; }
        for (i, b) in bytes.iter().enumerate() { v |= ((*b)? as u128) << (8 * i); }
        Some(v)
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> Option<String> {
        if depth > 12 { return None; }
        let lay = t.layout().ok()?.shape();
        let size = lay.size.bytes();
        let TyKind::RigidTy(r) = t.kind() else { return None };
        if size == 0 { return Some(format!("{{\"zst\":{}}}", self.ty(t))); }
        let bytes = &a.bytes.get(off..off + size)?;
        match r {
            RigidTy::Bool => Some(format!("{{\"bool\":{}}}", Self::read_int(bytes)? != 0)),
            RigidTy::Char => Some(format!("{{\"int\":{}}}", Self::read_int(bytes)?)),
            RigidTy::Uint(_) => Some(format!("{{\"int\":{}}}", Self::read_int(bytes)?)),
            RigidTy::Int(_) => {
                let v = Self::read_int(bytes)?;
                let sh = 128 - 8 * size as u32;
                Some(format!("{{\"int\":{}}}", ((v << sh) as i128) >> sh))
            }
            RigidTy::Float(_) => Some(format!("{{\"float\":{},\"bits\":{}}}", Self::read_int(bytes)?, size * 8)),
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off);
                match prov {
                    None => Some(format!("{{\"int\":{}}}", Self::read_int(&bytes[..8])?)),
                    Some((_, p)) => {
                        let ga: GlobalAlloc = p.0.into();
                        match ga {
                            GlobalAlloc::Memory(al) => {
                                let o = Self::read_int(&a.bytes[off..off + 8])? as usize;
                                match to.kind() {
                                    TyKind::RigidTy(RigidTy::Str) => {
                                        let len = Self::read_int(&a.bytes[off + 8..off + 16])? as usize;
                                        let s: Vec<u8> = al.bytes[o..o + len].iter().map(|b| b.unwrap_or(0)).collect();
                                        Some(format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&s))))
                                    }
                                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                                        let len = Self::read_int(&a.bytes[off + 8..off + 16])? as usize;
                                        let es = e.layout().ok()?.shape().size.bytes();
                                        let mut xs = vec![];
                                        for i in 0..len { xs.push(self.decode(e, &al, o + i * es, depth + 1)?); }
                                        Some(format!("{{\"ref\":{{\"array\":[{}]}}}}", xs.join(",")))
                                    }
                                    _ => { let v = self.decode(to, &al, o, depth + 1)?; Some(format!("{{\"ref\":{},\"to\":{}}}", v, self.ty(to))) }
                                }
                            }
                            GlobalAlloc::Function(i) => { let s = self.inst(i); Some(format!("{{\"fnptr\":{}}}", s)) }
                            _ => None,
                        }
                    }
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()?;
                let es = e.layout().ok()?.shape().size.bytes();
                let mut xs = vec![];
                for i in 0..n as usize { xs.push(self.decode(e, a, off + i * es, depth + 1)?); }
                Some(format!("{{\"array\":[{}]}}", xs.join(",")))
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &lay.fields else { return None };
                let mut xs = vec![];
                for (i, ft) in ts.iter().enumerate() { xs.push(self.decode(*ft, a, off + offsets[i].bytes(), depth + 1)?); }
                Some(format!("{{\"agg\":0,\"fields\":[{}]}}", xs.join(",")))
            }
            RigidTy::Adt(def, args) if (def.kind() == AdtKind::Struct) => {
                let FieldsShape::Arbitrary { offsets } = &lay.fields else { return None };
                let mut xs = vec![];
                let v = def.variants()[0];
                for (i, f) in v.fields().iter().enumerate() { xs.push(self.decode(f.ty_with_args(&args), a, off + offsets[i].bytes(), depth + 1)?); }
                Some(format!("{{\"agg\":0,\"fields\":[{}]}}", xs.join(",")))
            }
            RigidTy::Adt(def, args) if (def.kind() == AdtKind::Enum) => {
                // direct tag only (niches are left raw)
                match &lay.variants {
                    VariantsShape::Single { index } => {
                        let v = def.variants()[index.to_index()];
                        if v.fields().is_empty() { return Some(format!("{{\"agg\":{},\"fields\":[]}}", index.to_index())); }
                        None
                    }
                    VariantsShape::Multiple { tag_field, variants, tag, .. } => {
                        let FieldsShape::Arbitrary { offsets } = &lay.fields else { return None };
                        let to = off + offsets[*tag_field].bytes();
                        let tsz = match tag { rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => match value {
                            rustc_public::abi::Primitive::Int { length, .. } => match length {
                                rustc_public::abi::IntegerLength::I8 => 1, rustc_public::abi::IntegerLength::I16 => 2, rustc_public::abi::IntegerLength::I32 => 4, rustc_public::abi::IntegerLength::I64 => 8, rustc_public::abi::IntegerLength::I128 => 16 },
                            _ => 8 } };
                        let tv = Self::read_int(&a.bytes[to..to + tsz])?;
                        for (vi, v) in def.variants().iter().enumerate() {
                            let d = def.discriminant_for_variant(VariantIdx::to_val(vi)).val;
                            if d == tv {
                                let fo = match &variants.get(vi) { Some(vf) => vf.offsets.clone(), None => return None };
                                let mut xs = vec![];
                                for (i, f) in v.fields().iter().enumerate() { xs.push(self.decode(f.ty_with_args(&args), a, off + fo[i].bytes(), depth + 1)?); }
                                return Some(format!("{{\"agg\":{},\"fields\":[{}]}}", vi, xs.join(",")));
                            }
                        }
                        None
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, args)) => { let s = self.callee(d, &args); format!("{{\"fn\":{}}}", s) }
                _ => format!("{{\"zst\":{}}}", tid),
            },
            ConstantKind::Allocated(a) => match self.decode(t, a, 0, 0) {
                Some(s) => s,
                None => format!("{{\"raw\":{}}}", list(&a.bytes, |b| b.map(|x| x.to_string()).unwrap_or("null".into()))),
            },
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(n) => format!("{{\"int\":{}}}", n), Err(_) => format!("{{\"opaque\":{}}}", esc(&format!("{:?}", tc).chars().take(80).collect::<String>())) },
            other => format!("{{\"opaque\":{}}}", esc(&format!("{:?}", other).chars().take(80).collect::<String>())),
        };
        format!("{{\"k\":\"const\",\"ty\":{},\"v\":{}}}", tid, v)
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"pl\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"pl\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("{{\"k\":\"rtcheck\",\"v\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String { let xs: Vec<String> = v.iter().map(|o| self.op(o)).collect(); format!("[{}]", xs.join(",")) }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("{{\"r\":\"addr\",\"kind\":{},\"pl\":{}}}", esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::Aggregate(k, os) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("\"agg\":\"array\",\"elem\":{}", self.ty(*t)),
                    AggregateKind::Tuple => "\"agg\":\"tuple\"".into(),
                    AggregateKind::Adt(_, v, _, _, f) => format!("\"agg\":\"adt\",\"variant\":{},\"union_field\":{}", v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into())),
                    AggregateKind::Closure(..) => "\"agg\":\"closure\"".into(),
                    AggregateKind::RawPtr(t, _) => format!("\"agg\":\"rawptr\",\"to\":{}", self.ty(*t)),
                    other => format!("\"agg\":\"other\",\"dbg\":{}", esc(&format!("{:?}", other).chars().take(60).collect::<String>())),
                };
                let t = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"agg\",{},\"ty\":{},\"ops\":{}}}", ks, t, self.ops(os))
            }
            Rvalue::BinaryOp(b, x, y) => format!("{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"ty\":{}}}", esc(&format!("{:?}", b)), self.op(x), self.op(y), x.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into())),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("{{\"r\":\"cbin\",\"op\":{},\"a\":{},\"b\":{},\"ty\":{}}}", esc(&format!("{:?}", b)), self.op(x), self.op(y), x.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into())),
            Rvalue::Cast(k, o, t) => format!("{{\"r\":\"cast\",\"kind\":{},\"a\":{},\"from\":{},\"ty\":{}}}", esc(&format!("{:?}", k)), self.op(o), o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"k\":\"copy\",\"pl\":{}}}}}", self.place(p)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"pl\":{},\"of\":{}}}", self.place(p), p.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into())),
            Rvalue::Len(p) => format!("{{\"r\":\"len\",\"pl\":{}}}", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"pl\":{}}}", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.op(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(_) => "{\"r\":\"tls\"}".into(),
            Rvalue::UnaryOp(u, o) => format!("{{\"r\":\"un\",\"op\":{},\"a\":{},\"ty\":{}}}", esc(&format!("{:?}", u)), self.op(o), o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into())),
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.op(o)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"pl\":{}}}", *m == Mutability::Mut, self.place(p)),
        }
    }
    fn body(&mut self, name: &str, key: &str, i: &Instance, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let ls = list(&locals, |l| self.ty(l.ty).to_string());
        let mut dbg = vec![];
        for v in &b.var_debug_info { if let Some(l) = v.local() { dbg.push(format!("[{},{}]", esc(&v.name.to_string()), l)); } }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let rv = self.rvalue(r, &locals); let pl = self.place(p); st.push(format!("{{\"s\":\"assign\",\"pl\":{},\"rv\":{}}}", pl, rv)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let pl = self.place(place); st.push(format!("{{\"s\":\"setdiscr\",\"pl\":{},\"v\":{}}}", pl, variant_index.to_index())); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let o = self.op(o); st.push(format!("{{\"s\":\"assume\",\"a\":{}}}", o)); }
                    StatementKind::Intrinsic(_) => st.push("{\"s\":\"unsupported\"}".into()),
                    StatementKind::StorageDead(l) => st.push(format!("{{\"s\":\"dead\",\"l\":{}}}", l)),
                    StatementKind::StorageLive(l) => st.push(format!("{{\"s\":\"live\",\"l\":{}}}", l)),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"t\":\"goto\",\"to\":{}}}", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("{{\"t\":\"switch\",\"a\":{},\"ty\":{},\"br\":[{}],\"other\":{}}}", self.op(discr), ty, br.join(","), targets.otherwise())
                }
                TerminatorKind::Resume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Abort => "{\"t\":\"abort\"}".into(),
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("{{\"t\":\"drop\",\"pl\":{},\"ty\":{},\"to\":{}}}", self.place(place), ty, target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let dty = destination.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let atys: Vec<String> = args.iter().map(|a| a.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into())).collect();
                    format!("{{\"t\":\"call\",\"f\":{},\"fty\":{},\"args\":{},\"atys\":[{}],\"dest\":{},\"dty\":{},\"to\":{}}}", self.op(func), fty, self.ops(args), atys.join(","), self.place(destination), dty, target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!("{{\"t\":\"assert\",\"a\":{},\"expected\":{},\"msg\":{},\"to\":{}}}", self.op(cond), expected, esc(&msg.description().map(|s| s.to_string()).unwrap_or_else(|_| format!("{:?}", msg).split('{').next().unwrap_or("").trim().to_string())), target),
                TerminatorKind::InlineAsm { .. } => "{\"t\":\"asm\"}".into(),
            };
            blocks.push(format!("{{\"st\":[{}],\"term\":{},\"line\":{}}}", st.join(","), t, line));
        }
        let sa = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
        let file = b.span.get_filename().to_string();
        let krate = i.def.krate().name.to_string();
        format!("{{\"name\":{},\"key\":{},\"crate\":{},\"file\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"dbg\":[{}],\"blocks\":[{}]}}",
            esc(name), esc(key), esc(&krate), esc(&file), b.arg_locals().len(), sa, ls, dbg.join(","), blocks.join(",\n"))
    }
}

fn dump(out: &str) -> ControlFlow<()> {
    let mut cx = Cx { types: vec![], type_ids: HashMap::new(), todo: VecDeque::new(), seen: HashMap::new() };
    let mut skipped = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) { continue; }
        match Instance::try_from(it) {
            Ok(i) => { cx.inst(i); }
            Err(_) => skipped.push(it.name().to_string()),
        }
    }
    let mut fns = vec![];
    while let Some(i) = cx.todo.pop_front() {
        let name = i.name().to_string();
        let key = i.mangled_name().to_string();
        let krate = i.def.krate().name.to_string();
        let full = i.def.name().to_string();
        if STOP.iter().any(|s| krate == *s) || STOP_PREFIX.iter().any(|p| full.starts_with(p)) { continue; }
        if matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) { continue; }
        if let Some(b) = i.body() { let s = cx.body(&name, &key, &i, &b); fns.push(s); }
    }
    let s = format!("{{\"types\":[\n{}\n],\"fns\":[\n{}\n],\"skipped\":{}}}\n", cx.types.join(",\n"), fns.join(",\n"), list(&skipped, |s| esc(s)));
    std::fs::write(out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // wrapper: args[0] is now the real rustc
    let krate = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if krate == target && !out.is_empty() {
        let r = rustc_public::run!(&args, || dump(&out));
        if let Err(e) = r { eprintln!("mirdump: {:?}", e); std::process::exit(1); }
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
}
