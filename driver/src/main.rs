//! Dumps monomorphic MIR of a crate (and the std instances it reaches) as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx {
    types: HashMap<Ty, usize>,
    tjson: Vec<String>,
    fns: HashMap<String, usize>,
    fjson: Vec<String>,
    queue: VecDeque<(usize, Instance)>,
    statics: HashMap<String, String>,
    prefixes: Vec<&'static str>,
    closures: HashSet<usize>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.tjson.len();
        self.types.insert(t, id);
        self.tjson.push(String::new());
        let j = self.ty_json(t);
        self.tjson[id] = j;
        id
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        list(a.0.iter().filter_map(|g| match g {
            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
            GenericArgKind::Const(c) => Some(format!(
                "{{\"const\":{}}}",
                c.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into())
            )),
            GenericArgKind::Lifetime(_) => None,
        }))
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let TyKind::RigidTy(r) = kind else {
            return format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", t)));
        };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"n\":\"{:?}\",\"w\":{}}}", i, i.num_bytes()),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"n\":\"{:?}\",\"w\":{}}}", i, i.num_bytes()),
            RigidTy::Float(f) => format!("{{\"k\":\"float\",\"n\":\"{:?}\"}}", f),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => format!(
                "{{\"k\":\"array\",\"e\":{},\"n\":{}}}",
                self.ty(e),
                n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into())
            ),
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
            RigidTy::RawPtr(e, m) => {
                format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", self.ty(e), matches!(m, Mutability::Mut))
            }
            RigidTy::Ref(_, e, m) => {
                format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", self.ty(e), matches!(m, Mutability::Mut))
            }
            RigidTy::Tuple(ts) => {
                format!("{{\"k\":\"tuple\",\"e\":{}}}", list(ts.iter().map(|t| self.ty(*t).to_string())))
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::FnDef(d, a) => {
                let inst = self.resolve(d, &a);
                format!("{{\"k\":\"fndef\",\"n\":{},\"f\":{}}}", esc(&d.name()), inst)
            }
            RigidTy::Closure(d, a) => {
                // last generic arg = tuple of upvar types
                let up = match a.0.last() {
                    Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                    _ => "null".into(),
                };
                let mut f = "null".to_string();
                for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    if let Ok(i) = Instance::resolve_closure(d, &a, k) {
                        if i.kind == InstanceKind::Item {
                            f = self.inst(i).to_string();
                            break;
                        }
                    }
                }
                format!("{{\"k\":\"closure\",\"n\":{},\"up\":{},\"f\":{}}}", esc(&d.name()), up, f)
            }
            RigidTy::Adt(d, a) => {
                let kind = d.kind();
                let name = d.name();
                let args = self.args(&a);
                let mut vs = Vec::new();
                if !kind.is_union() {
                    for v in d.variants() {
                        let discr = if kind.is_enum() {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        let fs = list(v.fields().iter().map(|f| {
                            format!("[{},{}]", esc(&f.name), self.ty(f.ty_with_args(&a)))
                        }));
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(&v.name()), discr, fs));
                    }
                }
                format!(
                    "{{\"k\":\"adt\",\"n\":{},\"a\":{},\"ak\":\"{:?}\",\"v\":[{}]}}",
                    esc(&name),
                    args,
                    kind,
                    vs.join(",")
                )
            }
            RigidTy::Dynamic(p, _) => format!("{{\"k\":\"dyn\",\"d\":{}}}", {
                let n = p.iter().find_map(|b| match &b.value {
                    ExistentialPredicate::Trait(t) => Some(t.def_id.name()),
                    _ => None,
                });
                esc(&n.unwrap_or_default())
            }),
            o => format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", o))),
        }
    }

    fn resolve(&mut self, d: FnDef, a: &GenericArgs) -> String {
        match Instance::resolve(d, a) {
            Ok(i) => self.inst(i).to_string(),
            Err(_) => "null".into(),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        let key = i.mangled_name();
        if let Some(x) = self.fns.get(&key) {
            return *x;
        }
        let id = self.fjson.len();
        self.fns.insert(key, id);
        self.fjson.push(String::new());
        self.queue.push_back((id, i));
        id
    }

    fn want_body(&self, i: &Instance, def: &str, local: bool) -> bool {
        if !matches!(i.kind, InstanceKind::Item) {
            return false;
        }
        if local {
            return true;
        }
        let d = def.trim_start_matches('<');
        self.prefixes.iter().any(|p| d.starts_with(p))
    }

    fn process(&mut self, id: usize, i: Instance) {
        let def = i.def.name();
        let local = i.def.krate().is_local;
        let name = i.name();
        let args = self.args(&i.args());
        let kind = format!("{:?}", i.kind).split(' ').next().unwrap_or("").split('(').next().unwrap().to_string();
        let mut head = format!(
            "{{\"id\":{},\"name\":{},\"def\":{},\"local\":{},\"kind\":{},\"args\":{}",
            id,
            esc(&name),
            esc(&def),
            local,
            esc(&kind),
            args
        );
        if let Some(n) = i.intrinsic_name() {
            let _ = write!(head, ",\"intrinsic\":{}", esc(&n));
        }
        if self.want_body(&i, &def, local) && i.has_body() {
            if let Some(b) = i.body() {
                let bj = self.body(&b);
                let li = b.span.get_lines();
                let _ = write!(
                    head,
                    ",\"span\":[{},{},{}],\"body\":{}",
                    esc(&b.span.get_filename()),
                    li.start_line,
                    li.end_line,
                    bj
                );
            }
        }
        head.push('}');
        self.fjson[id] = head;
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = list(b.locals().iter().map(|l| self.ty(l.ty).to_string()));
        let vars = list(b.var_debug_info.iter().filter_map(|v| {
            v.local().map(|l| format!("[{},{}]", esc(&v.name), l))
        }));
        let mut blocks = Vec::new();
        for bb in &b.blocks {
            let mut ss = Vec::new();
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{}]", self.place(p), self.rvalue(r, b))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setdiscr\",{},{}]", self.place(place), idx(*variant_index))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        format!("[\"assume\",{}]", self.operand(o))
                    }
                    StatementKind::Intrinsic(_) => "[\"intrinsic\"]".to_string(),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                    _ => continue,
                };
                ss.push(j);
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            blocks.push(format!("[[{}],{},{}]", ss.join(","), self.term(&bb.terminator, b), line));
        }
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"vars\":{},\"blocks\":[{}]}}",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals,
            vars,
            blocks.join(",")
        )
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = list(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "\"*\"".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", idx(*v)),
            ProjectionElem::OpaqueCast(_) => "\"oc\"".to_string(),
        }));
        format!("[{},{}]", p.local, pr)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => "{\"zst\":1}".to_string(),
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => self.decode(a, 0, *t2, 0),
                _ => match tc.eval_target_usize() {
                    Ok(v) => format!("{{\"int\":{}}}", v),
                    Err(_) => "{\"unk\":\"tyconst\"}".into(),
                },
            },
            ConstantKind::Unevaluated(u) => format!("{{\"unk\":{}}}", esc(&u.def.name())),
            ConstantKind::Param(p) => format!("{{\"unk\":{}}}", esc(&p.name)),
        };
        format!("{{\"t\":{},\"v\":{}}}", tid, v)
    }

    fn rd(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for k in (0..n).rev() {
            v = (v << 8) | u128::from((*a.bytes.get(off + k)?)?);
        }
        Some(v)
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 {
            return "{\"unk\":\"depth\"}".into();
        }
        let unk = |s: &str| format!("{{\"unk\":{}}}", esc(s));
        let TyKind::RigidTy(r) = t.kind() else { return unk("alias") };
        match r {
            RigidTy::Bool => match Self::rd(a, off, 1) {
                Some(v) => format!("{{\"bool\":{}}}", v != 0),
                None => unk("uninit"),
            },
            RigidTy::Char => match Self::rd(a, off, 4) {
                Some(v) => format!("{{\"int\":{}}}", v),
                None => unk("uninit"),
            },
            RigidTy::Uint(u) => match Self::rd(a, off, u.num_bytes()) {
                Some(v) => format!("{{\"int\":{}}}", v),
                None => unk("uninit"),
            },
            RigidTy::Int(u) => match Self::rd(a, off, u.num_bytes()) {
                Some(v) => {
                    let bits = u.num_bytes() * 8;
                    let s = ((v << (128 - bits)) as i128) >> (128 - bits);
                    format!("{{\"int\":{}}}", s)
                }
                None => unk("uninit"),
            },
            RigidTy::Float(f) => {
                let n = match f {
                    FloatTy::F64 => 8,
                    FloatTy::F32 => 4,
                    _ => return unk("float"),
                };
                match Self::rd(a, off, n) {
                    Some(v) => format!("{{\"float\":{},\"w\":{}}}", v, n),
                    None => unk("uninit"),
                }
            }
            RigidTy::FnDef(..) => "{\"zst\":1}".into(),
            RigidTy::Tuple(ref ts) if ts.is_empty() => "{\"zst\":1}".into(),
            RigidTy::Closure(..) => {
                if a.bytes.is_empty() {
                    "{\"zst\":1}".into()
                } else {
                    unk("closure")
                }
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let Some(p) = prov else {
                    // dangling pointers to ZSTs or empty slices
                    if let TyKind::RigidTy(RigidTy::Slice(_)) = e.kind() {
                        if Self::rd(a, off + 8, 8) == Some(0) {
                            return "{\"ref\":{\"arr\":[]}}".into();
                        }
                    }
                    if let TyKind::RigidTy(RigidTy::Str) = e.kind() {
                        return "{\"str\":\"\"}".into();
                    }
                    return "{\"ref\":{\"zst\":1}}".into();
                };
                let base = Self::rd(a, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(p) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = Self::rd(a, off + 8, 8).unwrap_or(0) as usize;
                            let bytes: Vec<u8> =
                                m.bytes[base..base + n].iter().map(|b| b.unwrap_or(0)).collect();
                            match String::from_utf8(bytes) {
                                Ok(s) => format!("{{\"str\":{}}}", esc(&s)),
                                Err(_) => unk("utf8"),
                            }
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = Self::rd(a, off + 8, 8).unwrap_or(0) as usize;
                            let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            format!(
                                "{{\"ref\":{{\"arr\":{}}}}}",
                                list((0..n).map(|k| self.decode(&m, base + k * sz, el, depth + 1)))
                            )
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => unk("dyn"),
                        _ => format!("{{\"ref\":{}}}", self.decode(&m, base, e, depth + 1)),
                    },
                    GlobalAlloc::Static(s) => {
                        let n = self.static_def(s);
                        format!("{{\"static\":{}}}", esc(&n))
                    }
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    _ => unk("galloc"),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                match prov.map(GlobalAlloc::from) {
                    Some(GlobalAlloc::Function(i)) => format!("{{\"fn\":{}}}", self.inst(i)),
                    _ => unk("fnptr"),
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                if n > 4096 {
                    return unk("bigarray");
                }
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                format!("{{\"arr\":{}}}", list((0..n).map(|k| self.decode(a, off + k * sz, e, depth + 1))))
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return unk("layout") };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else { return unk("shape") };
                format!(
                    "{{\"tup\":{}}}",
                    list(ts.iter().zip(offsets).map(|(t, o)| self.decode(a, off + o.bytes(), *t, depth + 1)))
                )
            }
            RigidTy::Adt(d, ga) => {
                let Ok(l) = t.layout() else { return unk("layout") };
                let sh = l.shape();
                if d.kind().is_union() {
                    return unk("union");
                }
                if d.kind().is_struct() {
                    let fs = d.variants()[0].fields();
                    let offs: Vec<usize> = match sh.fields {
                        FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                        _ => vec![0; fs.len()],
                    };
                    let inner = list(fs.iter().zip(offs).map(|(f, o)| {
                        self.decode(a, off + o, f.ty_with_args(&ga), depth + 1)
                    }));
                    return format!("{{\"adt\":0,\"f\":{}}}", inner);
                }
                let (vi, offs): (usize, Vec<usize>) = match sh.variants {
                    VariantsShape::Empty => return unk("empty"),
                    VariantsShape::Single { index } => (
                        idx(index),
                        match sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![],
                        },
                    ),
                    VariantsShape::Multiple { tag_encoding, tag_field, variants, tag } => {
                        let toff = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[tag_field].bytes(),
                            _ => 0,
                        };
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => value,
                            rustc_public::abi::Scalar::Union { value } => value,
                        }
                        .size(&rustc_public::target::MachineInfo::target())
                        .bytes();
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(v) = Self::rd(a, off + toff, tsz) else { return unk("tag") };
                                let mut r = usize::MAX;
                                for v2 in d.variants() {
                                    let dv = d.discriminant_for_variant(v2.idx()).val;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    if dv & mask == v {
                                        r = idx(v2.idx());
                                    }
                                }
                                r
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    idx(untagged_variant)
                                } else {
                                    let Some(v) = Self::rd(a, off + toff, tsz) else { return unk("tag") };
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = v.wrapping_sub(niche_start) & mask;
                                    let st = idx(*niche_variants.start()) as u128;
                                    let en = idx(*niche_variants.end()) as u128;
                                    if rel <= en - st {
                                        (st + rel) as usize
                                    } else {
                                        idx(untagged_variant)
                                    }
                                }
                            }
                        };
                        if vi >= variants.len() {
                            return unk("variant");
                        }
                        let o = variants[vi].offsets.iter().map(|o| o.bytes()).collect();
                        (vi, o)
                    }
                };
                let v = &d.variants()[vi];
                let inner = list(v.fields().iter().zip(offs).map(|(f, o)| {
                    self.decode(a, off + o, f.ty_with_args(&ga), depth + 1)
                }));
                format!("{{\"adt\":{},\"f\":{}}}", vi, inner)
            }
            _ => unk("kind"),
        }
    }

    fn static_def(&mut self, s: StaticDef) -> String {
        let n = s.name();
        if !self.statics.contains_key(&n) {
            self.statics.insert(n.clone(), "null".into());
            let t = s.ty();
            let tid = self.ty(t);
            let v = match s.eval_initializer() {
                Ok(a) if a.bytes.len() < 65536 => self.decode(&a, 0, t, 0),
                _ => "{\"unk\":\"init\"}".into(),
            };
            let j = format!("{{\"t\":{},\"v\":{}}}", tid, v);
            self.statics.insert(n.clone(), j);
        }
        n
    }

    fn rvalue(&mut self, r: &Rvalue, b: &Body) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", matches!(m, Mutability::Mut), self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::BinaryOp(op, x, y) => {
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(x), self.operand(y), self.opty(x, b))
            }
            Rvalue::CheckedBinaryOp(op, x, y) => {
                format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(x), self.operand(y), self.opty(x, b))
            }
            Rvalue::UnaryOp(op, x) => format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(x), self.opty(x, b)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{},{}]",
                esc(&format!("{:?}", k)),
                self.operand(o),
                self.opty(o, b),
                self.ty(*t)
            ),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", esc(&c.name())),
            Rvalue::Aggregate(k, ops) => {
                let o = list(ops.iter().map(|o| self.operand(o)));
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",[\"array\",{}],{}]", self.ty(*t), o),
                    AggregateKind::Tuple => format!("[\"agg\",[\"tuple\"],{}]", o),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"agg\",[\"adt\",{},{},{}],{}]",
                            self.ty(t),
                            idx(*v),
                            f.map(|x| x.to_string()).unwrap_or("null".into()),
                            o
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        let tid = self.ty(t);
                        self.closures.insert(tid);
                        format!("[\"agg\",[\"closure\",{}],{}]", tid, o)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",[\"rawptr\"],{}]", o),
                    _ => "[\"agg\",[\"other\"],[]]".into(),
                }
            }
        }
    }
    fn opty(&mut self, o: &Operand, b: &Body) -> String {
        o.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into())
    }

    fn term(&mut self, t: &Terminator, b: &Body) -> String {
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => format!(
                "[\"switch\",{},{},{},{}]",
                self.operand(discr),
                self.opty(discr, b),
                list(targets.branches().map(|(v, t)| format!("[{},{}]", v, t))),
                targets.otherwise()
            ),
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(b.locals()).ok();
                let f = match fty.map(|t| t.kind()) {
                    Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                        let r = self.resolve(d, &a);
                        format!("{{\"d\":{},\"a\":{},\"f\":{}}}", esc(&d.name()), self.args(&a), r)
                    }
                    _ => format!("{{\"op\":{}}}", self.operand(func)),
                };
                format!(
                    "[\"call\",{},{},{},{}]",
                    f,
                    list(args.iter().map(|o| self.operand(o))),
                    self.place(destination),
                    target.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                "[\"assert\",{},{},{},{}]",
                self.operand(cond),
                expected,
                esc(&format!("{:?}", msg).chars().take(60).collect::<String>().split('(').next().unwrap().split(' ').next().unwrap()),
                target
            ),
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        }
    }
}

fn idx(v: VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}

fn dump(out: String) -> ControlFlow<()> {
    let mut cx = Cx {
        types: HashMap::new(),
        tjson: vec![],
        fns: HashMap::new(),
        fjson: vec![],
        queue: VecDeque::new(),
        statics: HashMap::new(),
        prefixes: vec![
            "std::option::", "core::option::", "std::result::", "core::result::", "std::cmp::", "core::cmp::",
            "std::bool::", "core::bool::", "std::ops::", "core::ops::", "std::convert::", "core::convert::",
            "std::mem::replace", "std::mem::take", "std::mem::swap", "core::mem::", "std::tuple::", "core::tuple::",
            "core::num::", "std::num::", "core::f64::", "std::f64::",
            "num_traits::",
            "std::default::", "core::default::",
        ],
        closures: HashSet::new(),
    };
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    for it in &items {
        match it.kind() {
            ItemKind::Fn => {
                if !it.requires_monomorphization() {
                    if let Ok(i) = Instance::try_from(*it) {
                        cx.inst(i);
                    }
                }
            }
            ItemKind::Static => {
                if let Ok(s) = StaticDef::try_from(*it) {
                    cx.static_def(s);
                }
            }
            _ => {}
        }
    }
    // generic local functions: instantiate type parameters with f64
    for d in rustc_public::local_crate().fn_defs() {
        let t = d.ty();
        let TyKind::RigidTy(RigidTy::FnDef(fd, a)) = t.kind() else { continue };
        let nm = fd.name();
        let generic = a.0.iter().any(|g| matches!(g, GenericArgKind::Type(_)));
        if !generic || a.0.iter().any(|g| matches!(g, GenericArgKind::Const(_))) {
            continue;
        }
        if !(nm.contains("math::") || nm.contains("Dual")) || nm.contains("core::traits::MathScalar") || nm.contains("closure") {
            continue;
        }
        let f64t = Ty::from_rigid_kind(RigidTy::Float(FloatTy::F64));
        let na = GenericArgs(
            a.0.iter()
                .map(|g| match g {
                    GenericArgKind::Type(_) => GenericArgKind::Type(f64t),
                    GenericArgKind::Lifetime(_) => GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }),
                    o => o.clone(),
                })
                .collect(),
        );
        if let Ok(i) = Instance::resolve(fd, &na) {
            cx.inst(i);
        }
    }
    while let Some((id, i)) = cx.queue.pop_front() {
        cx.process(id, i);
    }
    let mut o = String::new();
    o.push_str("{\"types\":[\n");
    o.push_str(&cx.tjson.join(",\n"));
    o.push_str("],\n\"statics\":{");
    o.push_str(
        &cx.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"),
    );
    o.push_str("},\n\"fns\":[\n");
    o.push_str(&cx.fjson.join(",\n"));
    o.push_str("]}\n");
    std::fs::write(&out, o).expect("write dump");
    eprintln!("mirdump: {} fns, {} types -> {}", cx.fjson.len(), cx.tjson.len(), out);
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // now args[0] = rustc path
    let target = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1).cloned());
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "symb_anafis".into());
    if target.as_deref() == Some(want.as_str()) && !args.iter().any(|a| a == "--test") {
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=yes".into());
        args.push("-Zinline-mir=no".into());
        let r: Result<(), rustc_public::CompilerError<()>> =
            rustc_public::run!(&args, || dump(out));
        if r.is_err() {
            std::process::exit(1);
        }
        return;
    }
    let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
    std::process::exit(st.code().unwrap_or(1));
}
