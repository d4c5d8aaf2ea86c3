//! Dumps the monomorphised MIR of the analysed crate (and of the small library helpers it calls)
//! as JSON. It runs as rustc itself (RUSTC_WORKSPACE_WRAPPER) and stops after analysis.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Library paths whose bodies are dumped too, so that the analysis can follow them.
const FOLLOW: &[&str] = &[
    "core", "std", "alloc", "anchor_lang", "anchor_spl",
];
const OPAQUE: &[&str] = &[
    "fmt", "panicking", "alloc", "raw_vec", "collections", "io", "sys", "thread", "hash", "str", "string", "backtrace", "unicode", "ptr", "vec", "slice", "boxed", "rc", "sync", "cell", "intrinsics", "ascii", "char", "env", "os", "ffi", "time", "sync",
];

struct Dump {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_json: Vec<Option<String>>,
    queue: VecDeque<(Instance, usize)>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
    local: String,
}

impl Dump {
    fn file(&mut self, f: String) -> usize {
        if let Some(i) = self.files.get(&f) {
            return *i;
        }
        let i = self.file_list.len();
        self.files.insert(f.clone(), i);
        self.file_list.push(f);
        i
    }

    fn span(&mut self, s: &Span) -> String {
        let f = self.file(s.get_filename().to_string());
        let l = s.get_lines();
        format!("[{},{},{}]", f, l.start_line, l.start_col)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let name = esc(&format!("{t}"));
        let layout = t.layout().ok().map(|l| l.shape().size.bytes());
        let size = layout.map(|s| format!(",\"size\":{s}")).unwrap_or_default();
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(n) => format!("\"k\":\"int\",\"bits\":{}", n.num_bytes() * 8),
                RigidTy::Uint(n) => format!("\"k\":\"uint\",\"bits\":{}", n.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let fty = f.ty_with_args(&args);
                            let id = self.ty(fty);
                            fs.push(format!("[{},{}]", esc(&f.name.to_string()), id));
                        }
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                            esc(&v.name().to_string()),
                            d,
                            fs.join(",")
                        ));
                    }
                    let ga: Vec<String> = args.0.iter().filter_map(|a| a.ty().map(|t| self.ty(*t).to_string())).collect();
                    format!(
                        "\"k\":\"adt\",\"adt\":{},\"path\":{},\"krate\":{},\"box\":{},\"args\":[{}],\"variants\":[{}]",
                        esc(match def.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Union => "union",
                            AdtKind::Struct => "struct",
                        }),
                        esc(&def.name().to_string()),
                        esc(&def.krate().name.to_string()),
                        def.is_box(),
                        ga.join(","),
                        vs.join(",")
                    )
                }
                RigidTy::Array(e, n) => {
                    let id = self.ty(e);
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", id, n.eval_target_usize().unwrap_or(0))
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(","))
                }
                RigidTy::FnDef(d, args) => {
                    let c = self.callee(d, &args);
                    format!("\"k\":\"fndef\",\"fn\":{}", c)
                }
                RigidTy::Closure(d, args) => {
                    let c = match Instance::resolve_closure(d, &args, ClosureKind::FnOnce) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    // captured variables: last generic argument is the tuple of upvar types
                    let up = args
                        .0
                        .last()
                        .and_then(|a| a.ty().copied())
                        .map(|t| self.ty(t).to_string())
                        .unwrap_or("null".into());
                    format!("\"k\":\"closure\",\"path\":{},\"fn\":{},\"upvars\":{}", esc(&d.name().to_string()), c, up)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_json[i] = format!("{{\"id\":{i},\"name\":{name}{size},{body}}}");
        i
    }

    /// JSON for a callee: {"inst": id} plus the unresolved definition path and type arguments.
    fn callee(&mut self, d: FnDef, args: &GenericArgs) -> String {
        let ga: Vec<String> = args.0.iter().filter_map(|a| a.ty().map(|t| self.ty(*t).to_string())).collect();
        let def = esc(&d.name().to_string());
        let krate = esc(&d.krate().name.to_string());
        let intr = d.as_intrinsic().map(|i| esc(&i.fn_name().to_string())).unwrap_or("null".into());
        match Instance::resolve(d, args) {
            Ok(i) => {
                let id = self.inst(i);
                format!("{{\"inst\":{id},\"def\":{def},\"krate\":{krate},\"intr\":{intr},\"args\":[{}]}}", ga.join(","))
            }
            Err(_) => format!("{{\"inst\":null,\"def\":{def},\"krate\":{krate},\"intr\":{intr},\"args\":[{}]}}", ga.join(",")),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let x = self.inst_json.len();
        self.insts.insert(i.clone(), x);
        self.inst_json.push(None);
        self.queue.push_back((i, x));
        x
    }

    fn follow(&self, i: &Instance) -> bool {
        let krate = i.def.krate().name.to_string();
        if krate == self.local {
            return true;
        }
        let n = i.def.name().to_string();
        if !FOLLOW.contains(&krate.as_str()) {
            return false;
        }
        if krate.starts_with("anchor") {
            return true;
        }
        // the module directly below the library crate decides
        let plain = n.trim_start_matches('<');
        let seg = plain.split("::").nth(1).unwrap_or("");
        !OPAQUE.contains(&seg)
    }

    fn int_json(bytes: &[u8], signed: bool) -> String {
        let mut b = [0u8; 16];
        b[..bytes.len()].copy_from_slice(bytes);
        let mut v = u128::from_le_bytes(b);
        if signed {
            let bits = bytes.len() * 8;
            if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                v |= !0u128 << bits;
            }
            return (v as i128).to_string();
        }
        v.to_string()
    }

    /// Decode `t` at `off` of an allocation into a value tree.
    fn value(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 {
            return "{\"c\":\"deep\"}".into();
        }
        let Ok(layout) = t.layout() else { return "{\"c\":\"unk\"}".into() };
        let shape = layout.shape();
        let size = shape.size.bytes();
        let get = |o: usize, n: usize| -> Option<Vec<u8>> {
            a.bytes.get(o..o + n).and_then(|s| s.iter().map(|b| *b).collect::<Option<Vec<u8>>>())
        };
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => get(off, 1).map(|b| format!("{{\"c\":\"int\",\"v\":{}}}", b[0])).unwrap_or("{\"c\":\"unk\"}".into()),
                RigidTy::Char | RigidTy::Uint(_) => {
                    get(off, size).map(|b| format!("{{\"c\":\"int\",\"v\":{}}}", Self::int_json(&b, false))).unwrap_or("{\"c\":\"unk\"}".into())
                }
                RigidTy::Int(_) => {
                    get(off, size).map(|b| format!("{{\"c\":\"int\",\"v\":{}}}", Self::int_json(&b, true))).unwrap_or("{\"c\":\"unk\"}".into())
                }
                RigidTy::Float(_) => {
                    get(off, size).map(|b| format!("{{\"c\":\"float\",\"bits\":{},\"w\":{}}}", Self::int_json(&b, false), size * 8)).unwrap_or("{\"c\":\"unk\"}".into())
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    if n > 512 {
                        return "{\"c\":\"big\"}".into();
                    }
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let v: Vec<String> = (0..n).map(|k| self.value(a, off + k * es, e, depth + 1)).collect();
                    format!("{{\"c\":\"array\",\"v\":[{}]}}", v.join(","))
                }
                RigidTy::Tuple(ts) => {
                    if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &shape.fields {
                        let v: Vec<String> = ts.iter().zip(offsets.iter()).map(|(t, o)| self.value(a, off + o.bytes(), *t, depth + 1)).collect();
                        format!("{{\"c\":\"tuple\",\"v\":[{}]}}", v.join(","))
                    } else {
                        "{\"c\":\"tuple\",\"v\":[]}".into()
                    }
                }
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                    let ptr = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    let Some(id) = ptr else { return "{\"c\":\"unk\"}".into() };
                    let addend = get(off, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0) as usize;
                    match GlobalAlloc::from(id) {
                        GlobalAlloc::Memory(m) => {
                            let inner = match e.kind() {
                                TyKind::RigidTy(RigidTy::Str) => {
                                    let len = get(off + 8, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0) as usize;
                                    let bytes: Vec<u8> = m.bytes.get(addend..addend + len).map(|s| s.iter().map(|b| b.unwrap_or(0)).collect()).unwrap_or_default();
                                    format!("{{\"c\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(&bytes)))
                                }
                                TyKind::RigidTy(RigidTy::Slice(el)) => {
                                    let len = get(off + 8, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0) as usize;
                                    let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                    if len > 512 {
                                        "{\"c\":\"big\"}".into()
                                    } else {
                                        let v: Vec<String> = (0..len).map(|k| self.value(&m, addend + k * es, el, depth + 1)).collect();
                                        format!("{{\"c\":\"array\",\"v\":[{}]}}", v.join(","))
                                    }
                                }
                                _ => self.value(&m, addend, e, depth + 1),
                            };
                            format!("{{\"c\":\"ref\",\"v\":{}}}", inner)
                        }
                        GlobalAlloc::Static(s) => format!("{{\"c\":\"static\",\"v\":{}}}", esc(&s.name().to_string())),
                        GlobalAlloc::Function(i) => format!("{{\"c\":\"fn\",\"v\":{}}}", self.inst(i)),
                        _ => "{\"c\":\"unk\"}".into(),
                    }
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => "{\"c\":\"zst\"}".into(),
                RigidTy::FnPtr(_) => {
                    let ptr = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    match ptr.map(GlobalAlloc::from) {
                        Some(GlobalAlloc::Function(i)) => format!("{{\"c\":\"fn\",\"v\":{}}}", self.inst(i)),
                        _ => "{\"c\":\"unk\"}".into(),
                    }
                }
                RigidTy::Adt(def, args) => {
                    use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
                    let (vidx, offsets): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Single { index } => {
                            let o = if let FieldsShape::Arbitrary { offsets } = &shape.fields { offsets.iter().map(|x| x.bytes()).collect() } else { vec![] };
                            (rustc_public_variant(index), o)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = if let FieldsShape::Arbitrary { offsets } = &shape.fields { offsets[*tag_field].bytes() } else { 0 };
                            let tsize = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => {
                                    value.size(&rustc_public::target::MachineInfo::target()).bytes()
                                }
                            };
                            let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let raw = get(off + toff, tsize);
                            let v = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(raw) = raw else { return "{\"c\":\"unk\"}".into() };
                                    let tagv: u128 = Self::int_json(&raw, false).parse().unwrap();
                                    let mask = if tsize >= 16 { !0u128 } else { (1u128 << (tsize * 8)) - 1 };
                                    (0..def.num_variants())
                                        .find(|k| def.discriminant_for_variant(<VariantIdx as rustc_public_bridge::IndexedVal>::to_val(*k)).val & mask == tagv)
                                        .unwrap_or(0)
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let un = rustc_public_variant(untagged_variant);
                                    if has_ptr {
                                        un
                                    } else {
                                        let Some(raw) = raw else { return "{\"c\":\"unk\"}".into() };
                                        let tagv: u128 = Self::int_json(&raw, false).parse().unwrap();
                                        let mask = if tsize >= 16 { !0u128 } else { (1u128 << (tsize * 8)) - 1 };
                                        let rel = tagv.wrapping_sub(*niche_start) & mask;
                                        let s = rustc_public_variant(niche_variants.start());
                                        let e = rustc_public_variant(niche_variants.end());
                                        if rel <= (e - s) as u128 { s + rel as usize } else { un }
                                    }
                                }
                            };
                            (v, variants[v].offsets.iter().map(|x| x.bytes()).collect())
                        }
                        VariantsShape::Empty => return "{\"c\":\"unk\"}".into(),
                    };
                    let vars = def.variants();
                    let Some(var) = vars.get(vidx) else { return "{\"c\":\"unk\"}".into() };
                    let mut fs = vec![];
                    for (k, f) in var.fields().iter().enumerate() {
                        let o = offsets.get(k).copied().unwrap_or(0);
                        fs.push(self.value(a, off + o, f.ty_with_args(&args), depth + 1));
                    }
                    format!("{{\"c\":\"adt\",\"variant\":{},\"v\":[{}]}}", vidx, fs.join(","))
                }
                _ => "{\"c\":\"unk\"}".into(),
            },
            _ => "{\"c\":\"unk\"}".into(),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                // wide references are encoded as (ptr, len)
                self.value(&a, 0, t, 0)
            }
            ConstantKind::ZeroSized => "{\"c\":\"zst\"}".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => {
                    let (t2, a) = (*t2, a.clone());
                    self.value(&a, 0, t2, 0)
                }
                _ => match tc.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":\"int\",\"v\":{n}}}"),
                    Err(_) => "{\"c\":\"unk\"}".into(),
                },
            },
            ConstantKind::Unevaluated(u) => format!("{{\"c\":\"uneval\",\"v\":{}}}", esc(&u.def.name().to_string())),
            _ => "{\"c\":\"unk\"}".into(),
        };
        format!("[\"K\",{},{}]", tid, v)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut o = String::new();
        for e in &p.projection {
            if !o.is_empty() {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, "[\"f\",{i},{t}]");
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{l}]");
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"ci\",{offset},{min_length},{from_end}]");
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{from},{to},{from_end}]");
                }
                ProjectionElem::Downcast(v) => {
                    let _ = write!(o, "[\"d\",{}]", rustc_public_variant(v));
                }
                ProjectionElem::OpaqueCast(_) => o.push_str("[\"oc\"]"),
            }
        }
        format!("[{},[{}]]", p.local, o)
    }

    fn operand(&mut self, op: &Operand) -> String {
        match op {
            Operand::Copy(p) => format!("[\"C\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"M\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(_) => "[\"RC\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.ty(d.ty_with_args(args));
                        format!("[\"adt\",{},{},{}]", t, rustc_public_variant(v), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(*d, args.clone()));
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", k, v.join(","))
            }
            Rvalue::BinaryOp(o, a, b) => {
                let (a, b) = (self.operand(a), self.operand(b));
                format!("[\"bin\",\"{:?}\",{},{}]", o, a, b)
            }
            Rvalue::CheckedBinaryOp(o, a, b) => {
                let (a, b) = (self.operand(a), self.operand(b));
                format!("[\"cbin\",\"{:?}\",{},{}]", o, a, b)
            }
            Rvalue::Cast(k, o, t) => {
                let (o, t) = (self.operand(o), self.ty(*t));
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o, t)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"C\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o);
                format!("[\"repeat\",{},{}]", o, n.eval_target_usize().unwrap_or(0))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => {
                let o = self.operand(o);
                format!("[\"un\",\"{:?}\",{}]", u, o)
            }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"C\",{}]]", self.place(p)),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, esc(&v.name.to_string())));
            }
        }
        let mut bbs = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let (p, r) = (self.place(p), self.rvalue(r));
                        st.push(format!("[\"=\",{},{},{}]", p, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{},{},{}]", p, rustc_public_variant(variant_index), sp));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"sx\",{l}]")),
                    StatementKind::StorageLive(l) => st.push(format!("[\"sl\",{l}]")),
                    _ => {}
                }
            }
            let sp = self.span(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"switch\",{},[{}],{},{}]", d, br.join(","), targets.otherwise(), dt)
                }
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    format!("[\"drop\",{},{}]", p, target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, ga)) => self.callee(d, &ga),
                            _ => format!("{{\"ptr\":{}}}", self.operand(func)),
                        },
                        o => format!("{{\"ptr\":{}}}", self.operand(o)),
                    };
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},[{}],{},{}]", f, a.join(","), d, target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = format!("{:?}", msg);
                    let m = m.split(|c: char| c == '(' || c == ' ' || c == '{').next().unwrap_or("").to_string();
                    format!("[\"assert\",{},{},{},{}]", c, expected, esc(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bbs.push(format!("{{\"s\":[{}],\"t\":{},\"sp\":{}}}", st.join(","), t, sp));
        }
        let sp = self.span(&b.span);
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"span\":{},\"blocks\":[{}]",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals.join(","),
            names.join(","),
            sp,
            bbs.join(",\n")
        )
    }

    fn run(&mut self) -> String {
        let mut roots = vec![];
        for item in rustc_public::all_local_items() {
            if item.kind() == ItemKind::Fn && !item.requires_monomorphization() {
                if let Ok(i) = Instance::try_from(item) {
                    let x = self.inst(i);
                    roots.push(x);
                }
            }
        }
        // methods of this crate's traits as its own concrete types get them (default bodies included)
        for im in rustc_public::local_crate().trait_impls() {
            let g = im.generics_of();
            if g.parent_count != 0 || g.params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime)) {
                continue;
            }
            let tr = im.trait_impl().value;
            let targs = GenericArgs(
                tr.args()
                    .0
                    .iter()
                    .map(|a| match a {
                        GenericArgKind::Type(t) => GenericArgKind::Type(erased(*t)),
                        GenericArgKind::Lifetime(_) => GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }),
                        x => x.clone(),
                    })
                    .collect(),
            );
            if tr.def_id.krate().name.to_string() != self.local {
                continue;
            }
            for it in tr.def_id.associated_items() {
                if !matches!(it.kind, AssocKind::Fn { .. }) {
                    continue;
                }
                let f = FnDef(it.def_id.0);
                let own = match f.ty().kind() {
                    TyKind::RigidTy(RigidTy::FnDef(_, a)) => a.0.len(),
                    _ => continue,
                };
                if own == targs.0.len() {
                    if let Ok(i) = Instance::resolve(f, &targs) {
                        self.inst(i);
                    }
                }
            }
        }
        while let Some((i, x)) = self.queue.pop_front() {
            let def = esc(&i.def.name().to_string());
            let name = esc(&i.name().to_string());
            let krate = i.def.krate().name.to_string();
            let local = krate == self.local;
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "intrinsic",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let ga: Vec<String> = i.args().0.iter().filter_map(|a| a.ty().map(|t| self.ty(*t).to_string())).collect();
            let body = if kind != "intrinsic" && kind != "virtual" && self.follow(&i) {
                i.body().map(|b| self.body(&b))
            } else {
                None
            };
            let j = format!(
                "{{\"id\":{x},\"def\":{def},\"name\":{name},\"krate\":{},\"local\":{local},\"kind\":\"{kind}\",\"args\":[{}]{}}}",
                esc(&krate),
                ga.join(","),
                body.map(|b| format!(",{b}")).unwrap_or_default()
            );
            self.inst_json[x] = Some(j);
        }
        let insts: Vec<String> = self.inst_json.iter().map(|x| x.clone().unwrap_or("null".into())).collect();
        let files: Vec<String> = self.file_list.iter().map(|f| esc(f)).collect();
        let roots: Vec<String> = roots.iter().map(|r| r.to_string()).collect();
        format!(
            "{{\"crate\":{},\"roots\":[{}],\"files\":[{}],\n\"types\":[{}],\n\"fns\":[{}]}}",
            esc(&self.local),
            roots.join(","),
            files.join(","),
            self.ty_json.join(",\n"),
            insts.join(",\n")
        )
    }
}

/// a struct type with its lifetime arguments erased
fn erased(t: Ty) -> Ty {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => Ty::from_rigid_kind(RigidTy::Adt(
            d,
            GenericArgs(
                a.0.iter()
                    .map(|x| match x {
                        GenericArgKind::Lifetime(_) => GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }),
                        GenericArgKind::Type(t) => GenericArgKind::Type(erased(*t)),
                        x => x.clone(),
                    })
                    .collect(),
            ),
        )),
        _ => t,
    }
}

fn rustc_public_variant(v: &VariantIdx) -> usize {
    rustc_public_bridge::IndexedVal::to_index(v)
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as first argument
    let real = if args.len() > 1 && !args[1].starts_with('-') { args.remove(1) } else { "rustc".to_string() };
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
        && args.iter().any(|a| a.contains("lib"))
        && !args.iter().any(|a| a == "--test");
    if is && !out.is_empty() {
        for f in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Coverflow-checks=off", "-Cdebug-assertions=off", "-Awarnings"] {
            args.push(f.to_string());
        }
        let r = rustc_public::run!(&args, move || {
            let local = rustc_public::local_crate().name.to_string();
            let mut d = Dump {
                tys: HashMap::new(),
                ty_json: vec![],
                insts: HashMap::new(),
                inst_json: vec![],
                queue: VecDeque::new(),
                files: HashMap::new(),
                file_list: vec![],
                local,
            };
            let s = d.run();
            std::fs::write(&out, s).expect("write MIRDUMP_OUT");
            std::ops::ControlFlow::<(), ()>::Continue(())
        });
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    use std::os::unix::process::CommandExt;
    let e = std::process::Command::new(&real).args(&args[1..]).exec();
    eprintln!("cannot run {real}: {e}");
    std::process::exit(101);
}
