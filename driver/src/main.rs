// mirdump: a rustc wrapper that, for the crate named in MIRDUMP_CRATE, writes the
// type-checked, monomorphic MIR of every function reachable from the crate's `pub fn`
// roots to the file named in MIRDUMP_OUT.  Nothing of the analysed program is run.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::FieldsShape;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    ty_queue: VecDeque<Ty>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    inst_queue: VecDeque<usize>,
    inst_out: BTreeMap<usize, String>,
    vtables: HashSet<(Ty, Ty)>,
    vt_out: Vec<String>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
    deep: Vec<String>,
    anchors: BTreeMap<String, FnDef>,
    adts: Vec<Ty>,
    tried: HashSet<(String, Ty)>,
    impls: Vec<String>,
}

const ANCHORS: &[&str] = &["std::iter::Iterator::next", "std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp"];
/// library code without pointers or allocation: analysed from its own bodies where no summary is given
const PLAIN: &[&str] = &[
    "std::option::Option::", "std::result::Result::", "std::cmp::", "std::hint::must_use", "core::bool::", "std::ops::RangeInclusive::",
    "std::ops::ControlFlow::", "core::f64::", "std::f64::", "core::num::", "core::char::", "std::iter::Iterator::", "std::ops::Bound::",
    "core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last", "core::slice::<impl [T]>::binary_search", "core::slice::<impl [T]>::partition_point",
];
const EXPAND_FIELDS: &[&str] = &["core", "alloc", "std", "factrs", "num_dual", "re_types", "re_types_core"];

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        self.ty_queue.push_back(t);
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        self.inst_queue.push_back(k);
        k
    }
    fn span(&mut self, s: &Span) -> String {
        let f = s.get_filename().to_string();
        let l = s.get_lines();
        let n = self.files.len();
        let fi = *self.files.entry(f.clone()).or_insert_with(|| n);
        if fi == n && self.file_list.len() == n {
            self.file_list.push(f);
        }
        format!("[{},{}]", fi, l.start_line)
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => {
                    let i = self.ty(*t);
                    v.push(format!("{}", i))
                }
                GenericArgKind::Const(c) => v.push(self.tyconst(c)),
            }
        }
        arr(&v)
    }
    fn tyconst(&mut self, c: &TyConst) -> String {
        match c.eval_target_usize() {
            Ok(n) => format!("{{\"c\":{}}}", n),
            Err(_) => match c.kind() {
                TyConstKind::Value(t, al) => {
                    let t = *t;
                    self.alloc_val(al, 0, t)
                }
                k => format!("{{\"c\":null,\"d\":{}}}", esc(&format!("{:?}", k))),
            },
        }
    }
    fn is_harness(&self, name: &str) -> bool {
        name.starts_with("fh_")
    }
    fn emit_ty(&mut self, t: Ty) {
        let id = self.tys[&t];
        let disp = format!("{}", t);
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"n\":\"{:?}\",\"b\":{}", i, i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"n\":\"{:?}\",\"b\":{}", i, i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"n\":\"{:?}\"", f),
                RigidTy::Adt(d, a) => {
                    let name = d.name();
                    let kr = d.krate().name;
                    if kr == "factrs" || self.is_harness(&kr) {
                        self.adts.push(t);
                    }
                    let args = self.args(&a);
                    let mut s = format!(
                        "\"k\":\"adt\",\"name\":{},\"crate\":{},\"args\":{},\"ak\":\"{:?}\"",
                        esc(&name), esc(&kr), args, d.kind()
                    );
                    let expand = EXPAND_FIELDS.contains(&kr.as_str())
                        || self.is_harness(&kr)
                        || name.contains("coordinates")
                        || d.kind() == AdtKind::Enum;
                    if expand && d.kind() != AdtKind::Union {
                        let mut vs = vec![];
                        for v in d.variants() {
                            let discr = if d.kind() == AdtKind::Enum {
                                {
                                    let dv = d.discriminant_for_variant(v.idx());
                                    match dv.ty.kind() {
                                        TyKind::RigidTy(RigidTy::Int(i)) => {
                                            let sh = 128 - 8 * i.num_bytes() as u32;
                                            format!("{}", ((dv.val << sh) as i128) >> sh)
                                        }
                                        _ => format!("{}", dv.val),
                                    }
                                }
                            } else {
                                "0".into()
                            };
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&a);
                                let fi = self.ty(ft);
                                fs.push(format!("[{},{}]", esc(&f.name), fi));
                            }
                            vs.push(format!(
                                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                                esc(&v.name()), discr, arr(&fs)
                            ));
                        }
                        let _ = write!(s, ",\"v\":{}", arr(&vs));
                    }
                    s
                }
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = self.tyconst(&n);
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n)
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    format!("\"k\":\"slice\",\"e\":{}", e)
                }
                RigidTy::RawPtr(e, _) => {
                    let e = self.ty(e);
                    format!("\"k\":\"ptr\",\"e\":{}", e)
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m == Mutability::Mut)
                }
                RigidTy::FnDef(d, a) => {
                    if ANCHORS.contains(&d.name().as_str()) {
                        self.anchors.insert(d.name(), d);
                    }
                    let mut s = format!("\"k\":\"fndef\",\"name\":{}", esc(&d.name()));
                    if let Ok(i) = Instance::resolve(d, &a) {
                        let k = self.inst(i);
                        let _ = write!(s, ",\"inst\":{}", k);
                    }
                    let args = self.args(&a);
                    let _ = write!(s, ",\"args\":{}", args);
                    s
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let mut s = format!("\"k\":\"closure\",\"name\":{}", esc(&d.name()));
                    // generic args: parent..., kind, sig, upvars-tuple
                    let n = a.0.len();
                    if n >= 3 {
                        if let GenericArgKind::Type(kt) = &a.0[n - 3] {
                            let kd = format!("{}", kt);
                            let kind = match kd.as_str() {
                                "i8" => ClosureKind::Fn,
                                "i16" => ClosureKind::FnMut,
                                _ => ClosureKind::FnOnce,
                            };
                            if let Ok(i) = Instance::resolve_closure(d, &a, kind) {
                                let k = self.inst(i);
                                let _ = write!(s, ",\"inst\":{},\"ck\":{}", k, esc(&kd));
                            }
                        }
                        if let GenericArgKind::Type(ut) = &a.0[n - 1] {
                            let u = self.ty(*ut);
                            let _ = write!(s, ",\"up\":{}", u);
                        }
                    }
                    s
                }
                RigidTy::Dynamic(p, _) => {
                    let mut names = vec![];
                    for x in p.iter() {
                        if let ExistentialPredicate::Trait(t) = &x.value {
                            names.push(esc(&t.def_id.name()));
                        }
                    }
                    format!("\"k\":\"dyn\",\"tr\":{}", arr(&names))
                }
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| format!("{}", self.ty(*t))).collect();
                    format!("\"k\":\"tuple\",\"e\":{}", arr(&v))
                }
                RigidTy::Pat(e, _) => {
                    let e = self.ty(e);
                    format!("\"k\":\"pat\",\"e\":{}", e)
                }
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        self.ty_out[id] = format!("{{\"s\":{},{}}}", esc(&disp), s);
    }

    fn alloc_val(&mut self, al: &Allocation, off: usize, t: Ty) -> String {
        let rd = |n: usize| -> Option<u128> {
            let mut v: u128 = 0;
            for k in 0..n {
                let b = *al.bytes.get(off + k)?;
                v |= (b? as u128) << (8 * k);
            }
            Some(v)
        };
        let ptr = |o: usize| -> Option<rustc_public::mir::alloc::AllocId> {
            al.provenance.ptrs.iter().find(|(k, _)| *k as usize == o).map(|(_, p)| p.0)
        };
        let ti = self.ty(t);
        let opaque = |why: &str| format!("{{\"v\":\"opaque\",\"t\":{},\"why\":{}}}", ti, esc(why));
        let r = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return opaque("kind"),
        };
        match r {
            RigidTy::Bool => match rd(1) {
                Some(v) => format!("{{\"v\":\"bool\",\"x\":{}}}", v != 0),
                None => opaque("uninit"),
            },
            RigidTy::Char => match rd(4) {
                Some(v) => format!("{{\"v\":\"int\",\"t\":{},\"x\":{}}}", ti, v),
                None => opaque("uninit"),
            },
            RigidTy::Int(i) => match rd(i.num_bytes()) {
                Some(v) => {
                    let bits = i.num_bytes() as u32 * 8;
                    let x = if bits == 128 { v as i128 } else {
                        let sh = 128 - bits;
                        ((v << sh) as i128) >> sh
                    };
                    format!("{{\"v\":\"int\",\"t\":{},\"x\":{}}}", ti, x)
                }
                None => opaque("uninit"),
            },
            RigidTy::Uint(i) => match rd(i.num_bytes()) {
                Some(v) => format!("{{\"v\":\"int\",\"t\":{},\"x\":{}}}", ti, v),
                None => opaque("uninit"),
            },
            RigidTy::Float(f) => match f {
                FloatTy::F64 => match rd(8) {
                    Some(v) => {
                        let x = f64::from_bits(v as u64);
                        format!("{{\"v\":\"float\",\"x\":{}}}", esc(&format!("{:?}", x)))
                    }
                    None => opaque("uninit"),
                },
                FloatTy::F32 => match rd(4) {
                    Some(v) => {
                        let x = f32::from_bits(v as u32);
                        format!("{{\"v\":\"float\",\"x\":{}}}", esc(&format!("{:?}", x)))
                    }
                    None => opaque("uninit"),
                },
                _ => opaque("float"),
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let a = match ptr(off) {
                    Some(a) => a,
                    None => return opaque("noprov"),
                };
                let base = rd(8).unwrap_or(0) as usize;
                match GlobalAlloc::from(a) {
                    GlobalAlloc::Memory(m) => {
                        let inner = match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let off2 = off + 8;
                                let mut n: u128 = 0;
                                for k in 0..8 {
                                    if let Some(Some(b)) = al.bytes.get(off2 + k) {
                                        n |= (*b as u128) << (8 * k);
                                    }
                                }
                                let bs: Vec<u8> = m.bytes[base..base + n as usize]
                                    .iter().map(|b| b.unwrap_or(0)).collect();
                                format!("{{\"v\":\"str\",\"x\":{}}}", esc(&String::from_utf8_lossy(&bs)))
                            }
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let off2 = off + 8;
                                let mut n: u128 = 0;
                                for k in 0..8 {
                                    if let Some(Some(b)) = al.bytes.get(off2 + k) {
                                        n |= (*b as u128) << (8 * k);
                                    }
                                }
                                let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if n > 4096 { return opaque("long"); }
                                let mut v = vec![];
                                for i in 0..n as usize {
                                    v.push(self.alloc_val(&m, base + i * sz, el));
                                }
                                format!("{{\"v\":\"array\",\"x\":{}}}", arr(&v))
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => return opaque("dyn"),
                            _ => self.alloc_val(&m, base, e),
                        };
                        format!("{{\"v\":\"ref\",\"t\":{},\"x\":{}}}", ti, inner)
                    }
                    GlobalAlloc::Static(d) => format!("{{\"v\":\"static\",\"t\":{},\"n\":{}}}", ti, esc(&d.name())),
                    GlobalAlloc::Function(i) => {
                        let k = self.inst(i);
                        format!("{{\"v\":\"fn\",\"i\":{}}}", k)
                    }
                    _ => opaque("galloc"),
                }
            }
            RigidTy::FnPtr(_) => match ptr(off).map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => {
                    let k = self.inst(i);
                    format!("{{\"v\":\"fn\",\"i\":{}}}", k)
                }
                _ => opaque("fnptr"),
            },
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                if n > 4096 { return opaque("long"); }
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.alloc_val(al, off + i * sz, e));
                }
                format!("{{\"v\":\"array\",\"x\":{}}}", arr(&v))
            }
            RigidTy::Tuple(ts) => {
                let sh = match t.layout() { Ok(l) => l.shape(), Err(_) => return opaque("layout") };
                if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                    let mut v = vec![];
                    for (i, ft) in ts.iter().enumerate() {
                        v.push(self.alloc_val(al, off + offsets[i].bytes(), *ft));
                    }
                    return format!("{{\"v\":\"agg\",\"t\":{},\"i\":0,\"x\":{}}}", ti, arr(&v));
                }
                if ts.is_empty() { return format!("{{\"v\":\"agg\",\"t\":{},\"i\":0,\"x\":[]}}", ti); }
                opaque("tuple")
            }
            RigidTy::Adt(d, a) if d.kind() == AdtKind::Struct => {
                let sh = match t.layout() { Ok(l) => l.shape(), Err(_) => return opaque("layout") };
                if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                    let vs = d.variants();
                    let mut v = vec![];
                    for (i, f) in vs[0].fields().iter().enumerate() {
                        let ft = f.ty_with_args(&a);
                        v.push(self.alloc_val(al, off + offsets[i].bytes(), ft));
                    }
                    return format!("{{\"v\":\"agg\",\"t\":{},\"i\":0,\"x\":{}}}", ti, arr(&v));
                }
                opaque("struct")
            }
            RigidTy::Adt(d, ga) if d.kind() == AdtKind::Enum => {
                use rustc_public::abi::{TagEncoding, VariantsShape};
                let sh = match t.layout() { Ok(l) => l.shape(), Err(_) => return opaque("layout") };
                let (idx, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let to = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => return opaque("enum"),
                        };
                        let mi = rustc_public::target::MachineInfo::target();
                        let n = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.size(&mi).bytes(),
                        };
                        let isptr = ptr(off + to).is_some();
                        let mut v: u128 = 0;
                        for k in 0..n {
                            match al.bytes.get(off + to + k) {
                                Some(Some(b)) => v |= (*b as u128) << (8 * k),
                                _ => if !isptr { return opaque("uninit") },
                            }
                        }
                        let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                match d.variants().iter().find(|vd| d.discriminant_for_variant(vd.idx()).val & mask == v) {
                                    Some(vd) => vd.idx().to_index(),
                                    None => return opaque("enum"),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let (s, e) = (niche_variants.start().to_index() as u128, niche_variants.end().to_index() as u128);
                                let rel = v.wrapping_sub(*niche_start) & mask;
                                if !isptr && rel <= e - s { (s + rel) as usize } else { untagged_variant.to_index() }
                            }
                        };
                        (idx, variants[idx].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    VariantsShape::Single { index } => match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => (index.to_index(), offsets.iter().map(|o| o.bytes()).collect()),
                        FieldsShape::Primitive => (index.to_index(), vec![]),
                        _ => return opaque("enum-single"),
                    },
                    _ => return opaque("enum"),
                };
                let vs = d.variants();
                let vd = match vs.iter().find(|v| v.idx().to_index() == idx) { Some(v) => v, None => return opaque("enum") };
                let fs = vd.fields();
                if fs.len() != offs.len() { return opaque("enum-fields"); }
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let ft = f.ty_with_args(&ga);
                    v.push(self.alloc_val(al, off + offs[i], ft));
                }
                format!("{{\"v\":\"agg\",\"t\":{},\"i\":{},\"x\":{}}}", ti, idx, arr(&v))
            }
            _ => opaque("ty"),
        }
    }

    fn mirconst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => format!("{{\"v\":\"zst\",\"t\":{}}}", ti),
            ConstantKind::Allocated(al) => {
                let s = self.alloc_val(al, 0, t);
                format!("{{\"v\":\"c\",\"t\":{},\"x\":{}}}", ti, s)
            }
            ConstantKind::Ty(tc) => {
                let s = self.tyconst(tc);
                format!("{{\"v\":\"tc\",\"t\":{},\"x\":{}}}", ti, s)
            }
            k => format!("{{\"v\":\"opaque\",\"t\":{},\"why\":{}}}", ti, esc(&format!("{:?}", k))),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".into(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    format!("[\"f\",{},{}]", i, t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".into(),
            });
        }
        format!("[{},{}]", p.local, arr(&v))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"cp\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"mv\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"o\":\"k\",\"c\":{}}}", self.mirconst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("{{\"o\":\"rt\",\"r\":\"{:?}\"}}", r),
        }
    }
    fn note_unsize(&mut self, from: Ty, to: Ty) {
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
                TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|g| g.ty().copied()),
                _ => None,
            }
        }
        let (Some(f), Some(t)) = (pointee(from), pointee(to)) else { return };
        if let TyKind::RigidTy(RigidTy::Dynamic(..)) = t.kind() {
            if let TyKind::RigidTy(RigidTy::Dynamic(..)) = f.kind() {
                return;
            }
            if !self.vtables.insert((f, t)) {
                return;
            }
            if let Some(p) = t.kind().trait_principal() {
                let tr = p.with_self_ty(f).skip_binder();
                let mut es = vec![];
                for e in tr.vtable_entries() {
                    match e {
                        VtblEntry::Method(i) => es.push(format!("{}", self.inst(i))),
                        _ => es.push("null".into()),
                    }
                }
                let (fi, ti) = (self.ty(f), self.ty(t));
                self.vt_out.push(format!("{{\"t\":{},\"dyn\":{},\"e\":{}}}", fi, ti, arr(&es)));
            }
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("{{\"r\":\"ref\",\"p\":{}}}", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("{{\"r\":\"ref\",\"p\":{}}}", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"r\":\"copy\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"copy\",\"p\":{}}}", self.place(p)),
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"x\":{}}}", self.op(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("{{\"r\":\"discr\",\"p\":{},\"t\":{}}}", self.place(p), t)
            }
            Rvalue::Len(p) => format!("{{\"r\":\"len\",\"p\":{}}}", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let o = self.op(o);
                let n = self.tyconst(n);
                format!("{{\"r\":\"repeat\",\"x\":{},\"n\":{}}}", o, n)
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"x\":{},\"t\":{}}}", u, self.op(o), t)
            }
            Rvalue::BinaryOp(b, x, y) | Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!(
                    "{{\"r\":\"bin\",\"ck\":{},\"op\":\"{:?}\",\"x\":{},\"y\":{},\"t\":{}}}",
                    matches!(r, Rvalue::CheckedBinaryOp(..)), b, self.op(x), self.op(y), t
                )
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).ok();
                if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Some(f)) = (k, from) {
                    self.note_unsize(f, *t);
                }
                let fi = from.map(|t| self.ty(t) as i64).unwrap_or(-1);
                let ti = self.ty(*t);
                format!(
                    "{{\"r\":\"cast\",\"k\":{},\"x\":{},\"from\":{},\"t\":{}}}",
                    esc(&format!("{:?}", k)), self.op(o), fi, ti
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let (kind, vi, fi) = match k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, vi, _, _, f) => ("adt", vi.to_index(), *f),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                let t = r.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!(
                    "{{\"r\":\"agg\",\"k\":\"{}\",\"vi\":{},\"uf\":{},\"t\":{},\"x\":{}}}",
                    kind, vi, fi.map(|f| f.to_string()).unwrap_or("null".into()), t, arr(&v)
                )
            }
            Rvalue::ThreadLocalRef(_) => "{\"r\":\"other\"}".into(),
        }
    }
    fn callee(&mut self, func: &Operand, locals: &[LocalDecl]) -> String {
        let t = match func.ty(locals) {
            Ok(t) => t,
            Err(_) => return "{}".into(),
        };
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            if ANCHORS.contains(&d.name().as_str()) {
                self.anchors.insert(d.name(), d);
            }
            let mut s = format!("\"def\":{},\"args\":{}", esc(&d.name()), self.args(&a));
            if let Ok(i) = Instance::resolve(d, &a) {
                match i.kind {
                    InstanceKind::Virtual { idx } => {
                        let _ = write!(s, ",\"virt\":{}", idx);
                    }
                    _ => {
                        let k = self.inst(i);
                        let _ = write!(s, ",\"inst\":{}", k);
                    }
                }
            }
            format!("{{{}}}", s)
        } else {
            format!("{{\"ptr\":{}}}", self.op(func))
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let mut ls = vec![];
        for l in locals.iter() {
            ls.push(format!("{}", self.ty(l.ty)));
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, esc(&v.name)));
            }
        }
        let mut bs = vec![];
        for bb in b.blocks.iter() {
            let mut ss = vec![];
            for st in bb.statements.iter() {
                let s = match &st.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r, &locals);
                        format!("{{\"s\":\"=\",\"p\":{},\"r\":{}", p, r)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("{{\"s\":\"sd\",\"p\":{},\"v\":{}", self.place(place), variant_index.to_index())
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!("{{\"s\":\"cno\",\"src\":{},\"dst\":{},\"n\":{}", self.op(&c.src), self.op(&c.dst), self.op(&c.count))
                    }
                    _ => continue,
                };
                let sp = self.span(&st.source_info.span);
                ss.push(format!("{},\"l\":{}}}", s, sp));
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"t\":\"goto\",\"to\":{}", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let brs: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let ty = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!(
                        "{{\"t\":\"switch\",\"x\":{},\"ty\":{},\"br\":{},\"ow\":{}",
                        self.op(discr), ty, arr(&brs), targets.otherwise()
                    )
                }
                TerminatorKind::Resume => "{\"t\":\"resume\"".into(),
                TerminatorKind::Abort => "{\"t\":\"abort\"".into(),
                TerminatorKind::Return => "{\"t\":\"ret\"".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreach\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("{{\"t\":\"drop\",\"p\":{},\"to\":{}", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.callee(func, &locals);
                    let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    let ats: Vec<String> = args
                        .iter()
                        .map(|o| o.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1).to_string())
                        .collect();
                    let rt = destination.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":{},\"at\":{},\"d\":{},\"rt\":{},\"to\":{}",
                        f, arr(&a), arr(&ats), self.place(destination), rt,
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds",
                        AssertMessage::Overflow(..) => "overflow",
                        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "divzero",
                        _ => "other",
                    };
                    format!("{{\"t\":\"assert\",\"x\":{},\"e\":{},\"to\":{},\"m\":\"{}\"", self.op(cond), expected, target, m)
                }
                TerminatorKind::InlineAsm { .. } => "{\"t\":\"asm\"".into(),
            };
            let sp = self.span(&bb.terminator.source_info.span);
            bs.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}}}", arr(&ss), t, sp));
        }
        let sp = self.span(&b.span);
        format!(
            "\"locals\":{},\"names\":{},\"argc\":{},\"spread\":{},\"span\":{},\"blocks\":{}",
            arr(&ls), arr(&names), b.arg_locals().len(),
            b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into()), sp, arr(&bs)
        )
    }
    fn descend(&self, krate: &str, name: &str, dname: &str) -> bool {
        if krate == "factrs" || self.is_harness(krate) {
            return !(name.ends_with("::fmt") || name.contains("as std::fmt::"));
        }
        if matches!(krate, "core" | "alloc" | "std") {
            return (self.deep.iter().any(|d| name.contains(d.as_str())) || PLAIN.iter().any(|d| dname.starts_with(d)))
                && !name.contains("::fmt::")
                && !name.contains("panicking");
        }
        if matches!(krate, "downcast_rs" | "re_types" | "re_types_core") {
            return true;
        }
        false
    }
    fn emit_inst(&mut self, k: usize) {
        let i = self.inst_list[k];
        let name = i.name();
        let ity = i.ty();
        // definition id
        let (dname, krate, args) = match ity.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => (d.name(), d.krate().name, Some(a)),
            TyKind::RigidTy(RigidTy::Closure(d, _)) => (d.name(), d.krate().name, None),
            _ => (name.clone(), String::new(), None),
        };
        let mut s = format!(
            "\"name\":{},\"def\":{},\"crate\":{},\"kind\":{}",
            esc(&name), esc(&dname), esc(&krate), esc(&format!("{:?}", i.kind))
        );
        if let Some(a) = args {
            let a = self.args(&a);
            let _ = write!(s, ",\"args\":{}", a);
        }
        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = ity.kind() {
            if let Some(ai) = d.associated_item() {
                match &ai.container {
                    AssocContainer::TraitImpl(t) => {
                        let _ = write!(s, ",\"ti\":{}", esc(&t.name()));
                    }
                    AssocContainer::Trait => {
                        let _ = write!(s, ",\"tr\":{}", esc(&d.name()));
                    }
                    _ => {}
                }
            }
        }
        // a constructor used as a function: its result
        if let Some(sig) = ity.kind().fn_sig() {
            let o = sig.skip_binder().output();
            let last = dname.rsplit("::").next().unwrap_or("");
            if last.starts_with(|c: char| c.is_ascii_uppercase()) && matches!(o.kind(), TyKind::RigidTy(RigidTy::Adt(..))) {
                let t = self.ty(o);
                let _ = write!(s, ",\"rty\":{}", t);
            }
        }
        let isshim = matches!(i.kind, InstanceKind::Shim);
        if self.descend(&krate, &name, &dname) && i.has_body() && !(isshim && dname.contains("drop")) {
            if let Some(b) = i.body() {
                let bs = self.body(&b);
                let _ = write!(s, ",\"body\":{{{}}}", bs);
            }
        }
        self.inst_out.insert(k, format!("{{{}}}", s));
    }
    /// the crate's own implementations of the traits library code calls back through (sorting, iterating)
    fn local_impls(&mut self) -> bool {
        let mut any = false;
        let anchors: Vec<(String, FnDef)> = self.anchors.iter().map(|(n, d)| (n.clone(), *d)).collect();
        for t in self.adts.clone() {
            for (n, d) in &anchors {
                if !self.tried.insert((n.clone(), t)) {
                    continue;
                }
                any = true;
                let k = if n.contains("Partial") { 2 } else { 1 };
                let a = GenericArgs(vec![GenericArgKind::Type(t); k]);
                if let Ok(i) = Instance::resolve(*d, &a) {
                    let kr = match i.ty().kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, _)) => d.krate().name,
                        _ => continue,
                    };
                    if kr == "factrs" || self.is_harness(&kr) {
                        let (ti, k) = (self.ty(t), self.inst(i));
                        self.impls.push(format!("[{},{},{}]", ti, esc(n), k));
                    }
                }
            }
        }
        any
    }
    fn drain(&mut self) {
        loop {
            if let Some(t) = self.ty_queue.pop_front() {
                self.emit_ty(t);
                continue;
            }
            if let Some(k) = self.inst_queue.pop_front() {
                self.emit_inst(k);
                continue;
            }
            if self.local_impls() {
                continue;
            }
            break;
        }
    }
}

fn analyze() -> ControlFlow<()> {
    let out = match std::env::var("MIRDUMP_OUT") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let deep = std::env::var("MIRDUMP_DEEP").unwrap_or_default();
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_out: vec![],
        ty_queue: VecDeque::new(),
        insts: HashMap::new(),
        inst_list: vec![],
        inst_queue: VecDeque::new(),
        inst_out: BTreeMap::new(),
        vtables: HashSet::new(),
        vt_out: vec![],
        files: HashMap::new(),
        file_list: vec![],
        deep: deep.split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        anchors: BTreeMap::new(),
        adts: vec![],
        tried: HashSet::new(),
        impls: vec![],
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.ty().kind(), TyKind::RigidTy(RigidTy::FnDef(..))) {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let k = cx.inst(i);
            roots.push(format!("[{},{}]", esc(&item.name()), k));
        }
    }
    cx.drain();
    let mut s = String::new();
    let _ = write!(s, "{{\"roots\":{},\n\"files\":{},\n\"types\":[", arr(&roots),
        arr(&cx.file_list.iter().map(|f| esc(f)).collect::<Vec<_>>()));
    s.push_str(&cx.ty_out.join(",\n"));
    s.push_str("],\n\"vtables\":[");
    s.push_str(&cx.vt_out.join(",\n"));
    s.push_str("],\n\"impls\":[");
    s.push_str(&cx.impls.join(",\n"));
    s.push_str("],\n\"insts\":[");
    let v: Vec<String> = (0..cx.inst_list.len()).map(|k| cx.inst_out.remove(&k).unwrap()).collect();
    s.push_str(&v.join(",\n"));
    s.push_str("]}\n");
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if !is_target {
        std::env::remove_var("MIRDUMP_OUT");
    }
    let code = match run!(&args, analyze) {
        Ok(_) => 0,
        Err(rustc_public::CompilerError::Skipped) => 0,
        Err(_) => 1,
    };
    std::process::exit(code);
}
