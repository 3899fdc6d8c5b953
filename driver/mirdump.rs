// MIR extractor: a rustc wrapper that, for the workspace crates, writes the type-checked,
// monomorphised MIR of every function reachable from the crate's own functions as JSON.
// It only reads compiler data structures; nothing of the analysed program is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateItem, CrateDefType};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }

struct Cx {
    local: String,
    tys: HashMap<Ty, usize>,
    ty_json: Vec<Option<String>>,
    ty_todo: VecDeque<(Ty, usize)>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    inst_todo: VecDeque<usize>,
    allocs: HashMap<AllocId, usize>,
    alloc_json: Vec<Option<String>>,
    alloc_todo: VecDeque<(AllocId, usize)>,
    files: BTreeMap<String, usize>,
    next_def: Option<FnDef>,
    iters: Vec<Ty>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(None);
        self.ty_todo.push_back((t, i));
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) { return *k; }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        self.inst_todo.push_back(k);
        k
    }
    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(k) = self.allocs.get(&a) { return *k; }
        let k = self.alloc_json.len();
        self.allocs.insert(a, k);
        self.alloc_json.push(None);
        self.alloc_todo.push_back((a, k));
        k
    }
    fn file(&mut self, sp: &Span) -> usize {
        let f = sp.get_filename();
        let f = f.to_string();
        let n = self.files.len();
        *self.files.entry(f).or_insert(n)
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(n) => v.push(format!("{{\"n\":{}}}", n)),
                    Err(_) => v.push("{\"n\":null}".into()),
                },
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(&v)
    }
    fn allocation(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in &a.bytes { match b { Some(x) => { let _ = write!(hex, "{:02x}", x); } None => hex.push_str("__") } }
        let mut pv = vec![];
        for (off, p) in &a.provenance.ptrs { let k = self.alloc(p.0); pv.push(format!("[{},{}]", off, k)); }
        format!("{{\"b\":{},\"p\":{}}}", js(&hex), arr(&pv))
    }
    fn emit_ty(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let size = match t.layout() { Ok(l) => { let s = l.shape(); if s.is_sized() { format!("{}", s.size.bytes()) } else { "null".into() } } Err(_) => "null".into() };
        let body = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"s\":true,\"w\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"s\":false,\"w\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect(); format!("\"k\":\"tuple\",\"e\":{}", arr(&v)) }
                RigidTy::Array(e, n) => { let e = self.ty(*e); let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()); format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n) }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
                RigidTy::RawPtr(p, m) => format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(*p), matches!(m, Mutability::Mut)),
                RigidTy::Ref(_, p, m) => format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(*p), matches!(m, Mutability::Mut)),
                RigidTy::FnDef(d, a) => {
                    let i = Instance::resolve(*d, a).ok().map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    format!("\"k\":\"fndef\",\"name\":{},\"inst\":{},\"args\":{}", js(&d.name().to_string()), i, self.gargs(a))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let i = Instance::resolve_closure(*d, a, ClosureKind::FnMut).ok().map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    format!("\"k\":\"closure\",\"name\":{},\"inst\":{}", js(&d.name().to_string()), i)
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Adt(d, a) => {
                    let ak = d.kind();
                    let mut vs = vec![];
                    let name = d.name().to_string();
                    const ADAPTERS: &[&str] = &["Map", "Filter", "FilterMap", "Cloned", "Copied", "Chain", "Zip", "Enumerate", "Rev", "Take", "Skip", "TakeWhile", "SkipWhile", "MapWhile", "StepBy", "Peekable", "FlatMap", "Flatten", "Fuse", "Once", "Empty", "Inspect"];
                    if name.strip_prefix("std::iter::").map_or(false, |n| ADAPTERS.contains(&n)) { self.iters.push(t); }
                    for v in d.variants_iter() {
                        let dis = if ak.is_enum() { format!("{}", d.discriminant_for_variant(v.idx()).val) } else { "0".into() };
                        let mut fs = vec![];
                        for f in v.fields() { let ft = f.ty_with_args(a); let ft = self.ty(ft); fs.push(format!("[{},{}]", js(&f.name.to_string()), ft)); }
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(&v.name().to_string()), dis, arr(&fs)));
                    }
                    let kk = if ak.is_enum() { "enum" } else if ak.is_struct() { "struct" } else { "union" };
                    format!("\"k\":\"adt\",\"name\":{},\"krate\":{},\"ak\":\"{}\",\"args\":{},\"v\":{}", js(&name), js(&d.krate().name.to_string()), kk, self.gargs(a), arr(&vs))
                }
                other => format!("\"k\":\"other\",\"d\":{}", js(&format!("{:?}", other).chars().take(80).collect::<String>())),
            },
            _ => format!("\"k\":\"alias\",\"d\":{}", js(&format!("{:?}", kind).chars().take(80).collect::<String>())),
        };
        // field offsets for structs (layout facts)
        let mut offs = String::new();
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = &kind {
            if d.kind().is_enum() {
                if let Ok(l) = t.layout() {
                    use rustc_public::abi::*;
                    let sh = l.shape();
                    let fo: Vec<usize> = if let FieldsShape::Arbitrary { offsets } = sh.fields.clone() { offsets.iter().map(|o| o.bytes()).collect() } else { vec![] };
                    match &sh.variants {
                        VariantsShape::Single { index } => { offs = format!(",\"lay\":{{\"one\":{},\"off\":{:?}}}", vidx(index), fo); }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let prim = match tag { Scalar::Initialized { value, .. } => *value, Scalar::Union { value } => *value };
                            let ts = match prim { Primitive::Int { length, .. } => length.bits() / 8, _ => 8 };
                            let enc = match tag_encoding {
                                TagEncoding::Direct => "null".to_string(),
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!("[{},{},{},{}]", vidx(untagged_variant), vidx(niche_variants.start()), vidx(niche_variants.end()), niche_start),
                            };
                            let vo: Vec<String> = variants.iter().map(|v| format!("{:?}", v.offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>())).collect();
                            offs = format!(",\"lay\":{{\"to\":{},\"ts\":{},\"enc\":{},\"off\":{}}}", fo.get(*tag_field).copied().unwrap_or(0), ts, enc, arr(&vo));
                        }
                        _ => {}
                    }
                }
            }
            if d.kind().is_struct() {
                if let Ok(l) = t.layout() {
                    if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = l.shape().fields.clone() {
                        let v: Vec<String> = offsets.iter().map(|o| o.bytes().to_string()).collect();
                        offs = format!(",\"off\":{}", arr(&v));
                    }
                }
            }
        }
        format!("{{{},\"size\":{},\"s_\":{}{}}}", body, size, js(&format!("{}", t)), offs)
    }
    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() { return format!("[{}]", p.local); }
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", vidx(v)),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            });
        }
        arr(&v)
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"r\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let ty = c.ty();
        let t = self.ty(ty);
        match c.kind() {
            ConstantKind::Allocated(a) => { let a = self.allocation(a); format!("[\"k\",{},{}]", t, a) }
            ConstantKind::ZeroSized => format!("[\"k\",{},null]", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => { let a = self.allocation(a); format!("[\"k\",{},{}]", t, a) }
                TyConstKind::ZSTValue(_) => format!("[\"k\",{},null]", t),
                _ => match tc.eval_target_usize() { Ok(n) => format!("[\"n\",{},{}]", t, n), Err(_) => format!("[\"u\",{},\"tyconst\"]", t) },
            },
            ConstantKind::Unevaluated(u) => format!("[\"u\",{},{}]", t, js(&format!("{:?}", u.def.name()))),
            ConstantKind::Param(p) => format!("[\"u\",{},{}]", t, js(&p.name)),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{},\"raw\"]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},\"{}\"]", self.place(p), if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shr" }),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(b, x) => format!("[\"un\",\"{:?}\",{}]", b, self.op(x)),
            Rvalue::Cast(k, x, t) => format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(x), self.ty(*t)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", js(&i.name().to_string())),
            Rvalue::Aggregate(k, os) => {
                let v: Vec<String> = os.iter().map(|o| self.op(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, a, _, fi) => { let t = d.ty_with_args(a); format!("[\"adt\",{},{},{}]", self.ty(t), vidx(vi), fi.map(|x| x.to_string()).unwrap_or("null".into())) }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", kk, arr(&v))
            }
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut vars = vec![];
        for v in &b.var_debug_info { if let Some(l) = v.local() { vars.push(format!("[{},{}]", js(&v.name.to_string()), l)); } }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rvalue(r); st.push(format!("[\"=\",{},{},{}]", p, r, line)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(format!("[\"sd\",{},{},{}]", p, vidx(variant_index), line)); }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let o = self.op(o); st.push(format!("[\"assume\",{}]", o)); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => { let (a, d, n) = (self.op(&c.src), self.op(&c.dst), self.op(&c.count)); st.push(format!("[\"copy\",{},{},{}]", a, d, n)); }
                    _ => {}
                }
            }
            let sp = &bb.terminator.source_info.span;
            let line = sp.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                    format!("[\"sw\",{},{},{},{},{}]", self.op(discr), arr(&v), targets.otherwise(), dt, line)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg { AssertMessage::Overflow(o, _, _) => format!("overflow {:?}", o), AssertMessage::BoundsCheck { .. } => "bounds".into(), AssertMessage::DivisionByZero(_) => "div0".into(), AssertMessage::RemainderByZero(_) => "rem0".into(), AssertMessage::OverflowNeg(_) => "overflow neg".into(), AssertMessage::MisalignedPointerDereference { .. } | AssertMessage::NullPointerDereference | AssertMessage::NullReferenceConstructed => "pointer".into(), _ => "other".into() };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, js(&m), target, line)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).unwrap();
                    let f = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                            if self.next_def.is_none() && d.name().to_string() == "std::iter::Iterator::next" { self.next_def = Some(d); }
                            match Instance::resolve(d, &a) {
                                Ok(i) => format!("[\"i\",{}]", self.inst(i)),
                                Err(_) => format!("[\"x\",{},{}]", js(&d.name().to_string()), self.gargs(&a)),
                            }
                        }
                        _ => format!("[\"p\",{}]", self.op(func)),
                    };
                    let av: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    let atys: Vec<String> = args.iter().map(|o| o.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into())).collect();
                    let fl = self.file(sp);
                    format!("[\"call\",{},{},{},{},{},{},{}]", f, arr(&av), self.place(destination), target.map(|t| t.to_string()).unwrap_or("null".into()), line, arr(&atys), fl)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[{},{}]", arr(&st), t));
        }
        format!("\"argc\":{},\"spread\":{},\"locals\":{},\"vars\":{},\"blocks\":{}", b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), arr(&locals), arr(&vars), arr(&blocks))
    }
    fn descend(&self, i: &Instance, name: &str, krate: &str) -> bool {
        if krate == self.local { return true; }
        if !i.has_body() { return false; }
        const PRUNE: &[&str] = &["::fmt::", "panicking::", "::io::", "::unicode", "::sort", "::str::pattern", "::backtrace", "::sync::", "::thread", "core::num::flt2dec", "core::num::dec2flt", "core::slice::memchr", "core::str::", "alloc::string", "std::collections", "alloc::collections", "hashbrown", "::rt::", "alloc::alloc", "alloc::raw_vec", "core::alloc", "::simd", "core::escape", "core::char", "core::ascii", "::ffi::", "::env::", "::fs::", "::net::", "::process::", "::time::", "std::hash", "core::hash"];
        if PRUNE.iter().any(|p| name.contains(p)) { return false; }
        matches!(krate, "core" | "alloc" | "std") || krate == "solana_program" || krate == "spl_token" || krate == "borsh"
    }
}

fn dump() -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let lname = krate.name.to_string();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    if !want.split(',').any(|w| w == lname) { return ControlFlow::Continue(()); }
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let mut cx = Cx { local: lname.clone(), tys: HashMap::new(), ty_json: vec![], ty_todo: VecDeque::new(), insts: HashMap::new(), inst_list: vec![], inst_todo: VecDeque::new(), allocs: HashMap::new(), alloc_json: vec![], alloc_todo: VecDeque::new(), files: BTreeMap::new(), next_def: None, iters: vec![] };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        let item: CrateItem = item;
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) || item.requires_monomorphization() { continue; }
        if let Ok(i) = Instance::try_from(item) { roots.push(cx.inst(i)); }
    }
    let mut adts = vec![];
    for a in krate.adts() { if !a.ty().kind().is_adt() { continue; } if a.generics_of().params.is_empty() || a.generics_of().params.iter().all(|p| matches!(p.kind, GenericParamDefKind::Lifetime)) { let t = a.ty(); adts.push(cx.ty(t).to_string()); } }
    let mut consts = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Const) || item.requires_monomorphization() { continue; }
        if let Ok(i) = Instance::try_from(item) {
            let t = item.ty();
            if let Ok(a) = i.try_const_eval(t) { let a = cx.allocation(&a); let t = cx.ty(t); consts.push(format!("[{},{},{}]", js(&item.name().to_string()), t, a)); }
        }
    }
    let mut fns: Vec<String> = vec![];
    loop {
        if let Some(k) = cx.inst_todo.pop_front() {
            let i = cx.inst_list[k];
            let def = i.def;
            let name = def.name().to_string();
            let kn = def.krate().name.to_string();
            let args = cx.gargs(&i.args());
            let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
            let full = i.name().to_string();
            let mut s = format!("{{\"id\":{},\"name\":{},\"full\":{},\"krate\":{},\"kind\":\"{}\",\"args\":{}", k, js(&name), js(&full), js(&kn), kind, args);
            let go = match i.kind { InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic => false, InstanceKind::Intrinsic => i.has_body(), InstanceKind::Shim => cx.descend(&i, &name, &kn) || kn == "core", InstanceKind::Item => cx.descend(&i, &name, &kn) };
            if go {
                if let Some(b) = i.body() {
                    let f = cx.file(&b.span);
                    let body = cx.body(&b);
                    let _ = write!(s, ",\"file\":{},\"line\":{},{}", f, b.span.get_lines().start_line, body);
                }
            }
            s.push('}');
            fns.push(s);
            continue;
        }
        if let Some((t, i)) = cx.ty_todo.pop_front() { let j = cx.emit_ty(t); cx.ty_json[i] = Some(j); continue; }
        if let Some((a, i)) = cx.alloc_todo.pop_front() {
            let j = match GlobalAlloc::from(a) {
                GlobalAlloc::Memory(m) => { let m = cx.allocation(&m); format!("[\"mem\",{}]", m) }
                GlobalAlloc::Function(f) => format!("[\"fn\",{}]", cx.inst(f)),
                GlobalAlloc::Static(d) => format!("[\"static\",{}]", js(&d.name().to_string())),
                GlobalAlloc::VTable(t, _) => format!("[\"vtable\",{}]", cx.ty(t)),
                GlobalAlloc::TypeId { ty } => format!("[\"typeid\",{}]", cx.ty(ty)),
            };
            cx.alloc_json[i] = Some(j);
            continue;
        }
        // whatever the specialised library code does with an iterator, it does in terms of `next`
        if let (Some(d), Some(t)) = (cx.next_def, cx.iters.pop()) {
            if let Ok(i) = Instance::resolve(d, &GenericArgs(vec![GenericArgKind::Type(t)])) { cx.inst(i); }
            continue;
        }
        break;
    }
    let mut files: Vec<(usize, String)> = cx.files.iter().map(|(a, b)| (*b, a.clone())).collect();
    files.sort();
    let fj: Vec<String> = files.iter().map(|x| js(&x.1)).collect();
    let tj: Vec<String> = cx.ty_json.iter().map(|x| x.clone().unwrap()).collect();
    let aj: Vec<String> = cx.alloc_json.iter().map(|x| x.clone().unwrap()).collect();
    let rj: Vec<String> = roots.iter().map(|x| x.to_string()).collect();
    let o = format!("{{\"crate\":{},\"files\":{},\"roots\":{},\"adts\":{},\"consts\":{},\n\"types\":[{}],\n\"allocs\":[{}],\n\"fns\":[\n{}\n]}}\n", js(&lname), arr(&fj), arr(&rj), arr(&adts), arr(&consts), tj.join(",\n"), aj.join(",\n"), fns.join(",\n"));
    std::fs::write(format!("{}/{}.json", out, lname), o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    if std::env::var("MIRDUMP_OUT").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=yes".into());
    }
    match rustc_public::run!(&args, dump) {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}

fn vidx(v: &VariantIdx) -> usize {
    let s = format!("{:?}", v);
    let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    d.parse().expect("variant index")
}
