//! gkv-driver: a rustc driver that dumps, as JSON, the monomorphic MIR of everything reachable
//! from the proof harnesses (functions listed by `#[no_mangle]`-free convention: every non generic
//! function of the local crate whose path contains `::h_`), together with the type table, constant
//! allocations and vtables the symbolic executor (gkv/) needs.  Nothing in the code is rewritten:
//! the JSON is the compiler's own MIR (at -Zmir-opt-level=0).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

#[derive(Default)]
struct Ctx {
    tids: HashMap<Ty, usize>,
    types: Vec<Value>,
    funcs: BTreeMap<String, Value>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    allocs: HashMap<AllocId, usize>,
    alloc_vals: Vec<Value>,
    vtables: BTreeMap<String, Value>,
    allow: Vec<String>,
}

fn krate_of(i: &Instance) -> String {
    i.def.krate().name.to_string()
}

impl Ctx {
    fn walk_ok(&self, i: &Instance) -> bool {
        if i.kind == InstanceKind::Shim {
            return true;
        }
        if i.kind != InstanceKind::Item {
            return false;
        }
        let k = krate_of(i);
        if k == "geokit" || k == "proofs" {
            return true;
        }
        let n = i.def.name().to_string();
        self.allow.iter().any(|p| n.starts_with(p.as_str()) || (p.starts_with('*') && n.contains(&p[1..])))
    }

    fn inst(&mut self, i: Instance) -> String {
        let key = match i.kind {
            InstanceKind::Virtual { idx } => format!("virtual#{}#{}", idx, i.name()),
            InstanceKind::Intrinsic => format!("intrinsic#{}", i.name()),
            _ => i.mangled_name().to_string(),
        };
        if self.seen.insert(key.clone()) {
            self.queue.push_back(i);
        }
        key
    }

    fn args(&mut self, a: &GenericArgs) -> Value {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(json!(self.ty(*t))),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(n) => v.push(json!(format!("{}", n))),
                    Err(_) => v.push(json!(format!("{:?}", c))),
                },
                GenericArgKind::Lifetime(_) => {}
            }
        }
        Value::Array(v)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.tids.insert(t, id);
        self.types.push(Value::Null);
        let v = self.ty_val(t);
        self.types[id] = v;
        id
    }

    fn layout(&self, t: Ty) -> Value {
        match t.layout() {
            Ok(l) => serde_json::to_value(l.shape()).unwrap_or(Value::Null),
            Err(_) => Value::Null,
        }
    }

    fn ty_val(&mut self, t: Ty) -> Value {
        let s = format!("{}", t);
        let kind = t.kind();
        let TyKind::RigidTy(r) = kind else {
            return json!({"k":"other","s":s});
        };
        match r {
            RigidTy::Bool => json!({"k":"bool","s":s}),
            RigidTy::Char => json!({"k":"char","s":s}),
            RigidTy::Int(_) => json!({"k":"int","s":s}),
            RigidTy::Uint(_) => json!({"k":"uint","s":s}),
            RigidTy::Float(_) => json!({"k":"float","s":s}),
            RigidTy::Never => json!({"k":"never","s":s}),
            RigidTy::Str => json!({"k":"str","s":s}),
            RigidTy::Array(e, n) => {
                let l = n.eval_target_usize().unwrap_or(0);
                let e = self.ty(e);
                json!({"k":"array","s":s,"e":e,"n":l,"layout":self.layout(t)})
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                json!({"k":"slice","s":s,"e":e})
            }
            RigidTy::Pat(e, _) => {
                let e = self.ty(e);
                json!({"k":"pat","s":s,"e":e})
            }
            RigidTy::RawPtr(e, _) => {
                let e = self.ty(e);
                json!({"k":"ptr","s":s,"e":e})
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(e);
                json!({"k":"ref","s":s,"e":e,"mut": m == Mutability::Mut})
            }
            RigidTy::FnDef(d, a) => {
                let args = self.args(&a);
                match Instance::resolve(d, &a) {
                    Ok(i) => {
                        let k = self.inst(i);
                        json!({"k":"fndef","s":s,"inst":k,"def":d.name().to_string(),"args":args,"name":i.name().to_string()})
                    }
                    Err(_) => json!({"k":"fndef","s":s,"inst":Value::Null,"def":d.name().to_string(),"args":args}),
                }
            }
            RigidTy::FnPtr(_) => json!({"k":"fnptr","s":s}),
            RigidTy::Closure(d, a) => {
                let inst = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok();
                let inst2 = Instance::resolve_closure(d, &a, ClosureKind::Fn).ok();
                let k = inst2.or(inst).map(|i| self.inst(i));
                json!({"k":"closure","s":s,"inst":k,"def":d.name().to_string(),"layout":self.layout(t)})
            }
            RigidTy::Dynamic(..) => json!({"k":"dyn","s":s}),
            RigidTy::Tuple(ts) => {
                let l: Vec<usize> = ts.iter().map(|x| self.ty(*x)).collect();
                json!({"k":"tuple","s":s,"f":l,"layout":self.layout(t)})
            }
            RigidTy::Adt(d, a) => {
                let args = self.args(&a);
                let mut vs = vec![];
                let is_enum = d.kind() == AdtKind::Enum;
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        fs.push(json!([f.name.to_string(), self.ty(ft)]));
                    }
                    let discr = if is_enum { format!("{}", d.discriminant_for_variant(v.idx()).val) } else { "0".into() };
                    vs.push(json!({"name":v.name().to_string(),"fields":fs,"discr":discr}));
                }
                json!({"k":"adt","s":s,"name":d.name().to_string(),"args":args,
                    "kind":format!("{:?}", d.kind()),"variants":vs,"box":d.is_box(),"layout":self.layout(t)})
            }
            _ => json!({"k":"other","s":s}),
        }
    }

    fn allocation(&mut self, a: &Allocation) -> Value {
        let bytes: Vec<u8> = a.bytes.iter().map(|b| b.unwrap_or(0)).collect();
        let hex: String = bytes.iter().map(|b| format!("{:02x}", b)).collect();
        let ptrs: Vec<Value> = a.provenance.ptrs.iter().map(|(o, p)| json!([o, self.alloc(p.0)])).collect();
        json!({"bytes":hex,"ptrs":ptrs})
    }

    fn alloc(&mut self, id: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&id) {
            return *i;
        }
        let n = self.alloc_vals.len();
        self.allocs.insert(id, n);
        self.alloc_vals.push(Value::Null);
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => {
                let mut v = self.allocation(&a);
                v["k"] = json!("mem");
                v
            }
            GlobalAlloc::Function(i) => json!({"k":"fn","inst":self.inst(i)}),
            GlobalAlloc::Static(d) => match d.eval_initializer() {
                Ok(a) => {
                    let mut v = self.allocation(&a);
                    v["k"] = json!("mem");
                    v["static"] = json!(d.name().to_string());
                    v["ty"] = json!(self.ty(d.ty()));
                    v
                }
                Err(_) => json!({"k":"static","name":d.name().to_string()}),
            },
            GlobalAlloc::VTable(t, Some(tr)) => {
                let key = self.vtable(t, &tr.value);
                json!({"k":"vtable","key":key})
            }
            _ => json!({"k":"other"}),
        };
        self.alloc_vals[n] = v;
        n
    }

    fn vtable(&mut self, t: Ty, e: &ExistentialTraitRef) -> String {
        let tid = self.ty(t);
        let key = format!("{}|{}", tid, e.def_id.name());
        if self.vtables.contains_key(&key) {
            return key;
        }
        self.vtables.insert(key.clone(), Value::Null);
        let tr = TraitRef::new(e.def_id, t, &e.generic_args);
        let mut l = vec![];
        for ent in tr.vtable_entries() {
            match ent {
                VtblEntry::Method(i) => {
                    let k = self.inst(i);
                    l.push(json!({"inst":k,"name":i.name().to_string(),"def":i.def.name().to_string()}));
                }
                VtblEntry::TraitVPtr(_) => l.push(json!("super")),
                _ => l.push(Value::Null),
            }
        }
        self.vtables.insert(key.clone(), json!({"ty":tid,"trait":e.def_id.name().to_string(),"entries":l}));
        key
    }

    fn place(&mut self, p: &Place) -> Value {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => json!(["deref"]),
                ProjectionElem::Field(i, t) => json!(["field", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["index", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["cindex", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["subslice", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["downcast", serde_json::to_value(v).unwrap()]),
                ProjectionElem::OpaqueCast(_) => json!(["opaque"]),
            });
        }
        json!([p.local, pr])
    }

    fn constant(&mut self, c: &ConstOperand) -> Value {
        let t = c.const_.ty();
        let tid = self.ty(t);
        match c.const_.kind() {
            ConstantKind::Allocated(a) => {
                let mut v = self.allocation(a);
                v["k"] = json!("alloc");
                v["ty"] = json!(tid);
                json!(["const", v])
            }
            ConstantKind::ZeroSized => json!(["const", {"k":"zst","ty":tid}]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let mut v = self.allocation(a);
                    v["k"] = json!("alloc");
                    v["ty"] = json!(tid);
                    json!(["const", v])
                }
                _ => json!(["const", {"k":"zst","ty":tid}]),
            },
            k => json!(["const", {"k":"other","ty":tid,"s":format!("{:?}", k)}]),
        }
    }

    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["copy", self.place(p)]),
            Operand::Move(p) => json!(["move", self.place(p)]),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(_) => json!(["rtcheck"]),
        }
    }

    fn unsize(&mut self, from: Ty, to: Ty) {
        // find (T, dyn Trait) pairs behind pointers
        let f = pointee(from);
        let t = pointee(to);
        if let (Some(f), Some(t)) = (f, t) {
            if let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = t.kind() {
                if let TyKind::RigidTy(RigidTy::Dynamic(..)) = f.kind() {
                    return;
                }
                for p in preds {
                    if let ExistentialPredicate::Trait(e) = p.value {
                        self.vtable(f, &e);
                    }
                }
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> Value {
        match r {
            Rvalue::AddressOf(_, p) => json!(["addrof", self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<Value> = ops.iter().map(|x| self.operand(x)).collect();
                match k {
                    AggregateKind::Array(t) => json!(["array", self.ty(*t), o]),
                    AggregateKind::Tuple => json!(["tuple", o]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        json!(["adt", self.ty(t), serde_json::to_value(v).unwrap(), o, f])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        json!(["closure", self.ty(t), o])
                    }
                    AggregateKind::RawPtr(t, _) => json!(["rawptr", self.ty(*t), o]),
                    _ => json!(["unsupported", format!("{:?}", k)]),
                }
            }
            Rvalue::BinaryOp(op, a, b) => json!(["bin", format!("{:?}", op), self.operand(a), self.operand(b)]),
            Rvalue::CheckedBinaryOp(op, a, b) => json!(["checked", format!("{:?}", op), self.operand(a), self.operand(b)]),
            Rvalue::Cast(k, o, t) => {
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k {
                    if let Ok(ft) = o.ty(locals) {
                        self.unsize(ft, *t);
                    }
                }
                let ft = o.ty(locals).ok().map(|x| self.ty(x));
                json!(["cast", format!("{:?}", k), self.operand(o), self.ty(*t), ft])
            }
            Rvalue::CopyForDeref(p) => json!(["use", ["copy", self.place(p)]]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).ok().map(|x| self.ty(x));
                json!(["discr", self.place(p), t])
            }
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Ref(_, k, p) => json!(["ref", self.place(p), matches!(k, BorrowKind::Mut { .. })]),
            Rvalue::Reborrow(_, _, p) => json!(["reborrow", self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.operand(o), n.eval_target_usize().unwrap_or(0)]),
            Rvalue::UnaryOp(op, o) => json!(["un", format!("{:?}", op), self.operand(o)]),
            Rvalue::Use(o, _) => json!(["use", self.operand(o)]),
            Rvalue::ThreadLocalRef(_) => json!(["unsupported", "tls"]),
            #[allow(unreachable_patterns)]
            _ => json!(["unsupported", "rvalue"]),
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        let locals = b.locals().to_vec();
        let ltys: Vec<usize> = locals.iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pv = self.place(p);
                        let rv = self.rvalue(r, &locals);
                        let line = s.source_info.span.get_lines().start_line;
                        st.push(json!(["assign", pv, rv, line]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(json!(["setdiscr", self.place(place), serde_json::to_value(variant_index).unwrap()]))
                    }
                    StatementKind::StorageLive(l) => st.push(json!(["live", l])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    StatementKind::Intrinsic(_) => st.push(json!(["unsupported", "copy_nonoverlapping"])),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> = targets.branches().map(|(v, t)| json!([format!("{}", v), t])).collect();
                    let dt = discr.ty(&locals).ok().map(|x| self.ty(x));
                    json!(["switch", self.operand(discr), br, targets.otherwise(), dt])
                }
                TerminatorKind::Resume | TerminatorKind::Abort => json!(["resume"]),
                TerminatorKind::Return => json!(["return"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Drop { place, target, .. } => json!(["drop", self.place(place), target]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<Value> = args.iter().map(|x| self.operand(x)).collect();
                    let at: Vec<Value> = args.iter().map(|x| json!(x.ty(&locals).ok().map(|x| self.ty(x)))).collect();
                    let ft = func.ty(&locals).ok().map(|x| self.ty(x));
                    let dt = destination.ty(&locals).ok().map(|x| self.ty(x));
                    json!(["call", self.operand(func), a, self.place(destination), target, ft, at, dt])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    json!(["assert", self.operand(cond), expected, format!("{:?}", msg).chars().take(80).collect::<String>(), target])
                }
                TerminatorKind::InlineAsm { .. } => json!(["unsupported", "asm"]),
            };
            blocks.push(json!({"s":st,"t":t,"l":line}));
        }
        json!({"locals":ltys,"argc":b.arg_locals().len(),"blocks":blocks})
    }
}

fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            let n = d.name().to_string();
            if d.is_box() || n.ends_with("Rc") || n.ends_with("Arc") {
                if let Some(GenericArgKind::Type(t)) = a.0.first() {
                    return Some(*t);
                }
            }
            None
        }
        _ => None,
    }
}

fn analyze(out: String, allow: String) -> ControlFlow<(), ()> {
    let mut cx = Ctx::default();
    cx.allow = std::fs::read_to_string(&allow)
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        let n = item.name().to_string();
        if n.contains("::h_") && matches!(item.kind(), rustc_public::ItemKind::Fn) && !item.requires_monomorphization() {
            if n.rsplit("::").next().map(|x| x.starts_with("h_")).unwrap_or(false) {
                if let Ok(i) = Instance::try_from(item) {
                    let k = cx.inst(i);
                    roots.push(json!([n, k]));
                }
            }
        }
    }
    while let Some(i) = cx.queue.pop_front() {
        let key = match i.kind {
            InstanceKind::Virtual { idx } => format!("virtual#{}#{}", idx, i.name()),
            InstanceKind::Intrinsic => format!("intrinsic#{}", i.name()),
            _ => i.mangled_name().to_string(),
        };
        let args = cx.args(&i.args());
        let mut v = json!({"name":i.name().to_string(),"def":i.def.name().to_string(),"krate":krate_of(&i),
            "kind":format!("{:?}", i.kind),"args":args});
        let sp = i.def.span();
        v["span"] = json!(format!("{}:{}", sp.get_filename(), sp.get_lines().start_line));
        if let Some(n) = i.intrinsic_name() {
            v["intrinsic"] = json!(n.to_string());
        }
        if cx.walk_ok(&i) {
            if let Some(b) = i.body() {
                v["body"] = cx.body(&b);
            }
        }
        cx.funcs.insert(key, v);
    }
    let doc = json!({"roots":roots,"types":cx.types,"funcs":cx.funcs,"allocs":cx.alloc_vals,"vtables":cx.vtables});
    std::fs::write(&out, serde_json::to_string(&doc).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER-like wrapper: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "proofs")
        && args.iter().any(|a| a == "--crate-type" || a == "lib") && !args.iter().any(|a| a == "bin");
    let out = std::env::var("GKV_OUT").unwrap_or_default();
    let allow = std::env::var("GKV_ALLOW").unwrap_or_default();
    if is_target && !out.is_empty() {
        let r = run!(&args, || analyze(out, allow));
        match r {
            Ok(_) => std::process::exit(0),
            Err(_) => std::process::exit(1),
        }
    } else {
        // any other crate: hand over to the real compiler unchanged
        let rustc = std::env::args().nth(1).unwrap();
        let st = std::process::Command::new(rustc).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
}
