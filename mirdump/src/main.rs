//! mirdump: a rustc driver that type-checks a crate exactly as rustc does and dumps the
//! monomorphic MIR (optimisation level 0) of every non-generic function of the crate, of every
//! function instance those functions call (including generic std instances, to a depth), of the
//! statics and constants they mention, and of the types involved, as one JSON file.
//! Used as RUSTC_WORKSPACE_WRAPPER; it falls through to plain rustc for everything that is
//! not the crate named in $MIRDUMP_CRATE.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{Body, TerminatorKind};
use rustc_public::ty::{
    Allocation, ClosureKind, ConstantKind, GenericArgKind, IntTy, MirConst, RigidTy, Ty, TyConst,
    TyKind, UintTy,
};
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::ops::ControlFlow;

#[derive(Default)]
struct Dump {
    types: BTreeMap<usize, Value>,
    ty_queue: Vec<Ty>,
    allocs: BTreeMap<usize, Value>,
    bodies: Map<String, Value>,
    callees: BTreeMap<usize, Value>,
    closures: BTreeMap<usize, Value>,
    queue: VecDeque<(Instance, usize)>,
    seen: HashSet<String>,
}

struct V<'a> {
    tys: Vec<Ty>,
    consts: Vec<MirConst>,
    _b: &'a Body,
}
impl<'a> MirVisitor for V<'a> {
    fn visit_ty(&mut self, ty: &Ty, loc: Location) {
        self.tys.push(*ty);
        self.super_ty(ty);
        let _ = loc;
    }
    fn visit_mir_const(&mut self, c: &MirConst, loc: Location) {
        self.consts.push(c.clone());
        self.super_mir_const(c, loc)
    }
}

fn tyid(t: &Ty) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap_or(u64::MAX) as usize
}

fn float_name<T: std::fmt::Debug>(f: &T) -> String {
    format!("{:?}", f).to_lowercase()
}

impl Dump {
    fn want(&mut self, t: Ty) -> usize {
        let id = tyid(&t);
        if !self.types.contains_key(&id) {
            self.types.insert(id, Value::Null);
            self.ty_queue.push(t);
        }
        id
    }
    fn flush_types(&mut self, depth: usize) {
        while let Some(t) = self.ty_queue.pop() {
            let id = tyid(&t);
            let mut v = self.ty_value(t, depth);
            if let Ok(l) = t.layout() {
                let sh = l.shape();
                v["size"] = json!(sh.size.bytes());
                if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &sh.fields {
                    v["offs"] = json!(offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>());
                }
            }
            self.types.insert(id, v);
        }
    }
    fn args(&mut self, a: &rustc_public::ty::GenericArgs) -> Vec<Value> {
        a.0.iter()
            .map(|g| match g {
                GenericArgKind::Type(t) => json!(self.want(*t)),
                GenericArgKind::Const(c) => json!({ "const": tyconst(c) }),
                GenericArgKind::Lifetime(_) => json!("'"),
            })
            .collect()
    }
    fn ty_value(&mut self, t: Ty, depth: usize) -> Value {
        let name = format!("{}", t);
        let k = match t.kind() {
            TyKind::RigidTy(r) => r,
            other => return json!({"k":"other","name":format!("{:?}",other)}),
        };
        match k {
            RigidTy::Bool => json!({"k":"bool"}),
            RigidTy::Char => json!({"k":"char"}),
            RigidTy::Int(i) => json!({"k":"int","name":float_name(&i),"bits":ibits(&i)}),
            RigidTy::Uint(i) => json!({"k":"uint","name":float_name(&i),"bits":ubits(&i)}),
            RigidTy::Float(f) => json!({"k":"float","name":float_name(&f)}),
            RigidTy::Str => json!({"k":"str"}),
            RigidTy::Never => json!({"k":"never"}),
            RigidTy::Array(e, n) => {
                let e = self.want(e);
                json!({"k":"array","elem":e,"len":tyconst(&n)})
            }
            RigidTy::Slice(e) => {
                let e = self.want(e);
                json!({"k":"slice","elem":e})
            }
            RigidTy::RawPtr(e, _) => {
                let e = self.want(e);
                json!({"k":"ptr","to":e})
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.want(e);
                json!({"k":"ref","to":e,"mut":format!("{:?}",m)=="Mut"})
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<usize> = ts.iter().map(|t| self.want(*t)).collect();
                json!({"k":"tuple","elems":v})
            }
            RigidTy::Adt(def, args) => {
                let mut vs = vec![];
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        fs.push(json!([f.name.to_string(), self.want(ft)]));
                    }
                    let d = if def.kind() == rustc_public::ty::AdtKind::Enum {
                        format!("{}", def.discriminant_for_variant(v.idx()).val)
                    } else {
                        "0".to_string()
                    };
                    vs.push(json!({"name":v.name().to_string(),"fields":fs,"discr":d}));
                }
                let a = self.args(&args);
                json!({"k":"adt","kind":format!("{:?}",def.kind()),"def":def.name().to_string(),"name":name,"variants":vs,"args":a,"box":def.is_box()})
            }
            RigidTy::FnDef(def, args) => {
                let a = self.args(&args);
                let callee = match Instance::resolve(def, &args) {
                    Ok(inst) => {
                        let v = inst_value(&inst);
                        self.enqueue(inst, depth + 1);
                        v
                    }
                    Err(_) => Value::Null,
                };
                let id = tyid(&t);
                self.callees.insert(id, callee.clone());
                json!({"k":"fndef","def":def.name().to_string(),"name":name,"args":a,"inst":callee})
            }
            RigidTy::Closure(def, args) => {
                let mut v = Value::Null;
                for ck in [ClosureKind::FnMut, ClosureKind::Fn, ClosureKind::FnOnce] {
                    if let Ok(inst) = Instance::resolve_closure(def, &args, ck) {
                        v = inst_value(&inst);
                        self.enqueue(inst, 0);
                        break;
                    }
                }
                let id = tyid(&t);
                self.closures.insert(id, v.clone());
                json!({"k":"closure","def":def.name().to_string(),"name":name,"inst":v})
            }
            RigidTy::FnPtr(_) => json!({"k":"fnptr","name":name}),
            RigidTy::Dynamic(..) => json!({"k":"dyn","name":name}),
            _ => json!({"k":"other","name":name}),
        }
    }
    fn enqueue(&mut self, inst: Instance, depth: usize) {
        let key = inst.mangled_name().to_string();
        if self.seen.insert(key) {
            self.queue.push_back((inst, depth));
        }
    }
    fn alloc(&mut self, a: &Allocation) -> Value {
        let bytes: Vec<Value> = a
            .bytes
            .iter()
            .map(|b| match b {
                Some(x) => json!(*x),
                None => Value::Null,
            })
            .collect();
        let mut prov = vec![];
        for (off, p) in a.provenance.ptrs.iter() {
            let id = serde_json::to_value(&p.0).unwrap();
            let idn = id.as_u64().unwrap_or(0) as usize;
            if !self.allocs.contains_key(&idn) {
                self.allocs.insert(idn, Value::Null);
                let v = match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(m) => {
                        let v = self.alloc(&m);
                        json!({"memory": v})
                    }
                    GlobalAlloc::Static(s) => {
                        let ty = self.want(s.ty());
                        let init = match s.eval_initializer() {
                            Ok(m) => self.alloc(&m),
                            Err(_) => Value::Null,
                        };
                        json!({"static": s.name().to_string(), "ty": ty, "init": init})
                    }
                    GlobalAlloc::Function(i) => {
                        let v = inst_value(&i);
                        self.enqueue(i, 3);
                        json!({ "function": v })
                    }
                    other => json!({"other": format!("{:?}", other)}),
                };
                self.allocs.insert(idn, v);
            }
            prov.push(json!([*off, idn]));
        }
        json!({"bytes":bytes,"prov":prov})
    }
    fn constant(&mut self, c: &MirConst) -> Value {
        let ty = self.want(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = self.alloc(a);
                json!({"ty":ty,"alloc":a})
            }
            ConstantKind::ZeroSized => json!({"ty":ty,"zst":true}),
            ConstantKind::Ty(t) => json!({"ty":ty,"tyconst":tyconst(t)}),
            other => json!({"ty":ty,"other":format!("{:?}",other)}),
        }
    }
}

fn tyconst(c: &TyConst) -> Value {
    match c.eval_target_usize() {
        Ok(n) => json!(n),
        Err(_) => json!(format!("{:?}", c.kind())),
    }
}
fn ibits(i: &IntTy) -> u32 {
    (i.num_bytes() * 8) as u32
}
fn ubits(i: &UintTy) -> u32 {
    (i.num_bytes() * 8) as u32
}

fn inst_value(i: &Instance) -> Value {
    let kind = match i.kind {
        InstanceKind::Item => "item",
        InstanceKind::Intrinsic => "intrinsic",
        InstanceKind::LlvmIntrinsic => "llvm",
        InstanceKind::Virtual { .. } => "virtual",
        InstanceKind::Shim => "shim",
    };
    json!({"key":i.mangled_name().to_string(),"name":i.name().to_string(),
           "kind":kind,"intrinsic":i.intrinsic_name().map(|s|s.to_string())})
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let maxdepth: usize = std::env::var("MIRDUMP_DEPTH").ok().and_then(|s| s.parse().ok()).unwrap_or(4);
    let mut d = Dump::default();
    let mut roots = vec![];
    let mut generics = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), ItemKind::Fn) {
            continue;
        }
        match Instance::try_from(item) {
            Ok(i) => {
                let mut v = inst_value(&i);
                v["span"] = json!(format!("{:?}", item.span().get_filename()));
                v["line"] = json!(item.span().get_lines().start_line);
                v["end_line"] = json!(item.span().get_lines().end_line);
                roots.push(v);
                d.enqueue(i, 0);
            }
            Err(_) => generics.push(json!(item.name().to_string())),
        }
    }
    let mut statics = vec![];
    for item in rustc_public::all_local_items() {
        if let ItemKind::Static = item.kind() {
            if let Ok(s) = rustc_public::mir::mono::StaticDef::try_from(item) {
                let ty = d.want(s.ty());
                let init = match s.eval_initializer() {
                    Ok(m) => d.alloc(&m),
                    Err(_) => Value::Null,
                };
                statics.push(json!({"name": s.name().to_string(), "ty": ty, "init": init}));
            }
        }
    }
    while let Some((inst, depth)) = d.queue.pop_front() {
        let mut v = inst_value(&inst);
        let local = inst.def.krate().is_local;
        v["local"] = json!(local);
        let depth = if local { 0 } else { depth };
        v["depth"] = json!(depth);
        if (local || depth <= maxdepth) && matches!(inst.kind, InstanceKind::Item | InstanceKind::Shim) {
            if let Some(body) = inst.body() {
                let mut vis = V { tys: vec![], consts: vec![], _b: &body };
                vis.visit_body(&body);
                let (tys, consts) = (vis.tys, vis.consts);
                for t in tys {
                    d.want(t);
                }
                d.flush_types(depth);
                let mut cs = Map::new();
                for c in consts {
                    let key = serde_json::to_value(&c).unwrap();
                    let id = key.get("id").map(|x| x.to_string()).unwrap_or_default();
                    let val = d.constant(&c);
                    cs.insert(id, val);
                }
                d.flush_types(depth);
                // drop terminators / everything else straight from rustc_public's serialisation
                for b in &body.blocks {
                    if let TerminatorKind::Drop { .. } = b.terminator.kind {}
                }
                let mut bj = serde_json::to_value(&body.blocks).unwrap();
                strip_spans(&mut bj);
                let locals: Vec<usize> = body.locals().iter().map(|l| tyid(&l.ty)).collect();
                let mut names = Map::new();
                for vd in &body.var_debug_info {
                    names.insert(vd.name.to_string(), json!(format!("{:?}", vd.value)));
                }
                v["body"] = json!({"blocks": bj, "locals": locals, "argc": body.arg_locals().len(),
                                   "spread": body.spread_arg(), "consts": cs, "names": names});
            }
        }
        d.bodies.insert(inst.mangled_name().to_string(), v);
        d.flush_types(depth);
    }
    let types: Map<String, Value> = d.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let allocs: Map<String, Value> = d.allocs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let v = json!({"crate": rustc_public::local_crate().name, "roots": roots, "generics": generics,
                   "statics": statics, "types": types, "allocs": allocs, "bodies": d.bodies});
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

/// Keep the source line of each statement/terminator; drop bulky span/scope ids.
fn strip_spans(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.remove("source_info");
            m.remove("span");
            m.remove("user_ty");
            for (_, x) in m.iter_mut() {
                strip_spans(x)
            }
        }
        Value::Array(a) => a.iter_mut().for_each(strip_spans),
        _ => {}
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc to wrap
    if args.len() > 1 && !args[1].starts_with('-') && args[1].contains("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    let lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1].contains("lib"));
    if is && lib {
        let r = rustc_public::run!(&args, dump);
        if let Err(e) = r {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    } else {
        let code = rustc_driver::catch_with_exit_code(|| {
            struct C;
            impl rustc_driver::Callbacks for C {}
            rustc_driver::compiler_entrypoint(&args, &mut C)
        });
        std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    }
}
