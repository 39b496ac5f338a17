//! mirx: exports the resolved MIR of one crate as JSON.
//!
//! Used as RUSTC_WRAPPER. It behaves as rustc, except that for the crate named
//! by MIRX_CRATE it also writes MIRX_OUT: every function body of the crate
//! (drop-elaborated MIR, mir-opt-level 0) with callees resolved through the
//! type system, plus the bodies of the library functions it may inline.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod api;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use serde_json::{json, Map, Value};
use std::collections::{HashMap, VecDeque};

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let v = Export::new(tcx).run();
            std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
        }
        Compilation::Continue
    }
}

struct Export<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Value>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: Map<String, Value>,
    insts: HashMap<(Instance<'tcx>, TypingEnv<'tcx>), usize>,
    funcs: Vec<Value>,
    queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>)>,
}

const FOLLOW: &[&str] = &[
    "std::option::", "std::result::", "std::ops::", "std::cmp::", "std::convert::", "std::bool",
    "std::tuple::", "std::clone::", "core::option::", "core::result::", "core::ops::", "core::cmp::",
    "core::convert::", "core::bool", "core::tuple", "core::clone::",
];

impl<'tcx> Export<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Export {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            adts: Map::new(),
            insts: HashMap::new(),
            funcs: vec![],
            queue: VecDeque::new(),
        }
    }

    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    fn run(mut self) -> Value {
        let tcx = self.tcx;
        let mut roots = vec![];
        for ldid in tcx.hir_body_owners() {
            let did = ldid.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            let id = self.inst(inst, env);
            roots.push(id);
        }
        while let Some((id, inst, env)) = self.queue.pop_front() {
            let v = self.func(id, inst, env);
            self.funcs[id] = v;
        }
        let mut unsafe_impls = vec![];
        let mut impls = vec![];
        let mut structs = vec![];
        for id in tcx.hir_free_items() {
            let item = tcx.hir_item(id);
            let did = item.owner_id.to_def_id();
            match &item.kind {
                rustc_hir::ItemKind::Impl(imp) => {
                    let tr = tcx.impl_opt_trait_ref(did).map(|t| t.skip_binder().to_string());
                    let st = tcx.type_of(did).skip_binder().to_string();
                    let is_unsafe = imp.of_trait.map(|t| matches!(t.safety, rustc_hir::Safety::Unsafe)).unwrap_or(false);
                    let v = json!({"trait": tr, "self": st, "span": self.span(item.span)});
                    if is_unsafe {
                        unsafe_impls.push(v.clone());
                    }
                    impls.push(v);
                }
                rustc_hir::ItemKind::Struct(..) | rustc_hir::ItemKind::Enum(..) | rustc_hir::ItemKind::Union(..) => {
                    let ty = tcx.type_of(did).skip_binder();
                    let ty = tcx.erase_and_anonymize_regions(ty);
                    let t = self.ty(ty);
                    structs.push(json!({"path": self.path(did), "ty": t, "vis": format!("{:?}", tcx.visibility(did)), "span": self.span(item.span)}));
                }
                _ => {}
            }
        }
        json!({
            "crate": tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string(),
            "roots": roots,
            "funcs": self.funcs,
            "types": self.types,
            "adts": Value::Object(self.adts),
            "unsafe_impls": unsafe_impls,
            "impls": impls,
            "structs": structs,
            "api": api::Api { tcx }.run(),
        })
    }

    fn inst(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.insts.get(&(inst, env)) {
            return *i;
        }
        let id = self.funcs.len();
        self.funcs.push(Value::Null);
        self.insts.insert((inst, env), id);
        self.queue.push_back((id, inst, env));
        id
    }

    fn span(&self, sp: rustc_span::Span) -> Value {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        json!([f, lo.line])
    }

    fn func(&mut self, id: usize, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let tcx = self.tcx;
        let did = inst.def_id();
        let path = self.path(did);
        let args: Vec<Value> = inst.args.iter().filter_map(|a| a.as_type()).map(|t| json!(self.ty(t))).collect();
        let mut v = json!({
            "id": id,
            "path": path,
            "name": tcx.opt_item_name(did).map(|s| s.to_string()),
            "local": did.is_local(),
            "args": args,
            "span": self.span(tcx.def_span(did)),
            "closure": tcx.is_closure_like(did),
        });
        if did.is_local() && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            v["vis"] = json!(format!("{:?}", tcx.visibility(did)));
            let sig = tcx.fn_sig(did).skip_binder();
            v["unsafe"] = json!(!sig.safety().is_safe());
            v["sig"] = json!(sig.skip_binder().to_string());
        }
        if let Some(parent) = tcx.opt_parent(did) {
            if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                let st = tcx.type_of(parent).skip_binder();
                let st = tcx.erase_and_anonymize_regions(st);
                v["impl_self"] = json!(self.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    let tr = tr.skip_binder();
                    v["impl_trait"] = json!(self.path(tr.def_id));
                    v["impl_trait_args"] = json!(tr.args.iter().filter_map(|a| a.as_type()).map(|t| { let t = tcx.erase_and_anonymize_regions(t); self.ty(t) }).collect::<Vec<_>>());
                }
            } else if matches!(tcx.def_kind(parent), DefKind::Trait) {
                v["trait"] = json!(self.path(parent));
            }
        }
        let body = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body.clone()));
        v["argc"] = json!(body.arg_count);
        v["spread"] = json!(body.spread_arg.map(|l| l.as_usize()));
        v["locals"] = json!(body.local_decls.iter().map(|d| self.ty(d.ty)).collect::<Vec<_>>());
        let mut names = Map::new();
        for d in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &d.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize().to_string(), json!(d.name.to_string()));
                }
            }
        }
        v["names"] = Value::Object(names);
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                if let Some(x) = self.stmt(s, env) {
                    st.push(x);
                }
            }
            let term = self.term(data.terminator(), env, &body);
            blocks.push(json!({"s": st, "t": term, "cleanup": data.is_cleanup}));
        }
        v["blocks"] = json!(blocks);
        v
    }

    fn stmt(&mut self, s: &mir::Statement<'tcx>, env: TypingEnv<'tcx>) -> Option<Value> {
        use mir::StatementKind::*;
        match &s.kind {
            Assign(b) => {
                let (p, r) = &**b;
                Some(json!(["=", self.place(p), self.rvalue(r, env), self.span(s.source_info.span)[1]]))
            }
            SetDiscriminant { place, variant_index } => Some(json!(["setd", self.place(place), variant_index.as_usize()])),
            StorageDead(l) => Some(json!(["dead", l.as_usize()])),
            StorageLive(l) => Some(json!(["live", l.as_usize()])),
            Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(o) => Some(json!(["assume", self.operand(o, env)])),
                _ => Some(json!(["?", format!("{:?}", s.kind)])),
            },
            _ => None,
        }
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> Value {
        let mut v = vec![json!(p.local.as_usize())];
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            v.push(match e {
                Deref => json!(["*"]),
                Field(f, t) => json!(["f", f.as_usize(), self.ty(t)]),
                Downcast(_, i) => json!(["v", i.as_usize()]),
                Index(l) => json!(["i", l.as_usize()]),
                ConstantIndex { offset, from_end, .. } => json!(["c", offset, from_end]),
                Subslice { from, to, from_end } => json!(["sub", from, to, from_end]),
                x => json!(["?", format!("{:?}", x)]),
            });
        }
        json!(v)
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>, env: TypingEnv<'tcx>) -> Value {
        match o {
            mir::Operand::Copy(p) => json!(["c", self.place(p)]),
            mir::Operand::Move(p) => json!(["m", self.place(p)]),
            mir::Operand::Constant(c) => self.constant(&c.const_, env),
            x => json!(["k", {"ty": 0, "s": format!("{:?}", x)}]),
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let tcx = self.tcx;
        let ty = c.ty();
        let mut m = Map::new();
        m.insert("ty".into(), json!(self.ty(ty)));
        match ty.kind() {
            ty::FnDef(d, a) => {
                m.insert("fn".into(), self.callee(*d, a.skip_binder(), env));
            }
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                if let Some(b) = c.try_eval_bits(tcx, env) {
                    m.insert("int".into(), json!(b as u64));
                } else {
                    m.insert("s".into(), json!(format!("{}", c)));
                }
            }
            _ => {
                m.insert("s".into(), json!(format!("{}", c)));
            }
        }
        json!(["k", Value::Object(m)])
    }

    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let tcx = self.tcx;
        let a = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(a));
        let mut m = Map::new();
        m.insert("path".into(), json!(self.path(d)));
        m.insert("args".into(), json!(a.iter().filter_map(|x| x.as_type()).map(|t| self.ty(t)).collect::<Vec<_>>()));
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let p = tcx.parent(d);
            let adt = if matches!(of, rustc_hir::def::CtorOf::Variant) { tcx.parent(p) } else { p };
            let vi = tcx.adt_def(adt).variant_index_with_ctor_id(d).as_usize();
            let t = tcx.type_of(adt).instantiate(tcx, a);
            let t = tcx.normalize_erasing_regions(env, t);
            let tid = self.ty(t);
            m.insert("ctor".into(), json!({"path": self.path(adt), "v": vi, "ty": tid}));
        }
        if let Some(p) = tcx.opt_parent(d) {
            if matches!(tcx.def_kind(p), DefKind::Trait) {
                m.insert("trait".into(), json!(self.path(p)));
            }
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a) {
            let rd = inst.def_id();
            m.insert("rpath".into(), json!(self.path(rd)));
            m.insert("rargs".into(), json!(inst.args.iter().filter_map(|x| x.as_type()).map(|t| self.ty(t)).collect::<Vec<_>>()));
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            m.insert("kind".into(), json!(kind));
            if kind == "item" {
                let follow = rd.is_local()
                    || tcx.is_closure_like(rd)
                    || FOLLOW.iter().any(|f| {
                        let p = self.path(rd);
                        p.starts_with(f) || p.starts_with(&format!("<{}", f))
                    });
                if follow && tcx.is_mir_available(rd) && !matches!(tcx.def_kind(rd), DefKind::Ctor(..)) {
                    let i = self.inst(inst, env);
                    m.insert("inst".into(), json!(i));
                }
            }
        }
        Value::Object(m)
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, env: TypingEnv<'tcx>) -> Value {
        use mir::Rvalue::*;
        match r {
            Use(o, ..) => json!(["use", self.operand(o, env)]),
            Repeat(o, c) => json!(["repeat", self.operand(o, env), format!("{}", c)]),
            Ref(_, k, p) => json!(["ref", matches!(k, mir::BorrowKind::Mut { .. }), self.place(p)]),
            RawPtr(k, p) => json!(["ref", matches!(k, mir::RawPtrKind::Mut), self.place(p)]),
            Cast(k, o, t) => json!(["cast", format!("{:?}", k), self.operand(o, env), self.ty(*t)]),
            BinaryOp(op, b) => json!(["bin", format!("{:?}", op), self.operand(&b.0, env), self.operand(&b.1, env)]),
            UnaryOp(op, o) => json!(["un", format!("{:?}", op), self.operand(o, env)]),
            Discriminant(p) => json!(["discr", self.place(p)]),
            Aggregate(k, ops) => {
                let ops: Vec<Value> = ops.iter().map(|o| self.operand(o, env)).collect();
                match &**k {
                    mir::AggregateKind::Adt(d, vi, args, _, _) => {
                        let path = self.path(*d);
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args);
                        let t = self.tcx.normalize_erasing_regions(env, t);
                        let tid = self.ty(t);
                        json!(["agg", "adt", ops, {"path": path, "v": vi.as_usize(), "ty": tid}])
                    }
                    mir::AggregateKind::Tuple => json!(["agg", "tuple", ops, {}]),
                    mir::AggregateKind::Array(_) => json!(["agg", "array", ops, {}]),
                    mir::AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let i = self.inst(inst, env);
                        json!(["agg", "closure", ops, {"path": self.path(*d), "inst": i}])
                    }
                    x => json!(["agg", "?", ops, {"s": format!("{:?}", x)}]),
                }
            }
            CopyForDeref(p) => json!(["use", ["c", self.place(p)]]),
            x => json!(["?", format!("{:?}", x)]),
        }
    }

    fn term(&mut self, t: &mir::Terminator<'tcx>, env: TypingEnv<'tcx>, body: &mir::Body<'tcx>) -> Value {
        use mir::TerminatorKind::*;
        let line = self.span(t.source_info.span);
        let mut v = match &t.kind {
            Goto { target, .. } => json!({"k": "goto", "to": target.as_usize()}),
            SwitchInt { discr, targets } => {
                let vals: Vec<Value> = targets.iter().map(|(v, b)| json!([v as u64, b.as_usize()])).collect();
                let ty = discr.ty(&body.local_decls, self.tcx);
                json!({"k": "switch", "on": self.operand(discr, env), "vals": vals, "else": targets.otherwise().as_usize(), "ty": self.ty(ty)})
            }
            Return => json!({"k": "return"}),
            Unreachable => json!({"k": "unreachable"}),
            UnwindResume | UnwindTerminate(_) => json!({"k": "unwind"}),
            Drop { place, target, .. } => {
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                json!({"k": "drop", "place": self.place(place), "to": target.as_usize(), "ty": self.ty(ty)})
            }
            Call { func, args, destination, target, .. } => {
                let fty = func.ty(&body.local_decls, self.tcx);
                let callee = match fty.kind() {
                    ty::FnDef(d, a) => self.callee(*d, a.skip_binder(), env),
                    _ => json!({"op": self.operand(func, env)}),
                };
                let args: Vec<Value> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                let rt = destination.ty(&body.local_decls, self.tcx).ty;
                json!({"k": "call", "f": callee, "args": args, "dst": self.place(destination), "to": target.map(|t| t.as_usize()), "rty": self.ty(rt)})
            }
            Assert { cond, expected, msg, target, .. } => {
                json!({"k": "assert", "cond": self.operand(cond, env), "exp": expected, "msg": format!("{:?}", msg), "to": target.as_usize()})
            }
            FalseEdge { real_target, .. } => json!({"k": "goto", "to": real_target.as_usize()}),
            FalseUnwind { real_target, .. } => json!({"k": "goto", "to": real_target.as_usize()}),
            x => json!({"k": "?", "s": format!("{:?}", x)}),
        };
        v["at"] = line;
        v
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(Value::Null);
        self.type_ids.insert(t, id);
        let s = t.to_string();
        let mut v = match t.kind() {
            ty::Adt(def, args) => {
                let path = self.path(def.did());
                let a: Vec<usize> = args.iter().filter_map(|x| x.as_type()).map(|t| self.ty(t)).collect();
                let local = def.did().is_local();
                let expand = local
                    || ["std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::ops::Range",
                        "core::option::Option", "core::result::Result", "core::ops::ControlFlow", "core::ops::Range",
                        "std::cmp::Ordering"].contains(&path.as_str());
                if !self.adts.contains_key(&path) {
                    let vs: Vec<Value> = def.variants().iter_enumerated().map(|(vi, v)| {
                        let discr = if def.is_enum() { json!(def.discriminant_for_variant(self.tcx, vi).val as u64) } else { json!(0) };
                        json!({"name": v.name.to_string(), "discr": discr, "fields": v.fields.iter().map(|f| f.name.to_string()).collect::<Vec<_>>(),
                               "vis": v.fields.iter().map(|f| format!("{:?}", f.vis)).collect::<Vec<_>>()})
                    }).collect();
                    self.adts.insert(path.clone(), json!({"kind": if def.is_enum() {"enum"} else {"struct"}, "local": local, "variants": vs}));
                }
                let mut v = json!({"k": "adt", "path": path, "args": a, "local": local});
                if expand {
                    let mut fields = vec![];
                    for var in def.variants() {
                        let mut fs = vec![];
                        for f in &var.fields {
                            let ft = f.ty(self.tcx, args);
                            let ft = ft.skip_norm_wip();
                            fs.push(self.ty(ft));
                        }
                        fields.push(fs);
                    }
                    v["fields"] = json!(fields);
                }
                v
            }
            ty::Ref(_, t, m) => json!({"k": "ref", "mut": m.is_mut(), "to": self.ty(*t)}),
            ty::RawPtr(t, m) => json!({"k": "ptr", "mut": m.is_mut(), "to": self.ty(*t)}),
            ty::Tuple(ts) => {
                let a: Vec<usize> = ts.iter().map(|t| self.ty(t)).collect();
                json!({"k": "tuple", "args": a})
            }
            ty::Slice(t) => json!({"k": "slice", "to": self.ty(*t)}),
            ty::Array(t, n) => json!({"k": "array", "to": self.ty(*t), "n": n.to_string()}),
            ty::Param(p) => json!({"k": "param", "name": p.name.to_string(), "idx": p.index}),
            ty::Closure(d, args) => {
                let ups: Vec<usize> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                json!({"k": "closure", "path": self.path(*d), "upvars": ups})
            }
            ty::FnDef(d, _) => json!({"k": "fndef", "path": self.path(*d)}),
            ty::Dynamic(..) => json!({"k": "dyn"}),
            ty::Alias(..) => json!({"k": "alias"}),
            ty::Bool => json!({"k": "bool"}),
            ty::Int(_) | ty::Uint(_) => json!({"k": "int"}),
            ty::Never => json!({"k": "never"}),
            ty::Str => json!({"k": "str"}),
            _ => json!({"k": "other"}),
        };
        v["s"] = json!(s);
        self.types[id] = v;
        id
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv = [mirx, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    let want = std::env::var("MIRX_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) && !args.iter().any(|a| a == "--test");
    let out = if is_target { std::env::var("MIRX_OUT").ok() } else { None };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::install_ice_hook("", |_| ());
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    })
}
