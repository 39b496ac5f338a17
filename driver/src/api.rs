//! Exports the crate's declarations with their regions: signatures, visibility, bounds, fields, variance.
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::ty::{self, Ty, TyCtxt};
use serde_json::{json, Value};

pub struct Api<'tcx> {
    pub tcx: TyCtxt<'tcx>,
}

impl<'tcx> Api<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    pub fn run(&self) -> Value {
        let tcx = self.tcx;
        let (mut fns, mut adts, mut traits, mut impls) = (vec![], vec![], vec![], vec![]);
        for ldid in tcx.iter_local_def_id() {
            let did = ldid.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => fns.push(self.func(ldid)),
                DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(self.adt(ldid)),
                DefKind::Trait => traits.push(self.tr(ldid)),
                DefKind::Impl { .. } => impls.push(self.imp(ldid)),
                DefKind::Static { .. } => adts.push(json!({"path": self.path(did), "static": true, "eff": self.eff(ldid), "ty": self.ty(tcx.type_of(did).skip_binder(), None)})),
                _ => {}
            }
        }
        json!({"fns": fns, "adts": adts, "traits": traits, "impls": impls})
    }

    fn eff(&self, d: LocalDefId) -> bool {
        self.tcx.effective_visibilities(()).is_reachable(d)
    }

    fn exported(&self, d: LocalDefId) -> bool {
        self.tcx.effective_visibilities(()).is_exported(d)
    }

    fn generics(&self, did: DefId) -> Value {
        let g = self.tcx.generics_of(did);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            let k = match p.kind {
                ty::GenericParamDefKind::Lifetime => "region",
                ty::GenericParamDefKind::Type { .. } => "type",
                _ => "const",
            };
            v.push(json!([p.name.to_string(), k]));
        }
        json!(v)
    }

    fn bounds(&self, did: DefId) -> Value {
        let mut v = vec![];
        for c in self.tcx.param_env(did).caller_bounds() {
            let c: ty::Clause<'tcx> = c;
            let j = match c.kind().skip_binder() {
                ty::ClauseKind::Trait(t) => json!({"k": "trait", "trait": self.path(t.trait_ref.def_id), "ty": self.ty(t.trait_ref.self_ty(), None),
                    "a": t.trait_ref.args.iter().skip(1).filter_map(|a| a.as_type()).map(|t| self.ty(t, None)).collect::<Vec<_>>()}),
                ty::ClauseKind::TypeOutlives(o) => json!({"k": "tyout", "ty": self.ty(o.0, None), "r": self.region(o.1)}),
                ty::ClauseKind::RegionOutlives(o) => json!({"k": "regout", "a": self.region(o.0), "r": self.region(o.1)}),
                _ => json!({"k": "other", "s": c.to_string()}),
            };
            v.push(j);
        }
        json!(v)
    }

    fn func(&self, ldid: LocalDefId) -> Value {
        let tcx = self.tcx;
        let did = ldid.to_def_id();
        let sig = tcx.fn_sig(did).skip_binder();
        let unsafe_ = !sig.safety().is_safe();
        let sig = tcx.liberate_late_bound_regions(did, sig);
        let parent = tcx.opt_parent(did);
        let imp = parent.filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { .. }));
        let tra = parent.filter(|p| matches!(tcx.def_kind(*p), DefKind::Trait));
        let has_self = matches!(tcx.def_kind(did), DefKind::AssocFn) && tcx.associated_item(did).is_method();
        let mut v = json!({
            "path": self.path(did),
            "name": tcx.item_name(did).to_string(),
            "eff": self.eff(ldid),
            "exported": self.exported(ldid),
            "vis": tcx.visibility(did).is_public(),
            "unsafe": unsafe_,
            "self": has_self,
            "generics": self.generics(did),
            "bounds": self.bounds(did),
            "inputs": sig.inputs().iter().map(|t| self.ty(*t, imp)).collect::<Vec<_>>(),
            "output": self.ty(sig.output(), imp),
            "s": sig.to_string(),
            "body": true,
        });
        if let Some(i) = imp {
            v["impl_self"] = self.ty(tcx.type_of(i).skip_binder(), imp);
            if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                v["impl_trait"] = json!(self.path(tr.skip_binder().def_id));
            }
        }
        if let Some(t) = tra {
            v["in_trait"] = json!(self.path(t));
            v["body"] = json!(tcx.associated_item(did).defaultness(tcx).has_value());
        }
        v
    }

    fn adt(&self, ldid: LocalDefId) -> Value {
        let tcx = self.tcx;
        let did = ldid.to_def_id();
        let def = tcx.adt_def(did);
        let var: Vec<String> = tcx.variances_of(did).iter().map(|v| format!("{:?}", v)).collect();
        let fields: Vec<Value> = def
            .variants()
            .iter()
            .flat_map(|v| v.fields.iter().map(move |f| (v, f)))
            .map(|(v, f)| {
                let t = tcx.type_of(f.did).skip_binder();
                json!({"variant": v.name.to_string(), "name": f.name.to_string(), "pub": f.vis.is_public(), "ty": self.ty(t, None)})
            })
            .collect();
        json!({"path": self.path(did), "eff": self.eff(ldid), "exported": self.exported(ldid), "vis": tcx.visibility(did).is_public(),
               "generics": self.generics(did), "variances": var, "fields": fields, "bounds": self.bounds(did)})
    }

    fn tr(&self, ldid: LocalDefId) -> Value {
        let did = ldid.to_def_id();
        json!({"path": self.path(did), "eff": self.eff(ldid), "exported": self.exported(ldid), "vis": self.tcx.visibility(did).is_public(), "bounds": self.bounds(did)})
    }

    fn imp(&self, ldid: LocalDefId) -> Value {
        let tcx = self.tcx;
        let did = ldid.to_def_id();
        let st = self.ty(tcx.type_of(did).skip_binder(), None);
        let mut v = json!({"self": st, "generics": self.generics(did), "bounds": self.bounds(did), "assoc": {}});
        if let Some(tr) = tcx.impl_opt_trait_ref(did) {
            let tr = tr.skip_binder();
            v["trait"] = json!(self.path(tr.def_id));
            v["args"] = json!(tr.args.iter().skip(1).filter_map(|a| a.as_type()).map(|t| self.ty(t, None)).collect::<Vec<_>>());
            v["rargs"] = json!(tr.args.iter().filter_map(|a| a.as_region()).map(|t| self.region(t)).collect::<Vec<_>>());
            v["s"] = json!(tr.to_string());
            v["negative"] = json!(tcx.impl_polarity(did) == ty::ImplPolarity::Negative);
        }
        if let rustc_hir::Node::Item(i) = tcx.hir_node_by_def_id(ldid) {
            if let rustc_hir::ItemKind::Impl(imp) = &i.kind {
                v["unsafe"] = json!(imp.of_trait.map(|t| matches!(t.safety, rustc_hir::Safety::Unsafe)).unwrap_or(false));
            }
        }
        for it in tcx.associated_items(did).in_definition_order() {
            if it.is_type() {
                let t = tcx.type_of(it.def_id).skip_binder();
                v["assoc"][it.name().to_string()] = self.ty(t, Some(did));
            }
        }
        v
    }

    fn region(&self, r: ty::Region<'tcx>) -> Value {
        match r.kind() {
            ty::ReStatic => json!("'static"),
            ty::ReEarlyParam(p) => json!(p.name.to_string()),
            ty::ReLateParam(p) => json!(format!("late {:?}", p.kind)),
            ty::ReBound(..) => json!(format!("^{:?}", r)),
            _ => json!("'?"),
        }
    }

    fn ty(&self, t: Ty<'tcx>, imp: Option<DefId>) -> Value {
        match t.kind() {
            ty::Adt(def, args) => {
                json!({"k": "adt", "p": self.path(def.did()), "local": def.did().is_local(),
                       "r": args.iter().filter_map(|a| a.as_region()).map(|r| self.region(r)).collect::<Vec<_>>(),
                       "a": args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t, imp)).collect::<Vec<_>>(), "s": t.to_string()})
            }
            ty::Ref(r, t2, m) => json!({"k": "ref", "r": self.region(*r), "mut": m.is_mut(), "a": [self.ty(*t2, imp)], "s": t.to_string()}),
            ty::RawPtr(t2, m) => json!({"k": "ptr", "mut": m.is_mut(), "a": [self.ty(*t2, imp)]}),
            ty::Tuple(ts) => json!({"k": "tuple", "a": ts.iter().map(|t| self.ty(t, imp)).collect::<Vec<_>>()}),
            ty::Slice(t2) => json!({"k": "slice", "a": [self.ty(*t2, imp)]}),
            ty::Array(t2, _) => json!({"k": "array", "a": [self.ty(*t2, imp)]}),
            ty::Param(p) => json!({"k": "param", "n": p.name.to_string()}),
            ty::Dynamic(preds, r) => {
                let mut traits = vec![];
                let mut a = vec![];
                for p in preds.iter() {
                    match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(t) => {
                            traits.push(self.path(t.def_id));
                            a.extend(t.args.iter().filter_map(|x| x.as_type()).map(|t| self.ty(t, imp)));
                        }
                        ty::ExistentialPredicate::AutoTrait(d) => traits.push(self.path(d)),
                        ty::ExistentialPredicate::Projection(p) => {
                            if let Some(t) = p.term.as_type() {
                                a.push(self.ty(t, imp));
                            }
                        }
                    }
                }
                json!({"k": "dyn", "traits": traits, "r": self.region(*r), "a": a, "s": t.to_string()})
            }
            ty::Alias(..) => self.alias(t, imp),
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) | ty::Str | ty::Never => json!({"k": "prim", "s": t.to_string(), "a": []}),
            _ => json!({"k": "other", "s": t.to_string(), "a": t.walk().skip(1).filter_map(|g| g.as_type()).map(|t| json!({"k": "part", "s": t.to_string(), "a": []})).collect::<Vec<_>>()}),
        }
    }

    fn alias(&self, t: Ty<'tcx>, imp: Option<DefId>) -> Value {
        let tcx = self.tcx;
        if let (ty::Alias(_, al), Some(i)) = (t.kind(), imp) {
            let def_id: DefId = match al.kind {
                ty::AliasTyKind::Projection { def_id, .. } => def_id.into(),
                _ => i,
            };
            if matches!(tcx.def_kind(def_id), DefKind::AssocTy) && al.args.len() > 0 {
                if let Some(st) = al.args[0].as_type() {
                    if st == tcx.type_of(i).skip_binder() {
                        for it in tcx.associated_items(i).in_definition_order() {
                            if it.is_type() && it.name() == tcx.item_name(def_id) {
                                let t2 = tcx.type_of(it.def_id).skip_binder();
                                if t2 != t {
                                    return self.ty(t2, imp);
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut a = vec![];
        let mut r = vec![];
        let mut name = String::new();
        if let ty::Alias(_, al) = t.kind() {
            if let ty::AliasTyKind::Projection { def_id, .. } = al.kind {
                let d: DefId = def_id.into();
                name = self.path(d);
            }
        }
        if let ty::Alias(_, al) = t.kind() {
            a.extend(al.args.iter().filter_map(|x| x.as_type()).map(|t| self.ty(t, imp)));
            r.extend(al.args.iter().filter_map(|x| x.as_region()).map(|t| self.region(t)));
        }
        json!({"k": "alias", "s": t.to_string(), "n": name, "a": a, "r": r})
    }
}
