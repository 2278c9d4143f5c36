use crate::json::J;
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{CrateNum, DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tenv: TypingEnv<'tcx>,
    ty_ids: FxHashMap<Ty<'tcx>, usize>,
    ty_queue: Vec<Ty<'tcx>>,
    inst_ids: FxHashMap<Instance<'tcx>, usize>,
    inst_queue: Vec<Instance<'tcx>>,
    files: FxHashMap<String, usize>,
    file_list: Vec<String>,
    vtables: Vec<J>,
    vt_seen: FxHashMap<(Ty<'tcx>, Ty<'tcx>), ()>,
}

const SUBJECT: &str = "mysql_connector";

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut d = D {
        tcx,
        tenv: TypingEnv::fully_monomorphized(),
        ty_ids: Default::default(),
        ty_queue: vec![],
        inst_ids: Default::default(),
        inst_queue: vec![],
        files: Default::default(),
        file_list: vec![],
        vtables: vec![],
        vt_seen: Default::default(),
    };
    let roots = d.roots();
    let mut insts: Vec<J> = vec![];
    let mut types: Vec<J> = vec![];
    let (mut i, mut t) = (0, 0);
    loop {
        if i < d.inst_queue.len() {
            let inst = d.inst_queue[i];
            insts.push(d.emit_inst(i, inst));
            i += 1;
        } else if t < d.ty_queue.len() {
            let ty = d.ty_queue[t];
            types.push(d.emit_ty(ty));
            t += 1;
        } else {
            break;
        }
    }
    let files = std::mem::take(&mut d.file_list);
    let vt = std::mem::take(&mut d.vtables);
    let j = J::Obj(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("roots", J::Arr(roots.into_iter().map(J::i).collect())),
        ("files", J::Arr(files.into_iter().map(J::Str).collect())),
        ("types", J::Arr(types)),
        ("insts", J::Arr(insts)),
        ("vtables", J::Arr(vt)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out, s).unwrap();
}

fn nongeneric(tcx: TyCtxt<'_>, did: DefId) -> bool {
    let g = tcx.generics_of(did);
    let mut cur = Some(g);
    while let Some(g) = cur {
        if g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
            return false;
        }
        cur = g.parent.map(|p| tcx.generics_of(p));
    }
    true
}

impl<'tcx> D<'tcx> {
    fn roots(&mut self) -> Vec<usize> {
        let tcx = self.tcx;
        let mut v = vec![];
        for ldid in tcx.hir_body_owners() {
            let did = ldid.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && nongeneric(tcx, did) {
                v.push(did);
            }
        }
        let subject: Option<CrateNum> =
            tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == SUBJECT);
        if let Some(c) = subject {
            let mut mods = vec![c.as_def_id()];
            let mut seen: FxHashMap<DefId, ()> = Default::default();
            while let Some(m) = mods.pop() {
                if seen.insert(m, ()).is_some() {
                    continue;
                }
                for ch in tcx.module_children(m) {
                    let Some(did) = ch.res.opt_def_id() else { continue };
                    if did.krate != c {
                        continue;
                    }
                    match tcx.def_kind(did) {
                        DefKind::Mod => mods.push(did),
                        DefKind::Fn => v.push(did),
                        DefKind::Struct | DefKind::Enum | DefKind::Union => {
                            for im in tcx.inherent_impls(did).iter().copied() {
                                for a in tcx.associated_item_def_ids(im).iter().copied() {
                                    if tcx.def_kind(a) == DefKind::AssocFn {
                                        v.push(a);
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            for im in tcx.trait_impls_in_crate(c).iter().copied() {
                for a in tcx.associated_item_def_ids(im).iter().copied() {
                    if tcx.def_kind(a) == DefKind::AssocFn {
                        v.push(a);
                    }
                }
            }
        }
        let mut ids = vec![];
        let mut seen: FxHashMap<DefId, ()> = Default::default();
        for did in v {
            if seen.insert(did, ()).is_some() || !nongeneric(tcx, did) || tcx.is_constructor(did) {
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => unreachable!(),
            });
            // predicates that cannot hold are not a concern for non-generic fns
            let inst = Instance::new_raw(did, args);
            ids.push(self.inst(inst));
        }
        ids
    }

    fn ty(&mut self, ty: Ty<'tcx>) -> J {
        J::i(self.tyid(ty))
    }
    fn tyid(&mut self, ty: Ty<'tcx>) -> usize {
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        if let Some(i) = self.ty_ids.get(&ty) {
            return *i;
        }
        let i = self.ty_queue.len();
        self.ty_ids.insert(ty, i);
        self.ty_queue.push(ty);
        i
    }
    fn inst(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(i) = self.inst_ids.get(&inst) {
            return *i;
        }
        let i = self.inst_queue.len();
        self.inst_ids.insert(inst, i);
        self.inst_queue.push(inst);
        i
    }

    fn path(&self, did: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(did))
    }
    fn path_args(&self, did: DefId, args: GenericArgsRef<'tcx>) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str_with_args(did, args))
    }
    fn tys(&self, ty: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", ty))
    }

    fn span(&mut self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return J::Null;
        }
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        let n = self.files.len();
        let id = *self.files.entry(f.clone()).or_insert(n);
        if id == n {
            self.file_list.push(f);
        }
        J::Arr(vec![J::i(id), J::i(loc.line)])
    }

    fn resolve(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let args = self.tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(self.tcx, self.tenv, did, args) {
            Ok(Some(i)) => Some(i),
            _ => None,
        }
    }

    fn emit_ty(&mut self, ty: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(self.tys(ty)))];
        let k = match *ty.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(i) => {
                o.push(("bits", J::i(i.bit_width().unwrap_or(64))));
                "int"
            }
            ty::Uint(i) => {
                o.push(("bits", J::i(i.bit_width().unwrap_or(64))));
                "uint"
            }
            ty::Float(f) => {
                o.push(("bits", J::i(f.bit_width())));
                "float"
            }
            ty::Adt(def, args) => {
                o.push(("path", J::s(self.path(def.did()))));
                o.push(("krate", J::s(tcx.crate_name(def.did().krate).to_string())));
                let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::Arr(targs)));
                let cargs: Vec<J> = args
                    .consts()
                    .map(|c| match c.try_to_target_usize(tcx) {
                        Some(n) => J::i(n),
                        None => J::s(format!("{:?}", c)),
                    })
                    .collect();
                o.push(("cargs", J::Arr(cargs)));
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    if let Some(i) = self.resolve(d.did, args) {
                        o.push(("drop", J::i(self.inst(i))));
                    }
                }
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        J::i(def.discriminant_for_variant(tcx, vi).val as i128)
                    } else {
                        J::Int(0)
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip();
                        let fty = tcx
                            .try_normalize_erasing_regions(self.tenv, ty::Unnormalized::new_wip(fty))
                            .unwrap_or(fty);
                        let t = self.ty(fty);
                        fs.push(J::Arr(vec![J::s(f.name.to_string()), t]));
                    }
                    vs.push(J::Arr(vec![J::s(v.name.to_string()), discr, J::Arr(fs)]));
                }
                o.push(("variants", J::Arr(vs)));
                if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                }
            }
            ty::Str => "str",
            ty::Array(t, n) => {
                o.push(("of", self.ty(t)));
                o.push(("n", n.try_to_target_usize(tcx).map(J::i).unwrap_or(J::Null)));
                "array"
            }
            ty::Slice(t) => {
                o.push(("of", self.ty(t)));
                "slice"
            }
            ty::RawPtr(t, m) => {
                o.push(("of", self.ty(t)));
                o.push(("mut", J::Bool(m.is_mut())));
                "ptr"
            }
            ty::Ref(_, t, m) => {
                o.push(("of", self.ty(t)));
                o.push(("mut", J::Bool(m.is_mut())));
                "ref"
            }
            ty::FnDef(did, args) => {
                o.push(("path", J::s(self.path(did))));
                if let Some(i) = self.resolve(did, args.no_bound_vars().unwrap()) {
                    o.push(("inst", J::i(self.inst(i))));
                }
                "fndef"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Dynamic(preds, _) => {
                if let Some(p) = preds.principal_def_id() {
                    o.push(("path", J::s(self.path(p))));
                }
                "dyn"
            }
            ty::Closure(did, args) => {
                o.push(("path", J::s(self.path(did))));
                o.push(("krate", J::s(tcx.crate_name(did.krate).to_string())));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("upvars", J::Arr(ups)));
                let i = Instance::new_raw(did, tcx.erase_and_anonymize_regions(args));
                o.push(("inst", J::i(self.inst(i))));
                "closure"
            }
            ty::Coroutine(did, args) => {
                o.push(("path", J::s(self.path(did))));
                o.push(("krate", J::s(tcx.crate_name(did.krate).to_string())));
                let ups: Vec<J> = args.as_coroutine().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("upvars", J::Arr(ups)));
                let i = Instance::new_raw(did, tcx.erase_and_anonymize_regions(args));
                o.push(("inst", J::i(self.inst(i))));
                "coroutine"
            }
            ty::Never => "never",
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("elems", J::Arr(v)));
                "tuple"
            }
            _ => "other",
        };
        o.push(("k", J::s(k)));
        J::Obj(o)
    }

    fn want_body(&self, inst: Instance<'tcx>) -> bool {
        let did = inst.def_id();
        let cname = self.tcx.crate_name(did.krate);
        let c = cname.as_str();
        if did.krate == LOCAL_CRATE || c == SUBJECT {
            return true;
        }
        if !matches!(c, "core" | "alloc" | "std") {
            return false;
        }
        // printing path may be re-exported under std::, use the def path
        let p = self.tcx.def_path(did).to_string_no_crate_verbose();
        const ALLOW: &[&str] = &[
            "::option", "::result", "::ops", "::convert", "::cmp", "::mem", "::future", "::pin", "::task", "::iter",
            "::slice", "::array", "::str", "::string", "::vec", "::boxed", "::borrow", "::char", "::num", "::default",
            "::clone", "::bool", "::any", "::io", "::ascii", "::hint", "::intrinsics", "::ptr", "::range", "::index",
            "::macros", "::tuple", "::unit", "::time", "::fmt", "::marker", "::error", "::sync", "::collections",
        ];
        ALLOW.iter().any(|a| p.starts_with(a))
    }

    fn emit_inst(&mut self, id: usize, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let did = inst.def_id();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(s) => match s {
                ShimKind::ClosureOnce { .. } => "closure_once",
                ShimKind::FnPtr(..) => "fnptr_shim",
                ShimKind::DropGlue(..) => "drop_glue",
                ShimKind::Clone(..) => "clone_shim",
                ShimKind::VTable(..) => "vtable_shim",
                ShimKind::Reify(..) => "reify",
                _ => "shim",
            },
        };
        let path = self.path(did);
        let full = self.path_args(did, inst.args);
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", J::i(id)),
            ("kind", J::s(kind)),
            ("path", J::s(path)),
            ("full", J::s(full)),
            ("defpath", J::s(self.tcx.def_path(did).to_string_no_crate_verbose())),
            ("krate", J::s(tcx.crate_name(did.krate).to_string())),
            ("name", J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())),
        ];
        let targs: Vec<J> = inst.args.types().map(|t| self.ty(t)).collect();
        o.push(("args", J::Arr(targs)));
        let cargs: Vec<J> = inst
            .args
            .consts()
            .map(|c| match c.try_to_target_usize(tcx) {
                Some(n) => J::i(n),
                None => J::s(format!("{:?}", c)),
            })
            .collect();
        o.push(("cargs", J::Arr(cargs)));
        // containing trait / impl
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            let parent = tcx.parent(did);
            match tcx.def_kind(parent) {
                DefKind::Trait => {
                    o.push(("trait", J::s(self.path(parent))));
                    if let Some(t) = inst.args.types().next() {
                        o.push(("self", self.ty(t)));
                    }
                }
                DefKind::Impl { of_trait } => {
                    let self_ty = tcx.type_of(parent).instantiate(tcx, inst.args).skip_norm_wip();
                    if !self_ty.has_param() {
                        let self_ty = tcx
                            .try_normalize_erasing_regions(self.tenv, ty::Unnormalized::new_wip(self_ty))
                            .unwrap_or(self_ty);
                        o.push(("self", self.ty(self_ty)));
                    }
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent);
                        let tr = tr.instantiate(tcx, inst.args).skip_norm_wip();
                        o.push(("trait", J::s(self.path(tr.def_id))));
                        let ta: Vec<J> = tr.args.types().skip(1).map(|t| self.ty(t)).collect();
                        o.push(("trait_args", J::Arr(ta)));
                    }
                }
                _ => {}
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::Bool(tcx.visibility(did).is_public())));
            o.push(("unsafe", J::Bool(tcx.fn_sig(did).skip_binder().safety().is_unsafe())));
            o.push(("async", J::Bool(tcx.asyncness(did).is_async())));
            let sig = tcx.fn_sig(did).instantiate(tcx, inst.args).skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            if !sig.has_param() {
                let nret = tcx
                    .try_normalize_erasing_regions(self.tenv, ty::Unnormalized::new_wip(sig.output()))
                    .unwrap_or(sig.output());
                if !nret.has_param() {
                    o.push(("ret", self.ty(nret)));
                }
            }
        }
        let sp = tcx.def_span(did);
        let spj = self.span(sp);
        o.push(("span", spj));
        let body_ok = match inst.def {
            InstanceKind::Item(d) => self.want_body(inst) && tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ShimKind::FnPtr(..))
            | InstanceKind::Shim(ShimKind::Reify(..))
            | InstanceKind::Shim(ShimKind::Clone(..)) => true,
            _ => false,
        };
        if body_ok && !inst.args.has_param() {
            let b = self.emit_body(inst);
            o.push(("body", b));
        }
        J::Obj(o)
    }

    fn emit_body(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let body0 = tcx.instance_mir(inst.def);
        let body: Body<'tcx> =
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.tenv, EarlyBinder::bind(tcx, body0.clone()));
        let body = &body;
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(body, &p);
                names.push(J::Arr(vec![J::s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(body, s) {
                    st.push(j);
                }
            }
            let t = self.term(body, inst, bb.terminator());
            blocks.push(J::Obj(vec![("s", J::Arr(st)), ("t", t)]));
        }
        J::Obj(vec![
            ("argc", J::i(body.arg_count)),
            ("spread", body.spread_arg.map(|l| J::i(l.index())).unwrap_or(J::Null)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => J::Arr(vec![J::s("f"), J::i(f.index()), self.ty(t)]),
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::i(l.index())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::Arr(vec![J::s("ci"), J::i(offset), J::i(min_length), J::Bool(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("ss"), J::i(from), J::i(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![J::s("d"), J::i(v.index())]),
                _ => J::Arr(vec![J::s("o")]),
            });
        }
        let t = p.ty(&body.local_decls, tcx).ty;
        J::Arr(vec![J::i(p.local.index()), J::Arr(pr), self.ty(t)])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(body, p)]),
            Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::Arr(vec![J::s("k"), self.konst(c.const_, c.span)]),
            Operand::RuntimeChecks(_) => J::Arr(vec![
                J::s("k"),
                J::Obj(vec![("i", J::Int(0)), ("t", self.ty(self.tcx.types.bool))]),
            ]),
        }
    }

    fn konst(&mut self, c: Const<'tcx>, sp: Span) -> J {
        let ty = c.ty();
        let tj = self.ty(ty);
        let v = match c.eval(self.tcx, self.tenv, sp) {
            Ok(v) => self.cval(v, ty, 0),
            Err(_) => J::Obj(vec![("err", J::Int(1))]),
        };
        let mut o = match v {
            J::Obj(o) => o,
            _ => vec![("unk", J::Int(1))],
        };
        o.push(("t", tj));
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                o.push(("name", J::s(self.path(u.def))));
            }
        }
        J::Obj(o)
    }

    fn int_of(&self, bits: u128, ty: Ty<'tcx>) -> Option<i128> {
        Some(match ty.kind() {
            ty::Bool | ty::Char => bits as i128,
            ty::Uint(u) => {
                if u.bit_width() == Some(128) && bits > i128::MAX as u128 {
                    i128::MAX
                } else {
                    bits as i128
                }
            }
            ty::Int(i) => {
                let w = i.bit_width().unwrap_or(64) as u32;
                if w == 128 {
                    bits as i128
                } else {
                    ((bits << (128 - w)) as i128) >> (128 - w)
                }
            }
            _ => return None,
        })
    }

    fn cval(&mut self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let unk = || J::Obj(vec![("unk", J::Int(1))]);
        if depth > 12 {
            return unk();
        }
        if let ty::FnDef(did, args) = ty.kind() {
            let args = args.no_bound_vars().unwrap();
            return match self.resolve(*did, args) {
                Some(i) => J::Obj(vec![("fn", J::i(self.inst(i)))]),
                None => J::Obj(vec![("fnu", J::s(self.path_args(*did, args)))]),
            };
        }
        match (v, ty.kind()) {
            (ConstValue::Scalar(Scalar::Int(i)), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)) => {
                let bits = i.to_bits_unchecked();
                return J::Obj(vec![("i", J::Int(self.int_of(bits, ty).unwrap()))]);
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::Float(_)) => {
                return J::Obj(vec![("fbits", J::s(format!("{}", i.to_bits_unchecked())))]);
            }
            _ => {}
        }
        if let ty::Ref(_, inner, _) | ty::RawPtr(inner, _) = *ty.kind() {
            match v {
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    return self.deref_alloc(prov.alloc_id(), off, inner, None, depth);
                }
                ConstValue::Slice { alloc_id, meta } => {
                    return self.deref_alloc(alloc_id, rustc_abi::Size::ZERO, inner, Some(meta), depth);
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    // (fat) pointer stored in memory
                    if let Some(GlobalAlloc::Memory(al)) = tcx.try_get_global_alloc(alloc_id) {
                        let ps = tcx.data_layout.pointer_size();
                        let r = al.inner().read_scalar(
                            &tcx,
                            rustc_middle::mir::interpret::AllocRange { start: offset, size: ps },
                            true,
                        );
                        let m = al.inner().read_scalar(
                            &tcx,
                            rustc_middle::mir::interpret::AllocRange { start: offset + ps, size: ps },
                            true,
                        );
                        if let Ok(Scalar::Ptr(p, _)) = r {
                            let (prov, off) = p.into_raw_parts();
                            if inner.is_sized(tcx, self.tenv) {
                                return self.deref_alloc(prov.alloc_id(), off, inner, None, depth);
                            }
                            match m {
                                Ok(Scalar::Int(i)) => {
                                    return self.deref_alloc(
                                        prov.alloc_id(),
                                        off,
                                        inner,
                                        Some(i.to_bits_unchecked() as u64),
                                        depth,
                                    )
                                }
                                Ok(Scalar::Ptr(vt, _)) => {
                                    let (vprov, _) = vt.into_raw_parts();
                                    if let Some(GlobalAlloc::VTable(cty, _)) = tcx.try_get_global_alloc(vprov.alloc_id())
                                    {
                                        self.note_vtable(cty, inner);
                                        let r = self.deref_alloc(prov.alloc_id(), off, cty, None, depth);
                                        let dt = self.ty(cty);
                                        if let J::Obj(mut o) = r {
                                            o.push(("dyn", dt));
                                            return J::Obj(o);
                                        }
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                    return unk();
                }
                _ => return unk(),
            }
        }
        match *ty.kind() {
            ty::Array(t, n) if t == tcx.types.u8 => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    let n = n.try_to_target_usize(tcx).unwrap_or(0);
                    return self.bytes(alloc_id, offset, n, "bytes");
                }
                if let ConstValue::ZeroSized = v {
                    return J::Obj(vec![("bytes", J::Arr(vec![]))]);
                }
                if let ConstValue::Scalar(Scalar::Int(i)) = v {
                    let n = n.try_to_target_usize(tcx).unwrap_or(0);
                    let b = i.to_bits_unchecked();
                    return J::Obj(vec![(
                        "bytes",
                        J::Arr((0..n).map(|k| J::i(((b >> (8 * k)) & 0xff) as u64)).collect()),
                    )]);
                }
            }
            ty::Float(f) => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    return self.read_int(alloc_id, offset, (f.bit_width() / 8) as u64, ty);
                }
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    let sz = match ty.kind() {
                        ty::Bool => 1,
                        ty::Char => 4,
                        ty::Int(i) => i.bit_width().unwrap_or(64) / 8,
                        ty::Uint(i) => i.bit_width().unwrap_or(64) / 8,
                        _ => 0,
                    };
                    return self.read_int(alloc_id, offset, sz, ty);
                }
            }
            _ => {}
        }
        if matches!(ty.kind(), ty::Array(..) | ty::Tuple(..) | ty::Adt(..)) {
            if let ty::Adt(def, _) = ty.kind() {
                if def.is_union() {
                    return unk();
                }
            }
            if let ty::Array(_, n) = ty.kind() {
                if n.try_to_target_usize(tcx).unwrap_or(u64::MAX) > 4096 {
                    return unk();
                }
            }
            if let Some(c) = tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                let mut fs = vec![];
                for (fv, ft) in c.fields.iter() {
                    let mut x = match self.cval(*fv, *ft, depth + 1) {
                        J::Obj(o) => o,
                        _ => vec![],
                    };
                    x.push(("t", self.ty(*ft)));
                    fs.push(J::Obj(x));
                }
                return J::Obj(vec![
                    ("agg", J::Arr(fs)),
                    ("v", c.variant.map(|v| J::i(v.index())).unwrap_or(J::Int(0))),
                ]);
            }
        }
        if let ConstValue::ZeroSized = v {
            return J::Obj(vec![("zst", J::Int(1))]);
        }
        unk()
    }

    fn read_int(&mut self, a: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, sz: u64, ty: Ty<'tcx>) -> J {
        if let Some(GlobalAlloc::Memory(al)) = self.tcx.try_get_global_alloc(a) {
            let rng = rustc_middle::mir::interpret::AllocRange { start: off, size: rustc_abi::Size::from_bytes(sz) };
            if let Ok(Scalar::Int(i)) = al.inner().read_scalar(&self.tcx, rng, false) {
                let bits = i.to_bits_unchecked();
                if let Some(v) = self.int_of(bits, ty) {
                    return J::Obj(vec![("i", J::Int(v))]);
                }
                return J::Obj(vec![("fbits", J::s(format!("{}", bits)))]);
            }
        }
        J::Obj(vec![("unk", J::Int(1))])
    }

    fn bytes(&mut self, a: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, n: u64, k: &'static str) -> J {
        if let Some(GlobalAlloc::Memory(al)) = self.tcx.try_get_global_alloc(a) {
            let rng = rustc_middle::mir::interpret::AllocRange { start: off, size: rustc_abi::Size::from_bytes(n) };
            if let Ok(b) = al.inner().get_bytes_strip_provenance(&self.tcx, rng) {
                if k == "str" {
                    return J::Obj(vec![("str", J::s(String::from_utf8_lossy(b).to_string()))]);
                }
                return J::Obj(vec![("bytes", J::Arr(b.iter().map(|x| J::i(*x)).collect()))]);
            }
        }
        J::Obj(vec![("unk", J::Int(1))])
    }

    fn deref_alloc(
        &mut self,
        a: rustc_middle::mir::interpret::AllocId,
        off: rustc_abi::Size,
        inner: Ty<'tcx>,
        meta: Option<u64>,
        depth: usize,
    ) -> J {
        let tcx = self.tcx;
        match tcx.try_get_global_alloc(a) {
            Some(GlobalAlloc::Memory(_)) => {
                let v = match (*inner.kind(), meta) {
                    (ty::Str, Some(n)) => self.bytes(a, off, n, "str"),
                    (ty::Slice(t), Some(n)) if t == tcx.types.u8 => self.bytes(a, off, n, "bytes"),
                    (ty::Slice(t), Some(n)) => {
                        let sz = match tcx.layout_of(self.tenv.as_query_input(t)) {
                            Ok(l) => l.size,
                            Err(_) => return J::Obj(vec![("unk", J::Int(1))]),
                        };
                        let mut fs = vec![];
                        for k in 0..n.min(4096) {
                            let cv = if sz.bytes() == 0 {
                                ConstValue::ZeroSized
                            } else {
                                ConstValue::Indirect { alloc_id: a, offset: off + sz * k }
                            };
                            let mut x = match self.cval(cv, t, depth + 1) {
                                J::Obj(o) => o,
                                _ => vec![],
                            };
                            x.push(("t", self.ty(t)));
                            fs.push(J::Obj(x));
                        }
                        J::Obj(vec![("agg", J::Arr(fs)), ("v", J::Int(0))])
                    }
                    _ => {
                        let zst = tcx.layout_of(self.tenv.as_query_input(inner)).map(|l| l.is_zst()).unwrap_or(false);
                        if zst {
                            self.cval(ConstValue::ZeroSized, inner, depth + 1)
                        } else {
                            self.cval(ConstValue::Indirect { alloc_id: a, offset: off }, inner, depth + 1)
                        }
                    }
                };
                let mut x = match v {
                    J::Obj(o) => o,
                    _ => vec![],
                };
                x.push(("t", self.ty(inner)));
                J::Obj(vec![("ref", J::Obj(x))])
            }
            Some(GlobalAlloc::Static(d)) => J::Obj(vec![("static", J::s(self.path(d)))]),
            Some(GlobalAlloc::Function { instance }) => J::Obj(vec![("fn", J::i(self.inst(instance)))]),
            _ => J::Obj(vec![("unk", J::Int(1))]),
        }
    }

    fn note_vtable(&mut self, src: Ty<'tcx>, dynty: Ty<'tcx>) {
        let tcx = self.tcx;
        let src = tcx.erase_and_anonymize_regions(src);
        let dynty = tcx.erase_and_anonymize_regions(dynty);
        if self.vt_seen.insert((src, dynty), ()).is_some() {
            return;
        }
        let ty::Dynamic(preds, _) = dynty.kind() else { return };
        let Some(pr) = preds.principal() else { return };
        let tr = tcx.instantiate_bound_regions_with_erased(pr.with_self_ty(tcx, src));
        let tr = tcx.erase_and_anonymize_regions(tr);
        let mut ms = vec![];
        for e in tcx.vtable_entries(tr) {
            if let ty::VtblEntry::Method(i) = e {
                let name = tcx.opt_item_name(i.def_id()).map(|s| s.to_string()).unwrap_or_default();
                let id = self.inst(*i);
                ms.push(J::Arr(vec![J::s(name), J::i(id)]));
            }
        }
        let name = self.path(tr.def_id);
        let st = self.ty(src);
        self.vtables.push(J::Arr(vec![st, J::s(name), J::Arr(ms)]));
    }

    fn unsize_pair(&self, s: Ty<'tcx>, t: Ty<'tcx>) -> Option<(Ty<'tcx>, Ty<'tcx>)> {
        match (*s.kind(), *t.kind()) {
            (ty::Ref(_, a, _) | ty::RawPtr(a, _), ty::Ref(_, b, _) | ty::RawPtr(b, _)) => {
                Some(self.tcx.struct_lockstep_tails_for_codegen(a, b, self.tenv))
            }
            (ty::Adt(d1, a1), ty::Adt(d2, a2)) if d1 == d2 => {
                for (x, y) in a1.types().zip(a2.types()) {
                    if x != y {
                        if matches!(x.kind(), ty::Ref(..) | ty::RawPtr(..)) || (matches!(y.kind(), ty::Adt(..))) {
                            return self.unsize_pair(x, y);
                        }
                        return Some(self.tcx.struct_lockstep_tails_for_codegen(x, y, self.tenv));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        let a = |v: Vec<J>| J::Arr(v);
        match r {
            Rvalue::Use(o, _) => a(vec![J::s("use"), self.operand(body, o)]),
            Rvalue::Repeat(o, n) => a(vec![
                J::s("rep"),
                self.operand(body, o),
                n.try_to_target_usize(tcx).map(J::i).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, bk, p) => a(vec![
                J::s("ref"),
                self.place(body, p),
                J::Bool(matches!(bk, BorrowKind::Mut { .. })),
            ]),
            Rvalue::RawPtr(k, p) => a(vec![
                J::s("ref"),
                self.place(body, p),
                J::Bool(matches!(k, RawPtrKind::Mut)),
            ]),
            Rvalue::ThreadLocalRef(d) => a(vec![J::s("tls"), J::s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(&body.local_decls, tcx);
                let kk = match k {
                    CastKind::PointerCoercion(pc, _) => {
                        if let ty::adjustment::PointerCoercion::Unsize = pc {
                            if let Some((s, d)) = self.unsize_pair(st, *t) {
                                if let ty::Dynamic(..) = d.kind() {
                                    if !matches!(s.kind(), ty::Dynamic(..)) {
                                        self.note_vtable(s, d);
                                        let oj = self.operand(body, o);
                                        let tj = self.ty(*t);
                                        let sj = self.ty(s);
                                        return a(vec![J::s("cast"), J::s("unsize_dyn"), oj, tj, sj]);
                                    }
                                }
                            }
                            "unsize"
                        } else {
                            "ptrcoerce"
                        }
                    }
                    CastKind::IntToInt => "int",
                    CastKind::FloatToInt => "f2i",
                    CastKind::FloatToFloat => "f2f",
                    CastKind::IntToFloat => "i2f",
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr => "ptr",
                    CastKind::Transmute | CastKind::BoxDerefTransmute => "transmute",
                    _ => "other",
                };
                let oj = self.operand(body, o);
                let tj = self.ty(*t);
                let sj = self.ty(st);
                a(vec![J::s("cast"), J::s(kk), oj, tj, sj])
            }
            Rvalue::BinaryOp(op, b) => {
                let l = self.operand(body, &b.0);
                let rr = self.operand(body, &b.1);
                let t = self.ty(b.0.ty(&body.local_decls, tcx));
                a(vec![J::s("bin"), J::s(format!("{:?}", op)), l, rr, t])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = self.ty(o.ty(&body.local_decls, tcx));
                a(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(body, o), t])
            }
            Rvalue::Discriminant(p) => a(vec![J::s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let mut extra = J::Null;
                let mut vi = 0;
                let kk = match &**k {
                    AggregateKind::Array(_) => "array",
                    AggregateKind::Tuple => "tuple",
                    AggregateKind::Adt(_, v, _, _, f) => {
                        vi = v.index();
                        if let Some(f) = f {
                            extra = J::i(f.index());
                        }
                        "adt"
                    }
                    AggregateKind::Closure(..) => "closure",
                    AggregateKind::Coroutine(..) => "coroutine",
                    AggregateKind::CoroutineClosure(..) => "cclosure",
                    AggregateKind::RawPtr(..) => "rawptr",
                };
                let t = self.ty(r.ty(&body.local_decls, tcx));
                let os: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                a(vec![J::s("agg"), J::s(kk), J::i(vi), J::Arr(os), t, extra])
            }
            Rvalue::CopyForDeref(p) => a(vec![J::s("use"), a(vec![J::s("c"), self.place(body, p)])]),
            Rvalue::Reborrow(_, _, p) => a(vec![J::s("use"), a(vec![J::s("c"), self.place(body, p)])]),
            Rvalue::WrapUnsafeBinder(o, _) => a(vec![J::s("use"), self.operand(body, o)]),
        }
    }

    fn stmt(&mut self, body: &Body<'tcx>, s: &Statement<'tcx>) -> Option<J> {
        let sp = self.span(s.source_info.span);
        Some(match &s.kind {
            StatementKind::Assign(b) => {
                let p = self.place(body, &b.0);
                let r = self.rvalue(body, &b.1);
                J::Arr(vec![J::s("="), p, r, sp])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                J::Arr(vec![J::s("sd"), self.place(body, place), J::i(variant_index.index()), sp])
            }
            StatementKind::StorageDead(l) => J::Arr(vec![J::s("dead"), J::i(l.index())]),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(o) => J::Arr(vec![J::s("assume"), self.operand(body, o)]),
                _ => J::Arr(vec![J::s("copy")]),
            },
            _ => return None,
        })
    }

    fn term(&mut self, body: &Body<'tcx>, _inst: Instance<'tcx>, t: &Terminator<'tcx>) -> J {
        let tcx = self.tcx;
        let sp = self.span(t.source_info.span);
        let mut o: Vec<(&'static str, J)> = vec![("sp", sp)];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("to", J::i(target.index())));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", J::s("switch")));
                let t = discr.ty(&body.local_decls, tcx);
                o.push(("on", self.operand(body, discr)));
                o.push(("ty", self.ty(t)));
                let mut v = vec![];
                for (val, bb) in targets.iter() {
                    let iv = self.int_of(val, t).unwrap_or(val as i128);
                    v.push(J::Arr(vec![J::Int(iv), J::i(bb.index())]));
                }
                o.push(("arms", J::Arr(v)));
                o.push(("else", J::i(targets.otherwise().index())));
            }
            TerminatorKind::Return => o.push(("k", J::s("return"))),
            TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", J::s("drop")));
                o.push(("p", self.place(body, place)));
                o.push(("to", J::i(target.index())));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("k", J::s("call")));
                let fty = func.ty(&body.local_decls, tcx);
                match *fty.kind() {
                    ty::FnDef(did, ga) => {
                        let ga = ga.no_bound_vars().unwrap();
                        match self.resolve(did, ga) {
                            Some(i) => {
                                o.push(("fn", J::i(self.inst(i))));
                            }
                            None => o.push(("fnu", J::s(self.path_args(did, ga)))),
                        }
                        o.push(("decl", J::s(self.path(did))));
                        // make closures / fn items among the generic args available
                        for t in ga.types() {
                            self.tyid(t);
                        }
                    }
                    _ => o.push(("ind", self.operand(body, func))),
                }
                let av: Vec<J> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                o.push(("args", J::Arr(av)));
                o.push(("dst", self.place(body, destination)));
                o.push(("to", target.map(|t| J::i(t.index())).unwrap_or(J::Null)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", J::s("assert")));
                o.push(("c", self.operand(body, cond)));
                o.push(("exp", J::Bool(*expected)));
                let m: &'static str = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(..) => "overflow",
                    AssertKind::OverflowNeg(..) => "overflow_neg",
                    AssertKind::DivisionByZero(..) => "div0",
                    AssertKind::RemainderByZero(..) => "rem0",
                    AssertKind::ResumedAfterReturn(..) => "resumed",
                    AssertKind::ResumedAfterPanic(..) => "resumed",
                    AssertKind::ResumedAfterDrop(..) => "resumed",
                    _ => "other",
                };
                o.push(("msg", J::s(m)));
                o.push(("to", J::i(target.index())));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("to", J::i(real_target.index())));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("to", J::i(real_target.index())));
            }
            _ => o.push(("k", J::s("other"))),
        }
        J::Obj(o)
    }
}
