//! rustc driver: dumps the type-checked program (ADTs, impls, generic MIR with
//! resolved callees, plus the reachable part of upstream MIR as a call graph)
//! of the crate named in FDS_CRATE as JSON into the directory FDS_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::ty::TypeVisitableExt;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => esc(o, x),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<String, usize>,
    nodes: BTreeMap<String, J>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    dropq: VecDeque<(Ty<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        let dp = self.tcx.def_path(d);
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            dp.to_string_no_crate_verbose()
        )
    }
    fn name(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn line(&self, sp: Span) -> i128 {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as i128
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", loc.file.name.prefer_local_unconditionally())
    }
    fn const_len(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(n) = c.try_to_target_usize(self.tcx) {
            return J::I(n as i128);
        }
        if !c.has_param() {
            let env = TypingEnv::fully_monomorphized();
            if let Ok(c2) = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(c)) {
                if let Some(n) = c2.try_to_target_usize(self.tcx) {
                    return J::I(n as i128);
                }
            }
        }
        s(format!("{:?}", c))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let key = ty::print::with_no_trimmed_paths!(format!("{:?}", t));
        if let Some(i) = self.tyidx.get(&key) {
            return J::I(*i as i128);
        }
        let i = self.types.len();
        self.tyidx.insert(key.clone(), i);
        self.types.push(J::N);
        let j = match *t.kind() {
            ty::Adt(def, args) => {
                let a = self.gargs(args);
                J::A(vec![s("adt"), s(self.name(def.did())), a, s(self.id(def.did()))])
            }
            ty::Param(p) => J::A(vec![s("param"), s(p.name)]),
            ty::Ref(_, t, m) => {
                let x = self.ty(t);
                J::A(vec![s("ref"), J::B(m.is_mut()), x])
            }
            ty::RawPtr(t, m) => {
                let x = self.ty(t);
                J::A(vec![s("ptr"), J::B(m.is_mut()), x])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::A(vec![s("tuple"), J::A(v)])
            }
            ty::Array(t, n) => {
                let x = self.ty(t);
                let n = self.const_len(n);
                J::A(vec![s("array"), x, n])
            }
            ty::Slice(t) => {
                let x = self.ty(t);
                J::A(vec![s("slice"), x])
            }
            ty::Dynamic(preds, ..) => {
                let n = match preds.principal_def_id() {
                    Some(d) => self.name(d),
                    None => "auto".into(),
                };
                J::A(vec![s("dyn"), s(n)])
            }
            ty::Closure(d, args) => {
                let ups: Vec<J> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t))
                    .collect();
                let a = self.gargs(args.as_closure().parent_args_ref(self.tcx));
                J::A(vec![s("closure"), s(self.id(d)), J::A(ups), a])
            }
            ty::FnDef(d, _) => J::A(vec![s("fndef"), s(self.id(d)), s(self.name(d))]),
            ty::Alias(_, al) => match al.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    let a = self.gargs(al.args);
                    J::A(vec![s("alias"), s(self.name(def_id)), a])
                }
                ty::AliasTyKind::Opaque { def_id } => {
                    let a = self.gargs(al.args);
                    J::A(vec![s("opaque"), s(self.name(def_id)), a])
                }
                _ => J::A(vec![s("other"), s(key)]),
            },
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::A(vec![s("prim"), s(key)])
            }
            _ => J::A(vec![s("other"), s(key)]),
        };
        self.types[i] = j;
        J::I(i as i128)
    }
    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => {
                    let x = self.const_len(c);
                    v.push(J::A(vec![s("const"), x]))
                }
                _ => {}
            }
        }
        J::A(v)
    }
    fn generics(&mut self, d: DefId) -> J {
        let mut v = vec![];
        let mut cur = Some(d);
        let mut stack = vec![];
        while let Some(c) = cur {
            let g = self.tcx.generics_of(c);
            stack.push(g);
            cur = g.parent;
        }
        for g in stack.iter().rev() {
            for p in g.own_params.iter() {
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    v.push(s(p.name));
                }
            }
        }
        J::A(v)
    }
    fn bounds(&mut self, d: DefId) -> J {
        let mut v = vec![];
        let preds = self.tcx.param_env(d).caller_bounds();
        for p in preds {
            if let ty::ClauseKind::Trait(tp) = p.kind().skip_binder() {
                let t = self.ty(tp.self_ty());
                v.push(J::A(vec![t, s(self.name(tp.def_id()))]));
            }
        }
        J::A(v)
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let a = self.gargs(args);
        let mut o = vec![
            ("id", s(self.id(d))),
            ("name", s(self.name(d))),
            ("args", a),
        ];
        if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            o.push(("unsafe", J::B(true)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.name(tr))));
            o.push(("m", s(tcx.item_name(d))));
            let st = self.ty(args.type_at(0));
            o.push(("self", st));
        } else if let Some(n) = tcx.opt_item_name(d) {
            o.push(("m", s(n)));
        }
        let args2 = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args2) {
            let rd = inst.def_id();
            let k = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            o.push(("rk", s(k)));
            o.push(("rid", s(self.id(rd))));
            o.push(("rname", s(self.name(rd))));
            let ra = self.gargs(inst.args);
            o.push(("rargs", ra));
            let nk = self.node(inst, env);
            o.push(("node", s(nk)));
        }
        J::O(o)
    }
    fn node_key(&self, inst: Instance<'tcx>) -> String {
        let d = inst.def_id();
        if d.is_local() && matches!(inst.def, ty::InstanceKind::Item(_)) {
            return self.id(d);
        }
        let a = self.tcx.erase_and_anonymize_regions(inst.args);
        ty::print::with_no_trimmed_paths!(format!(
            "{}|{:?}|{}",
            self.id(d),
            a,
            match inst.def {
                ty::InstanceKind::Item(_) => "",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
                ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone",
                ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
                _ => "shim",
            }
        ))
    }
    fn node(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let k = self.node_key(inst);
        if self.seen.insert(k.clone()) {
            self.queue.push_back((inst, env));
        }
        k
    }
    fn drop_key(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let t = self
            .tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t);
        let k = ty::print::with_no_trimmed_paths!(format!("drop:{:?}", t));
        if self.seen.insert(k.clone()) {
            self.dropq.push_back((t, env));
        }
        k
    }
    fn run_nodes(&mut self) {
        loop {
            if let Some((t, env)) = self.dropq.pop_front() {
                let k = ty::print::with_no_trimmed_paths!(format!("drop:{:?}", t));
                let j = self.drop_node(t, env);
                self.nodes.insert(k, j);
                continue;
            }
            if let Some((inst, env)) = self.queue.pop_front() {
                let k = self.node_key(inst);
                let j = self.inst_node(inst, env);
                self.nodes.insert(k, j);
                continue;
            }
            break;
        }
    }
    fn drop_node(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut edges: Vec<J> = vec![];
        let mut note = "";
        if t.needs_drop(tcx, env) {
            match *t.kind() {
                ty::Adt(def, args) => {
                    if !def.is_manually_drop() {
                        if let Some(dt) = tcx.adt_destructor(def.did()) {
                            let drop_trait_fn = dt.did;
                            let inst = Instance::new_raw(drop_trait_fn, args);
                            let e = self.node(inst, env);
                            edges.push(s(e));
                        }
                        for f in def.all_fields() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx
                                .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft))
                                .unwrap_or(ft);
                            if ft.needs_drop(tcx, env) {
                                let e = self.drop_key(ft, env);
                                edges.push(s(e));
                            }
                        }
                        if def.is_box() {
                            let e = self.drop_key(args.type_at(0), env);
                            edges.push(s(e));
                        }
                    }
                }
                ty::Tuple(ts) => {
                    for x in ts.iter() {
                        let e = self.drop_key(x, env);
                        edges.push(s(e));
                    }
                }
                ty::Array(x, _) | ty::Slice(x) => {
                    let e = self.drop_key(x, env);
                    edges.push(s(e));
                }
                ty::Closure(_, args) => {
                    for x in args.as_closure().upvar_tys().iter() {
                        let e = self.drop_key(x, env);
                        edges.push(s(e));
                    }
                }
                ty::Dynamic(..) => note = "dyn",
                ty::Param(_) | ty::Alias(..) => note = "param",
                _ => note = "other",
            }
        }
        J::O(vec![
            ("k", s("drop")),
            ("note", s(note)),
            ("e", J::A(edges)),
        ])
    }
    fn inst_node(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let name = self.name(d);
        let mut o = vec![("name", s(&name))];
        if let ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, Some(t))) = inst.def {
            let e = self.drop_key(t, env);
            o.push(("k", s("item")));
            o.push(("e", J::A(vec![s(e)])));
            return J::O(o);
        }
        if d.is_local() {
            match inst.def {
                ty::InstanceKind::Item(_) => {
                    o.push(("k", s("local")));
                    return J::O(o);
                }
                _ => {
                    o.push(("k", s("localshim")));
                    o.push(("e", J::A(vec![s(self.id(d))])));
                    return J::O(o);
                }
            }
        }
        match inst.def {
            ty::InstanceKind::Item(_) => {}
            ty::InstanceKind::Intrinsic(_) => {
                o.push(("k", s("intrinsic")));
                return J::O(o);
            }
            ty::InstanceKind::Virtual(..) => {
                o.push(("k", s("virtual")));
                return J::O(o);
            }
            ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => {
                o.push(("k", s("fnptr")));
                return J::O(o);
            }
            ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => {
                o.push(("k", s("cloneshim")));
                return J::O(o);
            }
            _ => {
                o.push(("k", s("shim")));
                return J::O(o);
            }
        }
        if tcx.is_foreign_item(d) {
            o.push(("k", s("foreign")));
            return J::O(o);
        }
        if tcx.trait_of_assoc(d).is_some()
            && !tcx.defaultness(d).has_value()
        {
            o.push(("k", s("abstract")));
            return J::O(o);
        }
        if !tcx.is_mir_available(d) || !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            o.push(("k", s("nomir")));
            return J::O(o);
        }
        let body = tcx.instance_mir(inst.def);
        let mut edges: Vec<J> = vec![];
        let mut un: Vec<J> = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                continue;
            }
            let Some(t) = &bb.terminator else { continue };
            match &t.kind {
                TerminatorKind::Call { func, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let fty = ty::EarlyBinder::bind(tcx, fty).instantiate(tcx, inst.args);
                    let fty = tcx
                        .try_normalize_erasing_regions(env, fty)
                        .unwrap_or(fty.skip_norm_wip());
                    let div = target.is_none();
                    match *fty.kind() {
                        ty::FnDef(cd, cargs) => {
                            let cargs = cargs.no_bound_vars().unwrap();
                            if div {
                                continue;
                            }
                            match Instance::try_resolve(tcx, env, cd, cargs) {
                                Ok(Some(ci)) => {
                                    let e = self.node(ci, env);
                                    edges.push(s(e));
                                }
                                _ => un.push(s(self.name(cd))),
                            }
                        }
                        _ => un.push(s("<fnptr>")),
                    }
                }
                TerminatorKind::Drop { place, .. } => {
                    let pty = place.ty(&body.local_decls, tcx).ty;
                    let pty = ty::EarlyBinder::bind(tcx, pty).instantiate(tcx, inst.args);
                    let pty = tcx
                        .try_normalize_erasing_regions(env, pty)
                        .unwrap_or(pty.skip_norm_wip());
                    if pty.needs_drop(tcx, env) {
                        let e = self.drop_key(pty, env);
                        edges.push(s(e));
                    }
                }
                _ => {}
            }
        }
        o.push(("k", s("item")));
        o.push(("e", J::A(edges)));
        o.push(("u", J::A(un)));
        J::O(o)
    }

    // ---- bodies ----
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut v = vec![J::I(p.local.as_u32() as i128)];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, fty) => {
                    let nm = match *pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_u32().to_string(),
                    };
                    let t = self.ty(fty);
                    J::A(vec![s("f"), s(nm), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("sub"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(n, vi) => {
                    let nm = match *pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => n.map(|n| n.to_string()).unwrap_or_default(),
                    };
                    J::A(vec![s("d"), s(nm), J::I(vi.as_u32() as i128)])
                }
                _ => s("?"),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let cty = c.const_.ty();
        if let ty::FnDef(d, args) = *cty.kind() {
            let cal = self.callee(d, args.no_bound_vars().unwrap(), env);
            return J::O(vec![("fn", cal)]);
        }
        let t = self.ty(cty);
        let mut o = vec![("t", t)];
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("prom", J::I(p.as_u32() as i128)));
                return J::O(vec![("c", J::O(o))]);
            }
            o.push(("p", s(self.name(u.def))));
            let a = self.gargs(u.args);
            o.push(("a", a));
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push(("p", s(format!("{:?}", ct))));
        }
        if let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                o.push(("st", s(self.name(d))));
            }
        }
        let simple = matches!(
            cty.kind(),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)
        );
        if simple {
            if let Some(sc) = c.const_.try_eval_scalar_int(tcx, env) {
                let size = sc.size();
                let v = match *cty.kind() {
                    ty::Float(ty::FloatTy::F32) => {
                        s(format!("{:?}", f32::from_bits(sc.to_bits(size) as u32)))
                    }
                    ty::Float(ty::FloatTy::F64) => {
                        s(format!("{:?}", f64::from_bits(sc.to_bits(size) as u64)))
                    }
                    ty::Int(_) => J::I(sc.to_int(size)),
                    ty::Bool => J::B(sc.to_bits(size) != 0),
                    _ => J::I(sc.to_bits(size) as i128),
                };
                o.push(("v", v));
            }
        } else if let Const::Val(ConstValue::Slice { .. }, _) = c.const_ {
            o.push(("s", s(format!("{}", c.const_))));
        } else if let Const::Val(ConstValue::ZeroSized, _) = c.const_ {
            o.push(("z", J::B(true)));
        }
        J::O(vec![("c", J::O(o))])
    }
    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let x = self.place(p, body);
                J::O(vec![("cp", x)])
            }
            Operand::Move(p) => {
                let x = self.place(p, body);
                J::O(vec![("mv", x)])
            }
            Operand::Constant(c) => self.constant(c, env),
            _ => J::O(vec![("rt", J::B(true))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => {
                let x = self.operand(o, body, env);
                J::A(vec![s("use"), x])
            }
            Rvalue::Repeat(o, n) => {
                let x = self.operand(o, body, env);
                let n = self.const_len(*n);
                J::A(vec![s("repeat"), x, n])
            }
            Rvalue::Ref(_, bk, p) => {
                let x = self.place(p, body);
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), x])
            }
            Rvalue::RawPtr(_, p) => {
                let x = self.place(p, body);
                J::A(vec![s("rawptr"), x])
            }
            Rvalue::Cast(k, o, t) => {
                let x = self.operand(o, body, env);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), x, t])
            }
            Rvalue::BinaryOp(b, ops) => {
                let x = self.operand(&ops.0, body, env);
                let y = self.operand(&ops.1, body, env);
                J::A(vec![s("bin"), s(format!("{:?}", b)), x, y])
            }
            Rvalue::UnaryOp(u, o) => {
                let x = self.operand(o, body, env);
                J::A(vec![s("un"), s(format!("{:?}", u)), x])
            }
            Rvalue::Discriminant(p) => {
                let x = self.place(p, body);
                let pt = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(pt);
                J::A(vec![s("discr"), x, t])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let (kk, names) = match &**k {
                    AggregateKind::Array(_) => (J::A(vec![s("array")]), vec![]),
                    AggregateKind::Tuple => (J::A(vec![s("tuple")]), vec![]),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        let names: Vec<J> = match fi {
                            Some(f) => vec![s(var.fields[*f].name)],
                            None => var.fields.iter().map(|f| s(f.name)).collect(),
                        };
                        let a = self.gargs(args);
                        (
                            J::A(vec![
                                s("adt"),
                                s(self.name(*d)),
                                s(var.name),
                                J::I(vi.as_u32() as i128),
                                a,
                            ]),
                            names,
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let a = self.gargs(args);
                        (J::A(vec![s("closure"), s(self.id(*d)), a]), vec![])
                    }
                    _ => (J::A(vec![s("other")]), vec![]),
                };
                J::A(vec![s("agg"), kk, J::A(v), J::A(names)])
            }
            Rvalue::CopyForDeref(p) => {
                let x = self.place(p, body);
                J::A(vec![s("use"), J::O(vec![("cp", x)])])
            }
            Rvalue::Reborrow(_, m, p) => {
                let x = self.place(p, body);
                J::A(vec![s("ref"), J::B(m.is_mut()), x])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.name(*d))]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p, body);
                names.push(J::A(vec![s(v.name), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                let ln = self.line(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(&b.1, body, env);
                        st.push(J::A(vec![s("="), p, r, J::I(ln)]));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let p = self.place(place, body);
                        st.push(J::A(vec![
                            s("sd"),
                            p,
                            J::I(variant_index.as_u32() as i128),
                            J::I(ln),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), J::I(l.as_u32() as i128)]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), s(format!("{:?}", i)), J::I(ln)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::A(vec![s("goto"), J::I(target.as_u32() as i128)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, body, env);
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::I(v as i128), J::I(b.as_u32() as i128)]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        d,
                        J::A(v),
                        J::I(targets.otherwise().as_u32() as i128),
                        J::I(ln),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop {
                    place,
                    target,
                    replace,
                    ..
                } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let p = self.place(place, body);
                    let tt = self.ty(pt);
                    let mut v = vec![
                        s("drop"),
                        p,
                        J::I(target.as_u32() as i128),
                        tt,
                        J::I(ln),
                        J::B(*replace),
                    ];
                    if pt.needs_drop(tcx, env) {
                        let k = self.drop_key(pt, env);
                        v.push(s(k));
                    } else {
                        v.push(J::N);
                    }
                    J::A(v)
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let f = match func {
                        Operand::Constant(c) => self.constant(c, env),
                        o => self.operand(o, body, env),
                    };
                    let a: Vec<J> = args
                        .iter()
                        .map(|x| self.operand(&x.node, body, env))
                        .collect();
                    let d = self.place(destination, body);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        match target {
                            Some(t) => J::I(t.as_u32() as i128),
                            None => J::N,
                        },
                        J::I(ln),
                    ])
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    target,
                    msg,
                    ..
                } => {
                    let c = self.operand(cond, body, env);
                    let mk = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        _ => "other",
                    };
                    J::A(vec![
                        s("assert"),
                        c,
                        J::B(*expected),
                        J::I(target.as_u32() as i128),
                        s(mk),
                        J::I(ln),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.as_u32() as i128)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.as_u32() as i128)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("resume")])
                }
                _ => J::A(vec![s("otherterm"), s(format!("{:?}", t.kind))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("cl", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("args", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("vars", J::A(names)),
            ("bb", J::A(blocks)),
        ])
    }
}

trait ParentArgs<'tcx> {
    fn parent_args_ref(&self, tcx: TyCtxt<'tcx>) -> GenericArgsRef<'tcx>;
}
impl<'tcx> ParentArgs<'tcx> for ty::ClosureArgs<TyCtxt<'tcx>> {
    fn parent_args_ref(&self, tcx: TyCtxt<'tcx>) -> GenericArgsRef<'tcx> {
        tcx.mk_args(self.parent_args())
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        tyidx: HashMap::new(),
        nodes: BTreeMap::new(),
        queue: VecDeque::new(),
        dropq: VecDeque::new(),
        seen: HashSet::new(),
    };
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut fns = vec![];
    let mut reexports = vec![];
    let mut statics = vec![];
    let mut items: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
    let have: HashSet<LocalDefId> = items.iter().copied().collect();
    for k in tcx.mir_keys(()).iter() {
        if !have.contains(k) && tcx.def_kind(k.to_def_id()) == DefKind::Closure {
            items.push(*k);
        }
    }
    for &ld in items.iter() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let mut vars = vec![];
                for v in def.variants().iter() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let tj = cx.ty(t);
                        fs.push(J::A(vec![
                            s(f.name),
                            tj,
                            J::B(f.vis.is_public()),
                        ]));
                    }
                    vars.push(J::A(vec![s(v.name), J::A(fs)]));
                }
                let g = cx.generics(d);
                let b = cx.bounds(d);
                adts.push(J::O(vec![
                    ("name", s(cx.name(d))),
                    ("id", s(cx.id(d))),
                    ("kind", s(format!("{:?}", tcx.def_kind(d)))),
                    ("generics", g),
                    ("bounds", b),
                    ("variants", J::A(vars)),
                    ("pub", J::B(tcx.visibility(d).is_public())),
                    ("file", s(cx.file(tcx.def_span(d)))),
                    ("line", J::I(cx.line(tcx.def_span(d)))),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let stj = cx.ty(st);
                let mut items = vec![];
                let mut tys = vec![];
                let mut consts = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    match tcx.def_kind(it.def_id) {
                        DefKind::AssocFn => {
                            items.push((it.name().to_string(), s(cx.id(it.def_id))))
                        }
                        DefKind::AssocTy => {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            let t = cx.ty(t);
                            tys.push((it.name().to_string(), t));
                        }
                        DefKind::AssocConst { .. } => {
                            let v = match tcx.const_eval_poly(it.def_id) {
                                Ok(v) => match v.try_to_scalar_int() {
                                    Some(i) => J::I(i.to_bits(i.size()) as i128),
                                    None => J::N,
                                },
                                Err(_) => J::N,
                            };
                            consts.push((it.name().to_string(), v));
                        }
                        _ => {}
                    }
                }
                let g = cx.generics(d);
                let b = cx.bounds(d);
                let (tr, tra, neg) = if of_trait {
                    let h = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let a = cx.gargs(h.args);
                    (s(cx.name(h.def_id)), a, false)
                } else {
                    (J::N, J::A(vec![]), false)
                };
                let _ = neg;
                impls.push(J::O(vec![
                    ("id", s(cx.id(d))),
                    ("trait", tr),
                    ("trait_args", tra),
                    ("self", stj),
                    ("generics", g),
                    ("bounds", b),
                    ("derived", J::B(tcx.is_builtin_derived(d))),
                    ("items", J::M(items)),
                    ("types", J::M(tys)),
                    ("consts", J::M(consts)),
                    ("file", s(cx.file(tcx.def_span(d)))),
                    ("line", J::I(cx.line(tcx.def_span(d)))),
                ]));
            }
            DefKind::Trait => {
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    if let DefKind::AssocFn = tcx.def_kind(it.def_id) {
                        items.push((
                            it.name().to_string(),
                            J::A(vec![
                                s(cx.id(it.def_id)),
                                J::B(tcx.defaultness(it.def_id).has_value()),
                            ]),
                        ));
                    }
                }
                let g = cx.generics(d);
                let b = cx.bounds(d);
                traits.push(J::O(vec![
                    ("name", s(cx.name(d))),
                    ("generics", g),
                    ("bounds", b),
                    ("items", J::M(items)),
                    ("unsafe", J::B(tcx.trait_def(d).safety.is_unsafe())),
                ]));
            }
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let kind = tcx.def_kind(d);
                let g = cx.generics(d);
                let b = cx.bounds(d);
                let parent = tcx.parent(d);
                let span = tcx.def_span(d);
                let mut o = vec![
                    ("id", s(cx.id(d))),
                    ("name", s(cx.name(d))),
                    ("kind", s(format!("{:?}", kind))),
                    ("parent", s(cx.id(parent))),
                    ("generics", g),
                    ("bounds", b),
                    ("file", s(cx.file(span))),
                    ("line", J::I(cx.line(span))),
                ];
                if kind != DefKind::Closure {
                    o.push(("pub", J::B(tcx.visibility(d).is_public())));
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    let ins: Vec<J> = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
                    let outt = cx.ty(sig.output());
                    o.push(("inputs", J::A(ins)));
                    o.push(("output", outt));
                    o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                    if let Some(n) = tcx.opt_item_name(d) {
                        o.push(("m", s(n)));
                    }
                }
                let has = match kind {
                    DefKind::AssocFn if tcx.trait_of_assoc(d).is_some() => {
                        tcx.defaultness(d).has_value()
                    }
                    _ => tcx.is_mir_available(d),
                };
                if has {
                    let body = tcx.optimized_mir(d);
                    let env = TypingEnv::post_analysis(tcx, d);
                    let bj = cx.body(body, env);
                    o.push(("body", bj));
                    let mut proms = vec![];
                    for p in tcx.promoted_mir(d).iter() {
                        let pj = cx.body(p, env);
                        proms.push(pj);
                    }
                    o.push(("prom", J::A(proms)));
                }
                fns.push(J::O(o));
            }
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let frozen = t.is_freeze(tcx, TypingEnv::fully_monomorphized()) && !tcx.is_mutable_static(d);
                let tj = cx.ty(t);
                let sp = tcx.def_span(d);
                statics.push(J::O(vec![
                    ("name", s(cx.name(d))),
                    ("ty", tj),
                    ("frozen", J::B(frozen)),
                    ("tls", J::B(tcx.is_thread_local_static(d))),
                    ("file", s(cx.file(sp))),
                    ("line", J::I(cx.line(sp))),
                ]));
            }
            DefKind::TyAlias => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tj = cx.ty(t);
                reexports.push(J::A(vec![
                    s(cx.name(d)),
                    s(ty::print::with_no_trimmed_paths!(format!("{:?}", t))),
                    tj,
                    J::B(tcx.visibility(d).is_public()),
                ]));
            }
            _ => {}
        }
    }
    cx.run_nodes();
    let nodes: Vec<(String, J)> = cx.nodes.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let j = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE))),
        ("types", J::A(cx.types)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("aliases", J::A(reexports)),
        ("statics", J::A(statics)),
        ("fns", J::A(fns)),
        ("nodes", J::M(nodes)),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    let tmp = format!("{}.tmp.{}", out, std::process::id());
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let want = std::env::var("FDS_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() == want {
            if let Ok(out) = std::env::var("FDS_OUT") {
                dump(tcx, &out);
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argument 1.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::install_ice_hook("fds-driver", |_| ());
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb));
    let _ = code;
    std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
