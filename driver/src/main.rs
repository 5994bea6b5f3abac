// A rustc driver that dumps the type-checked program of the crate `magog` as
// JSON: polymorphic MIR of every local function (instantiated at its own
// generics), of everything it reaches inside the crate and of whitelisted small
// library functions, with resolved callees, types and ADT layouts.
// It never runs any code of the crate.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_abi;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt as _};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Body0<'tcx> {
    Inst(InstanceKind<'tcx>, GenericArgsRef<'tcx>),
    Promoted(DefId, Promoted, GenericArgsRef<'tcx>),
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    envs: Vec<TypingEnv<'tcx>>,
    insts: HashMap<(usize, Body0<'tcx>), usize>,
    queue: VecDeque<(usize, usize, Body0<'tcx>)>,
    inst_json: Vec<String>,
    tys: HashMap<(usize, Ty<'tcx>), usize>,
    ty_json: Vec<String>,
    crate_name: String,
}

const FOREIGN_OK: &[&str] = &[
    "core::option::", "core::result::", "core::convert::", "core::ops::control_flow::",
    "core::ops::try_trait::", "core::ops::function::", "core::cmp::", "core::bool::", "core::tuple::",
    "core::clone::impls::", "core::mem::maybe_dangling",
];

impl<'tcx> Cx<'tcx> {
    fn env_ix(&mut self, e: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.envs.iter().position(|x| *x == e) {
            return i;
        }
        self.envs.push(e);
        self.envs.len() - 1
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// Definition path (never a re-export): core::option::Option::map
    fn dpath(&self, d: DefId) -> String {
        let kr = self.tcx.crate_name(d.krate).to_string();
        format!("{}{}", kr, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let loc = sm.lookup_char_pos(s.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, loc.line)
    }
    fn want_body(&self, inst: &Instance<'tcx>) -> bool {
        match inst.def {
            InstanceKind::Item(d) => {
                if d.is_local() {
                    return self.tcx.is_mir_available(d);
                }
                if !self.tcx.is_mir_available(d) {
                    return false;
                }
                let p = self.dpath(d);
                FOREIGN_OK.iter().any(|x| p.starts_with(x))
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
            _ => false,
        }
    }
    fn inst(&mut self, env: usize, b: Body0<'tcx>) -> usize {
        if let Some(i) = self.insts.get(&(env, b)) {
            return *i;
        }
        let i = self.inst_json.len();
        self.inst_json.push(String::new());
        self.insts.insert((env, b), i);
        self.queue.push_back((i, env, b));
        i
    }
    fn ty(&mut self, env: usize, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&(env, t)) {
            return *i;
        }
        let i = self.ty_json.len();
        self.ty_json.push(String::new());
        self.tys.insert((env, t), i);
        let s = with_no_trimmed_paths!(format!("{}", t));
        let tcx = self.tcx;
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(_) => "\"k\":\"int\"".to_string(),
            ty::Uint(_) => "\"k\":\"uint\"".to_string(),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", js(p.name.as_str())),
            ty::Ref(_, x, m) => {
                let x = self.ty(env, x);
                format!("\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), x)
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(env, x);
                format!("\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), x)
            }
            ty::Slice(x) => {
                let x = self.ty(env, x);
                format!("\"k\":\"slice\",\"t\":{}", x)
            }
            ty::Array(x, n) => {
                let x = self.ty(env, x);
                let n = n.try_to_target_usize(tcx).map(|v| v as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", x, n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(env, x).to_string()).collect();
                format!("\"k\":\"tuple\",\"ts\":{}", arr(&v))
            }
            ty::Adt(def, args) => {
                let d = def.did();
                let p = self.dpath(d);
                let targs: Vec<String> = args.types().map(|x| self.ty(env, x).to_string()).collect();
                let expand = d.is_local()
                    || ["core::option::", "core::result::", "core::cmp::", "core::ops::", "core::iter", "core::convert", "core::num", "wkt::", "ordered_float::"]
                        .iter()
                        .any(|x| p.starts_with(x));
                let mut vs = vec![];
                if expand || def.is_enum() {
                    for v in def.variants().iter() {
                        let mut fs = vec![];
                        if expand {
                            for f in v.fields.iter() {
                                let ft = f.ty(tcx, args);
                                let ft = tcx
                                    .try_normalize_erasing_regions(self.envs[env], ft)
                                    .unwrap_or(Ty::new_tup(tcx, &[]));
                                let ft = self.ty(env, ft);
                                fs.push(format!("[{},{},{}]", js(f.name.as_str()), ft, f.vis.is_public()));
                            }
                        }
                        vs.push(format!("{{\"name\":{},\"fields\":{}}}", js(v.name.as_str()), arr(&fs)));
                    }
                }
                let mut discr = vec![];
                if def.is_enum() {
                    for (_, dd) in def.discriminants(tcx) {
                        discr.push(format!("\"{}\"", dd.val));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"path\":{},\"local\":{},\"enum\":{},\"args\":{},\"variants\":{},\"discr\":{}",
                    js(&p), d.is_local(), def.is_enum(), arr(&targs), arr(&vs), arr(&discr)
                )
            }
            ty::Closure(d, args) => {
                let ca = args.as_closure();
                let up: Vec<String> = ca.upvar_tys().iter().map(|x| self.ty(env, x).to_string()).collect();
                let k = self.inst(env, Body0::Inst(InstanceKind::Item(d), args));
                format!("\"k\":\"closure\",\"inst\":{},\"upvars\":{},\"kind\":{}", k, arr(&up), js(&format!("{:?}", ca.kind_ty())))
            }
            ty::FnDef(d, args) => {
                let c = self.callee(env, d, args.no_bound_vars().unwrap());
                format!("\"k\":\"fndef\",\"callee\":{}", c)
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_json[i] = format!("{{\"s\":{},{}}}", js(&s), body);
        i
    }
    fn callee(&mut self, env: usize, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let te = self.envs[env];
        let path = self.dpath(d);
        let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
        let mut trait_ = "null".to_string();
        let mut self_ty = "null".to_string();
        let mut aux: Vec<String> = vec![];
        let tr = tcx.trait_of_assoc(d);
        if let Some(t) = tr {
            trait_ = js(&self.dpath(t));
            let st = args.type_at(0);
            self_ty = self.ty(env, st).to_string();
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            if let Ok(st) = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new(st)) {
                self_ty = self.ty(env, st).to_string();
            }
        }
        let targs: Vec<String> = args.types().map(|x| self.ty(env, x).to_string()).collect();
        let mut inst_s = "null".to_string();
        let mut rpath = "null".to_string();
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let mut r = Instance::try_resolve(tcx, te, d, args).ok().flatten();
            if r.is_none() {
                // unresolved method of a local trait with a default body nobody overrides
                if let Some(t) = tr {
                    if t.is_local() && tcx.associated_item(d).defaultness(tcx).has_value() {
                        let over = tcx.all_impls(t).any(|im| {
                            tcx.impl_item_implementor_ids(im).get(&d).is_some()
                        });
                        if !over {
                            r = Some(Instance { def: InstanceKind::Item(d), args });
                        }
                    }
                }
            }
            if let Some(i) = r {
                if let InstanceKind::Item(rd) = i.def {
                    rpath = js(&self.dpath(rd));
                }
                if self.want_body(&i) {
                    let k = self.inst(env, Body0::Inst(i.def, i.args));
                    inst_s = k.to_string();
                }
                if let Some(t) = tr {
                    // comparison operators on crate types: attach the defining method
                    let tp = self.dpath(t);
                    let want = if tp == "core::cmp::PartialOrd" && name != "partial_cmp" {
                        Some("partial_cmp")
                    } else if tp == "core::cmp::PartialEq" && name == "ne" {
                        Some("eq")
                    } else {
                        None
                    };
                    if let Some(w) = want {
                        for ai in tcx.associated_items(t).in_definition_order() {
                            if ai.opt_name().map(|n| n.as_str() == w).unwrap_or(false) {
                                if let Ok(Some(ii)) = Instance::try_resolve(tcx, te, ai.def_id, args) {
                                    if self.want_body(&ii) {
                                        let k = self.inst(env, Body0::Inst(ii.def, ii.args));
                                        aux.push(format!("[{},{}]", js(w), k));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        format!(
            "{{\"path\":{},\"name\":{},\"trait\":{},\"self\":{},\"args\":{},\"inst\":{},\"rpath\":{},\"aux\":{},\"kind\":{},\"local\":{}}}",
            js(&path), js(&name), trait_, self_ty, arr(&targs), inst_s, rpath, arr(&aux), js(&format!("{:?}", dk)), d.is_local()
        )
    }
    fn place(&mut self, env: usize, p: Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(env, t);
                    format!("[\"field\",{},{}]", f.as_u32(), t)
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"cindex\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"downcast\",{}]", v.as_u32()),
                _ => "[\"other\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(&v))
    }
    fn konst(&mut self, env: usize, body: Body0<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let te = self.envs[env];
        let t = c.const_.ty();
        let tid = self.ty(env, t);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let args = match body { Body0::Inst(_, _) | Body0::Promoted(..) => u.args };
                let k = self.inst(env, Body0::Promoted(u.def, p, args));
                return format!("{{\"c\":\"promoted\",\"inst\":{},\"t\":{}}}", k, tid);
            }
        }
        let name = match c.const_ {
            Const::Unevaluated(u, _) => js(&self.dpath(u.def)),
            _ => "null".into(),
        };
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"c\":\"fn\",\"t\":{}}}", tid);
        }
        match c.const_.eval(tcx, te, c.span) {
            Ok(ConstValue::Scalar(interpret::Scalar::Int(i))) => {
                let sz = i.size();
                let bits = i.to_bits(sz);
                let v = match t.kind() {
                    ty::Int(_) => format!("{}", sz.sign_extend(bits)),
                    _ => format!("{}", bits),
                };
                format!("{{\"c\":\"scalar\",\"v\":\"{}\",\"t\":{},\"name\":{}}}", v, tid, name)
            }
            Ok(ConstValue::ZeroSized) => format!("{{\"c\":\"zst\",\"t\":{}}}", tid),
            Ok(v @ ConstValue::Slice { .. }) => {
                let s = v
                    .try_get_slice_bytes_for_diagnostics(tcx)
                    .map(|b| String::from_utf8_lossy(b).to_string())
                    .unwrap_or_default();
                format!("{{\"c\":\"str\",\"v\":{},\"t\":{}}}", js(&s), tid)
            }
            _ => {
                let s = with_no_trimmed_paths!(format!("{}", c.const_));
                format!("{{\"c\":\"opaque\",\"v\":{},\"t\":{},\"name\":{}}}", js(&s), tid, name)
            }
        }
    }
    fn op(&mut self, env: usize, b: Body0<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(env, *p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(env, *p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.konst(env, b, c)),
            _ => "[\"rtcheck\"]".to_string(),
        }
    }
    fn rvalue(&mut self, env: usize, b: Body0<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(env, b, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.op(env, b, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(env, *p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(env, *p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(env, *t);
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(env, b, o), t)
            }
            Rvalue::BinaryOp(k, ab) => {
                let a = self.op(env, b, &ab.0);
                let c = self.op(env, b, &ab.1);
                format!("[\"bin\",{},{},{}]", js(&format!("{:?}", k)), a, c)
            }
            Rvalue::UnaryOp(k, o) => format!("[\"un\",{},{}]", js(&format!("{:?}", k)), self.op(env, b, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(env, *p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(env, b, o)).collect();
                let ks = match **k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(env, t);
                        format!("[\"adt\",{},{},{}]", js(&self.dpath(d)), vi.as_u32(), t)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d, args);
                        let t = self.ty(env, t);
                        format!("[\"closure\",{}]", t)
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, arr(&v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(env, *p)),
            _ => format!("[\"other\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn dump_body(&mut self, env: usize, b: Body0<'tcx>) -> String {
        let tcx = self.tcx;
        let te = self.envs[env];
        let (body, args, did): (Body<'tcx>, GenericArgsRef<'tcx>, DefId) = match b {
            Body0::Inst(def, args) => {
                let inst = Instance { def, args };
                let m = tcx.instance_mir(def).clone();
                let m = inst.instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, m));
                (m, args, def.def_id())
            }
            Body0::Promoted(d, p, args) => {
                let m = tcx.promoted_mir(d)[p].clone();
                let inst = Instance { def: InstanceKind::Item(d), args };
                let m = inst.instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, m));
                (m, args, d)
            }
        };
        let _ = args;
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(env, l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_u32(), js(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(env, pr.0);
                        let r = self.rvalue(env, b, &pr.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, js(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(env, **place);
                        st.push(format!("[\"setdiscr\",{},{}]", p, variant_index.as_u32()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = js(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(env, b, discr);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_u32())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(env, dt);
                    format!("[\"switch\",{},{},{},{}]", o, arr(&v), targets.otherwise().as_u32(), dt)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match *c.const_.ty().kind() {
                            ty::FnDef(d, a) => self.callee(env, d, a.no_bound_vars().unwrap()),
                            _ => "null".to_string(),
                        },
                        _ => "null".to_string(),
                    };
                    let v: Vec<String> = args.iter().map(|o| self.op(env, b, &o.node)).collect();
                    let d = self.place(env, *destination);
                    let t = target.map(|t| t.as_u32() as i64).unwrap_or(-1);
                    let fo = if f == "null" { self.op(env, b, func) } else { "null".into() };
                    format!("[\"call\",{},{},{},{},{}]", f, arr(&v), d, t, fo)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.op(env, b, cond);
                    let extra = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.op(env, b, len), self.op(env, b, index))
                        }
                        m => format!("[{}]", js(&format!("{:?}", m).chars().take(40).collect::<String>())),
                    };
                    format!("[\"assert\",{},{},{},{}]", o, expected, extra, target.as_u32())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                k => format!("[\"other\",{}]", js(&format!("{:?}", k).chars().take(60).collect::<String>())),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"cleanup\":{}}}", arr(&st), ts, sp, bb.is_cleanup));
        }
        let path = self.dpath(did);
        let mut selft = "null".to_string();
        let mut trait_ = "null".to_string();
        let mut name = tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default();
        if tcx.is_closure_like(did) {
            name = "{closure}".into();
        }
        let mut vis = false;
        if did.is_local() && !tcx.is_closure_like(did) {
            vis = tcx.effective_visibilities(()).is_reachable(did.expect_local());
        }
        if !tcx.is_closure_like(did) {
            if let Some(im) = tcx.impl_of_assoc(did) {
                selft = self.path_ty(tcx.type_of(im).instantiate_identity().skip_norm_wip());
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    trait_ = js(&with_no_trimmed_paths!(format!("{}", tr.instantiate_identity().skip_norm_wip().print_only_trait_path())));
                }
            }
        }
        let parent = js(&self.dpath(tcx.typeck_root_def_id(did)));
        let kind = match b {
            Body0::Inst(InstanceKind::Item(_), _) => "item",
            Body0::Inst(..) => "shim",
            Body0::Promoted(..) => "promoted",
        };
        let spread = body.spread_arg.map(|l| l.as_u32() as i64).unwrap_or(-1);
        format!(
            "{{\"path\":{},\"name\":{},\"selfty\":{},\"trait\":{},\"pub\":{},\"local\":{},\"kind\":\"{}\",\"root\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"sp\":{},\"closure\":{},\"env\":{},\"file\":{}}}",
            js(&path), js(&name), selft, trait_, vis, did.is_local(), kind, parent, body.arg_count, spread, arr(&locals), arr(&names),
            arr(&blocks), js(&self.span(body.span)), tcx.is_closure_like(did), env, js(&self.span(body.span))
        )
    }
    fn path_ty(&self, t: Ty<'tcx>) -> String {
        js(&with_no_trimmed_paths!(format!("{}", t)))
    }
}

struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("MAGOG_DUMP").unwrap();
        let mut cx = Cx {
            tcx,
            envs: vec![],
            insts: HashMap::new(),
            queue: VecDeque::new(),
            inst_json: vec![],
            tys: HashMap::new(),
            ty_json: vec![],
            crate_name: tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string(),
        };
        let mut roots = vec![];
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        let mut consts = vec![];
        for k in keys {
            let d = k.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {}
                DefKind::Closure | DefKind::Ctor(..) => continue,
                x => {
                    consts.push(format!("[{},{}]", js(&cx.dpath(d)), js(&format!("{:?}", x))));
                    continue;
                }
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let e = cx.env_ix(env);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let i = cx.inst(e, Body0::Inst(InstanceKind::Item(d), args));
            roots.push(i.to_string());
        }
        while let Some((i, e, b)) = cx.queue.pop_front() {
            let s = cx.dump_body(e, b);
            cx.inst_json[i] = s;
        }
        // Items
        let mut items = vec![];
        let mut adts = vec![];
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            let k = tcx.def_kind(d);
            let sp = cx.span(tcx.def_span(d));
            let mut extra = String::new();
            if let DefKind::Impl { of_trait: true } = k {
                let tr = tcx.impl_opt_trait_ref(d).unwrap().instantiate_identity().skip_norm_wip();
                let h = tcx.impl_trait_header(d);
                extra = format!(
                    ",\"trait\":{},\"selfty\":{},\"unsafe\":{},\"neg\":{},\"derived\":{}",
                    js(&cx.dpath(tr.def_id)),
                    cx.path_ty(tr.self_ty()),
                    h.safety.is_unsafe(),
                    matches!(h.polarity, ty::ImplPolarity::Negative),
                    tcx.is_automatically_derived(d)
                );
            }
            if let DefKind::Static { .. } = k {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                extra = format!(
                    ",\"static\":true,\"mut\":{},\"freeze\":{},\"ty\":{}",
                    tcx.is_mutable_static(d),
                    t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d)),
                    cx.path_ty(t)
                );
            }
            if let DefKind::Struct | DefKind::Enum = k {
                let env = TypingEnv::post_analysis(tcx, d);
                let e = cx.env_ix(env);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let tid = cx.ty(e, t);
                let ic = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                let pe = tcx.param_env(d);
                let mut ss = vec![];
                for tr in [send, sync] {
                    let ok = tr
                        .map(|tr| ic.type_implements_trait(tr, [t], pe).must_apply_modulo_regions())
                        .unwrap_or(false);
                    ss.push(ok.to_string());
                }
                adts.push(format!(
                    "{{\"path\":{},\"t\":{},\"send\":{},\"sync\":{},\"sp\":{},\"pub\":{}}}",
                    js(&cx.dpath(d)), tid, ss[0], ss[1], js(&sp),
                    tcx.effective_visibilities(()).is_reachable(d.expect_local())
                ));
            }
            items.push(format!("{{\"path\":{},\"kind\":{},\"sp\":{}{}}}", js(&cx.dpath(d)), js(&format!("{:?}", k)), js(&sp), extra));
        }
        let mut u = Unsafe { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut u);
        let us: Vec<String> = u.found.iter().map(|s| js(&cx.span(*s))).collect();
        while let Some((i, e, b)) = cx.queue.pop_front() {
            let s = cx.dump_body(e, b);
            cx.inst_json[i] = s;
        }
        let envs: Vec<String> = cx.envs.iter().map(|e| js(&with_no_trimmed_paths!(format!("{:?}", e.param_env)))).collect();
        let js_out = format!(
            "{{\"crate\":{},\"roots\":{},\n\"envs\":{},\n\"consts\":{},\n\"items\":[{}],\n\"adts\":[{}],\n\"unsafe\":{},\n\"tys\":[{}],\n\"insts\":[{}]}}",
            js(&cx.crate_name), arr(&roots), arr(&envs), arr(&consts), items.join(",\n"), adts.join(",\n"), arr(&us),
            cx.ty_json.join(",\n"), cx.inst_json.join(",\n")
        );
        std::fs::write(&out, js_out).unwrap();
        let _ = mir::START_BLOCK;
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut name = None;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = Some(w[1].clone());
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    if name.as_deref() == Some("magog") && !is_test && std::env::var("MAGOG_DUMP").is_ok() {
        args.extend(["-Zmir-opt-level=0", "-Coverflow-checks=off", "-Zalways-encode-mir"].iter().map(|s| s.to_string()));
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
