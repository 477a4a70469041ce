//! MIR fact extractor: runs as RUSTC_WORKSPACE_WRAPPER, dumps type-resolved MIR
//! (after drop elaboration, before coroutine lowering) of every workspace crate as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t)))
    }
    fn line(&self, s: Span) -> (String, usize) {
        let s = s.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        (format!("{}", loc.file.name.prefer_local_unconditionally()), loc.line)
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let (name, owner) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = def.variant(vi);
                            (v.fields[f].name.to_string(), self.path(def.did()))
                        }
                        ty::Tuple(_) => (format!("{}", f.as_usize()), "(tuple)".to_string()),
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            let name = d
                                .as_local()
                                .and_then(|l| {
                                    self.tcx
                                        .closure_captures(l)
                                        .get(f.as_usize())
                                        .map(|c| c.to_symbol().to_string())
                                })
                                .unwrap_or_else(|| format!("{}", f.as_usize()));
                            (name, "(closure)".to_string())
                        }
                        _ => (format!("{}", f.as_usize()), "?".to_string()),
                    };
                    let _ = write!(o, "[\"f\",{},{},{}]", f.as_usize(), esc(&name), esc(&owner));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => n.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    let _ = write!(o, "[\"v\",{},{}]", vi.as_usize(), esc(&name));
                }
                _ => o.push_str("[\"?\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        let _ = write!(o, "]]");
        o
    }

    fn fnref(&self, tenv: ty::TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut o = format!("{{\"id\":{},\"path\":{}", esc(&self.id(d)), esc(&self.path(d)));
        let gs: Vec<String> = args
            .iter()
            .filter_map(|a| a.as_type())
            .map(|t| esc(&self.ty(t)))
            .collect();
        let _ = write!(o, ",\"ga\":[{}]", gs.join(","));
        // closures appearing in generic args
        let mut cl = vec![];
        for a in args.iter().filter_map(|a| a.as_type()) {
            if let ty::Closure(d, _) | ty::FnDef(d, _) | ty::Coroutine(d, _) = a.kind() {
                cl.push(esc(&self.id(*d)));
            }
        }
        if !cl.is_empty() {
            let _ = write!(o, ",\"gfn\":[{}]", cl.join(","));
        }
        if let Some(assoc) = self.tcx.opt_associated_item(d) {
            if let Some(tr) = assoc.trait_container(self.tcx) {
                let _ = write!(o, ",\"trait\":{},\"name\":{}", esc(&self.path(tr)), esc(assoc.name().as_str()));
                if let Some(st) = args.types().next() {
                    let _ = write!(o, ",\"self\":{}", esc(&self.ty(st)));
                    let mut s = st;
                    while let ty::Ref(_, t, _) = s.kind() {
                        s = *t;
                    }
                    if let ty::Dynamic(..) = s.kind() {
                        let _ = write!(o, ",\"dyn\":true");
                    }
                }
                if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, tenv, d, args) {
                    match inst.def {
                        ty::InstanceKind::Item(rd) => {
                            if rd != d {
                                let _ = write!(o, ",\"res\":{},\"rpath\":{}", esc(&self.id(rd)), esc(&self.path(rd)));
                            } else {
                                let _ = write!(o, ",\"res\":{}", esc(&self.id(rd)));
                            }
                        }
                        ty::InstanceKind::Virtual(..) => {
                            let _ = write!(o, ",\"dyn\":true");
                        }
                        ref k => {
                            let s = format!("{:?}", k);
                            let s = s.split('(').next().unwrap_or("").to_string();
                            let _ = write!(o, ",\"shim\":{}", esc(&s));
                        }
                    }
                }
            } else {
                let _ = write!(o, ",\"name\":{}", esc(assoc.name().as_str()));
                if let Some(imp) = assoc.impl_container(self.tcx) {
                    let st = self.tcx.type_of(imp).skip_binder();
                    let _ = write!(o, ",\"self\":{}", esc(&self.ty(st)));
                }
            }
        } else {
            let nm = self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            let _ = write!(o, ",\"name\":{}", esc(&nm));
        }
        if let DefKind::Ctor(..) = self.tcx.def_kind(d) {
            let parent = self.tcx.parent(d);
            let (adt, var) = if let DefKind::Variant = self.tcx.def_kind(parent) {
                (self.tcx.parent(parent), self.tcx.item_name(parent).to_string())
            } else {
                (parent, self.tcx.item_name(parent).to_string())
            };
            let _ = write!(o, ",\"ctor\":[{},{}]", esc(&self.path(adt)), esc(&var));
        }
        o.push('}');
        o
    }

    fn constant(&self, tenv: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let ct = c.const_;
        let t = ct.ty();
        let mut o = format!("{{\"ty\":{}", esc(&self.ty(t)));
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let _ = write!(o, ",\"fn\":{}", self.fnref(tenv, *d, args));
            o.push('}');
            return o;
        }
        if let ty::Closure(d, _) = t.kind() {
            let _ = write!(o, ",\"closure\":{}", esc(&self.id(*d)));
        }
        if let Const::Unevaluated(u, _) = ct {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{},\"of\":{}", p.as_usize(), esc(&self.id(u.def)));
                o.push('}');
                return o;
            }
            let _ = write!(o, ",\"def\":{}", esc(&self.path(u.def)));
        }
        let generic = ty::TypeVisitableExt::has_param(&ct);
        if !generic {
            if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                if let Some(bits) = ct.try_eval_bits(self.tcx, tenv) {
                    let v = if t.is_bool() {
                        format!("{}", bits != 0)
                    } else if t.is_char() {
                        esc(&char::from_u32(bits as u32).unwrap_or('?').to_string())
                    } else if t.is_floating_point() {
                        match self.ty(t).as_str() {
                            "f32" => esc(&format!("{:?}", f32::from_bits(bits as u32))),
                            _ => esc(&format!("{:?}", f64::from_bits(bits as u64))),
                        }
                    } else if t.is_signed() {
                        let size = self.tcx.layout_of(tenv.as_query_input(t)).unwrap().size;
                        format!("{}", size.sign_extend(bits))
                    } else {
                        format!("{}", bits)
                    };
                    let _ = write!(o, ",\"v\":{}", v);
                    o.push('}');
                    return o;
                }
            }
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() {
                    if let Ok(cv) = ct.eval(self.tcx, tenv, c.span) {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            let _ = write!(o, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                            o.push('}');
                            return o;
                        }
                    }
                }
            }
            if let Const::Unevaluated(..) = ct {
                if let Ok(cv) = ct.eval(self.tcx, tenv, c.span) {
                    let s = with_no_trimmed_paths!(format!("{}", Const::Val(cv, t)));
                    let _ = write!(o, ",\"disp\":{}", esc(&s));
                    o.push('}');
                    return o;
                }
            }
        }
        let s = with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", ct)));
        let _ = write!(o, ",\"disp\":{}", esc(&s));
        o.push('}');
        o
    }

    fn operand(&self, tenv: ty::TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(tenv, c)),
            #[allow(unreachable_patterns)]
            _ => "[\"k\",{\"ty\":\"bool\",\"disp\":\"runtime\"}]".to_string(),
        }
    }

    fn rvalue(&self, tenv: ty::TypingEnv<'tcx>, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> String {
        match rv {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(tenv, body, op)),
            Rvalue::Repeat(op, n) => format!("[\"repeat\",{},{}]", self.operand(tenv, body, op), esc(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shr",
                    BorrowKind::Fake(_) => "fake",
                    #[allow(unreachable_patterns)]
                    _ => "pin",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(body, p)),
            Rvalue::Cast(k, op, t) => format!(
                "[\"cast\",{},{},{}]",
                esc(&format!("{:?}", k)),
                self.operand(tenv, body, op),
                esc(&self.ty(*t))
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                b,
                self.operand(tenv, body, &ops.0),
                self.operand(tenv, body, &ops.1)
            ),
            Rvalue::UnaryOp(u, op) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(tenv, body, op)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let vars: Vec<String> = match t.kind() {
                    ty::Adt(d, _) if d.is_enum() => d
                        .discriminants(self.tcx)
                        .map(|(vi, ds)| format!("[\"{}\",{}]", ds.val, esc(d.variant(vi).name.as_str())))
                        .collect(),
                    _ => vec![],
                };
                format!("[\"disc\",{},{},[{}]]", self.place(body, p), esc(&self.ty(t)), vars.join(","))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops_s: Vec<String> = ops.iter().map(|o| self.operand(tenv, body, o)).collect();
                let (kind, name, var, fields): (&str, String, String, Vec<String>) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new(), String::new(), vec![]),
                    AggregateKind::Tuple => ("tuple", String::new(), String::new(), vec![]),
                    AggregateKind::Adt(d, vi, _, _, uf) => {
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let f = match uf {
                            Some(f) => vec![v.fields[*f].name.to_string()],
                            None => v.fields.iter().map(|f| f.name.to_string()).collect(),
                        };
                        ("adt", self.path(*d), v.name.to_string(), f)
                    }
                    AggregateKind::Closure(d, _) => {
                        let caps = d
                            .as_local()
                            .map(|l| self.tcx.closure_captures(l).iter().map(|c| c.to_symbol().to_string()).collect())
                            .unwrap_or_default();
                        ("closure", self.id(*d), String::new(), caps)
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        let caps = d
                            .as_local()
                            .map(|l| self.tcx.closure_captures(l).iter().map(|c| c.to_symbol().to_string()).collect())
                            .unwrap_or_default();
                        ("coroutine", self.id(*d), String::new(), caps)
                    }
                    _ => ("other", String::new(), String::new(), vec![]),
                };
                let fs: Vec<String> = fields.iter().map(|f| esc(f)).collect();
                format!(
                    "[\"agg\",\"{}\",{},{},[{}],[{}]]",
                    kind,
                    esc(&name),
                    esc(&var),
                    fs.join(","),
                    ops_s.join(",")
                )
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            #[allow(unreachable_patterns)]
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => format!("{}", b.as_usize()),
            _ => "null".into(),
        }
    }

    fn body(&self, did: DefId, body: &Body<'tcx>, key: &str, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let tenv = ty::TypingEnv::post_analysis(tcx, did);
        let (file, line) = self.line(body.span);
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"id\":{},\"path\":{},\"file\":{},\"line\":{},\"kind\":{},\"argc\":{}",
            esc(key),
            esc(&self.path(did)),
            esc(&file),
            line,
            esc(&format!("{:?}", tcx.def_kind(did))),
            body.arg_count
        );
        if let Some(p) = promoted {
            let _ = write!(o, ",\"promoted\":{}", p);
        }
        if promoted.is_none() {
            if let Some(a) = tcx.opt_associated_item(did) {
                let _ = write!(o, ",\"name\":{}", esc(a.name().as_str()));
                if let Some(tr) = a.trait_container(tcx) {
                    let _ = write!(o, ",\"in_trait\":{}", esc(&self.path(tr)));
                }
                if let Some(imp) = a.impl_container(tcx) {
                    let st = tcx.type_of(imp).skip_binder();
                    let _ = write!(o, ",\"self_ty\":{}", esc(&self.ty(st)));
                    if let ty::Adt(d, _) = st.kind() {
                        let _ = write!(o, ",\"self_adt\":{}", esc(&self.path(d.did())));
                    }
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let _ = write!(o, ",\"of_trait\":{}", esc(&self.path(tr.skip_binder().def_id)));
                    }
                }
            } else if let Some(n) = tcx.opt_item_name(did) {
                let _ = write!(o, ",\"name\":{}", esc(n.as_str()));
            }
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let vis = tcx.visibility(did);
                let _ = write!(o, ",\"pub\":{}", vis.is_public());
            }
            if matches!(tcx.def_kind(did), DefKind::Closure) {
                let _ = write!(o, ",\"parent\":{}", esc(&self.id(tcx.parent(did))));
                if tcx.is_coroutine(did) {
                    let _ = write!(o, ",\"coroutine\":true");
                }
            }
        }
        // locals
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                } else {
                    upv.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, &p)));
                }
            }
        }
        let _ = write!(o, ",\"dbg\":[{}]", upv.join(","));
        o.push_str(",\"locals\":[");
        for (i, d) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let n = names[i].as_ref().map(|s| esc(s)).unwrap_or("null".into());
            let adt = match d.ty.peel_refs().kind() {
                ty::Adt(a, _) => esc(&self.path(a.did())),
                _ => "null".into(),
            };
            let _ = write!(o, "[{},{},{}]", esc(&self.ty(d.ty)), n, adt);
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let l = self.line(st.source_info.span).1;
                let s = match &st.kind {
                    StatementKind::Assign(b) => format!("[\"=\",{},{},{}]", self.place(body, &b.0), self.rvalue(tenv, body, &b.1), l),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{},{}]", self.place(body, place), variant_index.as_usize(), l)
                    }
                    StatementKind::StorageDead(x) => format!("[\"dead\",{},{}]", x.as_usize(), l),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let l = self.line(t.source_info.span).1;
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!(
                        "[\"switch\",{},[{}],{},{}]",
                        self.operand(tenv, body, discr),
                        ts.join(","),
                        targets.otherwise().as_usize(),
                        esc(&self.ty(discr.ty(body, tcx)))
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => format!(
                    "[\"drop\",{},{},{},{},{}]",
                    self.place(body, place),
                    target.as_usize(),
                    self.unwind(unwind),
                    esc(&self.ty(place.ty(body, tcx).ty)),
                    l
                ),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(tenv, body, &x.node)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{},{}]",
                        self.operand(tenv, body, func),
                        a.join(","),
                        self.place(body, destination),
                        target.map(|t| format!("{}", t.as_usize())).unwrap_or("null".into()),
                        self.unwind(unwind),
                        l
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    let os: Vec<String> = ops.iter().map(|x| self.operand(tenv, body, x)).collect();
                    format!(
                        "[\"assert\",{},{},{},[{}],{},{},{}]",
                        self.operand(tenv, body, cond),
                        expected,
                        esc(&k),
                        os.join(","),
                        target.as_usize(),
                        self.unwind(unwind),
                        l
                    )
                }
                TerminatorKind::Yield { value, resume, drop, .. } => format!(
                    "[\"yield\",{},{},{},{}]",
                    self.operand(tenv, body, value),
                    resume.as_usize(),
                    drop.map(|t| format!("{}", t.as_usize())).unwrap_or("null".into()),
                    l
                ),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::CoroutineDrop => "[\"cdrop\"]".into(),
                _ => "[\"other\"]".into(),
            };
            let _ = write!(o, "{},\"l\":{},\"cu\":{}}}", ts, l, bb.is_cleanup);
        }
        o.push_str("]}");
        o
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let dir = match std::env::var("VP_FACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let cx = Cx { tcx };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if krate == "build_script_build" {
            return Compilation::Continue;
        }
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        for &k in tcx.mir_keys(()).iter() {
            let kind = tcx.def_kind(k);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody) {
                continue;
            }
            let b = tcx.mir_drops_elaborated_and_const_checked(k).borrow().clone();
            bodies.push((k, b));
        }
        let mut out = String::new();
        let _ = write!(out, "{{\"crate\":{},\"bodies\":[\n", esc(&krate));
        let mut first = true;
        for (k, b) in &bodies {
            if !first {
                out.push_str(",\n");
            }
            first = false;
            let did = k.to_def_id();
            out.push_str(&cx.body(did, b, &cx.id(did), None));
            let prom = tcx.promoted_mir(did);
            for (pi, pb) in prom.iter_enumerated() {
                out.push_str(",\n");
                out.push_str(&cx.body(did, pb, &format!("{}::promoted[{}]", cx.id(did), pi.as_usize()), Some(pi.as_usize())));
            }
        }
        // static/const initialisers' promoteds are not needed
        out.push_str("],\n\"adts\":[");
        let mut first = true;
        let mut traits = String::new();
        let mut impls = String::new();
        let mut consts = String::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    if !first {
                        out.push_str(",\n");
                    }
                    first = false;
                    let vs: Vec<String> = def
                        .variants()
                        .iter()
                        .map(|v| {
                            let fs: Vec<String> = v
                                .fields
                                .iter()
                                .map(|f| {
                                    let t = tcx.type_of(f.did).skip_binder();
                                    format!("[{},{},{}]", esc(f.name.as_str()), esc(&cx.ty(t)), f.vis.is_public())
                                })
                                .collect();
                            format!("[{},[{}]]", esc(v.name.as_str()), fs.join(","))
                        })
                        .collect();
                    let (file, line) = cx.line(tcx.def_span(d));
                    let _ = write!(
                        out,
                        "{{\"path\":{},\"enum\":{},\"file\":{},\"line\":{},\"drop\":{},\"variants\":[{}]}}",
                        esc(&cx.path(d)),
                        def.is_enum(),
                        esc(&file),
                        line,
                        tcx.adt_destructor(d).map(|x| esc(&cx.id(x.did))).unwrap_or("null".into()),
                        vs.join(",")
                    );
                }
                DefKind::Trait => {
                    let ms: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|a| a.is_fn())
                        .map(|a| {
                            format!(
                                "{{\"name\":{},\"id\":{},\"default\":{}}}",
                                esc(a.name().as_str()),
                                esc(&cx.id(a.def_id)),
                                a.defaultness(tcx).has_value()
                            )
                        })
                        .collect();
                    if !traits.is_empty() {
                        traits.push_str(",\n");
                    }
                    let _ = write!(traits, "{{\"path\":{},\"methods\":[{}]}}", esc(&cx.path(d)), ms.join(","));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).skip_binder();
                    let tr = tcx.impl_opt_trait_ref(d);
                    let ms: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|a| a.is_fn())
                        .map(|a| format!("{}:{}", esc(a.name().as_str()), esc(&cx.id(a.def_id))))
                        .collect();
                    if !impls.is_empty() {
                        impls.push_str(",\n");
                    }
                    let (file, line) = cx.line(tcx.def_span(d));
                    let adt = match st.kind() {
                        ty::Adt(a, _) => esc(&cx.path(a.did())),
                        _ => "null".into(),
                    };
                    let _ = write!(
                        impls,
                        "{{\"self\":{},\"adt\":{},\"trait\":{},\"file\":{},\"line\":{},\"derived\":{},\"methods\":{{{}}}}}",
                        esc(&cx.ty(st)),
                        adt,
                        tr.map(|t| esc(&cx.path(t.skip_binder().def_id))).unwrap_or("null".into()),
                        esc(&file),
                        line,
                        tcx.is_automatically_derived(d),
                        ms.join(",")
                    );
                }
                DefKind::Static { .. } | DefKind::Const { .. } => {
                    let t = tcx.type_of(d).skip_binder();
                    if !consts.is_empty() {
                        consts.push_str(",\n");
                    }
                    let _ = write!(consts, "[{},{}]", esc(&cx.path(d)), esc(&cx.ty(t)));
                }
                _ => {}
            }
        }
        let _ = write!(
            out,
            "],\n\"traits\":[{}],\n\"impls\":[{}],\n\"consts\":[{}]}}\n",
            traits, impls, consts
        );
        let f = format!("{}/{}.json", dir, krate);
        std::fs::write(&f, out).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    code
}
