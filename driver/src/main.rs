// MIR dump driver: runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`
// and writes, per crate, a JSON description of every body, ADT and impl.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeSet;
use std::fmt::Write as _;

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeSet<DefId2>,
}
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
struct DefId2(u32, u32);
impl From<DefId> for DefId2 {
    fn from(d: DefId) -> Self {
        DefId2(d.krate.as_u32(), d.index.as_u32())
    }
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        )
    }
    fn id(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        format!("{:?}", h.0)
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(
                rustc_middle::ty::print::with_forced_impl_filename_line!(format!("{}", t))
            )
        )
    }
    fn tyj(&mut self, t: Ty<'tcx>, depth: usize) -> String {
        // structured type
        if depth > 6 {
            return format!("{{\"k\":\"other\",\"s\":{}}}", esc(&self.ty_str(t)));
        }
        match t.kind() {
            ty::Adt(def, args) => {
                self.adts.insert(def.did().into());
                let a: Vec<String> =
                    args.types().map(|x| self.tyj(x, depth + 1)).collect();
                format!(
                    "{{\"k\":\"adt\",\"p\":{},\"id\":{},\"a\":[{}]}}",
                    esc(&self.path(def.did())),
                    esc(&self.id(def.did())),
                    a.join(",")
                )
            }
            ty::Ref(_, inner, m) => format!(
                "{{\"k\":\"ref\",\"m\":{},\"t\":{}}}",
                m.is_mut(),
                self.tyj(*inner, depth + 1)
            ),
            ty::RawPtr(inner, m) => format!(
                "{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}",
                m.is_mut(),
                self.tyj(*inner, depth + 1)
            ),
            ty::Slice(inner) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.tyj(*inner, depth + 1)),
            ty::Array(inner, n) => {
                let tcx = self.tcx;
                let c = n.try_to_target_usize(tcx);
                format!(
                    "{{\"k\":\"array\",\"t\":{},\"n\":{}}}",
                    self.tyj(*inner, depth + 1),
                    match c {
                        Some(c) => c.to_string(),
                        None => "null".into(),
                    }
                )
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.tyj(x, depth + 1)).collect();
                format!("{{\"k\":\"tuple\",\"a\":[{}]}}", a.join(","))
            }
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"id\":{}}}", esc(&self.id(*d))),
            ty::FnDef(d, args) => {
                format!(
                    "{{\"k\":\"fndef\",\"c\":{}}}",
                    self.callee(*d, args.no_bound_vars().expect("fndef args"), None)
                )
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"s\":{}}}", esc(p.name.as_str())),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"s\":{}}}", esc(&self.ty_str(t)))
            }
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&self.ty_str(t))),
        }
    }

    fn callee(
        &mut self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: Option<TypingEnv<'tcx>>,
    ) -> String {
        let tcx = self.tcx;
        let tys: Vec<String> = args.types().map(|t| self.tyj(t, 2)).collect();
        let mut s = format!(
            "{{\"id\":{},\"p\":{},\"crate\":{},\"name\":{},\"ga\":[{}]",
            esc(&self.id(d)),
            esc(&self.path(d)),
            esc(tcx.crate_name(d.krate).as_str()),
            esc(&tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default()),
            tys.join(",")
        );
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let par = tcx.parent(d);
            let (adt, v) = match tcx.def_kind(par) {
                DefKind::Variant => (tcx.parent(par), tcx.item_name(par).to_string()),
                _ => (par, tcx.item_name(par).to_string()),
            };
            let _ = write!(s, ",\"ctor\":[{},{}]", esc(&self.path(adt)), esc(&v));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = norm(tcx.type_of(im).instantiate_identity());
            let _ = write!(s, ",\"impl_self\":{}", esc(&self.ty_str(st)));
            if let Some(tr) = impl_trait(tcx, im) {
                let _ = write!(s, ",\"impl_trait\":{}", esc(&self.path(tr)));
            }
        }
        if let Some(env) = env {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                let kind = format!("{:?}", inst.def);
                let kind = kind.split('(').next().unwrap_or("").to_string();
                let _ = write!(
                    s,
                    ",\"r\":{{\"id\":{},\"p\":{},\"kind\":{},\"name\":{}",
                    esc(&self.id(rd)),
                    esc(&self.path(rd)),
                    esc(&kind),
                    esc(&tcx.opt_item_name(rd).map(|n| n.to_string()).unwrap_or_default()),
                );
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = norm(tcx.type_of(im).instantiate_identity());
                    let _ = write!(s, ",\"impl_self\":{}", esc(&self.ty_str(st)));
                    if let Some(tr) = impl_trait(tcx, im) {
                        let _ = write!(s, ",\"impl_trait\":{}", esc(&self.path(tr)));
                    }
                }
                let rtys: Vec<String> = inst.args.types().map(|t| self.tyj(t, 2)).collect();
                let _ = write!(s, ",\"ga\":[{}]}}", rtys.join(","));
            }
        }
        s.push('}');
        s
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        format!("[{},{}]", esc(&f), lo.line)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if def.is_enum() && pt.variant_index.is_none() {
                        } else {
                            name = def.variant(vi).fields[f].name.to_string();
                        }
                    }
                    format!("[\"f\",{},{}]", f.as_usize(), esc(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => {
                    let mut name = format!("{}", v.as_usize());
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        name = def.variant(v).name.to_string();
                    }
                    format!("[\"v\",{},{}]", v.as_usize(), esc(&name))
                }
                o => format!("[\"o\",{}]", esc(&format!("{:?}", o))),
            };
            out.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        format!("{{\"l\":{},\"p\":[{}]}}", p.local.as_usize(), out.join(","))
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        if let ty::FnDef(d, args) = ty.kind() {
            return format!("{{\"k\":\"fn\",\"c\":{}}}", self.callee(*d, args.no_bound_vars().expect("fndef args"), Some(env)));
        }
        let tj = self.tyj(ty, 2);
        if let Const::Unevaluated(u, _) = c.const_ {
            // named constant: keep its path, and its value if scalar
            let mut s = format!("{{\"k\":\"cn\",\"ty\":{},\"p\":{},\"id\":{}", tj, esc(&self.path(u.def)), esc(&self.id(u.def)));
            if let Some(pr) = u.promoted {
                let _ = write!(s, ",\"promoted\":{}", pr.as_usize());
            }
            if let Some(b) = c.const_.try_eval_bits(tcx, env) {
                let _ = write!(s, ",\"v\":{}", esc(&b.to_string()));
            }
            let args = u.args;
            let tys: Vec<String> = args.types().map(|t| self.tyj(t, 2)).collect();
            let _ = write!(s, ",\"ga\":[{}]", tys.join(","));
            if let ty::Ref(_, inner, _) = ty.kind() {
                if inner.is_str() {
                    let _ = write!(s, ",\"s\":{}", esc(&format!("{}", c.const_)));
                }
            }
            s.push('}');
            return s;
        }
        if let Some(b) = c.const_.try_eval_bits(tcx, env) {
            return format!("{{\"k\":\"ci\",\"ty\":{},\"v\":{}}}", tj, esc(&b.to_string()));
        }
        let pr = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
        format!("{{\"k\":\"co\",\"ty\":{},\"s\":{}}}", tj, esc(&pr))
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"cp\",\"pl\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"mv\",\"pl\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.konst(c, env),
            #[allow(unreachable_patterns)]
            o => format!("{{\"k\":\"oo\",\"s\":{}}}", esc(&format!("{:?}", o))),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(body, o, env)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.operand(body, o, env),
                match n.try_to_target_usize(tcx) {
                    Some(n) => n.to_string(),
                    None => "null".into(),
                }
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"k\":\"ref\",\"m\":{},\"pl\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => {
                format!("{{\"k\":\"ref\",\"m\":true,\"pl\":{}}}", self.place(body, p))
            }
            Rvalue::Cast(k, o, t) => format!(
                "{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"ty\":{},\"sty\":{}}}",
                esc(&format!("{:?}", k)),
                self.operand(body, o, env),
                self.tyj(*t, 1),
                {
                    let st = o.ty(body, tcx);
                    self.tyj(st, 3)
                }
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                esc(&format!("{:?}", op)),
                self.operand(body, &ab.0, env),
                self.operand(body, &ab.1, env)
            ),
            Rvalue::UnaryOp(op, a) => format!(
                "{{\"k\":\"un\",\"op\":{},\"a\":{}}}",
                esc(&format!("{:?}", op)),
                self.operand(body, a, env)
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let tj = self.tyj(t, 4);
                format!("{{\"k\":\"disc\",\"pl\":{},\"ty\":{}}}", self.place(body, p), tj)
            }
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = tcx.adt_def(*d);
                        self.adts.insert((*d).into());
                        let v = def.variant(*vi);
                        let names: Vec<String> =
                            v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        let tys: Vec<String> = args.types().map(|t| self.tyj(t, 3)).collect();
                        format!(
                            "{{\"k\":\"adt\",\"p\":{},\"id\":{},\"vi\":{},\"v\":{},\"enum\":{},\"fn\":[{}],\"ga\":[{}]}}",
                            esc(&self.path(*d)),
                            esc(&self.id(*d)),
                            vi.as_usize(),
                            esc(v.name.as_str()),
                            def.is_enum(),
                            names.join(","),
                            tys.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"id\":{}}}", esc(&self.id(*d)))
                    }
                    o => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", o))),
                };
                let mut os = vec![];
                for o in ops.iter() {
                    os.push(self.operand(body, o, env));
                }
                format!("{{\"k\":\"agg\",\"ak\":{},\"o\":[{}]}}", kk, os.join(","))
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"o\":{{\"k\":\"cp\",\"pl\":{}}}}}", self.place(body, p))
            }
            o => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", o))),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, def: DefId) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut s = String::new();
        // locals
        let mut locals = vec![];
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(vdi.name.to_string());
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.tyj(d.ty, 0);
            locals.push(format!(
                "{{\"ty\":{},\"s\":{},\"n\":{}}}",
                t,
                esc(&self.ty_str(d.ty)),
                match &names[l.as_usize()] {
                    Some(n) => esc(n),
                    None => "null".into(),
                }
            ));
        }
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(ab) => {
                        let pl = self.place(body, &ab.0);
                        let rv = self.rvalue(body, &ab.1, env);
                        st.push(format!("{{\"k\":\"as\",\"pl\":{},\"rv\":{},\"sp\":{}}}", pl, rv, self.span(x.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "{{\"k\":\"sd\",\"pl\":{},\"v\":{}}}",
                            self.place(body, place),
                            variant_index.as_usize()
                        ));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let cl = b.is_cleanup;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"t\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize()))
                        .collect();
                    let dty = discr.ty(body, tcx);
                    format!(
                        "\"k\":\"switch\",\"d\":{},\"dty\":{},\"t\":[{}],\"else\":{}",
                        self.operand(body, discr, env),
                        self.tyj(dty, 4),
                        ts.join(","),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "\"k\":\"ret\"".to_string(),
                TerminatorKind::Unreachable => "\"k\":\"unreach\"".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "\"k\":\"unwind\"".to_string()
                }
                TerminatorKind::Drop { place, target, .. } => format!(
                    "\"k\":\"drop\",\"pl\":{},\"t\":{}",
                    self.place(body, place),
                    target.as_usize()
                ),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func, env);
                    let a = {
                        let v: Vec<String> =
                            args.iter().map(|x| self.operand(body, &x.node, env)).collect();
                        v.join(",")
                    };
                    let at = {
                        let v: Vec<String> = args
                            .iter()
                            .map(|x| {
                                let t = x.node.ty(body, tcx);
                                self.tyj(t, 3)
                            })
                            .collect();
                        v.join(",")
                    };
                    format!(
                        "\"k\":\"call\",\"f\":{},\"a\":[{}],\"at\":[{}],\"dst\":{},\"t\":{}",
                        f,
                        a,
                        at,
                        self.place(body, destination),
                        match target {
                            Some(t) => t.as_usize().to_string(),
                            None => "null".into(),
                        }
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "{{\"k\":\"bounds\",\"len\":{},\"idx\":{}}}",
                            self.operand(body, len, env),
                            self.operand(body, index, env)
                        ),
                        AssertKind::Overflow(op, a, b) => format!(
                            "{{\"k\":\"overflow\",\"op\":{},\"a\":{},\"b\":{}}}",
                            esc(&format!("{:?}", op)),
                            self.operand(body, a, env),
                            self.operand(body, b, env)
                        ),
                        o => format!("{{\"k\":\"o\",\"s\":{}}}", esc(&format!("{:?}", o).chars().take(60).collect::<String>())),
                    };
                    format!(
                        "\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{}",
                        self.operand(body, cond, env),
                        expected,
                        m,
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("\"k\":\"goto\",\"t\":{}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("\"k\":\"goto\",\"t\":{}", real_target.as_usize())
                }
                o => format!("\"k\":\"other\",\"s\":{}", esc(&format!("{:?}", o))),
            };
            blocks.push(format!(
                "{{\"s\":[{}],\"t\":{{{},\"sp\":{}}},\"c\":{}}}",
                st.join(","),
                tj,
                sp,
                cl
            ));
        }
        let _ = write!(
            s,
            "\"argc\":{},\"locals\":[{}],\"blocks\":[{}]",
            body.arg_count,
            locals.join(","),
            blocks.join(",")
        );
        s
    }

    fn dump(&mut self) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let def = ld.to_def_id();
            let kind = tcx.def_kind(def);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_const = matches!(
                kind,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
            );
            if !is_fn && !is_const {
                continue;
            }
            let body = if is_fn {
                tcx.optimized_mir(def)
            } else {
                tcx.mir_for_ctfe(def)
            };
            let mut h = format!(
                "\"id\":{},\"p\":{},\"kind\":{},\"name\":{},\"sp\":{},\"vis\":{}",
                esc(&self.id(def)),
                esc(&self.path(def)),
                esc(if is_fn { if matches!(kind, DefKind::Closure) { "closure" } else { "fn" } } else { "const" }),
                esc(&tcx.opt_item_name(def).map(|n| n.to_string()).unwrap_or_default()),
                self.span(tcx.def_span(def)),
                if matches!(kind, DefKind::Fn | DefKind::AssocFn) { tcx.visibility(def).is_public() } else { false },
            );
            if let Some(p) = tcx.opt_parent(def) {
                let _ = write!(h, ",\"parent\":{}", esc(&self.id(p)));
            }
            if let Some(tr) = tcx.trait_of_assoc(def) {
                let _ = write!(h, ",\"trait\":{}", esc(&self.path(tr)));
            }
            if let Some(im) = tcx.impl_of_assoc(def) {
                let st = norm(tcx.type_of(im).instantiate_identity());
                let _ = write!(h, ",\"impl_self\":{}", esc(&self.ty_str(st)));
                let tj = self.tyj(st, 2);
                let _ = write!(h, ",\"impl_self_ty\":{}", tj);
                if let Some(tr) = impl_trait(tcx, im) {
                    let _ = write!(h, ",\"impl_trait\":{}", esc(&self.path(tr)));
                    let ta = impl_trait_args(tcx, im);
                    let tas: Vec<String> = ta.into_iter().map(|t| self.tyj(t, 2)).collect();
                    let _ = write!(h, ",\"ita\":[{}]", tas.join(","));
                }
                let _ = write!(h, ",\"derived\":{}", tcx.is_automatically_derived(im));
            }
            let gp: Vec<String> = {
                let mut v = vec![];
                let g = tcx.generics_of(def);
                let mut stack = vec![g];
                let mut cur = g;
                while let Some(p) = cur.parent {
                    cur = tcx.generics_of(p);
                    stack.push(cur);
                }
                for g in stack.iter().rev() {
                    for p in &g.own_params {
                        if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                            v.push(esc(p.name.as_str()));
                        }
                    }
                }
                v
            };
            let _ = write!(h, ",\"gp\":[{}]", gp.join(","));
            let b = self.body(body, def);
            let mut prom = vec![];
            {
                let pm = tcx.promoted_mir(def);
                for p in pm.iter() {
                    prom.push(format!("{{{}}}", self.body(p, def)));
                }
            }
            fns.push(format!("{{{},{},\"promoted\":[{}]}}", h, b, prom.join(",")));
        }
        // ADTs
        let mut adts = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                self.adts.insert(d.into());
            }
        }
        let mut done: BTreeSet<DefId2> = BTreeSet::new();
        loop {
            let todo: Vec<DefId2> = self.adts.difference(&done).cloned().collect();
            if todo.is_empty() {
                break;
            }
            for d2 in todo {
                done.insert(d2);
                let d = DefId {
                    krate: rustc_hir::def_id::CrateNum::from_u32(d2.0),
                    index: rustc_hir::def_id::DefIndex::from_u32(d2.1),
                };
                let def = tcx.adt_def(d);
                let local = d.is_local();
                let mut vs = vec![];
                let discrs: Vec<(rustc_abi::VariantIdx, String)> = if def.is_enum() {
                    def.discriminants(tcx).map(|(v, d)| (v, d.val.to_string())).collect()
                } else {
                    vec![]
                };
                for (vi, v) in def.variants().iter_enumerated() {
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = norm(tcx.type_of(f.did).instantiate_identity());
                            let tj = if local { self.tyj(t, 1) } else { "null".into() };
                            format!(
                                "{{\"n\":{},\"s\":{},\"ty\":{},\"pub\":{}}}",
                                esc(f.name.as_str()),
                                esc(&self.ty_str(t)),
                                tj,
                                f.vis.is_public()
                            )
                        })
                        .collect();
                    let dv = discrs
                        .iter()
                        .find(|(x, _)| *x == vi)
                        .map(|x| x.1.clone())
                        .unwrap_or("0".into());
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                        esc(v.name.as_str()),
                        esc(&dv),
                        fs.join(",")
                    ));
                }
                let sp = self.span(tcx.def_span(d));
                adts.push(format!(
                    "{{\"id\":{},\"p\":{},\"local\":{},\"enum\":{},\"sp\":{},\"v\":[{}]}}",
                    esc(&self.id(d)),
                    esc(&self.path(d)),
                    local,
                    def.is_enum(),
                    sp,
                    vs.join(",")
                ));
            }
        }
        // impls
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is {
                let d = i.to_def_id();
                let st = norm(tcx.type_of(d).instantiate_identity());
                let items: Vec<String> = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .map(|x| {
                        let ti = tcx.associated_item(*x).trait_item_def_id();
                        format!(
                            "[{},{},{}]",
                            esc(&self.id(*x)),
                            esc(&tcx.opt_item_name(*x).map(|n| n.to_string()).unwrap_or_default()),
                            match ti {
                                Some(t) => esc(&self.id(t)),
                                None => "null".into(),
                            }
                        )
                    })
                    .collect();
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"derived\":{},\"items\":[{}],\"sp\":{}}}",
                    esc(&self.path(*tr)),
                    esc(&self.ty_str(st)),
                    tcx.is_automatically_derived(d),
                    items.join(","),
                    self.span(tcx.def_span(d)),
                ));
            }
        }
        // type aliases
        let mut aliases = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::TyAlias) {
                let t = norm(tcx.type_of(d).instantiate_identity());
                let tj = self.tyj(t, 0);
                aliases.push(format!("{{\"p\":{},\"ty\":{},\"s\":{},\"pub\":{}}}", esc(&self.path(d)), tj, esc(&self.ty_str(t)), tcx.visibility(d).is_public()));
            }
        }
        let cname = tcx.crate_name(LOCAL_CRATE).to_string();
        format!(
            "{{\"crate\":{},\"fns\":[\n{}],\n\"adts\":[\n{}],\n\"impls\":[\n{}],\n\"aliases\":[\n{}]}}",
            esc(&cname),
            fns.join(",\n"),
            adts.join(",\n"),
            impls.join(",\n"),
            aliases.join(",\n")
        )
    }
}

fn norm<'tcx>(t: ty::Unnormalized<'tcx, Ty<'tcx>>) -> Ty<'tcx> {
    t.skip_norm_wip()
}
fn impl_trait_args<'tcx>(tcx: TyCtxt<'tcx>, im: DefId) -> Vec<Ty<'tcx>> {
    match tcx.impl_opt_trait_ref(im) {
        Some(t) => t.instantiate_identity().skip_norm_wip().args.types().skip(1).collect(),
        None => vec![],
    }
}
fn impl_trait<'tcx>(tcx: TyCtxt<'tcx>, im: DefId) -> Option<DefId> {
    tcx.impl_opt_trait_id(im)
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
        // the guards that remain in release builds, with arithmetic checks kept as explicit obligations
        config.opts.debug_assertions = false;
        config.opts.cg.overflow_checks = Some(true);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("VDRIVER_OUT").unwrap_or_else(|_| ".".into());
        let mut d = D { tcx, adts: BTreeSet::new() };
        let s = d.dump();
        let cname = tcx.crate_name(LOCAL_CRATE).to_string();
        let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
        let _ = std::fs::create_dir_all(&out);
        let tmp = format!("{}/{}__{}.json.tmp{}", out, pkg, cname, std::process::id());
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, format!("{}/{}__{}.json", out, pkg, cname)).expect("rename dump");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = args.iter().any(|a| a == "--crate-name")
        && !args.iter().any(|a| a == "build_script_build")
        && !args.iter().any(|a| a.starts_with("--print"));
    if want {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Plain);
    }
}
