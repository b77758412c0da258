//! mirdump: a rustc wrapper that, for every workspace crate it is asked to compile, writes the
//! type-checked program (MIR of every body with resolved callees, ADTs, trait impls) as JSON to
//! $MIRDUMP_OUT/<crate>.json. It is injected with RUSTC_WORKSPACE_WRAPPER under `cargo check`.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    for (i, s) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        format!("{:?}", h.0).replace("Fingerprint", "").replace(['(', ')', ',', ' '], "_")
    }
    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            let k = self.tcx.crate_name(LOCAL_CRATE).to_string();
            // local paths are printed without the crate name
            if p.starts_with('<') {
                format!("{k}@{p}")
            } else {
                format!("{k}::{p}")
            }
        } else {
            p
        }
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn span(&self, sp: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        (f, lo.line)
    }
    fn line(&self, sp: Span) -> usize {
        self.span(sp).1
    }
}

struct B<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> B<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut out = Vec::new();
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(&self.body.local_decls, tcx);
            out.push(match elem {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut owner = String::new();
                    let name = match bt.ty.kind() {
                        ty::Adt(adt, _) => {
                            owner = tcx.item_name(adt.did()).to_string();
                            let v = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if adt.is_enum() && bt.variant_index.is_none() {
                                format!("{}", f.index())
                            } else {
                                adt.variant(v).fields[f].name.to_string()
                            }
                        }
                        _ => format!("{}", f.index()),
                    };
                    format!("[\"f\",{},{},{}]", f.index(), js(&name), js(&owner))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"c\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => {
                    format!("[\"v\",{},{}]", v.index(), js(&n.map(|n| n.to_string()).unwrap_or_default()))
                }
                _ => "[\"?\"]".to_string(),
            });
        }
        if out.is_empty() {
            format!("{}", p.local.index())
        } else {
            format!("[{},{}]", p.local.index(), out.join(","))
        }
    }

    fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut o = format!("{{\"fn\":{},\"p\":{}", js(&self.cx.id(d)), js(&self.cx.path(d)));
        let a: Vec<String> = args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| js(&with_no_trimmed_paths!(a.to_string())))
            .collect();
        let _ = write!(o, ",\"ga\":{}", arr(a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", js(&self.cx.path(tr)));
            let ea = tcx.erase_and_anonymize_regions(args);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(tcx, self.env, d, ea)
            }));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                if rd != d {
                    let _ = write!(o, ",\"r\":{},\"rp\":{}", js(&self.cx.id(rd)), js(&self.cx.path(rd)));
                }
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    o.push_str(",\"dyn\":1");
                }
            }
        }
        o.push('}');
        o
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return format!("{{\"k\":{}}}", self.fndef(*d, args.skip_binder()));
        }
        let mut o = String::from("{\"k\":{");
        let _ = write!(o, "\"ty\":{}", js(&self.cx.ty(t)));
        if let ty::Closure(d, _) = t.kind() {
            let _ = write!(o, ",\"closure\":{}", js(&self.cx.id(*d)));
        }
        let mut named = None;
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                named = Some(u.def);
                let _ = write!(o, ",\"item\":{}", js(&self.cx.path(u.def)));
                let _ = write!(o, ",\"iid\":{}", js(&self.cx.id(u.def)));
                if let Some(a) = u.args.types().next() {
                    let _ = write!(o, ",\"of\":{}", js(&self.cx.ty(a)));
                }
            } else {
                let _ = write!(o, ",\"promoted\":{}", u.promoted.unwrap().index());
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                c.const_.try_eval_bits(tcx, self.env)
            }));
            if let Ok(Some(v)) = r {
                let _ = write!(o, ",\"v\":\"{}\"", v);
            }
        }
        if named.is_none() {
            let s = with_no_trimmed_paths!(format!("{}", c.const_));
            if s.len() < 300 {
                let _ = write!(o, ",\"s\":{}", js(&s));
            }
        }
        o.push_str("}}");
        o
    }

    fn op(&self, x: &Operand<'tcx>) -> String {
        match x {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(_) => "{\"k\":{\"ty\":\"bool\",\"v\":\"0\",\"s\":\"runtime_checks\"}}".into(),
        }
    }

    fn rv(&self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, c) => format!("[\"repeat\",{},{}]", self.op(o), js(&c.to_string())),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                if matches!(bk, BorrowKind::Mut { .. }) { 1 } else { 0 },
                self.place(p)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "[\"raw\",{},{}]",
                if matches!(k, RawPtrKind::Mut) { 1 } else { 0 },
                self.place(p)
            ),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", if m.is_mut() { 1 } else { 0 }, self.place(p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.cx.path(*d))),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                js(&format!("{:?}", k)),
                self.op(o),
                js(&self.cx.ty(*t))
            ),
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), self.op(&ops.0), self.op(&ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Aggregate(k, ops) => {
                let ops = arr(ops.iter().map(|o| self.op(o)));
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{}]", ops),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{}]", ops),
                    AggregateKind::Adt(d, v, _, _, fi) => {
                        let adt = self.cx.tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        let names: Vec<String> = match fi {
                            Some(f) => vec![js(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| js(f.name.as_str())).collect(),
                        };
                        format!(
                            "[\"agg\",\"adt\",{},{},{},{},{}]",
                            ops,
                            js(&self.cx.path(*d)),
                            v.index(),
                            js(var.name.as_str()),
                            arr(names)
                        )
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"agg\",\"closure\",{},{}]", ops, js(&self.cx.id(*d)))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",{}]", ops),
                }
            }
        }
    }

    fn discr_variants(&self, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.cx.tcx;
        if let ty::Adt(adt, _) = t.kind() {
            if adt.is_enum() {
                let v: Vec<String> = adt
                    .discriminants(tcx)
                    .map(|(vi, d)| format!("[\"{}\",{}]", d.val, js(adt.variant(vi).name.as_str())))
                    .collect();
                return Some(format!("{{\"adt\":{},\"vs\":{}}}", js(&self.cx.path(adt.did())), arr(v)));
            }
        }
        None
    }

    fn dump(&self) -> String {
        let mut o = String::new();
        let tcx = self.cx.tcx;
        let locals = arr(self.body.local_decls.iter().map(|l| js(&self.cx.ty(l.ty))));
        let _ = write!(o, "\"nargs\":{},\"locals\":{}", self.body.arg_count, locals);
        // names
        let mut names = Vec::new();
        for v in &self.body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", js(v.name.as_str()), self.place(&p)));
            }
        }
        let _ = write!(o, ",\"names\":{}", arr(names));
        let mut blocks = Vec::new();
        for (_bb, data) in self.body.basic_blocks.iter_enumerated() {
            let mut ss = Vec::new();
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let mut x = format!(
                            "[\"=\",{},{},{}",
                            self.place(p),
                            self.rv(r),
                            self.cx.line(s.source_info.span)
                        );
                        if let Rvalue::Discriminant(dp) = r {
                            let t = dp.ty(&self.body.local_decls, tcx).ty;
                            if let Some(v) = self.discr_variants(t) {
                                x.push(',');
                                x.push_str(&v);
                            }
                        }
                        x.push(']');
                        ss.push(x);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.index()));
                    }
                    StatementKind::StorageDead(l) => {
                        ss.push(format!("[\"dead\",{}]", l.index()));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let ln = self.cx.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&self.body.local_decls, tcx);
                    let tg = arr(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.index())));
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.op(discr),
                        tg,
                        targets.otherwise().index(),
                        js(&self.cx.ty(dt)),
                        ln
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target.index())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a = arr(args.iter().map(|a| self.op(&a.node)));
                    let fty = func.ty(&self.body.local_decls, tcx);
                    let callee = match fty.kind() {
                        ty::FnDef(d, ga) => self.fndef(*d, ga.skip_binder()),
                        _ => format!("{{\"ind\":{},\"ty\":{}}}", self.op(func), js(&self.cx.ty(fty))),
                    };
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        callee,
                        a,
                        self.place(destination),
                        target.map(|b| b.index().to_string()).unwrap_or("null".into()),
                        ln
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.op(len), self.op(index))
                        }
                        AssertKind::Overflow(b, x, y) => {
                            format!("[\"overflow\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y))
                        }
                        AssertKind::DivisionByZero(x) => format!("[\"div0\",{}]", self.op(x)),
                        AssertKind::RemainderByZero(x) => format!("[\"rem0\",{}]", self.op(x)),
                        _ => "[\"other\"]".into(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.op(cond),
                        expected,
                        m,
                        target.index(),
                        ln
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{}{}}}",
                arr(ss),
                ts,
                if data.is_cleanup { ",\"cl\":1" } else { "" }
            ));
        }
        let _ = write!(o, ",\"blocks\":{}", arr(blocks));
        o
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else {
            return Compilation::Continue;
        };
        let cx = Cx { tcx };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut fns = Vec::new();
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let body = tcx.optimized_mir(d);
            let env = TypingEnv::post_analysis(tcx, d);
            let b = B { cx: &cx, body, env };
            let (file, line) = cx.span(tcx.def_span(d));
            let mut o = String::new();
            let _ = write!(
                o,
                "{{\"id\":{},\"path\":{},\"kind\":\"{:?}\",\"file\":{},\"line\":{},",
                js(&cx.id(d)),
                js(&cx.path(d)),
                kind,
                js(&file),
                line
            );
            if kind == DefKind::Closure {
                let root = tcx.typeck_root_def_id(d);
                let _ = write!(o, "\"root\":{},", js(&cx.id(root)));
                let parent = tcx.parent(d);
                let _ = write!(o, "\"parent\":{},", js(&cx.id(parent)));
                let ups: Vec<String> = tcx
                    .closure_captures(*ld)
                    .iter()
                    .map(|c| {
                        format!(
                            "[{},{}]",
                            js(c.to_symbol().as_str()),
                            if c.is_by_ref() { 1 } else { 0 }
                        )
                    })
                    .collect();
                let _ = write!(o, "\"upvars\":{},", arr(ups));
            } else {
                let vis = tcx.visibility(d);
                let _ = write!(o, "\"pub\":{},", vis.is_public());
                let unsafe_ = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
                let _ = write!(o, "\"unsafe\":{},", unsafe_);
                if kind == DefKind::AssocFn {
                    let parent = tcx.parent(d);
                    let _ = write!(o, "\"name\":{},", js(tcx.item_name(d).as_str()));
                    match tcx.def_kind(parent) {
                        DefKind::Trait => {
                            let _ = write!(o, "\"trait_default\":{},", js(&cx.path(parent)));
                        }
                        DefKind::Impl { of_trait } => {
                            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                            let _ = write!(o, "\"self_ty\":{},", js(&cx.ty(st)));
                            if of_trait {
                                let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                                let _ = write!(
                                    o,
                                    "\"trait\":{},\"trait_ref\":{},",
                                    js(&cx.path(tr.def_id)),
                                    js(&with_no_trimmed_paths!(tr.to_string()))
                                );
                                if let Some(ti) = tcx.trait_item_of(d) {
                                    let _ = write!(o, "\"trait_item\":{},", js(&cx.id(ti)));
                                }
                            }
                        }
                        _ => {}
                    }
                } else {
                    let _ = write!(o, "\"name\":{},", js(tcx.item_name(d).as_str()));
                }
            }
            o.push_str(&b.dump());
            // promoted bodies: constants used by reference
            let proms = tcx.promoted_mir(d);
            let mut ps = Vec::new();
            for p in proms.iter() {
                let pb = B { cx: &cx, body: p, env };
                ps.push(format!("{{{}}}", pb.dump()));
            }
            let _ = write!(o, ",\"promoted\":{}", arr(ps));
            o.push('}');
            fns.push(o);
        }
        // ADTs
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        let mut consts = Vec::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(d);
                    let (file, line) = cx.span(tcx.def_span(d));
                    let mut vs = Vec::new();
                    for v in adt.variants() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                format!(
                                    "[{},{},{}]",
                                    js(f.name.as_str()),
                                    js(&cx.ty(t)),
                                    f.vis.is_public()
                                )
                            })
                            .collect();
                        vs.push(format!("[{},{}]", js(v.name.as_str()), arr(fs)));
                    }
                    let r = adt.repr();
                    adts.push(format!(
                        "{{\"path\":{},\"id\":{},\"kind\":\"{:?}\",\"file\":{},\"line\":{},\"pub\":{},\"transparent\":{},\"c\":{},\"packed\":{},\"variants\":{}}}",
                        js(&cx.path(d)),
                        js(&cx.id(d)),
                        tcx.def_kind(d),
                        js(&file),
                        line,
                        tcx.visibility(d).is_public(),
                        r.transparent(),
                        r.c(),
                        r.packed(),
                        arr(vs)
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let (file, line) = cx.span(tcx.def_span(d));
                    let mut o = format!(
                        "{{\"self_ty\":{},\"file\":{},\"line\":{}",
                        js(&cx.ty(st)),
                        js(&file),
                        line
                    );
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        let _ = write!(
                            o,
                            ",\"trait\":{},\"trait_ref\":{}",
                            js(&cx.path(tr.def_id)),
                            js(&with_no_trimmed_paths!(tr.to_string()))
                        );
                        let unsafe_ = tcx.trait_def(tr.def_id).safety.is_unsafe();
                        let _ = write!(o, ",\"unsafe\":{}", unsafe_);
                    }
                    let mut items = Vec::new();
                    for it in tcx.associated_items(d).in_definition_order() {
                        items.push(format!(
                            "[{},{},{}]",
                            js(&it.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                            js(&cx.id(it.def_id)),
                            js(&it.trait_item_def_id().map(|t| cx.id(t)).unwrap_or_default())
                        ));
                    }
                    let _ = write!(o, ",\"items\":{}}}", arr(items));
                    impls.push(o);
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if (t.is_integral() || t.is_bool()) && tcx.generics_of(d).is_empty_compat() {
                        let has_default = match tcx.def_kind(tcx.parent(d)) {
                            DefKind::Trait => false,
                            _ => true,
                        };
                        if has_default {
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                tcx.const_eval_poly(d).ok().and_then(|v| v.try_to_scalar_int()).map(|i| i.to_bits_unchecked())
                            }));
                            if let Ok(Some(v)) = r {
                                consts.push(format!("[{},{},\"{}\"]", js(&cx.path(d)), js(&cx.id(d)), v));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"crate\":{},\"fns\":{},\"adts\":{},\"impls\":{},\"consts\":{}}}",
            js(&krate),
            arr(fns),
            arr(adts),
            arr(impls),
            arr(consts)
        );
        let path = format!("{out}/{krate}.json");
        let tmp = format!("{path}.tmp{}", std::process::id());
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &path).expect("rename dump");
        Compilation::Continue
    }
}

trait EmptyCompat {
    fn is_empty_compat(&self) -> bool;
}
impl EmptyCompat for ty::Generics {
    fn is_empty_compat(&self) -> bool {
        self.parent_count == 0 && self.own_params.is_empty()
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("--cap-lints=allow".into());
    args.push("-Coverflow-checks=on".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
