//! MIR fact extractor.
//!
//! Acts as a `RUSTC_WORKSPACE_WRAPPER`: compiles the crate exactly as rustc would under
//! `cargo check` and, after analysis, dumps the type-checked program (ADTs, traits, impls and the
//! drop-elaborated MIR of every local body, with resolved callees) as JSON lines into
//! `$MIRFACTS_OUT/<crate>.jsonl`.  Nothing is executed.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;
use std::io::Write as _;

thread_local! {
    /// Copies of the drop-elaborated bodies, taken before later passes (such as the coroutine
    /// state transform, which layout computation triggers) steal them.
    static STASH: std::cell::RefCell<std::collections::HashMap<LocalDefId, Body<'static>>> =
        std::cell::RefCell::new(std::collections::HashMap::new());
    /// Copies of the coroutine bodies as they are right after promotion (so with their `Yield`
    /// terminators and captured variables, but with unelaborated drops).
    static CORO: std::cell::RefCell<std::collections::HashMap<LocalDefId, Body<'static>>> =
        std::cell::RefCell::new(std::collections::HashMap::new());
    static ORIG: std::cell::Cell<Option<rustc_middle::util::Providers>> = const { std::cell::Cell::new(None) };
}

fn stash_mir<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let orig = ORIG.with(|o| o.get()).expect("providers must be set");
    let r = (orig.queries.mir_drops_elaborated_and_const_checked)(tcx, def);
    let copy: Body<'tcx> = r.borrow().clone();
    // SAFETY: the copy is only read back within the same `TyCtxt`'s lifetime (`after_analysis`).
    let copy: Body<'static> = unsafe { std::mem::transmute(copy) };
    STASH.with(|s| s.borrow_mut().insert(def, copy));
    r
}

fn stash_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
) {
    let orig = ORIG.with(|o| o.get()).expect("providers must be set");
    let r = (orig.queries.mir_promoted)(tcx, def);
    if tcx.is_coroutine(def.to_def_id()) {
        let copy: Body<'tcx> = r.0.borrow().clone();
        // SAFETY: see `stash_mir`.
        let copy: Body<'static> = unsafe { std::mem::transmute(copy) };
        CORO.with(|s| s.borrow_mut().insert(def, copy));
    }
    r
}

struct Cb {
    out: Option<String>,
}

/// JSON string escape.
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}

fn tys(t: Ty<'_>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
}

struct D<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> D<'a, 'tcx> {
    fn line(&self, s: Span) -> usize {
        // The line of the outermost expansion, so that macro-generated code points to its use.
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let mut o = String::new();
        let _ = write!(o, "[{},[", p.local.as_u32());
        let mut pty = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let mut first = true;
        for e in p.projection.iter() {
            if !first {
                o.push(',');
            }
            first = false;
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            if adt.is_enum() {
                                match pty.variant_index {
                                    Some(v) => adt.variant(v).fields[f].name.to_string(),
                                    None => f.as_u32().to_string(),
                                }
                            } else {
                                adt.non_enum_variant().fields[f].name.to_string()
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            let mut n = f.as_u32().to_string();
                            if let Some(l) = d.as_local() {
                                if let Some(u) = self.tcx.closure_captures(l).get(f.as_usize()) {
                                    n = u.to_symbol().to_string();
                                }
                            }
                            n
                        }
                        _ => f.as_u32().to_string(),
                    };
                    let owner = match pty.ty.kind() {
                        ty::Adt(adt, _) => path(self.tcx, adt.did()),
                        _ => String::new(),
                    };
                    let _ = write!(o, "[\"f\",{},{},{}]", f.as_u32(), js(&name), js(&owner));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(adt, _) => adt.variant(v).name.to_string(),
                        _ => n.map(|n| n.to_string()).unwrap_or_default(),
                    };
                    let _ = write!(o, "[\"v\",{}]", js(&name));
                }
                _ => o.push_str("[\"?\"]"),
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        o.push_str("]]");
        o
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let tystr = tys(t);
        let mut val = String::from("null");
        let mut item = String::from("null");
        match t.kind() {
            ty::FnDef(d, args) => {
                return self.func(*d, args.skip_binder(), &tystr);
            }
            _ => {
                if let Const::Unevaluated(u, _) = c.const_ {
                    let mut s = path(self.tcx, u.def);
                    if let Some(p) = u.promoted {
                        let _ = write!(s, "#p{}", p.as_u32());
                    }
                    item = js(&s);
                }
                let is_prom = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
                if !is_prom {
                    if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                        if let Some(s) = c.const_.try_eval_scalar_int(self.tcx, self.env) {
                            val = match t.kind() {
                                ty::Bool => s.try_to_bool().map(|b| b.to_string()).unwrap_or("null".into()),
                                ty::Int(_) => s.to_int(s.size()).to_string(),
                                ty::Uint(_) | ty::Char => s.to_uint(s.size()).to_string(),
                                ty::Float(ty::FloatTy::F64) => {
                                    let f = f64::from_bits(s.to_u64());
                                    if f.is_finite() { format!("{:?}", f) } else { js(&format!("{:?}", f)) }
                                }
                                _ => "null".into(),
                            };
                        }
                    } else if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            if let Ok(cv) = c.const_.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
                                if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                                    val = js(&String::from_utf8_lossy(b));
                                }
                            }
                        } else if let Some(n) = match inner.kind() {
                            ty::Array(e, n) if *e == self.tcx.types.u8 => n.try_to_target_usize(self.tcx),
                            _ => None,
                        } {
                            // Byte strings (among them format templates), one character per byte.
                            if let Ok(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) =
                                c.const_.eval(self.tcx, self.env, rustc_span::DUMMY_SP)
                            {
                                let (prov, off) = p.into_raw_parts();
                                if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(prov.alloc_id()) {
                                    let lo = off.bytes() as usize;
                                    if n <= 2048 && lo + n as usize <= a.inner().len() {
                                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(lo..lo + n as usize);
                                        val = js(&b.iter().map(|x| *x as char).collect::<String>());
                                    }
                                }
                            }
                        }
                    } else {
                        // Newtype or fieldless-enum constants: a plain scalar if it is one.
                        if let Ok(ConstValue::Scalar(s)) = c.const_.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
                            if let Ok(i) = s.try_to_scalar_int() {
                                val = i.to_uint(i.size()).to_string();
                            }
                        }
                    }
                }
            }
        }
        format!("[\"k\",{},{},{}]", js(&tystr), val, item)
    }

    /// A constant naming a function: generic path, and the concrete implementation it resolves to.
    fn func(&self, d: DefId, args: ty::GenericArgsRef<'tcx>, tystr: &str) -> String {
        let tcx = self.tcx;
        let generic = path(tcx, d);
        let eargs = tcx.erase_and_anonymize_regions(args);
        let mut resolved = String::from("null");
        let mut virt = false;
        if tcx.def_kind(d).is_fn_like() {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, eargs) {
                match i.def {
                    ty::InstanceKind::Virtual(..) => virt = true,
                    _ => resolved = js(&path(tcx, i.def_id())),
                }
            }
        }
        let tr = match tcx.trait_of_assoc(d) {
            Some(t) => js(&path(tcx, t)),
            None => "null".into(),
        };
        let selfty = match tcx.trait_of_assoc(d) {
            Some(_) if !args.is_empty() => js(&args.get(0).and_then(|a| a.as_type()).map(tys).unwrap_or_default()),
            _ => "null".into(),
        };
        let gargs: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| js(&tys(t))).collect();
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let _ = tystr;
        format!(
            "[\"fn\",{},{},{},{},{},{},[{}]]",
            js(&generic),
            resolved,
            js(&name),
            tr,
            selfty,
            virt,
            gargs.join(",")
        )
    }

    fn op(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            _ => "[\"k\",\"?\",null,null]".to_string(),
        }
    }

    fn ops<'b>(&self, it: impl Iterator<Item = &'b Operand<'tcx>>) -> String
    where
        'tcx: 'b,
    {
        let v: Vec<String> = it.map(|o| self.op(o)).collect();
        format!("[{}]", v.join(","))
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), js(&format!("{}", n))),
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&self.body.local_decls, self.tcx);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    js(&format!("{:?}", k)),
                    self.op(o),
                    js(&tys(*t)),
                    js(&tys(from))
                )
            }
            Rvalue::BinaryOp(b, ab) => {
                let t = ab.0.ty(&self.body.local_decls, self.tcx);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    js(&format!("{:?}", b)),
                    self.op(&ab.0),
                    self.op(&ab.1),
                    js(&tys(t))
                )
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.op(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.tcx).ty;
                let names = match t.kind() {
                    ty::Adt(a, _) if a.is_enum() => {
                        let v: Vec<String> = a
                            .discriminants(self.tcx)
                            .map(|(i, d)| format!("[{},{}]", d.val, js(&a.variant(i).name.to_string())))
                            .collect();
                        format!("[{}]", v.join(","))
                    }
                    _ => "[]".into(),
                };
                format!("[\"disc\",{},{},{}]", self.place(p), js(&tys(t)), names)
            }
            Rvalue::Aggregate(k, fs) => {
                let (n, v) = match &**k {
                    AggregateKind::Array(_) => ("array".to_string(), String::new()),
                    AggregateKind::Tuple => ("tuple".to_string(), String::new()),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        (path(self.tcx, *d), adt.variant(*vi).name.to_string())
                    }
                    AggregateKind::Closure(d, _) => ("closure".to_string(), path(self.tcx, *d)),
                    AggregateKind::Coroutine(d, _) => ("coroutine".to_string(), path(self.tcx, *d)),
                    _ => ("other".to_string(), String::new()),
                };
                format!("[\"agg\",{},{},{}]", js(&n), js(&v), self.ops(fs.iter()))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            _ => format!("[\"other\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn term(&self, t: &Terminator<'tcx>) -> String {
        let l = self.line(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&self.body.local_decls, self.tcx);
                let v: Vec<String> =
                    targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                format!(
                    "[\"switch\",{},{},[{}],{},{}]",
                    self.op(discr),
                    js(&tys(ty)),
                    v.join(","),
                    targets.otherwise().as_u32(),
                    l
                )
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            TerminatorKind::UnwindTerminate(_) => "[\"term\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&self.body.local_decls, self.tcx).ty;
                format!("[\"drop\",{},{},{}]", self.place(place), target.as_u32(), js(&tys(ty)))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func {
                    Operand::Constant(c) => self.konst(c),
                    o => self.op(o),
                };
                let a: Vec<String> = args.iter().map(|a| self.op(&a.node)).collect();
                format!(
                    "[\"call\",{},[{}],{},{},{}]",
                    f,
                    a.join(","),
                    self.place(destination),
                    target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                    l
                )
            }
            TerminatorKind::TailCall { .. } => "[\"unreach\"]".into(),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, ops): (String, Vec<String>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        ("bounds".into(), vec![self.op(len), self.op(index)])
                    }
                    AssertKind::Overflow(b, x, y) => {
                        (format!("overflow:{:?}", b), vec![self.op(x), self.op(y)])
                    }
                    AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.op(x)]),
                    AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.op(x)]),
                    AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.op(x)]),
                    _ => ("other".into(), vec![]),
                };
                let ty = match &**msg {
                    AssertKind::Overflow(_, x, _) | AssertKind::OverflowNeg(x) => {
                        tys(x.ty(&self.body.local_decls, self.tcx))
                    }
                    _ => String::new(),
                };
                format!(
                    "[\"assert\",{},{},{},[{}],{},{},{}]",
                    self.op(cond),
                    expected,
                    js(&k),
                    ops.join(","),
                    js(&ty),
                    target.as_u32(),
                    l
                )
            }
            TerminatorKind::Yield { resume, .. } => format!("[\"yield\",{},{}]", resume.as_u32(), l),
            TerminatorKind::CoroutineDrop => "[\"unreach\"]".into(),
            TerminatorKind::FalseEdge { real_target, .. } => {
                format!("[\"goto\",{}]", real_target.as_u32())
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                format!("[\"goto\",{}]", real_target.as_u32())
            }
            TerminatorKind::InlineAsm { .. } => "[\"unreach\"]".into(),
        }
    }

    fn blocks(&self) -> String {
        let mut o = String::from("[");
        for (i, (_bb, data)) in self.body.basic_blocks.iter_enumerated().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let mut ss = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => ss.push(format!(
                        "[\"=\",{},{},{}]",
                        self.place(&b.0),
                        self.rvalue(&b.1),
                        self.line(s.source_info.span)
                    )),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l.as_u32())),
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_u32())),
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!(
                        "[\"setd\",{},{}]",
                        self.place(place),
                        variant_index.as_u32()
                    )),
                    _ => (),
                }
            }
            let t = self.term(data.terminator());
            let _ = write!(o, "{{\"s\":[{}],\"t\":{}{}}}", ss.join(","), t, if data.is_cleanup { ",\"c\":1" } else { "" });
        }
        o.push(']');
        o
    }
}

fn body_common<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
    let d = D { tcx, body, env };
    let locals: Vec<String> = body.local_decls.iter().map(|l| js(&tys(l.ty))).collect();
    let mut names = vec![];
    for v in &body.var_debug_info {
        if let VarDebugInfoContents::Place(p) = v.value {
            names.push(format!("[{},{}]", js(&v.name.to_string()), d.place(&p)));
        }
    }
    format!(
        "\"argc\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":{}",
        body.arg_count,
        locals.join(","),
        names.join(","),
        d.blocks()
    )
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId, out: &mut impl std::io::Write) {
    let did = def.to_def_id();
    let kind = tcx.def_kind(did);
    let id = path(tcx, did);
    let span = tcx.def_span(did).source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(span.lo());
    let file = format!("{}", lo.file.name.prefer_local_unconditionally());
    let full = match tcx.hir_maybe_body_owned_by(def) {
        Some(b) => sm.lookup_char_pos(b.value.span.source_callsite().hi()).line,
        None => lo.line,
    };
    let parent = tcx.opt_parent(did).map(|p| js(&path(tcx, p))).unwrap_or("null".into());
    let typeck_root = js(&path(tcx, tcx.typeck_root_def_id(did)));
    let kind_s = if tcx.is_coroutine(did) {
        "coroutine"
    } else {
        match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => "const",
            _ => "other",
        }
    };
    let root = tcx.typeck_root_def_id(did);
    let (mut impl_trait, mut impl_self, mut trait_item) =
        (String::from("null"), String::from("null"), String::from("null"));
    let mut in_trait = String::from("null");
    if let Some(p) = tcx.impl_of_assoc(root) {
        impl_self = js(&tys(tcx.type_of(p).instantiate_identity().skip_norm_wip()));
        if let Some(t) = tcx.impl_opt_trait_ref(p) {
            impl_trait = js(&path(tcx, t.skip_binder().def_id));
        }
        if let Some(t) = tcx.trait_item_of(root) {
            trait_item = js(&path(tcx, t));
        }
    } else if let Some(t) = tcx.trait_of_assoc(root) {
        in_trait = js(&path(tcx, t));
    }
    let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
    let env = TypingEnv::post_analysis(tcx, did);

    let is_const = matches!(kind_s, "const" | "other");
    let mut text = String::new();
    if is_const {
        let body = tcx.mir_for_ctfe(did);
        text.push_str(&body_common(tcx, env, body));
    } else {
        let _ = tcx.mir_drops_elaborated_and_const_checked(def);
        let body = if tcx.is_coroutine(did) {
            CORO.with(|s| s.borrow_mut().remove(&def)).expect("coroutine must have been stashed")
        } else {
            STASH.with(|s| s.borrow_mut().remove(&def)).expect("body must have been stashed")
        };
        // SAFETY: see `stash_mir`.
        let body: Body<'tcx> = unsafe { std::mem::transmute(body) };
        text.push_str(&body_common(tcx, env, &body));
    }
    let vis = if matches!(tcx.def_kind(root), DefKind::Fn | DefKind::AssocFn) && tcx.visibility(root).is_public() { "pub" } else { "priv" };
    let unsafety = match kind {
        DefKind::Fn | DefKind::AssocFn => !tcx.fn_sig(did).skip_binder().safety().is_safe(),
        _ => false,
    };
    let _ = writeln!(
        out,
        "{{\"k\":\"body\",\"id\":{},\"crate\":{},\"kind\":{},\"name\":{},\"parent\":{},\"root\":{},\"impl_trait\":{},\"impl_self\":{},\"trait_item\":{},\"in_trait\":{},\"vis\":\"{}\",\"unsafe\":{},\"file\":{},\"line\":{},\"line_hi\":{},{}}}",
        js(&id),
        js(tcx.crate_name(LOCAL_CRATE).as_str()),
        js(kind_s),
        js(&name),
        parent,
        typeck_root,
        impl_trait,
        impl_self,
        trait_item,
        in_trait,
        vis,
        unsafety,
        js(&file),
        lo.line,
        full,
        text
    );
    // Promoteds.
    if !is_const {
        for (i, b) in tcx.promoted_mir(did).iter_enumerated() {
            let _ = writeln!(
                out,
                "{{\"k\":\"body\",\"id\":{},\"crate\":{},\"kind\":\"promoted\",\"name\":\"\",\"parent\":{},\"root\":{},\"impl_trait\":null,\"impl_self\":null,\"trait_item\":null,\"in_trait\":null,\"vis\":\"priv\",\"unsafe\":false,\"file\":{},\"line\":{},\"line_hi\":{},{}}}",
                js(&format!("{}#p{}", id, i.as_u32())),
                js(tcx.crate_name(LOCAL_CRATE).as_str()),
                js(&id),
                typeck_root,
                js(&file),
                lo.line,
                full,
                body_common(tcx, env, b)
            );
        }
    }
}

fn dump_items(tcx: TyCtxt<'_>, out: &mut impl std::io::Write) {
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        let sm = tcx.sess.source_map();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let lo = sm.lookup_char_pos(tcx.def_span(did).source_callsite().lo());
                let adt = tcx.adt_def(did);
                let mut vs = vec![];
                for (vi, v) in adt.variants().iter_enumerated() {
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            format!(
                                "[{},{}]",
                                js(&f.name.to_string()),
                                js(&tys(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))
                            )
                        })
                        .collect();
                    let disc = if adt.is_enum() {
                        adt.discriminant_for_variant(tcx, vi).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!(
                        "{{\"name\":{},\"disc\":{},\"fields\":[{}]}}",
                        js(&v.name.to_string()),
                        disc,
                        fs.join(",")
                    ));
                }
                let _ = writeln!(
                    out,
                    "{{\"k\":\"adt\",\"id\":{},\"crate\":{},\"enum\":{},\"file\":{},\"line\":{},\"variants\":[{}]}}",
                    js(&path(tcx, did)),
                    js(tcx.crate_name(LOCAL_CRATE).as_str()),
                    adt.is_enum(),
                    js(&format!("{}", lo.file.name.prefer_local_unconditionally())),
                    lo.line,
                    vs.join(",")
                );
            }
            DefKind::Trait => {
                let ms: Vec<String> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .filter(|a| a.is_fn())
                    .map(|a| {
                        format!(
                            "[{},{},{}]",
                            js(a.name().as_str()),
                            a.defaultness(tcx).has_value(),
                            js(&path(tcx, a.def_id))
                        )
                    })
                    .collect();
                let _ = writeln!(
                    out,
                    "{{\"k\":\"trait\",\"id\":{},\"crate\":{},\"methods\":[{}]}}",
                    js(&path(tcx, did)),
                    js(tcx.crate_name(LOCAL_CRATE).as_str()),
                    ms.join(",")
                );
            }
            DefKind::Impl { .. } => {
                let lo = sm.lookup_char_pos(tcx.def_span(did).source_callsite().lo());
                let self_ty = tys(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                let tr = tcx
                    .impl_opt_trait_ref(did)
                    .map(|t| js(&path(tcx, t.skip_binder().def_id)))
                    .unwrap_or("null".into());
                let ms: Vec<String> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .filter(|a| a.is_fn())
                    .map(|a| format!("[{},{}]", js(a.name().as_str()), js(&path(tcx, a.def_id))))
                    .collect();
                let _ = writeln!(
                    out,
                    "{{\"k\":\"impl\",\"crate\":{},\"trait\":{},\"self\":{},\"file\":{},\"line\":{},\"derived\":{},\"methods\":[{}]}}",
                    js(tcx.crate_name(LOCAL_CRATE).as_str()),
                    tr,
                    js(&self_ty),
                    js(&format!("{}", lo.file.name.prefer_local_unconditionally())),
                    lo.line,
                    tcx.is_builtin_derived(did),
                    ms.join(",")
                );
            }
            _ => (),
        }
    }
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        if self.out.is_some() {
            config.override_queries = Some(|_sess, providers| {
                ORIG.with(|o| o.set(Some(*providers)));
                providers.queries.mir_drops_elaborated_and_const_checked = stash_mir;
                providers.queries.mir_promoted = stash_promoted;
            });
        }
    }

    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(dir) = &self.out else { return Compilation::Continue };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let types = tcx.crate_types();
        let suffix = if types.iter().any(|t| format!("{:?}", t).contains("Executable")) { "-bin" } else { "" };
        let fin = format!("{}/{}{}.jsonl", dir, name, suffix);
        let tmp = format!("{}.{}.tmp", fin, std::process::id());
        let f = std::fs::File::create(&tmp).expect("cannot create facts file");
        let mut out = std::io::BufWriter::new(f);
        let _ = writeln!(out, "{{\"k\":\"crate\",\"id\":{}}}", js(&name));
        dump_items(tcx, &mut out);
        for def in tcx.hir_body_owners() {
            dump_body(tcx, def, &mut out);
        }
        out.flush().expect("cannot write facts");
        drop(out);
        std::fs::rename(&tmp, &fin).expect("cannot rename facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a workspace wrapper we are invoked as `mirfacts rustc ARGS...`.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let skip = matches!(crate_name.as_deref(), None | Some("___") | Some("build_script_build"));
    let out = if skip { None } else { std::env::var("MIRFACTS_OUT").ok() };
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
