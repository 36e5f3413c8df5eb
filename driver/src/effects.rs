//! Effects mode: facts about every item and body of scarlet from which the
//! purity rule is decided (statics, unsafe code, field and local types, callees,
//! pointer casts and comparisons).  Bodies are taken before monomorphisation,
//! so code no entry function reaches is included.
use crate::{list, q};
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::mir::{self, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;

pub struct Effects {
    pub out: String,
}

struct Un<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, Span)>,
}

/// expanded from a macro of another crate: the compiler vouches for its unsafe blocks
fn foreign(s: Span) -> bool {
    let mut c = s.ctxt();
    while !c.is_root() {
        let d = c.outer_expn_data();
        if let Some(m) = d.macro_def_id {
            return m.krate != LOCAL_CRATE;
        }
        c = d.call_site.ctxt();
    }
    false
}

impl<'tcx> Visitor<'tcx> for Un<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            if !foreign(b.span) {
                self.found.push(("unsafe block".into(), b.span));
            }
        }
        intravisit::walk_block(self, b)
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        match i.kind {
            hir::ItemKind::ForeignMod { .. } => self.found.push(("extern block".into(), i.span)),
            hir::ItemKind::GlobalAsm { .. } => self.found.push(("global assembly".into(), i.span)),
            hir::ItemKind::Impl(ref im) => {
                if let Some(t) = im.of_trait {
                    if matches!(t.safety, hir::Safety::Unsafe) && !foreign(i.span) && !i.span.in_derive_expansion() {
                        self.found.push(("unsafe impl".into(), i.span));
                    }
                }
            }
            _ => {}
        }
        intravisit::walk_item(self, i)
    }
}

fn loc(tcx: TyCtxt<'_>, s: Span) -> String {
    let s = s.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(s.lo());
    let f = format!("{}", l.file.name.prefer_local_unconditionally());
    format!("{}:{}", f, l.line)
}

fn types<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, out: &mut Vec<String>) {
    for a in t.walk() {
        if let Some(t) = a.as_type() {
            match t.kind() {
                ty::Adt(d, _) => out.push(path(tcx, d.did())),
                ty::RawPtr(..) => out.push("raw pointer".into()),
                ty::FnPtr(..) => out.push("fn pointer".into()),
                ty::Foreign(d) => out.push(path(tcx, *d)),
                _ => {}
            }
        }
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    // the defining crate and module, not a re-export
    let c = tcx.crate_name(d.krate);
    rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!({
        let s = tcx.def_path_str(d);
        if d.krate == LOCAL_CRATE {
            s
        } else if s.starts_with('<') {
            format!("{}::{}", module(tcx, d), s)
        } else if s.starts_with(c.as_str()) {
            s
        } else {
            format!("{}::{}", c, s)
        }
    }))
}

fn module(tcx: TyCtxt<'_>, d: DefId) -> String {
    let mut m = d;
    while !matches!(tcx.def_kind(m), DefKind::Mod) {
        m = tcx.parent(m);
    }
    let c = tcx.crate_name(d.krate);
    let p: Vec<String> = tcx.def_path(m).data.iter().map(|x| x.data.to_string()).collect();
    let mut v = vec![c.to_string()];
    v.extend(p);
    v.join("::")
}

fn fact(kind: &str, at: String, owner: String, what: String) -> String {
    format!(r#"{{"kind":{},"at":{},"in":{},"what":{}}}"#, q(kind), q(&at), q(&owner), q(&what))
}

fn body<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId, b: &mir::Body<'tcx>, out: &mut Vec<String>, n: &mut usize) {
    let owner = path(tcx, d.to_def_id());
    for l in b.local_decls.iter() {
        let mut v = vec![];
        types(tcx, l.ty, &mut v);
        for t in v {
            out.push(fact("local", loc(tcx, l.source_info.span), owner.clone(), t));
        }
    }
    for bb in b.basic_blocks.iter() {
        for s in &bb.statements {
            if let StatementKind::Assign(a) = &s.kind {
                let at = || loc(tcx, s.source_info.span);
                match &a.1 {
                    Rvalue::ThreadLocalRef(t) => out.push(fact("threadlocal", at(), owner.clone(), path(tcx, *t))),
                    Rvalue::Cast(k, _, _) => match k {
                        mir::CastKind::PointerExposeProvenance | mir::CastKind::PointerWithExposedProvenance => {
                            out.push(fact("address", at(), owner.clone(), "pointer cast to or from an integer".into()))
                        }
                        mir::CastKind::Transmute => {
                            out.push(fact("transmute", at(), owner.clone(), "transmute".into()))
                        }
                        _ => {}
                    },
                    Rvalue::BinaryOp(_, ops) => {
                        let t = ops.0.ty(&b.local_decls, tcx);
                        if matches!(t.kind(), ty::RawPtr(..) | ty::FnPtr(..)) {
                            out.push(fact("address", at(), owner.clone(), "comparison of pointers".into()));
                        }
                    }
                    _ => {}
                }
            }
        }
        if let Some(t) = &bb.terminator {
            let at = || loc(tcx, t.source_info.span);
            match &t.kind {
                TerminatorKind::InlineAsm { .. } => {
                    out.push(fact("asm", at(), owner.clone(), "inline assembly".into()))
                }
                TerminatorKind::Call { func, .. } | TerminatorKind::TailCall { func, .. } => {
                    *n += 1;
                    let ft = func.ty(&b.local_decls, tcx);
                    match ft.kind() {
                        ty::FnDef(f, _) => {
                            out.push(fact("call", at(), owner.clone(), format!("{} @ {}", path(tcx, *f), module(tcx, *f))))
                        }
                        _ => out.push(fact("indirect", at(), owner.clone(), format!("{}", ft))),
                    }
                }
                _ => {}
            }
        }
    }
    // functions used as values and statics
    for c in b.required_consts() {
        let mut v = vec![];
        types(tcx, c.const_.ty(), &mut v);
        for t in v {
            out.push(fact("local", loc(tcx, c.span), owner.clone(), t));
        }
    }
    struct K<'a, 'tcx> {
        tcx: TyCtxt<'tcx>,
        owner: String,
        out: &'a mut Vec<String>,
    }
    impl<'tcx> rustc_middle::mir::visit::Visitor<'tcx> for K<'_, 'tcx> {
        fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _: mir::Location) {
            let tcx = self.tcx;
            if let Some(s) = c.check_static_ptr(tcx) {
                self.out.push(fact("static-use", loc(tcx, c.span), self.owner.clone(), path(tcx, s)));
            }
            if let ty::FnDef(f, _) = c.const_.ty().kind() {
                self.out.push(fact("fn-value", loc(tcx, c.span), self.owner.clone(),
                    format!("{} @ {}", path(tcx, *f), module(tcx, *f))));
            }
        }
    }
    use rustc_middle::mir::visit::Visitor as _;
    K { tcx, owner, out }.visit_body(b);
}

impl rustc_driver::Callbacks for Effects {
    fn after_analysis<'tcx>(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut out = vec![];
        let (mut items, mut bodies, mut calls, mut fields) = (0usize, 0usize, 0usize, 0usize);
        let mut un = Un { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut un);
        for (w, s) in un.found {
            out.push(fact("unsafe", loc(tcx, s), String::new(), w));
        }
        let mut ks = std::collections::BTreeMap::<String, usize>::new();
        for d in tcx.hir_crate_items(()).definitions() {
            items += 1;
            let k = tcx.def_kind(d);
            *ks.entry(format!("{:?}", k).split(|c| c == ' ' || c == '(').next().unwrap_or("").to_string()).or_default() += 1;
            let did = d.to_def_id();
            let at = loc(tcx, tcx.def_span(did));
            match k {
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::post_analysis(tcx, did);
                    let w = if tcx.is_thread_local_static(did) {
                        "thread-local"
                    } else if mutability.is_mut() {
                        "mutable"
                    } else if !t.is_freeze(tcx, env) {
                        "interior-mutable"
                    } else {
                        "immutable"
                    };
                    out.push(fact("static", at, path(tcx, did), w.into()));
                    let mut v = vec![];
                    types(tcx, t, &mut v);
                    for t in v {
                        out.push(fact("static-type", loc(tcx, tcx.def_span(did)), path(tcx, did), t));
                    }
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    if k == DefKind::Union {
                        out.push(fact("union", at, path(tcx, did), "union".into()));
                    }
                    for f in tcx.adt_def(did).all_fields() {
                        fields += 1;
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let mut v = vec![];
                        types(tcx, t, &mut v);
                        for t in v {
                            out.push(fact("field", loc(tcx, tcx.def_span(f.did)), path(tcx, f.did), t));
                        }
                    }
                }
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
                        out.push(fact("unsafe", at, path(tcx, did), "unsafe fn".into()));
                    }
                }
                _ => {}
            }
        }
        for d in tcx.mir_keys(()) {
            let k = tcx.def_kind(*d);
            bodies += 1;
            match k {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => {
                    body(tcx, *d, tcx.optimized_mir(d.to_def_id()), &mut out, &mut calls)
                }
                _ => body(tcx, *d, tcx.mir_for_ctfe(d.to_def_id()), &mut out, &mut calls),
            }
        }
        let kinds: Vec<String> = ks.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        let s = format!(
            "{{\"items\":{},\"bodies\":{},\"calls\":{},\"fields\":{},\"kinds\":{{{}}},\"facts\":{}}}\n",
            items, bodies, calls, fields, kinds.join(","),
            list(out)
        );
        std::fs::write(&self.out, s).expect("mirdump: cannot write output");
        rustc_driver::Compilation::Continue
    }
}
