//! mirdump: a rustc driver (RUSTC_WORKSPACE_WRAPPER) that, after type checking,
//! writes the monomorphised MIR of everything reachable from the functions
//! of the local crate's modules (except `aux_*`) as JSON.  Callees are resolved through
//! the compiler (trait selection, default methods, closures, drop glue), and
//! constants are evaluated by the compiler.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_span;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

mod effects;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Ctx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    fns: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    fn_out: Vec<String>,
    stop: Vec<String>,
    dynamic: Vec<Ty>,
    virt: Vec<(usize, Instance)>,
    impls: Vec<String>,
}

fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
        TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|x| match x {
            GenericArgKind::Type(t) => Some(*t),
            _ => None,
        }),
        _ => None,
    }
}

impl Ctx {
    fn fun(&mut self, i: Instance) -> usize {
        if let Some(n) = self.fns.get(&i) {
            return *n;
        }
        let n = self.fn_out.len();
        self.fns.insert(i, n);
        self.fn_out.push(String::new());
        self.queue.push_back((n, i));
        n
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(n) = self.tys.get(&t) {
            return *n;
        }
        let n = self.ty_out.len();
        self.tys.insert(t, n);
        self.ty_out.push(String::new());
        let text = format!("{}", t);
        let j = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#""k":"bool""#.to_string(),
                RigidTy::Char => r#""k":"char""#.to_string(),
                RigidTy::Int(i) => format!(r#""k":"int","bits":{}"#, i.num_bytes() * 8),
                RigidTy::Uint(i) => format!(r#""k":"uint","bits":{}"#, i.num_bytes() * 8),
                RigidTy::Float(f) => format!(r#""k":"float","f":{}"#, q(&format!("{:?}", f))),
                RigidTy::Str => r#""k":"str""#.to_string(),
                RigidTy::Array(e, c) => {
                    let e = self.ty(e);
                    let len = c.eval_target_usize().map(|x| x as i64).unwrap_or(-1);
                    format!(r#""k":"array","e":{},"n":{}"#, e, len)
                }
                RigidTy::Slice(e) => format!(r#""k":"slice","e":{}"#, self.ty(e)),
                RigidTy::RawPtr(e, _) => format!(r#""k":"ptr","e":{}"#, self.ty(e)),
                RigidTy::Ref(_, e, m) => format!(
                    r#""k":"ref","e":{},"mut":{}"#,
                    self.ty(e),
                    matches!(m, Mutability::Mut)
                ),
                RigidTy::FnDef(d, a) => {
                    let id = Instance::resolve(d, &a).ok().map(|i| self.fun(i) as i64).unwrap_or(-1);
                    format!(r#""k":"fndef","fn":{}"#, id)
                }
                RigidTy::FnPtr(_) => r#""k":"fnptr""#.to_string(),
                RigidTy::Closure(d, a) => {
                    let mut id = -1i64;
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(i) = Instance::resolve_closure(d, &a, k) {
                            if matches!(i.kind, InstanceKind::Item) {
                                id = self.fun(i) as i64;
                                break;
                            }
                        }
                    }
                    format!(r#""k":"closure","fn":{}"#, id)
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!(r#""k":"tuple","ts":{}"#, list(v))
                }
                RigidTy::Never => r#""k":"never""#.to_string(),
                RigidTy::Dynamic(..) => r#""k":"dyn""#.to_string(),
                RigidTy::Adt(d, args) => {
                    let kind = format!("{:?}", d.kind());
                    let mut vs = vec![];
                    for v in d.variants() {
                        let discr = if d.kind().is_enum() {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".to_string()
                        };
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                format!("[{},{}]", q(&f.name.to_string()), self.ty(f.ty_with_args(&args)))
                            })
                            .collect();
                        vs.push(format!(
                            r#"{{"name":{},"discr":{},"fields":{}}}"#,
                            q(&v.name().to_string()),
                            discr,
                            list(fs)
                        ));
                    }
                    let targs: Vec<String> = args
                        .0
                        .iter()
                        .filter_map(|a| match a {
                            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                            _ => None,
                        })
                        .collect();
                    format!(
                        r#""k":"adt","adt":{},"def":{},"variants":{},"targs":{}"#,
                        q(&kind),
                        q(&d.name().to_string()),
                        list(vs),
                        list(targs)
                    )
                }
                _ => r#""k":"other""#.to_string(),
            },
            _ => r#""k":"other""#.to_string(),
        };
        self.ty_out[n] = format!(r#"{{"s":{},{}}}"#, q(&text), j);
        n
    }

    /// decode a constant of type `t` at `off` in `a`
    fn cval(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 12 {
            return r#"["opaque"]"#.into();
        }
        let opaque = || r#"["opaque"]"#.to_string();
        let layout = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return opaque(),
        };
        let size = layout.size.bytes();
        let TyKind::RigidTy(r) = t.kind() else { return opaque() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Int(_) | RigidTy::Float(_) => {
                match a.read_partial_uint(off..off + size) {
                    Ok(v) => format!(r#"["bits","{}"]"#, v),
                    Err(_) => opaque(),
                }
            }
            RigidTy::Array(e, c) => {
                let n = c.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v: Vec<String> =
                    (0..n).map(|i| self.cval(e, a, off + i * es, depth + 1)).collect();
                format!(r#"["arr",{}]"#, list(v))
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = layout.fields else {
                    return r#"["agg",0,[]]"#.into();
                };
                let v: Vec<String> = ts
                    .iter()
                    .enumerate()
                    .map(|(i, t)| self.cval(*t, a, off + offsets[i].bytes(), depth + 1))
                    .collect();
                format!(r#"["agg",0,{}]"#, list(v))
            }
            RigidTy::Adt(d, args) => {
                let (vi, offsets) = match layout.variants {
                    VariantsShape::Single { index } => {
                        let offs = match layout.fields {
                            FieldsShape::Arbitrary { offsets } => offsets,
                            FieldsShape::Primitive => vec![],
                            _ => return opaque(),
                        };
                        (index, offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let tag_off = match &layout.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[tag_field].bytes(),
                            _ => 0,
                        };
                        let tsize = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        let Ok(tagv) = a.read_partial_uint(off + tag_off..off + tag_off + tsize) else {
                            return opaque();
                        };
                        let mask: u128 =
                            if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                        let mut found = None;
                        match tag_encoding {
                            TagEncoding::Direct => {
                                for v in d.variants() {
                                    if d.discriminant_for_variant(v.idx()).val & mask == tagv & mask {
                                        found = Some(v.idx());
                                    }
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = tagv.wrapping_sub(niche_start) & mask;
                                let lo = niche_variants.start().to_index();
                                let hi = niche_variants.end().to_index();
                                if rel <= (hi - lo) as u128 {
                                    let want = lo + rel as usize;
                                    for v in d.variants() {
                                        if v.idx().to_index() == want {
                                            found = Some(v.idx());
                                        }
                                    }
                                } else {
                                    found = Some(untagged_variant);
                                }
                            }
                        }
                        let Some(idx) = found else { return opaque() };
                        let offs = variants
                            .get(idx.to_index())
                            .map(|v| v.offsets.clone())
                            .unwrap_or_default();
                        (idx, offs)
                    }
                    _ => return opaque(),
                };
                let Some(vd) = d.variant(vi) else { return opaque() };
                let fs = vd.fields();
                if fs.len() > offsets.len() {
                    return opaque();
                }
                let v: Vec<String> = fs
                    .iter()
                    .enumerate()
                    .map(|(i, f)| self.cval(f.ty_with_args(&args), a, off + offsets[i].bytes(), depth + 1))
                    .collect();
                format!(r#"["agg",{},{}]"#, vi.to_index(), list(v))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1);
                let Some(p) = p else { return opaque() };
                let to = match GlobalAlloc::from(p.0) {
                    // a static that nothing can write is a constant
                    GlobalAlloc::Static(s) => match s.eval_initializer() {
                        Ok(m) if m.mutability == rustc_public::mir::Mutability::Not => GlobalAlloc::Memory(m),
                        _ => GlobalAlloc::Static(s),
                    },
                    g => g,
                };
                match to {
                    GlobalAlloc::Memory(m) => {
                        let poff = a.read_partial_uint(off..off + 8).unwrap_or(0) as usize;
                        match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => r#"["str"]"#.into(),
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let n = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                                if n > 4096 {
                                    return opaque();
                                }
                                let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                let v: Vec<String> = (0..n)
                                    .map(|i| self.cval(el, &m, poff + i * es, depth + 1))
                                    .collect();
                                format!(r#"["ref",["arr",{}]]"#, list(v))
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque(),
                            _ => format!(r#"["ref",{}]"#, self.cval(e, &m, poff, depth + 1)),
                        }
                    }
                    GlobalAlloc::Static(s) => format!(r#"["static",{}]"#, q(&s.name().to_string())),
                    _ => opaque(),
                }
            }
            RigidTy::FnPtr(_) => {
                let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1);
                if let Some(p) = p {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        return format!(r#"["fn",{}]"#, self.fun(i));
                    }
                }
                opaque()
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => r#"["zst"]"#.into(),
            _ => opaque(),
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::ZeroSized => format!(r#"["const",{},["zst"]]"#, t),
            ConstantKind::Allocated(a) => {
                let v = self.cval(c.ty(), a, 0, 0);
                format!(r#"["const",{},{}]"#, t, v)
            }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => format!(r#"["const",{},["bits","{}"]]"#, t, v),
                Err(_) => format!(r#"["const",{},["opaque"]]"#, t),
            },
            _ => format!(r#"["const",{},["opaque"]]"#, t),
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["copy",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["move",{}]"#, self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => format!(r#"["rtcheck",{}]"#, q(&format!("{:?}", r))),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let pr: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => r#"["deref"]"#.to_string(),
                ProjectionElem::Field(i, t) => format!(r#"["field",{},{}]"#, i, self.ty(*t)),
                ProjectionElem::Index(l) => format!(r#"["index",{}]"#, l),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!(r#"["cindex",{},{}]"#, offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!(r#"["sub",{},{},{}]"#, from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!(r#"["down",{}]"#, v.to_index()),
                ProjectionElem::OpaqueCast(_) => r#"["ocast"]"#.to_string(),
            })
            .collect();
        format!("[{},{}]", p.local, list(pr))
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!(r#"["addr",{}]"#, self.place(p)),
            Rvalue::Ref(_, bk, p) => {
                format!(r#"["ref",{},{}]"#, self.place(p), matches!(bk, BorrowKind::Mut { .. }))
            }
            Rvalue::Reborrow(_, _, p) => format!(r#"["reborrow",{}]"#, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let o = list(o);
                match k {
                    AggregateKind::Array(t) => format!(r#"["agg","array",{},{}]"#, self.ty(*t), o),
                    AggregateKind::Tuple => format!(r#"["agg","tuple",0,{}]"#, o),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.ty(d.ty_with_args(args));
                        format!(r#"["agg","adt",{},{},{}]"#, t, o, v.to_index())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        format!(r#"["agg","closure",{},{}]"#, self.ty(t), o)
                    }
                    AggregateKind::RawPtr(t, _) => format!(r#"["agg","rawptr",{},{}]"#, self.ty(*t), o),
                    _ => r#"["opaque"]"#.to_string(),
                }
            }
            Rvalue::BinaryOp(b, x, y) => format!(
                r#"["bin",{},{},{},{}]"#,
                q(&format!("{:?}", b)),
                self.operand(x),
                self.operand(y),
                self.opty(x, locals)
            ),
            Rvalue::CheckedBinaryOp(b, x, y) => format!(
                r#"["cbin",{},{},{},{}]"#,
                q(&format!("{:?}", b)),
                self.operand(x),
                self.operand(y),
                self.opty(x, locals)
            ),
            Rvalue::Cast(k, o, t) => {
                if let (Some(TyKind::RigidTy(RigidTy::Dynamic(..))), Some(from)) =
                    (pointee(*t).map(|t| t.kind()), o.ty(locals).ok().and_then(pointee))
                {
                    if !matches!(from.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) && !self.dynamic.contains(&from) {
                        self.dynamic.push(from);
                    }
                }
                format!(
                    r#"["cast",{},{},{},{}]"#,
                    q(&format!("{:?}", k)),
                    self.operand(o),
                    self.ty(*t),
                    self.opty(o, locals)
                )
            }
            Rvalue::CopyForDeref(p) => format!(r#"["use",["copy",{}]]"#, self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!(r#"["discr",{},{}]"#, self.place(p), t)
            }
            Rvalue::Len(p) => format!(r#"["len",{}]"#, self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x as i64).unwrap_or(-1);
                format!(r#"["repeat",{},{}]"#, self.operand(o), n)
            }
            Rvalue::ThreadLocalRef(i) => format!(r#"["tls",{}]"#, q(&i.name().to_string())),
            Rvalue::UnaryOp(u, o) => format!(
                r#"["un",{},{},{}]"#,
                q(&format!("{:?}", u)),
                self.operand(o),
                self.opty(o, locals)
            ),
            Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.operand(o)),
        }
    }
    fn opty(&mut self, o: &Operand, locals: &[LocalDecl]) -> i64 {
        o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1)
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(format!(r#"["=",{},{},{}]"#, self.place(p), self.rvalue(r, locals), line))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        r#"["setd",{},{}]"#,
                        self.place(place),
                        variant_index.to_index()
                    )),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        st.push(r#"["cno"]"#.to_string())
                    }
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!(r#"["goto",{}]"#, target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> =
                        targets.branches().map(|(v, t)| format!(r#"["{}",{}]"#, v, t)).collect();
                    format!(
                        r#"["switch",{},{},{},{}]"#,
                        self.operand(discr),
                        list(br),
                        targets.otherwise(),
                        self.opty(discr, locals)
                    )
                }
                TerminatorKind::Resume => r#"["resume"]"#.into(),
                TerminatorKind::Abort => r#"["abort"]"#.into(),
                TerminatorKind::Return => r#"["return"]"#.into(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!(r#"["drop",{},{},{}]"#, self.place(place), target, t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let at: Vec<String> =
                        args.iter().map(|o| self.opty(o, locals).to_string()).collect();
                    let dt = destination.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let tgt = target.map(|x| x as i64).unwrap_or(-1);
                    let f = match func.ty(locals).ok().map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, ga))) => match Instance::resolve(d, &ga) {
                            Ok(i) => format!(r#"["fn",{}]"#, self.fun(i)),
                            Err(_) => format!(r#"["unres",{}]"#, q(&d.name().to_string())),
                        },
                        _ => format!(r#"["ptr",{}]"#, self.operand(func)),
                    };
                    format!(
                        r#"["call",{},{},{},{},{},{},{}]"#,
                        f,
                        list(a),
                        self.place(destination),
                        tgt,
                        list(at),
                        dt,
                        line
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    r#"["assert",{},{},{},{},{}]"#,
                    self.operand(cond),
                    expected,
                    target,
                    q(&format!("{:?}", msg).chars().take(40).collect::<String>()),
                    line
                ),
                TerminatorKind::InlineAsm { .. } => r#"["asm"]"#.into(),
            };
            blocks.push(format!("[{},{}]", list(st), t));
        }
        format!(
            r#""argc":{},"spread":{},"locals":{},"blocks":{}"#,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            list(lt),
            list(blocks)
        )
    }

    fn emit_fn(&mut self, n: usize, i: Instance) {
        let name = i.name().to_string();
        let def = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let sp = i.def.span();
        let file = sp.get_filename().to_string();
        let line = sp.get_lines().start_line;
        let kind = format!("{:?}", i.kind);
        let targs: Vec<String> = i
            .args()
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                _ => None,
            })
            .collect();
        let cargs: Vec<String> = i
            .args()
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Const(c) => {
                    Some(c.eval_target_usize().map(|x| x as i64).unwrap_or(-1).to_string())
                }
                _ => None,
            })
            .collect();
        let stop = !matches!(krate.as_str(), "scarlet" | "harness")
            && self.stop.iter().any(|p| def.starts_with(p.as_str()));
        if matches!(i.kind, InstanceKind::Virtual { .. }) {
            self.virt.push((n, i));
        }
        let empty = i.is_empty_shim();
        let body = if stop || matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) {
            None
        } else {
            i.body()
        };
        let b = match body {
            Some(b) => self.body(&b),
            None => r#""nobody":true"#.to_string(),
        };
        self.fn_out[n] = format!(
            r#"{{"id":{},"name":{},"def":{},"krate":{},"file":{},"line":{},"kind":{},"targs":{},"cargs":{},"empty":{},{}}}"#,
            n,
            q(&name),
            q(&def),
            q(&krate),
            q(&file),
            line,
            q(&kind),
            list(targs),
            list(cargs),
            empty,
            b
        );
    }
}

fn analyze(out: &str, stop: Vec<String>) -> ControlFlow<()> {
    let mut cx = Ctx {
        tys: HashMap::new(),
        ty_out: vec![],
        fns: HashMap::new(),
        queue: VecDeque::new(),
        fn_out: vec![],
        stop,
        dynamic: vec![],
        virt: vec![],
        impls: vec![],
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) || item.requires_monomorphization() {
            continue;
        }
        let name = CrateDef::name(&item).to_string();
        let last = name.strip_prefix("harness::").unwrap_or(&name).to_string();
        let plain = last.chars().all(|c| c.is_alphanumeric() || c == '_' || c == ':');
        if !plain || !last.contains("::") || last.rsplit("::").next().unwrap_or("").starts_with("aux_") {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let id = cx.fun(i);
            roots.push(format!("[{},{}]", q(&last), id));
        }
    }
    // virtual calls: every type coerced to a trait object may answer them
    let mut done = std::collections::HashSet::new();
    loop {
        while let Some((n, i)) = cx.queue.pop_front() {
            cx.emit_fn(n, i);
        }
        let mut more = vec![];
        for (n, i) in &cx.virt {
            for t in &cx.dynamic {
                if done.insert((*n, *t)) {
                    more.push((*n, *i, *t));
                }
            }
        }
        if more.is_empty() {
            break;
        }
        for (n, i, t) in more {
            let TyKind::RigidTy(RigidTy::FnDef(d, a)) = i.ty().kind() else { continue };
            let mut v = a.0.clone();
            let Some(k) = v.iter().position(|x| matches!(x, GenericArgKind::Type(_))) else { continue };
            v[k] = GenericArgKind::Type(t);
            if let Ok(r) = Instance::resolve(d, &GenericArgs(v)) {
                let (ti, fi) = (cx.ty(t), cx.fun(r));
                cx.impls.push(format!("[{},{},{}]", n, ti, fi));
            }
        }
    }
    let j = format!(
        "{{\"roots\":{},\n\"impls\":{},\n\"fns\":[\n{}\n],\n\"types\":[\n{}\n]}}\n",
        list(roots),
        list(cx.impls.clone()),
        cx.fn_out.join(",\n"),
        cx.ty_out.join(",\n")
    );
    std::fs::write(out, j).expect("mirdump: cannot write output");
    ControlFlow::Continue(())
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let eff = std::env::var("MIRDUMP_EFFECTS").unwrap_or_default();
    if !eff.is_empty() && args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "scarlet") {
        return rustc_driver::catch_with_exit_code(|| {
            rustc_driver::compiler_entrypoint(&args, &mut effects::Effects { out: eff.clone() });
        });
    }
    let is_harness = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "harness");
    if out.is_empty() || !is_harness {
        return rustc_driver::catch_with_exit_code(|| {
            rustc_driver::compiler_entrypoint(&args, &mut rustc_driver::TimePassesCallbacks::default());
        });
    }
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let r = run!(&args, || analyze(&out, stop));
    if r.is_err() {
        return std::process::ExitCode::from(1);
    }
    std::process::ExitCode::SUCCESS
}
