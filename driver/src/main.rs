#![feature(rustc_private)]
//! Dumps the type-checked MIR of one crate as JSON lines.
//!
//! Invoked by cargo through RUSTC_WORKSPACE_WRAPPER.  For every crate whose name is listed in
//! MIRFACTS_CRATES the facts are written to $MIRFACTS_OUT/<crate>-<kind>.jsonl; every other crate is
//! compiled untouched.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;
use std::io::Write as _;

struct Cb {
    out: String,
}

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<T>(it: impl IntoIterator<Item = T>, f: impl FnMut(T) -> String) -> String {
    let v: Vec<String> = it.into_iter().map(f).collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_rows: Vec<String>,
    adts: BTreeSet<(String, DefIdKey)>,
}
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
struct DefIdKey(u32, u32);

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            let krate = self.tcx.crate_name(LOCAL_CRATE).to_string();
            if s.starts_with('<') {
                return format!("{}|{}", krate, s);
            }
            return format!("{}::{}", krate, s);
        }
        s
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_rows.len();
        self.tys.insert(t, id);
        self.ty_rows.push(String::new());
        let s = with_no_trimmed_paths!(t.to_string());
        let (k, extra) = match t.kind() {
            ty::Adt(d, args) => {
                let p = self.path(d.did());
                self.adts.insert((
                    p.clone(),
                    DefIdKey(d.did().krate.as_u32(), d.did().index.as_u32()),
                ));
                let a = arr(args.types().collect::<Vec<_>>(), |t| self.ty(t).to_string());
                ("adt", format!(",\"adt\":{},\"a\":{}", q(&p), a))
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                ("ref", format!(",\"a\":[{}],\"mut\":{}", i, m.is_mut()))
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                ("ptr", format!(",\"a\":[{}],\"mut\":{}", i, m.is_mut()))
            }
            ty::Slice(inner) => {
                let i = self.ty(*inner);
                ("slice", format!(",\"a\":[{}]", i))
            }
            ty::Array(inner, n) => {
                let i = self.ty(*inner);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string());
                ("array", format!(",\"a\":[{}],\"n\":{}", i, n.unwrap_or("null".into())))
            }
            ty::Tuple(ts) => {
                let a = arr(ts.iter().collect::<Vec<_>>(), |t| self.ty(t).to_string());
                ("tuple", format!(",\"a\":{}", a))
            }
            ty::Closure(d, _) => ("closure", format!(",\"def\":{}", q(&self.path(*d)))),
            ty::FnDef(d, _) => ("fndef", format!(",\"def\":{}", q(&self.path(*d)))),
            ty::FnPtr(..) => ("fnptr", String::new()),
            ty::Param(p) => ("param", format!(",\"p\":{}", q(p.name.as_str()))),
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) | ty::Str | ty::Never => {
                ("prim", String::new())
            }
            ty::Dynamic(..) => ("dyn", String::new()),
            _ => ("other", String::new()),
        };
        self.ty_rows[id] = format!("{{\"t\":{},\"k\":\"{}\",\"s\":{}{}}}", id, k, q(&s), extra);
        id
    }

    fn span(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        (f, loc.line)
    }

    /// Box / Unique / NonNull are treated as transparent pointers.
    fn is_ptr_wrapper(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, _) => {
                d.is_box() || {
                    let n = self.tcx.item_name(d.did());
                    !d.did().is_local() && (n.as_str() == "Unique" || n.as_str() == "NonNull")
                }
            }
            _ => false,
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local.as_u32());
        }
        let mut out = format!("[{}", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => out.push_str(",\"*\""),
                ProjectionElem::Field(..) if self.is_ptr_wrapper(pt.ty) => out.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) if !d.is_union() => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if (v.as_usize()) < d.variants().len() {
                                d.variant(v)
                                    .fields
                                    .get(f)
                                    .map(|x| x.name.to_string())
                                    .unwrap_or(f.as_u32().to_string())
                            } else {
                                f.as_u32().to_string()
                            }
                        }
                        _ => f.as_u32().to_string(),
                    };
                    let _ = write!(out, ",[\"f\",{},{}]", f.as_u32(), q(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(out, ",[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(out, ",[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match (n, pt.ty.kind()) {
                        (_, ty::Adt(d, _)) if d.is_enum() => d.variant(v).name.to_string(),
                        (Some(n), _) => n.to_string(),
                        _ => v.as_u32().to_string(),
                    };
                    let _ = write!(out, ",[\"d\",{},{}]", v.as_u32(), q(&name));
                }
                _ => out.push_str(",\"?\""),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        out.push(']');
        out
    }

    fn scalar_json(&self, bits: u128, t: Ty<'tcx>, size: u64) -> String {
        match t.kind() {
            ty::Int(_) => {
                let sh = 128 - size * 8;
                let v = ((bits << sh) as i128) >> sh;
                v.to_string()
            }
            _ => bits.to_string(),
        }
    }

    fn const_tree(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> Option<String> {
        if depth > 6 {
            return None;
        }
        let tcx = self.tcx;
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                let s = v.try_to_scalar_int()?;
                let sz = s.size();
                Some(format!("{{\"v\":{}}}", self.scalar_json(s.to_bits(sz), t, sz.bytes())))
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                Some(format!("{{\"str\":{}}}", q(&String::from_utf8_lossy(b))))
            }
            ty::FnDef(..) => None,
            ty::Ref(_, inner, _) => {
                // byte-string / slices of u8
                if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                        return Some(format!("{{\"bytes\":{}}}", arr(b.iter(), |x| x.to_string())));
                    }
                }
                if let ty::Array(e, _) = inner.kind() {
                    if *e == tcx.types.u8 {
                        // &[u8; N]
                        let sc = v.try_to_scalar()?;
                        if let mir::interpret::Scalar::Ptr(p, _) = sc {
                            let (prov, off) = p.into_raw_parts();
                            if let mir::interpret::GlobalAlloc::Memory(a) =
                                tcx.global_alloc(prov.alloc_id())
                            {
                                let a = a.inner();
                                let n = a.len();
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                    (off.bytes() as usize)..n,
                                );
                                return Some(format!("{{\"bytes\":{}}}", arr(b.iter(), |x| x.to_string())));
                            }
                        }
                    }
                }
                None
            }
            ty::Tuple(..) | ty::Array(..) | ty::Adt(..) => {
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).map_or(true, |n| n > 4096) {
                        return None;
                    }
                }
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return None;
                    }
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = Vec::new();
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.const_tree(*fv, *ft, env, depth + 1).unwrap_or("null".into()));
                }
                let var = match (t.kind(), d.variant) {
                    (ty::Adt(a, _), Some(v)) => {
                        format!("\"variant\":{},", q(a.variant(v).name.as_str()))
                    }
                    _ => String::new(),
                };
                Some(format!("{{{}\"fields\":[{}]}}", var, fs.join(",")))
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            return self.fnref(*d, args.skip_binder(), env, ti);
        }
        let mut out = format!("{{\"c\":{}", ti);
        match c.const_ {
            Const::Unevaluated(u, _) => {
                let _ = write!(out, ",\"def\":{}", q(&self.path(u.def)));
                if let Some(p) = u.promoted {
                    let _ = write!(out, ",\"prom\":{}", p.as_u32());
                    out.push('}');
                    return out;
                }
                let ts: Vec<_> = u.args.types().collect();
                if !ts.is_empty() {
                    let _ = write!(out, ",\"args\":{}", arr(ts, |t| self.ty(t).to_string()));
                }
            }
            Const::Ty(_, ct) => {
                let _ = write!(out, ",\"def\":{}", q(&with_no_trimmed_paths!(ct.to_string())));
            }
            _ => {}
        }
        let ev = match c.const_ {
            Const::Val(v, _) => Some(v),
            _ => {
                use rustc_middle::ty::TypeVisitableExt;
                if c.const_.has_non_region_param() {
                    None
                } else {
                    c.const_.eval(self.tcx, env, c.span).ok()
                }
            }
        };
        if let Some(v) = ev {
            if let Some(tr) = self.const_tree(v, t, env, 0) {
                let _ = write!(out, ",\"val\":{}", tr);
            }
        }
        out.push('}');
        out
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, ti: usize) -> String {
        let p = self.path(d);
        let mut out = format!("{{\"c\":{},\"fn\":{}", ti, q(&p));
        let targs: Vec<Ty<'tcx>> = args.types().collect();
        let a = arr(targs, |t| self.ty(t).to_string());
        let _ = write!(out, ",\"a\":{}", a);
        let res = Instance::try_resolve(self.tcx, env, d, args);
        if let Ok(Some(inst)) = res {
            let rd = inst.def_id();
            if rd != d {
                let _ = write!(out, ",\"res\":{}", q(&self.path(rd)));
            }
        }
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = write!(out, ",\"trait\":{}", q(&self.path(tr)));
        }
        if rustc_middle::ty::TyCtxt::fn_sig(self.tcx, d).skip_binder().safety().is_unsafe() {
            out.push_str(",\"unsafe\":true");
        }
        out.push('}');
        out
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(p, body)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(p, body)),
            Operand::Constant(c) => self.constant(c, env),
            Operand::RuntimeChecks(_) => "{\"rc\":1}".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, body, env)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o, body, env),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                self.place(p, body),
                matches!(bk, BorrowKind::Mut { .. })
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ptr\",{}]", self.place(p, body)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", self.place(p, body), m.is_mut()),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let from = o.ty(body, self.tcx);
                let fi = self.ty(from);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    q(&format!("{:?}", k)),
                    self.operand(o, body, env),
                    ti,
                    fi
                )
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                b,
                self.operand(&ops.0, body, env),
                self.operand(&ops.1, body, env)
            ),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o, body, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p, body), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let fs = arr(ops.iter(), |o| self.operand(o, body, env));
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",null,null,{}]", fs),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,null,{}]", fs),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let vn = ad.variant(*v).name.to_string();
                        let names = arr(ad.variant(*v).fields.iter(), |f| q(f.name.as_str()));
                        let p = self.path(*d);
                        self.adts.insert((p.clone(), DefIdKey(d.krate.as_u32(), d.index.as_u32())));
                        format!("[\"agg\",\"adt\",{},{},{},{}]", q(&p), q(&vn), fs, names)
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"agg\",\"closure\",{},null,{}]", q(&self.path(*d)), fs)
                    }
                    _ => format!("[\"agg\",\"other\",null,null,{}]", fs),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p, body)),
            _ => format!("[\"other\",{}]", q(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let locals = arr(body.local_decls.iter(), |l| self.ty(l.ty).to_string());
        let mut names: Vec<String> = Vec::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", q(v.name.as_str()), self.place(p, body)));
            }
        }
        let mut blocks: Vec<String> = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st: Vec<String> = Vec::new();
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let rv = self.rvalue(r, body, env);
                        let (_, ln) = self.span(s.source_info.span);
                        st.push(format!("[\"a\",{},{},{}]", self.place(p, body), rv, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(body, self.tcx).ty;
                        let vn = match t.kind() {
                            ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                            _ => variant_index.as_u32().to_string(),
                        };
                        st.push(format!("[\"sd\",{},{},0]", self.place(place, body), q(&vn)));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let (_, tl) = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, self.tcx);
                    let dti = self.ty(dt);
                    let size = match dt.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64) / 8,
                        _ => 16,
                    };
                    let cases = arr(targets.iter(), |(v, b)| {
                        format!("[{},{}]", self.scalar_json(v, dt, size), b.as_u32())
                    });
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr, body, env),
                        cases,
                        targets.otherwise().as_u32(),
                        dti
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place, body), target.as_u32())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, env);
                    let a = arr(args.iter(), |x| self.operand(&x.node, body, env));
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        a,
                        self.place(destination, body),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                        tl
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(len, body, env),
                            self.operand(index, body, env)
                        ),
                        AssertKind::Overflow(op, a, b) => format!(
                            "[\"overflow\",\"{:?}\",{},{}]",
                            op,
                            self.operand(a, body, env),
                            self.operand(b, body, env)
                        ),
                        AssertKind::OverflowNeg(_) => "[\"neg\"]".into(),
                        AssertKind::DivisionByZero(o) => {
                            format!("[\"div0\",{}]", self.operand(o, body, env))
                        }
                        AssertKind::RemainderByZero(o) => {
                            format!("[\"rem0\",{}]", self.operand(o, body, env))
                        }
                        _ => "[\"misc\"]".into(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond, body, env),
                        expected,
                        k,
                        target.as_u32(),
                        tl
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!(
                "{{\"s\":[{}],\"t\":{}{}}}",
                st.join(","),
                t,
                if bb.is_cleanup { ",\"cl\":1" } else { "" }
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":[{}],\"blocks\":[{}]",
            body.arg_count,
            locals,
            names.join(","),
            blocks.join(",")
        )
    }
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_rows: vec![], adts: BTreeSet::new() };
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        let mut w = std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap());
        let mut nfn = 0usize;
        let mut consts: Vec<String> = Vec::new();
        for ld in tcx.mir_keys(()).iter().copied() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let p = cx.path(did);
                    let g = tcx.generics_of(did);
                    if g.requires_monomorphization(tcx) {
                        // a constant that depends on type parameters has no value here: its body is given instead
                        if matches!(kind, DefKind::AssocConst { .. }) {
                            let env = TypingEnv::post_analysis(tcx, did);
                            let (file, line) = cx.span(tcx.def_span(did));
                            let b = cx.body(tcx.mir_for_ctfe(did), env);
                            writeln!(
                                w,
                                "{{\"fn\":{},\"file\":{},\"line\":{},\"vis\":\"const\",\"unsafe\":false,\"gen\":[],{},\"proms\":[]}}",
                                q(&p), q(&file), line, b
                            )
                            .unwrap();
                            nfn += 1;
                        }
                        continue;
                    }
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    if matches!(kind, DefKind::Static { .. }) {
                        continue;
                    }
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        let env = TypingEnv::fully_monomorphized();
                        let ti = cx.ty(t);
                        let tr = cx.const_tree(v, t, env, 0).unwrap_or("null".into());
                        consts.push(format!("{{\"const\":{},\"ty\":{},\"val\":{}}}", q(&p), ti, tr));
                    }
                    continue;
                }
                _ => continue,
            }
            if tcx.is_constructor(did) {
                continue;
            }
            let body = tcx.optimized_mir(did);
            let env = TypingEnv::post_analysis(tcx, did);
            let (file, line) = cx.span(tcx.def_span(did));
            let path = cx.path(did);
            let b = cx.body(body, env);
            let parent = if kind == DefKind::Closure {
                format!(",\"parent\":{}", q(&cx.path(tcx.parent(did))))
            } else {
                String::new()
            };
            let generics = tcx.generics_of(did);
            let mut gn = Vec::new();
            for i in 0..generics.count() {
                let p = generics.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    gn.push(q(p.name.as_str()));
                }
            }
            let is_unsafe = kind != DefKind::Closure
                && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
            let vis = if kind == DefKind::Closure {
                "closure".to_string()
            } else if tcx.visibility(did).is_public() {
                "pub".into()
            } else {
                "priv".into()
            };
            let proms = tcx.promoted_mir(did);
            let ps = arr(proms.iter(), |p| format!("{{{}}}", cx.body(p, env)));
            writeln!(
                w,
                "{{\"fn\":{},\"file\":{},\"line\":{},\"vis\":\"{}\",\"unsafe\":{},\"gen\":[{}]{},{},\"proms\":{}}}",
                q(&path),
                q(&file),
                line,
                vis,
                is_unsafe,
                gn.join(","),
                parent,
                b,
                ps
            )
            .unwrap();
            nfn += 1;
        }
        for c in &consts {
            writeln!(w, "{}", c).unwrap();
        }
        // local ADTs even if never mentioned
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                let d = id.to_def_id();
                let p = cx.path(d);
                cx.adts.insert((p, DefIdKey(d.krate.as_u32(), d.index.as_u32())));
            }
        }
        let mut done: BTreeSet<DefIdKey> = BTreeSet::new();
        loop {
            let todo: Vec<(String, DefIdKey)> =
                cx.adts.iter().filter(|(_, k)| !done.contains(k)).cloned().collect();
            if todo.is_empty() {
                break;
            }
            for (p, k) in todo {
                done.insert(k);
                let did = DefId {
                    krate: rustc_hir::def_id::CrateNum::from_u32(k.0),
                    index: rustc_hir::def_id::DefIndex::from_u32(k.1),
                };
                let ad = tcx.adt_def(did);
                let mut vs = Vec::new();
                let discrs: Vec<String> = if ad.is_enum() {
                    ad.discriminants(tcx)
                        .map(|(_, d)| {
                            let s = d.to_string();
                            let e = s
                                .find(|c: char| !(c.is_ascii_digit() || c == '-'))
                                .unwrap_or(s.len());
                            s[..e].to_string()
                        })
                        .collect()
                } else {
                    vec!["0".into()]
                };
                for (i, v) in ad.variants().iter().enumerate() {
                    let fs = arr(v.fields.iter().collect::<Vec<_>>(), |f| {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        // do not expand foreign private fields into more ADTs
                        let ti = if did.is_local() { cx.ty(t).to_string() } else { "null".into() };
                        format!("[{},{}]", q(f.name.as_str()), ti)
                    });
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"f\":{}}}",
                        q(v.name.as_str()),
                        discrs.get(i).cloned().unwrap_or("null".into()),
                        fs
                    ));
                }
                writeln!(
                    w,
                    "{{\"adt\":{},\"enum\":{},\"local\":{},\"v\":[{}]}}",
                    q(&p),
                    ad.is_enum(),
                    did.is_local(),
                    vs.join(",")
                )
                .unwrap();
            }
        }
        for r in &cx.ty_rows {
            writeln!(w, "{}", r).unwrap();
        }
        writeln!(w, "{{\"end\":true,\"fns\":{}}}", nfn).unwrap();
        w.flush().unwrap();
        drop(w);
        std::fs::rename(&tmp, &self.out).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
    };
    let name = get("--crate-name").unwrap_or_default();
    let kind = get("--crate-type").unwrap_or_else(|| "lib".into());
    let is_test = args.iter().any(|a| a == "--test");
    let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let dir = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let key = format!("{}-{}", name, kind);
    if !is_test && !dir.is_empty() && want.split(',').any(|w| w == key) {
        let mut cb = Cb { out: format!("{}/{}.jsonl", dir, key) };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
