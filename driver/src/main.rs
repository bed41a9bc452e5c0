//! mirdump: a rustc driver that dumps the monomorphised MIR of a crate as JSON.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER.  For every workspace library it walks all
//! instances reachable from the crate's non-generic functions, resolving every callee through
//! the trait system, and writes one file MIRDUMP_DIR/<crate>.json with the bodies of all
//! instances defined in the crates listed in MIRDUMP_INLINE (the workspace) and of the small
//! Option/Result/ControlFlow combinators of core.  Everything else is recorded by its resolved
//! path only.  It decides nothing; the rules are in /verif/analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_structures;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Key<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(DefId, ty::GenericArgsRef<'tcx>, Promoted),
    Const(DefId, ty::GenericArgsRef<'tcx>),
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    inline: HashSet<String>,
    fnids: HashMap<Key<'tcx>, usize>,
    queue: Vec<(usize, Key<'tcx>)>,
    fns: BTreeMap<usize, String>,
    tyids: HashMap<Ty<'tcx>, usize>,
    types: Vec<String>,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            // local paths are printed without the crate name
            let c = self.tcx.crate_name(d.krate).to_string();
            if s.starts_with('<') {
                s
            } else {
                format!("{}::{}", c, s)
            }
        } else {
            s
        }
    }
    fn fnid(&mut self, k: Key<'tcx>) -> usize {
        if let Some(i) = self.fnids.get(&k) {
            return *i;
        }
        let i = self.fnids.len();
        self.fnids.insert(k, i);
        self.queue.push((i, k));
        i
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.tyids.insert(t, i);
        self.types.push(String::new());
        let s = with_no_trimmed_paths!(format!("{}", t));
        let extra = match *t.kind() {
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                if !self.adts.contains_key(&p) {
                    self.adts.insert(p.clone(), String::new());
                    let mut vs = vec![];
                    for (idx, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() {
                            def.discriminant_for_variant(self.tcx, idx).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!(
                            "[{},{},{}]",
                            js(v.name.as_str()),
                            d,
                            jl(v.fields.iter().map(|f| js(f.name.as_str())))
                        ));
                    }
                    let kind = if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    };
                    self.adts
                        .insert(p.clone(), format!("{{\"k\":{},\"v\":{}}}", js(kind), jl(vs)));
                }
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"adt\",\"p\":{},\"a\":{}", js(&p), jl(a))
            }
            ty::Ref(_, t, m) => {
                let ti = self.ty(t);
                format!("\"k\":\"ref\",\"t\":{},\"m\":{}", ti, m.is_mut())
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(d, args);
                let f = self.fnid(Key::Inst(inst));
                let ck = args.as_closure().kind();
                format!(
                    "\"k\":\"closure\",\"p\":{},\"f\":{},\"ck\":{}",
                    js(&self.path(d)),
                    f,
                    js(&format!("{:?}", ck))
                )
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let f = self.resolve(d, args);
                format!("\"k\":\"fndef\",\"p\":{},\"f\":{}", js(&self.path(d)), f)
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", jl(a))
            }
            ty::Array(t, _) | ty::Slice(t) => {
                let ti = self.ty(t);
                format!("\"k\":\"seq\",\"t\":{}", ti)
            }
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => "\"k\":\"prim\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[i] = format!("{{\"s\":{},{}}}", js(&s), extra);
        i
    }
    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> usize {
        let args = self.tcx.normalize_erasing_regions(self.env, rustc_middle::ty::Unnormalized::new_wip(args));
        let inst = match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => i,
            _ => Instance::new_raw(d, args),
        };
        self.fnid(Key::Inst(inst))
    }
    fn is_small_core(&self, d: DefId) -> bool {
        let c = self.tcx.crate_name(d.krate);
        if c.as_str() != "core" {
            return false;
        }
        let mut d = d;
        while self.tcx.is_closure_like(d) {
            d = self.tcx.parent(d);
        }
        if let Some(p) = self.tcx.opt_parent(d) {
            if matches!(self.tcx.def_kind(p), DefKind::Impl { .. }) {
                let t = self.tcx.type_of(p).skip_binder();
                if let ty::Adt(a, _) = t.kind() {
                    let s = self.path(a.did());
                    return matches!(
                        s.rsplit("::").next().unwrap_or(""),
                        "Option" | "Result" | "ControlFlow"
                    );
                }
                return t.is_bool();
            }
        }
        let s = self.path(d);
        s.starts_with("core::ops::function::") || s.starts_with("std::ops::Fn")
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = vec![p.local.as_usize().to_string()];
        for (base, el) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            out.push(match el {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let n = match *bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(v).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"f\",{}]", js(&n))
                }
                ProjectionElem::Downcast(s, v) => {
                    let n = match *bt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => s.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    format!("[\"v\",{}]", js(&n))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"c\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                _ => "\"?\"".to_string(),
            });
        }
        format!("[{}]", out.join(","))
    }
    fn konst(&mut self, c: &Const<'tcx>) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        match *t.kind() {
            ty::FnDef(..) | ty::Closure(..) => return format!("[\"fn\",{}]", ti),
            _ => {}
        }
        if let Const::Unevaluated(uv, _) = c {
            if let Some(p) = uv.promoted {
                let f = self.fnid(Key::Promoted(uv.def, uv.args, p));
                return format!("[\"ev\",{},\"promoted\"]", f);
            }
            // a named constant: keep its name, and its value where it is a plain scalar or string
            let (d, a) = match self.tcx.def_kind(uv.def) {
                DefKind::AssocConst { .. } => match Instance::try_resolve(self.tcx, self.env, uv.def, uv.args) {
                    Ok(Some(i)) => (i.def_id(), i.args),
                    _ => (uv.def, uv.args),
                },
                _ => (uv.def, uv.args),
            };
            let scalar = t.is_integral() || t.is_bool() || t.is_char();
            let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
            if scalar || is_str {
                if let Ok(v) = c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
                    return self.val(&v, t, ti);
                }
            }
            let f = self.fnid(Key::Const(d, a));
            return format!("[\"ev\",{},{}]", f, js(&self.path(d)));
        }
        match c {
            Const::Val(v, t) => self.val(v, *t, ti),
            Const::Ty(_, k) => match k.try_to_leaf() {
                Some(s) => format!("[\"int\",{},{}]", s.to_bits_unchecked(), ti),
                None => format!("[\"opq\",{},{}]", js(&format!("{:?}", k)), ti),
            },
            _ => format!("[\"opq\",\"?\",{}]", ti),
        }
    }
    fn val(&mut self, v: &ConstValue, t: Ty<'tcx>, ti: usize) -> String {
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) && !matches!(v, ConstValue::ZeroSized) {
            if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(*v, t) {
                let fs: Vec<String> = d
                    .fields
                    .iter()
                    .map(|(fv, ft)| {
                        let fi = self.ty(*ft);
                        self.val(fv, *ft, fi)
                    })
                    .collect();
                if let ty::Adt(a, _) = t.kind() {
                    let vd = a.variant(d.variant.unwrap_or(rustc_abi::VariantIdx::from_u32(0)));
                    let names: Vec<String> = vd.fields.iter().map(|f| js(f.name.as_str())).collect();
                    let path = self.path(a.did());
                    return format!(
                        "[\"adtc\",{},{},[{}],[{}]]",
                        js(&path),
                        js(vd.name.as_str()),
                        names.join(","),
                        fs.join(",")
                    );
                }
                return format!("[\"tupc\",[{}]]", fs.join(","));
            }
        }
        match *v {
            ConstValue::ZeroSized => format!("[\"zst\",{}]", ti),
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                if t.is_signed() {
                    let sz = i.size();
                    return format!("[\"int\",{},{}]", i.to_int(sz), ti);
                }
                format!("[\"int\",{},{}]", i.to_bits_unchecked(), ti)
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                match self.tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                    Some(interpret::GlobalAlloc::Static(d)) => {
                        format!("[\"static\",{},{}]", js(&self.path(d)), ti)
                    }
                    Some(interpret::GlobalAlloc::Memory(m)) => {
                        let a = m.inner();
                        let n = a.size().bytes_usize();
                        let b = if a.provenance().ptrs().is_empty() && n <= 256 {
                            a.inspect_with_uninit_and_ptr_outside_interpreter(0..n)
                                .iter()
                                .map(|x| format!("{:02x}", x))
                                .collect::<String>()
                        } else {
                            format!("{:?}", p)
                        };
                        format!("[\"opq\",{},{}]", js(&b), ti)
                    }
                    _ => format!("[\"opq\",\"ptr\",{}]", ti),
                }
            }
            ConstValue::Slice { .. } => {
                if let ty::Ref(_, x, _) = t.kind() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        if x.is_str() {
                            return format!("[\"str\",{}]", js(&String::from_utf8_lossy(b)));
                        }
                        return format!("[\"bytes\",{}]", js(&String::from_utf8_lossy(b)));
                    }
                }
                format!("[\"opq\",\"slice\",{}]", ti)
            }
            ConstValue::Indirect { .. } => format!("[\"opq\",\"indirect\",{}]", ti),
        }
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => format!("[\"p\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            _ => "[\"rt\"]".to_string(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(body, o);
                format!("[\"rep\",{},{}]", o, js(&format!("{:?}", n)))
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", self.place(body, p), matches!(k, BorrowKind::Mut { .. }))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"p\",{}]]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(body, o), ti)
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.operand(body, &b.0);
                let y = self.operand(body, &b.1);
                format!("[\"bin\",{},{},{}]", js(&format!("{:?}", op)), x, y)
            }
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(body, o))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(body, p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                match **k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{}]", jl(v)),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{}]", jl(v)),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(d);
                        let var = def.variant(vi);
                        let fields: Vec<String> = if v.len() == var.fields.len() {
                            var.fields.iter().map(|f| js(f.name.as_str())).collect()
                        } else {
                            vec![]
                        };
                        format!(
                            "[\"agg\",\"adt\",{},{},{},{}]",
                            jl(v),
                            js(&self.path(d)),
                            js(var.name.as_str()),
                            jl(fields)
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, d, a);
                        let ti = self.ty(t);
                        format!("[\"agg\",\"closure\",{},{}]", jl(v), ti)
                    }
                    _ => format!("[\"agg\",\"other\",{}]", jl(v)),
                }
            }
            _ => format!("[\"opq\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn body(&mut self, body: &Body<'tcx>) -> String {
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                bbs.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let r = self.rvalue(body, &b.1);
                        let p = self.place(body, &b.0);
                        st.push(format!("[\"=\",{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(format!("[\"sd\",{},{}]", p, variant_index.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let ti = self.ty(dt);
                    let d = self.operand(body, discr);
                    let ts: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!("[\"sw\",{},{},{},{}]", d, jl(ts), targets.otherwise().as_usize(), ti)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(body, cond);
                    let m = match **msg {
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::BoundsCheck { .. } => "bounds".into(),
                        AssertKind::DivisionByZero(..) => "divzero".into(),
                        AssertKind::RemainderByZero(..) => "remzero".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", c, expected, target.as_usize(), js(&m))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, self.tcx);
                    let callee = match *fty.kind() {
                        ty::FnDef(d, a) => {
                            let f = self.resolve(d, a.no_bound_vars().unwrap());
                            format!("{{\"f\":{}}}", f)
                        }
                        _ => format!("{{\"op\":{}}}", self.operand(body, func)),
                    };
                    let a: Vec<String> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                    let d = self.place(body, destination);
                    let tg = match target {
                        Some(b) => b.as_usize().to_string(),
                        None => "null".into(),
                    };
                    format!("[\"call\",{},{},{},{},{}]", callee, jl(a), d, tg, line)
                }
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                _ => "[\"other\"]".to_string(),
            };
            bbs.push(format!("[{},{}]", jl(st), ts));
        }
        let lt: Vec<String> =
            body.local_decls.iter().map(|l| l.ty).collect::<Vec<_>>().into_iter().map(|t| self.ty(t).to_string()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("\"{}\":{}", p.local.as_usize(), js(v.name.as_str())));
                }
            }
        }
        format!("\"n\":{},\"lt\":{},\"ln\":{{{}}},\"bb\":{}", body.arg_count, jl(lt), names.join(","), jl(bbs))
    }
    fn emit(&mut self, id: usize, k: Key<'tcx>) {
        let tcx = self.tcx;
        let (d, args, kind) = match k {
            Key::Inst(i) => (i.def_id(), i.args, "fn"),
            Key::Promoted(d, a, _) => (d, a, "promoted"),
            Key::Const(d, a) => (d, a, "const"),
        };
        let krate = tcx.crate_name(d.krate).to_string();
        let dk = tcx.def_kind(d);
        let mut h = format!(
            "\"p\":{},\"c\":{},\"k\":{}",
            js(&self.path(d)),
            js(&krate),
            js(match dk {
                DefKind::Closure if kind == "fn" => "closure",
                DefKind::Ctor(..) => "ctor",
                _ => kind,
            })
        );
        let ga: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(h, ",\"ga\":{}", jl(ga));
        let mut shim = false;
        if let Key::Inst(i) = k {
            match i.def {
                InstanceKind::Item(_) => {}
                _ => {
                    shim = true;
                    let s = format!("{:?}", i.def);
                    let s = s.split('(').next().unwrap_or("").to_string();
                    let _ = write!(h, ",\"shim\":{}", js(&s));
                }
            }
        }
        // the trait method this function implements (or is)
        if matches!(dk, DefKind::AssocFn) {
            let p = tcx.parent(d);
            let mut trm = None;
            if matches!(tcx.def_kind(p), DefKind::Trait) {
                trm = Some(d);
            } else if let Some(t) = tcx.associated_item(d).trait_item_def_id() {
                trm = Some(t);
            }
            if let Some(t) = trm {
                let _ = write!(h, ",\"tr\":{}", js(&self.path(t)));
            }
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                let st = tcx.type_of(p).skip_binder();
                let _ = write!(h, ",\"self\":{}", js(&with_no_trimmed_paths!(format!("{}", st))));
                if tcx.is_automatically_derived(p) {
                    h.push_str(",\"der\":1");
                }
            }
        }
        if let DefKind::Ctor(..) = dk {
            let p = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(p) {
                DefKind::Variant => (tcx.parent(p), tcx.item_name(p).to_string()),
                _ => (p, tcx.item_name(p).to_string()),
            };
            let _ = write!(h, ",\"adt\":{},\"var\":{}", js(&self.path(adt)), js(&var));
        }
        let wanted = (self.inline.contains(&krate) || d.is_local() || self.is_small_core(d)) && !shim;
        let mut b = String::new();
        if wanted && !matches!(dk, DefKind::Ctor(..)) {
            let has = match k {
                Key::Inst(_) => tcx.is_mir_available(d) && matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure),
                _ => true,
            };
            if has {
                let body = match k {
                    Key::Inst(i) => tcx.instance_mir(i.def).clone(),
                    Key::Promoted(d, _, p) => tcx.promoted_mir(d)[p].clone(),
                    Key::Const(d, _) => tcx.mir_for_ctfe(d).clone(),
                };
                let body = tcx.instantiate_and_normalize_erasing_regions(
                    args,
                    self.env,
                    EarlyBinder::bind(tcx, body),
                );
                b = self.body(&body);
                let sp = body.span.source_callsite();
                let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
                let f = format!("{}", loc.file.name.prefer_local_unconditionally());
                let _ = write!(h, ",\"file\":{},\"line\":{}", js(&f), loc.line);
            }
        } else if let Key::Const(d, _) = k {
            // constants of other crates: evaluate through their own body too
            if tcx.is_mir_available(d) {
                let body = tcx.mir_for_ctfe(d).clone();
                let body = tcx.instantiate_and_normalize_erasing_regions(
                    args,
                    self.env,
                    EarlyBinder::bind(tcx, body),
                );
                b = self.body(&body);
            }
        }
        let s = if b.is_empty() { format!("{{{}}}", h) } else { format!("{{{},{}}}", h, b) };
        self.fns.insert(id, s);
    }
}

struct Cb {
    dir: String,
    inline: HashSet<String>,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if tcx.crate_types().iter().any(|t| matches!(t, rustc_structures::CrateType::ProcMacro | rustc_structures::CrateType::Executable)) {
            return Compilation::Continue;
        }
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            inline: self.inline.clone(),
            fnids: HashMap::new(),
            queue: vec![],
            fns: BTreeMap::new(),
            tyids: HashMap::new(),
            types: vec![],
            adts: BTreeMap::new(),
        };
        let mut roots = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            if tcx.generics_of(d).requires_monomorphization(tcx) {
                continue;
            }
            match dk {
                DefKind::Fn | DefKind::AssocFn => {
                    let p = tcx.parent(d);
                    if matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p) {
                        continue;
                    }
                    let i = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
                    let i = Instance { args: tcx.erase_and_anonymize_regions(i.args), ..i };
                    let f = cx.fnid(Key::Inst(i));
                    roots.push(f.to_string());
                }
                DefKind::Const { .. } => {
                    let a = ty::GenericArgs::identity_for_item(tcx, d);
                    let f = cx.fnid(Key::Const(d, a));
                    roots.push(f.to_string());
                }
                _ => {}
            }
        }
        while let Some((i, k)) = cx.queue.pop() {
            cx.emit(i, k);
        }
        let mut out = String::new();
        let _ = write!(out, "{{\"crate\":{},\"roots\":[{}],\n\"types\":[", js(&krate), roots.join(","));
        out.push_str(&cx.types.join(",\n"));
        out.push_str("],\n\"adts\":{");
        let v: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        out.push_str(&v.join(",\n"));
        out.push_str("},\n\"fns\":[");
        let v: Vec<String> = cx.fns.values().cloned().collect();
        out.push_str(&v.join(",\n"));
        out.push_str("]}\n");
        let tmp = format!("{}/.{}.{}.tmp", self.dir, krate, std::process::id());
        std::fs::write(&tmp, out).unwrap();
        std::fs::rename(&tmp, format!("{}/{}.json", self.dir, krate)).unwrap();
        Compilation::Continue
    }
}

struct NoCb;
impl Callbacks for NoCb {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && !args[1].starts_with('-') && args[1].contains("rustc") {
        args.remove(1);
    }
    let dir = std::env::var("MIRDUMP_DIR").ok();
    let inline: HashSet<String> = std::env::var("MIRDUMP_INLINE")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let real = args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a == "___" || a.starts_with("--print"));
    rustc_driver::catch_with_exit_code(|| match dir {
        Some(dir) if real => rustc_driver::compiler_entrypoint(&args, &mut Cb { dir, inline }),
        _ => rustc_driver::compiler_entrypoint(&args, &mut NoCb),
    })
}
