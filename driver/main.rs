// MIR exporter: a rustc driver that writes, for the crate being compiled, the MIR of every function
// of that crate and of everything reachable from it whose MIR is available (other crates of the
// workspace, dependencies, generic and inline std functions), with callees resolved, types
// normalised and constants evaluated.  One JSON document per crate, into $MIRX_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, CastKind, Const, ConstValue, NonDivergingIntrinsic, Operand,
    Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::{
    self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv,
};
use std::collections::HashMap;
use std::fmt::Write as _;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, _c: &mut rustc_interface::interface::Config) {}
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Ok(out) = std::env::var("MIRX_OUT") {
            let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
            let only = std::env::var("MIRX_CRATES").unwrap_or_default();
            if only.split(',').any(|c| c == name) {
                let mut d = Dumper::new(tcx);
                let s = d.run();
                let file = format!("{}/{}.json", out, name);
                let tmp = format!("{}.tmp{}", file, std::process::id());
                std::fs::write(&tmp, s).unwrap();
                std::fs::rename(&tmp, &file).unwrap();
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

type Key<'tcx> = (Instance<'tcx>, ty::ParamEnv<'tcx>);

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyq: Vec<(Ty<'tcx>, TypingEnv<'tcx>)>,
    tymap: HashMap<Ty<'tcx>, usize>,
    insts: Vec<(Instance<'tcx>, TypingEnv<'tcx>)>,
    instmap: HashMap<Key<'tcx>, usize>,
    out: Vec<String>,
}

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dumper {
            tcx,
            types: vec![],
            tyq: vec![],
            tymap: HashMap::new(),
            insts: vec![],
            instmap: HashMap::new(),
            out: vec![],
        }
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut roots = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d));
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let id = self.inst(Instance::new_raw(d, args), env);
            roots.push(id);
        }
        let mut i = 0;
        loop {
            if i < self.insts.len() {
                let (inst, env) = self.insts[i];
                let s = self.dump_inst(i, inst, env);
                self.out.push(s);
                i += 1;
                continue;
            }
            // types last: they may not add instances
            if self.types.len() < self.tyq.len() {
                let (t, env) = self.tyq[self.types.len()];
                let s = self.dump_ty(t, env);
                self.types.push(s);
                continue;
            }
            break;
        }
        format!(
            "{{\"crate\":{},\"roots\":{},\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n]}}\n",
            q(&tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string()),
            list(roots.iter().map(|r| r.to_string())),
            self.types.join(",\n"),
            self.out.join(",\n")
        )
    }

    fn inst(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let env = if i.has_param() { env } else { TypingEnv::fully_monomorphized() };
        let k = (i, env.param_env);
        if let Some(&n) = self.instmap.get(&k) {
            return n;
        }
        let n = self.insts.len();
        self.insts.push((i, env));
        self.instmap.insert(k, n);
        n
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let t = self
            .tcx
            .try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(t))
            .unwrap_or(t);
        if let Some(&n) = self.tymap.get(&t) {
            return n;
        }
        let n = self.tyq.len();
        self.tyq.push((t, env));
        self.tymap.insert(t, n);
        n
    }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))
        ))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", t))
        ))
    }

    fn dump_ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let name = q(&self.tystr(t));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(_) | ty::Uint(_) => {
                let (bits, signed) = t.int_size_and_signed(tcx);
                format!("\"k\":\"int\",\"bits\":{},\"signed\":{}", bits.bits(), signed)
            }
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Array(e, n) => {
                let e = self.ty(*e, env);
                let n = n
                    .try_to_target_usize(tcx)
                    .map(|v| v.to_string())
                    .unwrap_or("null".into());
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, n)
            }
            ty::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(*e, env)),
            ty::RawPtr(e, m) => {
                format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(*e, env), m.is_mut())
            }
            ty::Ref(_, e, m) => {
                format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(*e, env), m.is_mut())
            }
            ty::Tuple(ts) => {
                format!("\"k\":\"tuple\",\"fields\":{}", {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(t, env).to_string()).collect();
                    list(v)
                })
            }
            ty::Pat(b, _) => format!("\"k\":\"pat\",\"base\":{}", self.ty(*b, env)),
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().map(|a| a);
                let inst = match args {
                    Some(a) => match Instance::try_resolve(tcx, env, *d, a) {
                        Ok(Some(i)) => self.inst(i, env).to_string(),
                        _ => "null".into(),
                    },
                    None => "null".into(),
                };
                format!("\"k\":\"fndef\",\"path\":{},\"inst\":{}", q(&self.path(*d)), inst)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Closure(d, args) => {
                let up: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t, env).to_string())
                    .collect();
                let i = self.inst(Instance::new_raw(*d, args), env);
                format!(
                    "\"k\":\"closure\",\"fields\":{},\"inst\":{},\"path\":{},\"ckind\":{}",
                    list(up),
                    i,
                    q(&self.path(*d)),
                    q(&format!("{:?}", args.as_closure().kind_ty().to_opt_closure_kind()))
                )
            }
            ty::Adt(def, args) => {
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val.to_string()
                    } else {
                        "0".into()
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = ft.skip_norm_wip();
                        let ft = self.ty(ft, env);
                        fs.push(format!("[{},{}]", q(&f.name.to_string()), ft));
                    }
                    vs.push(format!(
                        "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                        q(&v.name.to_string()),
                        discr,
                        list(fs)
                    ));
                }
                let targs: Vec<String> =
                    args.types().map(|t| self.ty(t, env).to_string()).collect();
                format!(
                    "\"k\":\"adt\",\"akind\":\"{}\",\"path\":{},\"box\":{},\"args\":{},\"variants\":{}",
                    kind,
                    q(&self.path(def.did())),
                    def.is_box(),
                    list(targs),
                    list(vs)
                )
            }
            ty::Param(_) => "\"k\":\"param\"".to_string(),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        format!("{{\"name\":{},{}}}", name, body)
    }

    /// The instance of `Iterator::next` for an iterator type.
    fn iter_next(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let next = tcx.lang_items().next_fn()?;
        let tr = tcx.trait_of_assoc(next)?;
        if t.has_escaping_bound_vars() || t.has_aliases() {
            return None;
        }
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
        if !infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions() {
            return None;
        }
        drop(infcx);
        let args = tcx.mk_args(&[t.into()]);
        match Instance::try_resolve(tcx, env, next, args) {
            Ok(Some(i)) => Some(self.inst(i, env)),
            _ => None,
        }
    }

    fn line(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return ("?".into(), 0);
        }
        let loc = sm.lookup_char_pos(sp.lo());
        (
            format!("{}", loc.file.name.prefer_local_unconditionally()),
            loc.line,
        )
    }

    fn dump_inst(&mut self, id: usize, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::LlvmIntrinsic(_) => "llvm",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(s) => match s {
                ShimKind::VTable(_) => "vtable_shim",
                ShimKind::Reify(..) => "reify_shim",
                ShimKind::FnPtr(..) => "fnptr_shim",
                ShimKind::ClosureOnce { .. } => "closure_once_shim",
                ShimKind::DropGlue(..) => "drop_glue",
                ShimKind::Clone(..) => "clone_shim",
                _ => "other_shim",
            },
        };
        let mut s = String::new();
        let path = self.path(d);
        let mut impl_self = String::new();
        let mut impl_trait = String::new();
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            impl_self = match st.kind() {
                ty::Adt(def, _) => self.path(def.did()),
                _ => self.tystr(st),
            };
            if let Some(tr) = tcx.impl_opt_trait_id(im) {
                impl_trait = self.path(tr);
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            impl_trait = self.path(tr);
        }
        let targs: Vec<String> = inst
            .args
            .iter()
            .filter_map(|a| a.as_type())
            .map(|t| self.ty(t, env).to_string())
            .collect();
        let (file, line) = self.line(tcx.def_span(d));
        write!(
            s,
            "{{\"id\":{},\"path\":{},\"full\":{},\"kind\":\"{}\",\"crate\":{},\"local\":{},\"name\":{},\"impl_self\":{},\"impl_trait\":{},\"targs\":{},\"file\":{},\"line\":{},\"closure\":{}",
            id,
            q(&path),
            q(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", inst))),
            kind,
            q(tcx.crate_name(d.krate).as_str()),
            d.is_local(),
            q(&tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or("{closure}".into())),
            q(&impl_self),
            q(&impl_trait),
            list(targs),
            q(&file),
            line,
            tcx.is_closure_like(d),
        )
        .unwrap();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(d);
            write!(s, ",\"pub\":{}", vis.is_public()).unwrap();
        }
        if let InstanceKind::Virtual(_, n) = inst.def {
            write!(s, ",\"vidx\":{}", n).unwrap();
        }
        let has = match inst.def {
            InstanceKind::Item(d) => {
                (tcx.is_mir_available(d) || tcx.is_constructor(d))
                    && !tcx.is_foreign_item(d)
                    && !(tcx.trait_of_assoc(d).is_some()
                        && !tcx.defaultness(d).has_value())
            }
            InstanceKind::Shim(
                ShimKind::FnPtr(..)
                | ShimKind::ClosureOnce { .. }
                | ShimKind::Reify(..)
                | ShimKind::VTable(..)
                | ShimKind::Clone(..),
            ) => true,
            _ => false,
        };
        if has && !opaque(&path) {
            let body = tcx.instance_mir(inst.def);
            let b = inst.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                EarlyBinder::bind(tcx, body.clone()),
            );
            match b {
                Ok(b) => {
                    let bs = self.dump_body(&b, inst, env);
                    s.push_str(",\"body\":");
                    s.push_str(&bs);
                }
                Err(_) => s.push_str(",\"body_error\":true"),
            }
        }
        s.push('}');
        s
    }

    fn dump_body(&mut self, b: &mir::Body<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut s = String::new();
        let locals: Vec<String> = b
            .local_decls
            .iter()
            .map(|l| self.ty(l.ty, env).to_string())
            .collect();
        let mut names: Vec<String> = vec![];
        for v in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), q(&v.name.to_string())));
                }
            }
        }
        write!(
            s,
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":[",
            b.arg_count,
            b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            list(locals),
            list(names)
        )
        .unwrap();
        for (i, bb) in b.basic_blocks.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in bb.statements.iter() {
                let (_, line) = self.line(st.source_info.span);
                let j = match &st.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        format!(
                            "[\"=\",{},{},{}]",
                            self.place(p, env),
                            self.rvalue(r, b, inst, env),
                            line
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "[\"setd\",{},{},{}]",
                        self.place(place, env),
                        variant_index.as_usize(),
                        line
                    ),
                    StatementKind::Intrinsic(bx) => match &**bx {
                        NonDivergingIntrinsic::Assume(o) => {
                            format!("[\"assume\",{},{}]", self.operand(o, inst, env), line)
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!(
                            "[\"copynon\",{},{},{},{}]",
                            self.operand(&c.src, inst, env),
                            self.operand(&c.dst, inst, env),
                            self.operand(&c.count, inst, env),
                            line
                        ),
                    },
                    StatementKind::StorageDead(l) => format!("[\"dead\",{},{}]", l.as_usize(), line),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&j);
            }
            s.push_str("],\"t\":");
            let t = bb.terminator();
            let (file, line) = self.line(t.source_info.span);
            let _ = file;
            let j = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", v, t.as_usize()))
                        .collect();
                    format!(
                        "[\"switch\",{},{},{}",
                        self.operand(discr, inst, env),
                        list(v),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"resume\"".into()
                }
                TerminatorKind::Return => "[\"return\"".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let pt = self.ty(pt, env);
                    format!("[\"drop\",{},{},{}", self.place(place, env), pt, target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> =
                        args.iter().map(|a| self.operand(&a.node, inst, env)).collect();
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dt = self.ty(dt, env);
                    format!(
                        "[\"call\",{},{},{},{},{}",
                        self.callee(func, inst, env),
                        list(a),
                        self.place(destination, env),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        dt
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(len, inst, env),
                            self.operand(index, inst, env)
                        ),
                        AssertKind::Overflow(op, _, _) => format!("[\"overflow\",{}]", q(&format!("{:?}", op))),
                        AssertKind::OverflowNeg(_) => "[\"overflow\",\"Neg\"]".into(),
                        AssertKind::DivisionByZero(_) => "[\"divzero\"]".into(),
                        AssertKind::RemainderByZero(_) => "[\"remzero\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{}",
                        self.operand(cond, inst, env),
                        expected,
                        m,
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}", real_target.as_usize())
                }
                _ => "[\"other\"".into(),
            };
            write!(s, "{}],\"l\":{}", j, line).unwrap();
            if bb.is_cleanup {
                s.push_str(",\"c\":1");
            }
            s.push('}');
        }
        s.push_str("]}");
        s
    }

    fn callee(&mut self, f: &Operand<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        if let Operand::Constant(c) = f {
            if let ty::FnDef(d, args) = c.const_.ty().kind() {
                if let Some(args) = args.no_bound_vars() {
                    let trait_path = match self.tcx.trait_of_assoc(*d) {
                        Some(t) => q(&self.path(t)),
                        None => "null".into(),
                    };
                    let targs: Vec<String> = args
                        .iter()
                        .filter_map(|a| a.as_type())
                        .map(|t| self.ty(t, env).to_string())
                        .collect();
                    let r = Instance::try_resolve(self.tcx, env, *d, args);
                    let id = match r {
                        Ok(Some(i)) => self.inst(i, env).to_string(),
                        _ => "null".into(),
                    };
                    let path = self.path(*d);
                    let mut nexts = vec![];
                    let last = path.rsplit("::").next().unwrap_or("");
                    if matches!(last, "spec_extend" | "from_iter" | "extend_desugared" | "extend_trusted") {
                        for t in args.iter().filter_map(|a| a.as_type()) {
                            if let Some(n) = self.iter_next(t, env) {
                                let t = self.ty(t, env);
                                nexts.push(format!("[{},{}]", t, n));
                            }
                        }
                    }
                    return format!(
                        "{{\"inst\":{},\"path\":{},\"trait\":{},\"targs\":{},\"nexts\":{}}}",
                        id,
                        q(&path),
                        trait_path,
                        list(targs),
                        list(nexts)
                    );
                }
            }
        }
        format!("{{\"op\":{}}}", self.operand(f, inst, env))
    }

    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".into(),
                ProjectionElem::Field(f, t) => {
                    format!("[\"f\",{},{}]", f.as_usize(), self.ty(t, env))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"noop\"]".into(),
            });
        }
        list(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, env)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, env)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.konst(&c.const_, env)),
            Operand::RuntimeChecks(_) => "[\"c\",{\"k\":\"int\",\"v\":0,\"rt\":1}]".into(),
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.ty();
        let tid = self.ty(t, env);
        match c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => self.cval(v, t, env, 0),
            Err(_) => {
                let p = match c {
                    Const::Unevaluated(u, _) => q(&self.path(u.def)),
                    _ => q(&format!("{:?}", c)),
                };
                format!("{{\"k\":\"opaque\",\"ty\":{},\"why\":{}}}", tid, p)
            }
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t, env);
        let opaque = format!("{{\"k\":\"opaque\",\"ty\":{},\"why\":\"value\"}}", tid);
        if depth > 12 {
            return opaque;
        }
        match t.kind() {
            ty::FnDef(..) => return format!("{{\"k\":\"fn\",\"ty\":{}}}", tid),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let (size, signed) = match t.kind() {
                    ty::Bool => (1, false),
                    ty::Char => (4, false),
                    _ => {
                        let (s, g) = t.int_size_and_signed(tcx);
                        (s.bytes(), g)
                    }
                };
                if let Some(si) = v.try_to_scalar_int() {
                    let bits = si.to_bits(rustc_abi::Size::from_bytes(size));
                    let val = if signed {
                        rustc_abi::Size::from_bytes(size).sign_extend(bits).to_string()
                    } else {
                        bits.to_string()
                    };
                    return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", val, tid);
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let o = offset.bytes_usize();
                        let raw = a
                            .inner()
                            .inspect_with_uninit_and_ptr_outside_interpreter(o..o + size as usize);
                        let mut bits: u128 = 0;
                        for (i, b) in raw.iter().enumerate() {
                            bits |= (*b as u128) << (8 * i);
                        }
                        let val = if signed {
                            rustc_abi::Size::from_bytes(size).sign_extend(bits).to_string()
                        } else {
                            bits.to_string()
                        };
                        return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", val, tid);
                    }
                }
                return opaque;
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match (v, inner.kind()) {
                    (ConstValue::Slice { alloc_id, meta }, ty::Str) => {
                        let a = tcx.global_alloc(alloc_id).unwrap_memory();
                        let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        return format!(
                            "{{\"k\":\"str\",\"v\":{},\"ty\":{}}}",
                            q(&String::from_utf8_lossy(bytes)),
                            tid
                        );
                    }
                    (ConstValue::Slice { alloc_id, meta }, ty::Slice(e)) => {
                        let at = Ty::new_array(tcx, *e, meta);
                        let inner = self.cval(
                            ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO },
                            at,
                            env,
                            depth + 1,
                        );
                        return format!("{{\"k\":\"slice\",\"to\":{},\"ty\":{}}}", inner, tid);
                    }
                    (ConstValue::Scalar(Scalar::Ptr(p, _)), _) => {
                        let (prov, off) = p.into_raw_parts();
                        match tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::Memory(_) => {
                                if matches!(inner.kind(), ty::Slice(_) | ty::Str | ty::Dynamic(..)) {
                                    return opaque;
                                }
                                let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let i = self.cval(iv, *inner, env, depth + 1);
                                return format!("{{\"k\":\"ref\",\"to\":{},\"ty\":{}}}", i, tid);
                            }
                            GlobalAlloc::Static(d) => {
                                let frozen = !tcx.is_mutable_static(d)
                                    && !tcx.is_thread_local_static(d)
                                    && !tcx.is_foreign_item(d)
                                    && inner.is_freeze(tcx, env);
                                let val = match if frozen { tcx.eval_static_initializer(d).ok() } else { None } {
                                    Some(alloc) => {
                                        let id = tcx.reserve_and_set_memory_alloc(alloc);
                                        let iv = ConstValue::Indirect { alloc_id: id, offset: off };
                                        self.cval(iv, *inner, env, depth + 1)
                                    }
                                    None => "null".to_string(),
                                };
                                return format!(
                                    "{{\"k\":\"static\",\"path\":{},\"ty\":{},\"to\":{},\"v\":{}}}",
                                    q(&self.path(d)),
                                    tid,
                                    self.ty(*inner, env),
                                    val
                                );
                            }
                            _ => return opaque,
                        }
                    }
                    (ConstValue::Indirect { alloc_id, offset }, _) => {
                        // a reference stored in memory: read the pointer
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let ps = tcx.data_layout.pointer_size();
                            if let Some(prov) = a.inner().provenance().get_ptr(offset) {
                                let raw = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                    offset.bytes_usize()..(offset + ps).bytes_usize(),
                                );
                                let off = u64::from_le_bytes(raw.try_into().unwrap());
                                let target = prov.alloc_id();
                                if let GlobalAlloc::Memory(_) = tcx.global_alloc(target) {
                                    let toff = rustc_abi::Size::from_bytes(off);
                                    let len = || {
                                        let raw = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                            (offset + ps).bytes_usize()..(offset + ps + ps).bytes_usize(),
                                        );
                                        u64::from_le_bytes(raw.try_into().unwrap())
                                    };
                                    match inner.kind() {
                                        ty::Dynamic(..) => return opaque,
                                        ty::Str => {
                                            let m = tcx.global_alloc(target).unwrap_memory();
                                            let n = len() as usize;
                                            let o = off as usize;
                                            let bytes = m
                                                .inner()
                                                .inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                            return format!(
                                                "{{\"k\":\"str\",\"v\":{},\"ty\":{}}}",
                                                q(&String::from_utf8_lossy(bytes)),
                                                tid
                                            );
                                        }
                                        ty::Slice(e) => {
                                            let at = Ty::new_array(tcx, *e, len());
                                            let i = self.cval(
                                                ConstValue::Indirect { alloc_id: target, offset: toff },
                                                at,
                                                env,
                                                depth + 1,
                                            );
                                            return format!("{{\"k\":\"slice\",\"to\":{},\"ty\":{}}}", i, tid);
                                        }
                                        _ => {
                                            let i = self.cval(
                                                ConstValue::Indirect { alloc_id: target, offset: toff },
                                                *inner,
                                                env,
                                                depth + 1,
                                            );
                                            return format!("{{\"k\":\"ref\",\"to\":{},\"ty\":{}}}", i, tid);
                                        }
                                    }
                                }
                            }
                        }
                        return opaque;
                    }
                    _ => return opaque,
                }
            }
            ty::Array(..) | ty::Tuple(..) | ty::Adt(..) => {
                if t.has_non_region_param() {
                    if matches!(v, ConstValue::ZeroSized) {
                        return format!("{{\"k\":\"zst\",\"ty\":{}}}", tid);
                    }
                    return opaque;
                }
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() {
                        return opaque;
                    }
                }
                if let ty::Array(e, n) = t.kind() {
                    let n = n.try_to_target_usize(tcx).unwrap_or(1 << 40);
                    if n > 70000 {
                        return opaque;
                    }
                    if let (ConstValue::Indirect { alloc_id, offset }, ty::Uint(ty::UintTy::U8)) =
                        (v, e.kind())
                    {
                        let a = tcx.global_alloc(alloc_id).unwrap_memory();
                        let o = offset.bytes_usize();
                        let bytes = a
                            .inner()
                            .inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                        return format!(
                            "{{\"k\":\"bytes\",\"v\":{},\"ty\":{}}}",
                            list(bytes.iter().map(|b| b.to_string())),
                            tid
                        );
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let fs: Vec<(ConstValue, Ty<'tcx>)> = dc.fields.to_vec();
                        let f: Vec<String> =
                            fs.into_iter().map(|(v, t)| self.cval(v, t, env, depth + 1)).collect();
                        format!(
                            "{{\"k\":\"agg\",\"variant\":{},\"fields\":{},\"ty\":{}}}",
                            dc.variant.map(|v| v.as_usize().to_string()).unwrap_or("null".into()),
                            list(f),
                            tid
                        )
                    }
                    None => opaque,
                }
            }
            ty::Closure(..) => format!("{{\"k\":\"zst\",\"ty\":{}}}", tid),
            ty::Pat(b, _) => self.cval(v, *b, env, depth + 1),
            _ => match v {
                ConstValue::ZeroSized => format!("{{\"k\":\"zst\",\"ty\":{}}}", tid),
                _ => opaque,
            },
        }
    }

    fn rvalue(
        &mut self,
        r: &Rvalue<'tcx>,
        b: &mir::Body<'tcx>,
        inst: Instance<'tcx>,
        env: TypingEnv<'tcx>,
    ) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, inst, env)),
            Rvalue::Repeat(o, n) => {
                let n = n
                    .try_to_target_usize(tcx)
                    .map(|v| v.to_string())
                    .unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, inst, env), n)
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{},{}]",
                self.place(p, env),
                matches!(k, mir::BorrowKind::Mut { .. }),
                { let t = p.ty(&b.local_decls, tcx).ty; self.ty(t, env) }
            ),
            Rvalue::RawPtr(_, p) => format!(
                "[\"raw\",{},{}]",
                self.place(p, env),
                { let t = p.ty(&b.local_decls, tcx).ty; self.ty(t, env) }
            ),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&b.local_decls, tcx);
                let ks = match k {
                    CastKind::IntToInt => "int",
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr => "ptr",
                    CastKind::Transmute | CastKind::BoxDerefTransmute => "transmute",
                    CastKind::PointerCoercion(c, _) => match c {
                        ty::adjustment::PointerCoercion::Unsize => "unsize",
                        ty::adjustment::PointerCoercion::ReifyFnPointer(_) => "reify",
                        ty::adjustment::PointerCoercion::ClosureFnPointer(_) => "closurefn",
                        _ => "ptr",
                    },
                    CastKind::PointerExposeProvenance => "expose",
                    CastKind::PointerWithExposedProvenance => "fromexpose",
                    CastKind::Subtype => "ptr",
                    _ => "float",
                };
                let mut vt = String::new();
                if ks == "unsize" {
                    vt = self.vtable(ft, *t, env);
                }
                format!(
                    "[\"cast\",\"{}\",{},{},{}{}]",
                    ks,
                    self.operand(o, inst, env),
                    self.ty(ft, env),
                    self.ty(*t, env),
                    vt
                )
            }
            Rvalue::BinaryOp(op, bx) => {
                let t = bx.0.ty(&b.local_decls, tcx);
                format!(
                    "[\"bin\",\"{:?}\",{},{},{}]",
                    op,
                    self.operand(&bx.0, inst, env),
                    self.operand(&bx.1, inst, env),
                    self.ty(t, env)
                )
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&b.local_decls, tcx);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(o, inst, env), self.ty(t, env))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, tcx).ty;
                format!("[\"discr\",{},{}]", self.place(p, env), self.ty(t, env))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(o, inst, env)).collect();
                let t = r.ty(&b.local_decls, tcx);
                let t = self.ty(t, env);
                let (ks, v) = match &**k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, f) => {
                        if let Some(f) = f {
                            return format!("[\"union\",{},{},{}]", f.as_usize(), list(o), t);
                        }
                        ("adt", v.as_usize())
                    }
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                format!("[\"agg\",\"{}\",{},{},{}]", ks, v, list(o), t)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, env)),
            _ => "[\"other\"]".into(),
        }
    }

    fn vtable(&mut self, from: Ty<'tcx>, to: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let f = from.builtin_deref(true);
        let t = to.builtin_deref(true);
        let (Some(f), Some(t)) = (f, t) else { return String::new() };
        if f.has_escaping_bound_vars() { return String::new() }
        let (f, t) = tcx.struct_lockstep_tails_for_codegen(f, t, env);
        if let ty::Dynamic(preds, _) = t.kind() {
            if f.is_trait() {
                return String::new();
            }
            let Some(principal) = preds.principal() else { return ",{}".into() };
            let tr = tcx.instantiate_bound_regions_with_erased(principal).with_self_ty(tcx, f);
            let tr = tcx.erase_and_anonymize_regions(tr);
            // Method list by name: resolve every dispatchable method of the principal trait.
            let mut ms = vec![];
            for it in tcx.associated_items(tr.def_id).in_definition_order() {
                if !it.is_fn() {
                    continue;
                }
                if tcx.generics_of(it.def_id).own_requires_monomorphization() {
                    continue;
                }
                if !it.is_method() {
                    continue;
                }
                let args = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                    if (p.index as usize) < tr.args.len() {
                        tr.args[p.index as usize]
                    } else {
                        tcx.lifetimes.re_erased.into()
                    }
                });
                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, it.def_id, args) {
                    let n = self.inst(i, env);
                    ms.push(format!("{}:{}", q(it.name().as_str()), n));
                }
            }
            return format!(",{{{}}}", ms.join(","));
        }
        String::new()
    }
}

// Machinery whose inside is of no interest: formatting, panicking, allocation, OS.
fn opaque(p: &str) -> bool {
    const O: &[&str] = &[
        "core::fmt::", "alloc::fmt::", "std::fmt::", "core::panicking::", "std::panicking::",
        "alloc::alloc::", "std::alloc::", "alloc::raw_vec::", "std::sys::", "std::thread::",
        "std::backtrace", "std::env::", "std::process::", "std::fs::", "std::io::stdio::", "std::path::",
        "core::str::", "alloc::str::", "alloc::string::", "core::num::fmt", "core::num::imp", "core::num::flt2dec",
        "anyhow::", "clap::", "clap_builder::", "std::sync::", "core::sync::", "std::ffi", "alloc::ffi", "core::ffi",
        "std::collections::hash", "hashbrown::", "core::hash", "core::slice::sort", "core::unicode", "core::char",
        "flate2::", "sha2::", "crc::", "digest::", "crypto_common::", "block_buffer::", "hybrid_array::", "hex::",
        "std::os::", "std::time::", "core::time::", "std::error::", "core::error::", "alloc::sync::", "core::unwind",
        "std::io::error::", "more_asserts", "core::any::", "core::panic::", "std::panic::", "rand", "itertools::format",
        "std::io::buffered::", "core::slice::index::slice_", "core::ub_checks", "core::ascii", "core::io::error", "alloc::io::error",
        "alloc::collections::", "core::ptr::drop_in_place", "core::ptr::drop_glue", "core::sync", "core::intrinsics::",
    ];
    O.iter().any(|o| p.starts_with(o) || (p.starts_with('<') && p[1..].starts_with(o)))
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
