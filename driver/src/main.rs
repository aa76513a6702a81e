//! rustc wrapper that dumps typed, resolved MIR facts for every workspace crate.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path, the rest are its arguments.
//! Facts are taken from `mir_built` (before borrow checking and before coroutine lowering), so
//! `async` bodies keep the control flow the programmer wrote.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_data_structures::steal::Steal;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::{Mutex, OnceLock};

struct SendBody(LocalDefId, Body<'static>);
// SAFETY: bodies are only moved between compiler threads of one session.
unsafe impl Send for SendBody {}
static BODIES: Mutex<Vec<SendBody>> = Mutex::new(Vec::new());

type MirBuilt = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIG: OnceLock<MirBuilt> = OnceLock::new();

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, def);
    let body: Body<'tcx> = r.borrow().clone();
    // SAFETY: the clones are only used from `after_analysis`, while `tcx` is alive.
    let body: Body<'static> = unsafe { std::mem::transmute(body) };
    BODIES.lock().unwrap().push(SendBody(def, body));
    r
}

struct Cb {
    out: std::path::PathBuf,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_built);
            p.queries.mir_built = my_mir_built;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = std::mem::take(&mut *BODIES.lock().unwrap())
            .into_iter()
            .map(|SendBody(d, b)| (d, unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b) }))
            .collect();
        bodies.sort_by_key(|(d, _)| d.local_def_index.as_u32());
        with_no_trimmed_paths!(dump(tcx, bodies, &self.out));
        Compilation::Continue
    }
}

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    esc(s, &mut o);
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<String, usize>,
    ty_list: Vec<String>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
    macs: HashMap<String, usize>,
    mac_list: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_queue: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            // local paths are printed without the crate name
            if let Some(rest) = p.strip_prefix('<') {
                format!("<{}", rest)
            } else {
                format!("{}::{}", krate, p)
            }
        } else {
            p
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let s = self.ty_str(t);
        if let Some(i) = self.tys.get(&s) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(s.clone(), i);
        self.ty_list.push(s);
        i
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Closure(d, _) => format!("closure:{}", self.path(*d)),
            ty::Coroutine(d, _) => format!("coroutine:{}", self.path(*d)),
            ty::CoroutineClosure(d, _) => format!("coclosure:{}", self.path(*d)),
            ty::FnDef(d, _) => format!("fndef:{}", self.path(*d)),
            ty::Ref(_, inner, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_str(*inner)),
            _ => t.to_string(),
        }
    }
    fn span(&mut self, sp: Span) -> String {
        // call-site (outermost) location plus the list of macros it came through
        let mut macs: Vec<usize> = vec![];
        let mut s = sp;
        let mut guard = 0;
        while s.from_expansion() && guard < 20 {
            guard += 1;
            let d = s.ctxt().outer_expn_data();
            let name = match d.kind {
                ExpnKind::Macro(_, n) => n.to_string(),
                ExpnKind::Desugaring(k) => format!("~{}", k.descr()),
                ExpnKind::AstPass(k) => format!("^{}", k.descr()),
                ExpnKind::Root => "root".to_string(),
            };
            let id = match self.macs.get(&name) {
                Some(i) => *i,
                None => {
                    let i = self.mac_list.len();
                    self.macs.insert(name.clone(), i);
                    self.mac_list.push(name);
                    i
                }
            };
            macs.push(id);
            if d.call_site.is_dummy() {
                break;
            }
            s = d.call_site;
        }
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        let fid = match self.files.get(&f) {
            Some(i) => *i,
            None => {
                let i = self.file_list.len();
                self.files.insert(f.clone(), i);
                self.file_list.push(f);
                i
            }
        };
        let mut o = format!("[{},{}", fid, lo.line);
        for m in macs {
            let _ = write!(o, ",{}", m);
        }
        o.push(']');
        o
    }
    fn note_adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_none() {
            self.adt_queue.push(d);
        }
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_u32());
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            self.note_adt(adt.did());
                            let v = adt.variant(vi);
                            format!(".{}@{}", v.fields[f].name, self.path(adt.did()))
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                            format!(".^{}@{}", f.as_u32(), self.path(*d))
                        }
                        _ => format!(".{}", f.as_u32()),
                    };
                    o.push(',');
                    esc(&name, &mut o);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",\"[{}]\"", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",\"[#{}{}]\"", if from_end { "-" } else { "" }, offset);
                }
                ProjectionElem::Subslice { .. } => o.push_str(",\"[..]\""),
                ProjectionElem::Downcast(n, vi) => {
                    let nm = match n {
                        Some(n) => n.to_string(),
                        None => vi.as_u32().to_string(),
                    };
                    o.push(',');
                    esc(&format!("@{}", nm), &mut o);
                }
                _ => o.push_str(",\"?\""),
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }
    fn int_str(&self, bits: u128, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Int(it) => {
                let w = it.bit_width().unwrap_or(64);
                let v = ((bits << (128 - w)) as i128) >> (128 - w);
                v.to_string()
            }
            _ => bits.to_string(),
        }
    }
    fn konst(&mut self, def: LocalDefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let env = TypingEnv::post_analysis(tcx, def.to_def_id());
            let declared = self.path(*d);
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let mut resolved = String::from("null");
            let is_ctor = matches!(tcx.def_kind(*d), DefKind::Ctor(..));
            if !is_ctor {
                let eargs = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, *d, eargs) {
                    let rd = inst.def_id();
                    let kind = match inst.def {
                        ty::InstanceKind::Virtual(..) => "v:",
                        _ => "",
                    };
                    resolved = q(&format!("{}{}", kind, self.path(rd)));
                }
            }
            let mut ga = String::from("[");
            let mut first = true;
            for a in args.iter() {
                if let Some(t) = a.as_type() {
                    if !first {
                        ga.push(',');
                    }
                    first = false;
                    let _ = write!(ga, "{}", self.ty(t));
                } else if let Some(c) = a.as_const() {
                    if !first {
                        ga.push(',');
                    }
                    first = false;
                    esc(&c.to_string(), &mut ga);
                }
            }
            ga.push(']');
            return format!(
                "[\"fn\",{},{},{},{}]",
                q(&declared),
                resolved,
                ga,
                if is_ctor { 1 } else { 0 }
            );
        }
        let named = match c.const_ {
            mir::Const::Unevaluated(uv, _) if uv.promoted.is_none() => Some(self.path(uv.def)),
            mir::Const::Ty(_, ct) => Some(format!("{}", ct)),
            _ => None,
        };
        let n = match &named {
            Some(n) => q(n),
            None => "null".into(),
        };
        let tyi = self.ty(t);
        if t.is_integral() || t.is_bool() || t.is_char() {
            let env = TypingEnv::post_analysis(tcx, def.to_def_id());
            let c2 = tcx.erase_and_anonymize_regions(c.const_);
            let can = match c2 {
                mir::Const::Unevaluated(uv, _) => {
                    use rustc_middle::ty::TypeVisitableExt;
                    !uv.args.has_param() && uv.promoted.is_none()
                }
                mir::Const::Ty(_, ct) => {
                    use rustc_middle::ty::TypeVisitableExt;
                    !ct.has_param()
                }
                _ => true,
            };
            if can {
                if let Some(b) = c2.try_eval_bits(tcx, env) {
                    return format!("[\"i\",{},{},{}]", q(&self.int_str(b, t)), tyi, n);
                }
            }
            return format!("[\"i\",null,{},{}]", tyi, n);
        }
        let disp = match c.const_ {
            mir::Const::Val(..) => {
                let mut s = c.const_.to_string();
                if s.len() > 200 {
                    let mut i = 200;
                    while !s.is_char_boundary(i) {
                        i -= 1;
                    }
                    s.truncate(i);
                }
                s
            }
            _ => String::new(),
        };
        format!("[\"o\",{},{},{}]", tyi, n, q(&disp))
    }
    fn operand(&mut self, def: LocalDefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(def, c)),
            _ => "[\"r\"]".into(),
        }
    }
    fn ops<'a>(
        &mut self,
        def: LocalDefId,
        body: &Body<'tcx>,
        it: impl Iterator<Item = &'a Operand<'tcx>>,
    ) -> String
    where
        'tcx: 'a,
    {
        let v: Vec<String> = it.map(|o| self.operand(def, body, o)).collect();
        format!("[{}]", v.join(","))
    }
    fn rvalue(&mut self, def: LocalDefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(def, body, o)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(def, body, o), q(&n.to_string()))
            }
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Shared => "ref",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "refmut",
                    #[allow(unreachable_patterns)]
                    _ => "ref",
                };
                format!("[\"{}\",{}]", k, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let src = o.ty(&body.local_decls, self.tcx);
                let s = self.ty(src);
                let d = self.ty(*t);
                let ks = ks.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                format!("[\"cast\",{},{},{},{}]", q(&ks), self.operand(def, body, o), s, d)
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    q(&format!("{:?}", op)),
                    self.operand(def, body, &b.0),
                    self.operand(def, body, &b.1),
                    ti
                )
            }
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", q(&format!("{:?}", op)), self.operand(def, body, o))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let n = match t.kind() {
                    ty::Adt(a, _) => {
                        self.note_adt(a.did());
                        self.path(a.did())
                    }
                    _ => String::new(),
                };
                format!("[\"discr\",{},{}]", self.place(body, p), q(&n))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        self.note_adt(*d);
                        let adt = self.tcx.adt_def(*d);
                        let v = adt.variant(*vi);
                        let mut names = String::from("[");
                        if let Some(f) = active {
                            esc(v.fields[*f].name.as_str(), &mut names);
                        } else {
                            for (i, f) in v.fields.iter().enumerate() {
                                if i > 0 {
                                    names.push(',');
                                }
                                esc(f.name.as_str(), &mut names);
                            }
                        }
                        names.push(']');
                        format!("[\"adt\",{},{},{}]", q(&self.path(*d)), q(v.name.as_str()), names)
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", q(&self.path(*d))),
                    AggregateKind::Coroutine(d, _) => format!("[\"coroutine\",{}]", q(&self.path(*d))),
                    AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"closure\",{}]", q(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kind, self.ops(def, body, ops.iter()))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"static\",{}]", q(&self.path(*d))),
            _ => "[\"other\"]".into(),
        }
    }
    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let d = def.to_def_id();
        let mut o = String::new();
        let parent = tcx.opt_parent(d).map(|p| self.path(p)).unwrap_or_default();
        let kind = format!("{:?}", tcx.def_kind(d));
        let kind = kind.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
        let root = tcx.typeck_root_def_id(d);
        let cor = if body.coroutine.is_some() { 1 } else { 0 };
        let mut derived = 0;
        if let Some(im) = tcx.impl_of_assoc(root) {
            if tcx.is_automatically_derived(im) {
                derived = 1;
            }
        }
        let _ = write!(
            o,
            "{{\"id\":{},\"kind\":{},\"parent\":{},\"root\":{},\"cor\":{},\"derived\":{},\"vis\":{},\"argc\":{},\"span\":{},",
            q(&self.path(d)),
            q(&kind),
            q(&parent),
            q(&self.path(root)),
            cor,
            derived,
            match tcx.def_kind(root) {
                DefKind::Fn | DefKind::AssocFn => match tcx.visibility(root) {
                    ty::Visibility::Public => 2,
                    ty::Visibility::Restricted(m) => {
                        if m.to_def_id() == tcx.parent_module_from_def_id(root.expect_local()).to_def_id() { 0 } else { 1 }
                    }
                },
                _ => 2,
            },
            body.arg_count,
            self.span(body.span)
        );
        // impl / trait information
        if let Some(im) = tcx.impl_of_assoc(root) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let sti = self.ty(st);
            let tr = tcx.impl_opt_trait_ref(im).map(|t| {
                let t = t.instantiate_identity().skip_norm_wip();
                self.path(t.def_id)
            });
            let _ = write!(
                o,
                "\"self_ty\":{},\"trait\":{},",
                sti,
                tr.map(|t| q(&t)).unwrap_or("null".into())
            );
        }
        if let Some(n) = tcx.opt_item_name(root) {
            let _ = write!(o, "\"name\":{},", q(n.as_str()));
        }
        o.push_str("\"locals\":[");
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut upn: HashMap<u32, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.to_string());
                } else if p.local.as_u32() == 1 {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(f, _) = e {
                            upn.entry(f.as_u32()).or_insert(v.name.to_string());
                            break;
                        }
                    }
                }
            }
        }
        for (l, decl) in body.local_decls.iter_enumerated() {
            if l.as_u32() > 0 {
                o.push(',');
            }
            let t = self.ty(decl.ty);
            let n = names.get(&l.as_u32()).map(|s| q(s)).unwrap_or("null".into());
            let _ = write!(o, "[{},{}]", t, n);
        }
        o.push_str("],\"upvars\":{");
        let mut first = true;
        for (k, v) in upn.iter() {
            if !first {
                o.push(',');
            }
            first = false;
            let _ = write!(o, "\"{}\":{}", k, q(v));
        }
        o.push_str("},\"bbs\":[");
        for (bb, data) in body.basic_blocks.iter_enumerated() {
            if bb.as_u32() > 0 {
                o.push(',');
            }
            o.push_str("[[");
            let mut first = true;
            for st in data.statements.iter() {
                let s = match &st.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(def, body, &b.1);
                        format!("[\"=\",{},{},{}]", p, r, self.span(st.source_info.span))
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_u32()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],");
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(dt);
                    let mut s = format!("[\"switch\",{},{},[", self.operand(def, body, discr), ti);
                    let mut first = true;
                    for (v, t) in targets.iter() {
                        if !first {
                            s.push(',');
                        }
                        first = false;
                        let _ = write!(s, "[{},{}]", q(&self.int_str(v, dt)), t.as_u32());
                    }
                    let _ = write!(s, "],{},{}]", targets.otherwise().as_u32(), sp);
                    s
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(body, place), target.as_u32())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(def, body, func);
                    let a = self.ops(def, body, args.iter().map(|a| &a.node));
                    let dst = self.place(body, destination);
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        a,
                        dst,
                        target.map(|t| t.as_u32() as i64).unwrap_or(-1),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(def, body, len),
                            self.operand(def, body, index)
                        ),
                        AssertKind::Overflow(op, a, b) => format!(
                            "[\"overflow\",{},{},{}]",
                            q(&format!("{:?}", op)),
                            self.operand(def, body, a),
                            self.operand(def, body, b)
                        ),
                        AssertKind::OverflowNeg(a) => {
                            format!("[\"overflow\",\"Neg\",{}]", self.operand(def, body, a))
                        }
                        AssertKind::DivisionByZero(a) => {
                            format!("[\"div0\",{}]", self.operand(def, body, a))
                        }
                        AssertKind::RemainderByZero(a) => {
                            format!("[\"div0\",{}]", self.operand(def, body, a))
                        }
                        _ => "[\"misc\"]".to_string(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(def, body, cond),
                        if *expected { 1 } else { 0 },
                        m,
                        target.as_u32(),
                        sp
                    )
                }
                TerminatorKind::Yield { value, resume, .. } => format!(
                    "[\"yield\",{},{}]",
                    self.operand(def, body, value),
                    resume.as_u32()
                ),
                _ => "[\"end\"]".into(),
            };
            o.push_str(&t);
            let _ = write!(o, ",{}]", if data.is_cleanup { 1 } else { 0 });
        }
        o.push_str("]}");
        o
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, bodies: Vec<(LocalDefId, Body<'tcx>)>, out: &std::path::Path) {
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_list: vec![],
        files: HashMap::new(),
        file_list: vec![],
        macs: HashMap::new(),
        mac_list: vec![],
        adts: HashMap::new(),
        adt_queue: vec![],
    };
    let mut lines: Vec<String> = vec![];
    for (d, b) in bodies.iter() {
        lines.push(cx.body(*d, b));
    }
    // every local ADT, whether or not a body touches it
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
            cx.note_adt(id.to_def_id());
        }
    }
    let mut adts = String::from("{");
    let mut first = true;
    while let Some(d) = cx.adt_queue.pop() {
        let adt = tcx.adt_def(d);
        if !first {
            adts.push(',');
        }
        first = false;
        esc(&cx.path(d), &mut adts);
        adts.push_str(":[");
        let mut f1 = true;
        for (vi, v) in adt.variants().iter_enumerated() {
            if !f1 {
                adts.push(',');
            }
            f1 = false;
            let dv = if adt.is_enum() {
                adt.discriminant_for_variant(tcx, vi).val.to_string()
            } else {
                "0".into()
            };
            let _ = write!(adts, "[{},{},[", q(v.name.as_str()), q(&dv));
            let mut f2 = true;
            for f in v.fields.iter() {
                if !f2 {
                    adts.push(',');
                }
                f2 = false;
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let _ = write!(adts, "[{},{}]", q(f.name.as_str()), ti);
            }
            adts.push_str("]]");
        }
        adts.push(']');
    }
    adts.push('}');
    // trait impl table
    let mut impls = String::from("[");
    let mut first = true;
    for id in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
            let d = id.to_def_id();
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let sti = cx.ty(st);
            let tr = if of_trait {
                let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                q(&cx.path(t.def_id))
            } else {
                "null".into()
            };
            if !first {
                impls.push(',');
            }
            first = false;
            let _ = write!(impls, "[{},{},[", sti, tr);
            let mut f2 = true;
            for it in tcx.associated_items(d).in_definition_order() {
                if !f2 {
                    impls.push(',');
                }
                f2 = false;
                esc(&cx.path(it.def_id), &mut impls);
            }
            let _ = write!(impls, "],{}]", if tcx.is_automatically_derived(d) { 1 } else { 0 });
        }
    }
    impls.push(']');
    // every constant whose value does not depend on generics
    let mut consts = String::from("[");
    let mut first = true;
    for id in tcx.hir_crate_items(()).definitions() {
        let k = tcx.def_kind(id);
        if !matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            continue;
        }
        let d = id.to_def_id();
        if tcx.generics_of(d).requires_monomorphization(tcx) || !tcx.hir_node_by_def_id(id).body_id().is_some() {
            continue;
        }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let val = match tcx.const_eval_poly(d) {
            Ok(v) => {
                let c = mir::Const::Val(v, t);
                let env = TypingEnv::post_analysis(tcx, d);
                if t.is_integral() || t.is_bool() || t.is_char() {
                    match c.try_eval_bits(tcx, env) {
                        Some(b) => cx.int_str(b, t),
                        None => continue,
                    }
                } else {
                    let s = c.to_string();
                    if s.contains("alloc") {
                        continue;
                    }
                    s.trim_start_matches("const ").to_string()
                }
            }
            Err(_) => continue,
        };
        if !first {
            consts.push(',');
        }
        first = false;
        let sp = cx.span(tcx.def_span(d));
        let _ = write!(consts, "[{},{},{},{}]", q(&cx.path(d)), cx.ty(t), q(&val), sp);
    }
    consts.push(']');
    let join = |v: &Vec<String>| v.iter().map(|s| q(s)).collect::<Vec<_>>().join(",");
    let mut srcs = String::new();
    let mut first = true;
    for f in tcx.sess.source_map().files().iter() {
        if let rustc_span::FileName::Real(r) = &f.name {
            if let Some(p) = r.local_path() {
                if f.cnum == rustc_hir::def_id::LOCAL_CRATE {
                    if !first {
                        srcs.push(',');
                    }
                    first = false;
                    srcs.push('[');
                    esc(&p.display().to_string(), &mut srcs);
                    let _ = write!(srcs, ",\"{}\"]", f.src_hash);
                }
            }
        }
    }
    let feats: Vec<String> = tcx
        .sess
        .config
        .iter()
        .filter_map(|(k, v)| if k.as_str() == "feature" { v.map(|v| q(v.as_str())) } else { None })
        .collect();
    let hdr = format!(
        "{{\"crate\":{},\"features\":[{}],\"tys\":[{}],\"files\":[{}],\"macs\":[{}],\"adts\":{},\"impls\":{},\"consts\":{},\"srcs\":[{}],\"cwd\":{},\"n\":{}}}",
        q(&krate),
        feats.join(","),
        join(&cx.ty_list),
        join(&cx.file_list),
        join(&cx.mac_list),
        adts,
        impls,
        consts,
        srcs,
        q(&std::env::current_dir().unwrap().display().to_string()),
        lines.len()
    );
    let tmp = out.with_extension("tmp");
    let mut f = std::io::BufWriter::new(std::fs::File::create(&tmp).expect("facts file"));
    f.write_all(hdr.as_bytes()).unwrap();
    f.write_all(b"\n").unwrap();
    for l in lines {
        f.write_all(l.as_bytes()).unwrap();
        f.write_all(b"\n").unwrap();
    }
    f.flush().unwrap();
    drop(f);
    std::fs::rename(&tmp, out).unwrap();
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv: wrapper rustc args...
    args.remove(0);
    let mut krate = String::new();
    let mut extra = String::new();
    let mut ctype = String::new();
    let mut is_test = false;
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" {
            krate = args.get(i + 1).cloned().unwrap_or_default();
        }
        if args[i] == "--crate-type" {
            ctype = args.get(i + 1).cloned().unwrap_or_default();
        }
        if args[i] == "--test" {
            is_test = true;
        }
        if args[i] == "-C" {
            if let Some(x) = args.get(i + 1).and_then(|a| a.strip_prefix("extra-filename=")) {
                extra = x.to_string();
            }
        }
        i += 1;
    }
    let dir = std::env::var("FR_FACTS_DIR").ok();
    let active = dir.is_some() && !krate.is_empty() && krate != "build_script_build" && !is_test && krate != "___";
    if active {
        let out = std::path::PathBuf::from(dir.unwrap()).join(format!("{}-{}{}.facts", krate, ctype, extra));
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
