//! Lists single edits of Rust sources: `R…` kinds keep the behaviour, `M…` kinds change it.
//! Output: one JSON object per line {file, func, kind, line, edits:[[start,end,text]]} (byte offsets).
use proc_macro2::Span;
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

struct V<'a> {
    src: &'a str,
    lines: Vec<usize>,
    file: String,
    path: Vec<String>,
    fns: Vec<FnCtx>,
    depth: usize, // closures / async blocks inside the function
    enums: &'a BTreeMap<String, Vec<String>>,
    n: usize,
}
#[derive(Clone)]
struct FnCtx {
    name: String,
    ret: String,
    params: Vec<(String, String)>,
}

fn in_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string();
        s.contains("test") || s.contains("bench")
    })
}

impl<'a> V<'a> {
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        // columns are counted in chars
        let st = self.lines[lc.line - 1];
        let rest = &self.src[st..];
        rest.char_indices().nth(lc.column).map(|x| st + x.0).unwrap_or(self.src.len())
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn text<T: Spanned>(&self, t: &T) -> &'a str {
        let (a, b) = self.range(t.span());
        &self.src[a..b]
    }
    fn emit(&mut self, kind: &str, line: usize, edits: Vec<(usize, usize, String)>) {
        let f = match self.fns.last() {
            Some(f) => f.name.clone(),
            None => return,
        };
        self.n += 1;
        let e: Vec<_> = edits.into_iter().map(|(a, b, t)| serde_json::json!([a, b, t.replace('\n', " ")])).collect();
        println!("{}", serde_json::json!({"file": self.file, "func": f, "kind": kind, "line": line, "edits": e}));
    }
    fn rep<T: Spanned>(&mut self, kind: &str, t: &T, new: String) {
        let (a, b) = self.range(t.span());
        let l = t.span().start().line;
        // keep the number of lines
        let nl = self.src[a..b].matches('\n').count();
        let has = new.matches('\n').count();
        let f = match self.fns.last() {
            Some(f) => f.name.clone(),
            None => return,
        };
        let mut new = new;
        for _ in has..nl {
            new.push('\n');
        }
        println!("{}", serde_json::json!({"file": self.file, "func": f, "kind": kind, "line": l, "edits": [[a, b, new]]}));
    }
    fn has_let(e: &Expr) -> bool {
        match e {
            Expr::Let(_) => true,
            Expr::Binary(b) => Self::has_let(&b.left) || Self::has_let(&b.right),
            Expr::Paren(p) => Self::has_let(&p.expr),
            _ => false,
        }
    }
    fn ret_is(&self, s: &str) -> bool {
        self.depth == 0 && self.fns.last().map(|f| f.ret.trim_start_matches("->").trim().starts_with(s)).unwrap_or(false)
    }
    fn handle_fn(&mut self, sig: &Signature, attrs: &[Attribute], body: &Block, in_trait: bool, owner: Option<&str>) {
        if in_test(attrs) {
            return;
        }
        let name = format!("{}::{}", self.path.join("::"), sig.ident);
        let params = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) if i.subpat.is_none() => Some((i.ident.to_string(), self.text(&t.ty).to_string())),
                    _ => None,
                },
                _ => None,
            })
            .collect::<Vec<_>>();
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => self.text(t).to_string(),
        };
        let typed = sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).count();
        self.fns.push(FnCtx { name, ret, params: params.clone() });
        // wrap: delegate the whole body to a private helper
        if !in_trait && typed == params.len() && sig.constness.is_none() && sig.unsafety.is_none() && sig.ident != "main" && !body.stmts.is_empty() {
            let (s0, _) = self.range(sig.span());
            let (b0, _) = self.range(body.span());
            let st = &self.src[s0..b0];
            let id = sig.ident.to_string();
            let (i0, i1) = self.range(sig.ident.span());
            let mut st2 = format!("{}{}__inner{}", &self.src[s0..i0], id, &self.src[i1..b0]);
            st2 = st2.replace('\n', " ");
            // argument patterns `mut x` on the outer function only warn
            let args = params.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", ");
            let recv = sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
            let call = if recv {
                format!("self.{}__inner({})", id, args)
            } else if owner.is_some() {
                format!("Self::{}__inner({})", id, args)
            } else {
                format!("{}__inner({})", id, args)
            };
            let aw = if sig.asyncness.is_some() { ".await" } else { "" };
            let _ = st;
            let cm = st2.contains("//");
            if !cm {
                self.emit("Rwrapfn", sig.span().start().line, vec![(b0, b0, format!("{{ {}{} }} {} ", call, aw, st2))]);
            }
        }
        let d = std::mem::replace(&mut self.depth, 0);
        self.block_edits(body, true);
        visit::visit_block(self, body);
        self.depth = d;
        self.fns.pop();
    }
    fn pure(e: &str) -> bool {
        !(e.contains("mut ") || e.contains('?') || e.contains(".await") || e.contains('!') || e.contains("return") || e.contains("get_mut") || e.contains("take(") || e.contains("remove") || e.contains("decode") || e.contains("read") || e.contains("next(") || e.contains("pop"))
    }
    /// no control flow out of the text, nothing asynchronous, no comment
    fn plain(e: &str) -> bool {
        !(e.contains('?') || e.contains(".await") || e.contains("return") || e.contains("break") || e.contains("continue") || e.contains("//"))
    }
    fn block_edits(&mut self, b: &Block, is_fn: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            let line = s.span().start().line;
            // `if c { continue; } rest` to `if !c { rest }`
            if let Stmt::Expr(Expr::If(f), _) = s {
                if f.else_branch.is_none() && i + 1 < n && f.then_branch.stmts.len() == 1 && !Self::has_let(&f.cond) {
                    if let Some(Stmt::Expr(Expr::Continue(_), _)) = f.then_branch.stmts.last() {
                        let (c0, c1) = self.range(f.cond.span());
                        let (t0, t1) = self.range(f.then_branch.span());
                        let (_, be) = self.range(b.span());
                        let (c, t) = (self.src[c0..c1].to_string(), self.src[t0..t1].to_string());
                        if !t.contains("//") && !c.contains("//") {
                            self.emit_raw("Rcontinue", line, vec![(c0, c1, one(&format!("!({})", c), &c)), (t0, t1, one("{", &t)), (be - 1, be - 1, "}".into())]);
                        }
                    }
                }
            }
            // early return turned into if/else
            if let Stmt::Expr(Expr::If(f), _) = s {
                if f.else_branch.is_none() && i + 1 < n {
                    if let Some(last) = f.then_branch.stmts.last() {
                        if matches!(last, Stmt::Expr(Expr::Return(_), _)) {
                            let (_, e) = self.range(f.span());
                            let (_, be) = self.range(b.span());
                            let has_semi = matches!(s, Stmt::Expr(_, Some(_)));
                            if !has_semi {
                                self.emit("Relsewrap", line, vec![(e, e, " else {".into()), (be - 1, be - 1, "}".into())]);
                            }
                            self.rep("Mdelcheck", s, String::new());
                        }
                    }
                }
            }
            match s {
                Stmt::Local(l) => {
                    if let Some(init) = &l.init {
                        if init.diverge.is_none() {
                            let t = self.text(&init.expr).to_string();
                            self.rep("Rblockwrap", &init.expr, format!("{{ {} }}", t));
                            if Self::plain(&t) {
                                self.rep("Rclosure", &init.expr, format!("(|| {{ {} }})()", t));
                            }
                            // swap with the next let when independent
                            if let Some(Stmt::Local(m)) = b.stmts.get(i + 1) {
                                if let Some(mi) = &m.init {
                                    let (a, c) = (self.text(&l.pat).to_string(), self.text(&mi.expr).to_string());
                                    let ids = idents(&a);
                                    let used = idents(&c);
                                    if mi.diverge.is_none() && Self::pure(&t) && Self::pure(&c) && !ids.iter().any(|x| used.contains(x)) && idents(self.text(&m.pat)).iter().all(|x| !idents(&t).contains(x)) {
                                        let (s0, e0) = self.range(s.span());
                                        let (s1, e1) = self.range(b.stmts[i + 1].span());
                                        let (x, y) = (self.src[s0..e0].to_string(), self.src[s1..e1].to_string());
                                        if !x.contains("//") && !y.contains("//") {
                                            self.emit_raw("Rswaplet", line, vec![(s0, e0, one(&y, &x)), (s1, e1, one(&x, &y))]);
                                        }
                                    }
                                }
                            }
                        } else if let Some((_, els)) = &init.diverge {
                            // let-else to match with a single binding
                            let ids: Vec<_> = pat_ids(&l.pat);
                            let p = self.text(&l.pat).to_string();
                            if ids.len() == 1 && !p.contains(':') || ids.len() == 1 && !matches!(l.pat, Pat::Type(_)) {
                                let t = format!("let {} = match {} {{ {} => {}, _ => {} }};", ids[0], self.text(&init.expr), p, ids[0], self.text(els));
                                self.rep("Rletelse", s, t);
                            }
                        }
                    }
                }
                Stmt::Expr(e, Some(_)) => {
                    match e {
                        Expr::Call(_) | Expr::MethodCall(_) | Expr::Await(_) | Expr::Assign(_) => self.rep("Mdelstmt", s, String::new()),
                        Expr::Binary(bb) if matches!(bb.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)) => self.rep("Mdelstmt", s, String::new()),
                        Expr::Try(t) => {
                            let x = self.text(&t.expr).to_string();
                            self.rep("Mdelstmt", s, String::new());
                            self.rep("Mdroperr", s, format!("let _ = {};", x));
                        }
                        _ => {}
                    }
                    if let Some(Stmt::Expr(e2, Some(_))) = b.stmts.get(i + 1) {
                        let ok = |e: &Expr| matches!(e, Expr::Call(_) | Expr::MethodCall(_) | Expr::Try(_) | Expr::Await(_) | Expr::Assign(_));
                        if ok(e) && ok(e2) {
                            let (s0, e0) = self.range(s.span());
                            let (s1, e1) = self.range(b.stmts[i + 1].span());
                            let (x, y) = (self.src[s0..e0].to_string(), self.src[s1..e1].to_string());
                            if !x.contains("//") && !y.contains("//") {
                                self.emit_raw("Oswapstmt", line, vec![(s0, e0, one(&y, &x)), (s1, e1, one(&x, &y))]);
                            }
                        }
                    }
                    // bind arguments first
                    self.arglet(e, s);
                }
                Stmt::Expr(e, None) if i + 1 == n => {
                    if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_) | Expr::Macro(_) | Expr::Unsafe(_) | Expr::Return(_)) {
                        let t = self.text(e).to_string();
                        self.rep("Rlettail", e, format!("{{ let __r = {}; __r }}", t));
                        if is_fn && self.depth == 0 {
                            self.rep("Rreturn", e, format!("return {};", t));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn emit_raw(&mut self, kind: &str, line: usize, edits: Vec<(usize, usize, String)>) {
        let f = match self.fns.last() {
            Some(f) => f.name.clone(),
            None => return,
        };
        let e: Vec<_> = edits.into_iter().map(|(a, b, t)| serde_json::json!([a, b, t])).collect();
        println!("{}", serde_json::json!({"file": self.file, "func": f, "kind": kind, "line": line, "edits": e}));
    }
    fn arglet(&mut self, e: &Expr, s: &Stmt) {
        let (inner, q) = match e {
            Expr::Try(t) => (&*t.expr, true),
            o => (o, false),
        };
        let args = match inner {
            Expr::Call(c) => &c.args,
            Expr::MethodCall(c) => &c.args,
            _ => return,
        };
        if args.is_empty() || args.iter().any(|a| matches!(a, Expr::Closure(_))) {
            return;
        }
        let (s0, s1) = self.range(s.span());
        if self.src[s0..s1].contains("//") {
            return;
        }
        let mut lets = String::new();
        let mut ed = vec![];
        for (i, a) in args.iter().enumerate() {
            let (a0, a1) = self.range(a.span());
            lets += &format!("let __a{} = {}; ", i, self.src[a0..a1].replace('\n', " "));
            ed.push((a0, a1, format!("__a{}", i)));
        }
        let _ = q;
        let mut out = vec![(s0, s0, format!("{{ {}", lets))];
        out.extend(ed);
        out.push((s1, s1, " }".into()));
        self.emit("Rarglet", s.span().start().line, out);
    }
}
fn one(new: &str, old: &str) -> String {
    let mut s = new.replace('\n', " ");
    for _ in 0..old.matches('\n').count() {
        s.push('\n');
    }
    s
}
fn idents(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut c = String::new();
    for ch in s.chars().chain(" ".chars()) {
        if ch.is_alphanumeric() || ch == '_' {
            c.push(ch)
        } else if !c.is_empty() {
            v.push(std::mem::take(&mut c));
        }
    }
    v
}
fn pat_ids(p: &Pat) -> Vec<String> {
    struct P(Vec<String>);
    impl<'x> Visit<'x> for P {
        fn visit_pat_ident(&mut self, i: &'x PatIdent) {
            if i.ident.to_string().chars().next().unwrap().is_lowercase() {
                self.0.push(i.ident.to_string());
            }
        }
    }
    let mut x = P(vec![]);
    x.visit_pat(p);
    x.0
}
fn enum_only(p: &Pat) -> bool {
    match p {
        Pat::Path(_) => true,
        Pat::TupleStruct(t) => t.elems.iter().all(|e| !matches!(e, Pat::Lit(_) | Pat::Range(_))),
        Pat::Struct(_) => true,
        Pat::Or(o) => o.cases.iter().all(enum_only),
        Pat::Lit(_) => true,
        Pat::Ident(i) => i.ident == "None",
        _ => false,
    }
}
/// the paths named at the head of patterns, so that arms are known to be disjoint
fn heads(p: &Pat) -> Vec<String> {
    match p {
        Pat::Path(x) => vec![quote::quote!(#x).to_string()],
        Pat::TupleStruct(t) => {
            let q = &t.path;
            vec![quote::quote!(#q).to_string()]
        }
        Pat::Struct(t) => {
            let q = &t.path;
            vec![quote::quote!(#q).to_string()]
        }
        Pat::Or(o) => o.cases.iter().flat_map(heads).collect(),
        Pat::Lit(l) => vec![quote::quote!(#l).to_string()],
        Pat::Ident(i) => vec![i.ident.to_string()],
        _ => vec![],
    }
}

impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_item_mod(&mut self, m: &'ast ItemMod) {
        if in_test(&m.attrs) || m.ident == "tests" || m.ident == "test" {
            return;
        }
        self.path.push(m.ident.to_string());
        visit::visit_item_mod(self, m);
        self.path.pop();
    }
    fn visit_item_impl(&mut self, m: &'ast ItemImpl) {
        if in_test(&m.attrs) {
            return;
        }
        let t = self.text(&m.self_ty).split('<').next().unwrap().to_string();
        self.path.push(t.clone());
        for it in &m.items {
            if let ImplItem::Fn(f) = it {
                self.handle_fn(&f.sig, &f.attrs, &f.block, m.trait_.is_some(), Some(&t));
            }
        }
        self.path.pop();
    }
    fn visit_item_trait(&mut self, m: &'ast ItemTrait) {
        self.path.push(m.ident.to_string());
        for it in &m.items {
            if let TraitItem::Fn(f) = it {
                if let Some(b) = &f.default {
                    self.handle_fn(&f.sig, &f.attrs, b, true, None);
                }
            }
        }
        self.path.pop();
    }
    fn visit_item_fn(&mut self, f: &'ast ItemFn) {
        self.handle_fn(&f.sig, &f.attrs, &f.block, false, None);
    }
    fn visit_macro(&mut self, _: &'ast Macro) {}
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        self.depth += 1;
        visit::visit_expr_closure(self, c);
        self.depth -= 1;
    }
    fn visit_expr_async(&mut self, c: &'ast ExprAsync) {
        self.depth += 1;
        visit::visit_expr_async(self, c);
        self.depth -= 1;
    }
    fn visit_block(&mut self, b: &'ast Block) {
        self.block_edits(b, false);
        visit::visit_block(self, b);
    }
    fn visit_expr_if(&mut self, f: &'ast ExprIf) {
        let line = f.span().start().line;
        let (c0, c1) = self.range(f.cond.span());
        let ct = self.src[c0..c1].to_string();
        if !Self::has_let(&f.cond) {
            self.emit("Mnegcond", line, vec![(c0, c1, format!("!({})", ct))]);
            if let Some((_, e)) = &f.else_branch {
                if let Expr::Block(eb) = &**e {
                    let (t0, t1) = self.range(f.then_branch.span());
                    let (e0, e1) = self.range(eb.span());
                    let (a, b) = (self.src[t0..t1].to_string(), self.src[e0..e1].to_string());
                    if !a.contains("//") && !b.contains("//") {
                        self.emit_raw("Rifnot", line, vec![(c0, c1, one(&format!("!({})", ct), &ct)), (t0, t1, one(&b, &a)), (e0, e1, one(&a, &b))]);
                    }
                }
            }
            let (f0, f1) = self.range(f.span());
            if !ct.contains("//") {
                self.emit_raw("Rcondlet", line, vec![(f0, f0, format!("{{ let __c = {}; ", ct.replace('\n', " "))), (c0, c1, one("__c", &ct)), (f1, f1, " }".into())]);
            }
            if Self::plain(&ct) {
                self.emit_raw("Rclosureif", line, vec![(c0, c1, one(&format!("(|| {{ {} }})()", ct), &ct))]);
            }
            let (t0, t1) = self.range(f.then_branch.span());
            let tt = self.src[t0..t1].to_string();
            if Self::plain(&tt) && f.else_branch.is_none() {
                self.emit_raw("Rclosurebody", line, vec![(t0, t0, "{ (|| ".into()), (t1, t1, ")(); }".into())]);
            }
            if let Expr::Binary(b) = &*f.cond {
                if matches!(b.op, BinOp::And(_)) && f.else_branch.is_none() {
                    let (l, r) = (self.text(&b.left).to_string(), self.text(&b.right).to_string());
                    if !l.contains("//") && !r.contains("//") {
                        self.emit_raw("Rsplitand", line, vec![(c0, c1, one(&format!("{} {{ if {}", l, r), &ct)), (f1, f1, " }".into())]);
                    }
                }
            }
        } else if let Expr::Let(l) = &*f.cond {
            if !matches!(f.else_branch.as_ref().map(|x| &*x.1), Some(Expr::If(_))) {
                let (f0, _) = self.range(f.span());
                let (t0, _) = self.range(f.then_branch.span());
                let h = self.src[f0..t0].to_string();
                let mut ed = vec![(f0, t0, one(&format!("match {} {{ {} => ", self.text(&l.expr), self.text(&l.pat)), &h))];
                let (_, t1) = self.range(f.then_branch.span());
                match &f.else_branch {
                    Some((el, e)) => {
                        let (a0, _) = self.range(el.span());
                        let (b0, b1) = self.range(e.span());
                        let o = self.src[a0..b0].to_string();
                        ed.push((a0, b0, one(" _ => ", &o)));
                        ed.push((b1, b1, " }".into()));
                    }
                    None => ed.push((t1, t1, " _ => {} }".into())),
                }
                if !h.contains("//") {
                    self.emit_raw("Rifletmatch", line, ed);
                }
            }
        }
        visit::visit_expr_if(self, f);
    }
    fn visit_expr_for_loop(&mut self, f: &'ast ExprForLoop) {
        let line = f.span().start().line;
        let (f0, f1) = self.range(f.span());
        let (b0, _) = self.range(f.body.span());
        let h = self.src[f0..b0].to_string();
        if !h.contains("//") {
            let lab = f.label.as_ref().map(|l| format!("{} ", self.text(l))).unwrap_or_default();
            self.emit_raw(
                "Rforwhile",
                line,
                vec![(f0, b0, one(&format!("{{ let mut __it = ::std::iter::IntoIterator::into_iter({}); {}while let Some({}) = __it.next() ", self.text(&f.expr), lab, self.text(&f.pat)), &h)), (f1, f1, " }".into())],
            );
            let ex = self.text(&f.expr).to_string();
            let pt = self.text(&f.pat).to_string();
            let body = self.text(&f.body).to_string();
            let mut base = None;
            if let Some(x) = ex.strip_suffix(".iter()") {
                base = Some((x.to_string(), "__i".to_string(), pt.clone()));
            } else if let Some(x) = ex.strip_prefix('&') {
                base = Some((x.to_string(), "__i".to_string(), pt.clone()));
            } else if let (Some(x), Pat::Tuple(t)) = (ex.strip_suffix(".iter().enumerate()"), &*f.pat) {
                if t.elems.len() == 2 {
                    base = Some((x.to_string(), self.text(&t.elems[0]).to_string(), self.text(&t.elems[1]).to_string()));
                }
            }
            if let Some((x, i, pp)) = base {
                self.emit_raw("Rindexloop", line, vec![(f0, b0, one(&format!("{}for {} in 0..{}.len() ", lab, i, x), &h)), (b0 + 1, b0 + 1, format!(" let {} = &{}[{}]; ", pp, x, i))]);
            }
            if Self::plain(&body) && lab.is_empty() {
                self.emit_raw("Rforeach", line, vec![(f0, b0, one(&format!("::std::iter::IntoIterator::into_iter({}).for_each(|{}| ", ex, pt), &h)), (f1, f1, ");".into())]);
            }
            self.rep("Mskipfirst", &f.expr, format!("::std::iter::IntoIterator::into_iter({}).skip(1)", self.text(&f.expr)));
        }
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        let (l, r) = (self.text(&b.left).to_string(), self.text(&b.right).to_string());
        let line = b.op.span().start().line;
        let (o0, o1) = self.range(b.op.span());
        let m = |v: &mut Self, k: &str, t: &str| v.emit_raw(k, line, vec![(o0, o1, t.to_string())]);
        match b.op {
            BinOp::Lt(_) => {
                self.rep("Rswapcmp", b, format!("(({}) > ({}))", r, l));
                m(self, "Mcmp", "<=");
                m(self, "Mcmp", ">");
            }
            BinOp::Le(_) => {
                self.rep("Rswapcmp", b, format!("(({}) >= ({}))", r, l));
                m(self, "Mcmp", "<");
            }
            BinOp::Gt(_) => {
                self.rep("Rswapcmp", b, format!("(({}) < ({}))", r, l));
                m(self, "Mcmp", ">=");
                m(self, "Mcmp", "<");
            }
            BinOp::Ge(_) => {
                self.rep("Rswapcmp", b, format!("(({}) <= ({}))", r, l));
                m(self, "Mcmp", ">");
            }
            BinOp::Eq(_) => {
                self.rep("Rswapcmp", b, format!("(({}) == ({}))", r, l));
                m(self, "Mcmp", "!=");
            }
            BinOp::Ne(_) => {
                self.rep("Rswapcmp", b, format!("(!(({}) == ({})))", l, r));
                m(self, "Mcmp", "==");
            }
            BinOp::Add(_) => {
                m(self, "Marith", "-");
                self.rep("Rcommute", b, format!("(({}) + ({}))", r, l));
            }
            BinOp::Sub(_) => {
                m(self, "Marith", "+");
                self.rep("Mswapop", b, format!("(({}) - ({}))", r, l));
            }
            BinOp::Mul(_) => {
                m(self, "Marith", "/");
                self.rep("Rcommute", b, format!("(({}) * ({}))", r, l));
            }
            BinOp::Div(_) => {
                m(self, "Marith", "*");
                m(self, "Marith", "%");
                self.rep("Mswapop", b, format!("(({}) / ({}))", r, l));
            }
            BinOp::Rem(_) => {
                m(self, "Marith", "/");
                self.rep("Mswapop", b, format!("(({}) % ({}))", r, l));
            }
            BinOp::And(_) => {
                m(self, "Mlogic", "||");
                self.rep("Mdropand", b, l.clone());
                self.rep("Mdropand", b, r.clone());
            }
            BinOp::Or(_) => {
                m(self, "Mlogic", "&&");
                self.rep("Mdropor", b, l.clone());
                self.rep("Mdropor", b, r.clone());
            }
            BinOp::Shl(_) => m(self, "Marith", ">>"),
            BinOp::Shr(_) => m(self, "Marith", "<<"),
            BinOp::BitAnd(_) => m(self, "Marith", "|"),
            BinOp::BitOr(_) => m(self, "Marith", "&"),
            BinOp::BitXor(_) => m(self, "Marith", "|"),
            BinOp::AddAssign(_) => {
                self.rep("Ropassign", b, format!("{} = {} + ({})", l, l, r));
                m(self, "Marith", "-=");
            }
            BinOp::SubAssign(_) => {
                self.rep("Ropassign", b, format!("{} = {} - ({})", l, l, r));
                m(self, "Marith", "+=");
            }
            _ => {}
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        let e = self.text(&t.expr).to_string();
        if !e.contains("//") {
            if self.ret_is("Result") {
                self.rep("Rquestion", t, format!("(match {} {{ Ok(__v) => __v, Err(__e) => return Err(From::from(__e)) }})", e));
                if let Expr::MethodCall(m) = &*t.expr {
                    let recv = self.text(&m.receiver).to_string();
                    if m.method == "map_err" && m.args.len() == 1 {
                        self.rep("Rmaperr", t, format!("(match {} {{ Ok(__v) => __v, Err(__e) => return Err(From::from(({})(__e))) }})", recv, self.text(&m.args[0])));
                    }
                    if m.method == "ok_or" && m.args.len() == 1 {
                        self.rep("Rokor", t, format!("(match {} {{ Some(__v) => __v, None => return Err(From::from({})) }})", recv, self.text(&m.args[0])));
                    }
                    if m.method == "ok_or_else" && m.args.len() == 1 {
                        self.rep("Rokor", t, format!("(match {} {{ Some(__v) => __v, None => return Err(From::from(({})())) }})", recv, self.text(&m.args[0])));
                    }
                }
            } else if self.ret_is("Option") {
                self.rep("Rquestion", t, format!("(match {} {{ Some(__v) => __v, None => return None }})", e));
            }
        }
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let recv = self.text(&m.receiver).to_string();
        let name = m.method.to_string();
        let cm = self.text(m).contains("//");
        let clos = m.args.first().and_then(|a| match a {
            Expr::Closure(c) if c.inputs.len() == 1 => Some((self.text(&c.inputs[0]).to_string(), self.text(&c.body).to_string(), c.clone())),
            _ => None,
        });
        if !cm {
            if let Some((p, b, _)) = &clos {
                match name.as_str() {
                    "any" => self.rep("Rloop", m, format!("{{ let mut __r = false; for {} in {} {{ if {} {{ __r = true; break; }} }} __r }}", p, recv, b)),
                    "all" => self.rep("Rloop", m, format!("{{ let mut __r = true; for {} in {} {{ if !({}) {{ __r = false; break; }} }} __r }}", p, recv, b)),
                    "for_each" => self.rep("Rloop", m, format!("for {} in {} {{ {} }}", p, recv, b)),
                    _ => {}
                }
            }
            if let Some((p, b, _)) = &clos {
                match name.as_str() {
                    "any" => self.rep("Ranyall", m, format!("(!{}.all(|{}| !({})))", recv, p, b)),
                    "all" => self.rep("Ranyall", m, format!("(!{}.any(|{}| !({})))", recv, p, b)),
                    "find" => self.rep("Riterloop", m, format!("{{ let mut __r = None; for __x in {} {{ let {} = &__x; if {} {{ __r = Some(__x); break; }} }} __r }}", recv, p, b)),
                    "position" => self.rep("Riterloop", m, format!("{{ let mut __r = None; for (__n, {}) in ::std::iter::Iterator::enumerate({}) {{ if {} {{ __r = Some(__n); break; }} }} __r }}", p, recv, b)),
                    "map" if Self::plain(b) => self.rep("Rmapmatch", m, format!("(match {} {{ Some({}) => Some({}), None => None }})", recv, p, b)),
                    "and_then" if Self::plain(b) => self.rep("Rmapmatch", m, format!("(match {} {{ Some({}) => {}, None => None }})", recv, p, b)),
                    "is_some_and" => self.rep("Rmapmatch", m, format!("(match {} {{ Some({}) => {}, None => false }})", recv, p, b)),
                    _ => {}
                }
                if name == "filter_map" && Self::plain(b) {
                    self.rep("Riterloop", m, format!("{{ let mut __v = Vec::new(); for {} in {} {{ if let Some(__y) = {} {{ __v.push(__y); }} }} __v.into_iter() }}", p, recv, b));
                }
                if name == "filter" && Self::plain(b) {
                    self.rep("Riterloop", m, format!("{{ let mut __v = Vec::new(); for __x in {} {{ let {} = &__x; if {} {{ __v.push(__x); }} }} __v.into_iter() }}", recv, p, b));
                }
                if name == "flat_map" && Self::plain(b) {
                    self.rep("Riterloop", m, format!("{{ let mut __v = Vec::new(); for {} in {} {{ for __y in {} {{ __v.push(__y); }} }} __v.into_iter() }}", p, recv, b));
                }
            }
            if name == "unwrap_or_else" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.is_empty() {
                        self.rep("Rmapmatch", m, format!("(match {} {{ Some(__v) => __v, None => {} }})", recv, self.text(&c.body)));
                    }
                }
            }
            if name == "ok_or" && m.args.len() == 1 {
                self.rep("Rmapmatch", m, format!("(match {} {{ Some(__v) => Ok(__v), None => Err({}) }})", recv, self.text(&m.args[0])));
                if let Expr::MethodCall(r) = &*m.receiver {
                    if r.method == "checked_sub" && r.args.len() == 1 {
                        let (x, y) = (self.text(&r.receiver).to_string(), self.text(&r.args[0]).to_string());
                        self.rep("Rchecked", m, format!("(if {} < {} {{ Err({}) }} else {{ Ok({} - {}) }})", x, y, self.text(&m.args[0]), x, y));
                    }
                }
            }
            if name == "sum" && m.args.is_empty() {
                self.rep("Riterloop", m, format!("{{ let mut __s = 0; for __x in {} {{ __s += __x; }} __s }}", recv));
            }
            if name == "count" && m.args.is_empty() {
                self.rep("Riterloop", m, format!("{{ let mut __s = 0usize; for _ in {} {{ __s += 1; }} __s }}", recv));
            }
            if name == "fold" && m.args.len() == 2 {
                if let Expr::Closure(c) = &m.args[1] {
                    if c.inputs.len() == 2 && Self::plain(self.text(&c.body)) {
                        self.rep("Riterloop", m, format!("{{ let mut __acc = {}; for {} in {} {{ let {} = __acc; __acc = {}; }} __acc }}", self.text(&m.args[0]), self.text(&c.inputs[1]), recv, self.text(&c.inputs[0]), self.text(&c.body)));
                    }
                }
            }
            if name == "extend" && m.args.len() == 1 && recv.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') {
                let a = self.text(&m.args[0]).to_string();
                self.rep("Rext", m, format!("for __x in {} {{ {}.push(__x); }}", a, recv));
                self.rep("Rext", m, format!("for __x in {} {{ {}.insert(__x); }}", a, recv));
            }
            if name == "extend_from_slice" && m.args.len() == 1 {
                let a = self.text(&m.args[0]).to_string();
                self.rep("Rext", m, format!("{}.extend(({}).iter().copied())", recv, a));
            }
            if name == "clone" && m.args.is_empty() {
                self.rep("Rclone", m, format!("::std::borrow::ToOwned::to_owned(&{})", recv));
            }
            if name == "collect" {
                if let Expr::MethodCall(r) = &*m.receiver {
                    if r.method == "map" {
                        if let Some(Expr::Closure(c)) = r.args.first() {
                            if c.inputs.len() == 1 && !self.text(&c.body).contains('?') {
                                let s = format!("{{ let mut __v = Vec::new(); for {} in {} {{ __v.push({}); }} __v }}", self.text(&c.inputs[0]), self.text(&r.receiver), self.text(&c.body));
                                self.rep("Rloop", m, s);
                            }
                        }
                    }
                }
            }
            match name.as_str() {
                "is_none" => self.rep("Ridiom", m, format!("!{}.is_some()", recv)),
                "is_some" => self.rep("Ridiom", m, format!("!{}.is_none()", recv)),
                "is_empty" => self.rep("Ridiom", m, format!("({}.len() == 0)", recv)),
                "unwrap_or" if m.args.len() == 1 => self.rep("Ridiom", m, format!("(match {} {{ Some(__v) => __v, None => {} }})", recv, self.text(&m.args[0]))),
                "unwrap_or_default" => self.rep("Ridiom", m, format!("(match {} {{ Some(__v) => __v, None => Default::default() }})", recv)),
                "contains" if m.args.len() == 1 => self.rep("Ridiom", m, format!("{}.iter().any(|__y| __y == {})", recv, self.text(&m.args[0]))),
                "iter" => {}
                _ => {}
            }
        }
        let (n0, n1) = self.range(m.method.span());
        let line = m.method.span().start().line;
        for (a, b) in [("min", "max"), ("max", "min"), ("any", "all"), ("all", "any"), ("first", "last"), ("last", "first"), ("saturating_sub", "wrapping_sub"), ("checked_add", "checked_sub"), ("checked_sub", "checked_add"), ("saturating_add", "wrapping_add"), ("wrapping_add", "wrapping_sub"), ("wrapping_sub", "wrapping_add"), ("skip", "take"), ("take", "skip"), ("is_some", "is_none"), ("is_none", "is_some"), ("wrapping_shl", "wrapping_shr"), ("wrapping_shr", "wrapping_shl"), ("is_ok", "is_err"), ("is_err", "is_ok"), ("chunks", "chunks_exact"), ("from_le_bytes", "from_be_bytes"), ("to_le_bytes", "to_be_bytes"), ("leading_zeros", "trailing_zeros"), ("count_ones", "count_zeros"), ("rotate_left", "rotate_right"), ("rotate_right", "rotate_left"), ("push_back", "push_front"), ("pop_front", "pop_back")] {
            if name == a {
                self.emit_raw("Mmethod", line, vec![(n0, n1, b.to_string())]);
            }
        }
        if ["rev", "skip", "take", "filter", "chain", "skip_while", "take_while", "sorted", "dedup"].contains(&name.as_str()) {
            let (_, r1) = self.range(m.receiver.span());
            let (_, e) = self.range(m.span());
            let old = self.src[r1..e].to_string();
            self.emit_raw("Mdropadapter", line, vec![(r1, e, one("", &old))]);
        }
        if m.args.len() >= 2 {
            for i in 0..m.args.len() - 1 {
                let (a, b) = (self.range(m.args[i].span()), self.range(m.args[i + 1].span()));
                let (x, y) = (self.src[a.0..a.1].to_string(), self.src[b.0..b.1].to_string());
                if x != y {
                    self.emit("Mswapargs", line, vec![(a.0, a.1, y), (b.0, b.1, x)]);
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, m: &'ast ExprCall) {
        let line = m.span().start().line;
        if m.args.len() >= 2 {
            for i in 0..m.args.len() - 1 {
                let (a, b) = (self.range(m.args[i].span()), self.range(m.args[i + 1].span()));
                let (x, y) = (self.src[a.0..a.1].to_string(), self.src[b.0..b.1].to_string());
                if x != y {
                    self.emit("Mswapargs", line, vec![(a.0, a.1, y), (b.0, b.1, x)]);
                }
            }
        }
        visit::visit_expr_call(self, m);
    }
    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        let line = m.span().start().line;
        let hs: Vec<_> = m.arms.iter().flat_map(|a| heads(&a.pat)).collect();
        let mut u = hs.clone();
        u.sort();
        u.dedup();
        let dis = u.len() == hs.len() && m.arms.iter().all(|a| a.guard.is_none() && enum_only(&a.pat));
        if dis && m.arms.len() >= 2 {
            let (a0, _) = self.range(m.arms[0].span());
            let (_, z1) = self.range(m.arms.last().unwrap().span());
            let old = self.src[a0..z1].to_string();
            if !old.contains("//") {
                let mut s = String::new();
                for a in m.arms.iter().rev() {
                    let (x, y) = (self.range(a.pat.span()).0, self.range(a.body.span()).1);
                    s += &self.src[x..y].replace('\n', " ");
                    s += ", ";
                }
                self.emit_raw("Rarms", line, vec![(a0, z1, one(&s, &old))]);
            }
        }
        if m.arms.len() == 2 && m.arms[0].guard.is_none() && matches!(m.arms[1].pat, Pat::Wild(_)) || m.arms.len() == 2 && dis {
            let (m0, m1) = self.range(m.span());
            let old = self.src[m0..m1].to_string();
            if !old.contains("//") && pat_ids(&m.arms[1].pat).is_empty() {
                let s = format!("(if let {} = {} {{ {} }} else {{ {} }})", self.text(&m.arms[0].pat), self.text(&m.expr), self.text(&m.arms[0].body), self.text(&m.arms[1].body));
                self.emit_raw("Rmatchiflet", line, vec![(m0, m1, one(&s, &old))]);
            }
        }
        for i in 0..m.arms.len().saturating_sub(1) {
            let (a, b) = (self.range(m.arms[i].body.span()), self.range(m.arms[i + 1].body.span()));
            let (x, y) = (self.src[a.0..a.1].to_string(), self.src[b.0..b.1].to_string());
            if x != y && !x.contains("//") && !y.contains("//") {
                self.emit_raw("Mswaparms", m.arms[i].span().start().line, vec![(a.0, a.1, one(&y, &x)), (b.0, b.1, one(&x, &y))]);
            }
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_lit(&mut self, l: &'ast Lit) {
        match l {
            Lit::Int(i) => {
                if let Ok(v) = i.base10_parse::<u128>() {
                    let suf = i.suffix().to_string();
                    if v > 2 {
                        for t in ["usize", "u64", "u32", "u8", "u16", "i64", "u128"] {
                            if suf.is_empty() || suf == t {
                                self.rep("Rconst", i, format!("{{ const __K: {} = {}; __K }}", t, v));
                            }
                        }
                    }
                    self.rep("Mconst", i, format!("{}{}", v + 1, suf));
                    if v > 0 {
                        self.rep("Mconst", i, format!("{}{}", v - 1, suf));
                    }
                }
            }
            Lit::Bool(b) => {
                let v = !b.value;
                self.rep("Mbool", b, v.to_string())
            }
            _ => {}
        }
    }
    fn visit_expr_range(&mut self, r: &'ast ExprRange) {
        let (o0, o1) = self.range(r.limits.span());
        let line = r.span().start().line;
        match r.limits {
            RangeLimits::HalfOpen(_) if r.end.is_some() => self.emit_raw("Mrange", line, vec![(o0, o1, "..=".into())]),
            RangeLimits::Closed(_) => self.emit_raw("Mrange", line, vec![(o0, o1, "..".into())]),
            _ => {}
        }
        visit::visit_expr_range(self, r);
    }
    fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
        if b.expr.is_none() {
            self.rep("Mbreak", b, "continue".into());
        }
    }
    fn visit_expr_continue(&mut self, b: &'ast ExprContinue) {
        self.rep("Mbreak", b, "break".into());
    }
    fn visit_expr_struct(&mut self, s: &'ast ExprStruct) {
        let fs: Vec<_> = s.fields.iter().collect();
        for i in 0..fs.len().saturating_sub(1) {
            let (f, g) = (fs[i], fs[i + 1]);
            let t = |f: &FieldValue| format!("{}: ", quote::quote!(#f).to_string().split(':').next().unwrap().trim());
            let (n1, n2) = (t(f), t(g));
            let (e1, e2) = (self.text(&f.expr).to_string(), self.text(&g.expr).to_string());
            if e1 != e2 {
                let (a, b) = (self.range(f.span()), self.range(g.span()));
                self.emit("Mswapfields", f.span().start().line, vec![(a.0, a.1, format!("{}{}", n1, e2)), (b.0, b.1, format!("{}{}", n2, e1))]);
            }
        }
        visit::visit_expr_struct(self, s);
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        let t = self.text(p).to_string();
        if let Some((h, l)) = t.rsplit_once("::") {
            let e = h.rsplit("::").next().unwrap();
            if let Some(vs) = self.enums.get(e) {
                if let Some(k) = vs.iter().position(|x| x == l) {
                    let o = vs[(k + 1) % vs.len()].clone();
                    if o != l {
                        self.rep("Mvariant", p, format!("{}::{}", h, o));
                    }
                }
            }
        } else if let Some(f) = self.fns.last().cloned() {
            if let Some((_, ty)) = f.params.iter().find(|x| x.0 == t) {
                for (o, oty) in &f.params {
                    if o != &t && oty == ty {
                        self.rep("Mparam", p, o.clone());
                    }
                }
            }
        }
    }
}

fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if p.is_dir() {
            if !["target", "tests", "benches", "examples", ".git", "integration", "test-utils"].contains(&n.as_str()) {
                walk(&p, out)
            }
        } else if n.ends_with(".rs") && n != "build.rs" {
            out.push(p)
        }
    }
}

fn main() {
    let root = std::env::args().nth(1).unwrap();
    let mut fs = vec![];
    walk(std::path::Path::new(&root), &mut fs);
    let mut enums: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut asts = vec![];
    for f in &fs {
        let s = std::fs::read_to_string(f).unwrap();
        if let Ok(a) = syn::parse_file(&s) {
            struct E<'b>(&'b mut BTreeMap<String, Vec<String>>);
            impl<'b, 'x> Visit<'x> for E<'b> {
                fn visit_item_enum(&mut self, e: &'x ItemEnum) {
                    let v: Vec<_> = e.variants.iter().filter(|v| matches!(v.fields, Fields::Unit)).map(|v| v.ident.to_string()).collect();
                    if v.len() > 1 {
                        self.0.insert(e.ident.to_string(), v);
                    }
                }
            }
            E(&mut enums).visit_file(&a);
            asts.push((f.clone(), s, a));
        }
    }
    for (f, s, a) in &asts {
        if f.to_string_lossy().contains("/asn-types/") {
            continue;
        }
        let mut lines = vec![0];
        for (i, c) in s.char_indices() {
            if c == '\n' {
                lines.push(i + 1)
            }
        }
        let rel = f.strip_prefix(&root).unwrap().to_string_lossy().to_string();
        let mut v = V { src: s, lines, file: rel.clone(), path: vec![rel.trim_end_matches(".rs").replace('/', "::")], fns: vec![], depth: 0, enums: &enums, n: 0 };
        v.visit_file(a);
    }
}
