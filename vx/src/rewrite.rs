use crate::contracts::{Db, FnSpec};
use crate::edit::{Edits, Piece};
use crate::gen::{self, Types};
use crate::Module;
use proc_macro2::Span as PSpan;
use quote::ToTokens;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

fn r(s: PSpan) -> Range<usize> {
    s.byte_range()
}
fn rr<T: Spanned>(t: &T) -> Range<usize> {
    let s = t.span();
    s.byte_range()
}

/// Normalised text of a type: no spaces, no lifetimes.
pub fn type_name(t: &Type) -> String {
    let s = t.to_token_stream().to_string();
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().map(|c| c.is_alphanumeric() || *c == '_').unwrap_or(false) {
                it.next();
            }
            continue;
        }
        if !c.is_whitespace() {
            out.push(c);
        }
    }
    out.replace("<>", "").replace("<,>", "").replace("<,", "<")
}

#[derive(Clone, Debug)]
pub struct FnInfo {
    pub id: String,
    pub short: String,
    pub parser: Option<String>,
    pub method: bool,
    /// (callee short name, consumed before the call)
    pub calls: Vec<(String, bool)>,
    pub rank: Option<usize>,
}

struct Template {
    text: String,
}

struct Local {
    /// known to hold at least one element
    nonempty: bool,
    name: String,
}

pub struct Rw<'m> {
    tail: String,
    m: &'m Module,
    db: &'m Db,
    ed: Edits,
    fns: &'m BTreeMap<String, FnInfo>,
    used: BTreeSet<String>,
    external: &'m BTreeSet<String>,
    template: &'m Option<Template>,
    report: Vec<serde_json::Value>,
    rewrites: BTreeMap<String, usize>,
    // per function state
    cur: Option<String>,
    ret_ty: String,
    parser: Option<String>,
    spec: FnSpec,
    scopes: Vec<Vec<Local>>,
    inline: Vec<Option<(String, String)>>,
    breaks: Vec<LoopCtx>,
    n: usize,
    nloops: usize,
    remk: Option<usize>,
    rawk: Option<usize>,
    /// closures which are not tests on tokens
    plain_closures: BTreeSet<usize>,
    vlink: String,
    stepname: &'static str,
    selfty: Option<String>,
    ret_cow: bool,
    start_hint: String,
    tymap: &'m Types,
    rec: BTreeSet<String>,
    unsupported: Vec<String>,
}

#[derive(Clone)]
struct LoopCtx {
    /// user label, if any
    label: Option<String>,
    /// (result variable, label) if the loop yields values
    val: Option<(String, String)>,
    barrier: bool,
}

fn is_parser_ty(t: &Type) -> bool {
    if let Type::Reference(r) = t {
        if r.mutability.is_some() {
            if let Type::Path(p) = &*r.elem {
                return p.path.segments.last().map(|s| s.ident == "Parser").unwrap_or(false);
            }
        }
    }
    false
}

fn parser_param(sig: &Signature, self_ty: Option<&str>) -> Option<String> {
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(rc) => {
                if rc.mutability.is_some() && rc.reference.is_some() && self_ty == Some("Parser") {
                    return Some("self".into());
                }
            }
            FnArg::Typed(t) => {
                if is_parser_ty(&t.ty) {
                    if let Pat::Ident(i) = &*t.pat {
                        return Some(i.ident.to_string());
                    }
                }
            }
        }
    }
    None
}

fn has_vx(t: &Type, generics: &BTreeSet<String>, types: &Types) -> bool {
    fn go(t: &gen::Ty, g: &BTreeSet<String>, types: &Types) -> bool {
        match t {
            gen::Ty::Span | gen::Ty::Prim | gen::Ty::Str => true,
            gen::Ty::Vec(t) | gen::Ty::Opt(t) | gen::Ty::Boxed(t) => go(t, g, types),
            gen::Ty::Tuple(v) => v.len() <= 5 && v.iter().all(|t| go(t, g, types)),
            gen::Ty::Named(n) => {
                g.contains(n) || types.contains_key(n) || n == "Token" || n == "Keyword" || n == "Result"
            }
            gen::Ty::Unknown(_) => false,
        }
    }
    if let Type::Reference(r) = t {
        if r.mutability.is_some() {
            return false;
        }
    }
    if let Type::ImplTrait(_) = t {
        return false;
    }
    go(&gen::parse_ty(t), generics, types)
}

fn result_ok(t: &Type) -> Option<&Type> {
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "Result" {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                let v: Vec<_> = a.args.iter().filter_map(|a| if let GenericArgument::Type(t) = a { Some(t) } else { None }).collect();
                if v.len() == 2 && v[1].to_token_stream().to_string().contains("ParseError") {
                    return Some(v[0]);
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------- call graph
struct Calls<'a> {
    parser: String,
    methods: &'a BTreeSet<String>,
    strict: &'a dyn Fn(&str) -> bool,
    out: Vec<(String, bool)>,
    consumed: bool,
}
const CONSUME: &[&str] = &[
    "consume", "next", "consume_keyword", "consume_keywords", "consume_token", "consume_string", "consume_int",
    "consume_float", "consume_plain_identifier", "read_from_stdin_and_next",
];
impl<'a> Calls<'a> {
    fn is_skip(e: &Expr) -> bool {
        let s = e.to_token_stream().to_string();
        s.contains("skip_keyword") || s.contains("skip_token")
    }
    fn block(&mut self, b: &Block) {
        for s in &b.stmts {
            match s {
                Stmt::Local(l) => {
                    if let Some(i) = &l.init {
                        self.expr(&i.expr);
                        if let Some((_, d)) = &i.diverge {
                            let c = self.consumed;
                            self.expr(d);
                            self.consumed = c;
                        }
                    }
                }
                Stmt::Expr(e, _) => self.expr(e),
                _ => {}
            }
        }
    }
    fn expr(&mut self, e: &Expr) {
        match e {
            Expr::Block(b) => self.block(&b.block),
            Expr::If(i) => {
                self.expr(&i.cond);
                let c = self.consumed;
                let neg = i.cond.to_token_stream().to_string().contains("is_none");
                if Self::is_skip(&i.cond) && !neg {
                    self.consumed = true;
                }
                self.block(&i.then_branch);
                let c1 = self.consumed;
                self.consumed = c || (neg && Self::is_skip(&i.cond));
                if let Some((_, e)) = &i.else_branch {
                    self.expr(e);
                }
                self.consumed = self.consumed && c1;
            }
            Expr::Match(m) => {
                self.expr(&m.expr);
                let c = self.consumed;
                let mut all = true;
                for a in &m.arms {
                    self.consumed = c;
                    if let Some((_, g)) = &a.guard {
                        self.expr(g);
                    }
                    self.expr(&a.body);
                    let div = matches!(&*a.body, Expr::Break(_) | Expr::Return(_) | Expr::Continue(_))
                        || a.body.to_token_stream().to_string().contains("expected_failure");
                    all &= self.consumed || div;
                }
                self.consumed = all;
            }
            Expr::Loop(l) => {
                self.block(&l.body);
            }
            Expr::While(w) => {
                self.expr(&w.cond);
                let c = self.consumed;
                if Self::is_skip(&w.cond) {
                    self.consumed = true;
                }
                self.block(&w.body);
                self.consumed = c;
            }
            Expr::ForLoop(w) => {
                self.expr(&w.expr);
                let c = self.consumed;
                self.block(&w.body);
                self.consumed = c;
            }
            Expr::Closure(c) => {
                let k = self.consumed;
                self.expr(&c.body);
                self.consumed = k;
            }
            Expr::MethodCall(m) => {
                self.expr(&m.receiver);
                let name = m.method.to_string();
                for a in &m.args {
                    self.expr(a);
                }
                let rcv = m.receiver.to_token_stream().to_string();
                if rcv == self.parser {
                    if self.methods.contains(&name) {
                        self.out.push((name.clone(), self.consumed));
                    }
                    if CONSUME.contains(&name.as_str()) {
                        self.consumed = true;
                    }
                }
            }
            Expr::Call(c) => {
                for a in &c.args {
                    self.expr(a);
                }
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let passes = c.args.iter().any(|a| a.to_token_stream().to_string() == self.parser);
                    if passes {
                        self.out.push((n.clone(), self.consumed));
                        if (self.strict)(&n) {
                            self.consumed = true;
                        }
                    }
                }
            }
            Expr::Assign(a) => {
                self.expr(&a.right);
            }
            _ => {
                // generic recursion in textual order
                struct Sub<'x, 'y>(&'x mut Calls<'y>, bool);
                impl<'x, 'y, 'ast> Visit<'ast> for Sub<'x, 'y> {
                    fn visit_expr(&mut self, e: &'ast Expr) {
                        if self.1 {
                            self.1 = false;
                            visit::visit_expr(self, e);
                        } else {
                            self.0.expr(e);
                        }
                    }
                }
                let mut s = Sub(self, true);
                s.visit_expr(e);
            }
        }
    }
}

fn all_fns(mods: &[Module], db: &Db) -> BTreeMap<String, FnInfo> {
    let mut methods = BTreeSet::new();
    let mut list: Vec<(String, String, Option<String>, bool, Block, Signature)> = vec![];
    for m in mods {
        for it in &m.file.items {
            match it {
                Item::Fn(f) => {
                    let n = f.sig.ident.to_string();
                    list.push((format!("{}::{}", m.name, n), n, parser_param(&f.sig, None), false, (*f.block).clone(), f.sig.clone()));
                }
                Item::Impl(i) if i.trait_.is_none() => {
                    let t = type_name(&i.self_ty);
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            let n = f.sig.ident.to_string();
                            if t == "Parser" {
                                methods.insert(n.clone());
                            }
                            list.push((format!("{}::{}::{}", m.name, t, n), n, parser_param(&f.sig, Some(&t)), true, f.block.clone(), f.sig.clone()));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let strict_set: BTreeSet<String> = list
        .iter()
        .filter(|(id, n, p, _, _, sig)| {
            p.is_some()
                && db.fns.get(id).and_then(|s| s.strict).unwrap_or_else(|| default_strict(n, sig))
                && matches!(&sig.output, ReturnType::Type(_, t) if result_ok(t).map(|t| !type_name(t).starts_with("Option") && !type_name(t).starts_with("Vec")).unwrap_or(false))
        })
        .map(|x| x.1.clone())
        .collect();
    let mut out = BTreeMap::new();
    for (id, n, p, meth, b, _) in &list {
        let mut calls = vec![];
        if let Some(p) = p {
            let st = |x: &str| strict_set.contains(x);
            let mut c = Calls { parser: p.clone(), methods: &methods, strict: &st, out: vec![], consumed: false };
            c.block(b);
            calls = c.out;
        }
        out.insert(id.clone(), FnInfo { id: id.clone(), short: n.clone(), parser: p.clone(), method: *meth, calls, rank: None });
    }
    // SCCs by reachability on short names (unique among parser functions; duplicates are merged conservatively)
    let mut adj: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut adj0: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let known: BTreeSet<String> = out.values().filter(|f| f.parser.is_some()).map(|f| f.short.clone()).collect();
    for f in out.values().filter(|f| f.parser.is_some()) {
        for (c, consumed) in &f.calls {
            if known.contains(c) {
                adj.entry(f.short.clone()).or_default().insert(c.clone());
                if !consumed {
                    adj0.entry(f.short.clone()).or_default().insert(c.clone());
                }
            }
        }
    }
    let reach = |s: &str| {
        let mut seen = BTreeSet::new();
        let mut st = vec![s.to_string()];
        while let Some(x) = st.pop() {
            for y in adj.get(&x).into_iter().flatten() {
                if seen.insert(y.clone()) {
                    st.push(y.clone());
                }
            }
        }
        seen
    };
    let rec: BTreeSet<String> = known.iter().filter(|n| reach(n).contains(*n)).cloned().collect();
    fn rank(n: &str, adj0: &BTreeMap<String, BTreeSet<String>>, rec: &BTreeSet<String>, memo: &mut BTreeMap<String, usize>, stack: &mut Vec<String>) -> usize {
        if let Some(r) = memo.get(n) {
            return *r;
        }
        if stack.iter().any(|x| x == n) {
            if std::env::var("VX_DEBUG").is_ok() {
                eprintln!("non-consuming cycle: {:?} -> {}", stack, n);
            }
            return 0;
        }
        stack.push(n.to_string());
        let mut m = 0;
        for c in adj0.get(n).into_iter().flatten() {
            if rec.contains(c) {
                m = m.max(1 + rank(c, adj0, rec, memo, stack));
            }
        }
        stack.pop();
        memo.insert(n.to_string(), m);
        m
    }
    let mut memo = BTreeMap::new();
    for f in out.values_mut() {
        if f.parser.is_some() && rec.contains(&f.short) {
            f.rank = Some(rank(&f.short.clone(), &adj0, &rec, &mut memo, &mut vec![]));
        }
    }
    out
}

/// the result holds something that was read
fn produced(x: &str, t: &Type) -> String {
    let n = type_name(t);
    if let Some(ok) = result_ok(t) {
        return format!("({x} is Ok && {})", produced(&format!("{x}->Ok_0"), ok));
    }
    if n.starts_with("Option<") { format!("{x} is Some") } else if n.starts_with("Vec<") { format!("{x}@.len() > 0") } else { "true".into() }
}
fn default_strict(name: &str, sig: &Signature) -> bool {
    name.starts_with("parse_") && matches!(&sig.output, ReturnType::Type(_, t) if result_ok(t).is_some())
}

// ---------------------------------------------------------------- recovered template
struct Tmpl<'a> {
    ed: Edits,
    fun: String,
    end: String,
    expected: String,
    tparam: Option<String>,
    _p: std::marker::PhantomData<&'a ()>,
    ok: bool,
}
impl<'a> Tmpl<'a> {
    fn tokens(&mut self, ts: proc_macro2::TokenStream) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()),
                proc_macro2::TokenTree::Ident(i) => {
                    let n = i.to_string();
                    let by = if n == "self" { "@@RECV@@" } else if n == self.end { "@@END@@" } else if n == self.expected { "@@EXP@@" } else { continue };
                    self.ed.text(i.span().byte_range(), by);
                }
                _ => {}
            }
        }
    }
}
impl<'a, 'ast> Visit<'ast> for Tmpl<'a> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.tokens(m.tokens.clone());
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Path(p) => {
                if p.path.is_ident("self") {
                    self.ed.text(rr(e), "@@RECV@@");
                } else if p.path.is_ident(&self.end) {
                    self.ed.text(rr(e), "@@END@@");
                } else if p.path.is_ident(&self.expected) {
                    self.ed.text(rr(e), "@@EXP@@");
                }
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let t = p.path.to_token_stream().to_string().replace(' ', "");
                    if c.args.is_empty() && (t == "Default::default" || self.tparam.as_ref().map(|x| t == format!("{x}::default")) == Some(true)) {
                        self.ed.text(rr(e), "crate::vx::VxDefault::vx_default(Ghost(crate::vx::src(*@@RECV@@)))");
                        return;
                    }
                    if p.path.is_ident(&self.fun) {
                        if c.args.len() == 1 && c.args[0].to_token_stream().to_string() == "self" {
                            self.ed.text(rr(e), "@@FUN@@");
                        } else {
                            self.ok = false;
                        }
                        return;
                    }
                }
            }
            Expr::Try(t) => {
                let inner = rr(&t.expr);
                self.ed.replace(
                    rr(e),
                    vec![
                        Piece::T("(match ".into()),
                        Piece::S(inner.start, inner.end),
                        Piece::T(" { Ok(vx_v) => vx_v, Err(vx_e) => { @@RES@@ = Err(vx_e); break @@LBL@@; } })".into()),
                    ],
                );
            }
            Expr::Return(t) => {
                if let Some(x) = &t.expr {
                    let i = rr(x);
                    self.ed.replace(rr(e), vec![Piece::T("{ @@RES@@ = ".into()), Piece::S(i.start, i.end), Piece::T("; break @@LBL@@; }".into())]);
                }
            }
            Expr::Closure(c) => {
                for (i, p) in c.inputs.iter().enumerate() {
                    if matches!(p, Pat::Wild(_)) {
                        self.ed.text(rr(p), format!("_vx{}: &crate::lexer::Token<'_>", i));
                    }
                }
            }
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => self.ok = false,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

fn make_template(mods: &[Module]) -> Option<Template> {
    for m in mods {
        for it in &m.file.items {
            if let Item::Impl(i) = it {
                if type_name(&i.self_ty) != "Parser" {
                    continue;
                }
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        if f.sig.ident == "recovered" {
                            let names: Vec<String> = f
                                .sig
                                .inputs
                                .iter()
                                .filter_map(|a| if let FnArg::Typed(t) = a { Some(t.pat.to_token_stream().to_string()) } else { None })
                                .collect();
                            if names.len() != 3 {
                                return None;
                            }
                            let tparam = f.sig.generics.type_params().next().map(|t| t.ident.to_string());
                            let mut t = Tmpl {
                                ed: Edits::default(),
                                expected: names[0].clone(),
                                end: names[1].clone(),
                                fun: names[2].clone(),
                                tparam,
                                _p: Default::default(),
                                ok: true,
                            };
                            t.visit_block(&f.block);
                            if !t.ok {
                                return None;
                            }
                            let body = rr(&f.block);
                            // tail expression
                            if let Some(Stmt::Expr(tail, None)) = f.block.stmts.last() {
                                let q = rr(tail);
                                t.ed.replace(q.clone(), vec![Piece::T("@@RES@@ = ".into()), Piece::S(q.start, q.end), Piece::T("; break @@LBL@@;".into())]);
                                // outer edits must come first
                                let last = t.ed.v.len() - 1;
                                t.ed.v[last].idx = 0;
                                for (k, e) in t.ed.v.iter_mut().enumerate() {
                                    if k != last {
                                        e.idx += 1;
                                    }
                                }
                            }
                            let full = t.ed.render_range(&m.src, body.start + 1, body.end - 1);
                            return Some(Template { text: full });
                        }
                    }
                }
            }
        }
    }
    None
}

/// names assigned to in a block
fn assigned(b: &Block) -> BTreeSet<String> {
    struct A(BTreeSet<String>);
    const MODE: [&str; 3] = ["delimiter", "permit_compound_statements", "options"];
impl<'ast> Visit<'ast> for A {
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
            if let Expr::Path(p) = &*a.left {
                if let Some(i) = p.path.get_ident() {
                    self.0.insert(i.to_string());
                }
            }
            visit::visit_expr_assign(self, a);
        }
    }
    let mut v = A(BTreeSet::new());
    v.visit_block(b);
    v.0
}
/// names of the types whose values the body constructs
fn built_types(b: &Block) -> BTreeSet<String> {
    struct B(BTreeSet<String>);
    impl<'ast> Visit<'ast> for B {
        fn visit_path(&mut self, p: &'ast syn::Path) {
            p.segments.iter().for_each(|s| {
                self.0.insert(s.ident.to_string());
            });
            visit::visit_path(self, p);
        }
    }
    let mut v = B(BTreeSet::new());
    v.visit_block(b);
    v.0
}
// ---------------------------------------------------------------- main rewriting
impl<'m> Rw<'m> {
    fn count(&mut self, k: &str) {
        *self.rewrites.entry(k.to_string()).or_default() += 1;
    }
    fn make_pub(&mut self, vis: &Visibility, at: usize) {
        match vis {
            Visibility::Inherited => self.ed.insert(at, "pub "),
            Visibility::Restricted(v) => self.ed.text(rr(v), "pub"),
            _ => {}
        }
    }
    fn attrs(&mut self, attrs: &[Attribute], name: &str) {
        for a in attrs {
            if a.path().is_ident("derive") {
                let ext = !matches!(name, "Keyword" | "Token" | "ParseError" | "Level");
                if name == "Token" {
                    self.ed.text(rr(a), "");
                } else if name == "Keyword" {
                    self.ed.text(rr(a), "");
                } else if name == "Level" {
                    self.ed.text(rr(a), "#[derive(Clone, Copy, PartialEq, Eq, Debug)]");
                } else if ext {
                    let e = rr(a).end;
                    self.ed.insert(e, " #[verifier::external_derive]");
                }
            } else if a.path().is_ident("doc") && matches!(a.style, AttrStyle::Inner(_)) {
                self.ed.text(rr(a), "");
            } else if a.path().is_ident("default") || a.path().is_ident("allow") {
                if name == "Keyword" {
                    self.ed.text(rr(a), "");
                }
            }
        }
    }
    fn count_key(&mut self, k: &str) -> bool {
        let c = self.rewrites.entry(format!("_{}", k)).or_default();
        *c += 1;
        *c > 1
    }

    fn item(&mut self, it: &Item) {
        match it {
            Item::Mod(m) => {
                if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("cfg (sql_parse_verif)")) {
                    self.ed.text(rr(m), "");
                    self.count("R2 verification hook module dropped (cfg off)");
                } else if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("cfg (test)")) {
                    self.ed.text(rr(m), "");
                    self.count("R2 test module dropped");
                }
            }
            Item::Use(u) => {
                let t = u.to_token_stream().to_string();
                if self.m.name == "keywords" && (t.contains("prelude") || t.contains("std")) {
                    self.ed.text(rr(u), "");
                }
                if let Visibility::Restricted(v) = &u.vis {
                    self.ed.text(rr(v), "pub");
                }
            }
            Item::ExternCrate(u) => {
                self.ed.text(rr(u), "");
            }
            Item::Struct(s) => {
                self.attrs(&s.attrs, &s.ident.to_string());
                self.make_pub(&s.vis, rr(&s.struct_token).start);
                for f in &s.fields {
                    let at = f.ident.as_ref().map(|i| rr(i).start).unwrap_or(rr(&f.ty).start);
                    self.make_pub(&f.vis, at);
                    self.ty(&f.ty);
                }
                if let Fields::Named(n) = &s.fields {
                    let at = rr(&n.brace_token.span.close()).start;
                    for (t, f, ty, _) in self.db.ghosts.clone() {
                        if s.ident == t {
                            let comma = if n.named.trailing_punct() || n.named.is_empty() { "" } else { ", " };
                            self.ed.insert(at, format!("{comma}pub {f}: {ty}, "));
                            self.count("R31 ghost field added to a struct");
                        }
                    }
                }
            }
            Item::Enum(s) => {
                self.attrs(&s.attrs, &s.ident.to_string());
                if s.ident == "Keyword" {
                    let at = rr(&s.vis).start.min(rr(&s.enum_token).start);
                    self.ed.insert(if matches!(s.vis, Visibility::Inherited) { rr(&s.enum_token).start } else { at }, "#[derive(Clone, Copy, PartialEq, Eq, Debug)] ");
                }
                for v in &s.variants {
                    self.attrs(&v.attrs, &s.ident.to_string());
                }
                self.make_pub(&s.vis, rr(&s.enum_token).start);
            }
            Item::Type(s) => self.make_pub(&s.vis, rr(&s.type_token).start),
            Item::Const(c) => {
                self.make_pub(&c.vis, rr(&c.const_token).start);
                self.const_ty(&c.ty);
            }
            Item::Fn(f) => {
                let id = format!("{}::{}", self.m.name, f.sig.ident);
                let at = sig_start(&f.sig);
                let start = f.attrs.iter().find(|a| matches!(a.style, AttrStyle::Outer)).map(|a| rr(a).start).unwrap_or(rr(&f.vis).start.min(at));
                let start = if matches!(f.vis, Visibility::Inherited) && f.attrs.is_empty() { at } else { start };
                self.func(&id, &f.sig, Some(&f.block), start, None, &f.attrs, false);
                self.make_pub(&f.vis, at);
            }
            Item::Impl(i) => self.impl_(i),
            Item::Trait(t) => self.trait_(t),
            Item::Macro(m) => {
                self.ed.text(rr(m), "");
                self.unsupported.push(format!("{}: item macro dropped", self.m.name));
            }
            _ => {}
        }
    }

    fn impl_(&mut self, i: &ItemImpl) {
        let t = type_name(&i.self_ty);
        match &i.trait_ {
            None => {
                for x in &i.items {
                    match x {
                        ImplItem::Fn(f) => {
                            let id = format!("{}::{}::{}", self.m.name, t, f.sig.ident);
                            let at = sig_start(&f.sig);
                            let start = if f.attrs.is_empty() {
                                if matches!(f.vis, Visibility::Inherited) { at } else { rr(&f.vis).start }
                            } else {
                                rr(&f.attrs[0]).start
                            };
                            self.func(&id, &f.sig, Some(&f.block), start, Some(&t), &f.attrs, false);
                            self.make_pub(&f.vis, at);
                        }
                        ImplItem::Const(c) => self.const_ty(&c.ty),
                        _ => {}
                    }
                }
            }
            Some((_, tr, _)) => {
                let trn = tr.segments.last().unwrap().ident.to_string();
                let key = format!("{}::{}[{}]", self.m.name, trn, t);
                let derived = i.attrs.iter().any(|a| a.path().is_ident("automatically_derived"));
                if derived || ["Display", "Iterator", "StructuralPartialEq"].contains(&trn.as_str()) {
                    if trn == "Display" && t.split('<').next() == Some("Issues") && self.db.tags.contains("wf") && !self.db.tags.contains("lite") {
                        if let Some(ImplItem::Fn(f)) = i.items.first() {
                            let id = format!("{}::{}", key, f.sig.ident);
                            if i.items.len() == 1 && renders_plainly(&f.block) && !self.external.contains(&id) {
                                // R35: the rendering of issues is verified as an inherent method
                                self.begin_fn(&id, &f.sig, &self.db.fns.get(&id).cloned().unwrap_or_default(), None);
                                self.visit_block(&f.block);
                                self.cur = None;
                                let b = rr(&f.block);
                                let body = self.ed.render_range(&self.m.src, b.start, b.end);
                                let body = body.replacen('{', "{ broadcast use crate::vx::l_issue_at, crate::vx::l_frag_at, crate::vx::l_issue_span, crate::vx::b_bnd0; ", 1);
                                self.ed.v.retain(|e| !(e.s >= b.start && e.e <= b.end));
                                let gens = i.generics.to_token_stream().to_string();
                                let selfty = i.self_ty.to_token_stream().to_string();
                                self.ed.insert(rr(i).end, format!(
                                    "\nimpl{gens} {selfty} {{ #[verifier::loop_isolation(false)] pub fn vx_Display_fmt(&self) -> (r: core::result::Result<(), crate::vx::VxFmtErr>)\n  requires crate::vx::issues_ok(*self)\n/*vx:body*/ {body} }}\n"));
                                self.count("R35 Display for Issues verified as inherent method, writing is opaque");
                                self.ed.text(rr(i), "");
                                self.used.insert(id.clone());
                                self.report.push(json!({
                                    "id": id, "status": "verified", "uniform": false, "specific": true,
                                    "module": self.m.name, "name": "vx_Display_fmt", "line": f.sig.ident.span().start().line,
                                }));
                                return;
                            }
                        }
                    }
                    self.ed.text(rr(i), "");
                    if !derived {
                        self.count(&format!("R0 impl dropped: {} for {}", trn, t));
                        self.report.push(json!({"id": key, "status": "dropped"}));
                    }
                    return;
                }
                if let Some(s) = self.db.impls.get(&key).or(self.db.impls.get(&format!("{}[*]", trn))) {
                    let at = rr(&i.brace_token.span.open()).end;
                    self.ed.insert(at, format!("\n{}", s));
                }
                let split = self.db.split.contains(&trn) && (self.tymap.contains_key(t.split('<').next().unwrap_or("")));
                for x in &i.items {
                    if let (true, ImplItem::Fn(f)) = (split, x) {
                        // R23: the body moves to an inherent method carrying the trait's contract; the trait method keeps only
                        // the contract (otherwise Verus rejects the recursion between trait impls)
                        let id = format!("{}::{}", key, f.sig.ident);
                        let tid = self.db.fns.keys().find(|k| k.ends_with(&format!("::{}::{}", trn, f.sig.ident))).cloned();
                        let tspec = tid.and_then(|t| self.db.fns.get(&t).cloned()).unwrap_or_default();
                        let b = rr(&f.block);
                        let st = sig_start(&f.sig);
                        for a in &f.attrs {
                            self.ed.text(rr(a), "");
                        }
                        self.ed.insert(st, "#[verifier::external_body] ");
                        // visit body under the inherent method's identity
                        self.begin_fn(&id, &f.sig, &self.db.fns.get(&id).cloned().unwrap_or_default(), None);
                        self.visit_block(&f.block);
                        self.cur = None;
                        let elsewhere = self.db.tags.contains("lite");
                        let external = self.external.contains(&id) || elsewhere;
                        let body = self.ed.render_range(&self.m.src, b.start, b.end);
                        let body = body.replacen('{', &format!("{{ broadcast use crate::vx::b_mono, crate::vx::parts_{0}, crate::vx::pin_{0};", t.split('<').next().unwrap_or("")), 1);
                        self.ed.v.retain(|e| !(e.s >= b.start && e.e <= b.end));
                        self.ed.text(b.clone(), "{ unimplemented!() }");
                        let gens = i.generics.to_token_stream().to_string();
                        let selfty = i.self_ty.to_token_stream().to_string();
                        let ret = tspec.ret.clone().unwrap_or("vxr".into());
                        let rt = match &f.sig.output { ReturnType::Type(_, t) => t.to_token_stream().to_string(), _ => "()".into() };
                        let end = rr(i).end;
                        let own = self.db.fns.get(&id).cloned().unwrap_or_default();
                        self.used.insert(id.clone());
                        self.ed.insert(end, format!(
                            "\nimpl{gens} {selfty} {{ {}#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] {}pub fn vx_{}_{}(&self) -> ({ret}: {rt})\n{}{}  ensures\n{}{}/*vx:body*/ {body} }}\n",
                            if external { "#[verifier::external_body] " } else { "" }, own.attrs, trn, f.sig.ident,
                            if tspec.requires.trim().is_empty() { "" } else { "  requires\n" }, tspec.requires, tspec.ensures, own.ensures));
                        self.count("R23 recursive trait impl body verified as inherent method");
                        self.report.push(json!({
                            "id": id, "status": if elsewhere { "verified in the slice wf" } else if external { "trusted" } else { "verified" }, "uniform": false, "specific": true,
                            "module": self.m.name, "name": format!("vx_{}_{}", trn, f.sig.ident), "line": f.sig.ident.span().start().line,
                        }));
                        continue;
                    }
                    if let ImplItem::Fn(f) = x {
                        let id = format!("{}::{}", key, f.sig.ident);
                        let start = if f.attrs.is_empty() { sig_start(&f.sig) } else { rr(&f.attrs[0]).start };
                        self.func(&id, &f.sig, Some(&f.block), start, Some(&t), &f.attrs, true);
                    }
                }
            }
        }
    }

    fn trait_(&mut self, t: &ItemTrait) {
        let tn = t.ident.to_string();
        self.make_pub(&t.vis, rr(&t.trait_token).start);
        let mut ext: Vec<Piece> = vec![];
        if self.db.traits.contains_key(&format!("{}.super", tn)) {
            let s = self.db.traits[&format!("{}.super", tn)].trim().to_string();
            let at = rr(&t.ident).end;
            self.ed.insert(at, if t.colon_token.is_some() { String::new() } else { format!(": {}", s) });
        }
        if let Some(s) = self.db.traits.get(&tn) {
            let at = rr(&t.brace_token.span.open()).end;
            self.ed.insert(at, format!("\n{}", s));
        }
        for x in &t.items {
            if let TraitItem::Fn(f) = x {
                let id = format!("{}::{}::{}", self.m.name, tn, f.sig.ident);
                let whole = rr(f);
                if f.default.is_some() && f.sig.inputs.iter().any(|a| a.to_token_stream().to_string().contains("impl ")) {
                    // R6: default method with generic argument -> extension trait with blanket impl
                    self.count("R6 generic default method moved to a blanket extension trait");
                    self.func(&id, &f.sig, f.default.as_ref(), sig_start(&f.sig), Some(&tn), &f.attrs, false);
                    self.ed.replace(whole.clone(), vec![]);
                    let last = self.ed.v.len() - 1;
                    let _ = last;
                    ext.push(Piece::S(whole.start, whole.end));
                    ext.push(Piece::T("\n".into()));
                } else {
                    self.func(&id, &f.sig, f.default.as_ref(), whole.start, Some(&tn), &f.attrs, true);
                }
            }
        }
        if !ext.is_empty() {
            // render the moved functions, then strip them from the trait
            let mut decl = String::new();
            let mut body = String::new();
            for x in &t.items {
                if let TraitItem::Fn(f) = x {
                    if f.default.is_some() && f.sig.inputs.iter().any(|a| a.to_token_stream().to_string().contains("impl ")) {
                        let w = rr(f);
                        let b = rr(f.default.as_ref().unwrap());
                        // temporarily render without the removal edit
                        let (rem, keep): (Vec<_>, Vec<_>) = std::mem::take(&mut self.ed.v).into_iter().partition(|e| e.s == w.start && e.e == w.end && e.pieces.is_empty());
                        self.ed.v = keep;
                        let sig = self.ed.render_range(&self.m.src, w.start, b.start);
                        let bod = self.ed.render_range(&self.m.src, b.start, b.end);
                        self.ed.v.extend(rem);
                        let sig = sig.replace("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] ", "");
                        let exb = sig.contains("#[verifier::external_body] ");
                        let sig = sig.replace("#[verifier::external_body] ", "");
                        decl.push_str(&format!("{};\n", sig.trim_end().trim_end_matches(',')));
                        let plain = format!("{}{}", if exb { "#[verifier::external_body] " } else { "" }, strip_spec(&sig));
                        // the impl inherits the clauses of the declaration
                        let bod = match bod.find("/*vx:body*/") {
                            Some(i) => bod[i..].to_string(),
                            None => bod,
                        };
                        body.push_str(&format!("{} {}\n", plain, bod));
                    }
                }
            }
            let sup = self.db.traits.get(&format!("{}.super", tn)).map(|s| format!(" + {}", s.trim())).unwrap_or_default();
            let at = rr(t).end;
            self.ed.insert(
                at,
                format!("\npub trait {tn}Ext: {tn} {{\n{decl}\n}}\nimpl<VxT: {tn}{sup}> {tn}Ext for VxT {{\n{body}\n}}\n"),
            );
        }
    }

    fn const_ty(&mut self, t: &Type) {
        if let Type::Reference(rf) = t {
            if rf.lifetime.is_none() {
                let e = rr(&rf.and_token).end;
                self.ed.insert(e, "'static ");
                self.count("R11 'static made explicit on const");
            }
        }
    }

    fn ty(&mut self, t: &Type) {
        let s = t.to_token_stream().to_string().replace(' ', "");
        if s.contains("Peekable<core::str::CharIndices<'a>>") || s.contains("Peekable<CharIndices<'a>>") {
            self.ed.text(rr(t), "crate::vx::VxChars<'a>");
            self.count("R10 Peekable<CharIndices> replaced by specified wrapper");
        }
    }

    fn func(&mut self, id: &str, sig: &Signature, block: Option<&Block>, start: usize, self_ty: Option<&str>, attrs: &[Attribute], in_trait: bool) {
        let spec = self.db.fns.get(id).cloned().unwrap_or_default();
        if self.db.fns.contains_key(id) {
            self.used.insert(id.to_string());
        }
        let info = self.fns.get(id);
        let pname = parser_param(sig, self_ty);
        for a in attrs {
            let t = a.to_token_stream().to_string();
            if t.contains("inline") || t.contains("allow") || t.contains("must_use") {
                self.ed.text(rr(a), "");
            }
        }
        let ext = spec.external || self.external.contains(id);
        let has_recovered_param = sig.ident == "recovered" && self_ty == Some("Parser");
        if has_recovered_param {
            self.ed.insert(start, "#[verifier::external] ");
            self.report.push(json!({"id": id, "status": "inlined at every call (R5)"}));
            return;
        }
        if spec.external && !self.external.contains(id) {
            self.ed.insert(start, "#[verifier::external] ");
            self.report.push(json!({"id": id, "status": "dropped"}));
            return;
        }
        // the slice that looks for marks of failure leaves the bodies of span computations to the other slices
        let elsewhere = block.is_some() && self.db.tags.contains("lite") && (id.contains("Spanned[") || id.contains("Spanned::") || id.starts_with("span::"));
        let trusted = spec.external_body || ext || elsewhere;
        let mut pre = String::new();
        if trusted {
            pre.push_str("#[verifier::external_body] ");
        }
        if block.is_some() {
            pre.push_str("#[verifier::loop_isolation(false)] ");
            if spec.cut.is_none() && spec.armcut.is_none() {
                pre.push_str("#[verifier::allow_complex_invariants] ");
            }
            pre.push_str(&spec.attrs);
        }
        self.ed.insert(start, pre);

        // generics usable by Vx
        let gens: BTreeSet<String> = sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        if pname.is_some() && !spec.no_uniform {
            for tp in sig.generics.type_params() {
                let e = rr(tp).end;
                self.ed.insert(e, if tp.colon_token.is_some() { " + crate::vx::Vx" } else { ": crate::vx::Vx" });
                self.count("R15 Vx bound added to generic parameter");
            }
        }
        let mut req = String::new();
        let mut ens = String::new();
        let mut dec = String::new();
        let mut uniform = false;
        let (mut vargs, mut vouts, mut vret, mut vstart, mut vlink): (Vec<String>, Vec<String>, bool, String, String) = Default::default();
        // return
        let mut has_ret = false;
        if let ReturnType::Type(_, t) = &sig.output {
            has_ret = true;
            let name = spec.ret.clone().unwrap_or("vxr".into());
            let q = rr(&**t);
            if !(in_trait && spec.ensures.is_empty() && spec.ret.is_none()) && !sig.constness.is_some() || !spec.ensures.is_empty() {
                self.ed.replace(q.clone(), vec![Piece::T(format!("({}: ", name)), Piece::S(q.start, q.end), Piece::T(")".into())]);
            }
        }
        let retname = spec.ret.clone().unwrap_or("vxr".into());
        if let Some(p) = &pname {
            if !spec.no_uniform {
                uniform = true;
                if spec.weak {
                    req.push_str(&format!("    crate::vx::invw(*old({p})),\n"));
                    ens.push_str(&format!("    crate::vx::stepw(*old({p}), *final({p})),\n    crate::vx::inv(*old({p})) ==> crate::vx::inv(*final({p})),\n"));
                } else {
                    req.push_str(&format!("    crate::vx::inv(*old({p})),\n"));
                    ens.push_str(&format!("    crate::vx::{}(*old({p}), *final({p})),\n", if spec.free_mode { "stepx" } else { "step" }));
                }
                if self.db.tags.contains("args") && !spec.free_args {
                    ens.push_str(&format!("    crate::vx::argstep(*old({p}), *final({p})),\n"));
                }
                let clean = self.db.tags.contains("clean");
                for a in sig.inputs.iter().filter(|_| self.db.tags.contains("wf") || self.db.tags.contains("names") || clean) {
                    if let FnArg::Typed(t) = a {
                        if is_parser_ty(&t.ty) {
                            continue;
                        }
                        if let (Pat::Ident(i), true) = (&*t.pat, has_vx(&t.ty, &gens, self.tymap)) {
                            let nm = i.ident.to_string();
                            if clean {
                                vargs.push(nm);
                            } else {
                                req.push_str(&format!("    crate::vx::Vx::vwf(&{}, crate::vx::src(*old({p}))),\n", nm));
                            }
                        }
                        if let (Pat::Ident(i), Type::Reference(rf)) = (&*t.pat, &*t.ty) {
                            if rf.mutability.is_some() && has_vx(&rf.elem, &gens, self.tymap) {
                                let nm = i.ident.to_string();
                                if clean {
                                    vouts.push(nm);
                                } else {
                                    req.push_str(&format!("    crate::vx::Vx::vwf(&*old({nm}), crate::vx::src(*old({p}))),\n"));
                                    ens.push_str(&format!("    crate::vx::Vx::vwf(&*final({nm}), crate::vx::src(*old({p}))),\n"));
                                }
                            }
                        }
                    }
                }
                if let ReturnType::Type(_, t) = &sig.output {
                    if !spec.no_ret && has_vx(t, &gens, self.tymap) {
                        if self.db.tags.contains("wf") || self.db.tags.contains("names") {
                            ens.push_str(&format!("    crate::vx::Vx::vwf(&{retname}, crate::vx::src(*old({p}))),\n"));
                        }
                        vret = clean;
                        let strict = spec.strict.unwrap_or_else(|| default_strict(&sig.ident.to_string(), sig));
                        if strict && self.db.tags.contains("term") {
                            ens.push_str(&format!("    {} ==> crate::vx::rem(*final({p})) < crate::vx::rem(*old({p})),\n", produced(&retname, t)));
                        }
                    }
                    if !spec.no_errd && result_ok(t).is_some() && self.db.tags.contains("err") {
                        ens.push_str(&format!("    {retname} is Err ==> crate::vx::errd(*old({p}), *final({p})),\n"));
                    }
                }
                // clean: whatever marks a failure to parse comes with an error
                let pre: Vec<String> = vargs.iter().map(|a| format!("crate::vx::Vx::vwf(&{a}, crate::vx::src(*old({p})))")).chain(vouts.iter().map(|a| format!("crate::vx::Vx::vwf(&*old({a}), crate::vx::src(*old({p})))"))).collect();
                let pre = if pre.is_empty() { String::new() } else { format!("({}) ==> ", pre.join(" && ")) };
                for (x, _) in vouts.iter().map(|a| (format!("*final({a})"), ())).chain(vret.then(|| (retname.clone(), ()))) {
                    ens.push_str(&format!("    {pre}(crate::vx::Vx::vwf(&{x}, crate::vx::src(*old({p}))) || crate::vx::errd(*old({p}), *final({p}))),\n"));
                }
                if !pre.is_empty() {
                    let now: Vec<String> = vargs.iter().chain(&vouts).map(|a| format!("crate::vx::wfx(&{a}, crate::vx::src(*old({p})))")).collect();
                    vstart = format!("let ghost vx_a = {};\n", now.join(" && "));
                    let link: Vec<String> = vargs.iter().map(|a| format!("crate::vx::wfx(&{a}, crate::vx::src(*old({p})))")).chain(vouts.iter().map(|a| format!("crate::vx::Vx::vwf(&*old({a}), crate::vx::src(*old({p})))"))).collect();
                    vlink = format!(" vx_a == ({}),", link.join(" && "));
                }
                if let (true, Some(k)) = (self.db.tags.contains("term"), info.and_then(|i| i.rank)) {
                    let k = spec.rank.clone().unwrap_or(format!("{}", k));
                    dec = format!("crate::vx::rem(*old({p})), {}int", k);
                }
            }
        }
        let mut spec = spec;
        if let (Some(t), false, false) = (self_ty, spec.no_uniform, in_trait) {
            let mutself = sig.receiver().map(|r| r.mutability.is_some() && r.reference.is_some()).unwrap_or(false);
            if let (true, Some(u)) = (mutself, self.db.uniform.get(t)) {
                uniform = true;
                req.push_str(&u.requires);
                ens.push_str(&u.ensures);
                spec.body_start = format!("{}{}", u.body_start, spec.body_start);
                if let Some(l) = u.loops.get("*") {
                    let e = spec.loops.entry("*".into()).or_default();
                    *e = if e.trim().is_empty() { format!("invariant {}", l) } else { e.replacen("invariant ", &format!("invariant {} ", l), 1) };
                }
                spec.loop_dec = u.loop_dec.clone();
            }
        }
        req.push_str(&spec.requires);
        ens.push_str(&spec.ensures);
        if !spec.decreases.is_empty() {
            dec = spec.decreases.clone();
        }
        let _ = has_ret;
        let mut clause = String::new();
        if !(in_trait && self_ty.is_some() && req.trim().is_empty()) && !req.trim().is_empty() {
            clause.push_str(&format!("\n  requires\n{}", req));
        }
        if !ens.trim().is_empty() {
            clause.push_str(&format!("\n  ensures\n{}", ens));
        }
        if !dec.is_empty() {
            clause.push_str(&format!("\n  decreases {}\n", dec));
        }
        let at = match block {
            Some(b) => rr(&b.brace_token.span.open()).start,
            None => rr(sig).end,
        };
        if !clause.is_empty() {
            self.ed.insert(at, format!("{}{}", clause, if block.is_some() { "/*vx:body*/" } else { "" }));
        }
        let status = if elsewhere { "verified in the slice wf" } else if trusted { "trusted" } else { "verified" };
        self.report.push(json!({
            "id": id, "status": status, "uniform": uniform, "specific": self.db.fns.contains_key(id),
            "module": self.m.name, "name": sig.ident.to_string(), "line": sig.ident.span().start().line,
        }));
        self.selfty = self_ty.map(|t| t.split('<').next().unwrap_or("").to_string());
        self.stepname = if spec.free_mode { "stepx" } else { "step" };
        if let Some(b) = block {
            if let Some(nb) = &spec.replace_body {
                let _ = nb;
            }
            if trusted {
                return;
            }
            self.begin_fn(id, sig, &spec, if uniform { pname.clone() } else { None });
            self.vlink = vlink;
            if uniform && self.db.tags.contains("tok") {
                spec.body_start = format!("broadcast use crate::vx::l_kin, crate::vx::l_kin2;\n{}", spec.body_start);
            }
            if pname.is_some() && self.valp() {
                let v: Vec<String> = built_types(b).into_iter().filter(|t| self.rec.contains(t)).map(|t| format!("crate::vx::pwf_{t}")).collect();
                if !v.is_empty() {
                    spec.body_start = format!("broadcast use {};\n{}", v.join(", "), spec.body_start);
                }
            }
            let mut ambstart: Option<String> = None;
            if let (Some(p), true) = (&pname, self.db.tags.contains("state")) {
                // functions which change the mode for a while
                struct W<'b>(&'b str, bool);
                impl<'b> W<'b> {
                    fn is(&self, e: &Expr) -> bool {
                        matches!(e, Expr::Field(f) if f.base.to_token_stream().to_string() == self.0 && matches!(&f.member, Member::Named(n) if MODE.contains(&n.to_string().as_str())))
                    }
                }
                impl<'a, 'b> Visit<'a> for W<'b> {
                    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
                        self.1 |= self.is(&a.left);
                        visit::visit_expr_assign(self, a);
                    }
                    fn visit_expr_reference(&mut self, a: &'a ExprReference) {
                        self.1 |= a.mutability.is_some() && self.is(&a.expr);
                        visit::visit_expr_reference(self, a);
                    }
                }
                let mut w = W(p, false);
                w.visit_block(b);
                if w.1 {
                    spec.body_start.push_str(&format!("broadcast use crate::vx::l_like_self, crate::vx::l_kept_trans; proof {{ reveal(crate::vx::like); crate::vx::l_kept_refl(*{p}.issues); {} }}\n", if self.db.tags.contains("args") { "reveal(crate::vx::argok);" } else { "" }));
                    ambstart = self.db.tags.contains("args").then(|| format!("{p}.vx_amb = Ghost(crate::vx::amb(*{p}));\n"));
                }
            }
            self.start_hint = spec.body_start.clone();
            spec.body_start.push_str(&ambstart.unwrap_or_default());
            if !spec.body_start.is_empty() || !vstart.is_empty() {
                let at = rr(&b.brace_token.span.open()).end;
                self.ed.insert(at, format!("\n{vstart}{}", spec.body_start));
            }
            // `$parser` in a hint is the local holding the result of Parser::new
            let local = b.stmts.iter().find_map(|s| match s {
                Stmt::Local(l) if l.init.as_ref().map_or(false, |i| i.expr.to_token_stream().to_string().replace(' ', "").starts_with("Parser::new(")) => match &l.pat {
                    Pat::Ident(i) => Some(i.ident.to_string()),
                    _ => None,
                },
                _ => None,
            });
            spec.tail = spec.tail.replace("$parser", &local.unwrap_or("parser".into()));
            if let (false, Some(Stmt::Expr(t, None))) = (spec.tail.is_empty(), b.stmts.last()) {
                let (x, y) = spec.tail.split_once("--").unwrap_or(("", &spec.tail));
                let q = rr(t);
                self.ed.insert(q.start, format!("proof {{ {x} }} let vx_t = "));
                self.ed.insert(q.end, format!("; proof {{ {y} }} vx_t "));
            }
            if let (true, Some((size, extra)), Some(p)) = (uniform, spec.cut.clone(), pname.clone()) {
                self.cuts(b, sig, &p, size, &extra, &spec.body_start);
            }
            if !self.string_table(b, sig, self_ty) {
                self.visit_block(b);
            }
            self.cur = None;
            self.parser = None;
        }
    }

    /// R28: `A; B; C` -> `A; loop { B; loop { return C } }`: each loop body runs once, and is verified from the facts kept at the cut only
    fn cuts(&mut self, b: &Block, sig: &Signature, p: &str, size: usize, extra: &str, start: &str) {
        struct N(Vec<String>);
        impl<'a> Visit<'a> for N {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                self.0.push(p.ident.to_string());
                visit::visit_pat_ident(self, p);
            }
            fn visit_expr(&mut self, _: &'a Expr) {}
        }
        let mut names = N(vec![]);
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if !is_parser_ty(&t.ty) {
                    names.visit_pat(&t.pat);
                }
            }
        }
        let end = rr(&b.brace_token.span.close()).start;
        let mut last = rr(b).start;
        let mut opened = 0;
        for (k, st) in b.stmts.iter().enumerate() {
            let q = rr(st);
            if k > 0 && q.start - last > size && (end - q.start) * 2 > size {
                let mut inv = format!(" crate::vx::{}(*old({p}), *{p}),{}", self.stepname, self.argstep(&p));
                if self.valp() {
                    for n in &names.0 {
                        inv.push_str(&format!(" {},", self.val(n, p)));
                    }
                    inv.push_str(&self.vlink);
                }
                if self.db.tags.contains("term") {
                    inv.push_str(&format!(" crate::vx::rem(*{p}) < crate::vx::rem(*old({p})),"));
                }
                for l in extra.lines() {
                    // `?x: A`: A is kept if there is a variable x
                    match l.trim_start().strip_prefix('?').and_then(|l| l.split_once(':')) {
                        Some((x, l)) if names.0.iter().any(|n| n == x) => inv.push_str(l),
                        Some(_) => {}
                        None => inv.push_str(l),
                    }
                    inv.push('\n');
                }
                self.ed.insert(q.start, format!("#[verifier::loop_isolation(true)] loop invariant{inv} decreases 0int {{\n{start}"));
                opened += 1;
                last = q.start;
            }
            if let Stmt::Local(l) = st {
                if !matches!(l.init.as_ref().map(|i| &*i.expr), Some(Expr::Closure(_)) | None) {
                    names.visit_pat(&l.pat);
                }
            }
        }
        if opened > 0 {
            match b.stmts.last() {
                Some(Stmt::Expr(e, None)) => {
                    let q = rr(e);
                    self.ed.insert(q.start, "return ");
                    self.ed.insert(q.end, "; ");
                }
                _ => self.ed.insert(end, " return; "),
            }
            self.ed.insert(end, "}".repeat(opened));
            self.count("R28 rest of a long body wrapped in a loop that runs once");
        }
    }

    /// R24: a body that is one long match on string literals becomes a chain of chunks
    fn string_table(&mut self, b: &Block, sig: &Signature, self_ty: Option<&str>) -> bool {
        let [Stmt::Expr(Expr::Match(m), None)] = &b.stmts[..] else { return false };
        if m.arms.len() < 60 {
            return false;
        }
        let ReturnType::Type(_, ty) = &sig.output else { return false };
        let ty = if type_name(ty) == "Self" { self_ty.unwrap_or("Self").to_string() } else { ty.to_token_stream().to_string() };
        let (last, arms) = m.arms.split_last().unwrap();
        let ok = arms.iter().all(|a| a.guard.is_none() && matches!(&a.pat, Pat::Lit(l) if matches!(l.lit, Lit::Str(_))));
        if !ok || !matches!(last.pat, Pat::Wild(_)) {
            return false;
        }
        let txt = |r: Range<usize>| self.m.src[r].to_string();
        let scr = txt(rr(&*m.expr));
        let mut body = String::from("{ proof { reveal(crate::vx::kw_of); } ");
        for (k, c) in arms.chunks(50).enumerate() {
            self.tail.push_str(&format!(
                "pub fn vx_strtab_{k}(v: &str) -> (r: Option<{ty}>) ensures r == crate::vx::kwc_{k}(v@) {{ proof {{ reveal(crate::vx::kwc_{k}); }} {} None }}\n",
                c.iter().map(|a| format!("if crate::vx::str_eq(v, {}) {{ return Some({}); }}\n", txt(rr(&a.pat)), txt(rr(&*a.body)))).collect::<String>()
            ));
            body.push_str(&format!("if let Some(x) = vx_strtab_{k}({scr}) {{ return x; }}\n"));
        }
        body.push_str(&format!("{} }}", txt(rr(&*last.body))));
        self.ed.text(rr(b), &body);
        self.count("R24 long match on string literals -> chain of chunks");
        true
    }

    fn begin_fn(&mut self, id: &str, sig: &Signature, spec: &FnSpec, parser: Option<String>) {
            self.cur = Some(id.to_string());
            self.ret_ty = match &sig.output { ReturnType::Type(_, t) => t.to_token_stream().to_string(), _ => String::new() };
            self.parser = parser;
            self.spec = spec.clone();
            self.scopes = vec![vec![]];
            self.inline = vec![None];
            self.breaks = vec![];
            self.nloops = 0;
            self.ret_cow = matches!(&sig.output, ReturnType::Type(_, t) if type_name(t).starts_with("Cow<"));
            for a in &sig.inputs {
                if let FnArg::Typed(t) = a {
                    let isref = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some());
                    if let Pat::Ident(i) = &*t.pat {
                        if (i.mutability.is_some() || isref) && !is_parser_ty(&t.ty) {
                            self.scopes[0].push(Local { nonempty: false, name: i.ident.to_string() });
                        }
                    }
                }
            }
    }

    fn argstep(&self, p: &str) -> String {
        if self.db.tags.contains("args") && !self.spec.free_args { format!(" crate::vx::argstep(*old({p}), *{p}),") } else { String::new() }
    }

    /// values are described (well-formed, or free of marks of failure)
    fn valp(&self) -> bool {
        self.db.tags.contains("wf") || self.db.tags.contains("clean") || self.db.tags.contains("names")
    }
    fn val(&self, v: &str, p: &str) -> String {
        let w = format!("crate::vx::wfx(&{v}, crate::vx::src(*old({p})))");
        if !self.db.tags.contains("clean") {
            return w;
        }
        format!("({}{w} || crate::vx::errd(*old({p}), *{p}))", if self.vlink.is_empty() { "" } else { "!vx_a || " })
    }
    /// what is left to read, and the errors reported, when a loop begins (ghost)
    fn rem_snapshot(&mut self, e: &Expr) {
        let (term, clean) = (self.db.tags.contains("term"), self.db.tags.contains("clean"));
        let prec = self.db.tags.contains("prec");
        // a loop over text that is not parsed: placeholders in it do not count
        let text = if self.db.tags.contains("args") && !self.spec.rawloops.is_empty() { e.to_token_stream().to_string() } else { String::new() };
        let raw = self.spec.rawloops.iter().any(|n| text.contains(n.as_str()));
        if let (Some(p), false, true) = (self.parser.clone(), self.spec.no_uniform_loops, term || clean || raw || prec) {
            let k = self.fresh();
            let q = rr(e);
            let mut t = "{ ".to_string();
            let mut after = " }".to_string();
            if raw {
                t.push_str(&format!("let ghost vx_raw{k} = *{p}; proof {{ reveal(crate::vx::argok); }} "));
                after = format!("; let ghost vx_rawe{k} = *{p}; {p}.vx_cnt = Ghost(vx_raw{k}.vx_cnt@); proof {{ reveal(crate::vx::like); reveal(crate::vx::argok); assert(crate::vx::modes(vx_rawe{k}, *{p})); }} }}");
                self.rawk = Some(k);
            }
            if term {
                t.push_str(&format!("let ghost vx_rem{k} = crate::vx::rem(*{p}); "));
            }
            if clean {
                t.push_str(&format!("let ghost vx_en{k} = crate::vx::nerr({p}.issues.issues@); "));
            }
            if prec {
                t.push_str(&format!("let ghost vx_at{k} = {p}.span.start; "));
            }
            self.ed.replace(q.clone(), vec![Piece::T(t), Piece::S(q.start, q.end), Piece::T(after)]);
            self.remk = Some(k);
        }
    }

    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    fn in_scope(&self) -> Vec<String> {
        let mut v = vec![];
        for s in &self.scopes {
            for l in s {
                if !v.contains(&l.name) {
                    v.push(l.name.clone());
                }
            }
        }
        v
    }

    fn loop_clauses(&mut self, mentioned: &BTreeSet<String>, own: &str) -> String {
        let idx = self.nloops;
        self.nloops += 1;
        let mut inv = String::new();
        let mut dec = String::new();
        if let (Some(p), false) = (&self.parser, self.spec.no_uniform_loops) {
            let rawk = self.rawk.take();
            inv.push_str(&format!(" crate::vx::{}(*old({p}), *{p}),{}", self.stepname, if rawk.is_some() { String::new() } else { self.argstep(&p) }));
            if let Some(k) = rawk {
                inv.push_str(&format!(" {p}.arg == vx_raw{k}.arg, {p}.delimiter == vx_raw{k}.delimiter, {p}.options == vx_raw{k}.options, {p}.vx_amb == vx_raw{k}.vx_amb, crate::vx::nerr(vx_raw{k}.issues.issues@) <= crate::vx::nerr({p}.issues.issues@),"));
            }
            for v in self.in_scope().into_iter().filter(|_| self.valp()) {
                if mentioned.contains(&v) {
                    inv.push_str(&format!(" {},", self.val(&v, p)));
                    if self.scopes.iter().flatten().filter(|l| l.name == v).last().map(|l| l.nonempty) == Some(true) {
                        inv.push_str(&format!(" crate::vx::Vx::vsome(&{v}),"));
                    }
                }
            }
            let k = self.remk.take();
            if let (Some(k), true) = (k, self.db.tags.contains("clean")) {
                inv.push_str(&format!(" vx_en{k} <= crate::vx::nerr({p}.issues.issues@),"));
            }
            if let (Some(k), true) = (k, self.db.tags.contains("prec")) {
                inv.push_str(&format!(" vx_at{k} <= {p}.span.start,"));
            }
            if self.db.tags.contains("term") {
                if let Some(k) = k {
                    inv.push_str(&format!(" crate::vx::rem(*{p}) <= vx_rem{k},"));
                }
                dec = format!(" decreases crate::vx::rem(*{p}),");
            }
        }
        let mut extra = String::new();
        for (k, e) in &self.spec.loops {
            let hit = k == "*" || *k == format!("{}", idx) || k.strip_suffix('+').and_then(|n| n.parse::<usize>().ok()).map(|n| idx >= n).unwrap_or(false) || match (k.strip_prefix("~~"), k.strip_prefix('~')) {
                    (Some(n), _) => !self.breaks.is_empty() && own.contains(n),
                    (None, Some(n)) => own.contains(n),
                    _ => false,
                };
            if hit {
                let e = e.trim_start();
                match (extra.contains("invariant "), e.strip_prefix("invariant ")) {
                    (true, Some(r)) => {
                        let p = extra.find("invariant ").unwrap() + "invariant".len();
                        extra.insert_str(p, &format!(" {}", r));
                    }
                    _ => extra.push_str(e),
                }
            }
        }
        if !self.spec.loop_dec.is_empty() {
            dec = format!(" decreases {},", self.spec.loop_dec.trim().trim_end_matches(','));
        }
        let has_inv = extra.contains("invariant ");
        let mut s = String::new();
        if extra.contains("decreases") {
            dec = String::new();
        }
        if has_inv {
            // our clauses go first in the same `invariant` list
            let p = extra.find("invariant ").unwrap() + "invariant".len();
            s.push_str(&extra[..p]);
            s.push_str(&inv);
            s.push_str(&extra[p..]);
        } else {
            if !inv.is_empty() {
                s.push_str(&format!(" invariant{}", inv));
            }
            s.push_str(&extra);
        }
        s.push_str(&dec);
        if let Some(i) = s.find("invariant_except_break") {
            // that list has to come first; the rest is one `invariant` list
            let e = ["invariant ", "ensures ", "decreases "].iter().filter_map(|k| s[i..].find(k)).min().map(|k| i + k).unwrap_or(s.len());
            let chunk = s[i..e].to_string();
            s.replace_range(i..e, "");
            if let Some(f) = s.find("invariant ") {
                let rest = s[f + 10..].replace("invariant ", "");
                s.replace_range(f + 10.., &rest);
            }
            s = format!("{}\n   {}", chunk.trim_end(), s);
        }
        if s.is_empty() {
            s
        } else {
            format!("\n   {}\n", s)
        }
    }

    fn nonempty(&mut self, n: &str) {
        if let Some(l) = self.scopes.last_mut().and_then(|s| s.iter_mut().rev().find(|l| l.name == n)) {
            l.nonempty = true;
        }
    }

    fn snapshot(&mut self, mentioned: &BTreeSet<String>, recv: &str) -> (String, String) {
        let k = self.fresh();
        let mut vars: Vec<String> = self.in_scope().into_iter().filter(|v| mentioned.contains(v)).collect();
        if !vars.contains(&recv.to_string()) {
            vars.push(recv.to_string());
        }
        let decl: String = vars.iter().map(|v| format!("let ghost vx_g{k}_{v} = {v};\n")).collect();
        let eqs: String = vars.iter().map(|v| format!(" vx_g{k}_{v} == {v},")).collect();
        (decl, eqs)
    }

    fn recovered(&mut self, m: &ExprMethodCall) -> bool {
        let Some(t) = self.template else {
            self.unsupported.push("recovered() body not inlinable".into());
            return false;
        };
        let recv = m.receiver.to_token_stream().to_string();
        let Expr::Closure(cl) = &m.args[2] else { return false };
        if cl.inputs.len() != 1 {
            return false;
        }
        let pn = match &cl.inputs[0] {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Type(t) => t.pat.to_token_stream().to_string(),
            _ => return false,
        };
        self.count("R5 recovered() inlined");
        let k = self.fresh();
        let exp = rr(&m.args[0]);
        let end = rr(&m.args[1]);
        let mentioned = idents(m);
        let (g1, e1) = self.snapshot(&mentioned, &recv);
        let (g2, e2) = self.snapshot(&mentioned, &recv);
        let (res, lbl) = (format!("vx_r{k}"), format!("'vx_l{k}"));
        let (res2, lbl2) = (format!("vx_q{k}"), format!("'vx_m{k}"));
        let mut pieces = vec![Piece::T("({ let vx_exp".to_string() + &format!("{k} = "))];
        pieces.push(Piece::S(exp.start, exp.end));
        pieces.push(Piece::T(format!("; let vx_end{k} = ")));
        pieces.push(Piece::S(end.start, end.end));
        pieces.push(Piece::T(format!(
            ";\n let mut {res}: Result<_, crate::parser::ParseError> = Err(crate::parser::ParseError::Unrecovered);\n {g1} #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] {lbl}: loop invariant_except_break {e1} decreases 0int {{ ",
        )));
        // body
        let mut fun: Vec<Piece> = vec![Piece::T(format!(
            "{{ let mut {res2}: Result<_, crate::parser::ParseError> = Err(crate::parser::ParseError::Unrecovered);\n {g2} #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] {lbl2}: loop invariant_except_break {e2} decreases 0int {{ "
        ))];
        if pn != recv {
            fun.push(Piece::T(format!("let {pn} = &mut *{recv};\n")));
        }
        match &*cl.body {
            Expr::Block(b) if b.label.is_none() => {
                let br = rr(&b.block);
                if let Some(Stmt::Expr(tail, None)) = b.block.stmts.last() {
                    let q = rr(tail);
                    fun.push(Piece::S(br.start + 1, q.start));
                    let diverges = matches!(tail, Expr::Loop(l) if !has_value_break(l) && !has_break(l));
                    if diverges {
                        fun.push(Piece::S(q.start, q.end));
                    } else {
                        fun.push(Piece::T(format!("{res2} = ")));
                        fun.push(Piece::S(q.start, q.end));
                        fun.push(Piece::T(format!("; break {lbl2};")));
                    }
                    fun.push(Piece::S(q.end, br.end - 1));
                } else {
                    fun.push(Piece::S(br.start + 1, br.end - 1));
                }
            }
            e => {
                let q = rr(e);
                fun.push(Piece::T(format!("{res2} = ")));
                fun.push(Piece::S(q.start, q.end));
                fun.push(Piece::T(format!("; break {lbl2};")));
            }
        }
        fun.push(Piece::T(format!("}} {res2} }}")));
        let mut rest = t.text.as_str();
        while let Some(i) = rest.find("@@") {
            pieces.push(Piece::T(rest[..i].to_string()));
            let j = rest[i + 2..].find("@@").unwrap() + i + 2;
            match &rest[i + 2..j] {
                "RECV" => pieces.push(Piece::T(recv.clone())),
                "FUN" => pieces.extend(fun.iter().cloned()),
                "END" => pieces.push(Piece::T(format!("vx_end{k}"))),
                "EXP" => pieces.push(Piece::T(format!("vx_exp{k}"))),
                "RES" => pieces.push(Piece::T(res.clone())),
                "LBL" => pieces.push(Piece::T(lbl.clone())),
                _ => {}
            }
            rest = &rest[j + 2..];
        }
        pieces.push(Piece::T(rest.to_string()));
        pieces.push(Piece::T(format!("}} {res} }})")));
        self.ed.replace(rr(m), pieces);
        // visit arguments
        if let Expr::Reference(rf) = &m.args[1] {
            self.visit_expr(&rf.expr);
        } else {
            self.visit_expr(&m.args[1]);
        }
        self.inline.push(Some((res2, lbl2)));
        self.breaks.push(LoopCtx { label: None, val: None, barrier: true });
        self.scopes.push(vec![]);
        self.visit_expr(&cl.body);
        self.scopes.pop();
        self.breaks.pop();
        self.inline.pop();
        true
    }
}

fn strip_spec(sig: &str) -> String {
    let mut s = sig.to_string();
    for k in ["\n  requires\n", "\n  ensures\n", "\n  decreases "] {
        if let Some(i) = s.find(k) {
            s.truncate(i);
        }
    }
    s
}

fn sig_start(s: &Signature) -> usize {
    if let Some(c) = &s.constness {
        return rr(c).start;
    }
    if let Some(c) = &s.unsafety {
        return rr(c).start;
    }
    rr(&s.fn_token).start
}

fn idents<T: ToTokens>(t: &T) -> BTreeSet<String> {
    fn go(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut o = BTreeSet::new();
    go(t.to_token_stream(), &mut o);
    o
}

/// does the pattern bind a variable
fn binds(p: &Pat) -> bool {
    struct B(bool);
    impl<'ast> Visit<'ast> for B {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            let s = p.ident.to_string();
            if s != "None" {
                self.0 = true;
            }
        }
        fn visit_expr(&mut self, _: &'ast Expr) {}
    }
    let mut b = B(false);
    b.visit_pat(p);
    b.0
}

fn has_value_break(l: &ExprLoop) -> bool {
    breaks(l).0
}
fn has_break(l: &ExprLoop) -> bool {
    breaks(l).1
}
/// (breaks with a value, breaks at all) that target this loop
fn breaks(l: &ExprLoop) -> (bool, bool) {
    struct B {
        depth: usize,
        label: Option<String>,
        val: bool,
        any: bool,
    }
    impl<'ast> Visit<'ast> for B {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                    self.depth += 1;
                    visit::visit_expr(self, e);
                    self.depth -= 1;
                }
                Expr::Closure(_) => {}
                Expr::Break(b) => {
                    let mine = match &b.label {
                        Some(l) => Some(l.to_string()) == self.label,
                        None => self.depth == 0,
                    };
                    if mine {
                        self.any = true;
                        if b.expr.is_some() {
                            self.val = true;
                        }
                    }
                    visit::visit_expr(self, e);
                }
                _ => visit::visit_expr(self, e),
            }
        }
    }
    let mut b = B { depth: 0, label: l.label.as_ref().map(|l| l.name.to_string()), val: false, any: false };
    b.visit_block(&l.body);
    (b.val, b.any)
}

impl<'m, 'ast> Visit<'ast> for Rw<'m> {
    fn visit_block(&mut self, b: &'ast Block) {
        self.scopes.push(vec![]);
        for (k, st) in b.stmts.iter().enumerate() {
            let Stmt::Local(l) = st else { continue };
            let (Pat::Ident(x), Some(init)) = (&l.pat, &l.init) else { continue };
            let Expr::Match(m) = &*init.expr else { continue };
            let tds: Vec<&String> = self.spec.taildup.iter().filter(|t| t.split_whitespace().next() == Some(&x.ident.to_string())).collect();
            if tds.is_empty() {
                continue;
            }
            if k + 1 >= b.stmts.len() {
                continue;
            }
            let hint: String = tds.iter().filter_map(|t| t.split_once("--")).map(|(_, h)| format!(" proof {{ {h} }}")).collect();
            let rest = rr(&b.stmts[k + 1]).start..rr(b.stmts.last().unwrap()).end;
            self.ed.text(rr(l).start..rr(m).start, "");
            self.ed.text(rr(m).end..rest.end, "");
            for a in &m.arms {
                let q = rr(&*a.body);
                if matches!(&*a.body, Expr::Continue(_) | Expr::Return(_) | Expr::Break(_)) {
                    continue;
                }
                let (mut pre, mut post) = (String::new(), String::new());
                if let (Some(n), Some(p)) = (self.spec.armcut, &self.parser) {
                    if q.end - q.start > n {
                        let mut f = format!(" crate::vx::{}(*old({p}), *{p}),{}", self.stepname, self.argstep(&p));
                        if self.valp() {
                            for v in self.in_scope() {
                                f.push_str(&format!(" {},", self.val(&v, p)));
                            }
                            f.push_str(&self.vlink);
                        }
                        for l in self.spec.armcut_inv.lines().map(|l| l.trim()).filter(|l| !l.is_empty()) {
                            f.push_str(&format!(" {l}"));
                        }
                        let (mut g, mut vx_a, mut z) = (String::new(), String::new(), String::new());
                        let mut a_ = String::new();
                        if self.db.tags.contains("term") {
                            // every arm of the loop reads on
                            let k = { self.n += 1; self.n };
                            g = format!("let ghost vx_it{k} = crate::vx::rem(*{p}); ");
                            vx_a = format!(" crate::vx::rem(*{p}) == vx_it{k},");
                            z = format!(" crate::vx::rem(*{p}) < vx_it{k},");
                        }
                        let scrut = m.expr.to_token_stream().to_string().replace(' ', "");
                        let scrut = scrut.trim_start_matches('&').trim_end_matches(".clone()");
                        if (self.db.tags.contains("args") || self.db.tags.contains("tok")) && scrut == format!("{p}.token") {
                            // what the pattern and a guard without calls say about the token
                            let pat = &self.m.src[rr(&a.pat)];
                            let gtxt = a.guard.as_ref().map(|(_, e)| self.m.src[rr(&**e)].to_string()).unwrap_or("true".into());
                            let calls = { let b = gtxt.as_bytes(); (0..b.len()).any(|i| b[i] == b'(' && i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) };
                            a_.push_str(&format!(" (match {p}.token {{ {pat} => {}, _ => false }}),", if calls { "true" } else { &gtxt }));
                        }
                        let a = format!("{vx_a}{a_}");
                        pre = format!("{g}#[verifier::loop_isolation(true)] loop invariant_except_break{f} !({p}.token is Eof),{a} ensures{f}{z} decreases 0int {{ {} ", self.start_hint);
                        post = " break; }".into();
                        self.count("R29 long match arm wrapped in a loop that runs once");
                    }
                }
                self.ed.replace(q.clone(), vec![
                    Piece::T(format!("{{ {pre}let {} = ", x.to_token_stream())),
                    Piece::S(q.start, q.end),
                    Piece::T("; ".into()),
                    Piece::S(rest.start, rest.end),
                    Piece::T(format!("{hint} {post} }}")),
                ]);
            }
            self.count("R25 tail of a match duplicated into its arms");
        }
        visit::visit_block(self, b);
        self.scopes.pop();
    }
    fn visit_arm(&mut self, a: &'ast Arm) {
        if let (Pat::Or(o), Some((_, g))) = (&a.pat, &a.guard) {
            // R19: `A | B if g => e` -> `A if g => e, B if g => e`
            let (w, gr, br) = (rr(a), rr(&**g), rr(&*a.body));
            let mut pieces = vec![];
            for c in &o.cases {
                let q = rr(c);
                pieces.push(Piece::S(q.start, q.end));
                pieces.push(Piece::T(" if ".into()));
                pieces.push(Piece::S(gr.start, gr.end));
                pieces.push(Piece::T(" => ".into()));
                pieces.push(Piece::S(br.start, br.end));
                pieces.push(Piece::T(",\n".into()));
            }
            self.ed.replace(w, pieces);
            self.count("R19 or-pattern with guard split into arms");
        }
        self.scopes.push(vec![]);
        let pat: String = self.m.src[rr(&a.pat)].split_whitespace().collect();
        for (p, t) in self.spec.arms.clone() {
            if p == pat {
                let (x, y) = t.split_once("--").unwrap_or(("", &t));
                let q = rr(&*a.body);
                self.ed.replace(q.clone(), vec![
                    Piece::T(format!("{{ proof {{ {x} }} let vx_t = ")),
                    Piece::S(q.start, q.end),
                    Piece::T(format!("; proof {{ {y} }} vx_t }}")),
                ]);
            }
        }
        visit::visit_arm(self, a);
        self.scopes.pop();
    }
    fn visit_local(&mut self, l: &'ast Local_) {
        // initialiser first: names declared here are not in scope inside it
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
            if let Some((_, d)) = &i.diverge {
                self.visit_expr(d);
            }
        }
        self.visit_pat(&l.pat);
        if let (Some(i), Pat::Ident(n)) = (&l.init, &l.pat) {
            if matches!(&*i.expr, Expr::Macro(m) if m.mac.path.is_ident("vec") && !m.mac.tokens.is_empty()) {
                self.nonempty(&n.ident.to_string());
            }
        }
        // a term that lets the solver see well-formedness of a freshly built node
        if let (Some(i), Pat::Ident(n), Some(p), true) = (&l.init, &l.pat, &self.parser, self.valp()) {
            if let Expr::Struct(x) = &*i.expr {
                let t = x.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if self.tymap.contains_key(&t) {
                    let txt = format!(" let ghost vx_w = crate::vx::Vx::vwf(&{}, crate::vx::src(*old({p})));", n.ident);
                    self.ed.insert(rr(l).end, txt);
                }
            }
        }
    }
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        if p.mutability.is_some() {
            let name = p.ident.to_string();
            self.scopes.last_mut().unwrap().push(Local { nonempty: false, name });
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, it: &'ast Item) {
        // nested items inside functions
        if let Item::Const(c) = it {
            self.const_ty(&c.ty);
        }
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        let txt_range = rr(s);
        if matches!(s, Stmt::Expr(Expr::ForLoop(_), _)) {
            self.ed.insert(txt_range.start, ";");
        }
        for (needle, text) in self.spec.before.clone() {
            if self.m.src[txt_range.clone()].contains(&needle) && !self.m.src[txt_range.clone()][1..].contains('{') {
                self.ed.insert(txt_range.start, text.clone());
            }
        }
        if let (Some(p), true) = (&self.parser, self.valp()) {
            // terms that let the solver see well-formedness of variables whose span is taken
            struct S(BTreeSet<String>);
            impl<'a> Visit<'a> for S {
                fn visit_block(&mut self, _: &'a Block) {}
                fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
                    if matches!(m.method.to_string().as_str(), "span" | "opt_span" | "join_span" | "opt_join_span") {
                        for e in std::iter::once(&*m.receiver).chain(m.args.iter()) {
                            let e = if let Expr::Reference(r) = e { &*r.expr } else { e };
                            if let Expr::Path(p) = e {
                                self.0.insert(p.path.to_token_stream().to_string());
                            }
                        }
                    }
                    visit::visit_expr_method_call(self, m);
                }
            }
            let mut v = S(Default::default());
            v.visit_stmt(s);
            for x in self.in_scope() {
                if v.0.contains(&x) {
                    self.ed.insert(txt_range.start, format!("let ghost vx_w = crate::vx::wfx(&{x}, crate::vx::src(*old({p})));\n"));
                }
            }
        }
        // an assignment to a field other than the ones that make up the parsing mode keeps the mode
        let field = |e: &Expr| match e {
            Expr::Field(f) => f.base.to_token_stream().to_string() == *self.parser.as_deref().unwrap_or("") && matches!(&f.member, Member::Named(n) if !MODE.contains(&n.to_string().as_str())),
            _ => false,
        };
        let assigns = match s {
            Stmt::Expr(Expr::Assign(a), Some(_)) => field(&a.left),
            Stmt::Expr(Expr::Binary(a), Some(_)) => field(&a.left),
            _ => false,
        };
        if assigns && self.db.tags.contains("state") {
            let p = self.parser.clone().unwrap();
            self.ed.insert(txt_range.start, format!("let ghost vx_p = *{p};\n"));
            self.ed.insert(txt_range.end, format!("\nproof {{ reveal(crate::vx::like); assert(crate::vx::modes(vx_p, *{p})); }}\n"));
        }
        if let (Stmt::Expr(Expr::Assign(a), Some(_)), true) = (s, self.db.tags.contains("args")) {
            let p = self.parser.clone().unwrap_or_default();
            if a.left.to_token_stream().to_string().replace(' ', "") == format!("{p}.delimiter") && !p.is_empty() {
                self.ed.insert(txt_range.start, format!("{p}.vx_amb = Ghost(crate::vx::amb(*{p}));\n"));
            }
        }
        visit::visit_stmt(self, s);
        if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = s {
            if m.method == "push" {
                self.nonempty(&m.receiver.to_token_stream().to_string());
            }
        }
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        // R14: attributes on expressions
        if let Expr::Match(m) = e {
            for a in &m.attrs {
                self.ed.text(rr(a), "");
                self.count("R14 lint attribute on expression dropped");
            }
        }
        if let (Expr::Match(m), Some(p)) = (e, self.parser.clone()) {
            // R28: Verus does not resolve an exclusive borrow on the edge where a guard fails; a no-op use of the parser does
            if m.arms.iter().any(|a| a.guard.is_some()) {
                for a in &m.arms {
                    if a.guard.is_none() && !binds(&a.pat) && !idents(&*a.body).contains(&p) {
                        let q = rr(&*a.body);
                        self.ed.replace(q.clone(), vec![Piece::T(format!("{{ crate::vx::touch(&mut *{p}); ")), Piece::S(q.start, q.end), Piece::T(" }".into())]);
                        self.count("R28 no-op use of the parser in an arm after a guarded arm");
                    }
                }
            }
        }
        if let (Expr::MethodCall(m), Some(p)) = (e, self.parser.clone()) {
            // R34: a token taken outside of any construct
            let takes = ["next", "consume", "recover", "skip_token", "consume_token", "skip_keyword", "consume_keyword", "consume_keywords", "read_from_stdin_and_next"];
            if !self.spec.guardcalls.is_empty() && takes.iter().any(|t| m.method == t) && m.receiver.to_token_stream().to_string() == p {
                let a = m.args.first().map(|a| a.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
                if !["Token::SemiColon".to_string(), "Keyword::DELIMITER".to_string(), format!("{p}.delimiter.clone()")].contains(&a) {
                    let q = rr(e);
                    self.ed.insert(q.start, &format!("({{ proof {{ assert({}); }} ", self.spec.guardcalls));
                    self.ed.insert(q.end, " })");
                    self.count("R34 assertion where a token is taken outside of any construct");
                }
            }
        }
        if let Expr::Struct(x) = e {
            let t = x.path.to_token_stream().to_string().replace(' ', "");
            let own = self.selfty.clone().unwrap_or_default();
            for (ty, f, _, init) in self.db.ghosts.clone() {
                if (t == ty || t.ends_with(&format!("::{ty}")) || (t == "Self" && own == ty)) && x.rest.is_none() {
                    let at = rr(&x.brace_token.span.close()).start;
                    let comma = if x.fields.trailing_punct() || x.fields.is_empty() { "" } else { ", " };
                    self.ed.insert(at, format!("{comma}{f}: {init}, "));
                }
            }
        }
        if let (Expr::Call(c), Some(p)) = (e, self.parser.clone()) {
            let t = c.func.to_token_stream().to_string().replace(' ', "");
            let hit = self.db.constructs.iter().find(|(k, _)| t == **k || t.ends_with(&format!("::{k}"))).map(|(_, v)| v.clone());
            if let Some(v) = hit {
                self.ed.text(rr(&*c.func), &v);
                let at = rr(&c.paren_token.span.close()).start;
                let comma = if c.args.trailing_punct() { "" } else { ", " };
                self.ed.insert(at, format!("{comma}Ghost(*{p})"));
                self.count("R32 construction of a variant through a function with a contract");
                for a in &c.args {
                    self.visit_expr(a);
                }
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method != "recover" && m.method != "recovered" {
                for a in m.args.iter().filter(|a| matches!(a, Expr::Closure(_))) {
                    self.plain_closures.insert(rr(a).start);
                }
            }
        }
        match e {
            Expr::Try(t) => {
                if let Some(Some((res, lbl))) = self.inline.last().cloned() {
                    let q = rr(&t.expr);
                    self.ed.replace(
                        rr(e),
                        vec![
                            Piece::T("(match ".into()),
                            Piece::S(q.start, q.end),
                            Piece::T(format!(" {{ Ok(vx_v) => vx_v, Err(vx_e) => {{ {res} = Err(vx_e); break {lbl}; }} }})")),
                        ],
                    );
                }
                visit::visit_expr(self, e);
            }
            Expr::Return(t) => {
                if let Some(Some((res, lbl))) = self.inline.last().cloned() {
                    if let Some(x) = &t.expr {
                        let q = rr(&**x);
                        self.ed.replace(
                            rr(e),
                            vec![Piece::T(format!("{{ {res} = ")), Piece::S(q.start, q.end), Piece::T(format!("; break {lbl}; }}"))],
                        );
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::MethodCall(m) if m.method == "recovered" && m.args.len() == 3 => {
                if !self.recovered(m) {
                    visit::visit_expr(self, e);
                }
            }
            Expr::MethodCall(m) if m.method == "unwrap_or_else" && m.args.len() == 1 => {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.is_empty() {
                        // R8
                        let (a, b) = (rr(&*m.receiver), rr(&*c.body));
                        self.ed.replace(
                            rr(e),
                            vec![
                                Piece::T("(match ".into()),
                                Piece::S(a.start, a.end),
                                Piece::T(" { Some(vx_s) => vx_s, None => ".into()),
                                Piece::S(b.start, b.end),
                                Piece::T(" })".into()),
                            ],
                        );
                        self.count("R8 Option::unwrap_or_else(closure) -> match");
                        self.visit_expr(&m.receiver);
                        self.visit_expr(&c.body);
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::MethodCall(m)
                if (((m.method == "map" || m.method == "and_then" || m.method == "is_some_and") && m.args.len() == 1)
                    || (m.method == "map_or" && m.args.len() == 2))
                    && option_like(&m.receiver)
                    && matches!(m.args.last(), Some(Expr::Closure(c)) if c.inputs.len() == 1 && !leaves(&c.body)) =>
            {
                // R8: the same for the other combinators of Option
                if let Some(Expr::Closure(c)) = m.args.last() {
                    let (a, p, b) = (rr(&*m.receiver), rr(&c.inputs[0]), rr(&*c.body));
                    let mut v = vec![
                        Piece::T("(match ".into()),
                        Piece::S(a.start, a.end),
                        Piece::T(" { Some(".into()),
                        Piece::S(p.start, p.end),
                        Piece::T(if m.method == "map" { ") => Some(" } else { ") => (" }.into()),
                        Piece::S(b.start, b.end),
                        Piece::T("), None => ".into()),
                    ];
                    if m.method == "map_or" {
                        let d = rr(&m.args[0]);
                        v.push(Piece::S(d.start, d.end));
                    } else {
                        v.push(Piece::T(if m.method == "is_some_and" { "false" } else { "None" }.into()));
                    }
                    v.push(Piece::T(" })".into()));
                    self.ed.replace(rr(e), v);
                    self.count("R8 Option::map, and_then, map_or, is_some_and(closure) -> match");
                    self.visit_expr(&m.receiver);
                    if m.method == "map_or" {
                        self.visit_expr(&m.args[0]);
                    }
                    self.visit_expr(&c.body);
                    return;
                }
            }
            Expr::MethodCall(m) if m.method == "peekable" && m.args.is_empty() => {
                if let Expr::MethodCall(i) = &*m.receiver {
                    if i.method == "char_indices" {
                        let q = rr(&*i.receiver);
                        self.ed.replace(rr(e), vec![Piece::T("crate::vx::VxChars::new(".into()), Piece::S(q.start, q.end), Piece::T(")".into())]);
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::MethodCall(m)
                if m.method == "fold" && m.args.len() == 2 && matches!(&m.args[1], Expr::Closure(_)) =>
            {
                // R9: X.iter().fold(INIT, |a, b| BODY)
                if let (Expr::Closure(c), Expr::MethodCall(it)) = (&m.args[1], &*m.receiver) {
                    if it.method == "iter" && c.inputs.len() == 2 {
                        let k = self.fresh();
                        let mentioned = idents(e);
                        let extra = self.loop_clauses(&mentioned, &own_text(e));
                        let (x, init, body) = (rr(&*it.receiver), rr(&m.args[0]), rr(&*c.body));
                        let a = c.inputs[0].to_token_stream().to_string();
                        let b = c.inputs[1].to_token_stream().to_string();
                        self.ed.replace(
                            rr(e),
                            vec![
                                Piece::T(if m.args[0].to_token_stream().to_string() == "None" && self.ret_ty.starts_with("Option") { format!("({{ let mut vx_acc: {} = ", self.ret_ty) } else { "({ let mut vx_acc = ".into() }),
                                Piece::S(init.start, init.end),
                                Piece::T("; let vx_it = &".into()),
                                Piece::S(x.start, x.end),
                                Piece::T(format!("; let mut vx_i: usize = 0; while vx_i < vx_it.len() {extra} {{ let {a} = vx_acc; let {b} = &vx_it[vx_i]; vx_acc = ")),
                                Piece::S(body.start, body.end),
                                Piece::T("; vx_i += 1; } vx_acc })".into()),
                            ],
                        );
                        let _ = k;
                        self.count("R9 iter().fold(closure) -> while loop");
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::MethodCall(m)
                if (m.method == "is_some" || m.method == "is_none")
                    && matches!(&*m.receiver, Expr::MethodCall(f) if f.method == "filter" && f.args.len() == 1 && matches!(&f.args[0], Expr::Closure(_))) =>
            {
                // R7: OPT.filter(|PAT| BODY).is_some()
                if let Expr::MethodCall(f) = &*m.receiver {
                    if let Expr::Closure(c) = &f.args[0] {
                        let (x, p, b) = (rr(&*f.receiver), rr(&c.inputs[0]), rr(&*c.body));
                        let (t, n) = if m.method == "is_some" { ("", "false") } else { ("!", "true") };
                        self.ed.replace(
                            rr(e),
                            vec![
                                Piece::T("(match ".into()),
                                Piece::S(x.start, x.end),
                                Piece::T(" { Some(".into()),
                                Piece::S(p.start, p.end),
                                Piece::T(format!(") => {t}(")),
                                Piece::S(b.start, b.end),
                                Piece::T(format!("), None => {n} }})")),
                            ],
                        );
                        self.count("R7 Option::filter(closure).is_some() -> match");
                        self.visit_expr(&f.receiver);
                        self.visit_expr(&c.body);
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::MethodCall(m)
                if (m.method == "all" || m.method == "any")
                    && m.args.len() == 1
                    && matches!(&m.args[0], Expr::Closure(_))
                    && matches!(&*m.receiver, Expr::MethodCall(f) if f.method == "chars") =>
            {
                // R16: S.chars().all(|c| P) -> specified helper taking a closure
                if let (Expr::MethodCall(f), Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
                    let (x, p, b) = (rr(&*f.receiver), rr(&c.inputs[0]), rr(&*c.body));
                    let name = m.method.to_string();
                    self.ed.replace(
                        rr(e),
                        vec![
                            Piece::T(format!("({{ let mut vx_cs = crate::vx::VxStrChars::new(")),
                            Piece::S(x.start, x.end),
                            Piece::T(format!("); let mut vx_res = {}; ", name == "all")),
                            Piece::T(format!("while let Some(vx_c) = vx_cs.next() {} {{ let ", self.all_inv(&name, &self.m.src[p.clone()], &self.m.src[b.clone()]))),
                            Piece::S(p.start, p.end),
                            Piece::T(" = vx_c; if ".into()),
                            Piece::T(if name == "all" { "!(".into() } else { "(".into() }),
                            Piece::S(b.start, b.end),
                            Piece::T(format!(") {{ vx_res = {}; break; }} }} vx_res }})", name != "all")),
                        ],
                    );
                    self.count("R16 chars().all/any(closure) -> while loop");
                    self.visit_expr(&f.receiver);
                    return;
                }
            }
            Expr::MethodCall(m) if m.method == "contains" && m.args.len() == 1 && !matches!(&m.args[0], Expr::Reference(_)) && !matches!(&*m.receiver, Expr::Paren(_)) => {
                let (q, a) = (rr(&*m.receiver), rr(&m.args[0]));
                self.ed.replace(rr(e), vec![Piece::T("crate::vx::str_contains(&".into()), Piece::S(q.start, q.end), Piece::T(", ".into()), Piece::S(a.start, a.end), Piece::T(")".into())]);
                self.count("R20 str::contains(char) -> specified helper");
                visit::visit_expr(self, e);
            }
            Expr::Field(f) if self.guarded_field(f) =>
            {
                // R33: a field that only some functions may read
                let q = rr(e);
                self.ed.replace(q.clone(), vec![Piece::T("crate::vx::guarded(".into()), Piece::S(q.start, q.end), Piece::T(")".into())]);
                self.count("R33 read of a guarded field -> call with precondition false");
                visit::visit_expr(self, e);
            }
            Expr::MethodCall(m) if m.method == "count" && chars_filter(m).is_some() => {
                // R36: TEXT.chars().filter(|c| P).count() -> some number
                let x = chars_filter(m).unwrap();
                if let Expr::Index(ix) = x {
                    if let Expr::Range(g) = &*ix.index {
                        if let (Some(end), RangeLimits::HalfOpen(_)) = (&g.end, &g.limits) {
                            let (q, b) = (rr(&*ix.expr), rr(&**end));
                            let mut ps = vec![Piece::T("crate::vx::vx_count(crate::vx::VxSlice::vx_slice(&*".into()), Piece::S(q.start, q.end), Piece::T(", ".into())];
                            match &g.start {
                                Some(a) => ps.push(Piece::S(rr(&**a).start, rr(&**a).end)),
                                None => ps.push(Piece::T("0".into())),
                            }
                            ps.extend([Piece::T(", ".into()), Piece::S(b.start, b.end), Piece::T("))".into())]);
                            self.ed.replace(rr(e), ps);
                            self.count("R36 counting characters -> opaque number");
                            self.visit_expr(x);
                            return;
                        }
                    }
                }
                let q = rr(x);
                self.ed.replace(rr(e), vec![Piece::T("crate::vx::vx_count(&".into()), Piece::S(q.start, q.end), Piece::T(")".into())]);
                self.count("R36 counting characters -> opaque number");
                self.visit_expr(x);
            }
            Expr::MethodCall(m) if m.method == "chars" && m.args.is_empty() => {
                let q = rr(&*m.receiver);
                self.ed.replace(rr(e), vec![Piece::T("crate::vx::VxStrChars::new(&".into()), Piece::S(q.start, q.end), Piece::T(")".into())]);
                self.count("R27 str::chars -> specified iterator");
                visit::visit_expr(self, e);
            }
            Expr::MethodCall(m) if m.method == "to_mut" && m.args.is_empty() => {
                let q = rr(&*m.receiver);
                self.ed.replace(rr(e), vec![Piece::T("crate::vx::cow_to_mut(&mut ".into()), Piece::S(q.start, q.end), Piece::T(")".into())]);
                self.count("R21 Cow<str> to_mut/as_ref/into -> specified helper");
                visit::visit_expr(self, e);
            }
            Expr::MethodCall(m)
                if m.method == "as_ref"
                    && m.args.is_empty()
                    && match &*m.receiver {
                        Expr::Call(c) => c.func.to_token_stream().to_string().contains("decode_"),
                        Expr::Field(f) => f.member.to_token_stream().to_string() == "value",
                        _ => false,
                    } =>
            {
                let q = rr(&*m.receiver);
                self.ed.replace(rr(e), vec![Piece::T("crate::vx::cow_ref(&".into()), Piece::S(q.start, q.end), Piece::T(")".into())]);
                self.count("R21 Cow<str> to_mut/as_ref/into -> specified helper");
                visit::visit_expr(self, e);
            }
            Expr::MethodCall(m) if m.method == "into" && m.args.is_empty() && self.ret_cow => {
                let q = rr(&*m.receiver);
                self.ed.replace(rr(e), vec![Piece::T("crate::vx::VxIntoCow::into_cow(".into()), Piece::S(q.start, q.end), Piece::T(")".into())]);
                self.count("R21 Cow<str> to_mut/as_ref/into -> specified helper");
                visit::visit_expr(self, e);
            }
            Expr::MethodCall(m) if m.method == "unwrap" && m.args.is_empty() && self.db.tags.contains("lite") && !matches!(self.m.name.as_str(), "lexer" | "issue") => {
                // R30: that unwrap cannot fail is an obligation of the slice wf; here only the returning case matters
                self.ed.insert(rr(e).start, "crate::vx::unwrapped(");
                visit::visit_expr(self, &m.receiver);
                self.ed.text(rr(&*m.receiver).end..rr(e).end, ")");
                self.count("R30 unwrap assumed to return (panic freedom is the slice wf's)");
            }
            Expr::MethodCall(m) if m.method == "unwrap_or_default" && m.args.is_empty() => {
                let q = rr(&*m.receiver);
                self.ed.replace(rr(e), vec![Piece::T("crate::vx::VxOrDefault::or_default(".into()), Piece::S(q.start, q.end), Piece::T(")".into())]);
                self.count("R22 unwrap_or_default -> specified helper");
                visit::visit_expr(self, e);
            }
            Expr::Call(c) if self.parser.is_some() && c.args.is_empty() && c.func.to_token_stream().to_string().replace(' ', "") == "Default::default" => {
                let p = self.parser.clone().unwrap();
                self.ed.text(rr(e), &format!("crate::vx::VxDefault::vx_default(Ghost(crate::vx::src(*old({p}))))"));
                self.count("R22 Default::default -> specified helper");
            }
            Expr::MethodCall(m) if m.method == "parse" && m.args.is_empty() => {
                let q = rr(&*m.receiver);
                let turbofish = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
                self.ed.replace(rr(e), vec![Piece::T(format!("crate::vx::str_parse{}(", turbofish)), Piece::S(q.start, q.end), Piece::T(")".into())]);
                self.count("R17 str::parse -> specified helper");
                visit::visit_expr(self, e);
            }
            Expr::Closure(c) => {
                let about_tokens = !self.plain_closures.contains(&rr(e).start);
                for (i, p) in c.inputs.iter().enumerate().filter(|_| about_tokens) {
                    match p {
                        Pat::Wild(_) => {
                            self.ed.text(rr(p), format!("_vx{}: &crate::lexer::Token<'_>", i));
                            self.count("R7 closure parameter pattern named");
                        }
                        Pat::Ident(_) => {
                            let at = rr(p).end;
                            let t = self.m.src[at..].trim_start().starts_with('|');
                            if t && c.inputs.len() == 1 {
                                self.ed.insert(at, ": &crate::lexer::Token<'_>");
                                self.count("R7 closure parameter type made explicit");
                            }
                        }
                        _ => self.unsupported.push(format!("closure pattern in {:?}", self.cur)),
                    }
                }
                self.inline.push(None);
                self.breaks.push(LoopCtx { label: None, val: None, barrier: true });
                self.visit_expr(&c.body);
                self.breaks.pop();
                self.inline.pop();
            }
            Expr::Loop(l) => {
                self.rem_snapshot(e);
                let valued = has_value_break(l);
                let mentioned = idents(l);
                let clauses = self.loop_clauses(&mentioned, &own_text(e));
                let at = rr(&l.body.brace_token.span.open()).start;
                let user = l.label.as_ref().map(|l| l.name.to_string());
                let mut ctx = LoopCtx { label: user.clone(), val: None, barrier: false };
                if valued {
                    let k = self.fresh();
                    let lbl = user.clone().unwrap_or(format!("'vx_b{k}"));
                    let q = rr(e);
                    self.ed.replace(
                        q.clone(),
                        vec![
                            Piece::T(format!("({{ let vx_b{k}; {}", if user.is_none() { format!("{lbl}: ") } else { String::new() })),
                            Piece::S(q.start, q.end),
                            Piece::T(format!(" vx_b{k} }})")),
                        ],
                    );
                    self.count("R4 loop with break value -> deferred variable");
                    ctx.val = Some((format!("vx_b{k}"), lbl));
                }
                if !clauses.is_empty() {
                    self.ed.insert(at, clauses);
                }
                self.breaks.push(ctx);
                self.visit_block(&l.body);
                self.breaks.pop();
            }
            Expr::While(w) => {
                self.rem_snapshot(e);
                let mentioned = idents(w);
                let clauses = self.loop_clauses(&mentioned, &own_text(e));
                let at = rr(&w.body.brace_token.span.open()).start;
                if !clauses.is_empty() {
                    self.ed.insert(at, clauses);
                }
                self.scopes.push(vec![]);
                self.breaks.push(LoopCtx { label: w.label.as_ref().map(|l| l.name.to_string()), val: None, barrier: false });
                self.visit_expr(&w.cond);
                self.visit_block(&w.body);
                self.breaks.pop();
                self.scopes.pop();
            }
            Expr::ForLoop(w) if matches!(&*w.expr, Expr::MethodCall(m) if m.method == "chars") => {
                let k = self.fresh();
                let mentioned = idents(w);
                let clauses = self.loop_clauses(&mentioned, &own_text(e)).replace("vx_it", &format!("vx_it{k}"));
                let (p, x, b) = (rr(&*w.pat), rr(&*w.expr), rr(&w.body));
                self.ed.replace(rr(e), vec![
                    Piece::T(format!("{{ let mut vx_it{k} = ")),
                    Piece::S(x.start, x.end),
                    Piece::T(format!("; while let Some(")),
                    Piece::S(p.start, p.end),
                    Piece::T(format!(") = vx_it{k}.next() {clauses}")),
                    Piece::S(b.start, b.end),
                    Piece::T(" }".into()),
                ]);
                self.scopes.push(vec![]);
                self.breaks.push(LoopCtx { label: w.label.as_ref().map(|l| l.name.to_string()), val: None, barrier: false });
                self.visit_expr(&w.expr);
                self.visit_block(&w.body);
                self.breaks.pop();
                self.scopes.pop();
            }
            Expr::ForLoop(w) => {
                self.rem_snapshot(e);
                // R12: for PAT in SLICE -> index loop
                if let Expr::MethodCall(sp) = &*w.expr {
                    if sp.method == "split" && sp.args.len() == 1 {
                        if let Expr::Array(a) = &sp.args[0] {
                            // R12b: STR.split([chars]) -> specified helper
                            let (v, a0) = (rr(&*sp.receiver), rr(a));
                            self.ed.replace(
                                rr(&*w.expr),
                                vec![
                                    Piece::T("crate::vx::str_split(&".into()),
                                    Piece::S(v.start, v.end),
                                    Piece::T(", &".into()),
                                    Piece::S(a0.start, a0.end),
                                    Piece::T(")".into()),
                                ],
                            );
                            self.count("R12b str::split([char]) -> specified helper");
                        }
                    }
                }
                let k = self.fresh();
                let mentioned = idents(w);
                let clauses = self.loop_clauses(&mentioned, &own_text(e)).replace("vx_i", &format!("vx_i{k}")).replace("vx_s", &format!("vx_s{k}"));
                let clauses = if clauses.contains("decreases") && !self.spec.loops.contains_key("keepdec") {
                    let i = clauses.find("decreases").unwrap();
                    format!("{} ", &clauses[..i])
                } else {
                    clauses
                };
                let clauses = if clauses.contains("invariant") { clauses } else { " invariant true,".to_string() };
                // in span computations: the variables assigned in the loop cover what they covered before and all earlier items
                let (mut snap, mut clauses) = (String::new(), clauses);
                if self.db.tags.contains("wf") && self.cur.as_ref().map(|c| c.contains("Spanned[")) == Some(true) {
                    let mut add = String::new();
                    for v in assigned(&w.body) {
                        snap.push_str(&format!(" let ghost vx_g{k}_{v} = {v};"));
                        add.push_str(&format!(
                            " crate::vx::VxAcc::covers(&{v}, &vx_g{k}_{v}), crate::vx::VxAcc::nz(&{v}), forall|vx_j: int| #![trigger vx_s{k}@[vx_j]] 0 <= vx_j < vx_i{k} ==> crate::vx::VxAcc::covers(&{v}, &vx_s{k}@[vx_j]), forall|s: Seq<char>| #[trigger] crate::vx::Vx::vwf(self, s) ==> crate::vx::Vx::vwf(&{v}, s),"
                        ));
                    }
                    let i = clauses.find("invariant ").unwrap() + "invariant ".len();
                    clauses.insert_str(i, &add);
                }
                let (p, x, b) = (rr(&*w.pat), rr(&*w.expr), rr(&w.body));
                let (x0, amp) = match &*w.expr {
                    Expr::Reference(rf) => (rr(&*rf.expr), "&"),
                    Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => (rr(&*m.receiver), "&"),
                    _ => (x.clone(), ""),
                };
                self.ed.replace(
                    rr(e),
                    vec![
                        Piece::T(format!("{{ let vx_s{k} = {amp}")),
                        Piece::S(x0.start, x0.end),
                        Piece::T(format!("; let mut vx_i{k}: usize = 0;{snap} while vx_i{k} < vx_s{k}.len() {clauses} vx_i{k} <= vx_s{k}.len(), decreases vx_s{k}.len() - vx_i{k} {{ let ")),
                        Piece::S(p.start, p.end),
                        Piece::T(format!(" = &vx_s{k}[vx_i{k}]; vx_i{k} += 1; ")),
                        Piece::S(b.start, b.end),
                        Piece::T("} }".into()),
                    ],
                );
                self.count("R12 for over slice -> index loop");
                self.scopes.push(vec![]);
                self.breaks.push(LoopCtx { label: w.label.as_ref().map(|l| l.name.to_string()), val: None, barrier: false });
                if x0 == x {
                    self.visit_expr(&w.expr);
                } else if let Expr::Reference(rf) = &*w.expr {
                    self.visit_expr(&rf.expr);
                }
                self.visit_block(&w.body);
                self.breaks.pop();
                self.scopes.pop();
            }
            Expr::Break(b) => {
                let lbl = b.label.as_ref().map(|l| l.to_string());
                let mut target = None;
                for c in self.breaks.iter().rev() {
                    if c.barrier {
                        break;
                    }
                    if lbl.is_none() || c.label == lbl {
                        target = Some(c.clone());
                        break;
                    }
                }
                if let (Some(x), Some(LoopCtx { val: Some((v, l)), .. })) = (&b.expr, target) {
                    let q = rr(&**x);
                    self.ed.replace(rr(e), vec![Piece::T(format!("{{ {v} = ")), Piece::S(q.start, q.end), Piece::T(format!("; break {l}; }}"))]);
                }
                visit::visit_expr(self, e);
            }
            Expr::If(i) => {
                self.scopes.push(vec![]);
                self.visit_expr(&i.cond);
                self.visit_block(&i.then_branch);
                self.scopes.pop();
                if let Some((_, e)) = &i.else_branch {
                    self.visit_expr(e);
                }
            }
            Expr::Macro(m) => {
                self.mac(&m.mac);
            }
            Expr::Reference(rf) if rf.mutability.is_none() && matches!(&*rf.expr, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(g) if g.end.is_some() && matches!(g.limits, RangeLimits::HalfOpen(_)))) => {
                // R26: `&TEXT[a..b]` -> specified helper
                let Expr::Index(ix) = &*rf.expr else { unreachable!() };
                let Expr::Range(g) = &*ix.index else { unreachable!() };
                let q = rr(&*ix.expr);
                let b = rr(&**g.end.as_ref().unwrap());
                let mut ps = vec![Piece::T("crate::vx::VxSlice::vx_slice(&*".into()), Piece::S(q.start, q.end), Piece::T(", ".into())];
                match &g.start {
                    Some(a) => ps.push(Piece::S(rr(&**a).start, rr(&**a).end)),
                    None => ps.push(Piece::T("0".into())),
                }
                ps.extend([Piece::T(", ".into()), Piece::S(b.start, b.end), Piece::T(")".into())]);
                self.ed.replace(rr(e), ps);
                self.count("R26 slicing of text -> specified helper");
                visit::visit_expr(self, &rf.expr);
            }
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_stmt_macro(&mut self, m: &'ast StmtMacro) {
        self.mac(&m.mac);
    }
}

type Local_ = syn::Local;

/// the text of TEXT.chars().filter(|c| P).count() where P is a plain comparison
fn chars_filter(m: &ExprMethodCall) -> Option<&Expr> {
    if let Expr::MethodCall(f) = &*m.receiver {
        if f.method == "filter" && f.args.len() == 1 {
            if let (Expr::MethodCall(c), Expr::Closure(p)) = (&*f.receiver, &f.args[0]) {
                if c.method == "chars" && c.args.is_empty() && matches!(&*p.body, Expr::Binary(_) | Expr::Macro(_)) && !p.body.to_token_stream().to_string().contains(['(', '[']) {
                    return Some(&c.receiver);
                }
            }
        }
    }
    None
}

/// The rendering of issues uses nothing but fields, loops over lists, slices of text and writing.
fn renders_plainly(b: &Block) -> bool {
    struct P(bool);
    impl<'ast> Visit<'ast> for P {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::MethodCall(m) if !["get", "chars", "filter", "count", "is_empty", "len", "span", "clone", "iter", "saturating_sub", "wrapping_sub"].contains(&m.method.to_string().as_str()) => self.0 = false,
                Expr::Call(c) if c.func.to_token_stream().to_string() != "Ok" => self.0 = false,
                Expr::Path(p) if p.path.is_ident("f") => self.0 = false,
                _ => {}
            }
            visit::visit_expr(self, e);
        }
        fn visit_macro(&mut self, m: &'ast Macro) {
            if !(m.path.is_ident("write") || m.path.is_ident("writeln")) {
                self.0 = false;
            }
            // calls inside the arguments
            if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                for a in a.iter().skip(2) {
                    struct Q(bool);
                    impl<'a> Visit<'a> for Q {
                        fn visit_expr(&mut self, e: &'a Expr) {
                            if matches!(e, Expr::Call(_) | Expr::MethodCall(_) | Expr::Macro(_)) { self.0 = false; }
                            visit::visit_expr(self, e);
                        }
                    }
                    let mut q = Q(true);
                    q.visit_expr(Box::leak(Box::new(a.clone())));
                    self.0 &= q.0;
                }
            } else {
                self.0 = false;
            }
        }
    }
    let mut p = P(true);
    p.visit_block(b);
    p.0
}

/// Text of a loop without the bodies of the loops nested in it (whitespace removed).
fn own_text(e: &Expr) -> String {
    struct Strip(bool);
    impl syn::visit_mut::VisitMut for Strip {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if self.0 {
                self.0 = false;
                syn::visit_mut::visit_expr_mut(self, e);
            } else if matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) {
                *e = Expr::Verbatim(Default::default());
            } else {
                syn::visit_mut::visit_expr_mut(self, e);
            }
        }
    }
    let mut e = e.clone();
    syn::visit_mut::VisitMut::visit_expr_mut(&mut Strip(true), &mut e);
    e.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

impl<'m> Rw<'m> {
    fn mac(&mut self, m: &Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "todo" | "unimplemented" | "panic" | "unreachable" => {
                self.ed.text(rr(m), "crate::vx::panics()");
                self.count("R13 panicking macro -> call with precondition false");
            }
            "write" | "writeln" if self.cur.as_ref().map(|c| c.contains("Display[Issues")) == Some(true) => {
                let mut ps = vec![Piece::T("({ ".into())];
                self.mac_args(m, 2, &mut ps);
                ps.push(Piece::T("crate::vx::vx_write() })".into()));
                self.ed.replace(rr(m), ps);
            }
            "format" => {
                self.ed.text(rr(m), "crate::vx::fmt()");
                self.count("R18 format! -> opaque string");
            }
            _ => {}
        }
    }
    /// arguments of a formatting macro which may panic are evaluated
    fn mac_args(&mut self, m: &Macro, skip: usize, ps: &mut Vec<Piece>) {
        if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter().skip(skip) {
                let a = if let Expr::Assign(x) = a { &*x.right } else { a };
                let t = a.to_token_stream().to_string();
                if t.contains('[') || t.contains("unwrap") || t.contains("expect") || t.contains("count") {
                    let q = rr(a);
                    ps.extend([Piece::T("let _ = ".into()), Piece::S(q.start, q.end), Piece::T("; ".into())]);
                    self.visit_expr(Box::leak(Box::new(a.clone())));
                }
            }
        }
    }
    fn guarded_field(&self, f: &ExprField) -> bool {
        let t = f.to_token_stream().to_string().replace(' ', "");
        self.db.guards.iter().any(|(k, who)| t.ends_with(&format!(".{k}")) && !self.cur.as_ref().map(|c| who.contains(c)).unwrap_or(false))
    }
    fn all_inv(&self, _name: &str, _p: &str, _b: &str) -> String {
        format!(" {} decreases vx_cs.rest(), ", self.spec.loops.get("any").cloned().unwrap_or_default())
    }
}

pub fn run(mods: &[Module], db: &Db, types: &Types, external: &BTreeSet<String>, out: &Path) -> serde_json::Value {
    let fns = all_fns(mods, db);
    let template = make_template(mods);
    let mut reports = vec![];
    let mut rewrites: BTreeMap<String, usize> = BTreeMap::new();
    let mut used = BTreeSet::new();
    let mut unsupported = vec![];
    let mut lib = String::new();
    for m in mods {
        let mut rw = Rw {
            m,
            db,
            ed: Edits::default(),
            fns: &fns,
            used: BTreeSet::new(),
            external,
            template: &template,
            report: vec![],
            rewrites: BTreeMap::new(),
            cur: None,
            ret_ty: String::new(),
            parser: None,
            spec: FnSpec::default(),
            scopes: vec![],
            inline: vec![],
            breaks: vec![],
            n: 0,
            nloops: 0,
            remk: None,
            rawk: None,
            plain_closures: BTreeSet::new(),
            vlink: String::new(),
            stepname: "step",
            selfty: None,
            ret_cow: false,
            start_hint: String::new(),
            tymap: types,
            rec: crate::gen::recursive(types),
            unsupported: vec![],
            tail: String::new(),
        };
        for a in &m.file.attrs {
            rw.ed.text(rr(a), "");
        }
        if m.name == "lib" {
            for it in &m.file.items {
                match it {
                    Item::Mod(x) if x.content.is_none() => {
                        rw.ed.insert(rr(&x.mod_token).start, "pub ");
                        rw.attrs(&x.attrs, "");
                    }
                    _ => rw.item(it),
                }
            }
        } else {
            for it in &m.file.items {
                rw.item(it);
            }
        }
        let body = rw.ed.render(&m.src);
        let extra = format!("{}\n{}", rw.tail, db.modules.get(&m.name).cloned().unwrap_or_default());
        reports.extend(rw.report);
        for (k, v) in rw.rewrites {
            if !k.starts_with('_') {
                *rewrites.entry(k).or_default() += v;
            }
        }
        used.extend(rw.used);
        unsupported.extend(rw.unsupported);
        if m.name == "lib" {
            lib = format!("{}\n{}", body, extra);
        } else {
            let uses = if m.name == "span" { "#[allow(unused_imports)] use crate::vx::Vx;\n" } else { "#[allow(unused_imports)] use crate::span::{SpannedExt, OptSpannedExt};\n#[allow(unused_imports)] use crate::vx::Vx;\n" };
            let text = format!("#[allow(unused_imports)] use vstd::prelude::*;\nverus! {{\n{uses}{body}\n{extra}\n}} // verus!\n");
            std::fs::write(out.join(format!("{}.rs", m.name)), text).unwrap();
        }
    }
    let g = format!("{}\n{}", gen::generate(types, &db.types, db.tags.contains("wf") || db.tags.contains("clean") || db.tags.contains("names"), db.tags.contains("clean") || db.tags.contains("names")), gen::keyword_table(mods));
    std::fs::write(
        out.join("vx.rs"),
        format!("use vstd::prelude::*;\nverus! {{\n{}\n{}\n}} // verus!\n", db.prelude, g),
    )
    .unwrap();
    let libtext = format!(
        "#![feature(never_type, const_destruct, sized_hierarchy, allocator_api)]\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, non_camel_case_types, unused_parens, unused_braces, unused_labels, unreachable_code, unused_must_use, dependency_on_unit_never_type_fallback)]\n{}extern crate alloc;\nuse vstd::prelude::*;\nverus! {{\npub mod vx;\n{lib}\n}} // verus!\n",
        if db.tags.contains("term") { "" } else { "#![verifier::exec_allows_no_decreases_clause]\n" }
    );
    std::fs::write(out.join("lib.rs"), libtext).unwrap();
    let missing: Vec<_> = db.fns.keys().filter(|k| !used.contains(*k)).cloned().collect();
    let recursion: BTreeMap<String, usize> = fns.values().filter_map(|f| f.rank.map(|r| (f.id.clone(), r))).collect();
    json!({
        "functions": reports,
        "rewrites": rewrites,
        "contracts_without_function": missing,
        "unsupported": unsupported,
        "recursion_rank": recursion,
    })
}

/// the fields of the parser that make up the mode of parsing
const MODE: [&str; 3] = ["delimiter", "permit_compound_statements", "options"];


/// the receiver of a combinator is an Option by the look of it
fn option_like(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => option_like(&p.expr),
        Expr::MethodCall(m) => matches!(
            m.method.to_string().as_str(),
            "opt_span" | "opt_join_span" | "skip_token" | "skip_keyword" | "get" | "last" | "first" | "pop" | "take" | "next" | "peek" | "ok" | "split_once" | "strip_prefix" | "strip_suffix" | "checked_sub" | "checked_add" | "find"
        ) || ((m.method == "as_ref" || m.method == "as_mut" || m.method == "as_deref" || m.method == "clone") && m.args.is_empty())
            || ((m.method == "map" || m.method == "and_then" || m.method == "filter") && option_like(&m.receiver)),
        _ => false,
    }
}

/// the expression leaves the function it stands in
fn leaves(e: &Expr) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr(&mut self, e: &'a Expr) {
            if matches!(e, Expr::Return(_) | Expr::Try(_) | Expr::Break(_) | Expr::Continue(_)) {
                self.0 = true;
            }
            visit::visit_expr(self, e);
        }
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}
