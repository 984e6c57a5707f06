//! Calls of functions the contracts do not know (new helpers) are replaced by the bodies of these functions.
//! `known` lists the functions of the tree for which the contracts were written; a function in it is never inlined.
use crate::rewrite::type_name;
use crate::Module;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

fn rr<T: Spanned>(t: &T) -> Range<usize> {
    t.span().byte_range()
}

struct Helper {
    id: String,
    short: String,
    module: usize,
    self_ty: Option<String>,
    sig: Signature,
    block: Block,
    item: Range<usize>,
}

fn collect(mods: &[Module]) -> Vec<Helper> {
    let mut v = vec![];
    for (k, m) in mods.iter().enumerate() {
        for it in &m.file.items {
            match it {
                Item::Fn(f) => v.push(Helper {
                    id: format!("{}::{}", m.name, f.sig.ident),
                    short: f.sig.ident.to_string(),
                    module: k,
                    self_ty: None,
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    item: rr(f),
                }),
                Item::Impl(i) if i.trait_.is_none() => {
                    let t = type_name(&i.self_ty);
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            v.push(Helper {
                                id: format!("{}::{}::{}", m.name, t, f.sig.ident),
                                short: f.sig.ident.to_string(),
                                module: k,
                                self_ty: Some(t.clone()),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                item: rr(f),
                            });
                        }
                    }
                }
                _ => {}
            }
        }
    }
    v
}

pub fn list(mods: &[Module]) -> Vec<String> {
    collect(mods).into_iter().map(|h| h.id).collect()
}

fn mentions(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == name,
        TokenTree::Group(g) => mentions(g.stream(), name),
        _ => false,
    })
}

/// `return` and `?` of the body itself (closures excluded)
#[derive(Default)]
struct Exits {
    returns: Vec<(Range<usize>, Option<Range<usize>>, bool)>,
    tries: usize,
    deep: usize,
    nested: bool,
}
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
    fn visit_expr_return(&mut self, e: &'ast ExprReturn) {
        let err = match e.expr.as_deref() {
            Some(Expr::Call(c)) => c.func.to_token_stream().to_string() == "Err",
            _ => false,
        };
        if self.deep > 0 {
            self.nested = true;
        }
        self.returns.push((rr(e), e.expr.as_ref().map(|x| rr(x)), err));
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_try(&mut self, e: &'ast ExprTry) {
        self.tries += 1;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) {
        self.deep += 1;
        visit::visit_expr_loop(self, e);
        self.deep -= 1;
    }
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
        self.deep += 1;
        visit::visit_expr_while(self, e);
        self.deep -= 1;
    }
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) {
        self.deep += 1;
        visit::visit_expr_for_loop(self, e);
        self.deep -= 1;
    }
}
/// unlabelled `break`s of a loop body
#[derive(Default)]
struct Breaks {
    v: Vec<(Range<usize>, bool)>,
    labels: bool,
}
impl<'ast> Visit<'ast> for Breaks {
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
    fn visit_expr_break(&mut self, e: &'ast ExprBreak) {
        self.labels |= e.label.is_some();
        self.v.push((rr(e), e.expr.is_some()));
        visit::visit_expr_break(self, e);
    }
}

struct Elim<'s> {
    src: &'s str,
    /// returns of errors stay
    keep_err: bool,
}
impl<'s> Elim<'s> {
    fn text(&self, r: Range<usize>) -> String {
        self.src[r].to_string()
    }
    fn has<T: Fn(&mut Exits)>(&self, f: T) -> (bool, bool) {
        let mut x = Exits::default();
        f(&mut x);
        (x.returns.iter().any(|r| !(self.keep_err && r.2)), x.nested)
    }
    fn block(&self, b: &Block) -> Option<String> {
        self.stmts(&b.stmts).map(|t| format!("{{ {} }}", t))
    }
    fn plain(&self, s: &[Stmt]) -> String {
        match (s.first(), s.last()) {
            (Some(a), Some(b)) => self.text(rr(a).start..rr(b).end),
            _ => String::new(),
        }
    }
    fn stmts(&self, s: &[Stmt]) -> Option<String> {
        let k = match s.iter().position(|x| self.has(|e| e.visit_stmt(x)).0) {
            None => return Some(self.plain(s)),
            Some(k) => k,
        };
        let pre = self.plain(&s[..k]);
        let rest = &s[k + 1..];
        let here = match &s[k] {
            Stmt::Expr(e, semi) => {
                let last = rest.is_empty();
                match e {
                    Expr::Return(_) => self.expr(e)?,
                    _ if last && semi.is_none() => self.expr(e)?,
                    Expr::If(i) => {
                        if self.has(|x| x.visit_expr(&i.cond)).0 || !self.diverges(&i.then_branch) {
                            return None;
                        }
                        let then = self.block(&i.then_branch)?;
                        let els = match &i.else_branch {
                            None => self.stmts(rest)?,
                            Some((_, e)) => {
                                if self.has(|x| x.visit_expr(e)).0 {
                                    return None;
                                }
                                format!("{}; {}", self.text(rr(e)), self.stmts(rest)?)
                            }
                        };
                        format!("if {} {} else {{ {} }}", self.text(rr(&*i.cond)), then, els)
                    }
                    Expr::Loop(l) => self.looped(&l.body, l.label.is_some(), &self.stmts(rest)?, None)?,
                    Expr::While(w) => self.looped(&w.body, w.label.is_some(), &self.stmts(rest)?, Some(&w.cond))?,
                    _ => return None,
                }
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = self.text(rr(&l.pat));
                if let Some((_, d)) = &init.diverge {
                    if self.has(|x| x.visit_expr(&init.expr)).0 {
                        return None;
                    }
                    format!("match {} {{ {} => {{ {} }}, _ => {} }}", self.text(rr(&*init.expr)), pat, self.stmts(rest)?, self.expr(d)?)
                } else if let Expr::Match(m) = &*init.expr {
                    let mut out = format!("match {} {{", self.text(rr(&*m.expr)));
                    let mut cont = 0;
                    for a in &m.arms {
                        let head = self.text(rr(&a.pat).start..rr(&a.fat_arrow_token).end);
                        if self.has(|x| x.visit_expr(&a.body)).0 {
                            out += &format!("{} {} ", head, wrap(self.expr(&a.body)?));
                        } else {
                            cont += 1;
                            out += &format!("{} {{ let {} = {}; {} }} ", head, pat, self.text(rr(&*a.body)), self.stmts(rest)?);
                        }
                    }
                    if cont != 1 {
                        return None;
                    }
                    out + "}"
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        Some(format!("{} {}", pre, here))
    }
    fn diverges(&self, b: &Block) -> bool {
        matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
    }
    /// a loop that may return, followed by `rest`
    fn looped(&self, body: &Block, label: bool, rest: &str, cond: Option<&Expr>) -> Option<String> {
        if label {
            return None;
        }
        let mut x = Exits::default();
        for s in &body.stmts {
            x.visit_stmt(s);
        }
        let mut b = Breaks::default();
        for s in &body.stmts {
            b.visit_stmt(s);
        }
        if x.nested || b.labels || b.v.iter().any(|b| b.1) {
            return None;
        }
        let out = if rest.trim().is_empty() { "()".to_string() } else { rest.to_string() };
        let out = if out.contains(';') || out.starts_with("let ") { format!("{{ {} }}", out) } else { out };
        let mut edits: Vec<(Range<usize>, String)> = vec![];
        for (r, e, err) in &x.returns {
            if self.keep_err && *err {
                continue;
            }
            edits.push((r.clone(), format!("break {}", e.clone().map(|e| self.text(e)).unwrap_or("()".into()))));
        }
        for (r, _) in &b.v {
            edits.push((r.clone(), format!("break {}", out)));
        }
        edits.sort_by_key(|e| e.0.start);
        let r = rr(body);
        let mut t = String::new();
        let mut pos = r.start;
        for (e, n) in edits {
            if e.start < pos {
                return None;
            }
            t += &self.src[pos..e.start];
            t += &n;
            pos = e.end;
        }
        t += &self.src[pos..r.end];
        Some(match cond {
            None => format!("loop {}", t),
            Some(Expr::Let(l)) => format!("loop {{ match {} {{ {} => {}, _ => break {} }} }}", self.text(rr(&*l.expr)), self.text(rr(&*l.pat)), t, out),
            Some(c) => format!("loop {{ if {} {} else {{ break {}; }} }}", self.text(rr(c)), t, out),
        })
    }
    fn expr(&self, e: &Expr) -> Option<String> {
        if !self.has(|x| x.visit_expr(e)).0 {
            return Some(self.text(rr(e)));
        }
        match e {
            Expr::Return(x) => Some(x.expr.as_ref().map(|x| self.text(rr(&**x))).unwrap_or("()".into())),
            Expr::Block(b) if b.label.is_none() => self.block(&b.block),
            Expr::If(i) => {
                if self.has(|x| x.visit_expr(&i.cond)).0 {
                    return None;
                }
                let els = self.expr(&i.else_branch.as_ref()?.1)?;
                Some(format!("if {} {} else {}", self.text(rr(&*i.cond)), self.block(&i.then_branch)?, wrap(els)))
            }
            Expr::Match(m) => {
                if self.has(|x| x.visit_expr(&m.expr)).0 {
                    return None;
                }
                let mut out = format!("match {} {{", self.text(rr(&*m.expr)));
                for a in &m.arms {
                    out += &format!("{} {} ", self.text(rr(&a.pat).start..rr(&a.fat_arrow_token).end), wrap(self.expr(&a.body)?));
                }
                Some(out + "}")
            }
            Expr::Loop(l) => {
                let mut b = Breaks::default();
                for s in &l.body.stmts {
                    b.visit_stmt(s);
                }
                if b.v.iter().any(|b| !b.1) {
                    return None;
                }
                if b.v.is_empty() { self.looped(&l.body, l.label.is_some(), "", None) } else { None }
            }
            _ => None,
        }
    }
}
fn wrap(t: String) -> String {
    if t.trim_start().starts_with('{') { t } else { format!("{{ {} }}", t) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ctx {
    Plain,
    Try,
    Tail,
}
struct Site {
    call: Range<usize>,
    outer: Range<usize>,
    recv: Option<String>,
    args: Vec<(String, Option<String>)>,
    ctx: Ctx,
}
struct Find<'a> {
    h: &'a Helper,
    src: &'a str,
    ret: String,
    tails: Vec<Range<usize>>,
    tries: Vec<Range<usize>>,
    closure: usize,
    out: Vec<Site>,
    bad: bool,
    in_macro: bool,
    self_ty: Option<String>,
}
fn ident_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}
impl<'a> Find<'a> {
    fn tail(&mut self, b: &Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            self.tail_expr(e);
        }
    }
    fn tail_expr(&mut self, e: &Expr) {
        self.tails.push(rr(e));
        match e {
            Expr::Block(b) => self.tail(&b.block),
            Expr::If(i) => {
                self.tail(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    self.tail_expr(e);
                }
            }
            Expr::Match(m) => m.arms.iter().for_each(|a| self.tail_expr(&a.body)),
            _ => {}
        }
    }
    fn site(&mut self, e: &Expr, recv: Option<&Expr>, args: Vec<&Expr>) {
        let call = rr(e);
        let recv = match recv {
            None => None,
            Some(r) => match ident_of(r) {
                Some(i) => Some(i),
                None => {
                    self.bad = true;
                    return;
                }
            },
        };
        let mut ctx = Ctx::Plain;
        let mut outer = call.clone();
        if let Some(t) = self.tries.iter().find(|t| t.start == call.start && t.end > call.end && self.src[call.end..t.end].trim() == "?") {
            ctx = Ctx::Try;
            outer = t.clone();
        } else if self.closure == 0 && self.tails.contains(&call) && self.ret == self.h.sig.output.to_token_stream().to_string() {
            ctx = Ctx::Tail;
        }
        let args = args.iter().map(|a| (self.src[rr(*a)].to_string(), ident_of(a).or_else(|| if let Expr::Reference(r) = a { if r.mutability.is_some() { ident_of(&r.expr).map(|i| format!("&mut {}", i)) } else { None } } else { None }))).collect();
        self.out.push(Site { call, outer, recv, args, ctx });
    }
}
impl<'a, 'ast> Visit<'ast> for Find<'a> {
    fn visit_item_fn(&mut self, f: &'ast ItemFn) {
        self.ret = f.sig.output.to_token_stream().to_string();
        self.tails.clear();
        self.tail(&f.block);
        visit::visit_item_fn(self, f);
    }
    fn visit_item_impl(&mut self, i: &'ast ItemImpl) {
        self.self_ty = Some(type_name(&i.self_ty));
        visit::visit_item_impl(self, i);
        self.self_ty = None;
    }
    fn visit_impl_item_fn(&mut self, f: &'ast ImplItemFn) {
        self.ret = f.sig.output.to_token_stream().to_string();
        self.tails.clear();
        self.tail(&f.block);
        visit::visit_impl_item_fn(self, f);
    }
    fn visit_expr_return(&mut self, e: &'ast ExprReturn) {
        if let Some(x) = &e.expr {
            if self.closure == 0 {
                self.tails.push(rr(&**x));
            }
        }
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast ExprClosure) {
        self.closure += 1;
        visit::visit_expr_closure(self, e);
        self.closure -= 1;
    }
    fn visit_expr_try(&mut self, e: &'ast ExprTry) {
        self.tries.push(rr(e));
        visit::visit_expr_try(self, e);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        if mentions(m.tokens.clone(), &self.h.short) {
            self.bad = true;
        }
    }
    fn visit_expr_path(&mut self, e: &'ast ExprPath) {
        // the function used as a value
        if e.path.segments.last().map(|s| s.ident == self.h.short.as_str()).unwrap_or(false) {
            self.bad = true;
        }
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::MethodCall(m) if m.method == self.h.short.as_str() && self.h.self_ty.is_some() => {
                if self.h.sig.receiver().is_none() {
                    self.bad = true;
                }
                self.site(e, Some(&m.receiver), m.args.iter().collect());
                self.visit_expr(&m.receiver);
                m.args.iter().for_each(|a| self.visit_expr(a));
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.last().map(|s| s.ident == self.h.short.as_str()).unwrap_or(false) {
                        if self.h.self_ty.is_some() && self.h.sig.receiver().is_some() {
                            if c.args.is_empty() {
                                self.bad = true;
                            } else {
                                self.site(e, Some(&c.args[0]), c.args.iter().skip(1).collect());
                            }
                        } else {
                            self.site(e, None, c.args.iter().collect());
                        }
                        c.args.iter().for_each(|a| self.visit_expr(a));
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            _ => visit::visit_expr(self, e),
        }
    }
}

/// replaces the identifier `name` (not after a dot) in the text r of src
fn subst(src: &str, r: Range<usize>, ts: TokenStream, name: &str, by: &str, star: Option<&str>) -> Option<String> {
    fn go(ts: TokenStream, name: &str, out: &mut Vec<(Range<usize>, char, char)>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let p = |k: Option<usize>| match k.and_then(|k| v.get(k)) {
            Some(TokenTree::Punct(p)) => p.as_char(),
            _ => ' ',
        };
        for (k, t) in v.iter().enumerate() {
            match t {
                TokenTree::Ident(i) if i == name => {
                    let before = p(k.checked_sub(1));
                    let dots = before == '.' && p(k.checked_sub(2)) != '.';
                    if !dots {
                        out.push((i.span().byte_range(), before, p(Some(k + 1))));
                    }
                }
                TokenTree::Group(g) => go(g.stream(), name, out),
                _ => {}
            }
        }
    }
    let mut hits = vec![];
    go(ts, name, &mut hits);
    hits.sort_by_key(|h| h.0.start);
    let mut t = String::new();
    let mut pos = r.start;
    for (h, before, after) in hits {
        if before == '*' {
            if let Some(s) = star {
                // *p becomes the variable itself
                let at = src[pos..h.start].rfind('*')? + pos;
                t += &src[pos..at];
                t += s;
                pos = h.end;
                continue;
            }
        }
        t += &src[pos..h.start];
        t += if after == '.' { star.unwrap_or(by) } else { by };
        pos = h.end;
    }
    t += &src[pos..r.end];
    Some(t)
}

/// the text to put in place of the call
fn expand(h: &Helper, s: &Site, src: &str, n: usize) -> Option<(Range<usize>, String)> {
    let params: Vec<&PatType> = h.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
    if params.len() != s.args.len() {
        return None;
    }
    // 1. parameters which are substituted: receivers and exclusive references
    let mut body = src[rr(&h.block)].to_string();
    let mut lets = (String::new(), String::new());
    let mut subs: Vec<(String, String, Option<String>)> = vec![];
    if let (Some(rv), Some(r)) = (&s.recv, h.sig.receiver()) {
        if r.reference.is_none() {
            return None;
        }
        if rv != "self" {
            subs.push(("self".into(), rv.clone(), None));
        }
    }
    for (k, p) in params.iter().enumerate() {
        let (mutable, name) = match &*p.pat {
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => (i.mutability.is_some(), i.ident.to_string()),
            _ => return None,
        };
        let (text, id) = &s.args[k];
        let exclusive = matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some());
        if exclusive {
            match id {
                Some(i) if i.starts_with("&mut ") => {
                    if mutable {
                        return None;
                    }
                    subs.push((name, i.clone(), Some(i[5..].to_string())));
                }
                Some(i) if *i == name => {}
                Some(i) => subs.push((name, i.clone(), None)),
                None => return None,
            }
        } else if id.as_deref() == Some(&name) && !mutable {
        } else {
            let t = p.ty.to_token_stream().to_string().replace("& ", "&");
            let simple = !t.contains('<') && !t.contains("impl") && !t.contains("Self");
            let ty = if simple { format!(": {}", t) } else { String::new() };
            lets.0 += &format!("let vxi{}_{}{} = {}; ", n, k, ty, text);
            lets.1 += &format!("let {}{} = vxi{}_{}; ", if mutable { "mut " } else { "" }, name, n, k);
        }
    }
    if !subs.is_empty() {
        // several substitutions: only if no new name is an old one
        for (a, b, _) in &subs {
            if subs.iter().any(|(x, _, _)| x != a && (x == b || b.ends_with(&format!(" {}", x)))) {
                return None;
            }
        }
        for (a, b, st) in &subs {
            let f: Block = parse_str(&body).ok()?;
            // positions in a block parsed on its own are relative to its text
            let base = rr(&f).start;
            let _ = base;
            body = subst(&body, 0..body.len(), f.to_token_stream(), a, b, st.as_deref())?;
        }
    }
    let b: Block = parse_str(&body).ok()?;
    let mut x = Exits::default();
    x.visit_block(&b);
    let unit = matches!(h.sig.output, ReturnType::Default);
    let all = |t: String| if lets.0.is_empty() { t } else { format!("{{ {}{}{} }}", lets.0, lets.1, t) };
    match s.ctx {
        Ctx::Tail => Some((s.call.clone(), all(body))),
        Ctx::Try => {
            let e = Elim { src: &body, keep_err: true };
            let t = e.block(&b)?;
            let nb: Block = parse_str(&t).ok()?;
            // a body ending in Ok(v), with no other way to succeed, is v
            if let Some(Stmt::Expr(Expr::Call(c), None)) = nb.stmts.last() {
                if c.func.to_token_stream().to_string() == "Ok" && c.args.len() == 1 {
                    let r = rr(c);
                    let v = &t[rr(&c.args[0])];
                    let t2 = format!("{}{}{}", &t[..r.start], v, &t[r.end..]);
                    return Some((s.outer.clone(), all(t2)));
                }
            }
            Some((s.call.clone(), format!("({})", all(t))))
        }
        Ctx::Plain => {
            if x.tries > 0 {
                return None;
            }
            let e = Elim { src: &body, keep_err: false };
            let t = e.block(&b)?;
            let _ = unit;
            Some((s.call.clone(), all(t)))
        }
    }
}

pub fn run(mods: &mut [Module], known: &BTreeSet<String>) -> (Vec<String>, Vec<String>) {
    let mut done = vec![];
    let mut kept: BTreeSet<String> = BTreeSet::new();
    for n in 0..200 {
        let all = collect(mods);
        let mut shorts: BTreeMap<String, usize> = BTreeMap::new();
        for h in &all {
            *shorts.entry(h.short.clone()).or_default() += 1;
        }
        let cands: Vec<&Helper> = all
            .iter()
            .filter(|h| {
                !known.contains(&h.id)
                    && !kept.contains(&h.id)
                    && shorts[&h.short] == 1
                    && h.sig.generics.type_params().next().is_none()
                    && !mentions(h.sig.inputs.to_token_stream(), "impl")
                    && !mentions(h.block.to_token_stream(), &h.short)
            })
            .collect();
        let Some(h) = cands.iter().find(|h| !cands.iter().any(|c| c.short != h.short && mentions(h.block.to_token_stream(), &c.short))) else { break };
        let src = mods[h.module].src.clone();
        let mut f = Find { h, src: &src, ret: String::new(), tails: vec![], tries: vec![], closure: 0, out: vec![], bad: false, in_macro: false, self_ty: None };
        f.visit_file(&mods[h.module].file);
        let elsewhere = mods.iter().enumerate().any(|(k, m)| k != h.module && mentions(m.file.to_token_stream(), &h.short));
        let _ = (f.in_macro, &f.self_ty);
        if f.bad || elsewhere {
            kept.insert(h.id.clone());
            continue;
        }
        let (range, text) = if let Some(s) = f.out.first() {
            match expand(h, s, &src, n) {
                Some(x) => x,
                None => {
                    kept.insert(h.id.clone());
                    continue;
                }
            }
        } else {
            done.push(h.id.clone());
            (h.item.clone(), String::new())
        };
        let new = format!("{}{}{}", &src[..range.start], text, &src[range.end..]);
        match parse_file(&new) {
            Ok(file) => {
                let m = &mut mods[h.module];
                m.src = new;
                m.file = file;
            }
            Err(_) => {
                let id = h.id.clone();
                kept.insert(id);
            }
        }
    }
    (done, kept.into_iter().collect())
}
