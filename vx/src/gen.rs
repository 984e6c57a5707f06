//! Well-formedness predicates generated from the AST type definitions.
use crate::Module;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum Ty {
    Span,
    Prim,
    Str,
    Vec(Box<Ty>),
    Opt(Box<Ty>),
    Boxed(Box<Ty>),
    Tuple(Vec<Ty>),
    Named(String),
    Unknown(String),
}
#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
}
#[derive(Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub named: bool,
    pub fields: Vec<Field>,
}
#[derive(Clone, Debug)]
pub struct TypeDef {
    pub module: String,
    pub name: String,
    pub lifetimes: Vec<String>,
    pub is_enum: bool,
    pub variants: Vec<Variant>,
}

pub type Types = BTreeMap<String, TypeDef>;
const SKIP: &[&str] = &["Parser", "Lexer", "Issues", "Issue", "Fragment", "IssueHandle", "ParseOptions", "Token", "Keyword", "ParseError"];

pub fn parse_ty(t: &syn::Type) -> Ty {
    use syn::*;
    match t {
        Type::Reference(r) => match &*r.elem {
            Type::Path(p) if p.path.is_ident("str") => Ty::Str,
            t => parse_ty(t),
        },
        Type::Tuple(t) => Ty::Tuple(t.elems.iter().map(parse_ty).collect()),
        Type::Paren(p) => parse_ty(&p.elem),
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let args: Vec<Ty> = match &s.arguments {
                PathArguments::AngleBracketed(a) => a
                    .args
                    .iter()
                    .filter_map(|a| if let GenericArgument::Type(t) = a { Some(parse_ty(t)) } else { None })
                    .collect(),
                _ => vec![],
            };
            let one = |args: Vec<Ty>| Box::new(args.into_iter().next().unwrap_or(Ty::Prim));
            match s.ident.to_string().as_str() {
                "Span" | "Range" => Ty::Span,
                "Vec" => Ty::Vec(one(args)),
                "Option" => Ty::Opt(one(args)),
                "Box" => Ty::Boxed(one(args)),
                "Cow" | "String" | "str" => Ty::Str,
                "bool" | "char" | "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize"
                | "f32" | "f64" => Ty::Prim,
                x => Ty::Named(x.to_string()),
            }
        }
        x => Ty::Unknown(format!("{:?}", x)),
    }
}

pub fn collect_types(mods: &[Module]) -> Types {
    let mut out = Types::new();
    for m in mods {
        for it in &m.file.items {
            let (name, gens, is_enum, variants) = match it {
                syn::Item::Struct(s) => (
                    s.ident.to_string(),
                    &s.generics,
                    false,
                    vec![variant(&s.ident, &s.fields)],
                ),
                syn::Item::Enum(e) => (
                    e.ident.to_string(),
                    &e.generics,
                    true,
                    e.variants.iter().map(|v| variant(&v.ident, &v.fields)).collect(),
                ),
                _ => continue,
            };
            if SKIP.contains(&name.as_str()) {
                continue;
            }
            let lifetimes: Vec<String> = gens.lifetimes().map(|l| l.lifetime.to_string()).collect();
            if gens.type_params().next().is_some() {
                continue;
            }
            out.insert(name.clone(), TypeDef { module: m.name.clone(), name, lifetimes, is_enum, variants });
        }
    }
    out
}
fn variant(name: &syn::Ident, f: &syn::Fields) -> Variant {
    Variant {
        name: name.to_string(),
        named: matches!(f, syn::Fields::Named(_)),
        fields: f
            .iter()
            .enumerate()
            .map(|(i, f)| Field {
                name: f.ident.as_ref().map(|i| i.to_string()).unwrap_or(format!("{}", i)),
                ty: parse_ty(&f.ty),
            })
            .collect(),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Wf,
    In,
}
struct G<'t> {
    types: &'t Types,
    /// for each type and predicate: is it non trivial
    nontriv: BTreeMap<(String, bool), bool>,
    n: usize,
    clean: bool,
}
impl<'t> G<'t> {
    fn has(&self, t: &Ty, w: What) -> bool {
        match t {
            Ty::Span => w == What::In || !self.clean,
            Ty::Prim | Ty::Str | Ty::Unknown(_) => false,
            Ty::Vec(t) | Ty::Opt(t) | Ty::Boxed(t) => self.has(t, w),
            Ty::Tuple(v) => v.iter().any(|t| self.has(t, w)),
            Ty::Named(n) => match n.as_str() {
                "Token" => w == What::Wf && !self.clean,
                _ => *self.nontriv.get(&(n.clone(), w == What::Wf)).unwrap_or(&false),
            },
        }
    }
    fn call(&mut self, t: &Ty, e: &str, w: What) -> String {
        if !self.has(t, w) {
            return "true".into();
        }
        match t {
            Ty::Span => match w {
                What::Wf => format!("crate::vx::span_ok(s, {})", e),
                What::In => format!("crate::vx::span_in({}, lo, hi)", e),
            },
            Ty::Vec(t) => {
                self.n += 1;
                let i = format!("i{}", self.n);
                let inner = self.call(t, &format!("{}@[{}]", e, i), w);
                format!("(forall|{i}: int| #![trigger {e}@[{i}]] 0 <= {i} < {e}@.len() ==> {inner})")
            }
            Ty::Opt(t) => {
                self.n += 1;
                let x = format!("x{}", self.n);
                let inner = self.call(t, &x, w);
                format!("(match {e} {{ Some({x}) => {inner}, None => true }})")
            }
            Ty::Boxed(t) => {
                let e = format!("(*{})", e);
                self.call(t, &e, w)
            }
            Ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    let c = self.call(t, &format!("{}.{}", e, i), w);
                    if c != "true" {
                        v.push(c)
                    }
                }
                format!("({})", v.join(" && "))
            }
            Ty::Named(n) => match w {
                What::Wf => format!("crate::vx::wf_{}({}, s)", n, e),
                What::In => format!("crate::vx::in_{}({}, lo, hi)", n, e),
            },
            _ => "true".into(),
        }
    }
    fn mono(&mut self, t: &Ty, e: &str) -> String {
        if !self.has(t, What::In) {
            return String::new();
        }
        match t {
            Ty::Span => String::new(),
            Ty::Vec(t) => {
                self.n += 1;
                let i = format!("i{}", self.n);
                let el = format!("{}@[{}]", e, i);
                let (lo, inner) = (self.call(t, &el, What::In), self.mono(t, &el));
                let hi = lo.replace("lo, hi)", "lo2, hi2)");
                if inner.is_empty() {
                    return String::new();
                }
                format!("assert forall|{i}: int| #![trigger {e}@[{i}]] 0 <= {i} < {e}@.len() implies {hi} by {{ assert({lo}); {inner} }}\n")
            }
            Ty::Opt(t) => {
                self.n += 1;
                let x = format!("x{}", self.n);
                let inner = self.mono(t, &x);
                if inner.is_empty() {
                    return inner;
                }
                format!("match {e} {{ Some({x}) => {{ {inner} }}, None => {{}} }}\n")
            }
            Ty::Boxed(t) => self.mono(t, &format!("(*{})", e)),
            Ty::Tuple(ts) => ts.iter().enumerate().map(|(i, t)| self.mono(t, &format!("{}.{}", e, i))).collect(),
            Ty::Named(n) => format!("crate::vx::mono_{}({}, lo, hi, lo2, hi2);\n", n, e),
            _ => String::new(),
        }
    }
}

fn pat(td: &TypeDef, v: &Variant) -> String {
    let path = if td.is_enum { format!("crate{}::{}::{}", modp(&td.module), td.name, v.name) } else { format!("crate{}::{}", modp(&td.module), td.name) };
    if v.fields.is_empty() {
        return path;
    }
    if v.named {
        format!("{} {{ {} }}", path, v.fields.iter().map(|f| format!("{}: f_{}", f.name, f.name)).collect::<Vec<_>>().join(", "))
    } else {
        format!("{}({})", path, v.fields.iter().map(|f| format!("f_{}", f.name)).collect::<Vec<_>>().join(", "))
    }
}

/// Which named types (transitively) contain a Named type, used for recursion detection.
fn named_refs(t: &Ty, out: &mut BTreeSet<String>) {
    match t {
        Ty::Vec(t) | Ty::Opt(t) | Ty::Boxed(t) => named_refs(t, out),
        Ty::Tuple(v) => v.iter().for_each(|t| named_refs(t, out)),
        Ty::Named(n) => {
            out.insert(n.clone());
        }
        _ => {}
    }
}

/// types that can contain a value of the same type
pub fn recursive(types: &Types) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for n in types.keys() {
        let (mut seen, mut todo) = (BTreeSet::new(), vec![n.clone()]);
        while let Some(x) = todo.pop() {
            if let Some(td) = types.get(&x) {
                let mut s = BTreeSet::new();
                td.variants.iter().flat_map(|v| &v.fields).for_each(|f| named_refs(&f.ty, &mut s));
                for y in s {
                    if seen.insert(y.clone()) {
                        todo.push(y)
                    }
                }
            }
        }
        if seen.contains(n) {
            out.insert(n.clone());
        }
    }
    out
}
pub fn generate(types: &Types, over: &BTreeMap<String, BTreeMap<String, String>>, on: bool, clean: bool) -> String {
    // least fixpoint of "contains a span" (true => predicate needed)
    let mut g = G { types, nontriv: BTreeMap::new(), n: 0, clean };
    while on {
        let mut ch = false;
        for (n, td) in g.types {
            for w in [What::Wf, What::In] {
                let k = (n.clone(), w == What::Wf);
                if g.nontriv.get(&k) == Some(&true) {
                    continue;
                }
                let h = td.variants.iter().any(|v| v.fields.iter().any(|f| g.has(&f.ty, w)))
                    || (w == What::Wf && over.get(n).map(|o| o.contains_key("wf")).unwrap_or(false));
                if h {
                    g.nontriv.insert(k, true);
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    // reachability for recursion
    let mut reach: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (n, td) in types {
        let mut s = BTreeSet::new();
        for v in &td.variants {
            for f in &v.fields {
                named_refs(&f.ty, &mut s)
            }
        }
        reach.insert(n.clone(), s);
    }
    loop {
        let mut ch = false;
        for n in types.keys() {
            let cur = reach[n].clone();
            let mut new = cur.clone();
            for m in &cur {
                if let Some(r) = reach.get(m) {
                    new.extend(r.iter().cloned());
                }
            }
            if new.len() != cur.len() {
                reach.insert(n.clone(), new);
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut o = String::new();
    for (n, td) in types {
        let lts = if td.lifetimes.is_empty() { String::new() } else { format!("<{}>", td.lifetimes.join(", ")) };
        let full = format!("crate{}::{}{}", modp(&td.module), n, lts);
        let rec = reach[n].contains(n);
        for w in [What::Wf, What::In] {
            let (fname, params) = match w {
                What::Wf => (format!("wf_{}", n), "s: Seq<char>"),
                What::In => (format!("in_{}", n), "lo: int, hi: int"),
            };
            let mut body = String::new();
            if g.nontriv.get(&(n.clone(), w == What::Wf)) == Some(&true) {
                writeln!(body, "    match x {{").unwrap();
                for v in &td.variants {
                    let mut c = vec![];
                    for f in &v.fields {
                        let e = g.call(&f.ty, &format!("f_{}", f.name), w);
                        if e != "true" {
                            c.push(e)
                        }
                    }
                    let e = if c.is_empty() { "true".into() } else { c.join("\n          && ") };
                    writeln!(body, "      {} => {},", pat(td, v), e).unwrap();
                }
                writeln!(body, "    }}").unwrap();
                if w == What::Wf {
                    if let Some(e) = over.get(n).and_then(|x| x.get("wf")) {
                        body = format!("({{ {} }}) && ({})", body, e.trim());
                    }
                }
            } else {
                body = "    true".into();
            }
            writeln!(
                o,
                "pub open spec fn {fname}{lts}(x: {full}, {params}) -> bool {} {{\n{body}\n}}",
                if rec { "decreases x" } else { "" }
            )
            .unwrap();
        }
        let mut body = String::new();
        if g.nontriv.get(&(n.clone(), false)) == Some(&true) {
            writeln!(body, "    match x {{").unwrap();
            for v in &td.variants {
                let mut c = String::new();
                for f in &v.fields {
                    c.push_str(&g.mono(&f.ty, &format!("f_{}", f.name)));
                }
                writeln!(body, "      {} => {{ {} }}", pat(td, v), c).unwrap();
            }
            writeln!(body, "    }}").unwrap();
        }
        writeln!(
            o,
            "pub proof fn mono_{n}{lts}(x: {full}, lo: int, hi: int, lo2: int, hi2: int) requires in_{n}(x, lo, hi), lo2 <= lo, hi <= hi2 ensures in_{n}(x, lo2, hi2) {} {{\n{body}\n}}",
            if rec { "decreases x" } else { "" }
        )
        .unwrap();
        let mut body = String::new();
        for v in &td.variants {
            let c: Vec<String> = v.fields.iter().filter(|f| g.has(&f.ty, What::Wf)).map(|f| format!("crate::vx::Vx::vwf(&f_{}, s)", f.name)).collect();
            let c = if c.is_empty() { "true".to_string() } else { c.join(" && ") };
            writeln!(body, "      {} => {},", pat(td, v), c).unwrap();
        }
        if g.nontriv.get(&(n.clone(), true)) == Some(&true) {
            writeln!(o, "pub broadcast proof fn parts_{n}{lts}(x: {full}, s: Seq<char>) requires #[trigger] crate::vx::Vx::vwf(&x, s) ensures match x {{\n{body}\n}} {{}}").unwrap();
        } else {
            writeln!(o, "pub broadcast proof fn parts_{n}{lts}(x: {full}, s: Seq<char>) ensures #[trigger] crate::vx::Vx::vwf(&x, s) {{}}").unwrap();
        }
        if g.nontriv.get(&(n.clone(), true)) == Some(&true) {
            let ov = over.get(n).and_then(|x| x.get("wf")).map(|e| format!("({}), ", e.trim())).unwrap_or_default();
            writeln!(o, "pub broadcast proof fn pwf_{n}{lts}(x: {full}, s: Seq<char>) requires {ov} match x {{\n{body}\n}} ensures #[trigger] crate::vx::Vx::vwf(&x, s) {{}}").unwrap();
        } else {
            writeln!(o, "pub broadcast proof fn pwf_{n}{lts}(x: {full}, s: Seq<char>) ensures #[trigger] crate::vx::Vx::vwf(&x, s) {{}}").unwrap();
        }
        let mut body = String::new();
        for v in &td.variants {
            let c: Vec<String> = v.fields.iter().filter(|f| g.has(&f.ty, What::In)).map(|f| format!("crate::vx::Vx::vin(&f_{}, lo, hi)", f.name)).collect();
            let c = if c.is_empty() { "true".to_string() } else { c.join(" && ") };
            writeln!(body, "      {} => {},", pat(td, v), c).unwrap();
        }
        writeln!(o, "pub broadcast proof fn pin_{n}{lts}(x: {full}, lo: int, hi: int) requires match x {{\n{body}\n}} ensures #[trigger] crate::vx::Vx::vin(&x, lo, hi) {{}}").unwrap();
        writeln!(o, "pub uninterp spec fn osp_{n}{lts}(x: {full}) -> Option<(int, int)>;").unwrap();
        writeln!(
            o,
            "impl{lts} crate::vx::Vx for {full} {{ open spec fn vwf(&self, s: Seq<char>) -> bool {{ crate::vx::wf_{n}(*self, s) }} open spec fn vin(&self, lo: int, hi: int) -> bool {{ crate::vx::in_{n}(*self, lo, hi) }} open spec fn vsome(&self) -> bool {{ true }} open spec fn osp(&self) -> Option<(int, int)> {{ crate::vx::osp_{n}(*self) }} proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {{ crate::vx::mono_{n}(*self, lo, hi, lo2, hi2); }} }}"
        )
        .unwrap();
    }
    o
}

fn modp(m: &str) -> String {
    if m == "lib" { String::new() } else { format!("::{}", m) }
}

/// `kw_of(w)`: the keyword whose own name is the word w. Read off the variant names of the enum, independently of
/// the function that recognises keywords.
pub fn keyword_table(mods: &[Module]) -> String {
    let names: Vec<String> = mods
        .iter()
        .flat_map(|m| &m.file.items)
        .filter_map(|i| if let syn::Item::Enum(e) = i { Some(e) } else { None })
        .filter(|e| e.ident == "Keyword")
        .flat_map(|e| e.variants.iter().map(|v| v.ident.to_string()))
        .collect();
    let names: Vec<&str> = names.iter().map(|v| v.as_str()).filter(|n| !["NOT_A_KEYWORD", "QUOTED_IDENTIFIER"].contains(n)).collect();
    let mut o = String::new();
    let mut calls = String::new();
    for (k, c) in names.chunks(50).enumerate() {
        o.push_str(&format!("#[verifier::opaque] pub open spec fn kwc_{k}(s: Seq<char>) -> Option<Keyword> {{ "));
        for n in c {
            o.push_str(&format!("if s == \"{n}\"@ {{ Some(Keyword::{n}) }} else "));
        }
        o.push_str("{ None } }\n");
        calls.push_str(&format!("if let Some(x) = kwc_{k}(s) {{ x }} else "));
    }
    o.push_str(&format!("#[verifier::opaque] pub open spec fn kw_of(s: Seq<char>) -> Keyword {{ {calls}{{ Keyword::NOT_A_KEYWORD }} }}\n"));
    let n = names.chunks(50).count();
    for k in 0..n {
        o.push_str(&format!("proof fn l_kwc_{k}(s: Seq<char>) ensures kwc_{k}(s) is Some ==> !(kwc_{k}(s)->Some_0 is QUOTED_IDENTIFIER) {{ reveal(kwc_{k}); }}\n"));
    }
    o.push_str("/// a word is never the keyword standing for quoted names\npub proof fn l_kw_of(s: Seq<char>) ensures !(kw_of(s) is QUOTED_IDENTIFIER) { reveal(kw_of); ");
    for k in 0..n {
        o.push_str(&format!("l_kwc_{k}(s); "));
    }
    o.push_str("}\n");
    o
}
