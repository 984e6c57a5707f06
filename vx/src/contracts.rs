//! Contract files: plain text, `@fn id` blocks with `@requires`, `@ensures`, ... sections.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    /// extra loop clauses; key "*" applies to all loops of the function
    pub loops: BTreeMap<String, String>,
    pub body_start: String,
    pub attrs: String,
    pub strict: Option<bool>,
    pub no_uniform: bool,
    /// uniform contract under the weaker parser invariant
    pub weak: bool,
    /// the function may change the parsing mode (delimiter, compound statements)
    pub free_mode: bool,
    /// loops over text that is not parsed (a piece of their text)
    pub rawloops: Vec<String>,
    /// the function may read placeholders without numbering them
    pub free_args: bool,
    pub no_uniform_loops: bool,
    pub no_ret: bool,
    pub no_errd: bool,
    pub external_body: bool,
    pub external: bool,
    /// (needle, text): insert text before the first statement containing needle
    pub before: Vec<(String, String)>,
    /// R25: `let X = match .. { p => e, .. }; REST` -> `match .. { p => { let X = e; REST }, .. }`
    pub taildup: Vec<String>,
    /// (pattern, text): wrap the arm's value: `{ proof { A } let vx_t = VALUE; proof { B } vx_t }`, text = A -- B
    pub arms: Vec<(String, String)>,
    /// proof around the tail expression of the body, text = A -- B (B may use vx_t)
    pub tail: String,
    pub replace_body: Option<String>,
    pub rank: Option<String>,
    pub loop_dec: String,
    /// R28: the top-level statements are verified in groups of about this many characters; text = extra facts kept at a cut
    pub cut: Option<(usize, String)>,
    /// R29: arms of a duplicated-tail match longer than this are verified on their own
    pub armcut: Option<usize>,
    pub armcut_inv: String,
    /// R34: what has to hold where this function itself takes a token
    pub guardcalls: String,
}
#[derive(Default, Debug)]
pub struct Db {
    pub fns: BTreeMap<String, FnSpec>,
    pub tags: BTreeSet<String>,
    pub modules: BTreeMap<String, String>,
    pub prelude: String,
    pub traits: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub types: BTreeMap<String, BTreeMap<String, String>>,
    /// traits whose impls for AST types are split into contract and body (R23)
    pub split: std::collections::BTreeSet<String>,
    /// ghost fields added to a struct: (struct, field, type, initial value)
    pub ghosts: Vec<(String, String, String, String)>,
    /// constructor of an enum variant replaced by a function with a contract: variant path -> function
    pub constructs: BTreeMap<String, String>,
    /// fields which only the named functions may read
    pub guards: BTreeMap<String, BTreeSet<String>>,
    /// default contract of every `&mut self` method of a type
    pub uniform: BTreeMap<String, FnSpec>,
}

/// Lines starting with `[[a,b]]` (`[[!a]]`) belong to the slices a and b (all slices but a) only.
pub fn slice(text: &str, tags: &BTreeSet<String>) -> String {
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        match t.strip_prefix("[[").and_then(|t| t.split_once("]]")) {
            Some((l, rest)) => {
                let hit = l.split(',').any(|x| match x.strip_prefix('!') { Some(x) => !tags.contains(x), None => tags.contains(x) });
                if hit {
                    out.push_str(rest.strip_prefix(' ').unwrap_or(rest));
                }
            }
            None => out.push_str(line),
        }
        out.push('\n');
    }
    out
}

pub fn load(dir: &Path, tags: &BTreeSet<String>) -> Db {
    let mut db = Db { tags: tags.clone(), ..Default::default() };
    let mut names: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let ext = p.extension().map(|e| e.to_string_lossy().to_string()).unwrap_or_default();
        let text = slice(&std::fs::read_to_string(&p).unwrap(), tags);
        if ext == "rs" {
            db.prelude.push_str(&text);
        } else if ext == "vc" {
            parse(&text, &mut db, &p.display().to_string());
        }
    }
    db
}

fn parse(text: &str, db: &mut Db, file: &str) {
    let mut cur: Vec<String> = Vec::new();
    let mut module: Option<String> = None;
    let mut tr: Option<String> = None;
    let mut im: Option<String> = None;
    let mut ty: Option<String> = None;
    let mut sect: (String, String) = (String::new(), String::new());
    let mut buf = String::new();
    macro_rules! flush {
        () => {{
            let b = std::mem::take(&mut buf);
            if let Some(m) = &module {
                db.modules.entry(m.clone()).or_default().push_str(&b);
            } else if let Some(m) = &tr {
                db.traits.entry(m.clone()).or_default().push_str(&b);
            } else if let Some(m) = &im {
                db.impls.entry(m.clone()).or_default().push_str(&b);
            } else if let Some(m) = &ty {
                if !sect.0.is_empty() && !b.trim().is_empty() {
                    db.types.entry(m.clone()).or_default().insert(sect.0.clone(), b);
                }
            } else {
                for c in &cur {
                    let f = match c.strip_prefix("uniform ") {
                        Some(t) => db.uniform.entry(t.to_string()).or_default(),
                        None => db.fns.entry(c.clone()).or_default(),
                    };
                    let b = b.clone();
                    let arg = sect.1.clone();
                    match sect.0.as_str() {
                        "" => {}
                        "ret" => f.ret = Some(arg),
                        "requires" => f.requires.push_str(&b),
                        "ensures" => f.ensures.push_str(&b),
                        "decreases" => f.decreases = b.trim().to_string(),
                        "loop" => {
                            f.loops.entry(if arg.is_empty() { "*".into() } else { arg }).or_default().push_str(&b);
                        }
                        "loopdec" => f.loop_dec.push_str(&b),
                        "start" => f.body_start.push_str(&b),
                        "attr" => f.attrs.push_str(&format!("{} ", arg)),
                        "strict" => f.strict = Some(true),
                        "nonstrict" => f.strict = Some(false),
                        "weak" => f.weak = true,
                        "rawloop" => f.rawloops.push(arg),
                        "free-mode" => f.free_mode = true,
                        "free-args" => f.free_args = true,
                        "no-uniform" => f.no_uniform = true,
                        "no-uniform-loops" => f.no_uniform_loops = true,
                        "no-errd" => f.no_errd = true,
                        "no-ret" => f.no_ret = true,
                        "external-body" => f.external_body = true,
                        "external" => f.external = true,
                        "arm" => f.arms.push((arg.split_whitespace().collect(), b)),
                        "tail" => f.tail.push_str(&b),
                        "taildup" => f.taildup.push(arg),
                        "before" => f.before.push((arg, b)),
                        "body" => f.replace_body = Some(b),
                        "cut" => f.cut = Some((arg.parse().unwrap_or(2500), b)),
                        "armcut" => {
                            f.armcut = Some(arg.parse().unwrap_or(400));
                            f.armcut_inv.push_str(&b);
                        }
                        "guardcalls" => f.guardcalls.push_str(b.trim()),
                        "rank" => f.rank = Some(arg),
                        x => crate::fail(&format!("{}: unknown section @{}", file, x)),
                    }
                }
            }
        }};
    }
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix('@') {
            flush!();
            let mut it = rest.splitn(2, ' ');
            let k = it.next().unwrap().trim().to_string();
            let a = it.next().unwrap_or("").trim().to_string();
            match k.as_str() {
                "fn" => {
                    cur = a.split_whitespace().map(|s| s.to_string()).collect();
                    for c in &cur {
                        db.fns.entry(c.clone()).or_default();
                    }
                    module = None;
                    tr = None;
                    im = None;
                    ty = None;
                    sect = Default::default();
                }
                "uniform" => {
                    cur = vec![format!("uniform {}", a)];
                    module = None;
                    tr = None;
                    im = None;
                    ty = None;
                    sect = Default::default();
                }
                "ghost" => {
                    let v: Vec<String> = a.splitn(4, ' ').map(|s| s.to_string()).collect();
                    db.ghosts.push((v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone()));
                }
                "guardread" => {
                    let mut it = a.split_whitespace().map(|s| s.to_string());
                    let f = it.next().unwrap();
                    db.guards.entry(f).or_default().extend(it);
                }
                "construct" => {
                    let (x, y) = a.split_once(' ').unwrap();
                    db.constructs.insert(x.to_string(), y.to_string());
                }
                "split" => {
                    db.split.extend(a.split_whitespace().map(|s| s.to_string()));
                }
                "module" | "trait" | "impl" | "type" => {
                    module = None;
                    tr = None;
                    im = None;
                    ty = None;
                    cur.clear();
                    sect = Default::default();
                    match k.as_str() {
                        "module" => module = Some(a),
                        "trait" => tr = Some(a),
                        "impl" => im = Some(a),
                        _ => ty = Some(a),
                    }
                }
                _ => sect = (k, a),
            }
        } else if line.trim_start().starts_with("##") {
            // comment
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush!();
}
