//! vx: mechanical extraction of /repo/src into a Verus crate.
//! See /verif/DESIGN.md ("What the extraction changes") for the complete list of rewrites.
mod edit;
mod gen;
mod contracts;
mod inline;
mod rewrite;

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub struct Module {
    pub name: String,
    pub path: PathBuf,
    pub src: String,
    pub file: syn::File,
}

fn load(src: &Path) -> Vec<Module> {
    let mut v = Vec::new();
    let mut names: Vec<_> = std::fs::read_dir(src)
        .unwrap_or_else(|e| fail(&format!("cannot read {}: {}", src.display(), e)))
        .filter_map(|e| e.ok().map(|e| e.path()))
        .filter(|p| p.extension().map(|e| e == "rs").unwrap_or(false))
        .collect();
    names.sort();
    for p in names {
        let name = p.file_stem().unwrap().to_string_lossy().to_string();
        let mut src = std::fs::read_to_string(&p).unwrap();
        if name == "keywords" {
            src = expand_keywords(&p, &src);
        }
        let file = syn::parse_file(&src)
            .unwrap_or_else(|e| fail(&format!("cannot parse {}: {}", p.display(), e)));
        v.push(Module { name, path: p, src, file });
    }
    v
}

pub fn fail(msg: &str) -> ! {
    eprintln!("vx: {}", msg);
    std::process::exit(3)
}

/// The keyword tables are produced by macro_rules; rustc itself expands them.
fn expand_keywords(path: &Path, _src: &str) -> String {
    let out = std::process::Command::new("rustc")
        .arg("+nightly")
        .args(["-Zunpretty=expanded", "--edition=2021", "--crate-type=lib"])
        .arg(path)
        .env_remove("RUSTUP_TOOLCHAIN")
        .output()
        .unwrap_or_else(|e| fail(&format!("rustc expansion: {}", e)));
    if !out.status.success() {
        fail(&format!("keywords expansion failed: {}", String::from_utf8_lossy(&out.stderr)));
    }
    String::from_utf8(out.stdout).unwrap()
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut src, mut con, mut out) = (None, None, None);
    let mut opts: BTreeMap<String, String> = BTreeMap::new();
    while let Some(a) = args.next() {
        let mut val = || args.next().unwrap_or_else(|| fail("missing value"));
        match a.as_str() {
            "--src" => src = Some(PathBuf::from(val())),
            "--contracts" => con = Some(PathBuf::from(val())),
            "--out" => out = Some(PathBuf::from(val())),
            _ if a.starts_with("--") => {
                let v = val();
                opts.insert(a[2..].to_string(), v);
            }
            _ => fail(&format!("unknown argument {}", a)),
        }
    }
    let (src, con, out) = (src.unwrap(), con.unwrap(), out.unwrap());
    let mut mods = load(&src);
    if opts.contains_key("list-fns") {
        for i in inline::list(&mods) {
            println!("{}", i);
        }
        return;
    }
    // helpers the contracts do not know are inlined
    let mut inlined = (vec![], vec![]);
    if !opts.contains_key("no-inline") {
        if let Ok(t) = std::fs::read_to_string(con.join("functions.txt")) {
            let known: BTreeSet<String> = t.lines().map(|l| l.trim().to_string()).collect();
            inlined = inline::run(&mut mods, &known);
        }
    }
    let tags: BTreeSet<String> = opts.get("tags").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    // "lite": slices which leave panic freedom to the slice wf
    let mut tags = tags;
    if !tags.contains("wf") && ["clean", "state", "args", "names", "strs"].iter().any(|t| tags.contains(*t)) {
        tags.insert("lite".into());
    }
    // "nospan": values are described by something other than their spans
    if tags.contains("clean") || tags.contains("names") {
        tags.insert("nospan".into());
    }
    // "tok": which tokens operators and keywords are
    if tags.contains("kwds") || tags.contains("prec") {
        tags.insert("tok".into());
    }
    // "nokw": what operators are written as does not matter
    if (tags.contains("wf") || tags.contains("lite")) && !tags.contains("tok") {
        tags.insert("nokw".into());
    }
    // "nmspec": the names themselves (the slice kwds shares the rest of the slice names)
    if tags.contains("names") && !tags.contains("tok") {
        tags.insert("nmspec".into());
    }
    // "lex": slices which need to know the tokens themselves
    if tags.contains("names") || !["wf", "term", "err", "state", "clean", "args", "strs", "min"].iter().any(|t| tags.contains(*t)) {
        tags.insert("lex".into());
    }
    let db = contracts::load(&con, &tags);
    let external: BTreeSet<String> = opts
        .get("external")
        .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect())
        .unwrap_or_default();
    let types = gen::collect_types(&mods);
    std::fs::create_dir_all(&out).unwrap();
    let mut report = rewrite::run(&mods, &db, &types, &external, &out);
    report["inlined"] = serde_json::json!(inlined.0);
    report["new_functions"] = serde_json::json!(inlined.1);
    std::fs::write(out.join("report.json"), serde_json::to_string_pretty(&report).unwrap()).unwrap();
}
