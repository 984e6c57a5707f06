use crate::util::*;
use crate::Case;
use sql_parse::{Issues, Level, OptSpanned, Spanned, Span};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn errors(i: &Issues<'_>) -> usize { i.get().iter().filter(|i| i.level == Level::Error).count() }
fn ok_span(s: &str, a: usize, b: usize) -> bool { a <= b && b <= s.len() && s.is_char_boundary(a) && s.is_char_boundary(b) }
fn case(sql: &str) -> Case { Case { sql: sql.to_string(), dialect: 0, args: 2, flags: 0 } }

/// inputs tried before random ones
pub fn fixed(prop: &str, corpus: &[String]) -> Vec<Case> {
    let mut r = Vec::new();
    match prop {
        "P01" | "P02" | "P04" | "P05" | "P06" | "P07" | "P13" | "P16" | "P19" => for c in corpus {
            for d in 0..3 { r.push(Case { sql: c.clone(), dialect: d, args: (d + 2) % 4, flags: d * 3 % 8 }); r.push(Case { sql: c.clone(), dialect: d, args: 0, flags: 3 });
                for a in [0, 1, 3] { r.push(Case { sql: format!("{};", c), dialect: d, args: a, flags: 7 }); }
                for x in [" )", " 1", " SELECT", ";", " (", ", "] { r.push(Case { sql: format!("{}{}", c, x), dialect: d, args: 2, flags: 0 }); }
                let p = pieces(c);
                for k in 0..p.len() { r.push(Case { sql: p[..k].join(" "), dialect: d, args: 2, flags: 4 }); r.push(Case { sql: format!("{};", p[..k].join(" ")), dialect: d, args: 2, flags: 5 }); }
            }
        },
        "P11" => {
            for w in include_str!("keywords.txt").split_whitespace() {
                r.push(case(w));
                r.push(case(&w.to_lowercase()));
                r.push(case(&format!("{}X", w)));
                r.push(case(&w[..w.len() - 1]));
                r.push(case(&w.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c }).collect::<String>()));
            }
        }
        "P15" => for v in ["", "\n", "\n\\.", "a\n\\.\n", "a\n\\.\nb"] { r.push(case(v)) },
        "P14" => for v in ["0", "1", "007", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999", "000000000000000000000000001"] { r.push(case(v)) },
        "P17" => for l in include_str!("golden.txt").lines().chain(include_str!("fidelity.txt").lines()) { if let Some((s, _)) = l.split_once("\t") { for d in 0..3 { r.push(Case { sql: s.to_string(), dialect: d, args: 2, flags: 0 }); } } },
        "P18" => for l in include_str!("dialect.txt").lines() { if let Some((_, s)) = l.split_once("\t") { for d in 0..3 { r.push(Case { sql: s.to_string(), dialect: d, args: 2, flags: 0 }); } } },
        _ => (),
    }
    if matches!(prop, "P13" | "P01" | "P03") {
        for v in ["$1", "$0", "$01", "$10", "$4294967295", "$4294967296", "$18446744073709551614", "$18446744073709551615", "$18446744073709551616", "$18446744073709551619", "$18446744073709551620", "$36893488147419103232", "$99999999999999999999", "$184467440737095516150"] {
            for a in 0..4 { for f in ["{}", "SELECT {}", "SELECT 1 FROM t WHERE a = {} AND b = $2", "SELECT ?, {}, %s;"] { r.push(Case { sql: f.replace("{}", v), dialect: a % 3, args: a, flags: if a == 3 { 4 } else { 0 } }); } }
        }
    }
    r
}

fn text(rng: &mut Rng, alphabet: &[&str], n: usize) -> String { (0..rng.below(n)).map(|_| *rng.pick_s(alphabet)).collect::<Vec<&str>>().concat() }
impl Rng { fn pick_s<'a, 'b>(&mut self, v: &'b [&'a str]) -> &'b &'a str { let i = self.below(v.len()); &v[i] } }

pub fn make(prop: &str, rng: &mut Rng, corpus: &[String], words: &[String]) -> Case {
    match prop {
        "P03" | "P11" => {
            if rng.chance(50) { return crate::gen(rng, corpus, words); }
            let a = ["a", "Z", "_", "0", "9", " ", "\n", "\r", "\t", "'", "\"", "`", "\\", "-", "--", "/", "//", "/*", "*/", "*", "@", "@@", "@@session", "@@GLOBAL", "@@sess", "$", "$$", "$1", "$0", "$18446744073709551615", "$18446744073709551616", "<", ">", "=", "!", "|", "&", "%", "s", "%s", ":", ".", "x", "X", "x'", "æ", "😀", "\u{2028}", "\u{0}", ";", "(", ")", "[", "]", "{", "}", "?", "#", "^", "~", "+", ",", "SELECT", "12.5", ".5", "1."];
            case(&text(rng, &a, 14))
        }
        "P08" => {
            let a = ["a", "''", "\"\"", "'", "\"", "\\n", "\\t", "\\r", "\\0", "\\b", "\\Z", "\\\\", "\\'", "\\\"", "\\%", "\\_", "\\q", "æ", "\\æ", "%", "_", " ", "\n", "😀", "x"];
            let n = 1 + rng.below(3);
            let mut s = String::from("SELECT ");
            for _ in 0..n {
                let q = if rng.chance(50) { "'" } else { "\"" };
                let mut t = String::new();
                for _ in 0..rng.below(8) { let x = *rng.pick_s(&a); if x != q { t.push_str(x) } }
                s.push_str(q); s.push_str(&t); s.push_str(q); s.push(' ');
            }
            case(&s)
        }
        "P14" => { let n = 1 + rng.below(24); case(&(0..n).map(|_| char::from(b'0' + rng.below(10) as u8)).collect::<String>()) }
        "P15" => {
            let a = ["\n", "\\", ".", "\\.", "\n\\.", "\n\\.\n", "a", " ", "\t", "\r", "1\t2", "æ", "\u{c}", "\u{b}", "\\.x", ";", "'"];
            case(&format!(";{}", text(rng, &a, 14)))
        }
        "P09" => case(&expr(rng)),
        "P20" => { let v: Vec<String> = (0..4).map(|_| rng.below(9).to_string()).collect(); case(&v.join(" ")) }
        "P12" if rng.chance(25) => {
            // a compound statement with an error in it, under another delimiter
            let c: Vec<&String> = corpus.iter().filter(|c| c.contains("BEGIN") && !c.contains("DELIMITER") && skeleton_closed(c)).collect();
            if c.is_empty() { return crate::gen(rng, corpus, words); }
            let mut p = pieces(c[rng.below(c.len())]);
            let i = rng.below(p.len());
            match rng.below(3) { 0 => { p.remove(i); } 1 => p[i] = words[rng.below(words.len())].clone(), _ => p.insert(i, words[rng.below(words.len())].clone()) }
            Case { sql: format!("\u{2}{}", p.join(" ")), dialect: rng.below(3), args: 0, flags: 0 }
        }
        "P13" => {
            let mut c = crate::gen(rng, corpus, words);
            if rng.chance(70) {
                if rng.chance(60) { c.sql = corpus[rng.below(corpus.len())].clone(); }
                let ph = ["?", "%s", "?", "$1"];
                c.args = 1 + rng.below(3);
                c.sql = pieces(&c.sql).into_iter().map(|w| if w.chars().all(|x| x.is_ascii_digit()) || w.starts_with('\'') { if rng.chance(70) { if c.flags & 4 != 0 && rng.chance(30) { "_LIST_".to_string() } else { ph[[0, 1, 2, 3][c.args]].to_string() } } else { w } } else { w }).collect::<Vec<_>>().join(" ");
            }
            c
        }
        "P12" => { let a = crate::gen(rng, corpus, words); let b = corpus[rng.below(corpus.len())].clone(); Case { sql: format!("{}\u{1}{}", a.sql, b), args: 0, ..a } }
        _ => crate::gen(rng, corpus, words),
    }
}

pub fn check(prop: &str, c: &Case) -> Option<String> {
    let r = catch_unwind(AssertUnwindSafe(|| check_inner(prop, c)));
    match r {
        Ok(r) => r,
        Err(e) => {
            if prop == "P01" {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Some(format!("panic: {}", m))
            } else if prop == "P13" {
                // reading a placeholder's number
                let n = (0..c.sql.len()).filter(|k| c.sql.as_bytes()[*k] == b'$').map(|k| c.sql[k + 1..].bytes().take_while(|b| b.is_ascii_digit()).count()).max().unwrap_or(0);
                if n < 19 { return None; }
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if m.contains("overflow") { Some(format!("a placeholder is not given its number: panic: {}", m)) } else { None }
            } else if prop == "P04" {
                // the text of an issue is cut out of the source by its span
                let m = e.downcast_ref::<String>().cloned().unwrap_or_default();
                if m.contains("char boundary") || m.contains("out of bounds of `") || m.contains("begin <= end") || m.contains("begin > end") { Some(format!("an issue is reported at an invalid range: {}", m)) } else { None }
            } else if prop == "P20" || prop == "P03" || prop == "P15" { Some("panics".to_string()) } else { None }
        }
    }
}

fn check_inner(prop: &str, c: &Case) -> Option<String> {
    let s = c.sql.as_str();
    let o = c.options();
    match prop {
        "P01" | "P02" => {
            let mut i = Issues::new(s);
            for v in sql_parse::parse_statements(s, &mut i, &o) { std::hint::black_box(v.span()); }
            if prop == "P01" { std::hint::black_box(format!("{}", i)); }
            let mut i = Issues::new(s);
            if let Some(v) = sql_parse::parse_statement(s, &mut i, &o) { std::hint::black_box(v.span()); }
            if prop == "P01" { std::hint::black_box(format!("{}", i)); }
            None
        }
        "P03" => lexing(s),
        "P11" => words(s),
        "P15" => stdin(s),
        "P14" => ints(s),
        "P20" => joins(s),
        "P08" => strings(c),
        "P09" => precedence(c),
        "P04" => {
            let mut i = Issues::new(s);
            let v = sql_parse::parse_statements(s, &mut i, &o);
            for t in v.iter() {
                let sp = t.span();
                if !ok_span(s, sp.start, sp.end) { return Some(format!("statement span {:?} is not a valid range of the source", sp)); }
                for r in tree(t).spans() { if !ok_span(s, r.start, r.end) { return Some(format!("node span {:?} is not a valid range of the source", r)); } }
            }
            issue_spans(s, &i)
        }
        "P05" => {
            let mut i = Issues::new(s);
            let v = sql_parse::parse_statements(s, &mut i, &o);
            if errors(&i) != 0 { return None; }
            for t in v.iter() {
                let sp = t.span();
                for r in tree(t).spans() { if r != (0..0) && !(sp.start <= r.start && r.end <= sp.end) { return Some(format!("the statement spans {:?} but contains a part at {:?}", sp, r)); } }
                if let Some(m) = covers(t) { return Some(m); }
            }
            None
        }
        "P06" => {
            let mut i = Issues::new(s);
            let v = sql_parse::parse_statement(s, &mut i, &o);
            if v.is_none() && errors(&i) == 0 { return Some("parsing failed but no error was reported".to_string()); }
            if let Some(v) = &v { if errors(&i) == 0 {
                let t = tree(v);
                if t.has("Invalid") { return Some("an invalid node was produced but no error was reported".to_string()); }
            } }
            let mut i = Issues::new(s);
            let v = sql_parse::parse_statements(s, &mut i, &o);
            if errors(&i) == 0 {
                for t in v.iter() { if tree(t).has("Invalid") { return Some("an invalid node was produced but no error was reported".to_string()); } }
                if let Some(m) = unparsed(c) { return Some(m); }
            }
            hook_err(c)
        }
        "P07" => appended(c),
        "P12" => state(c),
        "P13" => {
            let mut i = Issues::new(s);
            let v = sql_parse::parse_statements(s, &mut i, &o);
            if errors(&i) != 0 { return None; }
            let mut a: Vec<(usize, usize, usize)> = Vec::new();
            for t in v.iter() { tree(t).walk(&mut |n| if let Tree::Node(k, f) = n { if k == "Arg" || k == "ListHack" { if let Tree::Node(_, g) = &f[0].1 { if let (Tree::Atom(n), Tree::Span(x, y)) = (&g[0].1, &g[1].1) { a.push((*x, *y, n.parse().unwrap())); } } } }); }
            a.sort();
            for (n, (x, y, v)) in a.iter().enumerate() {
                let w = &s[*x..*y];
                let want = if let Some(d) = w.strip_prefix('$') { match d.parse::<usize>() { Ok(d) => d.wrapping_sub(1), Err(_) => return Some(format!("placeholder {:?} at {} is numbered {}, which its number does not fit", w, x, v)) } } else if c.args == 3 { continue } else { n };
                if *v != want { return Some(format!("placeholder {:?} at {} is numbered {} instead of {}", w, x, v, want)); }
                let ok = match w { "?" => c.args == 2, "%s" => c.args == 1, w if w.starts_with('$') => c.args == 3, w => w.eq_ignore_ascii_case("_LIST_") && c.flags & 4 != 0 };
                if !ok { return Some(format!("{:?} is taken as a placeholder", w)); }
            }
            None
        }
        "P16" => {
            let mut i = Issues::new(s);
            let v = sql_parse::parse_statements(s, &mut i, &o);
            let mut r = None;
            for t in v.iter() {
                tree(t).walk(&mut |n| if let Tree::Node(k, f) = n { if k == "Identifier" && f.len() == 2 && f[0].0 == "value" {
                    if let (Tree::Str(v), Tree::Span(a, b)) = (&f[0].1, &f[1].1) {
                        if !ok_span(s, *a, *b) { return; }
                        let w = &s[*a..*b];
                        let bare = w.strip_prefix('`').and_then(|w| w.strip_suffix('`')).or(w.strip_prefix('"').and_then(|w| w.strip_suffix('"'))).unwrap_or(w);
                        if bare != v { r = Some(format!("the identifier at {}..{} is {:?} in the source but {:?} in the tree", a, b, bare, v)); }
                    }
                } });
            }
            r
        }
        "P17" => {
            for l in include_str!("fidelity.txt").lines() {
                let p: Vec<&str> = l.split('\t').collect();
                if p[0] == s && (p[1] == "*" || p[1].contains(["M", "P", "S"][c.dialect])) {
                    let mut i = Issues::new(s);
                    let v = sql_parse::parse_statements(s, &mut i, &o);
                    let d = plain(&v.iter().map(|v| format!("{:?}", v)).collect::<Vec<_>>().join(" "));
                    for w in &p[2..] { if !d.contains(w) { return Some(format!("expected {} in {}", w, d)); } }
                }
            }
            for l in include_str!("golden.txt").lines() {
                let p: Vec<&str> = l.split('\t').collect();
                if p[0] == s && p[1].contains(["M", "P", "S"][c.dialect]) {
                    let d = golden(c).unwrap_or_default();
                    if d != p[2] { return Some(format!("expected {} but got {}", p[2], d)); }
                }
            }
            None
        }
        "P18" => {
            for l in include_str!("dialect.txt").lines() {
                let (k, t) = match l.split_once('\t') { Some(v) => v, None => continue };
                if t == s {
                    let mut i = Issues::new(s);
                    let _ = sql_parse::parse_statement(s, &mut i, &o);
                    let want = k.contains(["M", "P", "S"][c.dialect]);
                    if want != (errors(&i) == 0) { return Some(format!("{} for this dialect, errors reported: {}", if want { "allowed" } else { "not allowed" }, errors(&i))); }
                }
            }
            None
        }
        "P19" => warnings(c),
        _ => None,
    }
}

/// The trees of a text that parses without errors, without spans
pub fn golden(c: &Case) -> Option<String> {
    let mut i = Issues::new(&c.sql);
    let v = sql_parse::parse_statements(&c.sql, &mut i, &c.options());
    if errors(&i) > 0 { return None; }
    Some(plain(&v.iter().map(|v| format!("{:?}", v)).collect::<Vec<_>>().join(" ")))
}

/// Debug text without spans
fn plain(s: &str) -> String {
    let mut r = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            if j + 1 < b.len() && b[j] == '.' && b[j + 1] == '.' { j += 2; while j < b.len() && b[j].is_ascii_digit() { j += 1; } r.push('~'); i = j; continue; }
        }
        r.push(b[i]);
        i += 1;
    }
    r
}

fn issue_spans(s: &str, i: &Issues<'_>) -> Option<String> {
    for j in i.get() {
        if !ok_span(s, j.span.start, j.span.end) { return Some(format!("issue span {:?} is not a valid range of the source", j.span)); }
        if &s[j.span.clone()] != j.sql_segment { return Some(format!("issue text {:?} is not the text of its span {:?}", j.sql_segment, j.span)); }
        for f in &j.fragments {
            if !ok_span(s, f.span.start, f.span.end) { return Some(format!("fragment span {:?} is not a valid range of the source", f.span)); }
            if &s[f.span.clone()] != f.sql_segment { return Some(format!("fragment text {:?} is not the text of its span {:?}", f.sql_segment, f.span)); }
        }
    }
    None
}

/// text that is no part of a statement does not pass without an error
fn unparsed(c: &Case) -> Option<String> {
    let s = c.sql.as_str();
    let u = s.to_uppercase();
    if u.contains("DELIMITER") || u.contains("COPY") || s.contains("$$") || s.contains("--") || s.contains("//") || s.contains("/*") || v_empty(c) { return None; }
    let body = s.trim_end_matches([';', ' ', '\n']);
    for t in [format!("{} );", body), format!("{} 😀;", body), format!("SELECT 1; {}; 😀 ; SELECT 2;", body), format!("SELECT 1; {} ) ; SELECT 2;", body), format!("SELECT 1; {} 7 8;", body), format!("{}; 7 8;", body), format!("{}; ) ; SELECT 2;", body)] {
        let mut i = Issues::new(&t);
        sql_parse::parse_statements(&t, &mut i, &c.options());
        if errors(&i) == 0 { return Some(format!("no error is reported for {:?}", t)); }
    }
    for j in if body.contains(';') { vec![] } else { vec![")", "😀", "7 8", "; )", ",", "SELECT"] } {
        let t = format!("{} {}", body, j);
        let mut i = Issues::new(&t);
        sql_parse::parse_statement(&t, &mut i, &c.options());
        if errors(&i) == 0 { return Some(format!("no error is reported for the statement {:?}", t)); }
    }
    None
}
fn v_empty(c: &Case) -> bool { let mut i = Issues::new(&c.sql); sql_parse::parse_statements(&c.sql, &mut i, &c.options()).is_empty() }

/// A history of reports, drawn from the text, against a plain list
fn reporting(s: &str) -> Option<String> {
    let mut rng = Rng::new(s.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)));
    let cuts: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
    let mut old: Vec<std::ops::Range<usize>> = Vec::new();
    let mut i = Issues::new(s);
    let mut want: Vec<(Level, String, std::ops::Range<usize>, Vec<(String, std::ops::Range<usize>)>)> = Vec::new();
    for _ in 0..rng.below(6) {
        let mut span = |rng: &mut Rng| {
            if !old.is_empty() && rng.chance(50) { return old[rng.below(old.len())].clone(); }
            let (a, b) = (cuts[rng.below(cuts.len())], cuts[rng.below(cuts.len())]);
            old.push(a.min(b)..a.max(b));
            a.min(b)..a.max(b)
        };
        let (error, m, sp) = (rng.chance(50), ["a", "b"][rng.below(2)], span(&mut rng));
        want.push((if error { Level::Error } else { Level::Warning }, m.to_string(), sp.clone(), Vec::new()));
        let frags: Vec<(String, std::ops::Range<usize>)> = (0..rng.below(4)).map(|_| (["f", "g"][rng.below(2)].to_string(), span(&mut rng))).collect();
        {
            let mut h = if error { i.err(m, &sp) } else { i.warn(m, &sp) };
            for (m, sp) in &frags { h.frag(m.clone(), sp); }
        }
        want.last_mut().unwrap().3 = frags;
        let got: Vec<_> = i.get().iter().map(|j| (j.level, j.message.to_string(), j.span.clone(), j.fragments.iter().map(|f| (f.message.to_string(), f.span.clone())).collect::<Vec<_>>())).collect();
        if got != want { return Some(format!("after the reports {:?} the list is {:?}", want, got)); }
        if i.is_ok() { return Some("is_ok in spite of an issue".to_string()); }
    }
    if i.into_vec().len() != want.len() { return Some("into_vec is another list".to_string()); }
    None
}

fn appended(c: &Case) -> Option<String> {
    let s = c.sql.as_str();
    let mut i = Issues::new(s);
    let mut e = s.len().min(1);
    while !s.is_char_boundary(e) { e += 1; }
    i.err("first", &(0..e)).frag("more", &(0..e));
    i.warn("second", &(0..e));
    let before = i.get().to_vec();
    sql_parse::parse_statements(s, &mut i, &c.options());
    let mid = i.get().to_vec();
    if mid.len() < before.len() || mid[..before.len()] != before[..] { return Some("parsing changed the issues reported before".to_string()); }
    sql_parse::parse_statement(s, &mut i, &c.options());
    if i.get().len() < mid.len() || i.get()[..mid.len()] != mid[..] { return Some("parsing changed the issues reported before".to_string()); }
    let text = match catch_unwind(AssertUnwindSafe(|| format!("{}", i))) { Ok(t) => t, Err(_) => return Some("rendering the issues panics".to_string()) };
    let mut want = String::from("Issues:\n");
    let line = |p: usize| s[..p].matches('\n').count() + 1;
    for j in i.get() {
        want += &format!("  {} {}\n    At line {}, code {}\n", if j.level == Level::Error { "Error" } else { "Warning" }, j.message, line(j.span.start), j.sql_segment);
        for f in &j.fragments { want += &format!("  {}\n    At line {}, code {}\n", f.message, line(f.span.start), f.sql_segment); }
    }
    if text != want { return Some(format!("the issues are rendered as {:?} instead of {:?}", text, want)); }
    if let Some(m) = reporting(s) { return Some(m); }
    let mut k = Issues::new(s);
    if !k.is_ok() || format!("{}", k) != "No issues\n" { return Some("an empty list of issues is not rendered as none".to_string()); }
    k.warn("w", &(0..e));
    if k.is_ok() { return Some("is_ok in spite of an issue".to_string()); }
    None
}

// ---------------------------------------------------------------- lexer
#[cfg(sql_parse_verif)]
use sql_parse::verif_hook as hook;

fn is_word(c: char) -> bool { c == '_' || c.is_ascii_alphanumeric() }
/// reference tokenizer: (debug text of the token, or "Ident" with text and quoted flag)
fn ref_lex(s: &[(usize, char)], len: usize, p: &mut usize) -> (String, usize, usize) {
    let at = |i: usize| if i < s.len() { s[i].1 } else { '\u{ffff}' };
    let off = |i: usize| if i < s.len() { s[i].0 } else { len };
    let txt = |a: usize, b: usize| -> String { s[a..b].iter().map(|c| c.1).collect() };
    // skip blanks and comments
    loop {
        let i = *p;
        if i >= s.len() { return ("Eof".into(), len, len); }
        if matches!(at(i), ' ' | '\t' | '\n' | '\r') { *p += 1; continue; }
        if (at(i) == '-' && at(i + 1) == '-') || (at(i) == '/' && at(i + 1) == '/') {
            let mut j = i; while j < s.len() && !matches!(at(j), '\n' | '\r') { j += 1; }
            *p = (j + 1).min(s.len()); continue;
        }
        if at(i) == '/' && at(i + 1) == '*' {
            let mut j = i + 2; while j < s.len() && !(at(j) == '*' && at(j + 1) == '/') { j += 1; }
            if j < s.len() { *p = j + 2; continue; }
            *p = s.len(); return ("Invalid".into(), off(i), len);
        }
        break;
    }
    let a = *p;
    let c = at(a);
    let three: String = txt(a, (a + 3).min(s.len()));
    for (t, n) in [("<=>", "Spaceship"), ("&&", "DoubleAmpersand"), ("%s", "PercentS"), ("::", "DoubleColon"), ("$$", "DoubleDollar"), ("=>", "RArrow"), ("!=", "Neq"), ("!!", "DoubleExclamationMark"), ("<=", "LtEq"), ("<>", "Neq"), ("<<", "ShiftLeft"), (">=", "GtEq"), (">>", "ShiftRight"), ("||", "DoublePipe"),
        ("?", "QuestionMark"), (";", "SemiColon"), ("\\", "Backslash"), ("[", "LBracket"), ("]", "RBracket"), ("&", "Ampersand"), ("^", "Caret"), ("{", "LBrace"), ("}", "RBrace"), ("(", "LParen"), (")", "RParen"), (",", "Comma"), ("+", "Plus"), ("*", "Mul"), ("%", "Mod"), ("#", "Sharp"), ("~", "Tilde"), (":", "Colon"), ("=", "Eq"), ("!", "ExclamationMark"), ("<", "Lt"), (">", "Gt"), ("|", "Pipe"), ("-", "Minus"), ("/", "Div")] {
        if three.starts_with(t) { *p = a + t.len(); return (n.into(), off(a), off(*p)); }
    }
    if c == '@' {
        if at(a + 1) != '@' { *p = a + 1; return ("At".into(), off(a), off(*p)); }
        for (w, n) in [("session", "AtAtSession"), ("global", "AtAtGlobal")] {
            let e = a + 2 + w.len();
            if e <= s.len() && txt(a + 2, e).eq_ignore_ascii_case(w) { *p = e; return (n.into(), off(a), off(e)); }
        }
        return ("Invalid?".into(), off(a), 0);
    }
    if c == '$' {
        if at(a + 1).is_ascii_digit() && at(a + 1) != '0' {
            let mut j = a + 1; while at(j).is_ascii_digit() { j += 1; }
            *p = j;
            return match txt(a + 1, j).parse::<usize>() { Ok(v) => (format!("DollarArg({})", v), off(a), off(j)), Err(_) => ("Invalid?".into(), off(a), off(j)) };
        }
        return ("Invalid?".into(), off(a), 0);
    }
    if (c == 'x' || c == 'X') && at(a + 1) == '\'' { return ("Invalid?".into(), off(a), 0); }
    if c == '_' || c.is_ascii_alphabetic() {
        let mut j = a; while j < s.len() && is_word(at(j)) { j += 1; }
        *p = j; return (format!("Ident({:?}", txt(a, j)), off(a), off(j));
    }
    if c == '`' {
        let mut j = a + 1; while j < s.len() && (is_word(at(j)) || at(j) == '-') { j += 1; }
        if at(j) == '`' { *p = j + 1; return (format!("Ident({:?}, QUOTED_IDENTIFIER)", txt(a + 1, j)), off(a), off(j + 1)); }
        return ("Invalid?".into(), off(a), 0);
    }
    if c == '\'' || c == '"' {
        let mut j = a + 1;
        loop {
            if j >= s.len() { *p = s.len(); return ("Invalid".into(), off(a), len); }
            if at(j) == '\\' { j += 2; continue; }
            if at(j) == c { if at(j + 1) == c { j += 2; continue; } break; }
            j += 1;
        }
        *p = j + 1;
        return (format!("{}QuotedString({:?})", if c == '\'' { "Single" } else { "Double" }, txt(a + 1, j)), off(a), off(j + 1));
    }
    if c.is_ascii_digit() || (c == '.' && at(a + 1).is_ascii_digit()) {
        let mut j = a; let mut f = false;
        while at(j).is_ascii_digit() { j += 1; }
        if at(j) == '.' { f = true; j += 1; while at(j).is_ascii_digit() { j += 1; } }
        *p = j; return (format!("{}({:?})", if f { "Float" } else { "Integer" }, txt(a, j)), off(a), off(j));
    }
    *p = a + 1;
    if c == '.' { return ("Period".into(), off(a), off(a + 1)); }
    ("Invalid".into(), off(a), off(a + 1))
}
fn compare_tokens(s: &str, from: usize, got: &[(String, std::ops::Range<usize>)]) -> Option<String> {
    let cs: Vec<(usize, char)> = s.char_indices().filter(|c| c.0 >= from).collect();
    let mut p = 0;
    for (n, (t, r)) in got.iter().enumerate() {
        if !ok_span(s, r.start, r.end) { return Some(format!("token {} {} has the invalid span {:?}", n, t, r)); }
        let q = p;
        let (w, a, b) = ref_lex(&cs, s.len(), &mut p);
        if w == "Invalid?" {
            // how much an invalid token takes up is not fixed, but it must take up something
            if t != "Invalid" || r.start != a || (b != 0 && r.end != b) || r.end <= r.start { return Some(format!("token {} is {} at {:?}, expected Invalid at {}", n, t, r, a)); }
            p = cs.iter().position(|c| c.0 >= r.end).unwrap_or(cs.len());
            if p <= q { return Some("no progress".into()); }
            continue;
        }
        let same = if w.starts_with("Ident(") && !w.ends_with(')') { t.starts_with(&format!("{}, ", w)) && !t.ends_with(" QUOTED_IDENTIFIER)") } else { *t == w };
        if !same || r.start != a || r.end != b { return Some(format!("token {} is {} at {:?}, expected {} at {}..{}", n, t, r, w, a, b)); }
    }
    if got.last().map(|g| g.0 != "Eof").unwrap_or(true) { return Some("the token stream does not end".into()); }
    None
}
#[cfg(sql_parse_verif)]
fn lexing(s: &str) -> Option<String> { compare_tokens(s, 0, &hook::lex(s)) }
#[cfg(sql_parse_verif)]
fn words(s: &str) -> Option<String> {
    let all: Vec<&str> = include_str!("keywords.txt").split_whitespace().collect();
    let reserved: Vec<&str> = include_str!("reserved.txt").split_whitespace().collect();
    for (t, r) in hook::lex(s) {
        if !t.starts_with("Ident(") { continue; }
        let w = &s[r];
        let kw = t.rsplit(", ").next().unwrap().trim_end_matches(')');
        if w.starts_with('`') { if kw != "QUOTED_IDENTIFIER" { return Some(format!("the quoted identifier {} is taken as keyword {}", w, kw)); } continue; }
        let u = w.to_ascii_uppercase();
        let want = if all.contains(&u.as_str()) { u.as_str() } else if kw == u { continue } else { "NOT_A_KEYWORD" };
        if kw != want { return Some(format!("the word {} is recognised as {} instead of {}", w, kw, want)); }
        let (k, n, res) = hook::keyword(&u);
        if k != want || (want != "NOT_A_KEYWORD" && n != want) { return Some(format!("the word {} gives keyword {} named {}", u, k, n)); }
        if res != reserved.contains(&want) { return Some(format!("the word {} is{} reserved", u, if res { "" } else { " not" })); }
        let mut i = Issues::new(s);
        let _ = &mut i;
    }
    None
}
#[cfg(sql_parse_verif)]
fn stdin(s: &str) -> Option<String> {
    let (pos, data, span, rest) = hook::stdin(s, 1);
    let pos = pos?;
    let b: Vec<char> = s[pos..].chars().collect();
    let mut i = 0;
    while i < b.len() && b[i] != '\n' && b[i].is_ascii_whitespace() { i += 1; }
    // the mark may use the newline that precedes the data
    let text: String = b[i..].iter().collect();
    let base = pos + b[..i].iter().map(|c| c.len_utf8()).sum::<usize>();
    let start = if text.starts_with('\n') { 1 } else { 0 };
    let mut end = text.len();
    let mut next = text.len();
    for (k, _) in text.match_indices("\n\\.") {
        let e = k + 3;
        if e == text.len() || text[e..].starts_with('\n') { end = k + 1; next = (e + 1).min(text.len()); break; }
    }
    let want = &text[start..end.max(start)];
    if data != want { return Some(format!("the inline data is {:?} instead of {:?}", data, want)); }
    if span != (base + start..base + end) { return Some(format!("the inline data spans {:?} instead of {:?}", span, base + start..base + end)); }
    compare_tokens(s, base + next, &rest)
}
#[cfg(sql_parse_verif)]
fn ints(s: &str) -> Option<String> {
    if s.is_empty() || !s.chars().all(|c| c.is_ascii_digit()) { return None; }
    for (bits, max) in [(32u32, u32::MAX as u128), (64, u64::MAX as u128)] {
        let exact = s.trim_start_matches('0');
        let v = if exact.is_empty() { Some(0u128) } else if exact.len() > 25 { None } else { exact.parse::<u128>().ok() };
        let v = v.filter(|v| *v <= max);
        let (r, issues) = hook::int(s, bits);
        match (v, r) {
            (Some(v), Some((g, sp))) => { if v != g as u128 || issues != 0 || sp != (0..s.len()) { return Some(format!("{} is read as {} ({} issues)", s, g, issues)); } }
            (Some(_), None) => return Some(format!("{} is not read", s)),
            (None, _) => if issues == 0 { return Some(format!("{} does not fit {} bits but is not reported", s, bits)); },
        }
    }
    let q = format!("SELECT {}", s);
    let mut i = Issues::new(&q);
    let v = sql_parse::parse_statement(&q, &mut i, &sql_parse::ParseOptions::new());
    let want: Option<u64> = s.parse().ok();
    if errors(&i) == 0 {
        if let Some(v) = &v { let mut bad = None; tree(v).walk(&mut |n| if let Tree::Node(k, f) = n { if k == "Integer" { if let Tree::Node(_, g) = &f[0].1 { if let Tree::Atom(a) = &g[0].1 { if a.parse::<u64>().ok() != want { bad = Some(format!("{} is read as {}", s, a)); } } } } }); if bad.is_some() { return bad; } }
    } else if want.is_some() { return Some(format!("{} is reported as an error", s)); }
    None
}
#[cfg(sql_parse_verif)]
fn hook_err(c: &Case) -> Option<String> {
    for permit in [false, true] {
        let mut i = Issues::new(&c.sql);
        let (r, _, _, _) = hook::statement(&c.sql, &mut i, &c.options(), permit);
        if r.is_none() && errors(&i) == 0 { return Some("parsing failed but no error was reported".to_string()); }
    }
    None
}
#[cfg(sql_parse_verif)]
fn state(c: &Case) -> Option<String> {
    if let Some(a) = c.sql.strip_prefix('\u{2}') { return delimited(c, a); }
    let (a, b) = c.sql.split_once('\u{1}')?;
    for permit in [false, true] {
        let mut i = Issues::new(a);
        let (_, p, d, _) = hook::statement(a, &mut i, &c.options(), permit);
        if p != permit { return Some(format!("parsing a statement turned the permission for compound statements {}", if p { "on" } else { "off" })); }
        if d != "SemiColon" { return Some(format!("parsing a statement changed the delimiter to {}", d)); }
    }
    independent(c, a, b)
}
#[cfg(not(sql_parse_verif))]
fn state(c: &Case) -> Option<String> { if let Some(a) = c.sql.strip_prefix('\u{2}') { return delimited(c, a); } let (a, b) = c.sql.split_once('\u{1}')?; independent(c, a, b) }
/// what a statement means does not depend on the statement before it
fn independent(c: &Case, a: &str, b: &str) -> Option<String> {
    let u = a.to_uppercase();
    if u.contains("DELIMITER") || u.contains("COPY") || a.contains(['\'', '"', '`', '/', '-', '\\', '$']) || b.starts_with("DELIMITER") { return None; }
    let o = c.options();
    let b = &format!("{};", b);
    let mut ib = Issues::new(b);
    let vb: Vec<Tree> = sql_parse::parse_statements(b, &mut ib, &o).iter().map(tree).collect();
    let s = format!("{};\n{}", a, b);
    let mut i = Issues::new(&s);
    let v: Vec<Tree> = sql_parse::parse_statements(&s, &mut i, &o).iter().map(tree).collect();
    let k = s.len() - b.len();
    let tail: Vec<Tree> = vb.iter().map(|t| t.shift(k)).collect();
    let strip = |t: &Tree| plain_tree(t);
    if v.len() < tail.len() || v[v.len() - tail.len()..].iter().map(strip).collect::<Vec<_>>() != tail.iter().map(strip).collect::<Vec<_>>() {
        // an unclosed compound statement may swallow what follows
        if ["BEGIN", "IF", "CASE", "TRIGGER"].iter().any(|w| u.contains(w)) && !balanced(&u) { return None; }
        return Some("a statement is parsed differently after another one".to_string());
    }
    None
}
/// brackets and compound statements are closed within the text
fn skeleton_closed(a: &str) -> bool {
    if a.contains(['\'', '"', '`', '/', '-', '\\', '$']) { return false; }
    let w: Vec<String> = pieces(&a.to_uppercase());
    let (mut d, mut p) = (Vec::new(), 0i32);
    for k in 0..w.len() {
        let prev = if k > 0 { w[k - 1].as_str() } else { "" };
        let next = w.get(k + 1).map(|s| s.as_str()).unwrap_or("");
        match w[k].as_str() {
            "DELIMITER" | "COPY" | "[" | "]" | "{" | "}" => return false,
            "(" => p += 1,
            ")" => { p -= 1; if p < 0 { return false; } }
            ";" if p != 0 => return false,
            "IF" if prev == "END" || next == "EXISTS" || next == "NOT" || next == "(" => (),
            "CASE" if prev == "END" => (),
            "BEGIN" | "IF" | "CASE" => { if p != 0 { return false; } d.push(k) }
            "END" => { if p != 0 || prev != ";" || d.pop().is_none() { return false; } }
            _ => (),
        }
    }
    p == 0 && d.is_empty()
}
fn delimited(c: &Case, a: &str) -> Option<String> {
    if !skeleton_closed(a) { return None; }
    let o = c.options();
    let s = format!("DELIMITER $$ {} $$ SELECT 1 $$ SELECT 2 $$", a);
    let mut i = Issues::new(&s);
    let v: Vec<Tree> = sql_parse::parse_statements(&s, &mut i, &o).iter().map(tree).collect();
    let b = "SELECT 1; SELECT 2;";
    let mut ib = Issues::new(b);
    let vb: Vec<Tree> = sql_parse::parse_statements(b, &mut ib, &o).iter().map(tree).collect();
    if v.len() < vb.len() || !v[v.len() - vb.len()..].iter().zip(&vb).all(|(x, y)| same_shape(x, y)) {
        return Some("the statements after a compound statement are not parsed as on their own".to_string());
    }
    None
}
fn same_shape(a: &Tree, b: &Tree) -> bool {
    match (a, b) {
        (Tree::Span(..), Tree::Span(..)) => true,
        (Tree::Node(n, k), Tree::Node(m, l)) => n == m && k.len() == l.len() && k.iter().zip(l).all(|(x, y)| x.0 == y.0 && same_shape(&x.1, &y.1)),
        (x, y) => x == y,
    }
}
fn balanced(u: &str) -> bool { let w = pieces(u); !w.iter().any(|x| matches!(x.as_str(), "BEGIN" | "IF" | "CASE" | "THEN" | "ELSE")) }
fn plain_tree(t: &Tree) -> Tree { t.clone() }
#[cfg(not(sql_parse_verif))]
mod nohook {
    pub fn lexing(_: &str) -> Option<String> { None }
    pub fn words(_: &str) -> Option<String> { None }
    pub fn stdin(_: &str) -> Option<String> { None }
    pub fn ints(_: &str) -> Option<String> { None }
    pub fn hook_err(_: &crate::Case) -> Option<String> { None }
}
#[cfg(not(sql_parse_verif))]
use nohook::*;

// ---------------------------------------------------------------- spans
fn joins(s: &str) -> Option<String> {
    let v: Vec<usize> = s.split(' ').filter_map(|x| x.parse().ok()).collect();
    if v.len() != 4 { return None; }
    let (a, b): (Span, Span) = (v[0].min(v[1])..v[0].max(v[1]), v[2].min(v[3])..v[2].max(v[3]));
    let w = a.start.min(b.start)..a.end.max(b.end);
    let no: Option<Span> = None;
    let r: Vec<(&str, Option<Span>, Option<Span>)> = vec![
        ("a.join(b)", Some(a.join_span(&b)), Some(w.clone())),
        ("a.join(Some(b))", Some(a.join_span(&Some(b.clone()))), Some(w.clone())),
        ("a.join(None)", Some(a.join_span(&no)), Some(a.clone())),
        ("a.join([])", Some(a.join_span(&Vec::<Span>::new())), Some(a.clone())),
        ("a.join([b,a])", Some(a.join_span(&vec![b.clone(), a.clone()])), Some(w.clone())),
        ("[a,b].span", vec![a.clone(), b.clone()].opt_span(), Some(w.clone())),
        ("[b,a,b].span", vec![b.clone(), a.clone(), b.clone()].opt_span(), Some(w.clone())),
        ("[].span", Vec::<Span>::new().opt_span(), None),
        ("[None,Some(b),Some(a)].span", vec![None, Some(b.clone()), Some(a.clone())].opt_span(), Some(w.clone())),
        ("[Some(a),None].span", vec![Some(a.clone()), None].opt_span(), Some(a.clone())),
        ("Some(a).join(b)", Some(a.clone()).opt_join_span(&b), Some(w.clone())),
        ("None.join(b)", no.opt_join_span(&b), Some(b.clone())),
        ("None.join(None)", no.opt_join_span(&no), None),
        ("Some(a).join(None)", Some(a.clone()).opt_join_span(&no), Some(a.clone())),
        ("(a,b).span", (a.clone(), b.clone()).opt_span(), Some(w.clone())),
        ("(a,None,b).span", (a.clone(), no.clone(), b.clone()).opt_span(), Some(w.clone())),
        ("Box(a).join(b)", Some(Box::new(a.clone()).join_span(&b)), Some(w.clone())),
        ("(a,b).span()", Some((a.clone(), b.clone()).span()), Some(w.clone())),
        ("(a,b,[]).span()", Some((a.clone(), b.clone(), Vec::<Span>::new()).span()), Some(w.clone())),
        ("(a,a,b).span()", Some((a.clone(), a.clone(), b.clone()).span()), Some(w.clone())),
        ("(a,b,a).span()", Some((a.clone(), b.clone(), a.clone()).span()), Some(w.clone())),
        ("(b,None,None).span()", Some((b.clone(), no.clone(), no.clone()).span()), Some(b.clone())),
        ("[a,b,a].span", vec![a.clone(), b.clone(), a.clone()].opt_span(), Some(w.clone())),
        ("[a,b,a] slice", [a.clone(), b.clone(), a.clone()][..].iter().cloned().collect::<Vec<_>>()[..].opt_span(), Some(w.clone())),
        ("[None,a,None,b,None].span", vec![None, Some(a.clone()), None, Some(b.clone()), None].opt_span(), Some(w.clone())),
        ("[[],[a],[b,a]].span", vec![vec![], vec![a.clone()], vec![b.clone(), a.clone()]].opt_span(), Some(w.clone())),
        ("a.join([None,b])", Some(a.join_span(&vec![None, Some(b.clone())])), Some(w.clone())),
        ("(7,a).join(b)", Some((7usize, a.clone()).join_span(&b)), Some(w.clone())),
        ("(u32,a),(u64,b)", Some((7u32, a.clone()).join_span(&(8u64, b.clone()))), Some(w.clone())),
        ("(bool,a),(f64,b)", Some((true, a.clone()).join_span(&(1.5f64, b.clone()))), Some(w.clone())),
        ("(&str,a),(1,2,b)", Some(("x", a.clone()).join_span(&(1usize, 2usize, b.clone()))), Some(w.clone())),
        ("(a,None,b).span()", Some((a.clone(), no.clone(), b.clone()).span()), Some(w.clone())),
    ];
    for (n, g, w) in r { if g != w { return Some(format!("{} with a={:?} b={:?} is {:?} instead of {:?}", n, a, b, g, w)); } }
    None
}
/// every public node reached through public fields covers its own parts
fn covers(v: &sql_parse::Statement<'_>) -> Option<String> {
    use sql_parse::Statement as S;
    fn node<T: Spanned + std::fmt::Debug>(t: &T) -> Option<String> {
        let sp = t.span();
        for r in tree(t).spans() { if r != (0..0) && !(sp.start <= r.start && r.end <= sp.end) { return Some(format!("a node spans {:?} but contains a part at {:?}", sp, r)); } }
        None
    }
    match v {
        S::Select(s) => {
            for e in &s.select_exprs { if let Some(m) = node(&e.expr).or_else(|| node(e)) { return Some(m); } }
            for e in &s.select_exprs { if let sql_parse::Expression::Case { whens, .. } = &e.expr { for w in whens { if let Some(m) = node(w) { return Some(m); } } } }
            for t in s.table_references.iter().flatten() { if let Some(m) = node(t) { return Some(m); } }
            if let Some((e, _)) = &s.where_ { if let Some(m) = node(e) { return Some(m); } }
            None
        }
        S::CreateTable(t) => { for d in &t.create_definitions { if let Some(m) = node(d) { return Some(m); } } for d in &t.options { if let Some(m) = node(d) { return Some(m); } } None }
        S::AlterTable(t) => { for d in &t.alter_specifications { if let Some(m) = node(d) { return Some(m); } } None }
        S::If(t) => { for d in &t.conditions { if let Some(m) = node(d) { return Some(m); } for x in &d.then { if let Some(m) = covers(x) { return Some(m); } } } None }
        S::Case(t) => { for d in &t.whens { if let Some(m) = node(d) { return Some(m); } } None }
        S::WithQuery(t) => { for d in &t.with_blocks { if let Some(m) = node(d) { return Some(m); } } None }
        S::Union(u) => { for d in &u.with { if let Some(m) = node(d) { return Some(m); } } None }
        _ => None,
    }
}

// ---------------------------------------------------------------- strings
fn decode(t: &str, q: char) -> String {
    let c: Vec<char> = t.chars().collect();
    let mut r = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' && i + 1 < c.len() {
            match c[i + 1] { '0' => r.push('\0'), 'b' => r.push('\u{8}'), 'n' => r.push('\n'), 'r' => r.push('\r'), 't' => r.push('\t'), 'Z' => r.push('\u{1a}'), x @ ('%' | '_') => { r.push('\\'); r.push(x) } x => r.push(x) }
            i += 2;
        } else if c[i] == q { r.push(q); i += 2; } else { r.push(c[i]); i += 1; }
    }
    r
}
fn strings(c: &Case) -> Option<String> {
    let s = c.sql.as_str();
    let cs: Vec<(usize, char)> = s.char_indices().collect();
    let mut p = 0;
    let mut want = String::new();
    let mut n = 0;
    loop {
        let (t, a, b) = ref_lex(&cs, s.len(), &mut p);
        if n == 0 { if t != "Ident(\"SELECT\"" { return None; } n += 1; continue; }
        if t == "Eof" { break; }
        if !t.contains("QuotedString") { return None; }
        want += &decode(&s[a + 1..b - 1], s[a..].chars().next().unwrap());
        n += 1;
    }
    if n < 2 { return None; }
    let mut i = Issues::new(s);
    let v = sql_parse::parse_statement(s, &mut i, &c.options());
    if errors(&i) != 0 { return Some("a string literal is reported as an error".to_string()); }
    let v = match v { Some(v) => v, None => return Some("a string literal is not parsed".into()) };
    let mut got = None;
    tree(&v).walk(&mut |n| if let Tree::Node(k, f) = n { if k == "SString" { if let Tree::Str(x) = &f[0].1 { got = Some(x.clone()); } } });
    if got.as_ref() != Some(&want) { return Some(format!("the string literal stands for {:?} but the value is {:?}", want, got)); }
    None
}

// ---------------------------------------------------------------- operators
const BIN: &[(&str, &str, usize)] = &[("OR", "Or", 160), ("||", "Or", 160), ("XOR", "Xor", 150), ("AND", "And", 140), ("&&", "And", 140), ("=", "Eq", 110), ("<=>", "NullSafeEq", 110), (">=", "GtEq", 110), (">", "Gt", 110), ("<=", "LtEq", 110), ("<", "Lt", 110), ("!=", "Neq", 110), ("<>", "Neq", 110), ("LIKE", "Like", 110), ("NOT LIKE", "NotLike", 110), ("|", "BitOr", 100), ("&", "BitAnd", 90), ("<<", "ShiftLeft", 80), (">>", "ShiftRight", 80), ("+", "Add", 70), ("-", "Subtract", 70), ("*", "Mult", 60), ("/", "Divide", 60)];
const UN: &[(&str, &str, usize)] = &[("NOT", "Not", 130), ("-", "Minus", 40), ("!", "LogicalNot", 30), ("BINARY", "Binary", 20)];
const POST: &[(&str, &str)] = &[("IS NULL", "Null"), ("IS NOT NULL", "NotNull"), ("IS TRUE", "True"), ("IS NOT TRUE", "NotTrue"), ("IS FALSE", "False"), ("IS NOT FALSE", "NotFalse"), ("IS UNKNOWN", "Unknown"), ("IS NOT UNKNOWN", "NotUnknown"), ("IN (q)", "In"), ("NOT IN (q)", "NotIn")];
fn expr(rng: &mut Rng) -> String {
    let n = 1 + rng.below(6);
    let mut r = Vec::new();
    for k in 0..n {
        if k > 0 { r.push(BIN[rng.below(BIN.len())].0.to_string()); }
        while rng.chance(20) { r.push(UN[rng.below(UN.len())].0.to_string()); }
        r.push(format!("c{}", k));
        while rng.chance(15) { r.push(POST[rng.below(POST.len())].0.to_string()); }
    }
    format!("SELECT {}", r.join(" "))
}
struct Toks { t: Vec<String>, p: usize }
impl Toks {
    fn cur(&self) -> &str { self.t.get(self.p).map(|s| s.as_str()).unwrap_or("") }
    fn starts(&self, w: &str) -> Option<usize> { let v = pieces(w); if self.t[self.p..].iter().map(|s| s.as_str()).take(v.len()).eq(v.iter().map(|s| s.as_str())) { Some(v.len()) } else { None } }
    fn binary(&self) -> Option<(usize, &'static str, usize)> { BIN.iter().filter_map(|b| self.starts(b.0).map(|n| (n, b.1, b.2))).max_by_key(|x| x.0) }
    fn parse(&mut self, max: usize) -> Option<String> {
        let mut l = if let Some(u) = UN.iter().find(|u| u.0 == self.cur()) { self.p += 1; format!("({} {})", u.1, self.parse(u.2)?) } else {
            let c = self.cur().to_string();
            if !c.starts_with('c') || !c[1..].chars().all(|c| c.is_ascii_digit()) { return None; }
            self.p += 1;
            c
        };
        loop {
            if let Some((n, name)) = POST.iter().filter_map(|b| self.starts(b.0).map(|n| (n, b.1))).max_by_key(|x| x.0) {
                if max < 110 { return Some(l); }
                self.p += n;
                l = format!("({} {})", l, name);
            } else if let Some((n, name, pr)) = self.binary() {
                if pr > max { return Some(l); }
                self.p += n;
                let r = self.parse(pr - 1)?;
                l = format!("({} {} {})", l, name, r);
            } else { return Some(l); }
        }
    }
}
fn shape(t: &Tree) -> String {
    let g = |f: &str| t.get(f).map(shape).unwrap_or_default();
    match t.name() {
        "Binary" => format!("({} {} {})", g("lhs"), t.get("op").unwrap().name(), g("rhs")),
        "Unary" => format!("({} {})", t.get("op").unwrap().name(), g("operand")),
        "Is" => format!("({} {})", shape(&t.kids()[0].1), t.kids()[1].1.name()),
        "In" => format!("({} {})", g("lhs"), if t.get("not_in").unwrap().name() == "true" { "NotIn" } else { "In" }),
        "Identifier" => { let mut r = String::new(); t.walk(&mut |n| if let Tree::Str(s) = n { r = s.clone() }); r }
        n => format!("<{}>", n),
    }
}
fn precedence(c: &Case) -> Option<String> {
    let s = c.sql.as_str();
    let e = s.strip_prefix("SELECT ")?;
    let mut p = Toks { t: pieces_op(e), p: 0 };
    let want = p.parse(1000)?;
    if p.p != p.t.len() { return None; }
    let mut i = Issues::new(s);
    let v = sql_parse::parse_statement(s, &mut i, &c.options());
    if errors(&i) != 0 { return Some(format!("the expression is reported as an error, expected {}", want)); }
    let t = tree(&v?);
    let mut got = None;
    t.walk(&mut |n| if n.name() == "SelectExpr" && got.is_none() { got = n.get("expr").map(shape) });
    if got.as_ref() != Some(&want) { return Some(format!("parsed as {} instead of {}", got.unwrap_or_default(), want)); }
    None
}
fn pieces_op(e: &str) -> Vec<String> { e.split(' ').flat_map(|w| pieces(w)).collect::<Vec<_>>().join(" ").replace("<= >", "<=>").split(' ').map(|s| s.to_string()).collect() }

// ---------------------------------------------------------------- warnings
/// All words in small letters (k = 0), with only the first (1) or the last (2) letter small
fn recase(s: &str, k: usize) -> String {
    let b: Vec<char> = s.chars().collect();
    let w = |i: usize| b.get(i).map_or(false, |c| c.is_alphanumeric() || *c == '_');
    (0..b.len()).map(|i| if !w(i) { b[i] } else if k == 0 || (k == 1 && (i == 0 || !w(i - 1))) || (k == 2 && !w(i + 1)) { b[i].to_ascii_lowercase() } else { b[i].to_ascii_uppercase() }).collect()
}

fn warnings(c: &Case) -> Option<String> {
    let s = c.sql.as_str();
    let run = |flags: usize| {
        let k = Case { flags, ..c.clone() };
        let mut i = Issues::new(s);
        let v: Vec<String> = sql_parse::parse_statements(s, &mut i, &k.options()).iter().map(|v| format!("{:?}", v)).collect();
        let e: Vec<String> = i.get().iter().filter(|i| i.level == Level::Error).map(|i| format!("{:?}", i)).collect();
        let w: Vec<(String, std::ops::Range<usize>)> = i.get().iter().filter(|i| i.level == Level::Warning).map(|i| (i.message.to_string(), i.span.clone())).collect();
        (v, e, w)
    };
    let base = run(c.flags & 4);
    for f in 1..4 {
        let r = run(c.flags & 4 | f);
        if r.0 != base.0 { return Some(format!("the warning options {} change the tree", f)); }
        if r.1 != base.1 { return Some(format!("the warning options {} change the errors", f)); }
        let id = r.2.iter().any(|w| w.0.contains("should be quoted"));
        let cap = r.2.iter().any(|w| w.0.contains("ALL CAPS"));
        if (id && f & 1 == 0) || (cap && f & 2 == 0) { return Some("a warning is given although it is off".to_string()); }
        for w in &r.2 {
            if !ok_span(s, w.1.start, w.1.end) { continue; }
            let t = &s[w.1.clone()];
            if w.0.contains("should be quoted") && t.starts_with('`') { return Some(format!("{} is quoted but warned about", t)); }
            if w.0.contains("ALL CAPS") && !t.chars().any(|c| c.is_ascii_lowercase()) { return Some(format!("{} is all capitals but warned about", t)); }
        }
    }
    if base.2.iter().any(|w| w.0.contains("should be quoted") || w.0.contains("ALL CAPS")) { return Some("a warning is given although it is off".to_string()); }
    // every unquoted identifier in the tree is warned about
    if base.1.is_empty() {
        let r = run(c.flags & 4 | 1);
        let mut i = Issues::new(s);
        let k = Case { flags: c.flags & 4 | 1, ..c.clone() };
        let v = sql_parse::parse_statements(s, &mut i, &k.options());
        let mut bad = None;
        for t in v.iter() { tree(t).walk(&mut |n| if n.name() == "Identifier" { if let (Some(Tree::Str(v)), Some(Tree::Span(a, b))) = (n.get("value"), n.get("span")) {
            if ok_span(s, *a, *b) && s[*a..*b] == *v && !v.is_empty() && !r.2.iter().any(|w| w.1 == (*a..*b) && w.0.contains("should be quoted")) { bad = Some(format!("the unquoted identifier {} at {} is not warned about", v, a)); }
        } }) }
        if bad.is_some() { return bad; }
        // a keyword warned about in small letters is also warned about with a single small letter
        let low = |k: usize| Case { sql: recase(s, k), flags: c.flags & 4 | 2, ..c.clone() };
        let go = |c: &Case| {
            let mut i = Issues::new(&c.sql);
            sql_parse::parse_statements(&c.sql, &mut i, &c.options());
            if errors(&i) > 0 { return None; }
            Some(i.get().iter().filter(|i| i.message.contains("ALL CAPS")).map(|i| i.span.clone()).collect::<Vec<_>>())
        };
        if s.is_ascii() && !s.contains(['\'', '"', '`']) && !s.contains("--") && !s.contains("/*") && !s.contains("$$") {
            let all = low(0);
            if let Some(a) = go(&all) { for k in 1..3 {
                let some = low(k);
                if let Some(b) = go(&some) { for w in &a { if some.sql[w.clone()].chars().any(|c| c.is_ascii_lowercase()) && !b.contains(w) {
                    return Some(format!("the keyword {:?} at {} of {:?} is not warned about", &some.sql[w.clone()], w.start, some.sql));
                } } }
            } }
        }
    }
    None
}
