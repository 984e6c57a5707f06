//! Search for an input on which the real code breaks a property.
//! usage: harness PROP --seed N --secs S [--cases N] [--out FILE]      exit 0: none found, 1: found (FILE describes it)
//!        harness PROP --replay FILE                                  exit 1 if the recorded input still breaks PROP
mod oracles;
mod util;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

pub const CORPUS: &str = include_str!("corpus.txt");

#[derive(Clone, Debug)]
pub struct Case { pub sql: String, pub dialect: usize, pub args: usize, pub flags: usize }
impl Case {
    pub fn options(&self) -> sql_parse::ParseOptions {
        use sql_parse::{SQLArguments as A, SQLDialect as D};
        sql_parse::ParseOptions::new()
            .dialect(match self.dialect { 0 => D::MariaDB, 1 => D::PostgreSQL, _ => D::Sqlite })
            .arguments(match self.args { 0 => A::None, 1 => A::Percent, 2 => A::QuestionMark, _ => A::Dollar })
            .warn_unquoted_identifiers(self.flags & 1 != 0)
            .warn_none_capital_keywords(self.flags & 2 != 0)
            .list_hack(self.flags & 4 != 0)
    }
    fn render(&self) -> String { format!("dialect={}\nargs={}\nflags={}\nsql={:?}\n", self.dialect, self.args, self.flags, self.sql) }
    fn parse(s: &str) -> Option<Case> {
        let mut c = Case { sql: String::new(), dialect: 0, args: 0, flags: 0 };
        for l in s.lines() {
            if let Some(v) = l.strip_prefix("dialect=") { c.dialect = v.parse().ok()?; }
            if let Some(v) = l.strip_prefix("args=") { c.args = v.parse().ok()?; }
            if let Some(v) = l.strip_prefix("flags=") { c.flags = v.parse().ok()?; }
            if let Some(v) = l.strip_prefix("sql=") {
                match util::unquote(v) { Some(s) => c.sql = s, None => return None }
            }
        }
        Some(c)
    }
}

pub fn corpus() -> Vec<String> {
    CORPUS.lines().chain(include_str!("rich.txt").lines()).map(|l| if l.starts_with("COPY") { l.replace("\\\\", "\u{1}").replace("\\n", "\n").replace("\\t", "\t").replace('\u{1}', "\\") } else { l.to_string() }).collect()
}

const JUNK: &[&str] = &["(", ")", ",", ";", ".", "$$", "'", "\"", "`", "æ", "ß∂", "😀", "\\", "@", "@@", "{", "}", "[", "]", "=", "x'ab'", "$0", "$99999999999999999999", "99999999999999999999", "1e5",
    "--", "/*", "*/", "\n", "DELIMITER", "BEGIN", "END", "SELECT", "NOT", "NULL", "AS", "IF", "EXISTS", "SET", "*", "-", "?", "%s", "$1", "$2", "_LIST_", "''", "``", "a", "`b`", "\"q\"", "'s'", "COPY", "FROM", "STDIN", "NOT_A_KEYWORD", "CASE", "WHEN", "THEN", "ELSE", "INTERVAL", "IN", "IS", "LIKE", "ON", "WHERE", "0", "7", "#", "::", "=>", "<=>"];

pub fn gen(rng: &mut Rng, corpus: &[String], words: &[String]) -> Case {
    let mut sql = match rng.below(12) {
        0 => corpus[rng.below(corpus.len())].clone(),
        1 => format!("{}; {}", corpus[rng.below(corpus.len())], corpus[rng.below(corpus.len())]),
        2 => { let n = 1 + rng.below(12); (0..n).map(|_| if rng.chance(50) { rng.pick(JUNK).to_string() } else { words[rng.below(words.len())].clone() }).collect::<Vec<_>>().join(" ") }
        3 => { let n = rng.below(12); (0..n).map(|_| *rng.pick(&[&'a', &'\'', &'"', &'\\', &'`', &' ', &'\n', &'.', &'0', &'9', &'æ', &'-', &'/', &'*', &'@', &'$', &'x', &';', &'(', &')', &'<', &'=', &'>', &'|', &'&', &'%', &'s', &'!', &':', &'\r', &'\t', &'\u{a0}', &'_', &'#', &'😀'])).collect() }
        k => {
            let mut p = pieces(&corpus[rng.below(corpus.len())]);
            if k == 4 { let q = pieces(&corpus[rng.below(corpus.len())]); let i = rng.below(p.len() + 1); p.truncate(i); p.extend(q[rng.below(q.len())..].iter().cloned()); }
            let n = 1 + rng.below(3);
            for _ in 0..n {
                if p.is_empty() { break; }
                let i = rng.below(p.len());
                match rng.below(7) {
                    0 => { p.remove(i); }
                    1 => { p.insert(i, rng.pick(JUNK).to_string()); }
                    2 => { p[i] = rng.pick(JUNK).to_string(); }
                    3 => { let j = rng.below(p.len()); p.swap(i, j); }
                    4 => { p.truncate(i); }
                    5 => { p[i] = words[rng.below(words.len())].clone(); }
                    _ => { let w = words[rng.below(words.len())].clone(); p.insert(i, w); }
                }
            }
            p.join(if rng.chance(85) { " " } else { "" })
        }
    };
    if rng.chance(65) { sql.push(';'); }
    if rng.chance(5) { sql = sql.to_lowercase(); }
    if rng.chance(5) { sql.insert_str(0, "  -- æ\n"); }
    Case { sql, dialect: rng.below(3), args: rng.below(4), flags: rng.below(8) }
}

fn shrink(prop: &'static str, c: &Case, limit: Duration) -> Case {
    let t = Instant::now();
    let mut best = c.clone();
    let mut progress = true;
    while progress && t.elapsed() < limit {
        progress = false;
        let cs: Vec<char> = best.sql.chars().collect();
        let mut step = (cs.len() / 2).max(1);
        'o: loop {
            let mut i = 0;
            while i < cs.len() {
                if t.elapsed() > limit { break 'o; }
                let mut n: String = cs[..i].iter().collect();
                n.extend(cs[(i + step).min(cs.len())..].iter());
                let k = Case { sql: n, ..best.clone() };
                if oracles::check(prop, &k).is_some() { best = k; progress = true; break 'o; }
                i += step;
            }
            if step == 1 { break; }
            step /= 2;
        }
    }
    best
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop: &'static str = Box::leak(a[1].clone().into_boxed_str());
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let out = opt("--out");
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(f) = opt("--replay") {
        let c = Case::parse(&std::fs::read_to_string(f).unwrap()).expect("replay file");
        let slot = Arc::new(Mutex::new(None));
        let s2 = slot.clone();
        std::thread::Builder::new().stack_size(512 << 20).spawn(move || { let r = oracles::check(prop, &c); *s2.lock().unwrap() = Some(r); }).unwrap();
        let t = Instant::now();
        loop {
            if let Some(r) = slot.lock().unwrap().take() {
                match r { Some(m) => { println!("BROKEN {}", m); std::process::exit(1) } None => { println!("HOLDS"); std::process::exit(0) } }
            }
            if t.elapsed() > Duration::from_secs(5) { println!("BROKEN does not terminate"); std::process::exit(1); }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    if a.iter().any(|x| x == "--deep") {
        // a demonstration of the known finding: the recursive descent exhausts a 2 MB stack
        let sql = format!("SELECT {}1{}", "(".repeat(100_000), ")".repeat(100_000));
        std::thread::Builder::new().stack_size(2 << 20).spawn(move || { let c = Case { sql, dialect: 0, args: 0, flags: 0 }; let mut i = sql_parse::Issues::new(&c.sql); let _ = sql_parse::parse_statement(&c.sql, &mut i, &c.options()).is_some(); }).unwrap().join().ok();
        println!("deep nesting returned");
        std::process::exit(0);
    }
    if a.iter().any(|x| x == "--golden") {
        // the trees of the example statements that parse without errors: writes golden.txt
        for s in include_str!("rich.txt").lines().chain(include_str!("corpus.txt").lines()) { for d in 0..3 {
            let c = Case { sql: s.to_string(), dialect: d, args: 2, flags: 0 };
            if let Some(t) = oracles::golden(&c) { println!("{}\t{}\t{}", d, s, t); } else if a.iter().any(|x| x == "-v") && include_str!("rich.txt").lines().any(|l| l == s) { println!("ERR {} {}", d, s); }
        } }
        return;
    }
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(10);
    let threads: usize = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let cur: Vec<Arc<Mutex<(Option<Case>, Instant)>>> = (0..threads).map(|_| Arc::new(Mutex::new((None, Instant::now())))).collect();
    let found: Arc<Mutex<Option<(Case, String)>>> = Default::default();
    let count = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let end = Instant::now() + Duration::from_secs(secs);
    let corpus = Arc::new(corpus());
    let words: Arc<Vec<String>> = Arc::new({ let mut w: Vec<String> = corpus.iter().flat_map(|c| pieces(c)).collect(); w.extend(include_str!("keywords.txt").split_whitespace().map(|s| s.to_string())); w.sort(); w.dedup(); w });
    for t in 0..threads {
        let (cur, found, count, corpus, words) = (cur[t].clone(), found.clone(), count.clone(), corpus.clone(), words.clone());
        std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let mut rng = Rng::new(seed * 1000 + t as u64);
            let mut fixed = oracles::fixed(prop, &corpus).into_iter().skip(t).step_by(threads);
            while Instant::now() < end && found.lock().unwrap().is_none() {
                let c = match fixed.next() { Some(c) => c, None => oracles::make(prop, &mut rng, &corpus, &words) };
                *cur.lock().unwrap() = (Some(c.clone()), Instant::now());
                let r = oracles::check(prop, &c);
                count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if let Some(_) = r {
                    *cur.lock().unwrap() = (None, Instant::now());
                    let s = shrink(prop, &c, Duration::from_secs(2));
                    let m = oracles::check(prop, &s).unwrap_or_default();
                    let mut f = found.lock().unwrap();
                    if f.is_none() { *f = Some((s, m)); }
                    break;
                }
            }
            *cur.lock().unwrap() = (None, Instant::now());
        }).unwrap();
    }
    let report = |c: &Case, m: &str| -> ! {
        let s = format!("property={}\n{}what={}\n", prop, c.render(), m.replace('\n', " "));
        if let Some(o) = &out { std::fs::write(o, &s).unwrap(); }
        print!("{}", s);
        std::process::exit(1)
    };
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if let Some((c, m)) = &*found.lock().unwrap() { report(c, m); }
        let mut busy = false;
        for k in &cur {
            let g = k.lock().unwrap();
            if let Some(c) = &g.0 {
                busy = true;
                if g.1.elapsed() > Duration::from_secs(10) {
                    if prop == "P02" { report(c, "does not terminate within 10 s"); }
                    println!("a case did not terminate: {}", c.render());
                    std::process::exit(2);
                }
            }
        }
        if !busy && Instant::now() >= end { break; }
    }
    println!("cases={}", count.load(std::sync::atomic::Ordering::Relaxed));
}
