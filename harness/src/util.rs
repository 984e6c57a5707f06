use std::ops::Range;
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { let mut x = self.0 | 1; x ^= x << 13; x ^= x >> 7; x ^= x << 17; self.0 = x; x.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize } }
    pub fn chance(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T { v[self.below(v.len())] }
}

/// Crude split of sql text into lexemes, used for mutation only
pub fn pieces(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut r = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let st = i;
        let ch = c[i];
        i += 1;
        if ch.is_alphanumeric() || ch == '_' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; }
        } else if ch == '\'' || ch == '"' || ch == '`' {
            while i < c.len() && c[i] != ch { i += 1; }
            if i < c.len() { i += 1; }
        } else if ch == ' ' {
            continue;
        } else if ch == '\n' {
        } else if i < c.len() && ["--", "//", "/*", "*/", "!=", "<=", ">=", "<>", "||", "&&", "<<", ">>", "$$", "@@", "::", "=>"].contains(&format!("{}{}", ch, c[i]).as_str()) {
            i += 1;
        } else if (ch == '$' || ch == '%') && i < c.len() {
            i += 1;
        }
        r.push(c[st..i].iter().collect());
    }
    r
}

/// Generic tree read back from the Debug rendering of an AST
#[derive(Debug, Clone, PartialEq)]
pub enum Tree {
    Span(usize, usize),
    Str(String),
    Atom(String),
    Node(String, Vec<(String, Tree)>),
}
impl Tree {
    pub fn name(&self) -> &str { match self { Tree::Node(n, _) => n, Tree::Atom(a) => a, _ => "" } }
    pub fn kids(&self) -> &[(String, Tree)] { match self { Tree::Node(_, k) => k, _ => &[] } }
    pub fn get(&self, f: &str) -> Option<&Tree> { self.kids().iter().find(|k| k.0 == f).map(|k| &k.1) }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Tree)) { f(self); for k in self.kids() { k.1.walk(f); } }
    pub fn spans(&self) -> Vec<Range<usize>> {
        let mut r = Vec::new();
        self.walk(&mut |t| if let Tree::Span(a, b) = t { r.push(Range { start: *a, end: *b }) });
        r
    }
    pub fn has(&self, name: &str) -> bool { let mut r = false; self.walk(&mut |t| if t.name() == name { r = true }); r }
    pub fn shift(&self, d: usize) -> Tree {
        match self {
            Tree::Span(a, b) => Tree::Span(a + d, b + d),
            Tree::Node(n, k) => Tree::Node(n.clone(), k.iter().map(|(f, t)| (f.clone(), t.shift(d))).collect()),
            t => t.clone(),
        }
    }
}
pub fn tree<T: std::fmt::Debug>(v: &T) -> Tree {
    let s = format!("{:?}", v);
    let b: Vec<char> = s.chars().collect();
    let mut p = 0;
    let r = value(&b, &mut p);
    assert!(p == b.len(), "debug text not understood: {}", s);
    r
}
fn value(b: &[char], p: &mut usize) -> Tree {
    match b[*p] {
        '"' => {
            *p += 1;
            let mut s = String::new();
            while b[*p] != '"' {
                if b[*p] == '\\' {
                    *p += 1;
                    match b[*p] {
                        'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), '0' => s.push('\0'),
                        'u' => { *p += 2; let mut h = String::new(); while b[*p] != '}' { h.push(b[*p]); *p += 1; } s.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap()); }
                        c => s.push(c),
                    }
                } else { s.push(b[*p]); }
                *p += 1;
            }
            *p += 1;
            Tree::Str(s)
        }
        '[' => { *p += 1; list(b, p, ']', "[]") }
        '(' => { *p += 1; list(b, p, ')', "()") }
        _ => {
            let st = *p;
            while *p < b.len() && !matches!(b[*p], ',' | ' ' | ')' | ']' | '(' | '}' | '{') { *p += 1; }
            let w: String = b[st..*p].iter().collect();
            if let Some((x, y)) = w.split_once("..") {
                if let (Ok(x), Ok(y)) = (x.parse(), y.parse()) { return Tree::Span(x, y); }
            }
            if *p < b.len() && b[*p] == '(' { *p += 1; return list(b, p, ')', &w); }
            if *p + 1 < b.len() && b[*p] == ' ' && b[*p + 1] == '{' { *p += 2; return fields(b, p, &w); }
            Tree::Atom(w)
        }
    }
}
fn sep(b: &[char], p: &mut usize) { while *p < b.len() && matches!(b[*p], ',' | ' ') { *p += 1; } }
fn list(b: &[char], p: &mut usize, end: char, n: &str) -> Tree {
    let mut k = Vec::new();
    loop {
        sep(b, p);
        if b[*p] == end { *p += 1; return Tree::Node(n.to_string(), k); }
        let v = value(b, p);
        k.push((k.len().to_string(), v));
    }
}
fn fields(b: &[char], p: &mut usize, n: &str) -> Tree {
    let mut k = Vec::new();
    loop {
        sep(b, p);
        if b[*p] == '}' { *p += 1; return Tree::Node(n.to_string(), k); }
        let st = *p;
        while b[*p] != ':' { *p += 1; }
        let f: String = b[st..*p].iter().collect();
        *p += 2;
        let v = value(b, p);
        k.push((f, v));
    }
}
/// Inverse of the Debug rendering of a string
pub fn unquote(s: &str) -> Option<String> {
    let b: Vec<char> = s.trim_end().chars().collect();
    if b.first() != Some(&'"') { return None; }
    let mut p = 0;
    match value(&b, &mut p) { Tree::Str(s) => Some(s), _ => None }
}
