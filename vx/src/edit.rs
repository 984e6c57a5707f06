//! Text edits over the original source; the original text is kept wherever no edit applies.
#[derive(Clone, Debug)]
pub enum Piece {
    T(String),
    S(usize, usize),
}
pub struct Edit {
    pub s: usize,
    pub e: usize,
    pub pieces: Vec<Piece>,
    pub idx: usize,
}
#[derive(Default)]
pub struct Edits {
    pub v: Vec<Edit>,
    next: usize,
}
impl Edits {
    pub fn replace(&mut self, r: std::ops::Range<usize>, pieces: Vec<Piece>) {
        self.next += 1;
        let idx = self.next;
        self.v.push(Edit { s: r.start, e: r.end, pieces, idx });
    }
    pub fn text(&mut self, r: std::ops::Range<usize>, t: impl Into<String>) {
        self.replace(r, vec![Piece::T(t.into())]);
    }
    pub fn insert(&mut self, at: usize, t: impl Into<String>) {
        self.replace(at..at, vec![Piece::T(t.into())]);
    }
    pub fn render(&mut self, src: &str) -> String {
        self.v.sort_by_key(|e| (e.s, e.e > e.s, std::cmp::Reverse(e.e), e.idx));
        let mut out = String::new();
        self.emit(src, 0, src.len(), None, true, &mut out);
        out
    }
    fn emit(&self, src: &str, a: usize, b: usize, me: Option<usize>, incl_end: bool, out: &mut String) {
        let mut pos = a;
        let start = self.v.partition_point(|e| e.s < a);
        for ed in &self.v[start..] {
            if ed.s > b {
                break;
            }
            if ed.s < pos || ed.e > b {
                continue;
            }
            if ed.s == ed.e && ed.s == b && !incl_end {
                continue;
            }
            if ed.s == a && ed.e == b && ed.s != ed.e {
                if let Some(m) = me {
                    if ed.idx <= m {
                        continue;
                    }
                }
            }
            if ed.s == ed.e {
                // insertions strictly at the start of our own range were emitted outside already
                if ed.s == a && me.is_some() {
                    continue;
                }
            }
            out.push_str(&src[pos..ed.s]);
            for p in &ed.pieces {
                match p {
                    Piece::T(t) => out.push_str(t),
                    Piece::S(x, y) => {
                        let m = if *x == ed.s && *y == ed.e { Some(ed.idx) } else { None };
                        self.emit(src, *x, *y, m, false, out)
                    }
                }
            }
            pos = ed.e;
        }
        out.push_str(&src[pos..b]);
    }
}
impl Edits {
    pub fn render_range(&mut self, src: &str, a: usize, b: usize) -> String {
        self.v.sort_by_key(|e| (e.s, e.e > e.s, std::cmp::Reverse(e.e), e.idx));
        let mut out = String::new();
        self.emit(src, a, b, None, true, &mut out);
        out
    }
}
