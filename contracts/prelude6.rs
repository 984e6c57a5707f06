// ---------------------------------------------------------------- string literals
/// the characters a backslash followed by c stands for
pub open spec fn esc(c: char) -> Seq<char> {
    if c == '0' { seq!['\0'] } else if c == 'b' { seq!['\u{8}'] } else if c == 'n' { seq!['\n'] } else if c == 'r' { seq!['\r'] }
    else if c == 't' { seq!['\t'] } else if c == 'Z' { seq!['\u{1a}'] } else if c == '%' || c == '_' { seq!['\\', c] } else { seq![c] }
}
/// the text a literal with contents s and delimiter q denotes
#[verifier::opaque] pub open spec fn dec_str(s: Seq<char>, q: char) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if s[0] == '\\' { if s.len() < 2 { seq![] } else { esc(s[1]) + dec_str(s.skip(1).skip(1), q) } }
    else if s[0] == q { seq![q] + dec_str(if s.len() < 2 { s.skip(1) } else { s.skip(1).skip(1) }, q) }
    else { seq![s[0]] + dec_str(s.skip(1), q) }
}
pub proof fn l_dec_plain(s: Seq<char>, q: char)
    requires !s.contains(q), !s.contains('\\')
    ensures dec_str(s, q) == s
    decreases s.len()
{
    reveal(dec_str);
    if s.len() > 0 {
        assert(s.contains(s[0]));
        let t = s.skip(1);
        assert forall|c: char| t.contains(c) implies s.contains(c) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(s[i + 1] == c); }
        l_dec_plain(t, q);
        assert(dec_str(s, q) =~= s);
    } else { assert(dec_str(s, q) =~= s); }
}
/// what a string token stands for
[[strs]] pub open spec fn sval(t: Token<'_>) -> Option<Seq<char>> {
[[strs]]     match t { Token::SingleQuotedString(v) => Some(dec_str(v@, '\'')), Token::DoubleQuotedString(v) => Some(dec_str(v@, '"')), _ => None }
[[strs]] }
/// the tokens of the log from the n-th on, taken together
[[strs]] pub open spec fn strs(l: Seq<(Token<'_>, Range<usize>)>, n: int) -> Seq<char> decreases l.len() {
[[strs]]     if l.len() <= n || l.len() == 0 { seq![] } else { strs(l.drop_last(), n) + (match sval(l.last().0) { Some(v) => v, None => seq![] }) }
[[strs]] }
/// b goes on from a with string tokens only, at least one
[[strs]] pub open spec fn literals(a: Seq<(Token<'_>, Range<usize>)>, b: Seq<(Token<'_>, Range<usize>)>) -> bool {
[[strs]]     a.len() < b.len() && b.subrange(0, a.len() as int) =~= a && forall|k: int| a.len() <= k < b.len() ==> sval((#[trigger] b[k]).0) is Some
[[strs]] }
[[strs]] pub broadcast proof fn l_push_strs(l: Seq<(Token<'_>, Range<usize>)>, x: (Token<'_>, Range<usize>), n: int)
[[strs]]     requires n <= l.len()
[[strs]]     ensures #[trigger] strs(l.push(x), n) == strs(l, n) + (match sval(x.0) { Some(v) => v, None => seq![] })
[[strs]] { assert(l.push(x).drop_last() =~= l); }
[[strs]] pub broadcast proof fn l_no_strs(l: Seq<(Token<'_>, Range<usize>)>)
[[strs]]     ensures #[trigger] strs(l, l.len() as int) == Seq::<char>::empty()
[[strs]] { }
