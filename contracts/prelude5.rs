// ---------------------------------------------------------------- lexical grammar
pub open spec fn cat(s: Seq<char>, i: int, c: char) -> bool { 0 <= i < s.len() && s[i] == c }
pub open spec fn ci(s: Seq<char>, i: int, u: char, l: char) -> bool { cat(s, i, u) || cat(s, i, l) }
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_alpha(c: char) -> bool { c == '_' || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn is_word(c: char) -> bool { is_alpha(c) || is_digit(c) }
pub open spec fn is_bq(c: char) -> bool { is_word(c) || c == '-' }
pub open spec fn is_blank(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
#[verifier::opaque] pub open spec fn word_end(s: Seq<char>, i: int) -> int decreases s.len() - i
{ if 0 <= i < s.len() && is_word(s[i]) { word_end(s, i + 1) } else { i } }
#[verifier::opaque] pub open spec fn digit_end(s: Seq<char>, i: int) -> int decreases s.len() - i
{ if 0 <= i < s.len() && is_digit(s[i]) { digit_end(s, i + 1) } else { i } }
#[verifier::opaque] pub open spec fn bq_end(s: Seq<char>, i: int) -> int decreases s.len() - i
{ if 0 <= i < s.len() && is_bq(s[i]) { bq_end(s, i + 1) } else { i } }
/// end of a comment that runs to the end of the line
#[verifier::opaque] pub open spec fn line_end(s: Seq<char>, i: int) -> int decreases s.len() - i
{ if 0 <= i < s.len() { if s[i] == '\r' || s[i] == '\n' { i + 1 } else { line_end(s, i + 1) } } else { i } }
/// just after the first "*/" at or after i, or -1
#[verifier::opaque] pub open spec fn cmt_end(s: Seq<char>, i: int) -> int decreases s.len() - i
{ if 0 <= i < s.len() { if s[i] == '*' && cat(s, i + 1, '/') { i + 2 } else { cmt_end(s, i + 1) } } else { -1 } }
/// index of the quote closing a string whose contents start at i, or -1
#[verifier::opaque] pub open spec fn str_end(s: Seq<char>, i: int, q: char) -> int decreases s.len() - i
{
    if 0 <= i < s.len() {
        if s[i] == '\\' { if i + 1 < s.len() { str_end(s, i + 2, q) } else { -1 } }
        else if s[i] == q { if cat(s, i + 1, q) { str_end(s, i + 2, q) } else { i } }
        else { str_end(s, i + 1, q) }
    } else { -1 }
}
/// first position at or after i that is neither blank nor inside a comment
pub open spec fn skip(s: Seq<char>, i: int) -> int decreases s.len() - i
{
    if 0 <= i < s.len() {
        if is_blank(s[i]) { skip(s, i + 1) }
        else if (s[i] == '-' && cat(s, i + 1, '-')) || (s[i] == '/' && cat(s, i + 1, '/')) {
            let j = line_end(s, i + 1);
            if i < j <= s.len() { skip(s, j) } else { i }
        } else if s[i] == '/' && cat(s, i + 1, '*') {
            let j = cmt_end(s, i + 2);
            if i < j <= s.len() { skip(s, j) } else { i }
        } else { i }
    } else { i }
}
pub open spec fn dig(c: char) -> int { c as u32 - '0' as u32 }
/// value of the decimal digits s[i..j]
#[verifier::opaque] pub open spec fn dval(s: Seq<char>, i: int, j: int) -> int decreases j - i
{ if i < j && 0 <= i && j <= s.len() { dval(s, i, j - 1) * 10 + dig(s[j - 1]) } else { 0 } }
pub open spec fn lit(s: Seq<char>, a: int, b: int, r: &str) -> bool { r@ == sub(s, a, b) }
#[verifier::opaque] pub open spec fn rel_at(s: Seq<char>, a: int, t: Token<'_>, b: int) -> bool { let c = s[a]; if cat(s, a + 1, '@') {
            if ci(s, a + 2, 'S', 's') && ci(s, a + 3, 'E', 'e') && ci(s, a + 4, 'S', 's') && ci(s, a + 5, 'S', 's') && ci(s, a + 6, 'I', 'i') && ci(s, a + 7, 'O', 'o') && ci(s, a + 8, 'N', 'n') {
                t is AtAtSession && b == a + 9
            } else if ci(s, a + 2, 'G', 'g') && ci(s, a + 3, 'L', 'l') && ci(s, a + 4, 'O', 'o') && ci(s, a + 5, 'B', 'b') && ci(s, a + 6, 'A', 'a') && ci(s, a + 7, 'L', 'l') {
                t is AtAtGlobal && b == a + 8
            } else { t is Invalid }
        } else { t is At && b == a + 1 } }
#[verifier::opaque] pub open spec fn rel_dollar(s: Seq<char>, a: int, t: Token<'_>, b: int) -> bool { let c = s[a]; if cat(s, a + 1, '$') { t is DoubleDollar && b == a + 2 }
        else if 0 <= a + 1 < s.len() && is_digit(s[a + 1]) && s[a + 1] != '0' {
            b == digit_end(s, a + 1)
            && if dval(s, a + 1, b) <= usize::MAX { t is DollarArg && t->DollarArg_0 == dval(s, a + 1, b) } else { t is Invalid }
        } else { t is Invalid } }
#[verifier::opaque] pub open spec fn rel_slash(s: Seq<char>, a: int, t: Token<'_>, b: int) -> bool { let c = s[a]; if cat(s, a + 1, '*') { t is Invalid && b == s.len() } else { t is Div && b == a + 1 } }
#[verifier::opaque] pub open spec fn rel_word(s: Seq<char>, a: int, t: Token<'_>, b: int) -> bool { let c = s[a]; if (c == 'x' || c == 'X') && cat(s, a + 1, '\'') { t is Invalid }
        else { b == word_end(s, a) && t is Ident && lit(s, a, b, t->Ident_0) && t->Ident_1 == kw_of(upper(sub(s, a, b))) } }
#[verifier::opaque] pub open spec fn rel_bq(s: Seq<char>, a: int, t: Token<'_>, b: int) -> bool { let c = s[a]; let e = bq_end(s, a + 1);
        if cat(s, e, '`') { b == e + 1 && t is Ident && lit(s, a + 1, e, t->Ident_0) && t->Ident_1 == Keyword::QUOTED_IDENTIFIER } else { t is Invalid } }
#[verifier::opaque] pub open spec fn rel_sq(s: Seq<char>, a: int, t: Token<'_>, b: int) -> bool { let c = s[a]; let e = str_end(s, a + 1, '\'');
        if e >= 0 { b == e + 1 && t is SingleQuotedString && lit(s, a + 1, e, t->SingleQuotedString_0) } else { t is Invalid && b == s.len() } }
#[verifier::opaque] pub open spec fn rel_dq(s: Seq<char>, a: int, t: Token<'_>, b: int) -> bool { let c = s[a]; let e = str_end(s, a + 1, '"');
        if e >= 0 { b == e + 1 && t is DoubleQuotedString && lit(s, a + 1, e, t->DoubleQuotedString_0) } else { t is Invalid && b == s.len() } }
#[verifier::opaque] pub open spec fn rel_num(s: Seq<char>, a: int, t: Token<'_>, b: int) -> bool { let c = s[a]; let d = digit_end(s, a);
        if cat(s, d, '.') { b == digit_end(s, d + 1) && t is Float && lit(s, a, b, t->Float_0) }
        else { b == d && t is Integer && lit(s, a, b, t->Integer_0) } }
#[verifier::opaque] pub open spec fn rel_dot(s: Seq<char>, a: int, t: Token<'_>, b: int) -> bool { let c = s[a]; if 0 <= a + 1 < s.len() && is_digit(s[a + 1]) { b == digit_end(s, a + 1) && t is Float && lit(s, a, b, t->Float_0) }
        else { t is Period && b == a + 1 } }
/// t is the token that starts at character a (not blank, not a comment) and ends at character b
pub open spec fn tok_rel(s: Seq<char>, a: int, t: Token<'_>, b: int) -> bool {
    let c = s[a];
    if c == '?' { t is QuestionMark && b == a + 1 }
    else if c == ';' { t is SemiColon && b == a + 1 }
    else if c == '\\' { t is Backslash && b == a + 1 }
    else if c == '[' { t is LBracket && b == a + 1 }
    else if c == ']' { t is RBracket && b == a + 1 }
    else if c == '&' { if cat(s, a + 1, '&') { t is DoubleAmpersand && b == a + 2 } else { t is Ampersand && b == a + 1 } }
    else if c == '^' { t is Caret && b == a + 1 }
    else if c == '{' { t is LBrace && b == a + 1 }
    else if c == '}' { t is RBrace && b == a + 1 }
    else if c == '(' { t is LParen && b == a + 1 }
    else if c == ')' { t is RParen && b == a + 1 }
    else if c == ',' { t is Comma && b == a + 1 }
    else if c == '+' { t is Plus && b == a + 1 }
    else if c == '*' { t is Mul && b == a + 1 }
    else if c == '%' { if cat(s, a + 1, 's') { t is PercentS && b == a + 2 } else { t is Mod && b == a + 1 } }
    else if c == '#' { t is Sharp && b == a + 1 }
    else if c == '@' { rel_at(s, a, t, b) }
    else if c == '~' { t is Tilde && b == a + 1 }
    else if c == ':' { if cat(s, a + 1, ':') { t is DoubleColon && b == a + 2 } else { t is Colon && b == a + 1 } }
    else if c == '$' { rel_dollar(s, a, t, b) }
    else if c == '=' { if cat(s, a + 1, '>') { t is RArrow && b == a + 2 } else { t is Eq && b == a + 1 } }
    else if c == '!' {
        if cat(s, a + 1, '=') { t is Neq && b == a + 2 } else if cat(s, a + 1, '!') { t is DoubleExclamationMark && b == a + 2 } else { t is ExclamationMark && b == a + 1 }
    }
    else if c == '<' {
        if cat(s, a + 1, '=') { if cat(s, a + 2, '>') { t is Spaceship && b == a + 3 } else { t is LtEq && b == a + 2 } }
        else if cat(s, a + 1, '>') { t is Neq && b == a + 2 } else if cat(s, a + 1, '<') { t is ShiftLeft && b == a + 2 } else { t is Lt && b == a + 1 }
    }
    else if c == '>' {
        if cat(s, a + 1, '=') { t is GtEq && b == a + 2 } else if cat(s, a + 1, '>') { t is ShiftRight && b == a + 2 } else { t is Gt && b == a + 1 }
    }
    else if c == '|' { if cat(s, a + 1, '|') { t is DoublePipe && b == a + 2 } else { t is Pipe && b == a + 1 } }
    else if c == '-' { t is Minus && b == a + 1 }
    else if c == '/' { rel_slash(s, a, t, b) }
    else if is_alpha(c) { rel_word(s, a, t, b) }
    else if c == '`' { rel_bq(s, a, t, b) }
    else if c == '\'' { rel_sq(s, a, t, b) }
    else if c == '"' { rel_dq(s, a, t, b) }
    else if is_digit(c) { rel_num(s, a, t, b) }
    else if c == '.' { rel_dot(s, a, t, b) }
    else { t is Invalid && b == a + 1 }
}
/// result of reading one token from character p: ends at character q
[[lex]] pub open spec fn tok_next(s: Seq<char>, p: int, t: Token<'_>, r: Range<usize>, q: int) -> bool {
[[lex]]     let a = skip(s, p);
[[lex]]     if a >= s.len() { t is Eof && r.start == blen(s) && r.end == blen(s) && q == s.len() }
[[lex]]     else { p <= a < q <= s.len() && r.start == off(s, a) && r.end == off(s, q) && !(t is Eof) && tok_rel(s, a, t, q) && tok_ok(t) }
[[lex]] }
[[!lex]] /// (which token it is does not matter here)
[[!lex]] pub open spec fn tok_next(s: Seq<char>, p: int, t: Token<'_>, r: Range<usize>, q: int) -> bool {
[[!lex]]     let a = idx(s, r.start as int);
[[!lex]]     if t is Eof { r.start == blen(s) && r.end == blen(s) && q == s.len() }
[[!lex]]     else { p <= a < q <= s.len() && r.start == off(s, a) && r.end == off(s, q) && tok_ok(t) }
[[!lex]] }
pub broadcast proof fn l_dval(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len()
    ensures j == i + 1 ==> #[trigger] dval(s, i, j) == dig(s[i])
{ reveal_with_fuel(dval, 2); }
pub proof fn l_ends(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= word_end(s, i) <= s.len(), i <= digit_end(s, i) <= s.len(), i <= bq_end(s, i) <= s.len(), i <= line_end(s, i) <= s.len(),
        i < s.len() ==> i < line_end(s, i),
        cmt_end(s, i) == -1 || i < cmt_end(s, i) <= s.len(),
    decreases s.len() - i
{ reveal(word_end); reveal(digit_end); reveal(bq_end); reveal(line_end); reveal(cmt_end); if i < s.len() { l_ends(s, i + 1); } }
pub broadcast proof fn l_str_end(s: Seq<char>, i: int, q: char)
    requires 0 <= i
    ensures #[trigger] str_end(s, i, q) == -1 || i <= str_end(s, i, q) < s.len()
    decreases s.len() - i
{ reveal(str_end); if i < s.len() { l_str_end(s, i + 1, q); if i + 1 < s.len() { l_str_end(s, i + 2, q); } } }
pub broadcast proof fn l_skip(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= #[trigger] skip(s, i) <= s.len()
    decreases s.len() - i
{
    reveal(line_end); reveal(cmt_end);
    if i < s.len() {
        l_skip(s, i + 1);
        let j = line_end(s, i + 1); let k = cmt_end(s, i + 2);
        if i < j <= s.len() { l_skip(s, j); }
        if i < k <= s.len() { l_skip(s, k); }
    }
}

pub open spec fn later(l: Lexer<'_>, start: usize) -> bool { idx(l.src@, start as int) < l.chars.pos() }

// ---------------------------------------------------------------- inline COPY data
/// first position at or after i that is not a blank other than a newline
pub open spec fn sp_end(s: Seq<char>, i: int) -> int decreases s.len() - i
{ if 0 <= i < s.len() && s[i] != '\n' && is_ws(s[i]) { sp_end(s, i + 1) } else { i } }
/// the newline at i is followed by a line consisting of "\." only
pub open spec fn eod(s: Seq<char>, i: int) -> bool {
    cat(s, i, '\n') && cat(s, i + 1, '\\') && cat(s, i + 2, '.') && (i + 3 >= s.len() || s[i + 3] == '\n')
}
/// first end-of-data mark at or after i, or -1
pub open spec fn eod_at(s: Seq<char>, i: int) -> int decreases s.len() - i
{ if 0 <= i < s.len() { if eod(s, i) { i } else { eod_at(s, i + 1) } } else { -1 } }
/// characters [r.0, r.1) are the data read from p, and reading goes on at r.2
pub open spec fn stdin_data(s: Seq<char>, p: int) -> (int, int, int) {
    let b = sp_end(s, p);
    let start = if cat(s, b, '\n') { b + 1 } else { b };
    let e = eod_at(s, b);
    if e >= 0 { (start, e + 1, if e + 3 < s.len() { e + 4 } else { e + 3 }) } else { (start, s.len() as int, s.len() as int) }
}
pub broadcast proof fn l_sp_end(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= #[trigger] sp_end(s, i) <= s.len()
    decreases s.len() - i
{ if i < s.len() { l_sp_end(s, i + 1); } }
pub broadcast proof fn l_eod_at(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures #[trigger] eod_at(s, i) == -1 || i <= eod_at(s, i) < s.len()
    decreases s.len() - i
{ if i < s.len() { l_eod_at(s, i + 1); } }
