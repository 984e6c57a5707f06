pub open spec fn tok_ok(t: Token<'_>) -> bool { t is DollarArg ==> t->DollarArg_0 >= 1 }

// ---------------------------------------------------------------- issues
/// the span is valid and the recorded text is the text it covers
pub open spec fn text_at(s: Seq<char>, r: Range<usize>, t: &str) -> bool { span_ok(s, r) && t@ == seg(s, r.start as int, r.end as int) }
pub closed spec fn issue_ok(s: Seq<char>, x: Issue<'_>) -> bool {
    text_at(s, x.span, x.sql_segment)
    && forall|i: int| #![trigger x.fragments@[i]] 0 <= i < x.fragments@.len() ==> text_at(s, x.fragments@[i].span, x.fragments@[i].sql_segment)
}
pub closed spec fn issues_ok(x: Issues<'_>) -> bool {
    forall|i: int| #![trigger x.issues@[i]] 0 <= i < x.issues@.len() ==> issue_ok(x.src@, x.issues@[i])
}
pub broadcast proof fn l_issue_at(x: Issues<'_>, i: int)
    requires #[trigger] issues_ok(x), 0 <= i < x.issues@.len()
    ensures issue_ok(x.src@, #[trigger] x.issues@[i])
{}
pub broadcast proof fn l_issue_span(s: Seq<char>, x: Issue<'_>)
    requires #[trigger] issue_ok(s, x)
    ensures text_at(s, x.span, x.sql_segment)
{}
pub broadcast proof fn l_frag_at(s: Seq<char>, x: Issue<'_>, i: int)
    requires #[trigger] issue_ok(s, x), 0 <= i < x.fragments@.len()
    ensures text_at(s, (#[trigger] x.fragments@[i]).span, x.fragments@[i].sql_segment)
{}
/// opaque error of writing, opaque writing, opaque number of characters (a text has at most isize::MAX bytes)
pub struct VxFmtErr { pub vx: u8 }
#[verifier::external_body]
pub fn vx_write() -> core::result::Result<(), VxFmtErr> { Ok(()) }
#[verifier::external_body]
pub fn vx_count(s: &str) -> (r: usize) ensures r <= isize::MAX { s.len() }
/// number of errors among the issues
#[verifier::opaque] pub open spec fn nerr(x: Seq<Issue<'_>>) -> int decreases x.len()
{ if x.len() == 0 { 0 } else { nerr(x.drop_last()) + if x.last().level is Error { 1int } else { 0int } } }
/// earlier issues are never removed, reordered or changed
#[verifier::opaque] pub open spec fn kept(a: Issues<'_>, b: Issues<'_>) -> bool {
    a.issues@.len() <= b.issues@.len() && b.issues@.subrange(0, a.issues@.len() as int) == a.issues@
}

// ---------------------------------------------------------------- parser state
pub open spec fn src(p: Parser<'_, '_>) -> Seq<char> { p.lexer.src@ }
pub open spec fn lex_inv(l: Lexer<'_>) -> bool { l.chars.wf() && l.chars.src() == l.src@ }
/// facts about the parser state which only the functions reading tokens and adding issues need to look into
#[verifier::opaque] pub open spec fn inv0(l: Lexer<'_>, t: Token<'_>, sp: Range<usize>, pk: Option<(Token<'_>, Range<usize>)>, x: Issues<'_>) -> bool {
    &&& true
    [[wf,term,lite]] &&& lex_inv(l)
    [[wf,lite]] &&& (pk is Some ==> span_ok(l.src@, pk->Some_0.1) && tok_ok(pk->Some_0.0))
    [[wf,lite]] &&& sp.end <= (match pk { Some(t) => t.1.start as int, None => off(l.src@, l.chars.pos()) as int })
    [[wf,lite]] &&& (pk is Some ==> pk->Some_0.1.end <= off(l.src@, l.chars.pos()) && (!(pk->Some_0.0 is Eof) ==> pk->Some_0.1.start < pk->Some_0.1.end))
    [[wf]] &&& x.src@ == l.src@ && issues_ok(x)
    [[names]] &&& (pk is Some ==> tokat(l.src@, pk->Some_0.0, pk->Some_0.1))
    [[term]] &&& (t is Eof ==> l.chars.rest() == 0 && (pk is Some ==> pk->Some_0.0 is Eof))
    [[term]] &&& (pk is Some && pk->Some_0.0 is Eof ==> l.chars.rest() == 0)
}
pub open spec fn invw(p: Parser<'_, '_>) -> bool {
    &&& inv0(p.lexer, p.token, p.span, p.peeked_token, *p.issues)
    [[wf]] &&& p.issues.src@ == src(p)
    [[wf]] &&& Vx::vwf(&p.span, src(p))
    [[wf,lite]] &&& span_ok(src(p), p.span) && tok_ok(p.token) && tok_ok(p.delimiter)
    [[wf,lite]] &&& (!(p.token is Eof) ==> p.span.start < p.span.end)
    [[wf,lite]] &&& p.arg <= p.span.end
    [[names]] &&& tokat(src(p), p.token, p.span)
    [[term]] &&& rem(p) >= 0
    [[term]] &&& !(p.delimiter is Eof)
    [[dial]] &&& p.options.dialect == dia(src(p))
}
/// the dialect in which a text is parsed (any function of the text: what is proved holds for each)
pub uninterp spec fn dia(s: Seq<char>) -> crate::SQLDialect;
/// the parser invariant; `invw` is the same except while a placeholder has been numbered but not been read yet
pub open spec fn inv(p: Parser<'_, '_>) -> bool {
    &&& invw(p)
    [[wf,lite]] &&& p.arg <= p.span.start
}
pub open spec fn tokw(t: Token<'_>) -> int { if t is Eof { 0int } else { 1int } }
/// amount of input left: unread characters plus tokens already read
#[verifier::opaque] pub open spec fn rem0(l: Lexer<'_>, t: Token<'_>, pk: Option<(Token<'_>, Range<usize>)>) -> int {
    l.chars.rest() + tokw(t) + (match pk { Some(t) => tokw(t.0), None => 0int })
}
pub open spec fn rem(p: Parser<'_, '_>) -> int { rem0(p.lexer, p.token, p.peeked_token) }
#[verifier::prophetic] pub open spec fn step(a: Parser<'_, '_>, b: Parser<'_, '_>) -> bool {
    &&& inv(b)
    &&& stepw(a, b)
}
/// p has the options, delimiter and permission for compound statements of o, and its issues extend those of o
#[verifier::opaque] pub open spec fn like(o: Parser<'_, '_>, p: Parser<'_, '_>) -> bool {
    kept(*o.issues, *p.issues) && o.options == p.options && o.delimiter == p.delimiter && o.permit_compound_statements == p.permit_compound_statements
}
/// b differs from a in the mode of parsing by nothing, and only by further issues (stated by what it implies, which is cheaper for the solver)
pub open spec fn modes(a: Parser<'_, '_>, b: Parser<'_, '_>) -> bool {
    forall|o: Parser<'_, '_>| #![trigger like(o, a)] like(o, a) ==> like(o, b)
}
pub broadcast proof fn l_like_self(a: Parser<'_, '_>, b: Parser<'_, '_>) requires #[trigger] modes(a, b) ensures like(a, b) { reveal(like); l_kept_refl(*a.issues); assert(like(a, a)); }
/// a function that may change the parsing mode (only the one reading DELIMITER commands)
#[verifier::prophetic] pub open spec fn stepx(a: Parser<'_, '_>, b: Parser<'_, '_>) -> bool {
    &&& inv(b)
    &&& stepd(a, b)
}
#[verifier::prophetic] pub open spec fn stepw(a: Parser<'_, '_>, b: Parser<'_, '_>) -> bool {
    &&& stepd(a, b)
    [[state]] &&& modes(a, b)
}
#[verifier::prophetic] pub open spec fn stepd(a: Parser<'_, '_>, b: Parser<'_, '_>) -> bool {
    &&& invw(b)
    &&& *final(a.issues) == *final(b.issues)
    [[wf,lite]] &&& b.lexer.src == a.lexer.src
    [[err]] &&& nerr(a.issues.issues@) <= nerr(b.issues.issues@)
    [[term]] &&& rem(b) <= rem(a)
    [[state]] &&& a.arg <= b.arg
    [[prec]] &&& a.span.start <= b.span.start
}
/// at least one error was reported
pub open spec fn errd(a: Parser<'_, '_>, b: Parser<'_, '_>) -> bool { nerr(a.issues.issues@) < nerr(b.issues.issues@) }
/// what adding one issue does to the list
pub broadcast proof fn l_nerr(a: Seq<Issue<'_>>, x: Issue<'_>)
    ensures #[trigger] nerr(a.push(x)) == nerr(a) + if x.level is Error { 1int } else { 0int }
{ reveal(nerr); assert(a.push(x).drop_last() =~= a); assert(a.push(x).last() == x); }
pub broadcast proof fn l_kept_trans(a: Issues<'_>, b: Issues<'_>, c: Issues<'_>)
    requires #[trigger] kept(a, b), #[trigger] kept(b, c)
    ensures kept(a, c)
{
    reveal(kept);
    assert(c.issues@.subrange(0, a.issues@.len() as int) =~= c.issues@.subrange(0, b.issues@.len() as int).subrange(0, a.issues@.len() as int));
}
pub proof fn l_kept_refl(a: Issues<'_>) ensures kept(a, a) { reveal(kept); assert(a.issues@.subrange(0, a.issues@.len() as int) =~= a.issues@); }
/// b is a with issues added at the end: whatever list a extends, b extends
pub open spec fn keeps(a: Issues<'_>, b: Issues<'_>) -> bool { forall|o: Issues<'_>| #![trigger kept(o, a)] kept(o, a) ==> kept(o, b) }
pub proof fn l_keeps(a: Issues<'_>, b: Issues<'_>) requires kept(a, b) ensures keeps(a, b) {
    assert forall|o: Issues<'_>| #![trigger kept(o, a)] kept(o, a) implies kept(o, b) by { l_kept_trans(o, a, b); }
}
pub proof fn l_push(a: Issues<'_>, b: Issues<'_>)
    requires b.issues@.len() == a.issues@.len() + 1, b.issues@.drop_last() == a.issues@, b.src == a.src
    ensures kept(a, b), issues_ok(a) && issue_ok(a.src@, b.issues@.last()) ==> issues_ok(b), nerr(b.issues@) == nerr(a.issues@) + if b.issues@.last().level is Error { 1int } else { 0int }
{
    reveal(kept);
    assert(b.issues@ =~= a.issues@.push(b.issues@.last()));
    l_nerr(a.issues@, b.issues@.last());
    assert(b.issues@.subrange(0, a.issues@.len() as int) =~= a.issues@);
    assert forall|i: int| #![trigger b.issues@[i]] issues_ok(a) && issue_ok(a.src@, b.issues@.last()) && 0 <= i < b.issues@.len() implies issue_ok(b.src@, b.issues@[i]) by {
        if i < a.issues@.len() { assert(a.issues@[i] == b.issues@[i]); }
    }
}
/// b is a with the issue x added at the end
#[verifier::prophetic] pub open spec fn added(a: Issues<'_>, b: Issues<'_>, x: Issue<'_>) -> bool {
    &&& b.src == a.src
    &&& b.issues@ == a.issues@.push(x)
    [[wf]] &&& (issues_ok(a) && issue_ok(a.src@, x) ==> issues_ok(b))
    [[state]] &&& keeps(a, b)
    [[err]] &&& nerr(b.issues@) == nerr(a.issues@) + if x.level is Error { 1int } else { 0int }
}
pub proof fn l_added(a: Issues<'_>, b: Issues<'_>, x: Issue<'_>)
    requires b.src == a.src, b.issues@ =~= a.issues@.push(x)
    ensures added(a, b, x)
{ assert(b.issues@.drop_last() =~= a.issues@); l_push(a, b); l_keeps(a, b); }
pub proof fn l_new_issue(s: Seq<char>, x: Issue<'_>)
    requires text_at(s, x.span, x.sql_segment), x.fragments@.len() == 0
    ensures issue_ok(s, x)
{}
pub proof fn l_frag(s: Seq<char>, a: Issue<'_>, b: Issue<'_>)
    requires issue_ok(s, a), b.span == a.span, b.sql_segment == a.sql_segment, b.fragments@.len() > 0, b.fragments@.drop_last() =~= a.fragments@,
        text_at(s, b.fragments@.last().span, b.fragments@.last().sql_segment)
    ensures issue_ok(s, b)
{
    assert forall|i: int| #![trigger b.fragments@[i]] 0 <= i < b.fragments@.len() implies text_at(s, b.fragments@[i].span, b.fragments@[i].sql_segment) by {
        if i < a.fragments@.len() { assert(b.fragments@.drop_last()[i] == a.fragments@[i]); }
    }
}
pub proof fn l_no_issues(x: Issues<'_>) requires x.issues@.len() == 0 ensures issues_ok(x), nerr(x.issues@) == 0 { reveal(nerr); }
pub open spec fn same_but_issues(a: Parser<'_, '_>, b: Parser<'_, '_>) -> bool {
    b.token == a.token && b.peeked_token == a.peeked_token && b.span == a.span && b.lexer == a.lexer && b.arg == a.arg && b.delimiter == a.delimiter
    && b.options == a.options && b.permit_compound_statements == a.permit_compound_statements
[[strs]]     && b.vx_log == a.vx_log
[[args]]     && b.vx_cnt == a.vx_cnt && b.vx_last == a.vx_last && b.vx_amb == a.vx_amb && b.vx_lspan == a.vx_lspan
}
pub open spec fn same_but_tokens(a: Parser<'_, '_>, b: Parser<'_, '_>) -> bool {
    b.issues == a.issues && b.lexer.src == a.lexer.src && b.arg == a.arg && b.delimiter == a.delimiter
    && b.options == a.options && b.permit_compound_statements == a.permit_compound_statements
}
/// (t, r) is the token the lexer a reads next, b the lexer afterwards
pub open spec fn lexed(a: Lexer<'_>, t: Token<'_>, r: Range<usize>, b: Lexer<'_>) -> bool { b.src == a.src && tok_next(a.src@, a.chars.pos(), t, r, b.chars.pos()) }
pub fn touch<T>(x: &mut T) ensures *final(x) == *old(x) {}
[[lite]] /// unwrap, for code that returns
[[lite]] pub trait VxUnwrap<T>: Sized { spec fn some(&self) -> bool; spec fn val(&self) -> T; fn vx_get(self) -> (r: T) ensures self.some(), r == self.val(); }
[[lite]] impl<T> VxUnwrap<T> for Option<T> { open spec fn some(&self) -> bool { self is Some } open spec fn val(&self) -> T { self->Some_0 } #[verifier::external_body] fn vx_get(self) -> (r: T) { self.unwrap() } }
[[lite]] impl<T, E: core::fmt::Debug> VxUnwrap<T> for Result<T, E> { open spec fn some(&self) -> bool { self is Ok } open spec fn val(&self) -> T { self->Ok_0 } #[verifier::external_body] fn vx_get(self) -> (r: T) { self.unwrap() } }
[[lite]] pub fn unwrapped<T, U: VxUnwrap<T>>(x: U) -> (r: T) ensures x.some(), r == x.val() { x.vx_get() }
[[args]] /// a positional placeholder of the chosen style
[[args]] pub open spec fn ph(t: Token<'_>, o: &crate::ParseOptions) -> bool { (t is QuestionMark && o.arguments is QuestionMark) || (t is PercentS && o.arguments is Percent) }
[[args]] /// every placeholder read so far has been numbered, unless placeholders delimit statements
[[args]] #[verifier::opaque] pub open spec fn argok(p: Parser<'_, '_>) -> bool {
[[args]]     p.vx_amb@ || ph(p.delimiter, p.options) || if p.options.list_hack { p.arg >= p.vx_cnt@ } else { p.arg == p.vx_cnt@ }
[[args]] }
[[args]] /// a placeholder node: numbered by the number of placeholders before it, or as written in the style $n
[[args]] pub fn mk_arg<'x>(x: (usize, Range<usize>), Ghost(p): Ghost<Parser<'_, '_>>) -> (r: crate::expression::Expression<'x>)
[[args]]     requires x.1 == p.vx_lspan@, if p.options.arguments is Dollar { p.vx_last@ == Token::DollarArg((x.0 + 1) as usize) } else { ph(p.vx_last@, p.options) && x.0 + 1 == p.arg }
[[args]]     ensures r == crate::expression::Expression::Arg(x),
[[args]]         forall|o: Parser<'_, '_>| #![trigger argok(o)] argok(o) && o.arg + 1 == p.arg && o.vx_cnt@ + 1 == p.vx_cnt@ && o.options == p.options && o.delimiter == p.delimiter && o.vx_amb == p.vx_amb ==> argok(p)
[[args]] { proof { reveal(argok); } crate::expression::Expression::Arg(x) }
[[args]] pub fn mk_list<'x>(x: (usize, Range<usize>), Ghost(p): Ghost<Parser<'_, '_>>) -> (r: crate::expression::Expression<'x>)
[[args]]     requires x.1 == p.vx_lspan@, p.vx_last@ is Ident, p.vx_last@->Ident_1 is _LIST_, p.options.list_hack, x.0 + 1 == p.arg
[[args]]     ensures r == crate::expression::Expression::ListHack(x),
[[args]]         forall|o: Parser<'_, '_>| #![trigger argok(o)] argok(o) && o.arg + 1 == p.arg && o.vx_cnt@ == p.vx_cnt@ && o.options == p.options && o.delimiter == p.delimiter && o.vx_amb == p.vx_amb ==> argok(p)
[[args]] { proof { reveal(argok); } crate::expression::Expression::ListHack(x) }
[[args]] pub open spec fn argstep(a: Parser<'_, '_>, b: Parser<'_, '_>) -> bool { argok(a) ==> argok(b) || errd(a, b) }
[[args]] /// a read one token and became b
[[args]] pub open spec fn argnext(a: Parser<'_, '_>, b: Parser<'_, '_>) -> bool {
[[args]]     &&& b.vx_cnt@ == a.vx_cnt@ + if ph(a.token, a.options) { 1int } else { 0int }
[[args]]     &&& b.vx_last@ == a.token && b.vx_lspan@ == a.span
[[args]]     &&& b.arg == a.arg && b.options == a.options && b.delimiter == a.delimiter
[[args]]     &&& b.vx_amb@ == a.vx_amb@
[[args]]     &&& (argok(a) && (!ph(a.token, a.options) || ph(b.delimiter, b.options)) ==> argok(b))
[[args]] }
[[args]] pub open spec fn amb(p: Parser<'_, '_>) -> bool { p.vx_amb@ || ph(p.delimiter, p.options) }
[[nmspec]] // ---------------------------------------------------------------- names
[[nmspec]] /// v is the source text of the span r, or what stands between the quotes there
[[nmspec]] #[verifier::opaque] pub open spec fn nm(s: Seq<char>, v: Seq<char>, r: Range<usize>) -> bool {
[[nmspec]]     let (i, j) = (idx(s, r.start as int), idx(s, r.end as int));
[[nmspec]]     (v == sub(s, i, j) && (i < j ==> is_alpha(s[i])))
[[nmspec]]     || (i + 2 <= j && v == sub(s, i + 1, j - 1) && s[i] == s[j - 1] && (s[i] == '`' || s[i] == '"'))
[[nmspec]] }
[[nmspec]] /// a name token carries the text of its own span
[[nmspec]] #[verifier::opaque] pub open spec fn tokat(s: Seq<char>, t: Token<'_>, r: Range<usize>) -> bool {
[[nmspec]]     match t { Token::Ident(v, k) => nm(s, v@, r) && (k is QUOTED_IDENTIFIER ==> cat(s, idx(s, r.start as int), '`')), Token::DoubleQuotedString(v) => nm(s, v@, r) && cat(s, idx(s, r.start as int), '"'), _ => true }
[[nmspec]] }
[[nmspec]] pub broadcast proof fn l_tokat(s: Seq<char>, p: int, t: Token<'_>, r: Range<usize>, q: int)
[[nmspec]]     requires #[trigger] tok_next(s, p, t, r, q), 0 <= p <= s.len()
[[nmspec]]     ensures tokat(s, t, r)
[[nmspec]] {
[[nmspec]]     reveal(tokat); reveal(nm); reveal(rel_word); reveal(rel_bq); reveal(rel_dq); reveal(rel_at); reveal(rel_dollar); reveal(rel_slash); reveal(rel_sq); reveal(rel_num); reveal(rel_dot); reveal(rel_dq);
[[nmspec]]     l_skip(s, p); let a = skip(s, p);
[[nmspec]]     if a < s.len() { l_kw_of(upper(sub(s, a, q))); l_idx(s, a); l_idx(s, q); l_ends(s, a + 1); l_str_end(s, a + 1, '"'); l_close(s, a + 1, '"'); }
[[nmspec]] }
[[nmspec]] /// the end of a string is a quote
[[nmspec]] pub proof fn l_close(s: Seq<char>, i: int, q: char)
[[nmspec]]     requires 0 <= i
[[nmspec]]     ensures str_end(s, i, q) >= 0 ==> cat(s, str_end(s, i, q), q)
[[nmspec]]     decreases s.len() - i
[[nmspec]] { reveal(str_end); if i < s.len() { l_close(s, i + 1, q); if i + 1 < s.len() { l_close(s, i + 2, q); } } }
[[nmspec]] pub broadcast proof fn l_nm_default(s: Seq<char>, v: Seq<char>, r: Range<usize>)
[[nmspec]]     requires v.len() == 0, r.start == 0, r.end == 0
[[nmspec]]     ensures #[trigger] nm(s, v, r)
[[nmspec]] { reveal(nm); l_pos(s, 0); l_idx(s, 0); assert(v =~= sub(s, 0, 0)); }
[[warns]] // ---------------------------------------------------------------- warnings
[[warns]] /// the read of an option which must not have any influence here
[[warns]] pub fn guarded<T>(x: T) -> (r: T) requires false { x }
[[warns]] pub uninterp spec fn reserved_of(k: Keyword) -> bool;
[[warns]] pub open spec fn lower(s: Seq<char>) -> bool decreases s.len() { s.len() > 0 && (('a' <= s[0] && s[0] <= 'z') || lower(s.skip(1))) }
[[warns]] /// b is a with one issue of this level and span added
[[warns]] pub open spec fn pushed(a: Issues<'_>, b: Issues<'_>, l: Level, r: Range<usize>) -> bool {
[[warns]]     b.issues@.len() == a.issues@.len() + 1 && b.issues@ == a.issues@.push(b.issues@.last()) && b.issues@.last().level == l && b.issues@.last().span.start == r.start && b.issues@.last().span.end == r.end
[[warns]] }
[[warns]] /// one token was read
[[warns]] pub open spec fn nexted(a: Parser<'_, '_>, b: Parser<'_, '_>) -> bool {
[[warns]]     &&& b.peeked_token is None && b.lexer.src@ == a.lexer.src@ && b.arg == a.arg && b.delimiter == a.delimiter && b.options == a.options && b.permit_compound_statements == a.permit_compound_statements
[[warns]]     &&& match a.peeked_token { Some(t) => b.token == t.0 && b.span == t.1 && b.lexer == a.lexer, None => lexed(a.lexer, b.token, b.span, b.lexer) }
[[warns]] }
[[warns]] /// a name of the tree: quoted, or reported if that is asked for
[[warns]] pub fn mk_name<'x>(value: &'x str, span: Range<usize>, Ghost(p): Ghost<Parser<'_, '_>>) -> (r: crate::identifier::Identifier<'x>)
[[warns]]     requires value@.len() == 0 || !p.options.warn_unquoted_identifiers || cat(src(p), idx(src(p), span.start as int), '`') || cat(src(p), idx(src(p), span.start as int), '"')
[[warns]]         || exists|k: int| 0 <= k < p.issues.issues@.len() && (#[trigger] p.issues.issues@[k]).span.start == span.start && p.issues.issues@[k].span.end == span.end
[[warns]]     ensures r.value == value, r.span == span,
[[warns]] { crate::identifier::Identifier::new(value, span) }
