## ------------------------------------------------------------ issues
@fn parser::Parser::err parser::Parser::warn
@no-uniform
@ret r
@requires
[[wf]]    crate::vx::invw(*old(self)), span.vwf(crate::vx::src(*old(self))),
@ensures
    crate::vx::same_but_issues(*old(self), *final(self)), *final(final(self).issues) == *final(old(self).issues), r.src == old(self).issues.src,
    crate::vx::added(*old(self).issues, *final(self).issues, *final(r.issue)),
[[wf]]    crate::vx::issue_ok(crate::vx::src(*old(self)), *r.issue),
    (true
[[lite]]     && crate::vx::invw(*old(self))
[[wf]]     && crate::vx::issue_ok(crate::vx::src(*old(self)), *final(r.issue))
    ) ==> crate::vx::invw(*final(self)),
@start
    proof { reveal(crate::vx::inv0); }
@fn parser::Parser::err
@ensures
    (*r.issue).level is Error,
@fn parser::Parser::warn
@ensures
    (*r.issue).level is Warning,
@fn parser::Parser::expected_error
@weak
@ensures
    crate::vx::same_but_issues(*old(self), *final(self)),
[[err]]    crate::vx::errd(*old(self), *final(self)),
@fn parser::Parser::expected_failure parser::Parser::err_here parser::Parser::ice parser::Parser::todo
@ret r
@weak
@ensures
    r is Err, crate::vx::same_but_issues(*old(self), *final(self)),
## ------------------------------------------------------------ tokens
@fn parser::Parser::new
@no-uniform
@ret r
@requires
[[wf]]    crate::vx::issues_ok(*old(issues)), old(issues).src@ == src@,
[[dial]]    options.dialect == crate::vx::dia(src@),
@ensures
    crate::vx::inv(r), *r.issues == *old(issues), *final(r.issues) == *final(issues),
    r.lexer.src == src, r.options == options, r.arg == 0, !r.permit_compound_statements, r.delimiter is SemiColon, r.peeked_token is None,
@start
    broadcast use crate::vx::group_lex, crate::vx::l_mono2; proof { reveal(crate::vx::inv0); reveal(crate::vx::rem0); crate::vx::l_bnd_end(src@); }
@fn parser::Parser::next
@weak
@ensures
    crate::vx::inv(*final(self)),
[[wf,lite]]    old(self).span.end <= final(self).span.start,
    crate::vx::same_but_tokens(*old(self), *final(self)), final(self).peeked_token is None,
    old(self).peeked_token is Some ==> final(self).token == old(self).peeked_token->Some_0.0 && final(self).span == old(self).peeked_token->Some_0.1 && final(self).lexer == old(self).lexer,
    old(self).peeked_token is None ==> crate::vx::lexed(old(self).lexer, final(self).token, final(self).span, final(self).lexer),
[[term]]    !(old(self).token is Eof) ==> crate::vx::rem(*final(self)) < crate::vx::rem(*old(self)),
[[term]]    old(self).token is Eof ==> final(self).token is Eof,
@start
    broadcast use crate::vx::group_lex, crate::vx::l_mono2; proof { reveal(crate::vx::inv0); reveal(crate::vx::rem0); crate::vx::l_bnd_end(self.lexer.src@); }
@fn parser::Parser::read_from_stdin_and_next
@requires
    old(self).peeked_token is None,
@ensures
    crate::vx::same_but_tokens(*old(self), *final(self)),
[[term]]    !(old(self).token is Eof) ==> crate::vx::rem(*final(self)) < crate::vx::rem(*old(self)),
@start
    broadcast use crate::vx::group_lex, crate::vx::l_mono2; proof { reveal(crate::vx::inv0); reveal(crate::vx::rem0); crate::vx::l_bnd_end(self.lexer.src@); }
@fn parser::Parser::peek
@ret r
@ensures
    crate::vx::same_but_tokens(*old(self), *final(self)), final(self).token == old(self).token, final(self).span == old(self).span,
    final(self).peeked_token is Some, *r == final(self).peeked_token->Some_0.0,
@start
    broadcast use crate::vx::group_lex, crate::vx::l_mono2; proof { reveal(crate::vx::inv0); reveal(crate::vx::rem0); crate::vx::l_bnd_end(self.lexer.src@); }
@fn parser::Parser::consume
@ret r
@weak
@ensures
    crate::vx::inv(*final(self)),
[[wf,lite]]    old(self).span.end <= final(self).span.start,
    crate::vx::same_but_tokens(*old(self), *final(self)), final(self).peeked_token is None, r == old(self).span,
[[term]]    !(old(self).token is Eof) ==> crate::vx::rem(*final(self)) < crate::vx::rem(*old(self)),
@fn parser::Parser::skip_token
@ret r
@ensures
[[wf,lite]]    r is Some ==> r->Some_0.end <= final(self).span.start,
    final(self).issues == old(self).issues,
    crate::lexer::tok_eq(old(self).token, token) <==> r is Some,
    r is None ==> *final(self) == *old(self),
    r is Some ==> r->Some_0 == old(self).span,
[[term]]    r is Some && !(token is Eof) ==> crate::vx::rem(*final(self)) < crate::vx::rem(*old(self)),
@fn parser::Parser::skip_keyword
@ret r
@ensures
[[wf,lite]]    r is Some ==> r->Some_0.end <= final(self).span.start,
    (old(self).token is Ident && old(self).token->Ident_1 == keyword) <==> r is Some,
    r is None ==> *final(self) == *old(self),
    r is Some ==> r->Some_0 == old(self).span,
[[term]]    r is Some ==> crate::vx::rem(*final(self)) < crate::vx::rem(*old(self)),
@fn parser::Parser::consume_keyword
@ret r
@weak
@ensures
    r is Ok ==> crate::vx::inv(*final(self)),
[[wf,lite]]    r is Ok ==> r->Ok_0.end <= final(self).span.start,
    (old(self).token is Ident && old(self).token->Ident_1 == keyword) <==> r is Ok,
    r is Ok ==> r->Ok_0 == old(self).span && final(self).peeked_token is None,
    r is Err ==> crate::vx::same_but_issues(*old(self), *final(self)),
[[term]]    r is Ok ==> crate::vx::rem(*final(self)) < crate::vx::rem(*old(self)),
@fn parser::Parser::consume_keywords
@ret r
@requires
    keywords@.len() > 0,
@ensures
[[wf,lite]]    r is Ok ==> old(self).span.end <= r->Ok_0.end && r->Ok_0.start <= old(self).span.start,
[[term]]    r is Ok ==> crate::vx::rem(*final(self)) < crate::vx::rem(*old(self)),
@loop *
[[wf,lite]] invariant old(self).span.end <= span.end, span.start <= old(self).span.start,
[[kwds]]    old(self).span.start <= self.span.start, forall|i: int| #![trigger keywords@[i]] 0 <= i <= vx_i ==> crate::vx::kin(crate::vx::src(*old(self)), core::ops::Range { start: old(self).span.start, end: span.end }, keywords@[i]),
[[term]]    crate::vx::rem(*self) < crate::vx::rem(*old(self)),
@fn parser::Parser::consume_token
@ret r
@weak
@ensures
    r is Ok ==> crate::vx::inv(*final(self)),
[[wf,lite]]    r is Ok ==> r->Ok_0.end <= final(self).span.start,
    crate::lexer::tok_eq(old(self).token, token) <==> r is Ok,
    r is Ok ==> r->Ok_0 == old(self).span,
    r is Err ==> crate::vx::same_but_issues(*old(self), *final(self)),
[[term]]    r is Ok && !(token is Eof) ==> crate::vx::rem(*final(self)) < crate::vx::rem(*old(self)),
@fn parser::Parser::recover
@no-errd
@loop ~~brackets.pop()
[[term]] decreases brackets@.len(),
@requires
    forall|t: &Token<'a>| #[trigger] success.requires((t,)), forall|t: &Token<'a>| #[trigger] fail.requires((t,)),
@fn parser::Parser::consume_plain_identifier parser::Parser::consume_string
@strict
@fn parser::Parser::consume_int parser::Parser::consume_float
@ret r
@no-ret
@ensures
[[wf]]    r is Ok ==> Vx::vwf(&r->Ok_0.1, crate::vx::src(*old(self))),
[[term]]    r is Ok ==> crate::vx::rem(*final(self)) < crate::vx::rem(*old(self)),
    r is Ok ==> r->Ok_0.1 == old(self).span,
@fn parser::Parser::consume_int
@ensures
    r is Ok <==> old(self).token is Integer,
    r is Ok && crate::vx::parsed::<T>(old(self).token->Integer_0@) is Ok ==> r->Ok_0.0 == crate::vx::parsed::<T>(old(self).token->Integer_0@)->Ok_0,
[[err]]    r is Ok && crate::vx::parsed::<T>(old(self).token->Integer_0@) is Err ==> crate::vx::errd(*old(self), *final(self)),
@fn parser::Parser::consume_float
@ensures
    r is Ok <==> old(self).token is Float,
    r is Ok && crate::vx::parsed::<T>(old(self).token->Float_0@) is Ok ==> r->Ok_0.0 == crate::vx::parsed::<T>(old(self).token->Float_0@)->Ok_0,
[[err]]    r is Ok && crate::vx::parsed::<T>(old(self).token->Float_0@) is Err ==> crate::vx::errd(*old(self), *final(self)),
## ------------------------------------------------------------ string literals
@fn parser::decode_quoted_string
@ret r
@ensures
    crate::vx::cowv(r) == crate::vx::dec_str(s@, quote),
@start
    proof { reveal(crate::vx::dec_str); if !s@.contains(quote) && !s@.contains('\\') { crate::vx::l_dec_plain(s@, quote); } }
@loop 0
    invariant_except_break r@ + crate::vx::dec_str(chars.left(), quote) =~= crate::vx::dec_str(s@, quote),
    ensures r@ == crate::vx::dec_str(s@, quote),
    decreases chars.left().len(),
@fn parser::decode_single_quoted_string
@ret r
@ensures
    crate::vx::cowv(r) == crate::vx::dec_str(s@, '\''),
@fn parser::decode_double_quoted_string
@ret r
@ensures
    crate::vx::cowv(r) == crate::vx::dec_str(s@, '"'),
@fn parser::Parser::consume_string
@loop 0
[[term]]    invariant crate::vx::rem(*self) < crate::vx::rem(*old(self)),
@fn parser::Parser::err parser::Parser::warn
@ensures
[[state]]    crate::vx::modes(*old(self), *final(self)),
@fn parser::Parser::err parser::Parser::warn parser::Parser::next parser::Parser::peek parser::Parser::new parser::Parser::read_from_stdin_and_next
@start
[[state]]    proof { reveal(crate::vx::like); }
@fn parser::Parser::err parser::Parser::warn
@ensures
[[state,warns]]    (*r.issue).fragments@.len() == 0, Some(((*r.issue).span.start as int, (*r.issue).span.end as int)) == span.osp(),
[[state]]    call_ensures(<_ as core::convert::Into<Cow<'static, str>>>::into, (message,), (*r.issue).message),
## ------------------------------------------------------------ placeholders
[[args]] @ghost Parser vx_cnt Ghost<int> Ghost(0)
[[args]] @ghost Parser vx_amb Ghost<bool> Ghost(false)
[[args]] @ghost Parser vx_last Ghost<Token<'a>> Ghost(Token::Eof)
[[args]] @ghost Parser vx_lspan Ghost<Span> Ghost(arbitrary())
[[args]] @construct Expression::Arg crate::vx::mk_arg
[[args]] @construct Expression::ListHack crate::vx::mk_list
@fn parser::Parser::new
@ensures
[[args]]    r.vx_cnt@ == 0, crate::vx::argok(r),
@fn parser::Parser::new
@start
[[args]]    proof { reveal(crate::vx::argok); }
@fn parser::Parser::next
@start
[[args]]    proof { reveal(crate::vx::argok); }
[[args]]    self.vx_cnt = Ghost(self.vx_cnt@ + if crate::vx::ph(self.token, self.options) { 1int } else { 0int }); self.vx_last = Ghost(self.token); self.vx_lspan = Ghost(self.span);
@fn parser::Parser::peek parser::Parser::err parser::Parser::warn
@start
[[args]]    proof { reveal(crate::vx::argok); }
@fn parser::Parser::err parser::Parser::warn
@ensures
[[args]]    crate::vx::argok(*old(self)) ==> crate::vx::argok(*final(self)),
@fn parser::Parser::next parser::Parser::consume parser::Parser::consume_token parser::Parser::skip_token parser::Parser::recover
@free-args
@fn parser::Parser::next parser::Parser::consume
@ensures
[[args]]    crate::vx::argnext(*old(self), *final(self)),
@fn parser::Parser::consume_token
@ensures
[[args]]    r is Ok ==> crate::vx::argnext(*old(self), *final(self)),
@fn parser::Parser::consume_keyword
@ensures
[[args]]    r is Ok ==> crate::vx::argnext(*old(self), *final(self)),
@fn parser::Parser::skip_token
@ensures
[[args]]    r is Some ==> crate::vx::argnext(*old(self), *final(self)),
[[args]]    r is None ==> crate::vx::argstep(*old(self), *final(self)),
@fn parser::Parser::read_from_stdin_and_next
@start
[[args]]    proof { reveal(crate::vx::argok); }
## ------------------------------------------------------------ the tokens read (ghost log)
[[strs]] @ghost Parser vx_log Ghost<Seq<(Token<'a>,Span)>> Ghost(Seq::empty())
@fn parser::Parser::next
@start
[[strs]]    self.vx_log = Ghost(self.vx_log@.push((self.token, self.span)));
@fn parser::Parser::next parser::Parser::consume
@ensures
[[strs]]    final(self).vx_log@ == old(self).vx_log@.push((old(self).token, old(self).span)),
@fn parser::Parser::consume_string
@ret r
@ensures
[[strs]]    r is Ok ==> crate::vx::literals(old(self).vx_log@, final(self).vx_log@) && r->Ok_0.span.start == old(self).span.start
[[strs]]        && crate::vx::cowv(r->Ok_0.value) == crate::vx::strs(final(self).vx_log@, old(self).vx_log@.len() as int)
[[strs]]        && r->Ok_0.span.end == final(self).vx_log@.last().1.end && crate::vx::sval(final(self).token) is None,
[[strs]]    r is Ok <==> crate::vx::sval(old(self).token) is Some,
@loop *
[[strs]]    invariant crate::vx::literals(old(self).vx_log@, self.vx_log@), b.start == old(self).span.start, b.start <= b.end, b.end <= self.span.start, b.end == self.vx_log@.last().1.end,
[[strs]]        crate::vx::cowv(a) =~= crate::vx::strs(self.vx_log@, old(self).vx_log@.len() as int),
@start
[[strs]]    broadcast use crate::vx::l_push_strs, crate::vx::l_no_strs;
## ------------------------------------------------------------ names
@fn parser::Parser::new parser::Parser::next parser::Parser::peek parser::Parser::read_from_stdin_and_next
@start
[[names]]    broadcast use crate::vx::l_tokat;
@fn parser::Parser::token_to_plain_identifier
@requires
[[names]]    crate::vx::tokat(crate::vx::src(*old(self)), *token, span),
@fn parser::Parser::token_to_plain_identifier parser::Parser::consume_plain_identifier
@start
[[nmspec]]    proof { reveal(crate::vx::tokat); }
@fn create::parse_create_table
@start
[[nmspec]]    broadcast use crate::vx::l_nm_default; proof { reveal_strlit(""); }
@fn lib::parse_statement lib::parse_statements
@ensures
[[names]]    crate::vx::Vx::vwf(&r, src@),
## ------------------------------------------------------------ warnings
[[warns]] @guardread warn_unquoted_identifiers parser::Parser::token_to_plain_identifier parser::Parser::consume_plain_identifier
[[warns]] @guardread warn_none_capital_keywords parser::Parser::consume_keyword
[[warns]] @guardread issues.issues
[[warns]] @construct Identifier::new crate::vx::mk_name
@fn keywords::Keyword::reserved
[[warns]] @external-body
[[warns]] @ret r
@ensures
[[warns]]    r == crate::vx::reserved_of(*self),
@fn lib::SQLDialect::is_postgresql
@ret r
@ensures
[[warns]]    r == (*self is PostgreSQL),
@fn issue::Issues::get issue::Issues::into_vec issue::Issues::is_ok
@requires
[[warns]]    false,
@fn parser::Parser::next parser::Parser::consume
@ensures
[[warns]]    crate::vx::nexted(*old(self), *final(self)), final(self).issues == old(self).issues,
@fn parser::Parser::expected_failure
@ensures
[[warns]]    crate::vx::pushed(*old(self).issues, *final(self).issues, crate::issue::Level::Error, old(self).span),
@fn parser::Parser::expected_error
@ensures
[[warns]]    crate::vx::pushed(*old(self).issues, *final(self).issues, crate::issue::Level::Error, old(self).span),
@fn parser::Parser::token_to_plain_identifier
@ret r
@ensures
[[warns]]    r is Ok <==> *token is Ident, r is Ok ==> r->Ok_0.value == token->Ident_0 && r->Ok_0.span == span,
[[warns]]    crate::vx::same_but_issues(*old(self), *final(self)),
[[warns]]    if !(*token is Ident) { crate::vx::pushed(*old(self).issues, *final(self).issues, crate::issue::Level::Error, old(self).span) }
[[warns]]    else if crate::vx::reserved_of(token->Ident_1) { crate::vx::pushed(*old(self).issues, *final(self).issues, crate::issue::Level::Error, span) }
[[warns]]    else if !(token->Ident_1 is QUOTED_IDENTIFIER) && old(self).options.warn_unquoted_identifiers { crate::vx::pushed(*old(self).issues, *final(self).issues, crate::issue::Level::Warning, span) }
[[warns]]    else if token->Ident_1 is QUOTED_IDENTIFIER && old(self).options.dialect is PostgreSQL { crate::vx::pushed(*old(self).issues, *final(self).issues, crate::issue::Level::Error, span) }
[[warns]]    else { final(self).issues.issues@ == old(self).issues.issues@ },
@fn parser::Parser::consume_plain_identifier
@ret r
@ensures
[[warns]]    r is Ok <==> old(self).token is Ident || (old(self).token is DoubleQuotedString && old(self).options.dialect is PostgreSQL),
[[warns]]    r is Ok ==> r->Ok_0.value == (if old(self).token is Ident { old(self).token->Ident_0 } else { old(self).token->DoubleQuotedString_0 }) && r->Ok_0.span == old(self).span && crate::vx::nexted(*old(self), *final(self)),
[[warns]]    r is Err ==> crate::vx::same_but_issues(*old(self), *final(self)),
[[warns]]    if r is Err || (old(self).token is Ident && (crate::vx::reserved_of(old(self).token->Ident_1) || (old(self).token->Ident_1 is QUOTED_IDENTIFIER && old(self).options.dialect is PostgreSQL)))
[[warns]]        { crate::vx::pushed(*old(self).issues, *final(self).issues, crate::issue::Level::Error, old(self).span) }
[[warns]]    else if old(self).token is Ident && !(old(self).token->Ident_1 is QUOTED_IDENTIFIER) && old(self).options.warn_unquoted_identifiers { crate::vx::pushed(*old(self).issues, *final(self).issues, crate::issue::Level::Warning, old(self).span) }
[[warns]]    else { final(self).issues.issues@ == old(self).issues.issues@ },
@fn parser::Parser::consume_keyword
@ensures
[[warns]]    r is Ok ==> crate::vx::nexted(*old(self), *final(self)),
[[warns]]    if r is Err { crate::vx::pushed(*old(self).issues, *final(self).issues, crate::issue::Level::Error, old(self).span) }
[[warns]]    else if old(self).options.warn_none_capital_keywords && crate::vx::lower(old(self).token->Ident_0@) { crate::vx::pushed(*old(self).issues, *final(self).issues, crate::issue::Level::Warning, old(self).span) }
[[warns]]    else { final(self).issues.issues@ == old(self).issues.issues@ },
@loop any
[[warns]]    invariant_except_break !vx_res && crate::vx::lower(v@) == crate::vx::lower(vx_cs.left()), ensures vx_res == crate::vx::lower(v@),
