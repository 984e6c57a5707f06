@module lexer
pub open spec fn tok_eq(a: Token<'_>, b: Token<'_>) -> bool {
    match (a, b) {
        (Token::Ident(x, k), Token::Ident(y, l)) => x@ == y@ && k == l,
        (Token::Float(x), Token::Float(y)) => x@ == y@,
        (Token::Integer(x), Token::Integer(y)) => x@ == y@,
        (Token::SingleQuotedString(x), Token::SingleQuotedString(y)) => x@ == y@,
        (Token::DoubleQuotedString(x), Token::DoubleQuotedString(y)) => x@ == y@,
        _ => a == b,
    }
}
// the derived impls of Token: structural
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Token<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { tok_eq(*self, *other) }
}
impl<'a> PartialEq for Token<'a> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl<'a> Clone for Token<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
@module keywords
unsafe impl vstd::prelude::Structural for Keyword {}
impl<'x> vstd::std_specs::convert::FromSpecImpl<&'x str> for Keyword {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'x str) -> Keyword { crate::vx::kw_of(v@) }
}
@module issue
unsafe impl vstd::prelude::Structural for Level {}
@uniform Lexer
@requires
    crate::vx::lex_inv(*old(self)),
@ensures
    crate::vx::lex_inv(*final(self)), final(self).src == old(self).src, final(self).chars.pos() >= old(self).chars.pos(),
@loop
    crate::vx::lex_inv(*self), self.src == old(self).src, self.chars.pos() >= old(self).chars.pos(),
@loopdec
    self.chars.rest()
@start
    broadcast use crate::vx::group_lex;
    proof { crate::vx::l_bnd_end(self.src@); }
@fn lexer::Lexer::new
@ret r
@ensures
    crate::vx::lex_inv(r), r.src == src, r.chars.pos() == 0,
@fn lexer::Lexer::s
@ret r
@requires
    crate::vx::bnd(self.src@, span.start as int), crate::vx::bnd(self.src@, span.end as int),
    crate::vx::idx(self.src@, span.start as int) <= crate::vx::idx(self.src@, span.end as int),
@ensures
    r@ == crate::vx::seg(self.src@, span.start as int, span.end as int),
@start
    broadcast use crate::vx::group_off;
    proof { crate::vx::l_bnd_idx(self.src@, span.start as int); crate::vx::l_bnd_idx(self.src@, span.end as int); crate::vx::l_mono(self.src@, crate::vx::idx(self.src@, span.start as int), crate::vx::idx(self.src@, span.end as int)); }
    proof { crate::vx::l_seg(self.src@, span.start as int, span.end as int); }
@fn lexer::Lexer::simple_literal
@ret r
@requires
    0 < old(self).chars.pos(), start == crate::vx::off(old(self).src@, old(self).chars.pos() - 1),
[[lex]]    crate::vx::is_alpha(old(self).src@[old(self).chars.pos() - 1]),
@ensures
[[lex]]    final(self).chars.pos() == crate::vx::word_end(old(self).src@, old(self).chars.pos() - 1),
    r is Ident,
[[lex]]    crate::vx::lit(old(self).src@, old(self).chars.pos() - 1, final(self).chars.pos(), r->Ident_0),
[[lex]]    r->Ident_1 == crate::vx::kw_of(crate::vx::upper(crate::vx::sub(old(self).src@, old(self).chars.pos() - 1, final(self).chars.pos()))),
@start
[[lex]]    proof { reveal(crate::vx::word_end); }
    proof { assert(crate::vx::idx(self.src@, start as int) == self.chars.pos() - 1); }
[[lex]] @loop *
[[lex]]    invariant crate::vx::word_end(self.src@, self.chars.pos()) == crate::vx::word_end(self.src@, old(self).chars.pos() - 1),
@fn lexer::Lexer::next_token
@ret r
@ensures
    crate::vx::tok_next(old(self).src@, old(self).chars.pos(), r.0, r.1, final(self).chars.pos()),
@start
[[lex]]    broadcast use crate::vx::l_skip, crate::vx::l_str_end, crate::vx::l_dval;
@loop 1+
[[!lex]]    invariant crate::vx::later(*self, start),
[[lex]] @loop 0
[[lex]]    invariant crate::vx::skip(self.src@, self.chars.pos()) == crate::vx::skip(self.src@, old(self).chars.pos()),
@loop ~~to_digit
[[lex]]    invariant crate::vx::later(*self, start), crate::vx::digit_end(self.src@, self.chars.pos()) == crate::vx::digit_end(self.src@, crate::vx::idx(self.src@, start as int) + 1),
[[lex]]       overflow == (crate::vx::dval(self.src@, crate::vx::idx(self.src@, start as int) + 1, self.chars.pos()) > usize::MAX),
[[!lex]]    invariant v >= 1,
[[lex]]       v >= 1, !overflow ==> v == crate::vx::dval(self.src@, crate::vx::idx(self.src@, start as int) + 1, self.chars.pos()),
[[lex]] @loop ~~'\r'|'\n'
[[lex]]     invariant crate::vx::later(*self, start), crate::vx::line_end(self.src@, self.chars.pos()) == crate::vx::line_end(self.src@, crate::vx::idx(self.src@, start as int) + 1),
[[lex]] @loop ~~'*'
[[lex]]     invariant crate::vx::later(*self, start), crate::vx::cmt_end(self.src@, self.chars.pos()) == crate::vx::cmt_end(self.src@, crate::vx::idx(self.src@, start as int) + 2),
[[lex]] @loop ~~'-')
[[lex]]     invariant crate::vx::later(*self, start), crate::vx::bq_end(self.src@, self.chars.pos()) == crate::vx::bq_end(self.src@, crate::vx::idx(self.src@, start as int) + 1),
[[lex]] @loop ~~SingleQuotedString(
[[lex]]     invariant crate::vx::later(*self, start), crate::vx::str_end(self.src@, self.chars.pos(), '\'') == crate::vx::str_end(self.src@, crate::vx::idx(self.src@, start as int) + 1, '\''),
[[lex]] @loop ~~DoubleQuotedString(
[[lex]]     invariant crate::vx::later(*self, start), crate::vx::str_end(self.src@, self.chars.pos(), '"') == crate::vx::str_end(self.src@, crate::vx::idx(self.src@, start as int) + 1, '"'),
[[lex]] @loop ~~Token::Integer(
[[lex]]     invariant crate::vx::later(*self, start), crate::vx::digit_end(self.src@, self.chars.pos()) == crate::vx::digit_end(self.src@, crate::vx::idx(self.src@, start as int)),
[[lex]] @loop ~~Token::Float(
[[lex]]     invariant crate::vx::later(*self, start), crate::vx::digit_end(self.src@, self.chars.pos()) == crate::vx::digit_end(self.src@, crate::vx::digit_end(self.src@, crate::vx::idx(self.src@, start as int)) + 1),

@fn lexer::Lexer::read_from_stdin
@ret r
@ensures
[[lex]]    ({ let d = crate::vx::stdin_data(old(self).src@, old(self).chars.pos());
[[lex]]       r.0@ == crate::vx::sub(old(self).src@, d.0, d.1)
[[lex]]       && r.1.start == crate::vx::off(old(self).src@, d.0) && r.1.end == crate::vx::off(old(self).src@, d.1)
[[lex]]       && final(self).chars.pos() == d.2 }),
    crate::vx::span_ok(old(self).src@, r.1),
@start
    broadcast use crate::vx::l_mono3;
[[lex]]    broadcast use crate::vx::l_sp_end, crate::vx::l_eod_at;
[[lex]]    proof { reveal_with_fuel(crate::vx::eod_at, 4); }
[[lex]] @loop 0
[[lex]]    invariant crate::vx::sp_end(self.src@, self.chars.pos()) == crate::vx::sp_end(self.src@, old(self).chars.pos()),
@loop 1
    invariant crate::vx::bnd(self.src@, start as int), crate::vx::idx(self.src@, start as int) <= self.chars.pos() + 1,
[[lex]]      crate::vx::sp_end(self.src@, old(self).chars.pos()) <= self.chars.pos(),
[[lex]]      crate::vx::eod_at(self.src@, self.chars.pos()) == crate::vx::eod_at(self.src@, crate::vx::sp_end(self.src@, old(self).chars.pos())),
@fn lexer::Lexer::next_token
[[lex]] @loop ~~AtAtSession
[[lex]]     invariant_except_break crate::vx::idx(self.src@, start as int) + 2 == self.chars.pos(),
[[lex]]     invariant crate::vx::later(*self, start),
[[lex]] @loop ~~AtAtGlobal
[[lex]]     invariant_except_break crate::vx::idx(self.src@, start as int) + 2 == self.chars.pos(),
[[lex]]     invariant crate::vx::later(*self, start),
@fn lexer::Lexer::next_token
[[lex]] @arm '@'
[[lex]]     
[[lex]] --
[[lex]]     reveal(crate::vx::rel_at);
[[lex]]     assert(crate::vx::rel_at(self.src@, crate::vx::idx(self.src@, start as int), vx_t, self.chars.pos()));
[[lex]] @arm '$'
[[lex]]     reveal(crate::vx::digit_end); reveal(crate::vx::dval);
[[lex]] --
[[lex]]     reveal(crate::vx::rel_dollar);
[[lex]]     assert(crate::vx::rel_dollar(self.src@, crate::vx::idx(self.src@, start as int), vx_t, self.chars.pos()));
[[lex]] @arm '-'
[[lex]]     reveal(crate::vx::line_end);
[[lex]] --
[[lex]] @arm '/'
[[lex]]     reveal(crate::vx::line_end); reveal(crate::vx::cmt_end);
[[lex]] --
[[lex]]     reveal(crate::vx::rel_slash);
[[lex]]     assert(crate::vx::rel_slash(self.src@, crate::vx::idx(self.src@, start as int), vx_t, self.chars.pos()));
[[lex]] @arm 'x'|'X'
[[lex]]     
[[lex]] --
[[lex]]     reveal(crate::vx::rel_word);
[[lex]]     assert(crate::vx::rel_word(self.src@, crate::vx::idx(self.src@, start as int), vx_t, self.chars.pos()));
[[lex]] @arm '_'|'a'..='z'|'A'..='Z'
[[lex]]     
[[lex]] --
[[lex]]     reveal(crate::vx::rel_word);
[[lex]]     assert(crate::vx::rel_word(self.src@, crate::vx::idx(self.src@, start as int), vx_t, self.chars.pos()));
[[lex]] @arm '`'
[[lex]]     reveal(crate::vx::bq_end);
[[lex]] --
[[lex]]     reveal(crate::vx::rel_bq);
[[lex]]     assert(crate::vx::rel_bq(self.src@, crate::vx::idx(self.src@, start as int), vx_t, self.chars.pos()));
[[lex]] @arm '\''
[[lex]]     reveal(crate::vx::str_end);
[[lex]] --
[[lex]]     reveal(crate::vx::rel_sq);
[[lex]]     assert(crate::vx::rel_sq(self.src@, crate::vx::idx(self.src@, start as int), vx_t, self.chars.pos()));
[[lex]] @arm '"'
[[lex]]     reveal(crate::vx::str_end);
[[lex]] --
[[lex]]     reveal(crate::vx::rel_dq);
[[lex]]     assert(crate::vx::rel_dq(self.src@, crate::vx::idx(self.src@, start as int), vx_t, self.chars.pos()));
[[lex]] @arm '0'..='9'
[[lex]]     reveal(crate::vx::digit_end);
[[lex]] --
[[lex]]     reveal(crate::vx::rel_num);
[[lex]]     assert(crate::vx::rel_num(self.src@, crate::vx::idx(self.src@, start as int), vx_t, self.chars.pos()));
[[lex]] @arm '.'
[[lex]]     reveal(crate::vx::digit_end);
[[lex]] --
[[lex]]     reveal(crate::vx::rel_dot);
[[lex]]     assert(crate::vx::rel_dot(self.src@, crate::vx::idx(self.src@, start as int), vx_t, self.chars.pos()));
@taildup t
@attr #[verifier::rlimit(400)]
