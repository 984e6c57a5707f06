@fn parser::Parser::consume_keywords
@ensures
[[kwds]]    r is Ok ==> forall|i: int| #![trigger keywords@[i]] 0 <= i < keywords@.len() ==> crate::vx::kin(crate::vx::src(*old(self)), r->Ok_0, keywords@[i]) && crate::vx::kin(crate::vx::src(*old(self)), core::ops::Range { start: old(self).span.start, end: r->Ok_0.end }, keywords@[i]),
@fn expression::parse_time_unit
@ret r
@ensures
[[kwds]]    r is Some ==> forall|s: Seq<char>, q: core::ops::Range<usize>| #![trigger crate::vx::unitkw(s, q, r->Some_0)] crate::vx::tokat(s, *t, q) ==> crate::vx::unitkw(s, q, r->Some_0),
@fn expression::parse_function
@requires
[[kwds]]    t is Ident, crate::vx::tokat(crate::vx::src(*old(parser)), t, span),
@start
[[kwds]]    proof { reveal(crate::vx::fnkw); }
@fn expression::parse_expression
@start
[[kwds]]    proof { reveal(crate::vx::fnkw); }
@type ReduceMember
@wf
[[tok]] (x is Binary ==> crate::vx::binkw(s, x->Binary_1, x->Binary_0)) && (x is Unary ==> crate::vx::unkw(s, x->Unary_1, x->Unary_0))
@fn expression::Reducer::shift_binop
@ensures
[[tok]]    forall|s: Seq<char>| #![trigger crate::vx::Vx::vwf(&*old(self), s)] #![trigger crate::vx::Vx::vwf(&*final(self), s)] crate::vx::Vx::vwf(&*old(self), s) && crate::vx::Vx::vwf(&span, s) && crate::vx::binkw(s, span, op) ==> crate::vx::Vx::vwf(&*final(self), s),
@fn expression::Reducer::shift_unary
@ensures
[[tok]]    forall|s: Seq<char>| #![trigger crate::vx::Vx::vwf(&*old(self), s)] #![trigger crate::vx::Vx::vwf(&*final(self), s)] crate::vx::Vx::vwf(&*old(self), s) && crate::vx::Vx::vwf(&span, s) && crate::vx::unkw(s, span, op) ==> crate::vx::Vx::vwf(&*final(self), s),
@fn statement::parse_begin
@ensures
[[kwds]]    vxr is Ok ==> crate::vx::kwt(crate::vx::src(*old(parser)), vxr->Ok_0, crate::keywords::Keyword::BEGIN),
@fn statement::parse_end
@ensures
[[kwds]]    vxr is Ok ==> crate::vx::kwt(crate::vx::src(*old(parser)), vxr->Ok_0, crate::keywords::Keyword::END),
@fn statement::parse_commit
@ensures
[[kwds]]    vxr is Ok ==> crate::vx::kwt(crate::vx::src(*old(parser)), vxr->Ok_0, crate::keywords::Keyword::COMMIT),
@fn expression::parse_function
[[kwds]] @cut 1500
[[kwds]] ?func: crate::vx::fnkw(crate::vx::src(*old(parser)), span, func),
