## ------------------------------------------------------------ precedence (slice prec)
@fn expression::Priority[BinaryOperator]::priority
@ret r
@ensures
[[prec]]    r == crate::vx::bprio(*self),
@fn expression::Priority[UnaryOperator]::priority
@ret r
@ensures
[[prec]]    r == crate::vx::uprio(*self),
@fn expression::Reducer::reduce
@start
[[prec]]    broadcast use crate::vx::l_redn;
@ensures
[[prec]]    r is Ok ==> final(self).stack@.len() > 0 && final(self).stack@.last() is Expression && (final(self).stack@.len() > 1 ==> crate::vx::rprio(final(self).stack@[final(self).stack@.len() - 2]) > priority),
[[prec]]    forall|s: Seq<char>, lo: int, hi: int, p: int| #![trigger crate::vx::stk(old(self).stack@, s, lo, hi, p)] r is Ok && crate::vx::stk(old(self).stack@, s, lo, hi, p) && p <= priority ==> crate::vx::stk(final(self).stack@, s, lo, hi, priority as int),
@fn expression::Reducer::shift_binop
@start
[[prec]]    broadcast use crate::vx::l_shift_bin;
@ensures
[[prec]]    forall|h: Seq<ReduceMember<'a>>, s: Seq<char>, lo: int, hi: int, p: int, hi2: int| #![trigger crate::vx::stk(h, s, lo, hi, p), crate::vx::stk(final(self).stack@, s, lo, hi2, 0)] r is Ok && crate::vx::stk(h, s, lo, hi, p) && h =~= old(self).stack@ && p <= crate::vx::bprio(op) && crate::vx::opat(op, span, hi) && hi <= hi2 ==> crate::vx::stk(final(self).stack@, s, lo, hi2, 0),
@fn expression::Reducer::shift_unary
@start
[[prec]]    broadcast use crate::vx::l_shift;
@ensures
[[prec]]    forall|s: Seq<char>, lo: int, hi: int, p: int, hi2: int| #![trigger crate::vx::stk(old(self).stack@, s, lo, hi, p), crate::vx::stk(final(self).stack@, s, lo, hi2, 0)] r is Ok && crate::vx::stk(old(self).stack@, s, lo, hi, p) && span.start == hi && hi <= hi2 ==> crate::vx::stk(final(self).stack@, s, lo, hi2, 0),
@fn expression::Reducer::shift_expr
@start
[[prec]]    broadcast use crate::vx::l_shift, crate::vx::l_post;
@ensures
[[prec]]    forall|s: Seq<char>, lo: int, hi: int, p: int, hi2: int| #![trigger crate::vx::stk(old(self).stack@, s, lo, hi, p), crate::vx::stk(final(self).stack@, s, lo, hi2, 0)] r is Ok && crate::vx::stk(old(self).stack@, s, lo, hi, p) && hi <= hi2 && (crate::vx::isop(e) ==> crate::vx::par(s, hi, hi2, e)) ==> crate::vx::stk(final(self).stack@, s, lo, hi2, 0),
[[prec]]    forall|h: Seq<ReduceMember<'a>>, s: Seq<char>, lo: int, hi: int, p: int, hi2: int| #![trigger crate::vx::stk(h, s, lo, hi, p), crate::vx::stk(final(self).stack@, s, lo, hi2, 0)] r is Ok && crate::vx::stk(h, s, lo, hi, p) && p <= 110 && hi <= hi2 && h.len() == old(self).stack@.len() + 1 && h.drop_last() =~= old(self).stack@ && (e is In || e is Is)
[[prec]]        && h.last() == ReduceMember::<'a>::Expression(crate::vx::plhs(e)) && (h.len() > 1 ==> crate::vx::rprio(h[h.len() - 2]) > 110) ==> crate::vx::stk(final(self).stack@, s, lo, hi2, 0),
@fn expression::parse_function
@ensures
[[prec]]    vxr is Ok ==> !crate::vx::isop(vxr->Ok_0),
@fn expression::parse_expression
@start
[[prec]]    broadcast use crate::vx::l_stk_new, crate::vx::l_done, crate::vx::l_par;
@ensures
[[prec]]    vxr is Ok ==> crate::vx::gok(crate::vx::src(*old(parser)), old(parser).span.start as int, final(parser).span.start as int, vxr->Ok_0),
@loop 0
[[prec]]    invariant crate::vx::stk(r.stack@, crate::vx::src(*old(parser)), old(parser).span.start as int, parser.span.start as int, 0),
[[prec]] @armcut 350
[[prec]]    crate::vx::stk(r.stack@, crate::vx::src(*old(parser)), old(parser).span.start as int, parser.span.start as int, 0),
[[prec]] @taildup e -- assert(crate::vx::stk(r.stack@, crate::vx::src(*old(parser)), old(parser).span.start as int, parser.span.start as int, 0));
@fn expression::parse_expression_outer expression::parse_expression_paren
@ensures
[[prec]]    vxr is Ok && crate::vx::isop(vxr->Ok_0) ==> crate::vx::gok(crate::vx::src(*old(parser)), old(parser).span.start as int, final(parser).span.start as int, vxr->Ok_0),
@type Expression
@wf
[[prec]] (x is Binary ==> crate::vx::binkw(s, x->Binary_op_span, x->Binary_op)) && (x is Unary ==> crate::vx::unkw(s, x->Unary_op_span, x->Unary_op)) && (x is Is ==> crate::vx::iskw(s, x->Is_2, x->Is_1)) && (x is In ==> crate::vx::kin(s, x->In_in_span, crate::keywords::Keyword::IN) && (x->In_not_in ==> crate::vx::kin(s, x->In_in_span, crate::keywords::Keyword::NOT)))
