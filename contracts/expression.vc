@type Expression
@wf
[[clean]] !(x is Invalid)
[[wf]] (x is Identifier ==> x->Identifier_0@.len() > 0)
@fn expression::Reducer::reduce
@ret r
@ensures
[[wf,lite]]    forall|s: Seq<char>| #![trigger crate::vx::Vx::vwf(&*old(self), s)] #![trigger crate::vx::Vx::vwf(&*final(self), s)] crate::vx::Vx::vwf(&*old(self), s) ==> crate::vx::Vx::vwf(&*final(self), s),
@loop 0
[[wf,lite]]    invariant forall|s: Seq<char>| #[trigger] crate::vx::Vx::vwf(&*old(self), s) ==> crate::vx::Vx::vwf(&e, s) && crate::vx::Vx::vwf(&*self, s),
[[prec]]    forall|s: Seq<char>, lo: int, hi: int, p: int| #![trigger crate::vx::stk(old(self).stack@, s, lo, hi, p)] crate::vx::stk(old(self).stack@, s, lo, hi, p) && p <= priority ==> crate::vx::stk(self.stack@.push(ReduceMember::Expression(e)), s, lo, hi, priority as int),
    decreases self.stack.len(),
@fn expression::Reducer::shift_binop expression::Reducer::shift_unary
@ret r
@ensures
[[nokw]]    forall|s: Seq<char>| #![trigger crate::vx::Vx::vwf(&*old(self), s)] #![trigger crate::vx::Vx::vwf(&*final(self), s)] crate::vx::Vx::vwf(&*old(self), s) && crate::vx::Vx::vwf(&span, s) ==> crate::vx::Vx::vwf(&*final(self), s),
@fn expression::Reducer::shift_expr
@ret r
@ensures
[[wf,lite]]    forall|s: Seq<char>| #![trigger crate::vx::Vx::vwf(&*old(self), s)] #![trigger crate::vx::Vx::vwf(&*final(self), s)] crate::vx::Vx::vwf(&*old(self), s) && crate::vx::Vx::vwf(&e, s) ==> crate::vx::Vx::vwf(&*final(self), s),
@fn expression::parse_expression
@armcut 350
[[state]] @taildup e -- assert(crate::vx::step(*old(parser), *parser));
[[clean]] @taildup e -- assert(crate::vx::step(*old(parser), *parser)); assert(!vx_a || crate::vx::wfx(&r, crate::vx::src(*old(parser))) || crate::vx::errd(*old(parser), *parser));
[[wf,names]] @taildup e -- assert(crate::vx::wfx(&r, crate::vx::src(*old(parser)))); assert(crate::vx::step(*old(parser), *parser));
@fn expression::Reducer::reduce
@ensures
    r is Ok ==> old(self).stack@.len() > 0,
@fn expression::parse_time_unit
@ret r
@ensures
    r is Some ==> *t is Ident,
