[[prec]] // ---------------------------------------------------------------- precedence of operators
[[prec]] use crate::expression::{Expression, BinaryOperator, UnaryOperator, ReduceMember};
[[prec]] /// the precedence of MariaDB: larger binds less tightly
[[prec]] pub open spec fn bprio(o: BinaryOperator) -> int { match o {
[[prec]]     BinaryOperator::Or => 160, BinaryOperator::Xor => 150, BinaryOperator::And => 140,
[[prec]]     BinaryOperator::Eq => 110, BinaryOperator::NullSafeEq => 110, BinaryOperator::GtEq => 110, BinaryOperator::Gt => 110, BinaryOperator::LtEq => 110,
[[prec]]     BinaryOperator::Lt => 110, BinaryOperator::Neq => 110, BinaryOperator::Like => 110, BinaryOperator::NotLike => 110,
[[prec]]     BinaryOperator::BitOr => 100, BinaryOperator::BitAnd => 90, BinaryOperator::ShiftLeft => 80, BinaryOperator::ShiftRight => 80,
[[prec]]     BinaryOperator::Add => 70, BinaryOperator::Subtract => 70, BinaryOperator::Divide => 60, BinaryOperator::Div => 60, BinaryOperator::Mod => 60, BinaryOperator::Mult => 60,
[[prec]]     BinaryOperator::BitXor => 50,
[[prec]] } }
[[prec]] pub open spec fn uprio(o: UnaryOperator) -> int { match o {
[[prec]]     UnaryOperator::Not => 130, UnaryOperator::Minus => 40, UnaryOperator::LogicalNot => 30, UnaryOperator::Collate => 20, UnaryOperator::Binary => 20,
[[prec]] } }
[[prec]] /// IN and IS bind like the comparisons
[[prec]] pub open spec fn pprio() -> int { 110 }
[[prec]] pub open spec fn rprio(m: ReduceMember<'_>) -> int { match m { ReduceMember::Binary(o, _) => bprio(o), ReduceMember::Unary(o, _) => uprio(o), ReduceMember::Expression(_) => 0 } }
[[prec]] /// an operand or operator, with the position where it begins and the position where what follows begins
[[prec]] pub enum Item<'a> { Ex(Expression<'a>), Un(UnaryOperator, Range<usize>), Bi(BinaryOperator, Range<usize>), Post(Expression<'a>) }
[[prec]] pub struct At<'a> { pub k: Item<'a>, pub lo: int, pub hi: int }
[[prec]] /// how an expression is put together; an atom is an operand as it stands in the text
[[prec]] pub enum GT<'a> { Atom(Expression<'a>, int, int), Un(UnaryOperator, Range<usize>, int, Box<GT<'a>>), Bin(BinaryOperator, Range<usize>, int, int, Box<GT<'a>>, Box<GT<'a>>), Post(Expression<'a>, int, int, Box<GT<'a>>) }
[[prec]] pub open spec fn isop(e: Expression<'_>) -> bool { e is Binary || e is Unary || e is In || e is Is }
[[prec]] /// the left operand of IN or IS
[[prec]] pub open spec fn plhs<'a>(e: Expression<'a>) -> Expression<'a> { if e is In { *e->In_lhs } else { *e->Is_0 } }
[[prec]] /// g describes e
[[prec]] pub open spec fn erel(g: GT<'_>, e: Expression<'_>) -> bool decreases g { match g {
[[prec]]     GT::Atom(a, _, _) => a == e,
[[prec]]     GT::Un(o, r, _, c) => e is Unary && e->Unary_op == o && e->Unary_op_span == r && erel(*c, *e->Unary_operand),
[[prec]]     GT::Bin(o, r, _, _, a, b) => e is Binary && e->Binary_op == o && e->Binary_op_span == r && erel(*a, *e->Binary_lhs) && erel(*b, *e->Binary_rhs),
[[prec]]     GT::Post(p, _, _, a) => p == e && (e is In || e is Is) && erel(*a, plhs(e)),
[[prec]] } }
[[prec]] /// the operands and operators of g, from left to right
[[prec]] pub open spec fn flat<'a>(g: GT<'a>) -> Seq<At<'a>> decreases g { match g {
[[prec]]     GT::Atom(a, lo, hi) => seq![At { k: Item::Ex(a), lo, hi }],
[[prec]]     GT::Un(o, r, hi, c) => seq![At { k: Item::Un(o, r), lo: r.start as int, hi }] + flat(*c),
[[prec]]     GT::Bin(o, r, lo, hi, a, b) => flat(*a).push(At { k: Item::Bi(o, r), lo, hi }) + flat(*b),
[[prec]]     GT::Post(p, lo, hi, a) => flat(*a).push(At { k: Item::Post(p), lo, hi }),
[[prec]] } }
[[prec]] /// no operator still open at the right end of g binds less tightly than p
[[prec]] pub open spec fn redge(g: GT<'_>, p: int) -> bool decreases g { match g {
[[prec]]     GT::Un(o, _, _, c) => uprio(o) <= p && redge(*c, p),
[[prec]]     GT::Bin(o, _, _, _, _, b) => bprio(o) <= p && redge(*b, p),
[[prec]]     _ => true,
[[prec]] } }
[[prec]] /// every operator that follows the first operand of g binds more tightly than p
[[prec]] pub open spec fn ledge(g: GT<'_>, p: int) -> bool decreases g { match g {
[[prec]]     GT::Bin(o, _, _, _, a, _) => bprio(o) < p && ledge(*a, p),
[[prec]]     GT::Post(_, _, _, a) => pprio() < p && ledge(*a, p),
[[prec]]     _ => true,
[[prec]] } }
[[prec]] /// the operator read at position p has the span r (NOT LIKE has two keywords)
[[prec]] pub open spec fn opat(o: BinaryOperator, r: Range<usize>, p: int) -> bool { r.start <= p && (!(o is NotLike) ==> r.start == p) }
[[prec]] /// g is grouped by precedence, with operators of equal precedence associating to the left
[[prec]] pub open spec fn okp(g: GT<'_>) -> bool decreases g { match g {
[[prec]]     GT::Atom(_, _, _) => true,
[[prec]]     GT::Un(o, _, _, c) => okp(*c) && ledge(*c, uprio(o)),
[[prec]]     GT::Bin(o, r, lo, _, a, b) => opat(o, r, lo) && okp(*a) && okp(*b) && redge(*a, bprio(o)) && ledge(*b, bprio(o)),
[[prec]]     GT::Post(_, _, _, a) => okp(*a) && redge(*a, pprio()),
[[prec]] } }
[[prec]] /// the items follow each other without a gap from lo to hi
[[prec]] pub open spec fn chain(t: Seq<At<'_>>, lo: int, hi: int) -> bool decreases t.len() {
[[prec]]     if t.len() == 0 { lo == hi } else { t.last().hi == hi && t.last().lo <= hi && chain(t.drop_last(), lo, t.last().lo) }
[[prec]] }
[[prec]] /// the text from lo to hi was read as the expression e: the items of it are grouped by precedence, and an operand with an operator at its top was in parentheses
[[prec]] pub closed spec fn gok(s: Seq<char>, lo: int, hi: int, e: Expression<'_>) -> bool decreases hi - lo {
[[prec]]     exists|g: GT<'_>| #[trigger] erel(g, e) && okp(g) && chain(flat(g), lo, hi) && (forall|i: int| #![trigger flat(g)[i]] 0 <= i < flat(g).len() && flat(g)[i].k is Ex && isop(flat(g)[i].k->Ex_0) ==>
[[prec]]         (exists|a: Range<usize>, b: Range<usize>, m: int, n: int| #[trigger] between(s, a, b, m, n, flat(g)[i].lo, flat(g)[i].hi) && lo <= flat(g)[i].lo && flat(g)[i].hi <= hi && gok(s, m, n, flat(g)[i].k->Ex_0)))
[[prec]] }
[[prec]] /// a is a parenthesis at lo, b one that ends the text from there to hi, and the text from m to n is between them
[[prec]] pub open spec fn between(s: Seq<char>, a: Range<usize>, b: Range<usize>, m: int, n: int, lo: int, hi: int) -> bool {
[[prec]]     symt(s, a, Token::LParen) && symt(s, b, Token::RParen) && a.start == lo && a.start < a.end && a.end <= m && m <= n && n == b.start && b.start < b.end && b.end <= hi
[[prec]] }
[[prec]] /// e was read between parentheses, from lo to hi
[[prec]] pub closed spec fn par(s: Seq<char>, lo: int, hi: int, e: Expression<'_>) -> bool {
[[prec]]     exists|a: Range<usize>, b: Range<usize>, m: int, n: int| #[trigger] between(s, a, b, m, n, lo, hi) && gok(s, m, n, e)
[[prec]] }
[[prec]] pub broadcast proof fn l_par(s: Seq<char>, a: Range<usize>, b: Range<usize>, m: int, n: int, lo: int, hi: int, e: Expression<'_>)
[[prec]]     requires #[trigger] symt(s, a, Token::LParen), #[trigger] symt(s, b, Token::RParen), #[trigger] gok(s, m, n, e), a.start == lo, a.end <= m, m <= n, n == b.start, b.end <= hi
[[prec]]     ensures #[trigger] par(s, lo, hi, e)
[[prec]] {
[[prec]]     l_symt(s, a, Token::LParen); l_symt(s, b, Token::RParen);
[[prec]]     assert(between(s, a, b, m, n, lo, hi));
[[prec]] }
[[prec]] /// a token is not empty
[[prec]] pub proof fn l_symt(s: Seq<char>, r: Range<usize>, t: Token<'_>)
[[prec]]     requires symt(s, r, t), !(t is Eof)
[[prec]]     ensures r.start < r.end
[[prec]] {
[[prec]]     reveal(symt);
[[prec]]     let (p, q) = choose|p: int, q: int| 0 <= p <= s.len() && #[trigger] tok_next(s, p, t, r, q);
[[prec]]     l_mono(s, skip(s, p), q);
[[prec]] }
[[prec]] pub open spec fn iok(s: Seq<char>, t: Seq<At<'_>>) -> bool {
[[prec]]     forall|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i].k is Ex && isop(t[i].k->Ex_0) ==> par(s, t[i].lo, t[i].hi, t[i].k->Ex_0)
[[prec]] }
[[prec]] /// member i of the stack, described by d[i], fits what is below it
[[prec]] pub open spec fn mok(h: Seq<ReduceMember<'_>>, d: Seq<GT<'_>>, i: int) -> bool {
[[prec]]     match h[i] {
[[prec]]         ReduceMember::Expression(e) => erel(d[i], e) && okp(d[i]) && (i > 0 ==> !(h[i - 1] is Expression) && ledge(d[i], rprio(h[i - 1]))),
[[prec]]         ReduceMember::Binary(o, r) => opat(o, r, d[i]->Atom_1) && i > 0 && h[i - 1] is Expression && redge(d[i - 1], bprio(o)) && (i > 1 ==> rprio(h[i - 2]) > bprio(o)),
[[prec]]         ReduceMember::Unary(_, _) => i > 0 ==> !(h[i - 1] is Expression),
[[prec]]     }
[[prec]] }
[[prec]] pub open spec fn mflat<'a>(m: ReduceMember<'a>, g: GT<'a>) -> Seq<At<'a>> {
[[prec]]     match m { ReduceMember::Expression(_) => flat(g), ReduceMember::Binary(o, r) => seq![At { k: Item::Bi(o, r), lo: g->Atom_1, hi: g->Atom_2 }], ReduceMember::Unary(o, r) => seq![At { k: Item::Un(o, r), lo: r.start as int, hi: g->Atom_2 }] }
[[prec]] }
[[prec]] pub open spec fn flats<'a>(h: Seq<ReduceMember<'a>>, d: Seq<GT<'a>>) -> Seq<At<'a>> decreases h.len() {
[[prec]]     if h.len() == 0 { seq![] } else { flats(h.drop_last(), d.drop_last()) + mflat(h.last(), d.last()) }
[[prec]] }
[[prec]] pub open spec fn hok(h: Seq<ReduceMember<'_>>, d: Seq<GT<'_>>) -> bool { h.len() == d.len() && forall|i: int| #![trigger h[i]] 0 <= i < h.len() ==> mok(h, d, i) }
[[prec]] pub open spec fn hrel<'a>(h: Seq<ReduceMember<'a>>, d: Seq<GT<'a>>, s: Seq<char>, lo: int, hi: int, p: int) -> bool {
[[prec]]     hok(h, d) && chain(flats(h, d), lo, hi) && iok(s, flats(h, d)) && (h.len() > 0 && h.last() is Expression ==> redge(d.last(), p))
[[prec]] }
[[prec]] /// the stack h stands for the text from lo to hi, grouped by precedence; no operator open in its last operand binds less tightly than p
[[prec]] pub closed spec fn stk(h: Seq<ReduceMember<'_>>, s: Seq<char>, lo: int, hi: int, p: int) -> bool { exists|d: Seq<GT<'_>>| #[trigger] hrel(h, d, s, lo, hi, p) }
[[prec]] /// the stack after one step of a reduction
[[prec]] pub open spec fn redn<'a>(h: Seq<ReduceMember<'a>>, h2: Seq<ReduceMember<'a>>, p: int) -> bool {
[[prec]]     let n = h2.len() as int;
[[prec]]     h =~= h2
[[prec]]     || (n > 0 && h.len() == n + 1 && h2[n - 1] is Expression && h2[n - 1]->Expression_0 is Unary && h[n] == ReduceMember::Expression(*h2[n - 1]->Expression_0->Unary_operand)
[[prec]]         && h[n - 1] == ReduceMember::<'a>::Unary(h2[n - 1]->Expression_0->Unary_op, h2[n - 1]->Expression_0->Unary_op_span) && uprio(h2[n - 1]->Expression_0->Unary_op) <= p && (forall|i: int| #![trigger h[i]] #![trigger h2[i]] 0 <= i < n - 1 ==> h[i] == h2[i]))
[[prec]]     || (n > 0 && h.len() == n + 2 && h2[n - 1] is Expression && h2[n - 1]->Expression_0 is Binary && h[n - 1] == ReduceMember::Expression(*h2[n - 1]->Expression_0->Binary_lhs) && h[n + 1] == ReduceMember::Expression(*h2[n - 1]->Expression_0->Binary_rhs)
[[prec]]         && h[n] == ReduceMember::<'a>::Binary(h2[n - 1]->Expression_0->Binary_op, h2[n - 1]->Expression_0->Binary_op_span) && bprio(h2[n - 1]->Expression_0->Binary_op) <= p && (forall|i: int| #![trigger h[i]] #![trigger h2[i]] 0 <= i < n - 1 ==> h[i] == h2[i]))
[[prec]] }
[[prec]] pub proof fn l_redge(g: GT<'_>, p: int, q: int) requires redge(g, p), p <= q ensures redge(g, q) decreases g {
[[prec]]     match g { GT::Un(_, _, _, c) => l_redge(*c, p, q), GT::Bin(_, _, _, _, _, b) => l_redge(*b, p, q), _ => {} }
[[prec]] }
[[prec]] pub broadcast proof fn l_redn<'a>(h: Seq<ReduceMember<'a>>, h2: Seq<ReduceMember<'a>>, s: Seq<char>, lo: int, hi: int, p0: int, p: int)
[[prec]]     requires #[trigger] stk(h, s, lo, hi, p0), p0 <= p, redn(h, h2, p)
[[prec]]     ensures #[trigger] stk(h2, s, lo, hi, p)
[[prec]] {
[[prec]]     let d = choose|d: Seq<GT<'a>>| #[trigger] hrel(h, d, s, lo, hi, p0);
[[prec]]     let n = h2.len() as int;
[[prec]]     if h.len() > 0 && h.last() is Expression { l_redge(d.last(), p0, p); }
[[prec]]     if h =~= h2 { assert(hrel(h2, d, s, lo, hi, p)); }
[[prec]]     else if h.len() == n + 1 {
[[prec]]         let x = h2[n - 1]->Expression_0;
[[prec]]         let g = GT::Un(x->Unary_op, x->Unary_op_span, d[n - 1]->Atom_2, Box::new(d[n]));
[[prec]]         let d2 = d.take(n - 1).push(g);
[[prec]]         assert(h[n] is Expression && h[n - 1] is Unary && mok(h, d, n) && mok(h, d, n - 1));
[[prec]]         assert forall|i: int| #![trigger h2[i]] 0 <= i < n implies mok(h2, d2, i) by { if i < n - 1 { assert(h[i] == h2[i] && mok(h, d, i)); assert(d2[i] == d[i]); if i > 0 { assert(h[i - 1] == h2[i - 1]); assert(d2[i - 1] == d[i - 1]); } if i > 1 { assert(h[i - 2] == h2[i - 2]); } } else if n > 1 { assert(h[n - 2] == h2[n - 2]); } }
[[prec]]         assert(h2.drop_last() =~= h.drop_last().drop_last()); assert(d2.drop_last() =~= d.drop_last().drop_last());
[[prec]]         assert(flats(h.drop_last(), d.drop_last()) == flats(h.drop_last().drop_last(), d.drop_last().drop_last()) + mflat(h[n - 1], d[n - 1])) by { assert(h.drop_last().last() == h[n - 1]); assert(d.drop_last().last() == d[n - 1]); }
[[prec]]         assert(flats(h2, d2) =~= flats(h, d));
[[prec]]         assert(hrel(h2, d2, s, lo, hi, p));
[[prec]]     } else {
[[prec]]         let x = h2[n - 1]->Expression_0;
[[prec]]         let g = GT::Bin(x->Binary_op, x->Binary_op_span, d[n]->Atom_1, d[n]->Atom_2, Box::new(d[n - 1]), Box::new(d[n + 1]));
[[prec]]         let d2 = d.take(n - 1).push(g);
[[prec]]         assert(h[n + 1] is Expression && h[n] is Binary && h[n - 1] is Expression && mok(h, d, n + 1) && mok(h, d, n) && mok(h, d, n - 1));
[[prec]]         assert forall|i: int| #![trigger h2[i]] 0 <= i < n implies mok(h2, d2, i) by { if i < n - 1 { assert(h[i] == h2[i] && mok(h, d, i)); assert(d2[i] == d[i]); if i > 0 { assert(h[i - 1] == h2[i - 1]); assert(d2[i - 1] == d[i - 1]); } if i > 1 { assert(h[i - 2] == h2[i - 2]); } } else if n > 1 { assert(h[n - 2] == h2[n - 2]); } }
[[prec]]         let (h1, d1) = (h.drop_last(), d.drop_last()); let (h0, d0) = (h1.drop_last(), d1.drop_last());
[[prec]]         assert(h2.drop_last() =~= h0.drop_last()); assert(d2.drop_last() =~= d0.drop_last());
[[prec]]         assert(h1.last() == h[n] && d1.last() == d[n] && h0.last() == h[n - 1] && d0.last() == d[n - 1]);
[[prec]]         assert(flats(h, d) =~= flats(h0.drop_last(), d0.drop_last()) + mflat(h[n - 1], d[n - 1]) + mflat(h[n], d[n]) + mflat(h[n + 1], d[n + 1])) by { assert(flats(h1, d1) == flats(h0, d0) + mflat(h[n], d[n])); assert(flats(h0, d0) == flats(h0.drop_last(), d0.drop_last()) + mflat(h[n - 1], d[n - 1])); }
[[prec]]         assert(flats(h2, d2) =~= flats(h, d));
[[prec]]         assert(hrel(h2, d2, s, lo, hi, p));
[[prec]]     }
[[prec]] }
[[prec]] pub proof fn l_stk_push<'a>(h: Seq<ReduceMember<'a>>, h2: Seq<ReduceMember<'a>>, d: Seq<GT<'a>>, g: GT<'a>, s: Seq<char>, lo: int, hi: int, hi2: int, p: int, t: At<'a>)
[[prec]]     requires hrel(h, d, s, lo, hi, p), h2.len() == h.len() + 1, h2.drop_last() =~= h, mok(h2, d.push(g), h.len() as int), mflat(h2.last(), g) =~= seq![t], t.lo == hi, hi <= hi2, t.hi == hi2, h2.last() is Expression ==> redge(g, 0),
[[prec]]         t.k is Ex && isop(t.k->Ex_0) ==> par(s, hi, hi2, t.k->Ex_0)
[[prec]]     ensures stk(h2, s, lo, hi2, 0)
[[prec]] {
[[prec]]     let d2 = d.push(g);
[[prec]]     assert(d2.drop_last() =~= d);
[[prec]]     let (f, f2) = (flats(h, d), flats(h2, d2));
[[prec]]     assert(f2 =~= f.push(t)); assert(f2.drop_last() =~= f); assert(f2.last() == t);
[[prec]]     assert forall|i: int| #![trigger h2[i]] 0 <= i < h2.len() implies mok(h2, d2, i) by { if i < h.len() { assert(h2[i] == h[i]); assert(mok(h, d, i)); assert(d2[i] == d[i]); if i > 0 { assert(h2[i - 1] == h[i - 1]); assert(d2[i - 1] == d[i - 1]); } if i > 1 { assert(h2[i - 2] == h[i - 2]); } } }
[[prec]]     assert forall|i: int| #![trigger f2[i]] 0 <= i < f2.len() && f2[i].k is Ex && isop(f2[i].k->Ex_0) implies par(s, f2[i].lo, f2[i].hi, f2[i].k->Ex_0) by { if i < f.len() { assert(f2[i] == f[i]); } }
[[prec]]     assert(hrel(h2, d2, s, lo, hi2, 0));
[[prec]] }
[[prec]] /// an operand, or an operator before one, is read
[[prec]] pub broadcast proof fn l_shift<'a>(h: Seq<ReduceMember<'a>>, h2: Seq<ReduceMember<'a>>, s: Seq<char>, lo: int, hi: int, hi2: int, p: int)
[[prec]]     requires #[trigger] stk(h, s, lo, hi, p), hi <= hi2, h2.len() == h.len() + 1, h2.drop_last() =~= h, h.len() > 0 ==> !(h.last() is Expression),
[[prec]]         h2.last() is Binary ==> false, h2.last() is Unary ==> h2.last()->Unary_1.start == hi, h2.last() is Expression && isop(h2.last()->Expression_0) ==> par(s, hi, hi2, h2.last()->Expression_0)
[[prec]]     ensures #[trigger] stk(h2, s, lo, hi2, 0)
[[prec]] {
[[prec]]     let d = choose|d: Seq<GT<'a>>| #[trigger] hrel(h, d, s, lo, hi, p);
[[prec]]     if h.len() > 0 { assert(h2[h.len() - 1] == h[h.len() - 1]); }
[[prec]]     match h2.last() {
[[prec]]         ReduceMember::Expression(e) => { l_stk_push(h, h2, d, GT::Atom(e, hi, hi2), s, lo, hi, hi2, p, At { k: Item::Ex(e), lo: hi, hi: hi2 }); }
[[prec]]         ReduceMember::Unary(o, r) => { l_stk_push(h, h2, d, GT::Atom(arbitrary(), hi, hi2), s, lo, hi, hi2, p, At { k: Item::Un(o, r), lo: hi, hi: hi2 }); }
[[prec]]         _ => {}
[[prec]]     }
[[prec]] }
[[prec]] /// an operator after an operand is read
[[prec]] pub broadcast proof fn l_shift_bin<'a>(h: Seq<ReduceMember<'a>>, h2: Seq<ReduceMember<'a>>, s: Seq<char>, lo: int, hi: int, hi2: int, p: int)
[[prec]]     requires #[trigger] stk(h, s, lo, hi, p), hi <= hi2, h2.len() == h.len() + 1, h2.drop_last() =~= h, h.len() > 0 && h.last() is Expression,
[[prec]]         h2.last() is Binary && opat(h2.last()->Binary_0, h2.last()->Binary_1, hi) && p <= bprio(h2.last()->Binary_0), h.len() > 1 ==> rprio(h[h.len() - 2]) > bprio(h2.last()->Binary_0)
[[prec]]     ensures #[trigger] stk(h2, s, lo, hi2, 0)
[[prec]] {
[[prec]]     let d = choose|d: Seq<GT<'a>>| #[trigger] hrel(h, d, s, lo, hi, p);
[[prec]]     let n = h.len() as int;
[[prec]]     assert(h2[n - 1] == h[n - 1]); if n > 1 { assert(h2[n - 2] == h[n - 2]); }
[[prec]]     let (o, r) = (h2.last()->Binary_0, h2.last()->Binary_1);
[[prec]]     l_redge(d.last(), p, bprio(o));
[[prec]]     l_stk_push(h, h2, d, GT::Atom(arbitrary(), hi, hi2), s, lo, hi, hi2, p, At { k: Item::Bi(o, r), lo: hi, hi: hi2 });
[[prec]] }
[[prec]] /// IN or IS is read: h2 has e in place of the left operand of e
[[prec]] pub open spec fn posted<'a>(h: Seq<ReduceMember<'a>>, h2: Seq<ReduceMember<'a>>) -> bool {
[[prec]]     let n = h.len() as int;
[[prec]]     n > 0 && h2.len() == n && h2.drop_last() =~= h.drop_last() && h2.last() is Expression && (h2.last()->Expression_0 is In || h2.last()->Expression_0 is Is) && h.last() == ReduceMember::<'a>::Expression(plhs(h2.last()->Expression_0))
[[prec]]     && (n > 1 ==> rprio(h[n - 2]) > pprio())
[[prec]] }
[[prec]] pub proof fn l_post_ok<'a>(h: Seq<ReduceMember<'a>>, h2: Seq<ReduceMember<'a>>, d: Seq<GT<'a>>, g: GT<'a>)
[[prec]]     requires hok(h, d), posted(h, h2), g is Post, g->Post_0 == h2.last()->Expression_0, *g->Post_3 == d.last(), redge(d.last(), pprio())
[[prec]]     ensures hok(h2, d.drop_last().push(g))
[[prec]] {
[[prec]]     let n = h.len() as int; let d2 = d.drop_last().push(g);
[[prec]]     assert forall|i: int| 0 <= i < n - 1 implies #[trigger] h2[i] == h[i] by { assert(h2.drop_last()[i] == h.drop_last()[i]); }
[[prec]]     assert(h2[n - 1] == h2.last() && h[n - 1] == h.last() && d[n - 1] == d.last() && d2[n - 1] == g);
[[prec]]     assert(mok(h, d, n - 1));
[[prec]]     assert(mok(h2, d2, n - 1)) by {
[[prec]]         assert(erel(g, h2.last()->Expression_0) && okp(g));
[[prec]]         if n > 1 { assert(h2[n - 2] == h[n - 2]); assert(ledge(g, rprio(h2[n - 2]))); }
[[prec]]     }
[[prec]]     assert forall|i: int| #![trigger h2[i]] 0 <= i < n implies mok(h2, d2, i) by {
[[prec]]         if i < n - 1 { assert(h2[i] == h[i] && mok(h, d, i) && d2[i] == d[i]); if i > 0 { assert(h2[i - 1] == h[i - 1] && d2[i - 1] == d[i - 1]); } if i > 1 { assert(h2[i - 2] == h[i - 2]); } }
[[prec]]     }
[[prec]] }
[[prec]] pub broadcast proof fn l_post<'a>(h: Seq<ReduceMember<'a>>, h2: Seq<ReduceMember<'a>>, s: Seq<char>, lo: int, hi: int, hi2: int, p: int)
[[prec]]     requires #[trigger] stk(h, s, lo, hi, p), p <= pprio(), hi <= hi2, posted(h, h2)
[[prec]]     ensures #[trigger] stk(h2, s, lo, hi2, 0)
[[prec]] {
[[prec]]     let d = choose|d: Seq<GT<'a>>| #[trigger] hrel(h, d, s, lo, hi, p);
[[prec]]     let n = h.len() as int; let e = h2.last()->Expression_0;
[[prec]]     let g = GT::Post(e, hi, hi2, Box::new(d[n - 1]));
[[prec]]     let d2 = d.drop_last().push(g);
[[prec]]     l_redge(d.last(), p, pprio());
[[prec]]     assert(mok(h, d, n - 1)) by { assert(h[n - 1] == h.last()); }
[[prec]]     l_post_ok(h, h2, d, g);
[[prec]]     assert(h2.last() == h2[n - 1] && h.last() == h[n - 1] && h.last() is Expression);
[[prec]]     assert(d2.drop_last() =~= d.drop_last()); assert(h2.drop_last() =~= h.drop_last());
[[prec]]     let (f, f2) = (flats(h, d), flats(h2, d2)); let t = At { k: Item::Post(e), lo: hi, hi: hi2 };
[[prec]]     assert(f2 =~= f.push(t)); assert(f2.drop_last() =~= f); assert(f2.last() == t);
[[prec]]     assert forall|i: int| #![trigger f2[i]] 0 <= i < f2.len() && f2[i].k is Ex && isop(f2[i].k->Ex_0) implies par(s, f2[i].lo, f2[i].hi, f2[i].k->Ex_0) by { if i < f.len() { assert(f2[i] == f[i]); } }
[[prec]]     assert(hrel(h2, d2, s, lo, hi2, 0));
[[prec]] }
[[prec]] pub broadcast proof fn l_stk_new(h: Seq<ReduceMember<'_>>, s: Seq<char>, lo: int)
[[prec]]     requires h.len() == 0
[[prec]]     ensures #[trigger] stk(h, s, lo, lo, 0)
[[prec]] { assert(hrel(h, seq![], s, lo, lo, 0)); }
[[prec]] pub proof fn l_chain(t: Seq<At<'_>>, lo: int, hi: int)
[[prec]]     requires chain(t, lo, hi)
[[prec]]     ensures lo <= hi, forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> lo <= t[i].lo && t[i].lo <= t[i].hi && t[i].hi <= hi
[[prec]]     decreases t.len()
[[prec]] { if t.len() > 0 { l_chain(t.drop_last(), lo, t.last().lo); assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies lo <= t[i].lo && t[i].lo <= t[i].hi && t[i].hi <= hi by { if i < t.len() - 1 { assert(t.drop_last()[i] == t[i]); } } } }
[[prec]] /// the stack holds a single expression
[[prec]] pub broadcast proof fn l_done<'a>(h: Seq<ReduceMember<'a>>, e: Expression<'a>, s: Seq<char>, lo: int, hi: int, p: int)
[[prec]]     requires #[trigger] stk(h, s, lo, hi, p), h.len() == 1, h[0] == ReduceMember::<'a>::Expression(e)
[[prec]]     ensures #[trigger] gok(s, lo, hi, e)
[[prec]] {
[[prec]]     let d = choose|d: Seq<GT<'a>>| #[trigger] hrel(h, d, s, lo, hi, p);
[[prec]]     assert(mok(h, d, 0));
[[prec]]     let g = d[0];
[[prec]]     assert(flats(h.drop_last(), d.drop_last()) =~= seq![]);
[[prec]]     assert(flats(h, d) =~= flat(g)); let f = flat(g);
[[prec]]     l_chain(f, lo, hi);
[[prec]]     assert forall|i: int| #![trigger f[i]] 0 <= i < f.len() && f[i].k is Ex && isop(f[i].k->Ex_0) implies
[[prec]]         (exists|a: Range<usize>, b: Range<usize>, m: int, n: int| #[trigger] between(s, a, b, m, n, f[i].lo, f[i].hi) && lo <= f[i].lo && f[i].hi <= hi && gok(s, m, n, f[i].k->Ex_0)) by {
[[prec]]         assert(par(s, f[i].lo, f[i].hi, f[i].k->Ex_0));
[[prec]]     }
[[prec]]     assert(erel(g, e));
[[prec]] }
[[prec]] // ---- the specification determines the grouping: two trees for the same operands and operators that are both grouped by precedence are equal
[[prec]] pub enum UM<'a> { E(GT<'a>), U(UnaryOperator, Range<usize>, int), B(BinaryOperator, Range<usize>, int, int) }
[[prec]] pub open spec fn umprio(m: UM<'_>) -> int { match m { UM::E(_) => 0, UM::U(o, _, _) => uprio(o), UM::B(o, _, _, _) => bprio(o) } }
[[prec]] pub open spec fn ured<'a>(t: Seq<UM<'a>>, p: int) -> Seq<UM<'a>> decreases t.len() {
[[prec]]     let n = t.len() as int;
[[prec]]     if n < 2 || !(t[n - 1] is E) { t } else {
[[prec]]         match t[n - 2] {
[[prec]]             UM::U(o, r, hi) => if uprio(o) <= p { ured(t.take(n - 2).push(UM::E(GT::Un(o, r, hi, Box::new(t[n - 1]->E_0)))), p) } else { t },
[[prec]]             UM::B(o, r, lo, hi) => if bprio(o) <= p && n > 2 && t[n - 3] is E { ured(t.take(n - 3).push(UM::E(GT::Bin(o, r, lo, hi, Box::new(t[n - 3]->E_0), Box::new(t[n - 1]->E_0)))), p) } else { t },
[[prec]]             _ => t,
[[prec]]         }
[[prec]]     }
[[prec]] }
[[prec]] pub open spec fn ustep<'a>(t: Seq<UM<'a>>, x: At<'a>) -> Seq<UM<'a>> {
[[prec]]     match x.k {
[[prec]]         Item::Ex(e) => t.push(UM::E(GT::Atom(e, x.lo, x.hi))),
[[prec]]         Item::Un(o, r) => t.push(UM::U(o, r, x.hi)),
[[prec]]         Item::Bi(o, r) => ured(t, bprio(o)).push(UM::B(o, r, x.lo, x.hi)),
[[prec]]         Item::Post(e) => { let u = ured(t, pprio()); u.drop_last().push(UM::E(GT::Post(e, x.lo, x.hi, Box::new(u.last()->E_0)))) },
[[prec]]     }
[[prec]] }
[[prec]] pub open spec fn urun<'a>(t: Seq<UM<'a>>, x: Seq<At<'a>>) -> Seq<UM<'a>> decreases x.len() { if x.len() == 0 { t } else { ustep(urun(t, x.drop_last()), x.last()) } }
[[prec]] pub proof fn l_urun<'a>(t: Seq<UM<'a>>, x: Seq<At<'a>>, y: Seq<At<'a>>) ensures urun(t, x + y) == urun(urun(t, x), y) decreases y.len() {
[[prec]]     if y.len() == 0 { assert(x + y =~= x); } else { assert((x + y).drop_last() =~= x + y.drop_last()); assert((x + y).last() == y.last()); l_urun(t, x, y.drop_last()); }
[[prec]] }
[[prec]] pub proof fn l_urun1<'a>(t: Seq<UM<'a>>, x: Seq<At<'a>>, z: At<'a>) ensures urun(t, x.push(z)) == ustep(urun(t, x), z) { assert(x.push(z).drop_last() =~= x); assert(x.push(z).last() == z); }
[[prec]] pub proof fn l_unop<'a>(t: Seq<UM<'a>>, g: GT<'a>, p: int)
[[prec]]     requires okp(g), t.len() > 0 ==> !(t.last() is E) && ledge(g, umprio(t.last())), redge(g, p)
[[prec]]     ensures ured(urun(t, flat(g)), p) == ured(t.push(UM::E(g)), p)
[[prec]]     decreases g
[[prec]] {
[[prec]]     match g {
[[prec]]         GT::Atom(a, lo, hi) => { l_urun1(t, seq![], At { k: Item::Ex(a), lo, hi }); assert(seq![].push(At { k: Item::Ex(a), lo, hi }) =~= flat(g)); }
[[prec]]         GT::Un(o, r, hi, c) => {
[[prec]]             let x = seq![At { k: Item::Un(o, r), lo: r.start as int, hi }];
[[prec]]             let t2 = t.push(UM::U(o, r, hi));
[[prec]]             l_urun1(t, seq![], x[0]); assert(seq![].push(x[0]) =~= x);
[[prec]]             l_urun(t, x, flat(*c));
[[prec]]             l_unop(t2, *c, p);
[[prec]]             let u = t2.push(UM::E(*c)); let n = u.len() as int;
[[prec]]             assert(u.take(n - 2) =~= t); assert(u[n - 2] == t2.last());
[[prec]]             assert(Box::new(*c) == c);
[[prec]]         }
[[prec]]         GT::Bin(o, r, lo, hi, a, b) => {
[[prec]]             let z = At { k: Item::Bi(o, r), lo, hi };
[[prec]]             l_unop(t, *a, bprio(o));
[[prec]]             let ta = t.push(UM::E(*a));
[[prec]]             l_ustop(ta, bprio(o));
[[prec]]             l_urun1(t, flat(*a), z);
[[prec]]             l_urun(t, flat(*a).push(z), flat(*b));
[[prec]]             let tb = ta.push(UM::B(o, r, lo, hi));
[[prec]]             l_unop(tb, *b, p);
[[prec]]             let u = tb.push(UM::E(*b)); let n = u.len() as int;
[[prec]]             assert(u.take(n - 3) =~= t); assert(u[n - 2] == tb.last() && u[n - 3] == ta.last());
[[prec]]             assert(Box::new(*a) == a && Box::new(*b) == b);
[[prec]]         }
[[prec]]         GT::Post(e, lo, hi, a) => {
[[prec]]             let z = At { k: Item::Post(e), lo, hi };
[[prec]]             l_unop(t, *a, pprio());
[[prec]]             let ta = t.push(UM::E(*a));
[[prec]]             l_ustop(ta, pprio());
[[prec]]             l_urun1(t, flat(*a), z);
[[prec]]             assert(ta.drop_last() =~= t);
[[prec]]             assert(Box::new(*a) == a);
[[prec]]         }
[[prec]]     }
[[prec]] }
[[prec]] pub proof fn l_ustop<'a>(t: Seq<UM<'a>>, p: int)
[[prec]]     requires t.len() > 1 ==> umprio(t[t.len() - 2]) > p && !(t[t.len() - 2] is E)
[[prec]]     ensures ured(t, p) == t
[[prec]] {}
[[prec]] pub proof fn l_redge_max(g: GT<'_>) ensures redge(g, 200) decreases g {
[[prec]]     match g { GT::Un(_, _, _, c) => l_redge_max(*c), GT::Bin(_, _, _, _, _, b) => l_redge_max(*b), _ => {} }
[[prec]] }
[[prec]] pub proof fn l_unique<'a>(g: GT<'a>, h: GT<'a>)
[[prec]]     requires okp(g), okp(h), flat(g) == flat(h)
[[prec]]     ensures g == h
[[prec]] {
[[prec]]     l_redge_max(g); l_redge_max(h);
[[prec]]     let e = Seq::<UM<'a>>::empty();
[[prec]]     l_unop(e, g, 200); l_unop(e, h, 200);
[[prec]]     let (x, y) = (e.push(UM::E(g)), e.push(UM::E(h)));
[[prec]]     assert(ured(x, 200) == x && ured(y, 200) == y);
[[prec]]     assert(x[0] == y[0]);
[[prec]] }
