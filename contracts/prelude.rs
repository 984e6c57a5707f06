// Hand-written specification vocabulary. Everything marked external_body / assume_specification
// here is an assumption and is listed in every evidence file by a mechanical scan.
use core::ops::Range;
use vstd::utf8::*;
use vstd::string::*;
use crate::parser::Parser;
use crate::issue::{Issue, Issues, Level, Fragment};
use crate::lexer::{Lexer, Token};
use crate::keywords::Keyword;
use alloc::borrow::Cow;

pub assume_specification<T: Clone>[ <Range<T> as Clone>::clone ](r: &Range<T>) -> (o: Range<T>)
    ensures o == *r;

/// opaque formatted text
#[verifier::external_body]
pub fn fmt() -> String { String::new() }

#[verifier::external_body]
pub fn panics() -> !
    requires false
{ panic!() }

// ---------------------------------------------------------------- characters
pub closed spec fn blen(s: Seq<char>) -> nat { encode_utf8(s).len() }
/// bytes in the utf-8 encoding of c
pub open spec fn clen(c: char) -> int { if c as u32 <= 0x7f { 1 } else if c as u32 <= 0x7ff { 2 } else if c as u32 <= 0xffff { 3 } else { 4 } }
pub closed spec fn off(s: Seq<char>, i: int) -> nat { blen(s.subrange(0, i)) }
/// b is the byte offset of a character boundary of s
pub closed spec fn bnd(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && off(s, i) == b }
pub open spec fn span_ok(s: Seq<char>, r: Range<usize>) -> bool {
    r.start <= r.end && bnd(s, r.start as int) && bnd(s, r.end as int)
}
pub open spec fn span_in(r: Range<usize>, lo: int, hi: int) -> bool { lo <= r.start && r.end <= hi }

/// `Peekable<CharIndices>` as used by the lexer
#[verifier::external_body]
pub struct VxChars<'a> { it: core::iter::Peekable<core::str::CharIndices<'a>> }
impl<'a> VxChars<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.src().len() && blen(self.src()) <= usize::MAX }
    pub open spec fn rest(&self) -> int { self.src().len() - self.pos() }
    #[verifier::external_body]
    pub fn new(s: &'a str) -> (r: Self) ensures r.src() == s@, r.pos() == 0, r.wf() { VxChars { it: s.char_indices().peekable() } }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).src() == old(self).src(),
            match r {
                None => old(self).pos() == old(self).src().len() && final(self).pos() == old(self).pos(),
                Some((i, c)) => old(self).pos() < old(self).src().len() && final(self).pos() == old(self).pos() + 1
                    && i == off(old(self).src(), old(self).pos()) && c == old(self).src()[old(self).pos()]
                    && off(old(self).src(), old(self).pos() + 1) == i + clen(c),
            },
    { self.it.next() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&(usize, char)>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).src() == old(self).src(), final(self).pos() == old(self).pos(),
            match r {
                None => old(self).pos() == old(self).src().len(),
                Some(x) => old(self).pos() < old(self).src().len()
                    && x.0 == off(old(self).src(), old(self).pos()) && x.1 == old(self).src()[old(self).pos()]
                    && off(old(self).src(), old(self).pos() + 1) == x.0 + clen(x.1),
            },
    { self.it.peek() }
}

#[verifier::external_body]
pub struct VxStrChars<'a> { it: core::str::Chars<'a> }
impl<'a> VxStrChars<'a> {
    pub uninterp spec fn left(&self) -> Seq<char>;
    pub open spec fn rest(&self) -> int { self.left().len() as int }
    #[verifier::external_body]
    pub fn new(s: &'a str) -> (r: Self) ensures r.left() == s@ { VxStrChars { it: s.chars() } }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            None => old(self).left().len() == 0 && final(self).left() == old(self).left(),
            Some(c) => old(self).left().len() > 0 && c == old(self).left()[0] && final(self).left() == old(self).left().skip(1),
        }
    { self.it.next() }
}

/// the value `str::parse` gives for a text (assumed to be a function of the text)
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Result<T, ()>;
#[verifier::external_body]
pub fn str_parse<T: core::str::FromStr>(s: &str) -> (r: Result<T, ()>) ensures r == parsed::<T>(s@) { s.parse().map_err(|_| ()) }

// ---------------------------------------------------------------- covering ranges
pub open spec fn hull(a: Option<(int, int)>, b: Option<(int, int)>) -> Option<(int, int)> {
    match (a, b) {
        (None, _) => b,
        (_, None) => a,
        (Some(x), Some(y)) => Some((if x.0 <= y.0 { x.0 } else { y.0 }, if x.1 >= y.1 { x.1 } else { y.1 })),
    }
}
pub open spec fn hull_seq<T: Vx>(s: Seq<T>) -> Option<(int, int)> decreases s.len() {
    if s.len() == 0 { None } else { hull(hull_seq(s.drop_last()), s.last().osp()) }
}
pub open spec fn covers_osp(r: (int, int), x: Option<(int, int)>) -> bool { x is Some ==> r.0 <= x->Some_0.0 && x->Some_0.1 <= r.1 }
/// the hull of a list covers every item, and any range covering every item covers the hull
pub proof fn l_hull_seq<T: Vx>(s: Seq<T>)
    ensures
        hull_seq(s) is None <==> forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].osp() is None,
        hull_seq(s) is Some ==> forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> covers_osp(hull_seq(s)->Some_0, s[i].osp()),
        hull_seq(s) is Some ==> forall|r: (int, int)| (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> covers_osp(r, s[i].osp())) ==> #[trigger] covers_osp(r, hull_seq(s)),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        l_hull_seq(t);
        assert forall|i: int| #![trigger s[i]] 0 <= i < t.len() implies s[i] == t[i] by {}
        assert(s.last() == s[s.len() - 1]);
        if hull_seq(s) is Some {
            assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies covers_osp(hull_seq(s)->Some_0, s[i].osp()) by { if i < t.len() { assert(s[i] == t[i]); } }
            assert forall|r: (int, int)| (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> covers_osp(r, s[i].osp())) implies #[trigger] covers_osp(r, hull_seq(s)) by {
                assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies covers_osp(r, t[i].osp()) by { assert(s[i] == t[i]); }
                if hull_seq(t) is Some { assert(covers_osp(r, hull_seq(t))); }
            }
        }
        if hull_seq(s) is None { assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i].osp() is None by { if i < t.len() { assert(s[i] == t[i]); } } }
        else if forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].osp() is None { assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies t[i].osp() is None by { assert(s[i] == t[i]); } }
    }
}
/// the hull of two ranges covers both, and any range covering both covers the hull
pub proof fn l_hull(a: Option<(int, int)>, b: Option<(int, int)>)
    ensures hull(a, b) is None <==> a is None && b is None,
        hull(a, b) is Some ==> covers_osp(hull(a, b)->Some_0, a) && covers_osp(hull(a, b)->Some_0, b),
        hull(a, b) is Some ==> forall|r: (int, int)| covers_osp(r, a) && covers_osp(r, b) ==> #[trigger] covers_osp(r, hull(a, b)),
{}
pub proof fn l_hull_assoc(a: Option<(int, int)>, b: Option<(int, int)>, c: Option<(int, int)>)
    ensures hull(hull(a, b), c) == hull(a, hull(b, c))
{}

// ---------------------------------------------------------------- tree predicates
pub trait Vx {
    /// every span stored anywhere in the value is a valid span of s
    spec fn vwf(&self, s: Seq<char>) -> bool;
    /// every span stored anywhere in the value lies in [lo, hi]
    spec fn vin(&self, lo: int, hi: int) -> bool;
    spec fn vsome(&self) -> bool;
    /// the smallest range covering all positions in a value made of ranges; what span() returns for a tree node
    spec fn osp(&self) -> Option<(int, int)>;
    proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int)
        requires self.vin(lo, hi), lo2 <= lo, hi <= hi2
        ensures self.vin(lo2, hi2);
}

/// `x.vwf(s)`, stated through the trait
pub open spec fn wfx<T: Vx + ?Sized>(x: &T, s: Seq<char>) -> bool { x.vwf(s) }

pub broadcast proof fn b_mono<T: Vx + ?Sized>(x: &T, lo: int, hi: int, lo2: int, hi2: int)
    requires #[trigger] x.vin(lo, hi), lo2 <= lo, hi <= hi2
    ensures #[trigger] x.vin(lo2, hi2)
{ x.vmono(lo, hi, lo2, hi2); }

/// `str::split([char; N])`, collected
#[verifier::external_body]
pub fn str_split<'a>(s: &'a str, seps: &[char]) -> (r: Vec<&'a str>)
    ensures r@.len() >= 1
{ s.split(seps).collect() }

// ---------------------------------------------------------------- standard library
pub assume_specification<T> [core::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);
pub assume_specification [core::str::from_utf8] (v: &[u8]) -> (r: Result<&str, core::str::Utf8Error>)
    ensures valid_utf8(v@) <==> r is Ok, r is Ok ==> encode_utf8(r->Ok_0@) == v@ && r->Ok_0@ == decode_utf8(v@);
pub open spec fn up(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u8) as char } else { c } }
pub open spec fn upper(s: Seq<char>) -> Seq<char> { s.map(|i: int, c: char| up(c)) }
pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String)
    ensures r@ == upper(s@);
pub open spec fn is_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}' }
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (r: bool)
    ensures r == is_ws(*c);
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool)
    ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool)
    ensures r == ('a' <= *c && *c <= 'z');
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 36
    ensures radix == 10 && '0' <= c && c <= '9' ==> r == Some((c as u32 - '0' as u32) as u32),
        radix == 10 && !('0' <= c && c <= '9') ==> r is None;
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// `str::contains`
pub trait VxPat: Sized { spec fn found(self, s: Seq<char>) -> bool; fn find_in(self, s: &str) -> (r: bool) ensures r == self.found(s@); }
impl VxPat for char {
    open spec fn found(self, s: Seq<char>) -> bool { s.contains(self) }
    #[verifier::external_body]
    fn find_in(self, s: &str) -> (r: bool) { s.contains(self) }
}
pub fn str_contains<P: VxPat>(s: &str, p: P) -> (r: bool)
    ensures r == p.found(s@)
{ p.find_in(s) }
pub open spec fn cowv(c: Cow<'_, str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
#[verifier::external_body]
pub fn cow_to_mut<'b, 'a>(c: &'b mut Cow<'a, str>) -> (r: &'b mut String)
    ensures r@ == cowv(*old(c)), final(r)@ == cowv(*final(c))
{ c.to_mut() }
pub fn cow_ref<'b, 'a>(c: &'b Cow<'a, str>) -> (r: &'b str)
    ensures r@ == cowv(*c)
{ match c { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } }
pub trait VxIntoCow<'a>: Sized {
    spec fn text(self) -> Seq<char>;
    fn into_cow(self) -> (r: Cow<'a, str>) ensures cowv(r) == self.text();
}
impl<'a> VxIntoCow<'a> for &'a str {
    open spec fn text(self) -> Seq<char> { self@ }
    fn into_cow(self) -> (r: Cow<'a, str>) { Cow::Borrowed(self) }
}
impl<'a> VxIntoCow<'a> for String {
    open spec fn text(self) -> Seq<char> { self@ }
    fn into_cow(self) -> (r: Cow<'a, str>) { Cow::Owned(self) }
}
pub assume_specification<T: core::marker::MetaSized + ?Sized, A: alloc::alloc::Allocator> [<Box<T, A> as core::convert::AsRef<T>>::as_ref] (x: &Box<T, A>) -> (r: &T)
    ensures r == &**x;

/// the default values used where the parser goes on after an error
pub trait VxDefault: Vx + Sized {
    fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self)
        ensures r.vwf(s), forall|s: Seq<char>| #[trigger] r.vwf(s), forall|lo: int, hi: int| lo <= 0 <= hi ==> #[trigger] r.vin(lo, hi);
}
pub broadcast proof fn b_bnd0(s: Seq<char>) ensures #[trigger] bnd(s, 0) { l_bnd0(s); }
pub proof fn l_bnd0(s: Seq<char>) ensures bnd(s, 0), span_ok(s, 0..0) { reveal(encode_utf8); assert(s.subrange(0, 0) =~= Seq::<char>::empty()); assert(off(s, 0) == 0); }
impl VxDefault for Range<usize> { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { proof { assert forall|s: Seq<char>| #[trigger] (0usize..0usize).vwf(s) by { l_bnd0(s); } } 0..0 } }
impl<T: Vx> VxDefault for Vec<T> { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) ensures r@.len() == 0 { Vec::new() } }
impl<T: Vx> VxDefault for Option<T> { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) ensures r is None { None } }
impl VxDefault for () { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { () } }
impl VxDefault for bool { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { false } }
impl VxDefault for u8 { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { 0 } }
impl VxDefault for u16 { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { 0 } }
impl VxDefault for u32 { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { 0 } }
impl VxDefault for u64 { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { 0 } }
impl VxDefault for usize { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { 0 } }
impl VxDefault for i32 { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { 0 } }
impl VxDefault for i64 { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { 0 } }
impl VxDefault for String { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { String::new() } }
impl<A: VxDefault, B: VxDefault> VxDefault for (A, B) { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { (A::vx_default(Ghost(s)), B::vx_default(Ghost(s))) } }
impl<A: VxDefault, B: VxDefault, C: VxDefault> VxDefault for (A, B, C) { fn vx_default(Ghost(s): Ghost<Seq<char>>) -> (r: Self) { (A::vx_default(Ghost(s)), B::vx_default(Ghost(s)), C::vx_default(Ghost(s))) } }
/// `unwrap_or_default`
pub trait VxOrDefault<T>: Sized {
    spec fn ord(self, r: T) -> bool;
    fn or_default(self) -> (r: T) ensures self.ord(r);
}
impl<T: VxDefault> VxOrDefault<T> for Option<T> {
    open spec fn ord(self, r: T) -> bool {
        match self { Some(x) => r == x, None => (forall|s: Seq<char>| #[trigger] r.vwf(s)) && forall|lo: int, hi: int| lo <= 0 <= hi ==> #[trigger] r.vin(lo, hi) }
    }
    fn or_default(self) -> (r: T) { match self { Some(v) => v, None => T::vx_default(Ghost(Seq::empty())) } }
}
impl<T: core::default::Default, E> VxOrDefault<T> for Result<T, E> {
    open spec fn ord(self, r: T) -> bool { self is Ok ==> r == self->Ok_0 }
    fn or_default(self) -> (r: T) { match self { Ok(v) => v, Err(_) => T::default() } }
}

/// a range being accumulated
pub trait VxAcc: Vx {
    spec fn covers<T: Vx + ?Sized>(&self, x: &T) -> bool;
    spec fn nz(&self) -> bool;
}
impl VxAcc for Range<usize> {
    open spec fn covers<T: Vx + ?Sized>(&self, x: &T) -> bool { x.vin(self.start as int, self.end as int) }
    open spec fn nz(&self) -> bool { true }
}
impl VxAcc for Option<Range<usize>> {
    open spec fn covers<T: Vx + ?Sized>(&self, x: &T) -> bool {
        match self { Some(r) => x.vin(r.start as int, r.end as int), None => forall|lo: int, hi: int| #[trigger] x.vin(lo, hi) }
    }
    open spec fn nz(&self) -> bool { self is Some ==> !Vx::vin(self, self->Some_0.start + 1, 0) }
}
