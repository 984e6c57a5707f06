// ---------------------------------------------------------------- utf-8 lemmas (proved)
pub proof fn l_concat(a: Seq<char>, b: Seq<char>) ensures encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b) { encode_utf8_concat(a, b); }
pub broadcast proof fn l_pos(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures #[trigger] off(s, i) <= blen(s), i == s.len() ==> off(s, i) == blen(s), i == 0 ==> off(s, i) == 0, i <= off(s, i)
{
    assert(s.subrange(0, i) + s.subrange(i, s.len() as int) =~= s);
    l_concat(s.subrange(0, i), s.subrange(i, s.len() as int));
    if i == 0 { assert(s.subrange(0, 0) =~= seq![]); reveal_with_fuel(encode_utf8, 1); }
    l_mono(s, 0, i);
    if i == s.len() { assert(s.subrange(0, i) =~= s); }
}
pub proof fn l_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures off(s, i) + (j - i) <= off(s, j)
    decreases j - i
{
    if i < j {
        l_mono(s, i, j - 1);
        let t = s.subrange(0, j - 1);
        let u = seq![s[j - 1]];
        assert(s.subrange(0, j) =~= t + u);
        l_concat(t, u);
        encode_utf8_first_scalar(u);
        reveal_with_fuel(encode_utf8, 2);
        assert(encode_utf8(u).len() >= 1) by { encode_utf8_first_scalar(u); }
    }
}
pub broadcast proof fn l_mono2(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len()
    ensures #[trigger] off(s, i) < #[trigger] off(s, j)
{ l_mono(s, i, j); }
/// index of the character boundary at byte offset b
pub closed spec fn idx(s: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= s.len() && off(s, i) == b }
pub broadcast proof fn l_idx(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures #[trigger] idx(s, off(s, i) as int) == i
{
    let k = idx(s, off(s, i) as int);
    assert(0 <= k <= s.len() && off(s, k) == off(s, i));
    if k < i { l_mono(s, k, i); } else if i < k { l_mono(s, i, k); }
}
/// the characters between two byte offsets
pub open spec fn seg(s: Seq<char>, a: int, b: int) -> Seq<char> { sub(s, idx(s, a), idx(s, b)) }
pub broadcast proof fn l_mono3(s: Seq<char>, b: int, i: int)
    requires 0 <= i <= s.len(), bnd(s, b)
    ensures #[trigger] idx(s, b) <= i <==> b <= #[trigger] off(s, i)
{
    let k = choose|i: int| 0 <= i <= s.len() && off(s, i) == b;
    l_idx(s, k);
    if k <= i { l_mono(s, k, i); } else { l_mono(s, i, k); }
}
/// the characters s[i..j]
pub closed spec fn sub(s: Seq<char>, i: int, j: int) -> Seq<char> { s.subrange(i, j) }
pub broadcast proof fn l_blen(s: &str) ensures #[trigger] s.spec_bytes().len() == blen(s@) {}
pub broadcast proof fn l_bnd(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures bnd(s, #[trigger] off(s, i) as int)
{}
pub broadcast proof fn l_bnd_idx(s: Seq<char>, b: int)
    requires bnd(s, b)
    ensures 0 <= #[trigger] idx(s, b) <= s.len(), off(s, idx(s, b)) == b
{}
pub broadcast group group_lex { l_pos, l_idx, l_bnd, l_blen }
pub broadcast group group_off { l_pos, l_mono3, l_idx, l_blen, l_bnd }
pub broadcast proof fn l_bnd_le(s: Seq<char>, b: int)
    requires #[trigger] bnd(s, b)
    ensures 0 <= b <= blen(s)
{ let i = choose|i: int| 0 <= i <= s.len() && off(s, i) == b; l_pos(s, i); }
pub proof fn l_bnd_end(s: Seq<char>) ensures bnd(s, blen(s) as int), bnd(s, 0) { l_pos(s, s.len() as int); l_pos(s, 0); }

/// `&s[a..b]` on text and slices
pub trait VxSlice {
    type Out: ?Sized;
    spec fn slice_ok(&self, a: usize, b: usize) -> bool;
    spec fn sliced(&self, a: usize, b: usize, r: &Self::Out) -> bool;
    fn vx_slice(&self, a: usize, b: usize) -> (r: &Self::Out)
[[!lite]]         requires self.slice_ok(a, b)
        ensures self.sliced(a, b, r);
}
impl VxSlice for str {
    type Out = str;
    open spec fn slice_ok(&self, a: usize, b: usize) -> bool { a <= b && bnd(self@, a as int) && bnd(self@, b as int) }
    open spec fn sliced(&self, a: usize, b: usize, r: &str) -> bool { r@ == seg(self@, a as int, b as int) }
    #[verifier::external_body]
    fn vx_slice(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
}
impl VxSlice for [u8] {
    type Out = [u8];
    open spec fn slice_ok(&self, a: usize, b: usize) -> bool { a <= b && b <= self@.len() }
    open spec fn sliced(&self, a: usize, b: usize, r: &[u8]) -> bool { r@ == self@.subrange(a as int, b as int) }
    #[verifier::external_body]
    fn vx_slice(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
}
/// a byte range between character boundaries decodes to the characters in between
pub proof fn l_seg(s: Seq<char>, a: int, b: int)
    requires bnd(s, a), bnd(s, b), a <= b
    ensures encode_utf8(s).len() == blen(s), encode_utf8(s).subrange(a, b) == encode_utf8(seg(s, a, b)), 0 <= a, b <= blen(s), 0 <= idx(s, a) <= idx(s, b) <= s.len(),
        valid_utf8(encode_utf8(s).subrange(a, b)), decode_utf8(encode_utf8(s).subrange(a, b)) == seg(s, a, b),
{
    let i = choose|i: int| 0 <= i <= s.len() && off(s, i) == a;
    let j = choose|i: int| 0 <= i <= s.len() && off(s, i) == b;
    l_idx(s, i); l_idx(s, j);
    if j < i { l_mono(s, j, i); }
    assert(s.subrange(0, i) + s.subrange(i, j) =~= s.subrange(0, j));
    l_concat(s.subrange(0,i), s.subrange(i, j));
    assert(s.subrange(0, j) + s.subrange(j, s.len() as int) =~= s);
    l_concat(s.subrange(0,j), s.subrange(j, s.len() as int));
    assert(encode_utf8(s).subrange(a, b) =~= encode_utf8(s.subrange(i,j)));
    encode_utf8_valid_utf8(s.subrange(i,j));
    encode_utf8_decode_utf8(s.subrange(i,j));
}
pub proof fn l_inj(a: Seq<char>, b: Seq<char>) requires encode_utf8(a) == encode_utf8(b) ensures a == b
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
