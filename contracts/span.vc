@split Spanned OptSpanned
@trait Spanned.super
crate::vx::Vx
@trait OptSpanned.super
crate::vx::Vx
@fn span::Spanned::span
@ret r
@requires
[[wf]]     exists|s: Seq<char>| #[trigger] self.vwf(s),
@ensures
[[min]]     self.osp() == Some((r.start as int, r.end as int)),
[[wf,lite]]     self.vin(r.start as int, r.end as int),
[[wf]]     forall|s: Seq<char>| #[trigger] self.vwf(s) ==> crate::vx::Vx::vwf(&r, s),
@fn span::Spanned::join_span
@ret r
@requires
[[wf]]     exists|s: Seq<char>| #[trigger] self.vwf(s),
[[wf]]     exists|s: Seq<char>| #[trigger] other.vwf(s),
@ensures
[[min]]     Some((r.start as int, r.end as int)) == crate::vx::hull(self.osp(), other.osp()),
[[wf,lite]]     self.vin(r.start as int, r.end as int),
[[wf,lite]]     other.vin(r.start as int, r.end as int),
[[wf]]     forall|s: Seq<char>| #[trigger] self.vwf(s) && #[trigger] other.vwf(s) ==> crate::vx::Vx::vwf(&r, s),
@fn span::OptSpanned::opt_span
@ret r
@requires
[[wf]]     exists|s: Seq<char>| #[trigger] self.vwf(s),
@ensures
[[min]]     self.osp() == match r { Some(x) => Some((x.start as int, x.end as int)), None => None },
[[wf,lite]]     r is Some ==> self.vin(r->Some_0.start as int, r->Some_0.end as int),
[[wf]]     r is Some ==> forall|s: Seq<char>| #[trigger] self.vwf(s) ==> crate::vx::Vx::vwf(&r->Some_0, s),
[[wf,lite]]     r is None ==> self.vin(1, 0) && forall|lo: int, hi: int| #[trigger] self.vin(lo, hi),
[[wf]]     forall|s: Seq<char>| #[trigger] self.vwf(s) ==> crate::vx::Vx::vwf(&r, s),
[[wf,lite]]     r is Some ==> !crate::vx::Vx::vin(&r, r->Some_0.start + 1, 0),
@fn span::OptSpanned::opt_join_span
@ret r
@requires
[[wf]]     exists|s: Seq<char>| #[trigger] self.vwf(s),
[[wf]]     exists|s: Seq<char>| #[trigger] other.vwf(s),
@ensures
[[min]]     crate::vx::hull(self.osp(), other.osp()) == match r { Some(x) => Some((x.start as int, x.end as int)), None => None },
[[wf,lite]]     r is Some ==> self.vin(r->Some_0.start as int, r->Some_0.end as int),
[[wf,lite]]     r is Some ==> other.vin(r->Some_0.start as int, r->Some_0.end as int),
[[wf]]     r is Some ==> forall|s: Seq<char>| #[trigger] self.vwf(s) && #[trigger] other.vwf(s) ==> crate::vx::Vx::vwf(&r->Some_0, s),
[[wf,lite]]     r is None ==> self.vin(1, 0) && forall|lo: int, hi: int| #[trigger] self.vin(lo, hi),
[[wf,lite]]     r is None ==> other.vin(1, 0) && forall|lo: int, hi: int| #[trigger] other.vin(lo, hi),
[[wf]]     forall|s: Seq<char>| #[trigger] self.vwf(s) && #[trigger] other.vwf(s) ==> crate::vx::Vx::vwf(&r, s),
[[wf,lite]]     r is Some ==> !crate::vx::Vx::vin(&r, r->Some_0.start + 1, 0),

@fn span::Spanned[Span]::span
@ret r
@ensures
    r == *self,
@fn span::OptSpanned[Vec<T>]::opt_span span::OptSpanned[[T]]::opt_span
@ret r
@ensures
[[wf,lite]]     r is None && self@.len() > 0 ==> self@[0].vin(1, 0),
@loop *
    invariant vx_i <= self@.len(),
[[min]]    crate::vx::hull_seq(self@.subrange(0, vx_i as int)) == match vx_acc { Some(x) => Some((x.start as int, x.end as int)), None => None },
[[min]]    (vx_i < self@.len() ==> self@.subrange(0, vx_i + 1).drop_last() =~= self@.subrange(0, vx_i as int) && self@.subrange(0, vx_i + 1).last() == self@[vx_i as int]), (vx_i == self@.len() ==> self@.subrange(0, vx_i as int) =~= self@),
[[wf]]    vx_acc is Some ==> forall|j: int| #![trigger self@[j]] 0 <= j < vx_i ==> self@[j].vin(vx_acc->Some_0.start as int, vx_acc->Some_0.end as int),
[[wf]]    vx_acc is None ==> forall|j: int, lo: int, hi: int| #![trigger self@[j].vin(lo, hi)] 0 <= j < vx_i ==> self@[j].vin(lo, hi),
[[wf]]    forall|s: Seq<char>| #[trigger] self.vwf(s) ==> crate::vx::Vx::vwf(&vx_acc, s),
[[wf]]    vx_acc is Some ==> !crate::vx::Vx::vin(&vx_acc, vx_acc->Some_0.start + 1, 0),
    decreases self@.len() - vx_i,
@fn span::OptSpanned[Vec<T>]::opt_span span::OptSpanned[[T]]::opt_span span::OptSpanned::opt_join_span span::Spanned::join_span span::Spanned[(S,O)]::span span::Spanned[(T1,T2,T3)]::span
@start
[[wf]] broadcast use crate::vx::b_mono;
