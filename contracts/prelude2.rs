impl Vx for u8 { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for u16 { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for u32 { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for u64 { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for usize { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for i8 { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for i16 { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for i32 { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for i64 { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for isize { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for f32 { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for f64 { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for char { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for String { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for str { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for Keyword { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for () { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl Vx for bool { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { *self } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
impl<'a> Vx for Cow<'a, str> { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
[[!nospan]]impl Vx for Range<usize> { open spec fn vwf(&self, s: Seq<char>) -> bool { span_ok(s, *self) } open spec fn vin(&self, lo: int, hi: int) -> bool { span_in(*self, lo, hi) } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {  } open spec fn osp(&self) -> Option<(int, int)> { Some((self.start as int, self.end as int)) } }
[[nospan]]impl Vx for Range<usize> { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { span_in(*self, lo, hi) } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {  } open spec fn osp(&self) -> Option<(int, int)> { Some((self.start as int, self.end as int)) } }
[[!nospan]]impl<'a> Vx for Token<'a> { open spec fn vwf(&self, s: Seq<char>) -> bool { tok_ok(*self) } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {  } open spec fn osp(&self) -> Option<(int, int)> { None } }
[[nospan]]impl<'a> Vx for Token<'a> { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {  } open spec fn osp(&self) -> Option<(int, int)> { None } }
impl<'a, T: Vx + ?Sized> Vx for &'a T { open spec fn vwf(&self, s: Seq<char>) -> bool { (**self).vwf(s) } open spec fn vin(&self, lo: int, hi: int) -> bool { (**self).vin(lo, hi) } open spec fn vsome(&self) -> bool { (**self).vsome() } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) { (**self).vmono(lo, hi, lo2, hi2); } open spec fn osp(&self) -> Option<(int, int)> { (**self).osp() } }
impl<'a, T: Vx + ?Sized> Vx for &'a mut T { open spec fn vwf(&self, s: Seq<char>) -> bool { (**self).vwf(s) } open spec fn vin(&self, lo: int, hi: int) -> bool { (**self).vin(lo, hi) } open spec fn vsome(&self) -> bool { (**self).vsome() } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) { (**self).vmono(lo, hi, lo2, hi2); } open spec fn osp(&self) -> Option<(int, int)> { (**self).osp() } }
impl<T: Vx> Vx for Box<T> { open spec fn vwf(&self, s: Seq<char>) -> bool { (**self).vwf(s) } open spec fn vin(&self, lo: int, hi: int) -> bool { (**self).vin(lo, hi) } open spec fn vsome(&self) -> bool { (**self).vsome() } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) { (**self).vmono(lo, hi, lo2, hi2); } open spec fn osp(&self) -> Option<(int, int)> { (**self).osp() } }
impl<T: Vx> Vx for Option<T> { open spec fn vwf(&self, s: Seq<char>) -> bool { match self { Some(x) => x.vwf(s), None => true } } open spec fn vin(&self, lo: int, hi: int) -> bool { match self { Some(x) => x.vin(lo, hi), None => true } } open spec fn vsome(&self) -> bool { self is Some } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) { if let Some(x) = self { x.vmono(lo, hi, lo2, hi2); } } open spec fn osp(&self) -> Option<(int, int)> { match self { Some(x) => x.osp(), None => None } } }
impl<T: Vx, E> Vx for Result<T, E> { open spec fn vwf(&self, s: Seq<char>) -> bool { match self { Ok(x) => x.vwf(s), Err(_) => true } } open spec fn vin(&self, lo: int, hi: int) -> bool { match self { Ok(x) => x.vin(lo, hi), Err(_) => true } } open spec fn vsome(&self) -> bool { match self { Ok(x) => x.vsome(), Err(_) => false } } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) { if let Ok(x) = self { x.vmono(lo, hi, lo2, hi2); } } open spec fn osp(&self) -> Option<(int, int)> { match self { Ok(x) => x.osp(), Err(_) => None } } }
impl<T: Vx> Vx for Vec<T> { open spec fn vwf(&self, s: Seq<char>) -> bool { forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> self@[i].vwf(s) } open spec fn vin(&self, lo: int, hi: int) -> bool { forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> self@[i].vin(lo, hi) } open spec fn vsome(&self) -> bool { self@.len() > 0 } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) { assert forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() implies self@[i].vin(lo2, hi2) by { self@[i].vmono(lo, hi, lo2, hi2); } } open spec fn osp(&self) -> Option<(int, int)> { hull_seq(self@) } }
impl<T: Vx> Vx for [T] { open spec fn vwf(&self, s: Seq<char>) -> bool { forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> self@[i].vwf(s) } open spec fn vin(&self, lo: int, hi: int) -> bool { forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> self@[i].vin(lo, hi) } open spec fn vsome(&self) -> bool { self@.len() > 0 } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) { assert forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() implies self@[i].vin(lo2, hi2) by { self@[i].vmono(lo, hi, lo2, hi2); } } open spec fn osp(&self) -> Option<(int, int)> { hull_seq(self@) } }
impl<T0: Vx, T1: Vx> Vx for (T0, T1) { open spec fn vwf(&self, s: Seq<char>) -> bool { self.0.vwf(s) && self.1.vwf(s) } open spec fn vin(&self, lo: int, hi: int) -> bool { self.0.vin(lo, hi) && self.1.vin(lo, hi) } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) { self.0.vmono(lo, hi, lo2, hi2); self.1.vmono(lo, hi, lo2, hi2); } open spec fn osp(&self) -> Option<(int, int)> { hull(self.0.osp(), self.1.osp()) } }
impl<T0: Vx, T1: Vx, T2: Vx> Vx for (T0, T1, T2) { open spec fn vwf(&self, s: Seq<char>) -> bool { self.0.vwf(s) && self.1.vwf(s) && self.2.vwf(s) } open spec fn vin(&self, lo: int, hi: int) -> bool { self.0.vin(lo, hi) && self.1.vin(lo, hi) && self.2.vin(lo, hi) } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) { self.0.vmono(lo, hi, lo2, hi2); self.1.vmono(lo, hi, lo2, hi2); self.2.vmono(lo, hi, lo2, hi2); } open spec fn osp(&self) -> Option<(int, int)> { hull(hull(self.0.osp(), self.1.osp()), self.2.osp()) } }
impl<T0: Vx, T1: Vx, T2: Vx, T3: Vx> Vx for (T0, T1, T2, T3) { open spec fn vwf(&self, s: Seq<char>) -> bool { self.0.vwf(s) && self.1.vwf(s) && self.2.vwf(s) && self.3.vwf(s) } open spec fn vin(&self, lo: int, hi: int) -> bool { self.0.vin(lo, hi) && self.1.vin(lo, hi) && self.2.vin(lo, hi) && self.3.vin(lo, hi) } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) { self.0.vmono(lo, hi, lo2, hi2); self.1.vmono(lo, hi, lo2, hi2); self.2.vmono(lo, hi, lo2, hi2); self.3.vmono(lo, hi, lo2, hi2); } open spec fn osp(&self) -> Option<(int, int)> { hull(hull(hull(self.0.osp(), self.1.osp()), self.2.osp()), self.3.osp()) } }
impl<T0: Vx, T1: Vx, T2: Vx, T3: Vx, T4: Vx> Vx for (T0, T1, T2, T3, T4) { open spec fn vwf(&self, s: Seq<char>) -> bool { self.0.vwf(s) && self.1.vwf(s) && self.2.vwf(s) && self.3.vwf(s) && self.4.vwf(s) } open spec fn vin(&self, lo: int, hi: int) -> bool { self.0.vin(lo, hi) && self.1.vin(lo, hi) && self.2.vin(lo, hi) && self.3.vin(lo, hi) && self.4.vin(lo, hi) } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) { self.0.vmono(lo, hi, lo2, hi2); self.1.vmono(lo, hi, lo2, hi2); self.2.vmono(lo, hi, lo2, hi2); self.3.vmono(lo, hi, lo2, hi2); self.4.vmono(lo, hi, lo2, hi2); } open spec fn osp(&self) -> Option<(int, int)> { hull(hull(hull(hull(self.0.osp(), self.1.osp()), self.2.osp()), self.3.osp()), self.4.osp()) } }
impl Vx for ! { open spec fn vwf(&self, s: Seq<char>) -> bool { true } open spec fn vin(&self, lo: int, hi: int) -> bool { true } open spec fn vsome(&self) -> bool { true } proof fn vmono(&self, lo: int, hi: int, lo2: int, hi2: int) {} open spec fn osp(&self) -> Option<(int, int)> { None } }
