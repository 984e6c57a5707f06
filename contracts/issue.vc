@fn issue::IssueHandle::frag
@ret r
@requires
[[wf]]    span.vwf(old(self).src@), crate::vx::issue_ok(old(self).src@, *old(self).issue),
@ensures
    *final(r) == *final(self), *final(r.issue) == *final(old(self).issue),
    r.src == old(self).src, (*r.issue).level == (*old(self).issue).level,
[[wf]]    crate::vx::issue_ok(old(self).src@, *r.issue),
@start
[[wf]]    let ghost vx_i0 = *self.issue; let ghost vx_s0 = self.src@;
@before self
[[wf]]    proof { crate::vx::l_frag(vx_s0, vx_i0, *self.issue); }
@fn issue::Issues::err issue::Issues::warn
@ret r
@requires
[[wf]]    span.vwf(old(self).src@),
@ensures
    final(self).src == old(self).src, r.src == old(self).src,
    crate::vx::added(*old(self), *final(self), *final(r.issue)),
[[wf]]    crate::vx::issue_ok(old(self).src@, *r.issue),
@tail
[[wf]]    crate::vx::l_new_issue(self.src@, self.issues@.last());
--
    crate::vx::l_added(*old(self), *final(self), *final(vx_t.issue));
@fn issue::Issues::err
@ensures
    (*r.issue).level is Error,
@fn issue::Issues::warn
@ensures
    (*r.issue).level is Warning,
@fn issue::Issues::segment
@ret r
@requires
[[wf]]    crate::vx::span_ok(self.src@, span),
@ensures
[[wf]]    crate::vx::text_at(self.src@, span, r),
@fn issue::Issues::new
@ret r
@ensures
    r.src == src, r.issues@.len() == 0, crate::vx::issues_ok(r),
@tail
--
    crate::vx::l_no_issues(vx_t);
@fn issue::Issues::get
@ret r
@ensures
    r@ == self.issues@,
@fn issue::Issues::into_vec
@ret r
@ensures
    r@ == self.issues@,
@fn issue::Issues::is_ok
@ret r
@ensures
    r == (self.issues@.len() == 0),
## an issue is recorded as it was reported
@fn issue::Issues::err issue::Issues::warn
@ensures
[[state,warns]]    (*r.issue).fragments@.len() == 0, Some(((*r.issue).span.start as int, (*r.issue).span.end as int)) == span.osp(),
[[state]]    call_ensures(<_ as core::convert::Into<Cow<'static, str>>>::into, (message,), (*r.issue).message),
@fn issue::IssueHandle::frag
@ensures
[[state]]    (*r.issue).span == (*old(self).issue).span && (*r.issue).message == (*old(self).issue).message,
[[state]]    (*r.issue).fragments@.len() == (*old(self).issue).fragments@.len() + 1 && (*r.issue).fragments@.drop_last() == (*old(self).issue).fragments@,
[[state]]    Some(((*r.issue).fragments@.last().span.start as int, (*r.issue).fragments@.last().span.end as int)) == span.osp(),
[[state]]    call_ensures(<_ as core::convert::Into<Cow<'static, str>>>::into, (message,), (*r.issue).fragments@.last().message),
