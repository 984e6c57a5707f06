@fn identifier::Identifier::new
@ret r
@ensures
    r.value == value, r.span == span,
@fn sstring::SString::new
@ret r
@ensures
    r.value == value, r.span == span,
@module identifier
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Identifier<'a> {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, other: &Self) -> bool { true }
}
impl<'a> vstd::std_specs::cmp::PartialOrdSpecImpl for Identifier<'a> {
    open spec fn obeys_partial_cmp_spec() -> bool { false }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> { None }
}
impl<'a> vstd::std_specs::cmp::OrdSpecImpl for Identifier<'a> {
    open spec fn obeys_cmp_spec() -> bool { false }
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering { core::cmp::Ordering::Equal }
}
@type Identifier
@wf
[[names]] crate::vx::nm(s, x.value@, x.span)
