@fn lib::parse_statement lib::parse_statements
@ret r
@requires
[[wf]]    old(issues).src@ == src@, crate::vx::issues_ok(*old(issues)),
@start
[[wf]]    proof { reveal(crate::vx::inv0); }
[[state]]    broadcast use crate::vx::l_like_self, crate::vx::l_kept_trans; proof { reveal(crate::vx::like); crate::vx::l_kept_refl(*issues); }
@ensures
[[wf]]    crate::vx::issues_ok(*final(issues)), final(issues).src@ == src@, crate::vx::Vx::vwf(&r, src@),
[[state]]    crate::vx::kept(*old(issues), *final(issues)),
@fn lib::parse_statement lib::parse_statements
@ensures
[[clean]]    crate::vx::Vx::vwf(&r, src@) || crate::vx::nerr(old(issues).issues@) < crate::vx::nerr(final(issues).issues@),
@fn lib::parse_statement
@ensures
[[err]]    r is None ==> crate::vx::nerr(old(issues).issues@) < crate::vx::nerr(final(issues).issues@),
@fn lib::parse_statement
@tail
[[clean]] -- assert($parser.token is Eof || crate::vx::nerr(old(issues).issues@) < crate::vx::nerr($parser.issues.issues@));
