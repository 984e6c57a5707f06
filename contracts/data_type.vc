@fn data_type::parse_width
@ensures
    old(parser).token is LParen && vxr is Ok ==> vxr->Ok_0 is Some,

@fn data_type::parse_data_type
[[!kwds]] @cut 1500
