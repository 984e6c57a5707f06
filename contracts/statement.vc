## the data of COPY follows the delimiter directly: nothing may have been read ahead
@fn alter::parse_alter create::parse_create_view create::parse_create_function create::parse_create_trigger create::parse_create_type create::parse_create_index create::parse_create_table create::parse_create drop::parse_drop statement::parse_start statement::parse_do statement::parse_compound_query statement::parse_compound_query_bottom
@ensures
    vxr is Ok ==> !(vxr->Ok_0 is Copy),
@fn statement::parse_copy_statement
@ensures
    vxr is Ok ==> final(parser).peeked_token is None,
@fn statement::parse_statement
@ensures
    vxr is Ok && vxr->Ok_0 is Some && vxr->Ok_0->Some_0 is Copy ==> final(parser).peeked_token is None,
@fn statement::Statement::reads_from_stdin
@ret r
@ensures
    r ==> *self is Copy,
@fn create::parse_create_table
@start
[[wf]]    broadcast use crate::vx::b_bnd0;
@fn insert_replace::parse_insert_replace
[[!kwds]] @cut 1500
@fn select::parse_select
[[!kwds]] @cut 1500
@fn create::parse_create_function
[[!kwds]] @cut 1500
@fn create::parse_create_table
[[!kwds]] @cut 1500
@fn alter::parse_index_options statement::parse_statement_list_inner statement::parse_statement_list
@nonstrict
@fn expression::parse_expression
@loop 0
[[term]] invariant r.stack@.len() > 0 ==> crate::vx::rem(*parser) < crate::vx::rem(*old(parser)),
@fn statement::parse_block
@ensures
[[term]]    vxr is Ok ==> crate::vx::rem(*final(parser)) < crate::vx::rem(*old(parser)),
@fn alter::parse_add_alter_specification
[[!kwds]] @cut 1500
@type Statement
@wf
[[clean]] !(x is Invalid)
@fn statement::parse_statements
@ensures
[[clean]]    final(parser).token is Eof || crate::vx::errd(*old(parser), *final(parser)),
@fn statement::parse_statements
@free-mode
@ensures
[[state]]    crate::vx::kept(*old(parser).issues, *final(parser).issues),
@loop *
[[state]]    invariant crate::vx::kept(*old(parser).issues, *parser.issues),
@fn statement::parse_statements
@loop ~~next
[[args]]    invariant crate::vx::errd(*old(parser), *parser),
@fn create::parse_create_function
@rawloop Token :: DoubleDollar
@fn create::parse_create_table
[[args]] @cut 400
@fn alter::parse_add_alter_specification
[[args]] @cut 300
## a token is passed over only if it is the delimiter, or an error has been reported
@fn statement::parse_statements statement::parse_statement_list_inner
@guardcalls
[[clean]] parser.token is SemiColon || crate::lexer::tok_eq(parser.token, parser.delimiter) || crate::vx::errd(*old(parser), *parser)
