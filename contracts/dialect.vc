## P18: what belongs to some dialects only is in the tree only under these, or an error was reported
@type WithQuery
@wf
[[dial]] crate::vx::dia(s) is PostgreSQL
@type Update
@wf
[[dial]] (x.returning is Some ==> crate::vx::dia(s) is PostgreSQL)
@type InsertReplace
@wf
[[dial]] (x.on_duplicate_key_update is Some ==> crate::vx::dia(s) is MariaDB)
[[dial]] && (x.on_conflict is Some ==> crate::vx::dia(s) is PostgreSQL)
@type LockStrength
@wf
[[dial]] (x is NoKeyUpdate || x is KeyShare ==> crate::vx::dia(s) is PostgreSQL)
@type TableReference
@wf
[[dial]] (x is Table && x->index_hints@.len() > 0 ==> crate::vx::dia(s) is MariaDB)
@type CreateTypeEnum
@wf
[[dial]] crate::vx::dia(s) is PostgreSQL
@type CreateIndex
@wf
[[dial]] (x.where_ is Some ==> !(crate::vx::dia(s) is MariaDB))
@type DropIndex
@wf
[[dial]] (x.on is None ==> !(crate::vx::dia(s) is MariaDB)) && (x.on is Some ==> !(crate::vx::dia(s) is PostgreSQL))
@type DropTable
@wf
[[dial]] (x.cascade is Some ==> crate::vx::dia(s) is PostgreSQL)
@type Type
@wf
[[dial]] (x is Named ==> crate::vx::dia(s) is PostgreSQL)
@type CreateFunction
@wf
[[dial]] (x.return_ is Some ==> crate::vx::dia(s) is MariaDB)
@fn parser::Parser::token_to_plain_identifier
@ensures
[[dial]]    *token is Ident && token->Ident_1 is QUOTED_IDENTIFIER && crate::vx::dia(crate::vx::src(*old(self))) is PostgreSQL ==> crate::vx::errd(*old(self), *final(self)),
@fn parser::Parser::consume_plain_identifier
@ensures
[[dial]]    old(self).token is Ident && old(self).token->Ident_1 is QUOTED_IDENTIFIER && crate::vx::dia(crate::vx::src(*old(self))) is PostgreSQL ==> crate::vx::errd(*old(self), *final(self)),
[[dial]]    old(self).token is DoubleQuotedString && !(crate::vx::dia(crate::vx::src(*old(self))) is PostgreSQL) ==> crate::vx::errd(*old(self), *final(self)),
@fn lib::SQLDialect::is_maria
@ret r
@ensures
[[dial]]    r == (*self is MariaDB),
@fn lib::SQLDialect::is_postgresql
@ret r
@ensures
[[dial]]    r == (*self is PostgreSQL),
@fn lib::SQLDialect::is_sqlite
@ret r
@ensures
[[dial]]    r == (*self is Sqlite),
@fn lib::parse_statement lib::parse_statements
@requires
[[dial]]    options.dialect == crate::vx::dia(src@),
## nothing else depends on the dialect
[[dial]] @guardread options.dialect alter::parse_add_alter_specification create::parse_create_function create::parse_create_type create::parse_create_index data_type::parse_data_type drop::parse_drop insert_replace::parse_insert_replace parser::Parser::token_to_plain_identifier parser::Parser::consume_plain_identifier select::parse_table_reference_inner select::parse_select update::parse_update with_query::parse_with_query
