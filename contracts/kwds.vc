## written by tools/kwds.py: each node stands for the keywords written at its span (P17)
@type IndexOption
@wf
[[kwds]] (x is IndexTypeBTree ==> crate::vx::kwt(s, x->IndexTypeBTree_0, crate::keywords::Keyword::BTREE))
[[kwds]] && (x is IndexTypeHash ==> crate::vx::kwt(s, x->IndexTypeHash_0, crate::keywords::Keyword::HASH))
[[kwds]] && (x is IndexTypeRTree ==> crate::vx::kwt(s, x->IndexTypeRTree_0, crate::keywords::Keyword::RTREE))
@type IndexType
@wf
[[kwds]] (x is Index ==> (crate::vx::kwt(s, x->Index_0, crate::keywords::Keyword::INDEX) || crate::vx::kwt(s, x->Index_0, crate::keywords::Keyword::KEY)))
[[kwds]] && (x is Primary ==> (crate::vx::kin(s, x->Primary_0, crate::keywords::Keyword::PRIMARY) && crate::vx::kin(s, x->Primary_0, crate::keywords::Keyword::KEY)))
[[kwds]] && (x is Unique ==> ((crate::vx::kin(s, x->Unique_0, crate::keywords::Keyword::UNIQUE) && crate::vx::kin(s, x->Unique_0, crate::keywords::Keyword::INDEX)) || (crate::vx::kin(s, x->Unique_0, crate::keywords::Keyword::UNIQUE) && crate::vx::kin(s, x->Unique_0, crate::keywords::Keyword::KEY))))
[[kwds]] && (x is FullText ==> ((crate::vx::kin(s, x->FullText_0, crate::keywords::Keyword::FULLTEXT) && crate::vx::kin(s, x->FullText_0, crate::keywords::Keyword::INDEX)) || (crate::vx::kin(s, x->FullText_0, crate::keywords::Keyword::FULLTEXT) && crate::vx::kin(s, x->FullText_0, crate::keywords::Keyword::KEY))))
[[kwds]] && (x is Spatial ==> ((crate::vx::kin(s, x->Spatial_0, crate::keywords::Keyword::SPATIAL) && crate::vx::kin(s, x->Spatial_0, crate::keywords::Keyword::INDEX)) || (crate::vx::kin(s, x->Spatial_0, crate::keywords::Keyword::SPATIAL) && crate::vx::kin(s, x->Spatial_0, crate::keywords::Keyword::KEY))))
@type ForeignKeyOnType
@wf
[[kwds]] (x is Update ==> (crate::vx::kin(s, x->Update_0, crate::keywords::Keyword::ON) && crate::vx::kin(s, x->Update_0, crate::keywords::Keyword::UPDATE)))
[[kwds]] && (x is Delete ==> (crate::vx::kin(s, x->Delete_0, crate::keywords::Keyword::ON) && crate::vx::kin(s, x->Delete_0, crate::keywords::Keyword::DELETE)))
@type ForeignKeyOnAction
@wf
[[kwds]] (x is Restrict ==> crate::vx::kwt(s, x->Restrict_0, crate::keywords::Keyword::RESTRICT))
[[kwds]] && (x is Cascade ==> crate::vx::kwt(s, x->Cascade_0, crate::keywords::Keyword::CASCADE))
[[kwds]] && (x is SetNull ==> (crate::vx::kin(s, x->SetNull_0, crate::keywords::Keyword::SET) && crate::vx::kin(s, x->SetNull_0, crate::keywords::Keyword::NULL)))
[[kwds]] && (x is NoAction ==> (crate::vx::kin(s, x->NoAction_0, crate::keywords::Keyword::NO) && crate::vx::kin(s, x->NoAction_0, crate::keywords::Keyword::ACTION)))
[[kwds]] && (x is SetDefault ==> (crate::vx::kin(s, x->SetDefault_0, crate::keywords::Keyword::SET) && crate::vx::kin(s, x->SetDefault_0, crate::keywords::Keyword::DEFAULT)))
@type AlterColumnAction
@wf
[[kwds]] (x is SetDefault ==> (crate::vx::kin(s, x->SetDefault_set_default_span, crate::keywords::Keyword::SET) && crate::vx::kin(s, x->SetDefault_set_default_span, crate::keywords::Keyword::DEFAULT)))
[[kwds]] && (x is DropDefault ==> (crate::vx::kin(s, x->DropDefault_drop_default_span, crate::keywords::Keyword::DROP) && crate::vx::kin(s, x->DropDefault_drop_default_span, crate::keywords::Keyword::DEFAULT)))
[[kwds]] && (x is Type ==> crate::vx::kwt(s, x->Type_type_span, crate::keywords::Keyword::TYPE))
[[kwds]] && (x is SetNotNull ==> (crate::vx::kin(s, x->SetNotNull_set_not_null_span, crate::keywords::Keyword::SET) && crate::vx::kin(s, x->SetNotNull_set_not_null_span, crate::keywords::Keyword::NOT) && crate::vx::kin(s, x->SetNotNull_set_not_null_span, crate::keywords::Keyword::NULL)))
[[kwds]] && (x is DropNotNull ==> (crate::vx::kin(s, x->DropNotNull_drop_not_null_span, crate::keywords::Keyword::DROP) && crate::vx::kin(s, x->DropNotNull_drop_not_null_span, crate::keywords::Keyword::NOT) && crate::vx::kin(s, x->DropNotNull_drop_not_null_span, crate::keywords::Keyword::NULL)))
@type AlterSpecification
@wf
[[kwds]] (x is AddColumn ==> crate::vx::kwt(s, x->AddColumn_add_span, crate::keywords::Keyword::ADD))
[[kwds]] && (x is AddIndex ==> crate::vx::kwt(s, x->AddIndex_add_span, crate::keywords::Keyword::ADD))
[[kwds]] && (x is AddForeignKey ==> crate::vx::kwt(s, x->AddForeignKey_add_span, crate::keywords::Keyword::ADD))
[[kwds]] && (x is AddForeignKey ==> (crate::vx::kin(s, x->AddForeignKey_foreign_key_span, crate::keywords::Keyword::FOREIGN) && crate::vx::kin(s, x->AddForeignKey_foreign_key_span, crate::keywords::Keyword::KEY)))
[[kwds]] && (x is AddForeignKey ==> crate::vx::kwt(s, x->AddForeignKey_references_span, crate::keywords::Keyword::REFERENCES))
[[kwds]] && (x is Modify ==> (crate::vx::kwt(s, x->Modify_modify_span, crate::keywords::Keyword::MODIFY) || (crate::vx::kin(s, x->Modify_modify_span, crate::keywords::Keyword::MODIFY) && crate::vx::kin(s, x->Modify_modify_span, crate::keywords::Keyword::COLUMN))))
[[kwds]] && (x is DropColumn ==> (crate::vx::kin(s, x->DropColumn_drop_column_span, crate::keywords::Keyword::DROP) && crate::vx::kin(s, x->DropColumn_drop_column_span, crate::keywords::Keyword::COLUMN)))
[[kwds]] && (x is AlterColumn ==> (crate::vx::kin(s, x->AlterColumn_alter_column_span, crate::keywords::Keyword::ALTER) && crate::vx::kin(s, x->AlterColumn_alter_column_span, crate::keywords::Keyword::COLUMN)))
[[kwds]] && (x is OwnerTo ==> (crate::vx::kin(s, x->OwnerTo_span, crate::keywords::Keyword::OWNER) && crate::vx::kin(s, x->OwnerTo_span, crate::keywords::Keyword::TO)))
@type AlterTable
@wf
[[kwds]] crate::vx::kwt(s, x.table_span, crate::keywords::Keyword::TABLE)
[[kwds]] && (x.if_exists is Some ==> (crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::EXISTS)))
@type TableOption
@wf
[[kwds]] (x is AutoExtendSize ==> crate::vx::kwt(s, x->AutoExtendSize_identifier, crate::keywords::Keyword::AUTOEXTEND_SIZE))
[[kwds]] && (x is AutoIncrement ==> crate::vx::kwt(s, x->AutoIncrement_identifier, crate::keywords::Keyword::AUTO_INCREMENT))
[[kwds]] && (x is AvgRowLength ==> crate::vx::kwt(s, x->AvgRowLength_identifier, crate::keywords::Keyword::AVG_ROW_LENGTH))
[[kwds]] && (x is CharSet ==> crate::vx::kwt(s, x->CharSet_identifier, crate::keywords::Keyword::CHARSET))
[[kwds]] && (x is DefaultCharSet ==> crate::vx::kwt(s, x->DefaultCharSet_identifier, crate::keywords::Keyword::DEFAULT))
[[kwds]] && (x is Checksum ==> crate::vx::kwt(s, x->Checksum_identifier, crate::keywords::Keyword::CHECKSUM))
[[kwds]] && (x is Collate ==> crate::vx::kwt(s, x->Collate_identifier, crate::keywords::Keyword::COLLATE))
[[kwds]] && (x is DefaultCollate ==> crate::vx::kwt(s, x->DefaultCollate_identifier, crate::keywords::Keyword::DEFAULT))
[[kwds]] && (x is Comment ==> crate::vx::kwt(s, x->Comment_identifier, crate::keywords::Keyword::COMMENT))
[[kwds]] && (x is Connection ==> crate::vx::kwt(s, x->Connection_identifier, crate::keywords::Keyword::CONNECTION))
[[kwds]] && (x is DelayKeyWrite ==> crate::vx::kwt(s, x->DelayKeyWrite_identifier, crate::keywords::Keyword::DELAY_KEY_WRITE))
[[kwds]] && (x is Engine ==> crate::vx::kwt(s, x->Engine_identifier, crate::keywords::Keyword::ENGINE))
[[kwds]] && (x is InsertMethod ==> crate::vx::kwt(s, x->InsertMethod_identifier, crate::keywords::Keyword::INSERT_METHOD))
[[kwds]] && (x is KeyBlockSize ==> crate::vx::kwt(s, x->KeyBlockSize_identifier, crate::keywords::Keyword::KEY_BLOCK_SIZE))
[[kwds]] && (x is MaxRows ==> crate::vx::kwt(s, x->MaxRows_identifier, crate::keywords::Keyword::MAX_ROWS))
[[kwds]] && (x is MinRows ==> crate::vx::kwt(s, x->MinRows_identifier, crate::keywords::Keyword::MIN_ROWS))
[[kwds]] && (x is Password ==> crate::vx::kwt(s, x->Password_identifier, crate::keywords::Keyword::PASSWORD))
[[kwds]] && (x is RowFormat ==> crate::vx::kwt(s, x->RowFormat_identifier, crate::keywords::Keyword::ROW_FORMAT))
[[kwds]] && (x is Strict ==> crate::vx::kwt(s, x->Strict_identifier, crate::keywords::Keyword::STRICT))
@type CreateDefinition
@wf
[[kwds]] (x is ConstraintDefinition ==> crate::vx::kwt(s, x->ConstraintDefinition_span, crate::keywords::Keyword::CONSTRAINT))
@type CreateAlgorithm
@wf
[[kwds]] (x is Undefined ==> crate::vx::kwt(s, x->Undefined_0, crate::keywords::Keyword::UNDEFINED))
[[kwds]] && (x is Merge ==> crate::vx::kwt(s, x->Merge_0, crate::keywords::Keyword::MERGE))
[[kwds]] && (x is TempTable ==> crate::vx::kwt(s, x->TempTable_0, crate::keywords::Keyword::TEMPTABLE))
@type CreateOption
@wf
[[kwds]] (x is OrReplace ==> (crate::vx::kin(s, x->OrReplace_0, crate::keywords::Keyword::OR) && crate::vx::kin(s, x->OrReplace_0, crate::keywords::Keyword::REPLACE)))
[[kwds]] && (x is Temporary ==> crate::vx::kwt(s, x->Temporary_0, crate::keywords::Keyword::TEMPORARY))
[[kwds]] && (x is Unique ==> crate::vx::kwt(s, x->Unique_0, crate::keywords::Keyword::UNIQUE))
[[kwds]] && (x is Algorithm ==> crate::vx::kwt(s, x->Algorithm_0, crate::keywords::Keyword::ALGORITHM))
[[kwds]] && (x is Definer ==> crate::vx::kwt(s, x->Definer_definer_span, crate::keywords::Keyword::DEFINER))
[[kwds]] && (x is SqlSecurityDefiner ==> (crate::vx::kin(s, x->SqlSecurityDefiner_0, crate::keywords::Keyword::SQL) && crate::vx::kin(s, x->SqlSecurityDefiner_0, crate::keywords::Keyword::SECURITY)))
[[kwds]] && (x is SqlSecurityDefiner ==> crate::vx::kwt(s, x->SqlSecurityDefiner_1, crate::keywords::Keyword::DEFINER))
[[kwds]] && (x is SqlSecurityUser ==> (crate::vx::kin(s, x->SqlSecurityUser_0, crate::keywords::Keyword::SQL) && crate::vx::kin(s, x->SqlSecurityUser_0, crate::keywords::Keyword::SECURITY)))
[[kwds]] && (x is SqlSecurityUser ==> crate::vx::kwt(s, x->SqlSecurityUser_1, crate::keywords::Keyword::USER))
@type CreateTable
@wf
[[kwds]] crate::vx::kwt(s, x.table_span, crate::keywords::Keyword::TABLE)
[[kwds]] && (x.if_not_exists is Some ==> (crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::NOT) && crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::EXISTS)))
@type CreateView
@wf
[[kwds]] crate::vx::kwt(s, x.view_span, crate::keywords::Keyword::VIEW)
[[kwds]] && (x.if_not_exists is Some ==> (crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::NOT) && crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::EXISTS)))
[[kwds]] && crate::vx::kwt(s, x.as_span, crate::keywords::Keyword::AS)
@type FunctionCharacteristic
@wf
[[kwds]] (x is LanguageSql ==> (crate::vx::kin(s, x->LanguageSql_0, crate::keywords::Keyword::LANGUAGE) && crate::vx::kin(s, x->LanguageSql_0, crate::keywords::Keyword::SQL)))
[[kwds]] && (x is LanguagePlpgsql ==> (crate::vx::kin(s, x->LanguagePlpgsql_0, crate::keywords::Keyword::LANGUAGE) && crate::vx::kin(s, x->LanguagePlpgsql_0, crate::keywords::Keyword::PLPGSQL)))
[[kwds]] && (x is NotDeterministic ==> (crate::vx::kin(s, x->NotDeterministic_0, crate::keywords::Keyword::NOT) && crate::vx::kin(s, x->NotDeterministic_0, crate::keywords::Keyword::DETERMINISTIC)))
[[kwds]] && (x is Deterministic ==> crate::vx::kwt(s, x->Deterministic_0, crate::keywords::Keyword::DETERMINISTIC))
[[kwds]] && (x is ContainsSql ==> (crate::vx::kin(s, x->ContainsSql_0, crate::keywords::Keyword::CONTAINS) && crate::vx::kin(s, x->ContainsSql_0, crate::keywords::Keyword::SQL)))
[[kwds]] && (x is NoSql ==> (crate::vx::kin(s, x->NoSql_0, crate::keywords::Keyword::NO) && crate::vx::kin(s, x->NoSql_0, crate::keywords::Keyword::SQL)))
[[kwds]] && (x is ReadsSqlData ==> (crate::vx::kin(s, x->ReadsSqlData_0, crate::keywords::Keyword::READS) && crate::vx::kin(s, x->ReadsSqlData_0, crate::keywords::Keyword::SQL) && crate::vx::kin(s, x->ReadsSqlData_0, crate::keywords::Keyword::DATA)))
[[kwds]] && (x is ModifiesSqlData ==> (crate::vx::kin(s, x->ModifiesSqlData_0, crate::keywords::Keyword::MODIFIES) && crate::vx::kin(s, x->ModifiesSqlData_0, crate::keywords::Keyword::SQL) && crate::vx::kin(s, x->ModifiesSqlData_0, crate::keywords::Keyword::DATA)))
[[kwds]] && (x is SqlSecurityDefiner ==> (crate::vx::kin(s, x->SqlSecurityDefiner_0, crate::keywords::Keyword::SQL) && crate::vx::kin(s, x->SqlSecurityDefiner_0, crate::keywords::Keyword::SECURITY) && crate::vx::kin(s, x->SqlSecurityDefiner_0, crate::keywords::Keyword::DEFINER)))
[[kwds]] && (x is SqlSecurityUser ==> (crate::vx::kin(s, x->SqlSecurityUser_0, crate::keywords::Keyword::SQL) && crate::vx::kin(s, x->SqlSecurityUser_0, crate::keywords::Keyword::SECURITY) && crate::vx::kin(s, x->SqlSecurityUser_0, crate::keywords::Keyword::USER)))
@type FunctionParamDirection
@wf
[[kwds]] (x is In ==> crate::vx::kwt(s, x->In_0, crate::keywords::Keyword::IN))
[[kwds]] && (x is Out ==> crate::vx::kwt(s, x->Out_0, crate::keywords::Keyword::OUT))
[[kwds]] && (x is InOut ==> (crate::vx::kwt(s, x->InOut_0, crate::keywords::Keyword::INOUT) || (crate::vx::kin(s, x->InOut_0, crate::keywords::Keyword::IN) && crate::vx::kin(s, x->InOut_0, crate::keywords::Keyword::OUT))))
@type CreateFunction
@wf
[[kwds]] crate::vx::kwt(s, x.function_span, crate::keywords::Keyword::FUNCTION)
[[kwds]] && (x.if_not_exists is Some ==> (crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::NOT) && crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::EXISTS)))
[[kwds]] && crate::vx::kwt(s, x.returns_span, crate::keywords::Keyword::RETURNS)
@type TriggerTime
@wf
[[kwds]] (x is Before ==> crate::vx::kwt(s, x->Before_0, crate::keywords::Keyword::BEFORE))
[[kwds]] && (x is After ==> crate::vx::kwt(s, x->After_0, crate::keywords::Keyword::AFTER))
@type TriggerEvent
@wf
[[kwds]] (x is Update ==> crate::vx::kwt(s, x->Update_0, crate::keywords::Keyword::UPDATE))
[[kwds]] && (x is Insert ==> crate::vx::kwt(s, x->Insert_0, crate::keywords::Keyword::INSERT))
[[kwds]] && (x is Delete ==> crate::vx::kwt(s, x->Delete_0, crate::keywords::Keyword::DELETE))
@type CreateTrigger
@wf
[[kwds]] crate::vx::kwt(s, x.trigger_span, crate::keywords::Keyword::TRIGGER)
[[kwds]] && (x.if_not_exists is Some ==> (crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::NOT) && crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::EXISTS)))
[[kwds]] && crate::vx::kwt(s, x.on_span, crate::keywords::Keyword::ON)
[[kwds]] && (crate::vx::kin(s, x.for_each_row_span, crate::keywords::Keyword::FOR) && crate::vx::kin(s, x.for_each_row_span, crate::keywords::Keyword::EACH) && crate::vx::kin(s, x.for_each_row_span, crate::keywords::Keyword::ROW))
@type CreateTypeEnum
@wf
[[kwds]] crate::vx::kwt(s, x.type_span, crate::keywords::Keyword::TYPE)
[[kwds]] && (crate::vx::kin(s, x.as_enum_span, crate::keywords::Keyword::AS) && crate::vx::kin(s, x.as_enum_span, crate::keywords::Keyword::ENUM))
@type CreateIndexOption
@wf
[[kwds]] (x is UsingGist ==> (crate::vx::kin(s, x->UsingGist_0, crate::keywords::Keyword::USING) && crate::vx::kin(s, x->UsingGist_0, crate::keywords::Keyword::GIST)))
@type CreateIndex
@wf
[[kwds]] crate::vx::kwt(s, x.index_span, crate::keywords::Keyword::INDEX)
[[kwds]] && (x.if_not_exists is Some ==> (crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::NOT) && crate::vx::kin(s, x.if_not_exists->Some_0, crate::keywords::Keyword::EXISTS)))
[[kwds]] && crate::vx::kwt(s, x.on_span, crate::keywords::Keyword::ON)
[[kwds]] && crate::vx::symt(s, x.l_paren_span, crate::lexer::Token::LParen)
[[kwds]] && crate::vx::symt(s, x.r_paren_span, crate::lexer::Token::RParen)
[[kwds]] && (x.where_ is Some ==> crate::vx::kwt(s, x.where_->Some_0.0, crate::keywords::Keyword::WHERE))
@type DataTypeProperty
@wf
[[kwds]] (x is Signed ==> crate::vx::kwt(s, x->Signed_0, crate::keywords::Keyword::SIGNED))
[[kwds]] && (x is Unsigned ==> crate::vx::kwt(s, x->Unsigned_0, crate::keywords::Keyword::UNSIGNED))
[[kwds]] && (x is Zerofill ==> crate::vx::kwt(s, x->Zerofill_0, crate::keywords::Keyword::ZEROFILL))
[[kwds]] && (x is Null ==> crate::vx::kwt(s, x->Null_0, crate::keywords::Keyword::NULL))
[[kwds]] && (x is NotNull ==> (crate::vx::kin(s, x->NotNull_0, crate::keywords::Keyword::NOT) && crate::vx::kin(s, x->NotNull_0, crate::keywords::Keyword::NULL)))
[[kwds]] && (x is Virtual ==> crate::vx::kwt(s, x->Virtual_0, crate::keywords::Keyword::VIRTUAL))
[[kwds]] && (x is Persistent ==> crate::vx::kwt(s, x->Persistent_0, crate::keywords::Keyword::PERSISTENT))
[[kwds]] && (x is Stored ==> crate::vx::kwt(s, x->Stored_0, crate::keywords::Keyword::STORED))
[[kwds]] && (x is Unique ==> crate::vx::kwt(s, x->Unique_0, crate::keywords::Keyword::UNIQUE))
[[kwds]] && (x is UniqueKey ==> (crate::vx::kin(s, x->UniqueKey_0, crate::keywords::Keyword::UNIQUE) && crate::vx::kin(s, x->UniqueKey_0, crate::keywords::Keyword::KEY)))
[[kwds]] && (x is GeneratedAlways ==> (crate::vx::kin(s, x->GeneratedAlways_0, crate::keywords::Keyword::GENERATED) && crate::vx::kin(s, x->GeneratedAlways_0, crate::keywords::Keyword::ALWAYS)))
[[kwds]] && (x is AutoIncrement ==> crate::vx::kwt(s, x->AutoIncrement_0, crate::keywords::Keyword::AUTO_INCREMENT))
[[kwds]] && (x is PrimaryKey ==> (crate::vx::kin(s, x->PrimaryKey_0, crate::keywords::Keyword::PRIMARY) && crate::vx::kin(s, x->PrimaryKey_0, crate::keywords::Keyword::KEY)))
[[kwds]] && (x is As ==> crate::vx::kwt(s, x->As_0.0, crate::keywords::Keyword::AS))
[[kwds]] && (x is Check ==> crate::vx::kwt(s, x->Check_0.0, crate::keywords::Keyword::CHECK))
@type Timestamp
@wf
[[kwds]] (x.with_time_zone is Some ==> (crate::vx::kin(s, x.with_time_zone->Some_0, crate::keywords::Keyword::WITH) && crate::vx::kin(s, x.with_time_zone->Some_0, crate::keywords::Keyword::TIME) && crate::vx::kin(s, x.with_time_zone->Some_0, crate::keywords::Keyword::ZONE)))
@type DataType
@wf
[[kwds]] crate::vx::tykw(s, x.identifier, x.type_)
@type DeleteFlag
@wf
[[kwds]] (x is LowPriority ==> crate::vx::kwt(s, x->LowPriority_0, crate::keywords::Keyword::LOW_PRIORITY))
[[kwds]] && (x is Quick ==> crate::vx::kwt(s, x->Quick_0, crate::keywords::Keyword::QUICK))
[[kwds]] && (x is Ignore ==> crate::vx::kwt(s, x->Ignore_0, crate::keywords::Keyword::IGNORE))
@type Delete
@wf
[[kwds]] crate::vx::kwt(s, x.delete_span, crate::keywords::Keyword::DELETE)
[[kwds]] && crate::vx::kwt(s, x.from_span, crate::keywords::Keyword::FROM)
[[kwds]] && (x.where_ is Some ==> crate::vx::kwt(s, x.where_->Some_0.1, crate::keywords::Keyword::WHERE))
[[kwds]] && (x.returning is Some ==> crate::vx::kwt(s, x.returning->Some_0.0, crate::keywords::Keyword::RETURNING))
@type DropTable
@wf
[[kwds]] crate::vx::kwt(s, x.drop_span, crate::keywords::Keyword::DROP)
[[kwds]] && crate::vx::kwt(s, x.table_span, crate::keywords::Keyword::TABLE)
[[kwds]] && (x.if_exists is Some ==> (crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::EXISTS)))
[[kwds]] && (x.temporary is Some ==> crate::vx::kwt(s, x.temporary->Some_0, crate::keywords::Keyword::TEMPORARY))
[[kwds]] && (x.cascade is Some ==> crate::vx::kwt(s, x.cascade->Some_0, crate::keywords::Keyword::CASCADE))
@type DropView
@wf
[[kwds]] crate::vx::kwt(s, x.drop_span, crate::keywords::Keyword::DROP)
[[kwds]] && crate::vx::kwt(s, x.view_span, crate::keywords::Keyword::VIEW)
[[kwds]] && (x.if_exists is Some ==> (crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::EXISTS)))
[[kwds]] && (x.temporary is Some ==> crate::vx::kwt(s, x.temporary->Some_0, crate::keywords::Keyword::TEMPORARY))
@type DropDatabase
@wf
[[kwds]] crate::vx::kwt(s, x.drop_span, crate::keywords::Keyword::DROP)
[[kwds]] && (crate::vx::kwt(s, x.database_span, crate::keywords::Keyword::DATABASE) || crate::vx::kwt(s, x.database_span, crate::keywords::Keyword::SCHEMA))
[[kwds]] && (x.if_exists is Some ==> (crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::EXISTS)))
@type DropEvent
@wf
[[kwds]] crate::vx::kwt(s, x.drop_span, crate::keywords::Keyword::DROP)
[[kwds]] && crate::vx::kwt(s, x.event_span, crate::keywords::Keyword::EVENT)
[[kwds]] && (x.if_exists is Some ==> (crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::EXISTS)))
@type DropFunction
@wf
[[kwds]] crate::vx::kwt(s, x.drop_span, crate::keywords::Keyword::DROP)
[[kwds]] && crate::vx::kwt(s, x.function_span, crate::keywords::Keyword::FUNCTION)
[[kwds]] && (x.if_exists is Some ==> (crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::EXISTS)))
@type DropProcedure
@wf
[[kwds]] crate::vx::kwt(s, x.drop_span, crate::keywords::Keyword::DROP)
[[kwds]] && crate::vx::kwt(s, x.procedure_span, crate::keywords::Keyword::PROCEDURE)
[[kwds]] && (x.if_exists is Some ==> (crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::EXISTS)))
@type DropServer
@wf
[[kwds]] crate::vx::kwt(s, x.drop_span, crate::keywords::Keyword::DROP)
[[kwds]] && crate::vx::kwt(s, x.server_span, crate::keywords::Keyword::SERVER)
[[kwds]] && (x.if_exists is Some ==> (crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::EXISTS)))
@type DropTrigger
@wf
[[kwds]] crate::vx::kwt(s, x.drop_span, crate::keywords::Keyword::DROP)
[[kwds]] && crate::vx::kwt(s, x.trigger_span, crate::keywords::Keyword::TRIGGER)
[[kwds]] && (x.if_exists is Some ==> (crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::EXISTS)))
@type DropIndex
@wf
[[kwds]] crate::vx::kwt(s, x.drop_span, crate::keywords::Keyword::DROP)
[[kwds]] && crate::vx::kwt(s, x.index_span, crate::keywords::Keyword::INDEX)
[[kwds]] && (x.if_exists is Some ==> (crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::IF) && crate::vx::kin(s, x.if_exists->Some_0, crate::keywords::Keyword::EXISTS)))
[[kwds]] && (x.on is Some ==> crate::vx::kwt(s, x.on->Some_0.0, crate::keywords::Keyword::ON))
@type InsertReplaceFlag
@wf
[[kwds]] (x is LowPriority ==> crate::vx::kwt(s, x->LowPriority_0, crate::keywords::Keyword::LOW_PRIORITY))
[[kwds]] && (x is HighPriority ==> crate::vx::kwt(s, x->HighPriority_0, crate::keywords::Keyword::HIGH_PRIORITY))
[[kwds]] && (x is Delayed ==> crate::vx::kwt(s, x->Delayed_0, crate::keywords::Keyword::DELAYED))
[[kwds]] && (x is Ignore ==> crate::vx::kwt(s, x->Ignore_0, crate::keywords::Keyword::IGNORE))
@type InsertReplaceType
@wf
[[kwds]] (x is Insert ==> crate::vx::kwt(s, x->Insert_0, crate::keywords::Keyword::INSERT))
[[kwds]] && (x is Replace ==> crate::vx::kwt(s, x->Replace_0, crate::keywords::Keyword::REPLACE))
@type OnConflictTarget
@wf
[[kwds]] (x is OnConstraint ==> (crate::vx::kin(s, x->OnConstraint_on_constraint_span, crate::keywords::Keyword::ON) && crate::vx::kin(s, x->OnConstraint_on_constraint_span, crate::keywords::Keyword::CONSTRAINT)))
@type OnConflictAction
@wf
[[kwds]] (x is DoNothing ==> (crate::vx::kin(s, x->DoNothing_0, crate::keywords::Keyword::DO) && crate::vx::kin(s, x->DoNothing_0, crate::keywords::Keyword::NOTHING)))
[[kwds]] && (x is DoUpdateSet ==> (crate::vx::kin(s, x->DoUpdateSet_do_update_set_span, crate::keywords::Keyword::DO) && crate::vx::kin(s, x->DoUpdateSet_do_update_set_span, crate::keywords::Keyword::UPDATE) && crate::vx::kin(s, x->DoUpdateSet_do_update_set_span, crate::keywords::Keyword::SET)))
[[kwds]] && (x is DoUpdateSet && x->DoUpdateSet_where_ is Some ==> crate::vx::kwt(s, x->DoUpdateSet_where_->Some_0.0, crate::keywords::Keyword::WHERE))
@type OnConflict
@wf
[[kwds]] (crate::vx::kin(s, x.on_conflict_span, crate::keywords::Keyword::ON) && crate::vx::kin(s, x.on_conflict_span, crate::keywords::Keyword::CONFLICT))
@type InsertReplaceSetPair
@wf
[[kwds]] crate::vx::symt(s, x.equal_span, crate::lexer::Token::Eq)
@type InsertReplaceSet
@wf
[[kwds]] crate::vx::kwt(s, x.set_span, crate::keywords::Keyword::SET)
@type InsertReplaceOnDuplicateKeyUpdate
@wf
[[kwds]] (crate::vx::kin(s, x.on_duplicate_key_update_span, crate::keywords::Keyword::ON) && crate::vx::kin(s, x.on_duplicate_key_update_span, crate::keywords::Keyword::DUPLICATE) && crate::vx::kin(s, x.on_duplicate_key_update_span, crate::keywords::Keyword::KEY) && crate::vx::kin(s, x.on_duplicate_key_update_span, crate::keywords::Keyword::UPDATE))
@type InsertReplace
@wf
[[kwds]] (x.into_span is Some ==> crate::vx::kwt(s, x.into_span->Some_0, crate::keywords::Keyword::INTO))
[[kwds]] && (x.values is Some ==> (crate::vx::kwt(s, x.values->Some_0.0, crate::keywords::Keyword::VALUE) || crate::vx::kwt(s, x.values->Some_0.0, crate::keywords::Keyword::VALUES)))
[[kwds]] && (x.returning is Some ==> crate::vx::kwt(s, x.returning->Some_0.0, crate::keywords::Keyword::RETURNING))
@type TableToTable
@wf
[[kwds]] crate::vx::kwt(s, x.to_span, crate::keywords::Keyword::TO)
@type RenameTable
@wf
[[kwds]] crate::vx::kwt(s, x.rename_span, crate::keywords::Keyword::RENAME)
[[kwds]] && (x.table_span is Some ==> crate::vx::kwt(s, x.table_span->Some_0, crate::keywords::Keyword::TABLE))
@type TruncateTable
@wf
[[kwds]] crate::vx::kwt(s, x.truncate_span, crate::keywords::Keyword::TRUNCATE)
[[kwds]] && (x.table_span is Some ==> crate::vx::kwt(s, x.table_span->Some_0, crate::keywords::Keyword::TABLE))
@type UpdateFlag
@wf
[[kwds]] (x is LowPriority ==> crate::vx::kwt(s, x->LowPriority_0, crate::keywords::Keyword::LOW_PRIORITY))
[[kwds]] && (x is Ignore ==> crate::vx::kwt(s, x->Ignore_0, crate::keywords::Keyword::IGNORE))
@type Update
@wf
[[kwds]] crate::vx::kwt(s, x.update_span, crate::keywords::Keyword::UPDATE)
[[kwds]] && crate::vx::kwt(s, x.set_span, crate::keywords::Keyword::SET)
[[kwds]] && (x.where_ is Some ==> crate::vx::kwt(s, x.where_->Some_0.1, crate::keywords::Keyword::WHERE))
[[kwds]] && (x.returning is Some ==> crate::vx::kwt(s, x.returning->Some_0.0, crate::keywords::Keyword::RETURNING))
@type WithBlock
@wf
[[kwds]] crate::vx::kwt(s, x.as_span, crate::keywords::Keyword::AS)
[[kwds]] && crate::vx::symt(s, x.lparen_span, crate::lexer::Token::LParen)
[[kwds]] && crate::vx::symt(s, x.rparen_span, crate::lexer::Token::RParen)
@type WithQuery
@wf
[[kwds]] crate::vx::kwt(s, x.with_span, crate::keywords::Keyword::WITH)
@type JoinSpecification
@wf
[[kwds]] (x is On ==> crate::vx::kwt(s, x->On_1, crate::keywords::Keyword::ON))
[[kwds]] && (x is Using ==> crate::vx::kwt(s, x->Using_1, crate::keywords::Keyword::USING))
@type JoinType
@wf
[[kwds]] (x is Inner ==> (crate::vx::kin(s, x->Inner_0, crate::keywords::Keyword::INNER) && crate::vx::kin(s, x->Inner_0, crate::keywords::Keyword::JOIN)))
[[kwds]] && (x is Cross ==> (crate::vx::kin(s, x->Cross_0, crate::keywords::Keyword::CROSS) && crate::vx::kin(s, x->Cross_0, crate::keywords::Keyword::JOIN)))
[[kwds]] && (x is Normal ==> crate::vx::kwt(s, x->Normal_0, crate::keywords::Keyword::JOIN))
[[kwds]] && (x is Straight ==> crate::vx::kwt(s, x->Straight_0, crate::keywords::Keyword::STRAIGHT_JOIN))
[[kwds]] && (x is Left ==> (crate::vx::kin(s, x->Left_0, crate::keywords::Keyword::LEFT) && crate::vx::kin(s, x->Left_0, crate::keywords::Keyword::JOIN)))
[[kwds]] && (x is Right ==> (crate::vx::kin(s, x->Right_0, crate::keywords::Keyword::RIGHT) && crate::vx::kin(s, x->Right_0, crate::keywords::Keyword::JOIN)))
[[kwds]] && (x is Natural ==> (crate::vx::kin(s, x->Natural_0, crate::keywords::Keyword::NATURAL) && crate::vx::kin(s, x->Natural_0, crate::keywords::Keyword::JOIN)))
[[kwds]] && (x is NaturalInner ==> (crate::vx::kin(s, x->NaturalInner_0, crate::keywords::Keyword::NATURAL) && crate::vx::kin(s, x->NaturalInner_0, crate::keywords::Keyword::INNER) && crate::vx::kin(s, x->NaturalInner_0, crate::keywords::Keyword::JOIN)))
[[kwds]] && (x is NaturalLeft ==> (crate::vx::kin(s, x->NaturalLeft_0, crate::keywords::Keyword::NATURAL) && crate::vx::kin(s, x->NaturalLeft_0, crate::keywords::Keyword::LEFT) && crate::vx::kin(s, x->NaturalLeft_0, crate::keywords::Keyword::JOIN)))
[[kwds]] && (x is NaturalRight ==> (crate::vx::kin(s, x->NaturalRight_0, crate::keywords::Keyword::NATURAL) && crate::vx::kin(s, x->NaturalRight_0, crate::keywords::Keyword::RIGHT) && crate::vx::kin(s, x->NaturalRight_0, crate::keywords::Keyword::JOIN)))
@type IndexHintUse
@wf
[[kwds]] (x is Use ==> crate::vx::kwt(s, x->Use_0, crate::keywords::Keyword::USE))
[[kwds]] && (x is Ignore ==> crate::vx::kwt(s, x->Ignore_0, crate::keywords::Keyword::IGNORE))
[[kwds]] && (x is Force ==> crate::vx::kwt(s, x->Force_0, crate::keywords::Keyword::FORCE))
@type IndexHintType
@wf
[[kwds]] (x is Index ==> crate::vx::kwt(s, x->Index_0, crate::keywords::Keyword::INDEX))
[[kwds]] && (x is Key ==> crate::vx::kwt(s, x->Key_0, crate::keywords::Keyword::KEY))
@type IndexHintFor
@wf
[[kwds]] (x is Join ==> crate::vx::kwt(s, x->Join_0, crate::keywords::Keyword::JOIN))
[[kwds]] && (x is OrderBy ==> (crate::vx::kin(s, x->OrderBy_0, crate::keywords::Keyword::ORDER) && crate::vx::kin(s, x->OrderBy_0, crate::keywords::Keyword::BY)))
[[kwds]] && (x is GroupBy ==> (crate::vx::kin(s, x->GroupBy_0, crate::keywords::Keyword::GROUP) && crate::vx::kin(s, x->GroupBy_0, crate::keywords::Keyword::BY)))
@type IndexHint
@wf
[[kwds]] (x.for_ is Some ==> crate::vx::kwt(s, x.for_->Some_0.0, crate::keywords::Keyword::FOR))
[[kwds]] && crate::vx::symt(s, x.lparen, crate::lexer::Token::LParen)
[[kwds]] && crate::vx::symt(s, x.rparen, crate::lexer::Token::RParen)
@type SelectFlag
@wf
[[kwds]] (x is All ==> crate::vx::kwt(s, x->All_0, crate::keywords::Keyword::ALL))
[[kwds]] && (x is Distinct ==> crate::vx::kwt(s, x->Distinct_0, crate::keywords::Keyword::DISTINCT))
[[kwds]] && (x is DistinctRow ==> crate::vx::kwt(s, x->DistinctRow_0, crate::keywords::Keyword::DISTINCTROW))
[[kwds]] && (x is HighPriority ==> crate::vx::kwt(s, x->HighPriority_0, crate::keywords::Keyword::HIGH_PRIORITY))
[[kwds]] && (x is StraightJoin ==> crate::vx::kwt(s, x->StraightJoin_0, crate::keywords::Keyword::STRAIGHT_JOIN))
[[kwds]] && (x is SqlSmallResult ==> crate::vx::kwt(s, x->SqlSmallResult_0, crate::keywords::Keyword::SQL_SMALL_RESULT))
[[kwds]] && (x is SqlBigResult ==> crate::vx::kwt(s, x->SqlBigResult_0, crate::keywords::Keyword::SQL_BIG_RESULT))
[[kwds]] && (x is SqlBufferResult ==> crate::vx::kwt(s, x->SqlBufferResult_0, crate::keywords::Keyword::SQL_BUFFER_RESULT))
[[kwds]] && (x is SqlNoCache ==> crate::vx::kwt(s, x->SqlNoCache_0, crate::keywords::Keyword::SQL_NO_CACHE))
[[kwds]] && (x is SqlCalcFoundRows ==> crate::vx::kwt(s, x->SqlCalcFoundRows_0, crate::keywords::Keyword::SQL_CALC_FOUND_ROWS))
@type OrderFlag
@wf
[[kwds]] (x is Asc ==> crate::vx::kwt(s, x->Asc_0, crate::keywords::Keyword::ASC))
[[kwds]] && (x is Desc ==> crate::vx::kwt(s, x->Desc_0, crate::keywords::Keyword::DESC))
@type LockStrength
@wf
[[kwds]] (x is Update ==> crate::vx::kwt(s, x->Update_0, crate::keywords::Keyword::UPDATE))
[[kwds]] && (x is Share ==> crate::vx::kwt(s, x->Share_0, crate::keywords::Keyword::SHARE))
[[kwds]] && (x is NoKeyUpdate ==> (crate::vx::kin(s, x->NoKeyUpdate_0, crate::keywords::Keyword::NO) && crate::vx::kin(s, x->NoKeyUpdate_0, crate::keywords::Keyword::KEY) && crate::vx::kin(s, x->NoKeyUpdate_0, crate::keywords::Keyword::UPDATE)))
[[kwds]] && (x is KeyShare ==> (crate::vx::kin(s, x->KeyShare_0, crate::keywords::Keyword::KEY) && crate::vx::kin(s, x->KeyShare_0, crate::keywords::Keyword::SHARE)))
@type LockWait
@wf
[[kwds]] (x is NoWait ==> crate::vx::kwt(s, x->NoWait_0, crate::keywords::Keyword::NOWAIT))
[[kwds]] && (x is SkipLocket ==> (crate::vx::kin(s, x->SkipLocket_0, crate::keywords::Keyword::SKIP) && crate::vx::kin(s, x->SkipLocket_0, crate::keywords::Keyword::LOCKED)))
@type Locking
@wf
[[kwds]] crate::vx::kwt(s, x.for_span, crate::keywords::Keyword::FOR)
[[kwds]] && (x.of is Some ==> crate::vx::kwt(s, x.of->Some_0.0, crate::keywords::Keyword::OF))
@type Select
@wf
[[kwds]] crate::vx::kwt(s, x.select_span, crate::keywords::Keyword::SELECT)
[[kwds]] && (x.from_span is Some ==> crate::vx::kwt(s, x.from_span->Some_0, crate::keywords::Keyword::FROM))
[[kwds]] && (x.where_ is Some ==> crate::vx::kwt(s, x.where_->Some_0.1, crate::keywords::Keyword::WHERE))
[[kwds]] && (x.group_by is Some ==> (crate::vx::kin(s, x.group_by->Some_0.0, crate::keywords::Keyword::GROUP) && crate::vx::kin(s, x.group_by->Some_0.0, crate::keywords::Keyword::BY)))
[[kwds]] && (x.having is Some ==> crate::vx::kwt(s, x.having->Some_0.1, crate::keywords::Keyword::HAVING))
[[kwds]] && (x.window_span is Some ==> crate::vx::kwt(s, x.window_span->Some_0, crate::keywords::Keyword::WINDOW))
[[kwds]] && (x.order_by is Some ==> (crate::vx::kin(s, x.order_by->Some_0.0, crate::keywords::Keyword::ORDER) && crate::vx::kin(s, x.order_by->Some_0.0, crate::keywords::Keyword::BY)))
[[kwds]] && (x.limit is Some ==> crate::vx::kwt(s, x.limit->Some_0.0, crate::keywords::Keyword::LIMIT))
@type TableReference
@wf
[[kwds]] (x is Table && x->Table_as_span is Some ==> crate::vx::kwt(s, x->Table_as_span->Some_0, crate::keywords::Keyword::AS))
[[kwds]] && (x is Query && x->Query_as_span is Some ==> crate::vx::kwt(s, x->Query_as_span->Some_0, crate::keywords::Keyword::AS))
@type Set
@wf
[[kwds]] crate::vx::kwt(s, x.set_span, crate::keywords::Keyword::SET)
@type IfCondition
@wf
[[kwds]] (x.elseif_span is Some ==> crate::vx::kwt(s, x.elseif_span->Some_0, crate::keywords::Keyword::ELSEIF))
[[kwds]] && crate::vx::kwt(s, x.then_span, crate::keywords::Keyword::THEN)
@type If
@wf
[[kwds]] crate::vx::kwt(s, x.if_span, crate::keywords::Keyword::IF)
[[kwds]] && (x.else_ is Some ==> crate::vx::kwt(s, x.else_->Some_0.0, crate::keywords::Keyword::ELSE))
[[kwds]] && (crate::vx::kin(s, x.endif_span, crate::keywords::Keyword::END) && crate::vx::kin(s, x.endif_span, crate::keywords::Keyword::IF))
@type Return
@wf
[[kwds]] crate::vx::kwt(s, x.return_span, crate::keywords::Keyword::RETURN)
@type SignalConditionInformationName
@wf
[[kwds]] (x is ClassOrigin ==> crate::vx::kwt(s, x->ClassOrigin_0, crate::keywords::Keyword::CLASS_ORIGIN))
[[kwds]] && (x is SubclassOrigin ==> crate::vx::kwt(s, x->SubclassOrigin_0, crate::keywords::Keyword::SUBCLASS_ORIGIN))
[[kwds]] && (x is MessageText ==> crate::vx::kwt(s, x->MessageText_0, crate::keywords::Keyword::MESSAGE_TEXT))
[[kwds]] && (x is MysqlErrno ==> crate::vx::kwt(s, x->MysqlErrno_0, crate::keywords::Keyword::MYSQL_ERRNO))
[[kwds]] && (x is ConstraintCatalog ==> crate::vx::kwt(s, x->ConstraintCatalog_0, crate::keywords::Keyword::CONSTRAINT_CATALOG))
[[kwds]] && (x is ConstraintSchema ==> crate::vx::kwt(s, x->ConstraintSchema_0, crate::keywords::Keyword::CONSTRAINT_SCHEMA))
[[kwds]] && (x is ConstraintName ==> crate::vx::kwt(s, x->ConstraintName_0, crate::keywords::Keyword::CONSTRAINT_NAME))
[[kwds]] && (x is CatalogName ==> crate::vx::kwt(s, x->CatalogName_0, crate::keywords::Keyword::CATALOG_NAME))
[[kwds]] && (x is SchemaName ==> crate::vx::kwt(s, x->SchemaName_0, crate::keywords::Keyword::SCHEMA_NAME))
[[kwds]] && (x is TableName ==> crate::vx::kwt(s, x->TableName_0, crate::keywords::Keyword::TABLE_NAME))
[[kwds]] && (x is ColumnName ==> crate::vx::kwt(s, x->ColumnName_0, crate::keywords::Keyword::COLUMN_NAME))
[[kwds]] && (x is CursorName ==> crate::vx::kwt(s, x->CursorName_0, crate::keywords::Keyword::CURSOR_NAME))
@type Signal
@wf
[[kwds]] crate::vx::kwt(s, x.signal_span, crate::keywords::Keyword::SIGNAL)
[[kwds]] && crate::vx::kwt(s, x.sqlstate_span, crate::keywords::Keyword::SQLSTATE)
[[kwds]] && (x.value_span is Some ==> crate::vx::kwt(s, x.value_span->Some_0, crate::keywords::Keyword::VALUE))
[[kwds]] && (x.set_span is Some ==> crate::vx::kwt(s, x.set_span->Some_0, crate::keywords::Keyword::SET))
@type Statement
@wf
[[kwds]] (x is Begin ==> (crate::vx::kwt(s, x->Begin_0, crate::keywords::Keyword::BEGIN) || crate::vx::symt(s, x->Begin_0, crate::lexer::Token::LParen)))
[[kwds]] && (x is End ==> crate::vx::kwt(s, x->End_0, crate::keywords::Keyword::END))
[[kwds]] && (x is Commit ==> crate::vx::kwt(s, x->Commit_0, crate::keywords::Keyword::COMMIT))
[[kwds]] && (x is StartTransaction ==> (crate::vx::kin(s, x->StartTransaction_0, crate::keywords::Keyword::START) && crate::vx::kin(s, x->StartTransaction_0, crate::keywords::Keyword::TRANSACTION)))
@type WhenStatement
@wf
[[kwds]] crate::vx::kwt(s, x.when_span, crate::keywords::Keyword::WHEN)
[[kwds]] && crate::vx::kwt(s, x.then_span, crate::keywords::Keyword::THEN)
@type CaseStatement
@wf
[[kwds]] crate::vx::kwt(s, x.case_span, crate::keywords::Keyword::CASE)
[[kwds]] && (x.else_ is Some ==> crate::vx::kwt(s, x.else_->Some_0.0, crate::keywords::Keyword::ELSE))
[[kwds]] && crate::vx::kwt(s, x.end_span, crate::keywords::Keyword::END)
@type UnionType
@wf
[[kwds]] (x is All ==> crate::vx::kwt(s, x->All_0, crate::keywords::Keyword::ALL))
[[kwds]] && (x is Distinct ==> crate::vx::kwt(s, x->Distinct_0, crate::keywords::Keyword::DISTINCT))
@type UnionWith
@wf
[[kwds]] crate::vx::kwt(s, x.union_span, crate::keywords::Keyword::UNION)
@type Union
@wf
[[kwds]] (x.order_by is Some ==> (crate::vx::kin(s, x.order_by->Some_0.0, crate::keywords::Keyword::ORDER) && crate::vx::kin(s, x.order_by->Some_0.0, crate::keywords::Keyword::BY)))
[[kwds]] && (x.limit is Some ==> crate::vx::kwt(s, x.limit->Some_0.0, crate::keywords::Keyword::LIMIT))
@type Copy
@wf
[[kwds]] crate::vx::kwt(s, x.copy_span, crate::keywords::Keyword::COPY)
[[kwds]] && crate::vx::kwt(s, x.from_span, crate::keywords::Keyword::FROM)
[[kwds]] && crate::vx::kwt(s, x.stdin_span, crate::keywords::Keyword::STDIN)
@type IdentifierPart
@wf
[[kwds]] (x is Star ==> crate::vx::symt(s, x->Star_0, crate::lexer::Token::Mul))
@type When
@wf
[[kwds]] crate::vx::kwt(s, x.when_span, crate::keywords::Keyword::WHEN)
[[kwds]] && crate::vx::kwt(s, x.then_span, crate::keywords::Keyword::THEN)
@type WindowSpec
@wf
[[kwds]] (crate::vx::kin(s, x.order_by.0, crate::keywords::Keyword::ORDER) && crate::vx::kin(s, x.order_by.0, crate::keywords::Keyword::BY))
@type Expression
@wf
[[kwds]] (x is Null ==> crate::vx::kwt(s, x->Null_0, crate::keywords::Keyword::NULL))
[[kwds]] && (x is Interval ==> crate::vx::kwt(s, x->Interval_interval_span, crate::keywords::Keyword::INTERVAL))
[[kwds]] && (x is Extract ==> crate::vx::kwt(s, x->Extract_extract_span, crate::keywords::Keyword::EXTRACT))
[[kwds]] && (x is Extract ==> crate::vx::kwt(s, x->Extract_from_span, crate::keywords::Keyword::FROM))
[[kwds]] && (x is Case ==> crate::vx::kwt(s, x->Case_case_span, crate::keywords::Keyword::CASE))
[[kwds]] && (x is Case ==> crate::vx::kwt(s, x->Case_end_span, crate::keywords::Keyword::END))
[[kwds]] && (x is Cast ==> crate::vx::kwt(s, x->Cast_cast_span, crate::keywords::Keyword::CAST))
[[kwds]] && (x is Cast ==> crate::vx::kwt(s, x->Cast_as_span, crate::keywords::Keyword::AS))
[[kwds]] && (x is Count ==> crate::vx::kwt(s, x->Count_count_span, crate::keywords::Keyword::COUNT))
[[kwds]] && (x is GroupConcat ==> crate::vx::kwt(s, x->GroupConcat_group_concat_span, crate::keywords::Keyword::GROUP_CONCAT))
[[kwds]] && (x is TimestampAdd ==> crate::vx::kwt(s, x->TimestampAdd_timestamp_add_span, crate::keywords::Keyword::TIMESTAMPADD))
[[kwds]] && (x is TimestampDiff ==> crate::vx::kwt(s, x->TimestampDiff_timestamp_diff_span, crate::keywords::Keyword::TIMESTAMPDIFF))
[[kwds]] && (x is WindowFunction ==> crate::vx::kwt(s, x->WindowFunction_over_span, crate::keywords::Keyword::OVER))
[[kwds]] && (x is Bool ==> if x->Bool_0 { crate::vx::kwt(s, x->Bool_1, crate::keywords::Keyword::TRUE) } else { crate::vx::kwt(s, x->Bool_1, crate::keywords::Keyword::FALSE) })
[[kwds]] && (x is Binary ==> crate::vx::binkw(s, x->Binary_op_span, x->Binary_op))
[[kwds]] && (x is Unary ==> crate::vx::unkw(s, x->Unary_op_span, x->Unary_op))
[[kwds]] && (x is Is ==> crate::vx::iskw(s, x->Is_2, x->Is_1))
[[kwds]] && (x is In ==> crate::vx::kin(s, x->In_in_span, crate::keywords::Keyword::IN) && (x->In_not_in ==> crate::vx::kin(s, x->In_in_span, crate::keywords::Keyword::NOT)) && (!x->In_not_in ==> crate::vx::kwt(s, x->In_in_span, crate::keywords::Keyword::IN)))
[[kwds]] && (x is Function ==> crate::vx::fnkw(s, x->Function_2, x->Function_0))
[[kwds]] && (x is WindowFunction ==> crate::vx::fnkw(s, x->WindowFunction_function_span, x->WindowFunction_function))
[[kwds]] && (x is Interval ==> crate::vx::unitkw(s, x->Interval_time_unit.1, x->Interval_time_unit.0))
[[kwds]] && (x is Extract ==> crate::vx::unitkw(s, x->Extract_time_unit.1, x->Extract_time_unit.0))
[[kwds]] && (x is TimestampAdd ==> crate::vx::unitkw(s, x->TimestampAdd_unit.1, x->TimestampAdd_unit.0))
[[kwds]] && (x is TimestampDiff ==> crate::vx::unitkw(s, x->TimestampDiff_unit.1, x->TimestampDiff_unit.0))
[[kwds]] && (x is Count && x->Count_distinct_span is Some ==> crate::vx::kwt(s, x->Count_distinct_span->Some_0, crate::keywords::Keyword::DISTINCT))
[[kwds]] && (x is GroupConcat && x->GroupConcat_distinct_span is Some ==> crate::vx::kwt(s, x->GroupConcat_distinct_span->Some_0, crate::keywords::Keyword::DISTINCT))
[[kwds]] && (x is Case && x->Case_else_ is Some ==> crate::vx::kwt(s, x->Case_else_->Some_0.0, crate::keywords::Keyword::ELSE))
[[kwds]] && (x is Variable && x->Variable_global is Some ==> crate::vx::symt(s, x->Variable_global->Some_0, crate::lexer::Token::AtAtGlobal))
[[kwds]] && (x is Variable && x->Variable_session is Some ==> crate::vx::symt(s, x->Variable_session->Some_0, crate::lexer::Token::AtAtSession))
[[kwds]] && (x is Variable && x->Variable_variable is TimeZone ==> crate::vx::kwt(s, x->Variable_variable_span, crate::keywords::Keyword::TIME_ZONE))
@fn select::parse_select
[[kwds]] @cut 1500
[[kwds]] ?select_span: crate::vx::kwt(crate::vx::src(*old(parser)), select_span, crate::keywords::Keyword::SELECT),
[[kwds]] ?from_span: (from_span is Some ==> crate::vx::kwt(crate::vx::src(*old(parser)), from_span->Some_0, crate::keywords::Keyword::FROM)),
[[kwds]] ?where_: (where_ is Some ==> crate::vx::kwt(crate::vx::src(*old(parser)), where_->Some_0.1, crate::keywords::Keyword::WHERE)),
[[kwds]] ?group_by: (group_by is Some ==> (crate::vx::kin(crate::vx::src(*old(parser)), group_by->Some_0.0, crate::keywords::Keyword::GROUP) && crate::vx::kin(crate::vx::src(*old(parser)), group_by->Some_0.0, crate::keywords::Keyword::BY))),
[[kwds]] ?having: (having is Some ==> crate::vx::kwt(crate::vx::src(*old(parser)), having->Some_0.1, crate::keywords::Keyword::HAVING)),
[[kwds]] ?window_span: (window_span is Some ==> crate::vx::kwt(crate::vx::src(*old(parser)), window_span->Some_0, crate::keywords::Keyword::WINDOW)),
[[kwds]] ?order_by: (order_by is Some ==> (crate::vx::kin(crate::vx::src(*old(parser)), order_by->Some_0.0, crate::keywords::Keyword::ORDER) && crate::vx::kin(crate::vx::src(*old(parser)), order_by->Some_0.0, crate::keywords::Keyword::BY))),
[[kwds]] ?limit: (limit is Some ==> crate::vx::kwt(crate::vx::src(*old(parser)), limit->Some_0.0, crate::keywords::Keyword::LIMIT)),
@fn insert_replace::parse_insert_replace
[[kwds]] @cut 1500
[[kwds]] ?into_span: (into_span is Some ==> crate::vx::kwt(crate::vx::src(*old(parser)), into_span->Some_0, crate::keywords::Keyword::INTO)),
[[kwds]] ?values: (values is Some ==> (crate::vx::kwt(crate::vx::src(*old(parser)), values->Some_0.0, crate::keywords::Keyword::VALUE) || crate::vx::kwt(crate::vx::src(*old(parser)), values->Some_0.0, crate::keywords::Keyword::VALUES))),
[[kwds]] ?returning: (returning is Some ==> crate::vx::kwt(crate::vx::src(*old(parser)), returning->Some_0.0, crate::keywords::Keyword::RETURNING)),
@fn parser::Parser::consume_keywords
@ensures
[[kwds]]    r is Ok ==> forall|i: int| #![trigger keywords@[i]] 0 <= i < keywords@.len() ==> crate::vx::kin(crate::vx::src(*old(self)), r->Ok_0, keywords@[i]) && crate::vx::kin(crate::vx::src(*old(self)), core::ops::Range { start: old(self).span.start, end: r->Ok_0.end }, keywords@[i]),
@fn expression::parse_time_unit
@ret r
@ensures
[[kwds]]    r is Some ==> forall|s: Seq<char>, q: core::ops::Range<usize>| #![trigger crate::vx::unitkw(s, q, r->Some_0)] crate::vx::tokat(s, *t, q) ==> crate::vx::unitkw(s, q, r->Some_0),
@fn expression::parse_function
@requires
[[kwds]]    t is Ident, crate::vx::tokat(crate::vx::src(*old(parser)), t, span),
@start
[[kwds]]    proof { reveal(crate::vx::fnkw); }
@fn expression::parse_expression
@start
[[kwds]]    proof { reveal(crate::vx::fnkw); }
@type ReduceMember
@wf
[[tok]] (x is Binary ==> crate::vx::binkw(s, x->Binary_1, x->Binary_0)) && (x is Unary ==> crate::vx::unkw(s, x->Unary_1, x->Unary_0))
@fn expression::Reducer::shift_binop
@ensures
[[tok]]    forall|s: Seq<char>| #![trigger crate::vx::Vx::vwf(&*old(self), s)] #![trigger crate::vx::Vx::vwf(&*final(self), s)] crate::vx::Vx::vwf(&*old(self), s) && crate::vx::Vx::vwf(&span, s) && crate::vx::binkw(s, span, op) ==> crate::vx::Vx::vwf(&*final(self), s),
@fn expression::Reducer::shift_unary
@ensures
[[tok]]    forall|s: Seq<char>| #![trigger crate::vx::Vx::vwf(&*old(self), s)] #![trigger crate::vx::Vx::vwf(&*final(self), s)] crate::vx::Vx::vwf(&*old(self), s) && crate::vx::Vx::vwf(&span, s) && crate::vx::unkw(s, span, op) ==> crate::vx::Vx::vwf(&*final(self), s),
@fn statement::parse_begin
@ensures
[[kwds]]    vxr is Ok ==> crate::vx::kwt(crate::vx::src(*old(parser)), vxr->Ok_0, crate::keywords::Keyword::BEGIN),
@fn statement::parse_end
@ensures
[[kwds]]    vxr is Ok ==> crate::vx::kwt(crate::vx::src(*old(parser)), vxr->Ok_0, crate::keywords::Keyword::END),
@fn statement::parse_commit
@ensures
[[kwds]]    vxr is Ok ==> crate::vx::kwt(crate::vx::src(*old(parser)), vxr->Ok_0, crate::keywords::Keyword::COMMIT),
@fn expression::parse_function
[[kwds]] @cut 1500
[[kwds]] ?func: crate::vx::fnkw(crate::vx::src(*old(parser)), span, func),
