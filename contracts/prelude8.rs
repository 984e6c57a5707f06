[[tok]] // ---------------------------------------------------------------- keywords (written by tools/kwds.py)
[[tok]] /// r is the span of a token of the text that is the keyword k
[[tok]] #[verifier::opaque] pub open spec fn kwt(s: Seq<char>, r: Range<usize>, k: Keyword) -> bool { exists|p: int, v: &str, q: int| 0 <= p <= s.len() && #[trigger] tok_next(s, p, Token::Ident(v, k), r, q) }
[[tok]] /// r is the span of a token of the text that is t
[[tok]] #[verifier::opaque] pub open spec fn symt(s: Seq<char>, r: Range<usize>, t: Token<'_>) -> bool { exists|p: int, q: int| 0 <= p <= s.len() && #[trigger] tok_next(s, p, t, r, q) }
[[tok]] /// the keyword k is a token within r
[[tok]] #[verifier::opaque] pub open spec fn kin(s: Seq<char>, r: Range<usize>, k: Keyword) -> bool { exists|a: Range<usize>| #[trigger] kwt(s, a, k) && r.start <= a.start && a.end <= r.end }
[[tok]] pub open spec fn tokat(s: Seq<char>, t: Token<'_>, r: Range<usize>) -> bool { symt(s, r, t) && (t is Ident ==> kwt(s, r, t->Ident_1)) }
[[tok]] pub broadcast proof fn l_tokat(s: Seq<char>, p: int, t: Token<'_>, r: Range<usize>, q: int)
[[tok]]     requires #[trigger] tok_next(s, p, t, r, q), 0 <= p <= s.len()
[[tok]]     ensures tokat(s, t, r)
[[tok]] { reveal(symt); reveal(kwt); if t is Ident { assert(t == Token::Ident(t->Ident_0, t->Ident_1)); } }
[[tok]] pub broadcast proof fn l_kin(s: Seq<char>, a: Range<usize>, r: Range<usize>, k: Keyword)
[[tok]]     requires #[trigger] kwt(s, a, k), r.start <= a.start, a.end <= r.end
[[tok]]     ensures #[trigger] kin(s, r, k)
[[tok]] { reveal(kin); }
[[tok]] pub broadcast proof fn l_kin2(s: Seq<char>, a: Range<usize>, r: Range<usize>, k: Keyword)
[[tok]]     requires #[trigger] kin(s, a, k), r.start <= a.start, a.end <= r.end
[[tok]]     ensures #[trigger] kin(s, r, k)
[[tok]] { reveal(kin); }
[[tok]] pub open spec fn nm(s: Seq<char>, v: Seq<char>, r: Range<usize>) -> bool { true }
[[kwds]] pub open spec fn tykw(s: Seq<char>, r: Range<usize>, t: crate::data_type::Type<'_>) -> bool {
[[kwds]]     &&& (t is Boolean ==> crate::vx::kwt(s, r, crate::keywords::Keyword::BOOLEAN))
[[kwds]]     &&& (t is TinyInt ==> crate::vx::kwt(s, r, crate::keywords::Keyword::TINYINT))
[[kwds]]     &&& (t is SmallInt ==> crate::vx::kwt(s, r, crate::keywords::Keyword::SMALLINT))
[[kwds]]     &&& (t is Integer ==> crate::vx::kwt(s, r, crate::keywords::Keyword::INTEGER))
[[kwds]]     &&& (t is Int ==> crate::vx::kwt(s, r, crate::keywords::Keyword::INT))
[[kwds]]     &&& (t is BigInt ==> crate::vx::kwt(s, r, crate::keywords::Keyword::BIGINT))
[[kwds]]     &&& (t is Char ==> crate::vx::kwt(s, r, crate::keywords::Keyword::CHAR))
[[kwds]]     &&& (t is VarChar ==> crate::vx::kwt(s, r, crate::keywords::Keyword::VARCHAR))
[[kwds]]     &&& (t is TinyText ==> crate::vx::kwt(s, r, crate::keywords::Keyword::TINYTEXT))
[[kwds]]     &&& (t is MediumText ==> crate::vx::kwt(s, r, crate::keywords::Keyword::MEDIUMTEXT))
[[kwds]]     &&& (t is Text ==> crate::vx::kwt(s, r, crate::keywords::Keyword::TEXT))
[[kwds]]     &&& (t is LongText ==> crate::vx::kwt(s, r, crate::keywords::Keyword::LONGTEXT))
[[kwds]]     &&& (t is Enum ==> crate::vx::kwt(s, r, crate::keywords::Keyword::ENUM))
[[kwds]]     &&& (t is Set ==> crate::vx::kwt(s, r, crate::keywords::Keyword::SET))
[[kwds]]     &&& (t is Float8 ==> crate::vx::kwt(s, r, crate::keywords::Keyword::FLOAT8))
[[kwds]]     &&& (t is Float ==> (crate::vx::kwt(s, r, crate::keywords::Keyword::FLOAT) || crate::vx::kwt(s, r, crate::keywords::Keyword::REAL)))
[[kwds]]     &&& (t is Double ==> (crate::vx::kwt(s, r, crate::keywords::Keyword::DOUBLE) || crate::vx::kwt(s, r, crate::keywords::Keyword::REAL) || (crate::vx::kin(s, r, crate::keywords::Keyword::DOUBLE) && crate::vx::kin(s, r, crate::keywords::Keyword::PRECISION))))
[[kwds]]     &&& (t is Numeric ==> crate::vx::kwt(s, r, crate::keywords::Keyword::NUMERIC))
[[kwds]]     &&& (t is DateTime ==> crate::vx::kwt(s, r, crate::keywords::Keyword::DATETIME))
[[kwds]]     &&& (t is Timestamp ==> crate::vx::kwt(s, r, crate::keywords::Keyword::TIMESTAMP))
[[kwds]]     &&& (t is Timestamptz ==> crate::vx::kwt(s, r, crate::keywords::Keyword::TIMESTAMPTZ))
[[kwds]]     &&& (t is Time ==> crate::vx::kwt(s, r, crate::keywords::Keyword::TIME))
[[kwds]]     &&& (t is TinyBlob ==> crate::vx::kwt(s, r, crate::keywords::Keyword::TINYBLOB))
[[kwds]]     &&& (t is MediumBlob ==> crate::vx::kwt(s, r, crate::keywords::Keyword::MEDIUMBLOB))
[[kwds]]     &&& (t is Date ==> crate::vx::kwt(s, r, crate::keywords::Keyword::DATE))
[[kwds]]     &&& (t is Blob ==> crate::vx::kwt(s, r, crate::keywords::Keyword::BLOB))
[[kwds]]     &&& (t is LongBlob ==> crate::vx::kwt(s, r, crate::keywords::Keyword::LONGBLOB))
[[kwds]]     &&& (t is VarBinary ==> crate::vx::kwt(s, r, crate::keywords::Keyword::VARBINARY))
[[kwds]]     &&& (t is Binary ==> crate::vx::kwt(s, r, crate::keywords::Keyword::BINARY))
[[kwds]]     &&& (t is Json ==> crate::vx::kwt(s, r, crate::keywords::Keyword::JSON))
[[kwds]]     &&& (t is Bit ==> crate::vx::kwt(s, r, crate::keywords::Keyword::BIT))
[[kwds]]     &&& (t is Bytea ==> crate::vx::kwt(s, r, crate::keywords::Keyword::BYTEA))
[[kwds]]     &&& (t is Inet4 ==> crate::vx::kwt(s, r, crate::keywords::Keyword::INET4))
[[kwds]]     &&& (t is Inet6 ==> crate::vx::kwt(s, r, crate::keywords::Keyword::INET6))
[[kwds]] }
[[tok]] pub open spec fn binkw(s: Seq<char>, r: Range<usize>, o: crate::expression::BinaryOperator) -> bool {
[[tok]]     &&& (o is Or ==> (crate::vx::kwt(s, r, crate::keywords::Keyword::OR) || crate::vx::symt(s, r, crate::lexer::Token::DoublePipe)))
[[tok]]     &&& (o is Xor ==> crate::vx::kwt(s, r, crate::keywords::Keyword::XOR))
[[tok]]     &&& (o is And ==> (crate::vx::kwt(s, r, crate::keywords::Keyword::AND) || crate::vx::symt(s, r, crate::lexer::Token::DoubleAmpersand)))
[[tok]]     &&& (o is Eq ==> crate::vx::symt(s, r, crate::lexer::Token::Eq))
[[tok]]     &&& (o is NullSafeEq ==> crate::vx::symt(s, r, crate::lexer::Token::Spaceship))
[[tok]]     &&& (o is GtEq ==> crate::vx::symt(s, r, crate::lexer::Token::GtEq))
[[tok]]     &&& (o is Gt ==> crate::vx::symt(s, r, crate::lexer::Token::Gt))
[[tok]]     &&& (o is LtEq ==> crate::vx::symt(s, r, crate::lexer::Token::LtEq))
[[tok]]     &&& (o is Lt ==> crate::vx::symt(s, r, crate::lexer::Token::Lt))
[[tok]]     &&& (o is Neq ==> crate::vx::symt(s, r, crate::lexer::Token::Neq))
[[tok]]     &&& (o is ShiftLeft ==> crate::vx::symt(s, r, crate::lexer::Token::ShiftLeft))
[[tok]]     &&& (o is ShiftRight ==> crate::vx::symt(s, r, crate::lexer::Token::ShiftRight))
[[tok]]     &&& (o is BitAnd ==> crate::vx::symt(s, r, crate::lexer::Token::Ampersand))
[[tok]]     &&& (o is BitOr ==> crate::vx::symt(s, r, crate::lexer::Token::Pipe))
[[tok]]     &&& (o is Add ==> crate::vx::symt(s, r, crate::lexer::Token::Plus))
[[tok]]     &&& (o is Subtract ==> crate::vx::symt(s, r, crate::lexer::Token::Minus))
[[tok]]     &&& (o is Divide ==> crate::vx::symt(s, r, crate::lexer::Token::Div))
[[tok]]     &&& (o is Mult ==> crate::vx::symt(s, r, crate::lexer::Token::Mul))
[[tok]]     &&& (o is Like ==> crate::vx::kwt(s, r, crate::keywords::Keyword::LIKE))
[[tok]]     &&& (o is NotLike ==> (crate::vx::kin(s, r, crate::keywords::Keyword::NOT) && crate::vx::kin(s, r, crate::keywords::Keyword::LIKE)))
[[tok]] }
[[tok]] pub open spec fn unkw(s: Seq<char>, r: Range<usize>, o: crate::expression::UnaryOperator) -> bool {
[[tok]]     &&& (o is Binary ==> crate::vx::kwt(s, r, crate::keywords::Keyword::BINARY))
[[tok]]     &&& (o is Collate ==> crate::vx::kwt(s, r, crate::keywords::Keyword::COLLATE))
[[tok]]     &&& (o is LogicalNot ==> crate::vx::symt(s, r, crate::lexer::Token::ExclamationMark))
[[tok]]     &&& (o is Minus ==> crate::vx::symt(s, r, crate::lexer::Token::Minus))
[[tok]]     &&& (o is Not ==> crate::vx::kwt(s, r, crate::keywords::Keyword::NOT))
[[tok]] }
[[tok]] pub open spec fn iskw(s: Seq<char>, r: Range<usize>, o: crate::expression::Is) -> bool {
[[tok]]     &&& (o is Null ==> (crate::vx::kin(s, r, crate::keywords::Keyword::IS) && crate::vx::kin(s, r, crate::keywords::Keyword::NULL)))
[[tok]]     &&& (o is NotNull ==> (crate::vx::kin(s, r, crate::keywords::Keyword::IS) && crate::vx::kin(s, r, crate::keywords::Keyword::NULL) && crate::vx::kin(s, r, crate::keywords::Keyword::NOT)))
[[tok]]     &&& (o is True ==> (crate::vx::kin(s, r, crate::keywords::Keyword::IS) && crate::vx::kin(s, r, crate::keywords::Keyword::TRUE)))
[[tok]]     &&& (o is NotTrue ==> (crate::vx::kin(s, r, crate::keywords::Keyword::IS) && crate::vx::kin(s, r, crate::keywords::Keyword::TRUE) && crate::vx::kin(s, r, crate::keywords::Keyword::NOT)))
[[tok]]     &&& (o is False ==> (crate::vx::kin(s, r, crate::keywords::Keyword::IS) && crate::vx::kin(s, r, crate::keywords::Keyword::FALSE)))
[[tok]]     &&& (o is NotFalse ==> (crate::vx::kin(s, r, crate::keywords::Keyword::IS) && crate::vx::kin(s, r, crate::keywords::Keyword::FALSE) && crate::vx::kin(s, r, crate::keywords::Keyword::NOT)))
[[tok]]     &&& (o is Unknown ==> (crate::vx::kin(s, r, crate::keywords::Keyword::IS) && crate::vx::kin(s, r, crate::keywords::Keyword::UNKNOWN)))
[[tok]]     &&& (o is NotUnknown ==> (crate::vx::kin(s, r, crate::keywords::Keyword::IS) && crate::vx::kin(s, r, crate::keywords::Keyword::UNKNOWN) && crate::vx::kin(s, r, crate::keywords::Keyword::NOT)))
[[tok]] }
[[kwds]] pub open spec fn unitkw(s: Seq<char>, r: Range<usize>, u: crate::expression::TimeUnit) -> bool {
[[kwds]]     &&& (u is Microsecond ==> crate::vx::kwt(s, r, crate::keywords::Keyword::MICROSECOND))
[[kwds]]     &&& (u is Second ==> crate::vx::kwt(s, r, crate::keywords::Keyword::SECOND))
[[kwds]]     &&& (u is Minute ==> crate::vx::kwt(s, r, crate::keywords::Keyword::MINUTE))
[[kwds]]     &&& (u is Hour ==> crate::vx::kwt(s, r, crate::keywords::Keyword::HOUR))
[[kwds]]     &&& (u is Day ==> crate::vx::kwt(s, r, crate::keywords::Keyword::DAY))
[[kwds]]     &&& (u is Week ==> crate::vx::kwt(s, r, crate::keywords::Keyword::WEEK))
[[kwds]]     &&& (u is Month ==> crate::vx::kwt(s, r, crate::keywords::Keyword::MONTH))
[[kwds]]     &&& (u is Quarter ==> crate::vx::kwt(s, r, crate::keywords::Keyword::QUARTER))
[[kwds]]     &&& (u is Year ==> crate::vx::kwt(s, r, crate::keywords::Keyword::YEAR))
[[kwds]]     &&& (u is SecondMicrosecond ==> crate::vx::kwt(s, r, crate::keywords::Keyword::SECOND_MICROSECOND))
[[kwds]]     &&& (u is MinuteMicrosecond ==> crate::vx::kwt(s, r, crate::keywords::Keyword::MINUTE_MICROSECOND))
[[kwds]]     &&& (u is MinuteSecond ==> crate::vx::kwt(s, r, crate::keywords::Keyword::MINUTE_SECOND))
[[kwds]]     &&& (u is HourMicrosecond ==> crate::vx::kwt(s, r, crate::keywords::Keyword::HOUR_MICROSECOND))
[[kwds]]     &&& (u is HourSecond ==> crate::vx::kwt(s, r, crate::keywords::Keyword::HOUR_SECOND))
[[kwds]]     &&& (u is HourMinute ==> crate::vx::kwt(s, r, crate::keywords::Keyword::HOUR_MINUTE))
[[kwds]]     &&& (u is DayMicrosecond ==> crate::vx::kwt(s, r, crate::keywords::Keyword::DAY_MICROSECOND))
[[kwds]]     &&& (u is DaySecond ==> crate::vx::kwt(s, r, crate::keywords::Keyword::DAY_SECOND))
[[kwds]]     &&& (u is DayMinute ==> crate::vx::kwt(s, r, crate::keywords::Keyword::DAY_MINUTE))
[[kwds]]     &&& (u is DayHour ==> crate::vx::kwt(s, r, crate::keywords::Keyword::DAY_HOUR))
[[kwds]]     &&& (u is YearMonth ==> crate::vx::kwt(s, r, crate::keywords::Keyword::YEAR_MONTH))
[[kwds]] }
[[kwds]] /// the function f is written at r
[[kwds]] #[verifier::opaque] pub open spec fn fnkw(s: Seq<char>, r: Range<usize>, f: crate::expression::Function<'_>) -> bool { exists|k: Keyword| #[trigger] kwt(s, r, k) && fnof(f, k) }
[[kwds]] pub open spec fn fnof(f: crate::expression::Function<'_>, k: Keyword) -> bool { match f {
[[kwds]]     crate::expression::Function::Ascii => k is ASCII,
[[kwds]]     crate::expression::Function::Bin => k is BIN,
[[kwds]]     crate::expression::Function::BitLength => k is BIT_LENGTH,
[[kwds]]     crate::expression::Function::CharacterLength => k is CHARACTER_LENGTH || k is CHAR_LENGTH,
[[kwds]]     crate::expression::Function::Chr => k is CHR,
[[kwds]]     crate::expression::Function::Concat => k is CONCAT,
[[kwds]]     crate::expression::Function::ConcatWs => k is CONCAT_WS,
[[kwds]]     crate::expression::Function::Elt => k is ELT,
[[kwds]]     crate::expression::Function::ExportSet => k is EXPORT_SET,
[[kwds]]     crate::expression::Function::ExtractValue => k is EXTRACTVALUE,
[[kwds]]     crate::expression::Function::Field => k is FIELD,
[[kwds]]     crate::expression::Function::FindInSet => k is FIND_IN_SET,
[[kwds]]     crate::expression::Function::Format => k is FORMAT,
[[kwds]]     crate::expression::Function::FromBase64 => k is FROM_BASE64,
[[kwds]]     crate::expression::Function::Hex => k is HEX,
[[kwds]]     crate::expression::Function::Insert => k is INSERT,
[[kwds]]     crate::expression::Function::InStr => k is INSTR,
[[kwds]]     crate::expression::Function::LCase => k is LCASE,
[[kwds]]     crate::expression::Function::Left => k is LEFT,
[[kwds]]     crate::expression::Function::Length => k is LENGTH,
[[kwds]]     crate::expression::Function::LengthB => k is LENGTHB,
[[kwds]]     crate::expression::Function::LoadFile => k is LOAD_FILE,
[[kwds]]     crate::expression::Function::Locate => k is LOCATE,
[[kwds]]     crate::expression::Function::Lower => k is LOWER,
[[kwds]]     crate::expression::Function::LPad => k is LPAD,
[[kwds]]     crate::expression::Function::LTrim => k is LTRIM,
[[kwds]]     crate::expression::Function::MakeSet => k is MAKE_SET,
[[kwds]]     crate::expression::Function::Mid => k is MID,
[[kwds]]     crate::expression::Function::NaturalSortkey => k is NATURAL_SORT_KEY,
[[kwds]]     crate::expression::Function::OctetLength => k is OCTET_LENGTH,
[[kwds]]     crate::expression::Function::Ord => k is ORD,
[[kwds]]     crate::expression::Function::Position => k is POSITION,
[[kwds]]     crate::expression::Function::Quote => k is QUOTE,
[[kwds]]     crate::expression::Function::Repeat => k is REPEAT,
[[kwds]]     crate::expression::Function::Replace => k is REPLACE,
[[kwds]]     crate::expression::Function::Reverse => k is REVERSE,
[[kwds]]     crate::expression::Function::Right => k is RIGHT,
[[kwds]]     crate::expression::Function::RPad => k is RPAD,
[[kwds]]     crate::expression::Function::RTrim => k is RTRIM,
[[kwds]]     crate::expression::Function::SoundEx => k is SOUNDEX,
[[kwds]]     crate::expression::Function::Space => k is SPACE,
[[kwds]]     crate::expression::Function::StrCmp => k is STRCMP,
[[kwds]]     crate::expression::Function::SubStr => k is SUBSTR || k is SUBSTRING,
[[kwds]]     crate::expression::Function::SubStringIndex => k is SUBSTRING_INDEX,
[[kwds]]     crate::expression::Function::ToBase64 => k is TO_BASE64,
[[kwds]]     crate::expression::Function::ToChar => k is TO_CHAR,
[[kwds]]     crate::expression::Function::UCase => k is UCASE,
[[kwds]]     crate::expression::Function::UncompressedLength => k is UNCOMPRESSED_LENGTH,
[[kwds]]     crate::expression::Function::UnHex => k is UNHEX,
[[kwds]]     crate::expression::Function::UpdateXml => k is UPDATEXML,
[[kwds]]     crate::expression::Function::Upper => k is UPPER,
[[kwds]]     crate::expression::Function::SFormat => k is SFORMAT,
[[kwds]]     crate::expression::Function::Exists => k is EXISTS,
[[kwds]]     crate::expression::Function::Min => k is MIN,
[[kwds]]     crate::expression::Function::Max => k is MAX,
[[kwds]]     crate::expression::Function::Sum => k is SUM,
[[kwds]]     crate::expression::Function::Value => k is VALUE || k is VALUES,
[[kwds]]     crate::expression::Function::Lead => k is LEAD,
[[kwds]]     crate::expression::Function::Lag => k is LAG,
[[kwds]]     crate::expression::Function::StartsWith => k is STARTS_WITH,
[[kwds]]     crate::expression::Function::IfNull => k is IFNULL || k is NVL,
[[kwds]]     crate::expression::Function::NullIf => k is NULLIF,
[[kwds]]     crate::expression::Function::NVL2 => k is NVL2,
[[kwds]]     crate::expression::Function::If => k is IF,
[[kwds]]     crate::expression::Function::Abs => k is ABS,
[[kwds]]     crate::expression::Function::Acos => k is ACOS,
[[kwds]]     crate::expression::Function::Asin => k is ASIN,
[[kwds]]     crate::expression::Function::Atan => k is ATAN,
[[kwds]]     crate::expression::Function::Atan2 => k is ATAN2,
[[kwds]]     crate::expression::Function::Ceil => k is CEIL || k is CEILING,
[[kwds]]     crate::expression::Function::Conv => k is CONV,
[[kwds]]     crate::expression::Function::Cos => k is COS,
[[kwds]]     crate::expression::Function::Cot => k is COT,
[[kwds]]     crate::expression::Function::Crc32 => k is CRC32,
[[kwds]]     crate::expression::Function::Degrees => k is DEGREES,
[[kwds]]     crate::expression::Function::Exp => k is EXP,
[[kwds]]     crate::expression::Function::Floor => k is FLOOR,
[[kwds]]     crate::expression::Function::Greatest => k is GREATEST,
[[kwds]]     crate::expression::Function::Ln => k is LN,
[[kwds]]     crate::expression::Function::Log => k is LOG,
[[kwds]]     crate::expression::Function::Log10 => k is LOG10,
[[kwds]]     crate::expression::Function::Log2 => k is LOG2,
[[kwds]]     crate::expression::Function::Oct => k is OCT,
[[kwds]]     crate::expression::Function::Pi => k is PI,
[[kwds]]     crate::expression::Function::Pow => k is POW || k is POWER,
[[kwds]]     crate::expression::Function::Radians => k is RADIANS,
[[kwds]]     crate::expression::Function::Rand => k is RAND,
[[kwds]]     crate::expression::Function::Round => k is ROUND,
[[kwds]]     crate::expression::Function::Sign => k is SIGN,
[[kwds]]     crate::expression::Function::Sin => k is SIN,
[[kwds]]     crate::expression::Function::Sqrt => k is SQRT,
[[kwds]]     crate::expression::Function::Tan => k is TAN,
[[kwds]]     crate::expression::Function::Truncate => k is TRUNCATE,
[[kwds]]     crate::expression::Function::Crc32c => k is CRC32C,
[[kwds]]     crate::expression::Function::Least => k is LEAST,
[[kwds]]     crate::expression::Function::AddDate => k is ADDDATE || k is DATE_ADD,
[[kwds]]     crate::expression::Function::AddTime => k is ADDTIME,
[[kwds]]     crate::expression::Function::ConvertTz => k is CONVERT_TZ,
[[kwds]]     crate::expression::Function::CurDate => k is CURDATE || k is CURRENT_DATE,
[[kwds]]     crate::expression::Function::CurTime => k is CURTIME || k is CURRENT_TIME,
[[kwds]]     crate::expression::Function::Date => k is DATE,
[[kwds]]     crate::expression::Function::Hour => k is HOUR,
[[kwds]]     crate::expression::Function::DateDiff => k is DATEDIFF,
[[kwds]]     crate::expression::Function::DateFormat => k is DATE_FORMAT,
[[kwds]]     crate::expression::Function::DateSub => k is DATE_SUB || k is SUBDATE,
[[kwds]]     crate::expression::Function::DayOfMonth => k is DAYOFMONTH || k is DAY,
[[kwds]]     crate::expression::Function::DayName => k is DAYNAME,
[[kwds]]     crate::expression::Function::DayOfWeek => k is DAYOFWEEK,
[[kwds]]     crate::expression::Function::DayOfYear => k is DAYOFYEAR,
[[kwds]]     crate::expression::Function::FromDays => k is FROM_DAYS,
[[kwds]]     crate::expression::Function::CurrentTimestamp => k is CURRENT_TIMESTAMP,
[[kwds]]     crate::expression::Function::Now => k is NOW || k is LOCALTIME || k is LOCALTIMESTAMP,
[[kwds]]     crate::expression::Function::MakeDate => k is MAKEDATE,
[[kwds]]     crate::expression::Function::MakeTime => k is MAKETIME,
[[kwds]]     crate::expression::Function::MicroSecond => k is MICROSECOND,
[[kwds]]     crate::expression::Function::Minute => k is MINUTE,
[[kwds]]     crate::expression::Function::Month => k is MONTH,
[[kwds]]     crate::expression::Function::MonthName => k is MONTHNAME,
[[kwds]]     crate::expression::Function::PeriodAdd => k is PERIOD_ADD,
[[kwds]]     crate::expression::Function::PeriodDiff => k is PERIOD_DIFF,
[[kwds]]     crate::expression::Function::Quarter => k is QUARTER,
[[kwds]]     crate::expression::Function::Second => k is SECOND,
[[kwds]]     crate::expression::Function::SecToTime => k is SEC_TO_TIME,
[[kwds]]     crate::expression::Function::StrToDate => k is STR_TO_DATE,
[[kwds]]     crate::expression::Function::SubTime => k is SUBTIME,
[[kwds]]     crate::expression::Function::Time => k is TIME,
[[kwds]]     crate::expression::Function::LastDay => k is LAST_DAY,
[[kwds]]     crate::expression::Function::TimeDiff => k is TIMEDIFF,
[[kwds]]     crate::expression::Function::Timestamp => k is TIMESTAMP,
[[kwds]]     crate::expression::Function::TimeFormat => k is TIME_FORMAT,
[[kwds]]     crate::expression::Function::TimeToSec => k is TIME_TO_SEC,
[[kwds]]     crate::expression::Function::ToDays => k is TO_DAYS,
[[kwds]]     crate::expression::Function::ToSeconds => k is TO_SECONDS,
[[kwds]]     crate::expression::Function::UnixTimestamp => k is UNIX_TIMESTAMP,
[[kwds]]     crate::expression::Function::UtcDate => k is UTC_DATE,
[[kwds]]     crate::expression::Function::UtcTime => k is UTC_TIME,
[[kwds]]     crate::expression::Function::UtcTimeStamp => k is UTC_TIMESTAMP,
[[kwds]]     crate::expression::Function::Week => k is WEEK,
[[kwds]]     crate::expression::Function::Weekday => k is WEEKDAY,
[[kwds]]     crate::expression::Function::WeekOfYear => k is WEEKOFYEAR,
[[kwds]]     crate::expression::Function::AddMonths => k is ADD_MONTHS,
[[kwds]]     crate::expression::Function::FromUnixTime => k is FROM_UNIXTIME,
[[kwds]]     crate::expression::Function::Year => k is YEAR,
[[kwds]]     crate::expression::Function::YearWeek => k is YEARWEEK,
[[kwds]]     crate::expression::Function::SysDate => k is SYSDATE,
[[kwds]]     crate::expression::Function::JsonArray => k is JSON_ARRAY,
[[kwds]]     crate::expression::Function::JsonArrayAgg => k is JSON_ARRAYAGG,
[[kwds]]     crate::expression::Function::JsonArrayAppend => k is JSON_ARRAY_APPEND,
[[kwds]]     crate::expression::Function::JsonArrayInsert => k is JSON_ARRAY_INSERT,
[[kwds]]     crate::expression::Function::JsonArrayIntersect => k is JSON_ARRAY_INTERSECT,
[[kwds]]     crate::expression::Function::JsonCompact => k is JSON_COMPACT,
[[kwds]]     crate::expression::Function::JsonContains => k is JSON_CONTAINS,
[[kwds]]     crate::expression::Function::JsonContainsPath => k is JSON_CONTAINS_PATH,
[[kwds]]     crate::expression::Function::JsonDepth => k is JSON_DEPTH,
[[kwds]]     crate::expression::Function::JsonDetailed => k is JSON_DETAILED,
[[kwds]]     crate::expression::Function::JsonEquals => k is JSON_EQUALS,
[[kwds]]     crate::expression::Function::JsonExists => k is JSON_EXISTS,
[[kwds]]     crate::expression::Function::JsonExtract => k is JSON_EXTRACT,
[[kwds]]     crate::expression::Function::JsonInsert => k is JSON_INSERT,
[[kwds]]     crate::expression::Function::JsonKeys => k is JSON_KEYS,
[[kwds]]     crate::expression::Function::JsonLength => k is JSON_LENGTH,
[[kwds]]     crate::expression::Function::JsonLoose => k is JSON_LOOSE,
[[kwds]]     crate::expression::Function::JsonMerge => k is JSON_MERGE,
[[kwds]]     crate::expression::Function::JsonNormalize => k is JSON_NORMALIZE,
[[kwds]]     crate::expression::Function::JsonObject => k is JSON_OBJECT,
[[kwds]]     crate::expression::Function::JsonObjectFilterKeys => k is JSON_OBJECT_FILTER_KEYS,
[[kwds]]     crate::expression::Function::JsonObjectToArray => k is JSON_OBJECT_TO_ARRAY,
[[kwds]]     crate::expression::Function::JsonObjectAgg => k is JSON_OBJECTAGG,
[[kwds]]     crate::expression::Function::JsonOverlaps => k is JSON_OVERLAPS,
[[kwds]]     crate::expression::Function::JsonPretty => k is JSON_PRETTY,
[[kwds]]     crate::expression::Function::JsonQuery => k is JSON_QUERY,
[[kwds]]     crate::expression::Function::JsonQuote => k is JSON_QUOTE,
[[kwds]]     crate::expression::Function::JsonRemove => k is JSON_REMOVE,
[[kwds]]     crate::expression::Function::JsonReplace => k is JSON_REPLACE,
[[kwds]]     crate::expression::Function::JsonSchemaValid => k is JSON_SCHEMA_VALID,
[[kwds]]     crate::expression::Function::JsonSearch => k is JSON_SEARCH,
[[kwds]]     crate::expression::Function::JsonSet => k is JSON_SET,
[[kwds]]     crate::expression::Function::JsonTable => k is JSON_TABLE,
[[kwds]]     crate::expression::Function::JsonType => k is JSON_TYPE,
[[kwds]]     crate::expression::Function::JsonUnquote => k is JSON_UNQUOTE,
[[kwds]]     crate::expression::Function::JsonValid => k is JSON_VALID,
[[kwds]]     crate::expression::Function::JsonValue => k is JSON_VALUE,
[[kwds]]     crate::expression::Function::Strftime => k is STRFTIME,
[[kwds]]     crate::expression::Function::Datetime => k is DATETIME,
[[kwds]]     crate::expression::Function::JsonMergePath => k is JSON_MERGE_PATCH,
[[kwds]]     crate::expression::Function::JsonMergePerserve => k is JSON_MERGE_PRESERVE,
[[kwds]]     crate::expression::Function::Unknown => !fnname(k),
[[kwds]]     crate::expression::Function::Other(_) => !fnname(k),
[[kwds]] } }
[[kwds]] /// the keyword names a function of its own
[[kwds]] pub open spec fn fnname(k: Keyword) -> bool { k is ASCII || k is BIN || k is BIT_LENGTH || k is CHARACTER_LENGTH || k is CHAR_LENGTH || k is CHR || k is CONCAT || k is CONCAT_WS || k is ELT || k is EXPORT_SET || k is EXTRACTVALUE || k is FIELD || k is FIND_IN_SET || k is FORMAT || k is FROM_BASE64 || k is HEX || k is INSERT || k is INSTR || k is LCASE || k is LEFT || k is LENGTH || k is LENGTHB || k is LOAD_FILE || k is LOCATE || k is LOWER || k is LPAD || k is LTRIM || k is MAKE_SET || k is MID || k is NATURAL_SORT_KEY || k is OCTET_LENGTH || k is ORD || k is POSITION || k is QUOTE || k is REPEAT || k is REPLACE || k is REVERSE || k is RIGHT || k is RPAD || k is RTRIM || k is SOUNDEX || k is SPACE || k is STRCMP || k is SUBSTR || k is SUBSTRING || k is SUBSTRING_INDEX || k is TO_BASE64 || k is TO_CHAR || k is UCASE || k is UNCOMPRESSED_LENGTH || k is UNHEX || k is UPDATEXML || k is UPPER || k is SFORMAT || k is EXISTS || k is MIN || k is MAX || k is SUM || k is VALUE || k is VALUES || k is LEAD || k is LAG || k is STARTS_WITH || k is IFNULL || k is NVL || k is NULLIF || k is NVL2 || k is IF || k is ABS || k is ACOS || k is ASIN || k is ATAN || k is ATAN2 || k is CEIL || k is CEILING || k is CONV || k is COS || k is COT || k is CRC32 || k is DEGREES || k is EXP || k is FLOOR || k is GREATEST || k is LN || k is LOG || k is LOG10 || k is LOG2 || k is OCT || k is PI || k is POW || k is POWER || k is RADIANS || k is RAND || k is ROUND || k is SIGN || k is SIN || k is SQRT || k is TAN || k is TRUNCATE || k is CRC32C || k is LEAST || k is ADDDATE || k is DATE_ADD || k is ADDTIME || k is CONVERT_TZ || k is CURDATE || k is CURRENT_DATE || k is CURTIME || k is CURRENT_TIME || k is DATE || k is HOUR || k is DATEDIFF || k is DATE_FORMAT || k is DATE_SUB || k is SUBDATE || k is DAYOFMONTH || k is DAY || k is DAYNAME || k is DAYOFWEEK || k is DAYOFYEAR || k is FROM_DAYS || k is CURRENT_TIMESTAMP || k is NOW || k is LOCALTIME || k is LOCALTIMESTAMP || k is MAKEDATE || k is MAKETIME || k is MICROSECOND || k is MINUTE || k is MONTH || k is MONTHNAME || k is PERIOD_ADD || k is PERIOD_DIFF || k is QUARTER || k is SECOND || k is SEC_TO_TIME || k is STR_TO_DATE || k is SUBTIME || k is TIME || k is LAST_DAY || k is TIMEDIFF || k is TIMESTAMP || k is TIME_FORMAT || k is TIME_TO_SEC || k is TO_DAYS || k is TO_SECONDS || k is UNIX_TIMESTAMP || k is UTC_DATE || k is UTC_TIME || k is UTC_TIMESTAMP || k is WEEK || k is WEEKDAY || k is WEEKOFYEAR || k is ADD_MONTHS || k is FROM_UNIXTIME || k is YEAR || k is YEARWEEK || k is SYSDATE || k is JSON_ARRAY || k is JSON_ARRAYAGG || k is JSON_ARRAY_APPEND || k is JSON_ARRAY_INSERT || k is JSON_ARRAY_INTERSECT || k is JSON_COMPACT || k is JSON_CONTAINS || k is JSON_CONTAINS_PATH || k is JSON_DEPTH || k is JSON_DETAILED || k is JSON_EQUALS || k is JSON_EXISTS || k is JSON_EXTRACT || k is JSON_INSERT || k is JSON_KEYS || k is JSON_LENGTH || k is JSON_LOOSE || k is JSON_MERGE || k is JSON_NORMALIZE || k is JSON_OBJECT || k is JSON_OBJECT_FILTER_KEYS || k is JSON_OBJECT_TO_ARRAY || k is JSON_OBJECTAGG || k is JSON_OVERLAPS || k is JSON_PRETTY || k is JSON_QUERY || k is JSON_QUOTE || k is JSON_REMOVE || k is JSON_REPLACE || k is JSON_SCHEMA_VALID || k is JSON_SEARCH || k is JSON_SET || k is JSON_TABLE || k is JSON_TYPE || k is JSON_UNQUOTE || k is JSON_VALID || k is JSON_VALUE || k is STRFTIME || k is DATETIME || k is JSON_MERGE_PATCH || k is JSON_MERGE_PRESERVE }
