#!/usr/bin/env python3
"""Writes contracts/kwds.vc and contracts/prelude8.rs (P17): which keywords a node stands for.

The tables below were written from the names of the node types and from the SQL grammar; they are not taken from the parser.
  "A"        the span is that of the single token A (a keyword, or a token in [..])
  "A B"      a span around the keywords A and B
  "A|B"      one of these keywords
"""
import os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "crate::vx::"
K = "crate::keywords::Keyword::"

def one(x, kw):
    if kw.startswith("["):
        return f"{V}symt(s, {x}, crate::lexer::Token::{kw[1:-1]})"
    return f"{V}kwt(s, {x}, {K}{kw})"

def cond(x, pat):
    """the span x is written as pat"""
    if "|" in pat:
        return "(" + " || ".join(cond(x, p.strip()) for p in pat.split("|")) + ")"
    ws = pat.split()
    if len(ws) == 1:
        return one(x, ws[0])
    return "(" + " && ".join(f"{V}kin(s, {x}, {K}{w})" for w in ws) + ")"

types = {}
fields = {}
def enum(ty, **variants):
    """variants with one span field: name or name__field -> pattern"""
    out = types.setdefault(ty, [])
    for v, pat in variants.items():
        v, _, f = v.partition("__")
        f = f or "0"
        out.append(f"(x is {v} ==> {cond(f'x->{v}_{f}', pat)})")
def struct(ty, **fs):
    """fields: name -> pattern; an optional span has a name ending in _opt, the span of an optional pair in _pair (first) or _paire (second)"""
    out = types.setdefault(ty, [])
    for f, pat in fs.items():
        m = re.fullmatch(r"(\w+?)__(opt|pair|paire)", f)
        if not m:
            out.append(cond(f"x.{f}", pat))
            fields.setdefault(ty, {})[f] = cond(f, pat)
        else:
            g = {"opt": f"x.{m[1]}->Some_0", "pair": f"x.{m[1]}->Some_0.0", "paire": f"x.{m[1]}->Some_0.1"}[m[2]]
            out.append(f"(x.{m[1]} is Some ==> {cond(g, pat)})")
            fields.setdefault(ty, {})[m[1]] = out[-1].replace("x.", "")
def raw(ty, text):
    types.setdefault(ty, []).append(text)

# ---- alter
enum("IndexOption", IndexTypeBTree="BTREE", IndexTypeHash="HASH", IndexTypeRTree="RTREE")
enum("IndexType", Index="INDEX|KEY", Primary="PRIMARY KEY")
for v, k in [("Unique", "UNIQUE"), ("FullText", "FULLTEXT"), ("Spatial", "SPATIAL")]:
    enum("IndexType", **{v: f"{k} INDEX|{k} KEY"})
enum("ForeignKeyOnType", Update="ON UPDATE", Delete="ON DELETE")
enum("ForeignKeyOnAction", Restrict="RESTRICT", Cascade="CASCADE", SetNull="SET NULL", NoAction="NO ACTION", SetDefault="SET DEFAULT")
enum("AlterColumnAction", SetDefault__set_default_span="SET DEFAULT", DropDefault__drop_default_span="DROP DEFAULT", Type__type_span="TYPE",
     SetNotNull__set_not_null_span="SET NOT NULL", DropNotNull__drop_not_null_span="DROP NOT NULL")
enum("AlterSpecification", AddColumn__add_span="ADD", AddIndex__add_span="ADD", AddForeignKey__add_span="ADD", AddForeignKey__foreign_key_span="FOREIGN KEY",
     AddForeignKey__references_span="REFERENCES", Modify__modify_span="MODIFY|MODIFY COLUMN", DropColumn__drop_column_span="DROP COLUMN",
     AlterColumn__alter_column_span="ALTER COLUMN", OwnerTo__span="OWNER TO")
struct("AlterTable", table_span="TABLE", if_exists__opt="IF EXISTS")
# ---- create
enum("TableOption", AutoExtendSize__identifier="AUTOEXTEND_SIZE", AutoIncrement__identifier="AUTO_INCREMENT", AvgRowLength__identifier="AVG_ROW_LENGTH",
     CharSet__identifier="CHARSET", DefaultCharSet__identifier="DEFAULT", Checksum__identifier="CHECKSUM", Collate__identifier="COLLATE", DefaultCollate__identifier="DEFAULT",
     Comment__identifier="COMMENT", Connection__identifier="CONNECTION", DelayKeyWrite__identifier="DELAY_KEY_WRITE",
  Engine__identifier="ENGINE", InsertMethod__identifier="INSERT_METHOD",
     KeyBlockSize__identifier="KEY_BLOCK_SIZE", MaxRows__identifier="MAX_ROWS", MinRows__identifier="MIN_ROWS", Password__identifier="PASSWORD",
     RowFormat__identifier="ROW_FORMAT", Strict__identifier="STRICT")
enum("CreateDefinition", ConstraintDefinition__span="CONSTRAINT")
enum("CreateAlgorithm", Undefined="UNDEFINED", Merge="MERGE", TempTable="TEMPTABLE")
enum("CreateOption", OrReplace="OR REPLACE", Temporary="TEMPORARY", Unique="UNIQUE", Algorithm="ALGORITHM", Definer__definer_span="DEFINER",
     SqlSecurityDefiner="SQL SECURITY", SqlSecurityDefiner__1="DEFINER", SqlSecurityUser="SQL SECURITY", SqlSecurityUser__1="USER")
struct("CreateTable", table_span="TABLE", if_not_exists__opt="IF NOT EXISTS")
struct("CreateView", view_span="VIEW", if_not_exists__opt="IF NOT EXISTS", as_span="AS")
enum("FunctionCharacteristic", LanguageSql="LANGUAGE SQL", LanguagePlpgsql="LANGUAGE PLPGSQL", NotDeterministic="NOT DETERMINISTIC", Deterministic="DETERMINISTIC",
     ContainsSql="CONTAINS SQL", NoSql="NO SQL", ReadsSqlData="READS SQL DATA", ModifiesSqlData="MODIFIES SQL DATA",
     SqlSecurityDefiner="SQL SECURITY DEFINER", SqlSecurityUser="SQL SECURITY USER")
enum("FunctionParamDirection", In="IN", Out="OUT", InOut="INOUT|IN OUT")
struct("CreateFunction", function_span="FUNCTION", if_not_exists__opt="IF NOT EXISTS", returns_span="RETURNS")
enum("TriggerTime", Before="BEFORE", After="AFTER")
enum("TriggerEvent", Update="UPDATE", Insert="INSERT", Delete="DELETE")
struct("CreateTrigger", trigger_span="TRIGGER", if_not_exists__opt="IF NOT EXISTS", on_span="ON", for_each_row_span="FOR EACH ROW")
struct("CreateTypeEnum", type_span="TYPE", as_enum_span="AS ENUM")
enum("CreateIndexOption", UsingGist="USING GIST")
struct("CreateIndex", index_span="INDEX", if_not_exists__opt="IF NOT EXISTS", on_span="ON", l_paren_span="[LParen]", r_paren_span="[RParen]", where___pair="WHERE")
# ---- data types
enum("DataTypeProperty", Signed="SIGNED", Unsigned="UNSIGNED", Zerofill="ZEROFILL", Null="NULL", NotNull="NOT NULL", Virtual="VIRTUAL", Persistent="PERSISTENT",
     Stored="STORED", Unique="UNIQUE", UniqueKey="UNIQUE KEY", GeneratedAlways="GENERATED ALWAYS", AutoIncrement="AUTO_INCREMENT", PrimaryKey="PRIMARY KEY")
raw("DataTypeProperty", f"(x is As ==> {one('x->As_0.0', 'AS')})")
raw("DataTypeProperty", f"(x is Check ==> {one('x->Check_0.0', 'CHECK')})")
struct("Timestamp", with_time_zone__opt="WITH TIME ZONE")
TY = dict(Boolean="BOOLEAN", TinyInt="TINYINT", SmallInt="SMALLINT", Integer="INTEGER", Int="INT", BigInt="BIGINT", Char="CHAR", VarChar="VARCHAR", TinyText="TINYTEXT",
          MediumText="MEDIUMTEXT", Text="TEXT", LongText="LONGTEXT", Enum="ENUM", Set="SET", Float8="FLOAT8", Float="FLOAT|REAL", Double="DOUBLE|REAL|DOUBLE PRECISION", Numeric="NUMERIC",
          DateTime="DATETIME", Timestamp="TIMESTAMP", Timestamptz="TIMESTAMPTZ", Time="TIME", TinyBlob="TINYBLOB", MediumBlob="MEDIUMBLOB", Date="DATE", Blob="BLOB",
          LongBlob="LONGBLOB", VarBinary="VARBINARY", Binary="BINARY", Json="JSON", Bit="BIT", Bytea="BYTEA", Inet4="INET4", Inet6="INET6")
raw("DataType", f"{V}tykw(s, x.identifier, x.type_)")
tykw = "\n".join(f"[[kwds]]     &&& (t is {v} ==> {cond('r', p)})" for v, p in TY.items())
# ---- delete, drop, insert, rename, truncate, update, with
enum("DeleteFlag", LowPriority="LOW_PRIORITY", Quick="QUICK", Ignore="IGNORE")
struct("Delete", delete_span="DELETE", from_span="FROM", where___paire="WHERE", returning__pair="RETURNING")
for n, k in [("Table", "TABLE"), ("View", "VIEW"), ("Database", "DATABASE|SCHEMA"), ("Event", "EVENT"), ("Function", "FUNCTION"), ("Procedure", "PROCEDURE"), ("Server", "SERVER"), ("Trigger", "TRIGGER"), ("Index", "INDEX")]:
    struct("Drop" + n, drop_span="DROP", **{n.lower() + "_span": k}, if_exists__opt="IF EXISTS")
struct("DropTable", temporary__opt="TEMPORARY", cascade__opt="CASCADE")
struct("DropView", temporary__opt="TEMPORARY")
struct("DropIndex", on__pair="ON")
enum("InsertReplaceFlag", LowPriority="LOW_PRIORITY", HighPriority="HIGH_PRIORITY", Delayed="DELAYED", Ignore="IGNORE")
enum("InsertReplaceType", Insert="INSERT", Replace="REPLACE")
enum("OnConflictTarget", OnConstraint__on_constraint_span="ON CONSTRAINT")
enum("OnConflictAction", DoNothing="DO NOTHING", DoUpdateSet__do_update_set_span="DO UPDATE SET")
raw("OnConflictAction", f"(x is DoUpdateSet && x->DoUpdateSet_where_ is Some ==> {one('x->DoUpdateSet_where_->Some_0.0', 'WHERE')})")
struct("OnConflict", on_conflict_span="ON CONFLICT")
struct("InsertReplaceSetPair", equal_span="[Eq]")
struct("InsertReplaceSet", set_span="SET")
struct("InsertReplaceOnDuplicateKeyUpdate", on_duplicate_key_update_span="ON DUPLICATE KEY UPDATE")
struct("InsertReplace", into_span__opt="INTO", values__pair="VALUE|VALUES", returning__pair="RETURNING")
struct("TableToTable", to_span="TO")
struct("RenameTable", rename_span="RENAME", table_span__opt="TABLE")
struct("TruncateTable", truncate_span="TRUNCATE", table_span__opt="TABLE")
enum("UpdateFlag", LowPriority="LOW_PRIORITY", Ignore="IGNORE")
struct("Update", update_span="UPDATE", set_span="SET", where___paire="WHERE", returning__pair="RETURNING")
struct("WithBlock", as_span="AS", lparen_span="[LParen]", rparen_span="[RParen]")
struct("WithQuery", with_span="WITH")
# ---- select
enum("JoinSpecification", On__1="ON", Using__1="USING")
enum("JoinType", Inner="INNER JOIN", Cross="CROSS JOIN", Normal="JOIN", Straight="STRAIGHT_JOIN", Left="LEFT JOIN", Right="RIGHT JOIN", Natural="NATURAL JOIN",
     NaturalInner="NATURAL INNER JOIN", NaturalLeft="NATURAL LEFT JOIN", NaturalRight="NATURAL RIGHT JOIN")
enum("IndexHintUse", Use="USE", Ignore="IGNORE", Force="FORCE")
enum("IndexHintType", Index="INDEX", Key="KEY")
enum("IndexHintFor", Join="JOIN", OrderBy="ORDER BY", GroupBy="GROUP BY")
struct("IndexHint", for___pair="FOR", lparen="[LParen]", rparen="[RParen]")
enum("SelectFlag", All="ALL", Distinct="DISTINCT", DistinctRow="DISTINCTROW", HighPriority="HIGH_PRIORITY", StraightJoin="STRAIGHT_JOIN", SqlSmallResult="SQL_SMALL_RESULT",
     SqlBigResult="SQL_BIG_RESULT", SqlBufferResult="SQL_BUFFER_RESULT", SqlNoCache="SQL_NO_CACHE", SqlCalcFoundRows="SQL_CALC_FOUND_ROWS")
enum("OrderFlag", Asc="ASC", Desc="DESC")
enum("LockStrength", Update="UPDATE", Share="SHARE", NoKeyUpdate="NO KEY UPDATE", KeyShare="KEY SHARE")
enum("LockWait", NoWait="NOWAIT", SkipLocket="SKIP LOCKED")
struct("Locking", for_span="FOR", of__pair="OF")
struct("Select", select_span="SELECT", from_span__opt="FROM", where___paire="WHERE", group_by__pair="GROUP BY", having__paire="HAVING", window_span__opt="WINDOW",
       order_by__pair="ORDER BY", limit__pair="LIMIT")
raw("TableReference", f"(x is Table && x->Table_as_span is Some ==> {one('x->Table_as_span->Some_0', 'AS')})")
raw("TableReference", f"(x is Query && x->Query_as_span is Some ==> {one('x->Query_as_span->Some_0', 'AS')})")
# ---- statements
struct("Set", set_span="SET")
struct("IfCondition", elseif_span__opt="ELSEIF", then_span="THEN")
struct("If", if_span="IF", else___pair="ELSE", endif_span="END IF")
struct("Return", return_span="RETURN")
enum("SignalConditionInformationName", **{"".join(w.capitalize() for w in k.split("_")): k for k in
     "CLASS_ORIGIN SUBCLASS_ORIGIN MESSAGE_TEXT MYSQL_ERRNO CONSTRAINT_CATALOG CONSTRAINT_SCHEMA CONSTRAINT_NAME CATALOG_NAME SCHEMA_NAME TABLE_NAME COLUMN_NAME CURSOR_NAME".split()})
struct("Signal", signal_span="SIGNAL", sqlstate_span="SQLSTATE", value_span__opt="VALUE", set_span__opt="SET")
# BEGIN: also stands in for a query in parentheses that could not be read
enum("Statement", Begin="BEGIN|[LParen]", End="END", Commit="COMMIT", StartTransaction="START TRANSACTION")
struct("WhenStatement", when_span="WHEN", then_span="THEN")
struct("CaseStatement", case_span="CASE", else___pair="ELSE", end_span="END")
enum("UnionType", All="ALL", Distinct="DISTINCT")
struct("UnionWith", union_span="UNION")
struct("Union", order_by__pair="ORDER BY", limit__pair="LIMIT")
struct("Copy", copy_span="COPY", from_span="FROM", stdin_span="STDIN")
# ---- expressions
enum("IdentifierPart", Star="[Mul]")
struct("When", when_span="WHEN", then_span="THEN")
raw("WindowSpec", cond("x.order_by.0", "ORDER BY"))
BIN = dict(Or="OR|[DoublePipe]", Xor="XOR", And="AND|[DoubleAmpersand]", Eq="[Eq]", NullSafeEq="[Spaceship]", GtEq="[GtEq]", Gt="[Gt]", LtEq="[LtEq]", Lt="[Lt]", Neq="[Neq]",
           ShiftLeft="[ShiftLeft]", ShiftRight="[ShiftRight]", BitAnd="[Ampersand]", BitOr="[Pipe]", BitXor="[Caret]", Add="[Plus]", Subtract="[Minus]", Divide="[Div]", Div="DIV", Mod="MOD|[Mod]", Mult="[Mul]",
           Like="LIKE", NotLike="NOT LIKE")
for k in ["BitXor", "Div", "Mod"]:
    del BIN[k]      # neither has a token or keyword of its own yet
UN = dict(Binary="BINARY", Collate="COLLATE", LogicalNot="[ExclamationMark]", Minus="[Minus]", Not="NOT")
binkw = "\n".join(f"[[tok]]     &&& (o is {v} ==> {cond('r', p)})" for v, p in BIN.items())
unkw = "\n".join(f"[[tok]]     &&& (o is {v} ==> {cond('r', p)})" for v, p in UN.items())
IS = dict(Null="IS NULL", NotNull="IS NULL", True_="IS TRUE", NotTrue="IS TRUE", False_="IS FALSE", NotFalse="IS FALSE", Unknown="IS UNKNOWN", NotUnknown="IS UNKNOWN")
iskw = "\n".join(f"[[tok]]     &&& (o is {v.strip('_')} ==> {cond('r', p + (' NOT' if v.startswith('Not') else ''))})" for v, p in IS.items())
enum("Expression", Null="NULL", Interval__interval_span="INTERVAL", Extract__extract_span="EXTRACT", Extract__from_span="FROM", Case__case_span="CASE", Case__end_span="END",
     Cast__cast_span="CAST", Cast__as_span="AS", Count__count_span="COUNT", GroupConcat__group_concat_span="GROUP_CONCAT", TimestampAdd__timestamp_add_span="TIMESTAMPADD",
     TimestampDiff__timestamp_diff_span="TIMESTAMPDIFF", WindowFunction__over_span="OVER")
raw("Expression", f"(x is Bool ==> if x->Bool_0 {{ {one('x->Bool_1', 'TRUE')} }} else {{ {one('x->Bool_1', 'FALSE')} }})")
raw("Expression", f"(x is Binary ==> {V}binkw(s, x->Binary_op_span, x->Binary_op))")
raw("Expression", f"(x is Unary ==> {V}unkw(s, x->Unary_op_span, x->Unary_op))")
raw("Expression", f"(x is Is ==> {V}iskw(s, x->Is_2, x->Is_1))")
raw("Expression", f"(x is In ==> {V}kin(s, x->In_in_span, {K}IN) && (x->In_not_in ==> {V}kin(s, x->In_in_span, {K}NOT)) && (!x->In_not_in ==> {one('x->In_in_span', 'IN')}))")
raw("Expression", f"(x is Function ==> {V}fnkw(s, x->Function_2, x->Function_0))")
raw("Expression", f"(x is WindowFunction ==> {V}fnkw(s, x->WindowFunction_function_span, x->WindowFunction_function))")
for v, f in [("Interval", "time_unit"), ("Extract", "time_unit"), ("TimestampAdd", "unit"), ("TimestampDiff", "unit")]:
    raw("Expression", f"(x is {v} ==> {V}unitkw(s, x->{v}_{f}.1, x->{v}_{f}.0))")
for v in ["Count", "GroupConcat"]:
    raw("Expression", f"(x is {v} && x->{v}_distinct_span is Some ==> {one(f'x->{v}_distinct_span->Some_0', 'DISTINCT')})")
raw("Expression", f"(x is Case && x->Case_else_ is Some ==> {one('x->Case_else_->Some_0.0', 'ELSE')})")
raw("Expression", f"(x is Variable && x->Variable_global is Some ==> {V}symt(s, x->Variable_global->Some_0, crate::lexer::Token::AtAtGlobal))")
raw("Expression", f"(x is Variable && x->Variable_session is Some ==> {V}symt(s, x->Variable_session->Some_0, crate::lexer::Token::AtAtSession))")
raw("Expression", f"(x is Variable && x->Variable_variable is TimeZone ==> {one('x->Variable_variable_span', 'TIME_ZONE')})")
UNITS = "Microsecond Second Minute Hour Day Week Month Quarter Year SecondMicrosecond MinuteMicrosecond MinuteSecond HourMicrosecond HourSecond HourMinute DayMicrosecond DaySecond DayMinute DayHour YearMonth".split()
unitkw = "\n".join(f"[[kwds]]     &&& (u is {u} ==> {one('r', re.sub('(?<!^)([A-Z])', r'_\1', u).upper())})" for u in UNITS)
# ---- functions: the keyword is the name, but for these
ALIAS = dict(CHAR_LENGTH="CharacterLength", SUBSTRING="SubStr", VALUES="Value", NVL="IfNull", CEILING="Ceil", POWER="Pow", CURRENT_DATE="CurDate", CURRENT_TIME="CurTime",
             DATE_ADD="AddDate", DAY="DayOfMonth", LOCALTIME="Now", LOCALTIMESTAMP="Now", SUBDATE="DateSub", JSON_MERGE_PATCH="JsonMergePath", JSON_MERGE_PRESERVE="JsonMergePerserve")
FUNCS = """ASCII:Ascii BIN BIT_LENGTH CHARACTER_LENGTH CHR CONCAT CONCAT_WS ELT EXPORT_SET EXTRACTVALUE FIELD FIND_IN_SET FORMAT FROM_BASE64 HEX INSERT INSTR LCASE LEFT LENGTH LENGTHB LOAD_FILE
LOCATE LOWER LPAD LTRIM MAKE_SET MID NATURAL_SORT_KEY OCTET_LENGTH ORD POSITION QUOTE REPEAT REPLACE REVERSE RIGHT RPAD RTRIM SOUNDEX SPACE STRCMP SUBSTR SUBSTRING_INDEX TO_BASE64 TO_CHAR UCASE
UNCOMPRESSED_LENGTH UNHEX UPDATEXML UPPER SFORMAT EXISTS MIN MAX SUM VALUE LEAD LAG STARTS_WITH IFNULL NULLIF NVL2 IF ABS ACOS ASIN ATAN ATAN2 CEIL CONV COS COT CRC32 DEGREES EXP FLOOR GREATEST LN
LOG LOG10 LOG2 OCT PI POW RADIANS RAND ROUND SIGN SIN SQRT TAN TRUNCATE CRC32C LEAST ADDDATE ADDTIME CONVERT_TZ CURDATE CURTIME DATE HOUR DATEDIFF DATE_FORMAT DATE_SUB DAYOFMONTH DAYNAME DAYOFWEEK
DAYOFYEAR FROM_DAYS CURRENT_TIMESTAMP NOW MAKEDATE MAKETIME MICROSECOND MINUTE MONTH MONTHNAME PERIOD_ADD PERIOD_DIFF QUARTER SECOND SEC_TO_TIME STR_TO_DATE SUBTIME TIME LAST_DAY TIMEDIFF TIMESTAMP
TIME_FORMAT TIME_TO_SEC TO_DAYS TO_SECONDS UNIX_TIMESTAMP UTC_DATE UTC_TIME UTC_TIMESTAMP WEEK WEEKDAY WEEKOFYEAR ADD_MONTHS FROM_UNIXTIME YEAR YEARWEEK SYSDATE JSON_ARRAY JSON_ARRAYAGG JSON_ARRAY_APPEND
JSON_ARRAY_INSERT JSON_ARRAY_INTERSECT JSON_COMPACT JSON_CONTAINS JSON_CONTAINS_PATH JSON_DEPTH JSON_DETAILED JSON_EQUALS JSON_EXISTS JSON_EXTRACT JSON_INSERT JSON_KEYS JSON_LENGTH JSON_LOOSE JSON_MERGE
JSON_NORMALIZE JSON_OBJECT JSON_OBJECT_FILTER_KEYS JSON_OBJECT_TO_ARRAY JSON_OBJECTAGG JSON_OVERLAPS JSON_PRETTY JSON_QUERY JSON_QUOTE JSON_REMOVE JSON_REPLACE JSON_SCHEMA_VALID JSON_SEARCH JSON_SET
JSON_TABLE JSON_TYPE JSON_UNQUOTE JSON_VALID JSON_VALUE STRFTIME DATETIME""".replace("ASCII:Ascii", "ASCII").split()
VARIANTS = """Abs Acos AddDate AddMonths AddTime Ascii Asin Atan Atan2 Bin BitLength Ceil CharacterLength Chr Concat ConcatWs Conv ConvertTz Cos Cot Crc32 Crc32c CurDate CurrentTimestamp CurTime Date DateDiff
DateFormat DateSub Datetime DayName DayOfMonth DayOfWeek DayOfYear Degrees Elt Exists Exp ExportSet ExtractValue Field FindInSet Floor Format FromBase64 FromDays FromUnixTime Greatest Hex Hour If IfNull Insert
InStr JsonArray JsonArrayAgg JsonArrayAppend JsonArrayInsert JsonArrayIntersect JsonCompact JsonContains JsonContainsPath JsonDepth JsonDetailed JsonEquals JsonExists JsonExtract JsonInsert JsonKeys JsonLength
JsonLoose JsonMerge JsonMergePath JsonMergePerserve JsonNormalize JsonObject JsonObjectAgg JsonObjectFilterKeys JsonObjectToArray JsonOverlaps JsonPretty JsonQuery JsonQuote JsonRemove JsonReplace JsonSchemaValid
JsonSearch JsonSet JsonTable JsonType JsonUnquote JsonValid JsonValue Lag LastDay LCase Lead Least Left Length LengthB Ln LoadFile Locate Log Log10 Log2 Lower LPad LTrim MakeDate MakeSet MakeTime Max MicroSecond
Mid Min Minute Month MonthName NaturalSortkey Now NullIf NVL2 Oct OctetLength Ord PeriodAdd PeriodDiff Pi Position Pow Quarter Quote Radians Rand Repeat Replace Reverse Right Round RPad RTrim Second SecToTime
SFormat Sign Sin SoundEx Space Sqrt StartsWith StrCmp Strftime StrToDate SubStr SubStringIndex SubTime Sum SysDate Tan Time TimeDiff TimeFormat Timestamp TimeToSec ToBase64 ToChar ToDays ToSeconds Truncate UCase
UncompressedLength UnHex UnixTimestamp UpdateXml Upper UtcDate UtcTime UtcTimeStamp Value Week Weekday WeekOfYear Year YearWeek""".split()
norm = {v.lower(): v for v in VARIANTS}
of = {}
for f in FUNCS:
    of.setdefault(norm[f.replace("_", "").lower()], []).append(f)
for k, v in ALIAS.items():
    of.setdefault(v, []).append(k)
assert not set(VARIANTS) - set(of), set(VARIANTS) - set(of)
allk = [k for ks in of.values() for k in ks]
F = "crate::expression::Function::"
def kws(ks): return " || ".join(f"k is {k}" for k in ks)
fns = "\n".join(f"[[kwds]]     {F}{v} => {kws(ks)}," for v, ks in of.items())

P = "[[kwds]] "
src = f'''[[tok]] // ---------------------------------------------------------------- keywords (written by tools/kwds.py)
[[tok]] /// r is the span of a token of the text that is the keyword k
[[tok]] #[verifier::opaque] pub open spec fn kwt(s: Seq<char>, r: Range<usize>, k: Keyword) -> bool {{ exists|p: int, v: &str, q: int| 0 <= p <= s.len() && #[trigger] tok_next(s, p, Token::Ident(v, k), r, q) }}
[[tok]] /// r is the span of a token of the text that is t
[[tok]] #[verifier::opaque] pub open spec fn symt(s: Seq<char>, r: Range<usize>, t: Token<'_>) -> bool {{ exists|p: int, q: int| 0 <= p <= s.len() && #[trigger] tok_next(s, p, t, r, q) }}
[[tok]] /// the keyword k is a token within r
[[tok]] #[verifier::opaque] pub open spec fn kin(s: Seq<char>, r: Range<usize>, k: Keyword) -> bool {{ exists|a: Range<usize>| #[trigger] kwt(s, a, k) && r.start <= a.start && a.end <= r.end }}
[[tok]] pub open spec fn tokat(s: Seq<char>, t: Token<'_>, r: Range<usize>) -> bool {{ symt(s, r, t) && (t is Ident ==> kwt(s, r, t->Ident_1)) }}
[[tok]] pub broadcast proof fn l_tokat(s: Seq<char>, p: int, t: Token<'_>, r: Range<usize>, q: int)
[[tok]]     requires #[trigger] tok_next(s, p, t, r, q), 0 <= p <= s.len()
[[tok]]     ensures tokat(s, t, r)
[[tok]] {{ reveal(symt); reveal(kwt); if t is Ident {{ assert(t == Token::Ident(t->Ident_0, t->Ident_1)); }} }}
[[tok]] pub broadcast proof fn l_kin(s: Seq<char>, a: Range<usize>, r: Range<usize>, k: Keyword)
[[tok]]     requires #[trigger] kwt(s, a, k), r.start <= a.start, a.end <= r.end
[[tok]]     ensures #[trigger] kin(s, r, k)
[[tok]] {{ reveal(kin); }}
[[tok]] pub broadcast proof fn l_kin2(s: Seq<char>, a: Range<usize>, r: Range<usize>, k: Keyword)
[[tok]]     requires #[trigger] kin(s, a, k), r.start <= a.start, a.end <= r.end
[[tok]]     ensures #[trigger] kin(s, r, k)
[[tok]] {{ reveal(kin); }}
[[tok]] pub open spec fn nm(s: Seq<char>, v: Seq<char>, r: Range<usize>) -> bool {{ true }}
[[kwds]] pub open spec fn tykw(s: Seq<char>, r: Range<usize>, t: crate::data_type::Type<'_>) -> bool {{
{tykw}
[[kwds]] }}
[[tok]] pub open spec fn binkw(s: Seq<char>, r: Range<usize>, o: crate::expression::BinaryOperator) -> bool {{
{binkw}
[[tok]] }}
[[tok]] pub open spec fn unkw(s: Seq<char>, r: Range<usize>, o: crate::expression::UnaryOperator) -> bool {{
{unkw}
[[tok]] }}
[[tok]] pub open spec fn iskw(s: Seq<char>, r: Range<usize>, o: crate::expression::Is) -> bool {{
{iskw}
[[tok]] }}
[[kwds]] pub open spec fn unitkw(s: Seq<char>, r: Range<usize>, u: crate::expression::TimeUnit) -> bool {{
{unitkw}
[[kwds]] }}
[[kwds]] /// the function f is written at r
[[kwds]] #[verifier::opaque] pub open spec fn fnkw(s: Seq<char>, r: Range<usize>, f: crate::expression::Function<'_>) -> bool {{ exists|k: Keyword| #[trigger] kwt(s, r, k) && fnof(f, k) }}
[[kwds]] pub open spec fn fnof(f: crate::expression::Function<'_>, k: Keyword) -> bool {{ match f {{
{fns}
[[kwds]]     {F}Unknown => !fnname(k),
[[kwds]]     {F}Other(_) => !fnname(k),
[[kwds]] }} }}
[[kwds]] /// the keyword names a function of its own
[[kwds]] pub open spec fn fnname(k: Keyword) -> bool {{ {kws(allk)} }}
'''
open(os.path.join(here, "contracts", "prelude8.rs"), "w").write(src)

out = "## written by tools/kwds.py: each node stands for the keywords written at its span (P17)\n"
for t, cs in types.items():
    out += f"@type {t}\n@wf\n[[kwds]] " + "\n[[kwds]] && ".join(cs) + "\n"
# what is known about the parts read so far is kept where a long function is cut
SRC = "crate::vx::src(*old(parser))"
for f, ty in [("select::parse_select", "Select"), ("insert_replace::parse_insert_replace", "InsertReplace")]:
    out += f"@fn {f}\n[[kwds]] @cut 1500\n" + "".join(f"[[kwds]] ?{n}: {c.replace('(s, ', f'({SRC}, ')},\n" for n, c in fields[ty].items())
out += open(os.path.join(here, "tools", "kwds_fns.vc")).read()
open(os.path.join(here, "contracts", "kwds.vc"), "w").write(out)
