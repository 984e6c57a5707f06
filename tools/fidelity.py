#!/usr/bin/env python3
"""Writes harness/src/fidelity.txt: one input per keyword choice and the node which must stand for it (from the tables in kwds.py)."""
import os, re, runpy
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = runpy.run_path(os.path.join(here, "tools", "kwds.py"))
out = []
def add(sql, *want, d="*"):
    out.append("\t".join([sql, d] + list(want)))
for v, ks in k["of"].items():
    for f in ks:
        if f in ("INSERT", "POSITION", "REPEAT", "EXISTS"): continue      # have a syntax of their own, or none yet
        add(f"SELECT {f}(1);", f"Function({v}, ")
        add(f"SELECT {f}(1) OVER (ORDER BY 2 DESC);", f"WindowFunction {{ function: {v}, ", "Desc(")
for v, p in k["TY"].items():
    for w in p.split("|"):
        w = w.strip()
        if v == "Float" and w == "REAL": continue
        arg = {"VARCHAR": "(5)", "ENUM": "('a')", "SET": "('a')", "VARBINARY": "(5)", "NUMERIC": "(5,2)", "BIT": "(1)"}.get(w, "")
        add(f"CREATE TABLE t (a {w}{arg});", f"type_: {v}" if w != "REAL" else "type_: ", d="MS" if w == "DOUBLE" else "*")
for v, p in k["BIN"].items():
    for w in p.split("|"):
        w = w.strip()
        w = {"[Eq]": "=", "[DoublePipe]": "||", "[DoubleAmpersand]": "&&", "[Spaceship]": "<=>", "[GtEq]": ">=", "[Gt]": ">", "[LtEq]": "<=", "[Lt]": "<", "[Neq]": "!=", "[ShiftLeft]": "<<", "[ShiftRight]": ">>",
             "[Ampersand]": "&", "[Pipe]": "|", "[Caret]": "^", "[Plus]": "+", "[Minus]": "-", "[Div]": "/", "[Mod]": "%", "[Mul]": "*"}.get(w, w)
        add(f"SELECT 1 {w} 2;", f"Binary {{ op: {v}, ")
for v, w in dict(Binary="BINARY ", LogicalNot="!", Minus="-", Not="NOT ").items():
    add(f"SELECT {w}a;", f"Unary {{ op: {v}, ")
for w, v in [("NULL", "Null"), ("TRUE", "True"), ("FALSE", "False"), ("UNKNOWN", "Unknown")]:
    add(f"SELECT a IS {w};", f"{v}, "); add(f"SELECT a IS NOT {w};", f"Not{v}, ")
add("SELECT a IN (1);", "not_in: false"); add("SELECT a NOT IN (1);", "not_in: true")
for u in k["UNITS"]:
    w = re.sub('(?<!^)([A-Z])', r'_\1', u).upper()
    add(f"SELECT a + INTERVAL 1 {w};", f"time_unit: ({u}, "); add(f"SELECT TIMESTAMPADD({w}, 1, 2);", f"unit: ({u}, "); add(f"SELECT TIMESTAMPDIFF({w}, 1, 2);", f"unit: ({u}, "); add(f"SELECT EXTRACT({w} FROM a);", f"time_unit: ({u}, ")
for w, v in [("TRUE", "Bool(true"), ("FALSE", "Bool(false"), ("NULL", "Null(")]:
    add(f"SELECT {w};", v)
for w, v in [("JOIN", "Normal"), ("INNER JOIN", "Inner"), ("CROSS JOIN", "Cross"), ("STRAIGHT_JOIN", "Straight"), ("LEFT JOIN", "Left"), ("RIGHT JOIN", "Right"), ("LEFT OUTER JOIN", "Left"), ("RIGHT OUTER JOIN", "Right"),
             ("NATURAL JOIN", "Natural"), ("NATURAL INNER JOIN", "NaturalInner"), ("NATURAL LEFT JOIN", "NaturalLeft"), ("NATURAL RIGHT JOIN", "NaturalRight"), ("NATURAL LEFT OUTER JOIN", "NaturalLeft"), ("NATURAL RIGHT OUTER JOIN", "NaturalRight")]:
    n = "" if "NATURAL" in w else " ON a.x = b.x"
    add(f"SELECT 1 FROM a {w} b{n};", f"join: {v}(")
add("SELECT 1 FROM a JOIN b USING c;", "Using(")
for w in "ALL DISTINCT DISTINCTROW HIGH_PRIORITY STRAIGHT_JOIN SQL_SMALL_RESULT SQL_BIG_RESULT SQL_BUFFER_RESULT SQL_NO_CACHE SQL_CALC_FOUND_ROWS".split():
    v = {"DISTINCTROW": "DistinctRow"}.get(w, "".join(x.capitalize() for x in w.split("_")))
    add(f"SELECT {w} a;", f"flags: [{v}(")
for w in "USE IGNORE FORCE".split():
    for t in "INDEX KEY".split():
        for f, fv in [("", "for_: None"), (" FOR JOIN", "Join("), (" FOR ORDER BY", "OrderBy("), (" FOR GROUP BY", "GroupBy(")]:
            add(f"SELECT 1 FROM a {w} {t}{f} (i);", f"use_: {w.capitalize()}(", f"type_: {t.capitalize()}(", fv, d="M")
for w, v in [("ASC", "Asc("), ("DESC", "Desc(")]:
    add(f"SELECT 1 FROM t ORDER BY a {w};", v);
for w, v in [("UPDATE", "Update("), ("SHARE", "Share("), ("NO KEY UPDATE", "NoKeyUpdate("), ("KEY SHARE", "KeyShare(")]:
    for x, y in [("", "Default"), (" NOWAIT", "NoWait("), (" SKIP LOCKED", "SkipLocket(")]:
        add(f"SELECT 1 FROM t FOR {w}{x};", f"strength: {v}", f"wait: {y}", d="P")
for w, v in [("ON UPDATE", "Update("), ("ON DELETE", "Delete(")]:
    for x, y in [("RESTRICT", "Restrict("), ("CASCADE", "Cascade("), ("SET NULL", "SetNull("), ("NO ACTION", "NoAction("), ("SET DEFAULT", "SetDefault(")]:
        add(f"ALTER TABLE t ADD CONSTRAINT c FOREIGN KEY f (a) REFERENCES u (b) {w} {x};", f"type_: {v}", f"action: {y}")
for w, v in [("BTREE", "IndexTypeBTree("), ("HASH", "IndexTypeHash("), ("RTREE", "IndexTypeRTree(")]:
    add(f"ALTER TABLE t ADD INDEX i (a) USING {w};", v)
for w, v in [("INDEX", "Index("), ("KEY", "Index("), ("UNIQUE INDEX", "Unique("), ("UNIQUE KEY", "Unique("), ("FULLTEXT INDEX", "FullText("), ("SPATIAL INDEX", "Spatial("), ("PRIMARY KEY", "Primary(")]:
    add(f"ALTER TABLE t ADD {w} (a);", f"index_type: {v}")
for w, v in [("SET DEFAULT 1", "SetDefault"), ("DROP DEFAULT", "DropDefault"), ("TYPE INT", "Type "), ("SET NOT NULL", "SetNotNull"), ("DROP NOT NULL", "DropNotNull")]:
    add(f"ALTER TABLE t ALTER COLUMN c {w};", f"alter_column_action: {v}", d="P")
for w, v in [("ENGINE=a", "Engine"), ("CHARSET=a", "CharSet"), ("DEFAULT CHARSET=a", "DefaultCharSet"), ("COLLATE=a", "Collate"), ("DEFAULT COLLATE=a", "DefaultCollate"), ("ROW_FORMAT=a", "RowFormat"), ("COMMENT='a'", "Comment"), ("STRICT", "Strict")]:
    add(f"CREATE TABLE t (a INT) {w};", f"options: [{v} ")
for w, v in [("UNSIGNED", "Unsigned"), ("SIGNED", "Signed"), ("ZEROFILL", "Zerofill"), ("NULL", "Null"), ("NOT NULL", "NotNull"), ("VIRTUAL", "Virtual"), ("PERSISTENT", "Persistent"), ("STORED", "Stored"), ("UNIQUE", "Unique"), ("UNIQUE KEY", "UniqueKey"),
             ("GENERATED ALWAYS", "GeneratedAlways"), ("AUTO_INCREMENT", "AutoIncrement"), ("PRIMARY KEY", "PrimaryKey"), ("AS (1)", "As"), ("CHECK (1)", "Check")]:
    add(f"CREATE TABLE t (a INT {w});", f"properties: [{v}(", d="MS" if "GEN" in w else "*")
for w, v in [("OR REPLACE", "OrReplace("), ("TEMPORARY", "Temporary("), ("ALGORITHM=UNDEFINED", "Undefined("), ("ALGORITHM=MERGE", "Merge("), ("ALGORITHM=TEMPTABLE", "TempTable("), ("SQL SECURITY DEFINER", "SqlSecurityDefiner("), ("SQL SECURITY USER", "SqlSecurityUser(")]:
    add(f"CREATE {w} VIEW v AS SELECT 1;", v)
for t in "BEFORE AFTER".split():
    for e in "UPDATE INSERT DELETE".split():
        add(f"CREATE TRIGGER x {t} {e} ON t FOR EACH ROW SET a = 1;", f"trigger_time: {t.capitalize()}(", f"trigger_event: {e.capitalize()}(")
for w, v in [("LANGUAGE SQL", "LanguageSql("), ("DETERMINISTIC", "Deterministic("), ("CONTAINS SQL", "ContainsSql("), ("NO SQL", "NoSql("), ("READS SQL DATA", "ReadsSqlData("), ("MODIFIES SQL DATA", "ModifiesSqlData("),
             ("SQL SECURITY DEFINER", "SqlSecurityDefiner("), ("SQL SECURITY USER", "SqlSecurityUser(")]:
    add(f"CREATE FUNCTION f() RETURNS INT {w} RETURN 1;", f"characteristics: [{v}")
for w, v in [("IN", "In("), ("OUT", "Out("), ("INOUT", "InOut("), ("IN OUT", "InOut(")]:
    add(f"CREATE FUNCTION f({w} a INT) RETURNS INT RETURN 1;", f"params: [(Some({v}")
for w, v in [("TABLE", "DropTable"), ("VIEW", "DropView"), ("DATABASE", "DropDatabase"), ("EVENT", "DropEvent"), ("FUNCTION", "DropFunction"), ("PROCEDURE", "DropProcedure"), ("SERVER", "DropServer"), ("TRIGGER", "DropTrigger")]:
    add(f"DROP {w} a;", f"{v}({v} "); add(f"DROP {w} IF EXISTS a;", f"{v}({v} ", "if_exists: Some(")
add("DROP INDEX i ON t;", "DropIndex(DropIndex ", d="M")
for w, v in [("LOW_PRIORITY", "LowPriority("), ("QUICK", "Quick("), ("IGNORE", "Ignore(")]:
    add(f"DELETE {w} FROM t;", f"flags: [{v}")
for w, v in [("LOW_PRIORITY", "LowPriority("), ("HIGH_PRIORITY", "HighPriority("), ("DELAYED", "Delayed("), ("IGNORE", "Ignore(")]:
    add(f"INSERT {w} INTO t VALUES (1);", f"flags: [{v}")
for w, v in [("LOW_PRIORITY", "LowPriority("), ("IGNORE", "Ignore(")]:
    add(f"UPDATE {w} t SET a = 1;", f"flags: [{v}")
add("INSERT INTO t VALUES (1);", "type_: Insert("); add("REPLACE INTO t VALUES (1);", "type_: Replace(")
add("INSERT INTO t VALUES (1) ON CONFLICT DO NOTHING;", "DoNothing(", d="P"); add("INSERT INTO t VALUES (1) ON CONFLICT ON CONSTRAINT c DO UPDATE SET a = 1;", "OnConstraint ", "DoUpdateSet ", d="P")
add("SELECT 1 UNION ALL SELECT 2;", "union_type: All("); add("SELECT 1 UNION DISTINCT SELECT 2;", "union_type: Distinct("); add("SELECT 1 UNION SELECT 2;", "union_type: Default")
for w in "CLASS_ORIGIN SUBCLASS_ORIGIN MESSAGE_TEXT MYSQL_ERRNO CONSTRAINT_CATALOG CONSTRAINT_SCHEMA CONSTRAINT_NAME CATALOG_NAME SCHEMA_NAME TABLE_NAME COLUMN_NAME CURSOR_NAME".split():
    add(f"SIGNAL SQLSTATE '45000' SET {w} = 1;", "".join(x.capitalize() for x in w.split("_")) + "(")
for w, v in [("BEGIN", "Begin("), ("END", "End("), ("COMMIT", "Commit("), ("START TRANSACTION", "StartTransaction(")]:
    add(f"{w};", v)
for w, v in [("CHAR", "Char"), ("BINARY", "Binary"), ("DATE", "Date"), ("DATETIME", "DateTime"), ("TIME", "Time"), ("INTEGER", "Integer"), ("DOUBLE", "Double"), ("FLOAT", "Float")]:
    add(f"SELECT CAST(a AS {w});", f"type_: {v}", d="M")
open(os.path.join(here, "harness", "src", "fidelity.txt"), "w").write("\n".join(out) + "\n")
