From 826d46f7d3b04b66e0535da1908d56a8359b92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 01/16] fix: do not panic on x'..' hex literals

Report the literal as an invalid token instead of hitting todo!().
---
 src/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 1793ff7..0d0e4cd 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -437,7 +437,8 @@ impl<'a> Lexer<'a> {
                 },
                 'x' | 'X' => match self.chars.peek() {
                     Some((_, '\'')) => {
-                        todo!("Hex literal")
+                        // Hex literals are not supported yet
+                        Token::Invalid
                     }
                     _ => self.simple_literal(start),
                 },
-- 
2.43.0


From 0aa8e129958312ce080a380ed8603d9ffc358b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 02/16] fix: argument numbers that do not fit in usize are
 invalid tokens

The number after '$' overflowed: a panic in debug builds and a wrong
argument number in release builds.
---
 src/lexer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 0d0e4cd..a43f07a 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -334,13 +334,22 @@ impl<'a> Lexer<'a> {
                     }
                     Some((_, '1'..='9')) => {
                         let mut v = self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                        let mut overflow = false;
                         self.chars.next();
                         while matches!(self.chars.peek(), Some((_, '0'..='9'))) {
-                            v = v * 10
-                                + self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                            let d = self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                            if v > (usize::MAX - d) / 10 {
+                                overflow = true;
+                            } else {
+                                v = v * 10 + d;
+                            }
                             self.chars.next();
                         }
-                        Token::DollarArg(v)
+                        if overflow {
+                            Token::Invalid
+                        } else {
+                            Token::DollarArg(v)
+                        }
                     }
                     _ => Token::Invalid,
                 },
-- 
2.43.0


From 41b12fea4933e4f05196dac28779f1c387c9a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 03/16] fix: DELIMITER at the end of the input no longer loops
 forever

---
 src/statement.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index 2ce3b8a..66b60fa 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -853,6 +853,12 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
         if parser.skip_keyword(Keyword::DELIMITER).is_some() {
             let t = parser.token.clone();
 
+            if matches!(t, Token::Eof) {
+                // With end of file as delimiter we would never stop
+                parser.expected_error("delimiter");
+                return ans;
+            }
+
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-- 
2.43.0


From c1d778e19325b471d7b941d12be22a2ce2eab41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 04/16] fix: span of an empty block does not panic

---
 src/statement.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index 66b60fa..464247c 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -448,7 +448,8 @@ impl<'a> Spanned for Statement<'a> {
             Statement::DropView(v) => v.span(),
             Statement::Set(v) => v.span(),
             Statement::AlterTable(v) => v.span(),
-            Statement::Block(v) => v.opt_span().expect("Span of block"),
+            // An empty block contains nothing to span
+            Statement::Block(v) => v.opt_span().unwrap_or_default(),
             Statement::If(v) => v.span(),
             Statement::Invalid(v) => v.span(),
             Statement::Union(v) => v.span(),
@@ -460,7 +461,7 @@ impl<'a> Spanned for Statement<'a> {
             Statement::Commit(s) => s.clone(),
             Statement::StartTransaction(s) => s.clone(),
             Statement::CreateTypeEnum(v) => v.span(),
-            Statement::Do(v) => v.opt_span().expect("Span of block"),
+            Statement::Do(v) => v.opt_span().unwrap_or_default(),
             Statement::TruncateTable(v) => v.span(),
             Statement::RenameTable(v) => v.span(),
             Statement::WithQuery(v) => v.span(),
-- 
2.43.0


From 4563f430abb9acab9f73719763de068f878364b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 05/16] fix: restore permit_compound_statements when a trigger
 body fails to parse

Otherwise BEGIN in every later statement is parsed as a block.
---
 src/create.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index 2fe2eb7..f52191d 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -881,11 +881,12 @@ fn parse_create_trigger<'a>(
     // TODO [{ FOLLOWS | PRECEDES } other_trigger_name ]
 
     let old = core::mem::replace(&mut parser.permit_compound_statements, true);
-    let statement = match parse_statement(parser)? {
+    let statement = parse_statement(parser);
+    parser.permit_compound_statements = old;
+    let statement = match statement? {
         Some(v) => v,
         None => parser.expected_failure("statement")?,
     };
-    parser.permit_compound_statements = old;
 
     Ok(Statement::CreateTrigger(CreateTrigger {
         create_span,
-- 
2.43.0


From fe987471441f24eb413ba6017543078c8c495a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 06/16] fix: decode quotes and backslash escapes in string
 literals

A quote after a backslash swallowed the character behind it, single quotes
inside double quoted strings did the same, and doubled double quotes were
not collapsed.
---
 src/parser.rs | 54 +++++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 287a6dc..6d476bb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -36,8 +36,11 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) permit_compound_statements: bool,
 }
 
-pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('\'') && !s.contains('\\') {
+/// Decode the contents of a string literal delimited by `quote`,
+/// a doubled quote and backslash escapes each stand for a single character
+/// See https://mariadb.com/kb/en/string-literals/
+fn decode_quoted_string(s: &str, quote: char) -> Cow<'_, str> {
+    if !s.contains(quote) && !s.contains('\\') {
         s.into()
     } else {
         let mut r = String::new();
@@ -45,35 +48,40 @@ pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
         loop {
             match chars.next() {
                 None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
+                Some('\\') => match chars.next() {
+                    None => break,
+                    Some('0') => r.push('\0'),
+                    Some('b') => r.push('\u{8}'),
+                    Some('n') => r.push('\n'),
+                    Some('r') => r.push('\r'),
+                    Some('t') => r.push('\t'),
+                    Some('Z') => r.push('\u{1a}'),
+                    Some(c) => {
+                        // These are only escapes in patterns
+                        if c == '%' || c == '_' {
+                            r.push('\\');
+                        }
+                        r.push(c)
+                    }
+                },
+                Some(c) => {
+                    if c == quote {
+                        chars.next();
+                    }
+                    r.push(c)
                 }
-                Some(c) => r.push(c),
             }
         }
         r.into()
     }
 }
 
+pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
+    decode_quoted_string(s, '\'')
+}
+
 pub(crate) fn decode_double_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('"') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
-            match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
-                }
-                Some(c) => r.push(c),
-            }
-        }
-        r.into()
-    }
+    decode_quoted_string(s, '"')
 }
 
 impl<'a, 'b> Parser<'a, 'b> {
-- 
2.43.0


From fcf41f30971f0b000f69ef9d6c3fbf2ed7179464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 07/16] fix: spans of statements cover all their clauses

SELECT missed the locking clause, DROP TABLE the CASCADE, INSERT the columns,
CREATE FUNCTION the parameters and RETURNS, and CREATE INDEX IF NOT EXISTS.
---
 src/create.rs         | 10 ++++++++--
 src/drop.rs           |  1 +
 src/insert_replace.rs |  1 +
 src/select.rs         |  1 +
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index f52191d..3516530 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -556,11 +556,16 @@ pub struct CreateFunction<'a> {
 
 impl<'a> Spanned for CreateFunction<'a> {
     fn span(&self) -> Span {
-        self.create_span
+        let mut span = self
+            .create_span
             .join_span(&self.create_options)
             .join_span(&self.function_span)
             .join_span(&self.if_not_exists)
-            .join_span(&self.name)
+            .join_span(&self.name);
+        for (direction, name, type_) in &self.params {
+            span = span.join_span(direction).join_span(name).join_span(type_);
+        }
+        span.join_span(&self.returns_span)
             .join_span(&self.return_type)
             .join_span(&self.characteristics)
             .join_span(&self.return_)
@@ -1003,6 +1008,7 @@ impl<'a> Spanned for CreateIndex<'a> {
             .join_span(&self.create_options)
             .join_span(&self.index_span)
             .join_span(&self.index_name)
+            .join_span(&self.if_not_exists)
             .join_span(&self.on_span)
             .join_span(&self.table_name)
             .join_span(&self.index_options)
diff --git a/src/drop.rs b/src/drop.rs
index 7bcd1ca..53c2e7c 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -61,6 +61,7 @@ impl<'a> Spanned for DropTable<'a> {
             .join_span(&self.table_span)
             .join_span(&self.if_exists)
             .join_span(&self.tables)
+            .join_span(&self.cascade)
     }
 }
 
diff --git a/src/insert_replace.rs b/src/insert_replace.rs
index 6775bb5..6441516 100644
--- a/src/insert_replace.rs
+++ b/src/insert_replace.rs
@@ -248,6 +248,7 @@ impl<'a> Spanned for InsertReplace<'a> {
             .join_span(&self.flags)
             .join_span(&self.into_span)
             .join_span(&self.table)
+            .join_span(&self.columns)
             .join_span(&self.values)
             .join_span(&self.select)
             .join_span(&self.set)
diff --git a/src/select.rs b/src/select.rs
index fa4da15..eae7132 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -651,6 +651,7 @@ impl<'a> Spanned for Select<'a> {
             .join_span(&self.window_span)
             .join_span(&self.order_by)
             .join_span(&self.limit)
+            .join_span(&self.locking)
     }
 }
 
-- 
2.43.0


From 7a700d0f65a539513a88509e3372ee39872fb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 08/16] fix: represent foreign key actions and index types as
 written

SET DEFAULT was rejected, NO ACTION was parsed as SET NULL, and SPATIAL and
UNIQUE indexes as FULLTEXT.
---
 src/alter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index 5debe01..b00c77b 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -469,13 +469,13 @@ fn parse_add_alter_specification<'a>(
                             Token::Ident(_, Keyword::NULL) => ForeignKeyOnAction::SetNull(
                                 parser.consume_keyword(Keyword::NULL)?.join_span(&set),
                             ),
-                            Token::Ident(_, Keyword::DELETE) => ForeignKeyOnAction::SetDefault(
+                            Token::Ident(_, Keyword::DEFAULT) => ForeignKeyOnAction::SetDefault(
                                 parser.consume_keyword(Keyword::DEFAULT)?.join_span(&set),
                             ),
                             _ => parser.expected_failure("'NULL' or 'DEFAULT'")?,
                         }
                     }
-                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::SetNull(
+                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::NoAction(
                         parser.consume_keywords(&[Keyword::NO, Keyword::ACTION])?,
                     ),
                     _ => parser.expected_failure("'RESTRICT' or 'CASCADE', 'SET' or 'NO")?,
@@ -526,7 +526,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Spatial(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
@@ -536,7 +536,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Unique(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
-- 
2.43.0


From 3557105c1d101c64888a2ef2a9178cd3508b9132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 09/16] fix: represent COLLATE on a data type as Collate

---
 src/data_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 77d4307..46b6eaa 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -420,7 +420,7 @@ pub(crate) fn parse_data_type<'a>(
             }
             Token::Ident(_, Keyword::COLLATE) => {
                 parser.consume_keyword(Keyword::COLLATE)?;
-                properties.push(DataTypeProperty::Charset(
+                properties.push(DataTypeProperty::Collate(
                     parser.consume_plain_identifier()?,
                 ));
             }
-- 
2.43.0


From 6f9c41764ebe49f89853f4503494b76bc39e6f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 10/16] fix: names of the shift tokens were swapped

---
 src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index a43f07a..7f80752 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -110,8 +110,8 @@ impl<'a> Token<'a> {
             Token::RParen => "')'",
             Token::SemiColon => "';'",
             Token::Sharp => "'#'",
-            Token::ShiftLeft => "'>>'",
-            Token::ShiftRight => "'<<'",
+            Token::ShiftLeft => "'<<'",
+            Token::ShiftRight => "'>>'",
             Token::DoubleDollar => "'$$'",
             Token::DollarArg(v) if *v == 1 => "'$1'",
             Token::DollarArg(v) if *v == 2 => "'$2'",
-- 
2.43.0


From 3a0754ef2e8d078a1b6c1227dbbad69b559f792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 11/16] fix: AND binds tighter than XOR and XOR tighter than OR

The priorities were reversed: a OR b AND c was parsed as (a OR b) AND c.
---
 src/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 8475020..aa77ecc 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -951,9 +951,9 @@ trait Priority {
 impl Priority for BinaryOperator {
     fn priority(&self) -> usize {
         match self {
-            BinaryOperator::Or => 140,
+            BinaryOperator::Or => 160,
             BinaryOperator::Xor => 150,
-            BinaryOperator::And => 160,
+            BinaryOperator::And => 140,
             BinaryOperator::Eq => 110,
             BinaryOperator::NullSafeEq => 110,
             BinaryOperator::GtEq => 110,
-- 
2.43.0


From 24bc88c3f168b16095a3644ba900ff8ef8e06725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 12/16] fix: no capitals warning for keywords containing '_' or
 digits

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6d476bb..0e52fe8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -279,7 +279,7 @@ impl<'a, 'b> Parser<'a, 'b> {
     pub(crate) fn consume_keyword(&mut self, keyword: Keyword) -> Result<Span, ParseError> {
         match &self.token {
             Token::Ident(v, kw) if kw == &keyword => {
-                if !v.chars().all(|c| c.is_ascii_uppercase())
+                if v.chars().any(|c| c.is_ascii_lowercase())
                     && self.options.warn_none_capital_keywords
                 {
                     self.warn(
-- 
2.43.0


From 07f127ebe65f814b015ae986b18fd293d16a29cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 13/16] fix: warn_unquoted_identifiers gives warnings not
 errors

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0e52fe8..641d759 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -256,7 +256,7 @@ impl<'a, 'b> Parser<'a, 'b> {
                 } else if kw != &Keyword::QUOTED_IDENTIFIER
                     && self.options.warn_unquoted_identifiers
                 {
-                    self.err(
+                    self.warn(
                         format!("identifiers should be quoted as `{}`", v),
                         &self.span.span(),
                     );
-- 
2.43.0


From 84cbb8dd579605b0363190cb525533a6dc7cb8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 14/16] hook: verification access to private items, guarded by
 cfg(sql_parse_verif)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 493558c..5f91893 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -40,6 +40,7 @@
 
 #![no_std]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 extern crate alloc;
 
 use alloc::vec::Vec;
@@ -67,6 +68,12 @@ mod truncate;
 mod update;
 mod with_query;
 
+#[cfg(sql_parse_verif)]
+#[doc(hidden)]
+pub mod verif_hook {
+    include!(env!("SQL_PARSE_VERIF_HOOK"));
+}
+
 pub use data_type::{DataType, DataTypeProperty, Type};
 pub use identifier::Identifier;
 pub use issue::{Fragment, Issue, IssueHandle, Issues, Level};
-- 
2.43.0


From 40b7c24b7ef2284023aa3ef872e51be168cbe5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:35 +0000
Subject: [PATCH 15/16] fix: report a backquoted identifier in an expression
 under PostgreSQL

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 641d759..e406098 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -237,6 +237,9 @@ impl<'a, 'b> Parser<'a, 'b> {
                     && self.options.warn_unquoted_identifiers
                 {
                     self.warn(format!("identifiers should be quoted as `{}`", v), &span);
+                } else if kw == &Keyword::QUOTED_IDENTIFIER && self.options.dialect.is_postgresql()
+                {
+                    self.err("quoted identifiers not supported by postgresql", &span);
                 }
                 Ok(Identifier::new(v, span))
             }
-- 
2.43.0


From eaaf64579b039b90f1ef89234d78bc1681159709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:23 +0000
Subject: [PATCH 16/16] fix: the span of NATURAL LEFT and RIGHT JOIN covers
 NATURAL

---
 src/select.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index eae7132..0bd879e 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -404,12 +404,16 @@ pub(crate) fn parse_table_reference<'a>(
                         let left = parser.consume_keyword(Keyword::LEFT)?;
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalLeft(
-                                left.join_span(&outer)
+                                natural
+                                    .join_span(&left)
+                                    .join_span(&outer)
                                     .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         } else {
                             JoinType::NaturalLeft(
-                                left.join_span(&parser.consume_keyword(Keyword::JOIN)?),
+                                natural
+                                    .join_span(&left)
+                                    .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         }
                     }
@@ -417,13 +421,16 @@ pub(crate) fn parse_table_reference<'a>(
                         let right = parser.consume_keyword(Keyword::RIGHT)?;
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalRight(
-                                right
+                                natural
+                                    .join_span(&right)
                                     .join_span(&outer)
                                     .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         } else {
                             JoinType::NaturalRight(
-                                right.join_span(&parser.consume_keyword(Keyword::JOIN)?),
+                                natural
+                                    .join_span(&right)
+                                    .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         }
                     }
-- 
2.43.0

