From 079bc06aa73825c2c76631a282dc4d7613b7dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:36 +0000
Subject: [PATCH 01/22] fix: classify binary and underscored integer literals

---
 .../src/parser_generator/lexer/lexer_ported.rs           | 9 ++++++---
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs   | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 0d1ed6b..42cd07b 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -119,10 +119,13 @@ impl Lexer {
             _ => (),
         }
 
+        // Underscores between digits are not significant
+        let digits = yytext.replace('_', "");
         let res_parse_as_i32 = match radix {
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 => i32::from_str_radix(&digits[2..], 2),
+            8 => i32::from_str_radix(&digits[2..], 8),
+            10 => digits.parse::<i32>(),
+            16 => i32::from_str_radix(&digits[2..], 16),
             _ => unreachable!(),
         };
 
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 0d1ed6b..42cd07b 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -119,10 +119,13 @@ impl Lexer {
             _ => (),
         }
 
+        // Underscores between digits are not significant
+        let digits = yytext.replace('_', "");
         let res_parse_as_i32 = match radix {
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 => i32::from_str_radix(&digits[2..], 2),
+            8 => i32::from_str_radix(&digits[2..], 8),
+            10 => digits.parse::<i32>(),
+            16 => i32::from_str_radix(&digits[2..], 16),
             _ => unreachable!(),
         };
 
-- 
2.43.0


From bc4326777c4a4ff3001617d02089f8a1ad6b0ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:51 +0000
Subject: [PATCH 02/22] fix: do not panic on a parameter number that exceeds
 i32

---
 crates/lexer-generator/resources/scan.l              |  3 ++-
 .../src/parser_generator/lexer/generated.rs          | 12 ++++++++----
 crates/postgresql-cst-parser/src/lexer/generated.rs  | 12 ++++++++----
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 4663d12..66185ca 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -1483,7 +1483,8 @@ other			.
 					// return PARAM;
 
 					self.set_yylloc();
-					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+					/* The value saturates: a number of any length is still a parameter */
+					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX));
 					return Ok(Some(TokenKind::PARAM));
 				}
 
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 466c3d0..982e849 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4923,8 +4923,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        /* The value saturates: a number of any length is still a parameter */
+                        self.yylval = Yylval::I(
+                            i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX),
+                        );
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6433,8 +6435,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        /* The value saturates: a number of any length is still a parameter */
+                        self.yylval = Yylval::I(
+                            i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX),
+                        );
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 466c3d0..982e849 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4923,8 +4923,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        /* The value saturates: a number of any length is still a parameter */
+                        self.yylval = Yylval::I(
+                            i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX),
+                        );
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6433,8 +6435,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        /* The value saturates: a number of any length is still a parameter */
+                        self.yylval = Yylval::I(
+                            i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX),
+                        );
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
-- 
2.43.0


From 8d7a760cf11d70c132d2296e3fd03f41f5cce4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:53 +0000
Subject: [PATCH 03/22] fix: skip the \x prefix when decoding a hexadecimal
 escape

---
 crates/lexer-generator/resources/scan.l                       | 2 +-
 .../parser-generator/src/parser_generator/lexer/generated.rs  | 4 ++--
 crates/postgresql-cst-parser/src/lexer/generated.rs           | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 66185ca..56c8202 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -991,7 +991,7 @@ other			.
 					// if (c == '\0' || IS_HIGHBIT_SET(c))
 					// 	yyextra->saw_non_ascii = true;
 
-					let c = u32::from_str_radix(&self.input[self.index_bytes+1..self.index_bytes + self.yyleng], 16).unwrap();
+					let c = u32::from_str_radix(&self.input[self.index_bytes+2..self.index_bytes + self.yyleng], 16).unwrap();
 					let c = char::from_u32(c).unwrap();
 
 					// self.check_escape_warning();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 982e849..9098d8c 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5865,7 +5865,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 982e849..9098d8c 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5865,7 +5865,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
-- 
2.43.0


From 9639a466bab6e1b90eedeeaf36a9c731568b10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 04/22] fix: report a Unicode escape beyond U+10FFFF instead of
 panicking

---
 crates/lexer-generator/resources/scan.l                |  5 ++++-
 .../src/parser_generator/lexer/generated.rs            | 10 ++++++++--
 crates/postgresql-cst-parser/src/lexer/generated.rs    | 10 ++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 56c8202..600e1c7 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -862,7 +862,10 @@ other			.
 					} else if is_utf16_surrogate_second(c) {
 						yyerror!("invalid Unicode surrogate pair");
 					} else {
-						self.addunicode(char::from_u32(c as u32).unwrap())?;
+						match char::from_u32(c) {
+							Some(c) => self.addunicode(c)?,
+							None => yyerror!("invalid Unicode escape value"),
+						}
 					}
 
 					self.pop_yylloc();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 9098d8c..4fea112 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
@@ -5693,7 +5696,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 9098d8c..4fea112 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
@@ -5693,7 +5696,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
-- 
2.43.0


From 1bf0e71e3b6e3d94d658dcf484a9742674bd0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 05/22] fix: never end a lexer match inside a multi-byte
 character

---
 .../src/parser_generator/lexer/util.rs            | 15 ++++++++++++---
 crates/postgresql-cst-parser/src/lexer/util.rs    | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/util.rs b/crates/parser-generator/src/parser_generator/lexer/util.rs
index 0c28eed..66f2cc8 100644
--- a/crates/parser-generator/src/parser_generator/lexer/util.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/util.rs
@@ -5,6 +5,15 @@ use super::{
     generated::{State, get_keyword_map},
 };
 
+/// The patterns match single bytes, while the input is UTF-8:
+/// extend a match that ends inside a multi-byte character to the end of that character.
+fn ceil_char_boundary(s: &str, mut len: usize) -> usize {
+    while !s.is_char_boundary(len) {
+        len += 1;
+    }
+    len
+}
+
 impl Lexer {
     pub fn new(input: &str) -> Self {
         #[cfg(feature = "regex-match")]
@@ -76,7 +85,7 @@ impl Lexer {
             dfa_state_index = transition[dfa_state_index as usize][transition_index];
 
             if dfa_state_index == !0 {
-                return (longest_match, accept_rule);
+                return (ceil_char_boundary(s, longest_match), accept_rule);
             }
 
             if accept[dfa_state_index as usize] != !0 {
@@ -96,7 +105,7 @@ impl Lexer {
             }
         }
 
-        (longest_match, accept_rule)
+        (ceil_char_boundary(s, longest_match), accept_rule)
     }
 
     #[cfg(feature = "regex-match")]
@@ -126,7 +135,7 @@ impl Lexer {
         if eof {
             (0, kind)
         } else {
-            (longest_match, kind)
+            (ceil_char_boundary(s, longest_match), kind)
         }
     }
 
diff --git a/crates/postgresql-cst-parser/src/lexer/util.rs b/crates/postgresql-cst-parser/src/lexer/util.rs
index 0c28eed..66f2cc8 100644
--- a/crates/postgresql-cst-parser/src/lexer/util.rs
+++ b/crates/postgresql-cst-parser/src/lexer/util.rs
@@ -5,6 +5,15 @@ use super::{
     generated::{State, get_keyword_map},
 };
 
+/// The patterns match single bytes, while the input is UTF-8:
+/// extend a match that ends inside a multi-byte character to the end of that character.
+fn ceil_char_boundary(s: &str, mut len: usize) -> usize {
+    while !s.is_char_boundary(len) {
+        len += 1;
+    }
+    len
+}
+
 impl Lexer {
     pub fn new(input: &str) -> Self {
         #[cfg(feature = "regex-match")]
@@ -76,7 +85,7 @@ impl Lexer {
             dfa_state_index = transition[dfa_state_index as usize][transition_index];
 
             if dfa_state_index == !0 {
-                return (longest_match, accept_rule);
+                return (ceil_char_boundary(s, longest_match), accept_rule);
             }
 
             if accept[dfa_state_index as usize] != !0 {
@@ -96,7 +105,7 @@ impl Lexer {
             }
         }
 
-        (longest_match, accept_rule)
+        (ceil_char_boundary(s, longest_match), accept_rule)
     }
 
     #[cfg(feature = "regex-match")]
@@ -126,7 +135,7 @@ impl Lexer {
         if eof {
             (0, kind)
         } else {
-            (longest_match, kind)
+            (ceil_char_boundary(s, longest_match), kind)
         }
     }
 
-- 
2.43.0


From c3c066d12ece765bed93eb4ceef1c6e907905d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 06/22] fix: reject NUL bytes instead of treating them as the
 end of the input

---
 crates/parser-generator/src/parser_generator/lexer.rs | 10 ++++++++++
 crates/postgresql-cst-parser/src/lexer.rs             | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index bda28fe..e897277 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -157,6 +157,16 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // As in PostgreSQL, a NUL byte cannot be part of a query
+    // (the lexer tables use it to represent the end of the input)
+    if let Some(position) = input.find('\0') {
+        return Err(ParserError::new_report(
+            "invalid byte sequence for encoding \"UTF8\": 0x00",
+            "The input must not contain NUL bytes.",
+            position,
+        ));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index bda28fe..e897277 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -157,6 +157,16 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // As in PostgreSQL, a NUL byte cannot be part of a query
+    // (the lexer tables use it to represent the end of the input)
+    if let Some(position) = input.find('\0') {
+        return Err(ParserError::new_report(
+            "invalid byte sequence for encoding \"UTF8\": 0x00",
+            "The input must not contain NUL bytes.",
+            position,
+        ));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
-- 
2.43.0


From 8bc1ff94b63657ad3fdebe4334d40be4dc33bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 07/22] fix: report a token that does not occur in the grammar
 as a syntax error

---
 crates/parser-generator/templates/parser_template.rs |  5 ++++-
 crates/postgresql-cst-parser/src/cst.rs              | 12 ++++++++++++
 crates/postgresql-cst-parser/src/parser.rs           |  5 ++++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/parser-generator/templates/parser_template.rs b/crates/parser-generator/templates/parser_template.rs
index 547f5d3..2b4c595 100644
--- a/crates/parser-generator/templates/parser_template.rs
+++ b/crates/parser-generator/templates/parser_template.rs
@@ -33,9 +33,12 @@ pub(crate) fn end_rule_kind() -> TokenKind {{end_rule_kind}}
 
 pub(crate) fn end_rule_id() -> u32 {{end_rule_id}}
 
+/// The id of a token that does not occur in the grammar
+pub(crate) const UNDEFINED_COMPONENT_ID: u32 = u32::MAX;
+
 pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
     match kind {{token_to_component_id}
-    _ => unreachable!(),
+    _ => UNDEFINED_COMPONENT_ID,
     }
 }
 
diff --git a/crates/postgresql-cst-parser/src/cst.rs b/crates/postgresql-cst-parser/src/cst.rs
index 94b937f..ff9d53d 100644
--- a/crates/postgresql-cst-parser/src/cst.rs
+++ b/crates/postgresql-cst-parser/src/cst.rs
@@ -8,6 +8,7 @@ use crate::{
         end_rule_id, end_rule_kind, num_terminal_symbol, rule_name_to_component_id,
         token_kind_to_component_id, Action, ACTION_CHECK_TABLE, ACTION_DEF_RULE_TABLE,
         ACTION_TABLE, ACTION_TABLE_INDEX, GOTO_CHECK_TABLE, GOTO_TABLE, GOTO_TABLE_INDEX, RULES,
+        UNDEFINED_COMPONENT_ID,
     },
 };
 
@@ -179,6 +180,17 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
 
         let cid = token_kind_to_component_id(&token.kind);
 
+        if cid == UNDEFINED_COMPONENT_ID {
+            return Err(ParserError::ParseError {
+                message: format!(
+                    "Action::Error: syntax error at byte position {}",
+                    token.start_byte_pos
+                ),
+                start_byte_pos: token.start_byte_pos,
+                end_byte_pos: token.end_byte_pos,
+            });
+        }
+
         if matches!(token.kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT) {
             if last_pos < token.start_byte_pos {
                 extras.push((
diff --git a/crates/postgresql-cst-parser/src/parser.rs b/crates/postgresql-cst-parser/src/parser.rs
index ffbfb7d..03361d1 100644
--- a/crates/postgresql-cst-parser/src/parser.rs
+++ b/crates/postgresql-cst-parser/src/parser.rs
@@ -33032,6 +33032,9 @@ pub(crate) fn end_rule_id() -> u32 {
     126
 }
 
+/// The id of a token that does not occur in the grammar
+pub(crate) const UNDEFINED_COMPONENT_ID: u32 = u32::MAX;
+
 pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
     match kind {
         TokenKind::KEYWORD(s) if s == "ABORT_P" => 0,
@@ -33570,7 +33573,7 @@ pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
         TokenKind::KEYWORD(s) if s == "ZONE" => 533,
         TokenKind::C_COMMENT => 1262,
         TokenKind::SQL_COMMENT => 1263,
-        _ => unreachable!(),
+        _ => UNDEFINED_COMPONENT_ID,
     }
 }
 
-- 
2.43.0


From 02535cacc5c03ff4a42c66ba5beb05fe23f1f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 08/22] fix: accept identifiers and strings with Unicode
 escapes (U&"...", U&'...')

---
 crates/parser-generator/src/parser_generator/lexer.rs        | 2 ++
 .../src/parser_generator/lexer/lexer_ported.rs               | 5 ++++-
 crates/postgresql-cst-parser/src/lexer.rs                    | 2 ++
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs       | 5 ++++-
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index e897277..54a75dd 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -182,7 +182,9 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
             TokenKind::SCONST
                 | TokenKind::BCONST
                 | TokenKind::XCONST
+                | TokenKind::USCONST
                 | TokenKind::IDENT
+                | TokenKind::UIDENT
                 | TokenKind::C_COMMENT
         ) {
             lexer.yyllocend_bytes
diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 42cd07b..e69bc34 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -162,7 +162,7 @@ pub fn init_tokens(tokens: &mut [Token]) {
         None
     }
 
-    for i in 0..tokens.len() - 1 {
+    for i in 0..tokens.len() {
         match &tokens[i].kind {
             TokenKind::KEYWORD(k) if k == "FORMAT" => {
                 if let Some(j) = next_token_index(tokens, i) {
@@ -216,6 +216,9 @@ pub fn init_tokens(tokens: &mut [Token]) {
                     }
                 }
             }
+            // The parser only knows the plain forms
+            TokenKind::UIDENT => tokens[i].kind = TokenKind::IDENT,
+            TokenKind::USCONST => tokens[i].kind = TokenKind::SCONST,
             _ => (),
         }
     }
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index e897277..54a75dd 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -182,7 +182,9 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
             TokenKind::SCONST
                 | TokenKind::BCONST
                 | TokenKind::XCONST
+                | TokenKind::USCONST
                 | TokenKind::IDENT
+                | TokenKind::UIDENT
                 | TokenKind::C_COMMENT
         ) {
             lexer.yyllocend_bytes
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 42cd07b..e69bc34 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -162,7 +162,7 @@ pub fn init_tokens(tokens: &mut [Token]) {
         None
     }
 
-    for i in 0..tokens.len() - 1 {
+    for i in 0..tokens.len() {
         match &tokens[i].kind {
             TokenKind::KEYWORD(k) if k == "FORMAT" => {
                 if let Some(j) = next_token_index(tokens, i) {
@@ -216,6 +216,9 @@ pub fn init_tokens(tokens: &mut [Token]) {
                     }
                 }
             }
+            // The parser only knows the plain forms
+            TokenKind::UIDENT => tokens[i].kind = TokenKind::IDENT,
+            TokenKind::USCONST => tokens[i].kind = TokenKind::SCONST,
             _ => (),
         }
     }
-- 
2.43.0


From 16a36b50e677fb3b87657a0fe2d4cefdcad5cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 09/22] fix: keep an empty last alternative of a pattern

---
 crates/automata/src/regexp.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 5e9c230..bae677e 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -339,10 +339,9 @@ impl RegexpParser {
             }
         }
 
+        // An empty last alternative, as in (a|), matches the empty string
         let nodes = self.parsing_context_stack.pop().unwrap();
-        if !nodes.is_empty() {
-            alt_nodes.push(RegexpNode::concat(nodes));
-        }
+        alt_nodes.push(RegexpNode::concat(nodes));
 
         RegexpNode::alternate(alt_nodes)
     }
-- 
2.43.0


From d91006047a0f7b4f8a00cdf22371027e186065dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 10/22] fix: only match the end of the input once all bytes are
 consumed

---
 crates/automata/src/dfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/automata/src/dfa.rs b/crates/automata/src/dfa.rs
index 5e393fd..10d2827 100644
--- a/crates/automata/src/dfa.rs
+++ b/crates/automata/src/dfa.rs
@@ -32,7 +32,7 @@ impl DFA {
         for &b in bs {
             let next_state = self.states[state].transitions[b as usize];
             if next_state == INVALID_STATE {
-                break;
+                return accepted;
             }
 
             if self.states[next_state].accept_lexer_rule_id.is_some() {
-- 
2.43.0


From d6727aaa98879b6b9570dfe542702f132b945b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 11/22] fix: limit hexadecimal and octal escapes of a pattern
 to two and three digits

---
 crates/automata/src/regexp.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index bae677e..467d8c0 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -91,8 +91,9 @@ impl RegexpParser {
             b'v' => b'\x0b',
             b'x' => {
                 let mut v = 0;
+                let end = self.bytes.len().min(self.index + 2);
 
-                while self.index < self.bytes.len() {
+                while self.index < end {
                     let c = self.bytes[self.index];
 
                     if !c.is_ascii_hexdigit() {
@@ -113,17 +114,18 @@ impl RegexpParser {
                 v
             }
             // If no format specified, treat as octal number
-            b'0'..=b'9' => {
+            b'0'..=b'7' => {
                 let mut v = c - b'0';
+                let end = self.bytes.len().min(self.index + 2);
 
-                while self.index < self.bytes.len() {
+                while self.index < end {
                     let c = self.bytes[self.index];
 
-                    if !c.is_ascii_digit() {
+                    if !matches!(c, b'0'..=b'7') {
                         break;
                     }
 
-                    v = v * 8 + (c - b'0');
+                    v = v.wrapping_mul(8).wrapping_add(c - b'0');
                     self.index += 1;
                 }
 
-- 
2.43.0


From 3b10fba47a665241205cd41ab6c96bbe87b73c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 12/22] fix: support start conditions without patterns

---
 crates/automata/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/automata/src/lib.rs b/crates/automata/src/lib.rs
index b8c829c..443662b 100644
--- a/crates/automata/src/lib.rs
+++ b/crates/automata/src/lib.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 
 use dfa::{DFA, INVALID_STATE};
 use nfa::{NFA, NFAState, Transition};
@@ -175,11 +175,12 @@ pub fn to_flex_pattern_dfa(
         named_pattern_definitions.insert(name_definition.name.clone(), regex);
     }
 
+    // The ids need not be contiguous: a start condition may be without patterns
     let num_state = pattern_defs
         .iter()
         .flat_map(|p| p.state_set.iter().cloned())
-        .collect::<HashSet<_>>()
-        .len();
+        .max()
+        .map_or(0, |id| id + 1);
 
     let state_start_node = (0..num_state).map(|_| nfa.new_state()).collect::<Vec<_>>();
 
-- 
2.43.0


From 6b1640e4d442be5e625963328b149ac09ed637c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:35 +0000
Subject: [PATCH 13/22] verif: observation points for the scanner (cfg
 pgcst_verif)

---
 crates/postgresql-cst-parser/src/lib.rs       |  5 ++++
 .../postgresql-cst-parser/src/verif_hooks.rs  | 23 +++++++++++++++++++
 2 files changed, 28 insertions(+)
 create mode 100644 crates/postgresql-cst-parser/src/verif_hooks.rs

diff --git a/crates/postgresql-cst-parser/src/lib.rs b/crates/postgresql-cst-parser/src/lib.rs
index 8f212e6..01ee388 100644
--- a/crates/postgresql-cst-parser/src/lib.rs
+++ b/crates/postgresql-cst-parser/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(non_camel_case_types)]
+#![allow(unexpected_cfgs)]
 
 mod lexer;
 
@@ -7,6 +8,10 @@ mod parser;
 mod cst;
 pub mod syntax_kind;
 
+#[cfg(pgcst_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
+
 pub use cst::NodeOrToken;
 pub use cst::PostgreSQLSyntax;
 pub use cst::ResolvedNode;
diff --git a/crates/postgresql-cst-parser/src/verif_hooks.rs b/crates/postgresql-cst-parser/src/verif_hooks.rs
new file mode 100644
index 0000000..2e5d4f1
--- /dev/null
+++ b/crates/postgresql-cst-parser/src/verif_hooks.rs
@@ -0,0 +1,23 @@
+//! Observation points for the verification harness (only with `--cfg pgcst_verif`).
+
+use crate::lexer::{lex, lexer_ported::init_tokens, parser_error::ParserError, Token};
+
+/// Kind, start and end (in bytes) of a token.
+pub type TokenRecord = (String, usize, usize);
+
+fn record(tokens: &[Token]) -> Vec<TokenRecord> {
+    tokens
+        .iter()
+        .map(|t| (t.kind.to_id(), t.start_byte_pos, t.end_byte_pos))
+        .collect()
+}
+
+/// The tokens of the scanner, and the same tokens as the parser sees them.
+pub fn tokens(input: &str) -> Result<(Vec<TokenRecord>, Vec<TokenRecord>), ParserError> {
+    let mut tokens = lex(input)?;
+    let scanned = record(&tokens);
+    if !tokens.is_empty() {
+        init_tokens(&mut tokens);
+    }
+    Ok((scanned, record(&tokens)))
+}
-- 
2.43.0


From 00694b1152d9f7c86848c589309fff5b914770f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:06 +0000
Subject: [PATCH 14/22] fix: '.' in a scanner pattern does not match a newline

---
 crates/automata/src/regexp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 467d8c0..b888e31 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -307,7 +307,8 @@ impl RegexpParser {
             }
             b'.' => {
                 self.index += 1;
-                RegexpNode::NoneOf(Vec::new())
+                // Any byte except newline
+                RegexpNode::NoneOf(vec![b'\n'])
             }
             b']' | b')' | b'}' => unreachable!(),
             _ => {
-- 
2.43.0


From ba7c934475431ce1b2f01e415eec2c656d4cc1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 15/22] verif: table lookups for the harness (cfg pgcst_verif)

---
 crates/postgresql-cst-parser/src/cst.rs       | 35 +++++++++++++++++++
 .../postgresql-cst-parser/src/verif_hooks.rs  | 21 +++++++++++
 2 files changed, 56 insertions(+)

diff --git a/crates/postgresql-cst-parser/src/cst.rs b/crates/postgresql-cst-parser/src/cst.rs
index ff9d53d..2a07759 100644
--- a/crates/postgresql-cst-parser/src/cst.rs
+++ b/crates/postgresql-cst-parser/src/cst.rs
@@ -133,6 +133,41 @@ fn lookup_goto_state(state: u32, cid: u32) -> i16 {
     }
 }
 
+/// The tables as the parser looks them up (only with `--cfg pgcst_verif`)
+#[cfg(pgcst_verif)]
+pub(crate) mod verif_tables {
+    use crate::parser::{
+        end_rule_id, num_non_terminal_symbol, num_terminal_symbol, rule_name_to_component_id,
+        ACTION_TABLE_INDEX, RULES,
+    };
+
+    pub(crate) fn action(state: u32, cid: u32) -> i16 {
+        super::lookup_parser_action(state, cid)
+    }
+
+    pub(crate) fn goto(state: u32, cid: u32) -> i16 {
+        super::lookup_goto_state(state, cid)
+    }
+
+    /// States, terminals, non-terminals, id of the end of the input
+    pub(crate) fn sizes() -> (u32, u32, u32, u32) {
+        (
+            ACTION_TABLE_INDEX.len() as u32,
+            num_terminal_symbol(),
+            num_non_terminal_symbol(),
+            end_rule_id(),
+        )
+    }
+
+    /// Left-hand side and length of every production
+    pub(crate) fn rules() -> Vec<(u32, usize)> {
+        RULES
+            .iter()
+            .map(|r| (rule_name_to_component_id(r.name), r.len))
+            .collect()
+    }
+}
+
 /// Parsing a string as PostgreSQL syntax and converting it into a ResolvedNode
 pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
     let mut tokens = lex(input)?;
diff --git a/crates/postgresql-cst-parser/src/verif_hooks.rs b/crates/postgresql-cst-parser/src/verif_hooks.rs
index 2e5d4f1..8d60f3d 100644
--- a/crates/postgresql-cst-parser/src/verif_hooks.rs
+++ b/crates/postgresql-cst-parser/src/verif_hooks.rs
@@ -1,5 +1,6 @@
 //! Observation points for the verification harness (only with `--cfg pgcst_verif`).
 
+use crate::cst::verif_tables as tables;
 use crate::lexer::{lex, lexer_ported::init_tokens, parser_error::ParserError, Token};
 
 /// Kind, start and end (in bytes) of a token.
@@ -21,3 +22,23 @@ pub fn tokens(input: &str) -> Result<(Vec<TokenRecord>, Vec<TokenRecord>), Parse
     }
     Ok((scanned, record(&tokens)))
 }
+
+/// What the parser does in a state on a terminal (see `lookup_parser_action`).
+pub fn action(state: u32, terminal: u32) -> i16 {
+    tables::action(state, terminal)
+}
+
+/// The state entered from a state after a non-terminal (see `lookup_goto_state`).
+pub fn goto(state: u32, non_terminal: u32) -> i16 {
+    tables::goto(state, non_terminal)
+}
+
+/// Number of states, of terminals and of non-terminals, and the terminal that ends the input.
+pub fn table_sizes() -> (u32, u32, u32, u32) {
+    tables::sizes()
+}
+
+/// Left-hand side (a non-terminal) and length of every production.
+pub fn productions() -> Vec<(u32, usize)> {
+    tables::rules()
+}
-- 
2.43.0


From 673bfacd3428fe47687862716a76480511de8955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 16/22] fix: a state without actions is not a panic of the
 table compression

---
 crates/parser-generator/src/parser_generator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parser-generator/src/parser_generator.rs b/crates/parser-generator/src/parser_generator.rs
index 194ee80..3977496 100644
--- a/crates/parser-generator/src/parser_generator.rs
+++ b/crates/parser-generator/src/parser_generator.rs
@@ -82,7 +82,10 @@ fn compress_action_table(
             }
         }
 
-        cnt.iter().max_by_key(|(_, v)| *v).map(|(k, _)| *k).unwrap()
+        // A nonassociative conflict can leave a state without any action
+        cnt.iter()
+            .max_by_key(|(_, v)| *v)
+            .map_or(ERROR_ACTION_CODE, |(k, _)| *k)
     }
 
     for state_index in 0..lalr.state_set.states.len() {
-- 
2.43.0


From 5ae913d9f92f3a738d2317dd1cb69436da2531be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 17/22] fix: %prec takes a character literal too

---
 crates/parser-generator/src/parser_generator/bison.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 2f5a201..be55268 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -533,7 +533,8 @@ fn parse_grammar_rules(bison: &mut Bison, body: String) {
             for i in (0..rule.len()).rev() {
                 if matches!(rule[i], BisonToken::Prec { .. }) {
                     prec = Some(match &rule[i + 1] {
-                        BisonToken::Identifier { value, .. } => value.clone(),
+                        BisonToken::Identifier { value, .. }
+                        | BisonToken::Literal { value, .. } => value.clone(),
                         _ => unreachable!(),
                     });
 
-- 
2.43.0


From d7012793d142844b1de9f806a3b482845d5e9dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 18/22] fix: the position of a literal in a grammar file
 includes its closing quote

---
 crates/parser-generator/src/parser_generator/bison.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index be55268..06b2db5 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -430,6 +430,7 @@ fn scan(body: String) -> Vec<BisonToken> {
             }
 
             value.push('\'');
+            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
 
             tokens.push(BisonToken::Literal {
                 range: Range {
@@ -443,7 +444,6 @@ fn scan(body: String) -> Vec<BisonToken> {
                 value,
             });
 
-            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
             continue;
         }
 
-- 
2.43.0


From eb75a830732e61b7bcde655c7e6b39ccf5126791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 19/22] fix: the end of a comment in a grammar file, such as
 /**/

---
 .../src/parser_generator/bison.rs             | 39 ++++++++-----------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 06b2db5..7633820 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -291,6 +291,20 @@ impl BisonToken {
     }
 }
 
+/// If a comment starts at `i`, the position after it
+fn skip_comment(chars: &[char], i: usize) -> Option<usize> {
+    let (end, len): (&[char], usize) = if chars[i..].starts_with(&['/', '*']) {
+        (&['*', '/'], 2)
+    } else if chars[i..].starts_with(&['/', '/']) {
+        (&['\n'], 0)
+    } else {
+        return None;
+    };
+
+    let pos = chars[i + 2..].windows(end.len()).position(|w| w == end);
+    Some(pos.map_or(chars.len(), |pos| i + 2 + pos + len))
+}
+
 /// scan bison's grammar file
 fn scan(body: String) -> Vec<BisonToken> {
     let mut tokens = Vec::new();
@@ -391,30 +405,11 @@ fn scan(body: String) -> Vec<BisonToken> {
             continue;
         }
 
-        if c == '/' {
-            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
-
-            let c: char = chars[i];
-            if c == '/' {
-                while chars[i] != '\n' {
-                    update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
-                }
-
+        if let Some(end) = skip_comment(&chars, i) {
+            while i < end {
                 update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
-                continue;
             }
-
-            if c == '*' {
-                while !chars[i..].starts_with(&['*', '/']) {
-                    update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
-                }
-
-                update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
-                update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
-                continue;
-            }
-
-            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+            continue;
         }
 
         if c == '\'' {
-- 
2.43.0


From e1e423b094a68f3d1246a4930a201c9173088032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 20/22] fix: braces in comments and strings of an action do not
 count

---
 .../src/parser_generator/bison.rs             | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 7633820..a5d8612 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -305,6 +305,20 @@ fn skip_comment(chars: &[char], i: usize) -> Option<usize> {
     Some(pos.map_or(chars.len(), |pos| i + 2 + pos + len))
 }
 
+/// If a string or a character constant starts at `i`, the position after it
+fn skip_quoted(chars: &[char], i: usize) -> Option<usize> {
+    let quote = chars[i];
+    if quote != '"' && quote != '\'' {
+        return None;
+    }
+
+    let mut j = i + 1;
+    while j < chars.len() && chars[j] != quote {
+        j += if chars[j] == '\\' { 2 } else { 1 };
+    }
+    Some((j + 1).min(chars.len()))
+}
+
 /// scan bison's grammar file
 fn scan(body: String) -> Vec<BisonToken> {
     let mut tokens = Vec::new();
@@ -390,6 +404,15 @@ fn scan(body: String) -> Vec<BisonToken> {
         if c == '{' {
             let mut depth = 0;
             loop {
+                // Braces in comments, strings and character constants do not count
+                let end = skip_comment(&chars, i).or_else(|| skip_quoted(&chars, i));
+                if let Some(end) = end {
+                    while i < end {
+                        update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                    }
+                    continue;
+                }
+
                 match chars[i] {
                     '{' => depth += 1,
                     '}' => depth -= 1,
-- 
2.43.0


From fcc33c029c5e0709a69572a6beec06c55115ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 21/22] fix: comments among the precedence declarations of a
 grammar file

---
 .../src/parser_generator/bison.rs             | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index a5d8612..af63f90 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -238,12 +238,6 @@ fn parse_assoc(
 
     loop {
         for name in line.split_whitespace() {
-            // If we find the start of a block comment, end
-            // This is rough but works fine for parsing postgresql's grammar
-            if name == "/*" {
-                break;
-            }
-
             let assoc = Assoc {
                 name: name.to_string(),
                 priority,
@@ -528,6 +522,32 @@ fn scan(body: String) -> Vec<BisonToken> {
     tokens
 }
 
+/// Remove the comments in the declarations, which end with the first %%.
+/// Line breaks in comments are kept.
+fn remove_declaration_comments(s: &str) -> String {
+    let (declarations, rules) = match s.find("\n%%") {
+        Some(pos) => s.split_at(pos),
+        None => ("", s),
+    };
+
+    let chars = declarations.chars().collect::<Vec<_>>();
+    let mut res = String::new();
+    let mut i = 0;
+    while i < chars.len() {
+        if let Some(end) = skip_comment(&chars, i) {
+            res.push(' ');
+            res.extend(chars[i..end].iter().filter(|&&c| c == '\n'));
+            i = end;
+        } else {
+            let end = skip_quoted(&chars, i).unwrap_or(i + 1);
+            res.extend(&chars[i..end]);
+            i = end;
+        }
+    }
+
+    res + rules
+}
+
 fn parse_grammar_rules(bison: &mut Bison, body: String) {
     let tokens = scan(body);
 
@@ -599,8 +619,7 @@ fn parse_grammar_rules(bison: &mut Bison, body: String) {
 }
 
 pub fn parse_bison(s: impl AsRef<str>) -> Bison {
-    let mut deq = s
-        .as_ref()
+    let mut deq = remove_declaration_comments(s.as_ref())
         .lines()
         .map(str::to_owned)
         .collect::<VecDeque<_>>();
-- 
2.43.0


From 501a26d76e03892670c2a83d4908d041a8854dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 22/22] verif: scanner automata and keywords for the harness
 (cfg pgcst_verif_scan)

---
 crates/postgresql-cst-parser/src/lexer.rs     | 59 +++++++++++++++++++
 .../postgresql-cst-parser/src/verif_hooks.rs  | 18 ++++++
 2 files changed, 77 insertions(+)

diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index 54a75dd..9e8a506 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -156,6 +156,65 @@ pub struct Token {
     pub value: String,
 }
 
+/// What the scanner is made of (only with `--cfg pgcst_verif_scan`)
+#[cfg(pgcst_verif_scan)]
+pub(crate) mod verif_scan {
+    use super::generated;
+    #[cfg(not(feature = "regex-match"))]
+    use super::generated::State;
+
+    #[cfg(not(feature = "regex-match"))]
+    const STATES: [State; 12] = [
+        State::INITIAL,
+        State::xb,
+        State::xc,
+        State::xd,
+        State::xh,
+        State::xq,
+        State::xqs,
+        State::xe,
+        State::xdolq,
+        State::xui,
+        State::xus,
+        State::xeu,
+    ];
+
+    pub(crate) fn keywords() -> Vec<(String, String)> {
+        generated::get_keyword_map()
+            .into_iter()
+            .map(|(k, v)| (k.to_string(), v.to_string()))
+            .collect()
+    }
+
+    /// Start condition, transitions and accepted rules (255: none)
+    #[cfg(not(feature = "regex-match"))]
+    pub(crate) fn automata() -> Vec<(String, Vec<[u8; 256]>, Vec<u8>)> {
+        STATES
+            .iter()
+            .map(|&s| {
+                let (transitions, accept) = generated::dfa::get_dfa_table(s);
+                (format!("{s:?}"), transitions.to_vec(), accept.to_vec())
+            })
+            .collect()
+    }
+
+    /// Start condition, name, pattern, and whether the rule is for the end of the input
+    #[cfg(feature = "regex-match")]
+    pub(crate) fn rules() -> Vec<(String, String, String, bool)> {
+        generated::get_rules()
+            .iter()
+            .map(|rule| {
+                (
+                    format!("{:?}", rule.state),
+                    format!("{:?}", rule.kind),
+                    rule.pattern.as_str().to_string(),
+                    rule.eof,
+                )
+            })
+            .collect()
+    }
+}
+
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
     // As in PostgreSQL, a NUL byte cannot be part of a query
     // (the lexer tables use it to represent the end of the input)
diff --git a/crates/postgresql-cst-parser/src/verif_hooks.rs b/crates/postgresql-cst-parser/src/verif_hooks.rs
index 8d60f3d..cea8f13 100644
--- a/crates/postgresql-cst-parser/src/verif_hooks.rs
+++ b/crates/postgresql-cst-parser/src/verif_hooks.rs
@@ -42,3 +42,21 @@ pub fn table_sizes() -> (u32, u32, u32, u32) {
 pub fn productions() -> Vec<(u32, usize)> {
     tables::rules()
 }
+
+/// The keywords the scanner looks up, and their terminals.
+#[cfg(pgcst_verif_scan)]
+pub fn keywords() -> Vec<(String, String)> {
+    crate::lexer::verif_scan::keywords()
+}
+
+/// The automaton of each start condition: transitions (255: none) and accepted rules (255: none).
+#[cfg(all(pgcst_verif_scan, not(feature = "regex-match")))]
+pub fn automata() -> Vec<(String, Vec<[u8; 256]>, Vec<u8>)> {
+    crate::lexer::verif_scan::automata()
+}
+
+/// The rules of the regex engine: start condition, name, pattern, for the end of the input.
+#[cfg(all(pgcst_verif_scan, feature = "regex-match"))]
+pub fn regex_rules() -> Vec<(String, String, String, bool)> {
+    crate::lexer::verif_scan::rules()
+}
-- 
2.43.0

