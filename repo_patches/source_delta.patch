From 2c8fd5b8e89ec0cd793c60dd90ab84a3b3c0ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 01/17] fix: accept binary integer literals and underscores in
 integer literals

---
 .../src/parser_generator/lexer/lexer_ported.rs         | 10 +++++++---
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 0d1ed6b..d4833f1 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -119,10 +119,14 @@ impl Lexer {
             _ => (),
         }
 
+        // Underscores may separate digits and do not contribute to the value
+        let digits = yytext.replace('_', "");
+
         let res_parse_as_i32 = match radix {
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 => i32::from_str_radix(&digits[2..], 2),
+            8 => i32::from_str_radix(&digits[2..], 8),
+            10 => digits.parse::<i32>(),
+            16 => i32::from_str_radix(&digits[2..], 16),
             _ => unreachable!(),
         };
 
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 0d1ed6b..d4833f1 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -119,10 +119,14 @@ impl Lexer {
             _ => (),
         }
 
+        // Underscores may separate digits and do not contribute to the value
+        let digits = yytext.replace('_', "");
+
         let res_parse_as_i32 = match radix {
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 => i32::from_str_radix(&digits[2..], 2),
+            8 => i32::from_str_radix(&digits[2..], 8),
+            10 => digits.parse::<i32>(),
+            16 => i32::from_str_radix(&digits[2..], 16),
             _ => unreachable!(),
         };
 
-- 
2.43.0


From 4475616aa4671013615e7163ec7db5ac5310d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 02/17] fix: parse the digits of \x escapes in E strings after
 the x

---
 crates/lexer-generator/resources/scan.l                       | 2 +-
 .../parser-generator/src/parser_generator/lexer/generated.rs  | 4 ++--
 crates/postgresql-cst-parser/src/lexer/generated.rs           | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 4663d12..74962e8 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -991,7 +991,7 @@ other			.
 					// if (c == '\0' || IS_HIGHBIT_SET(c))
 					// 	yyextra->saw_non_ascii = true;
 
-					let c = u32::from_str_radix(&self.input[self.index_bytes+1..self.index_bytes + self.yyleng], 16).unwrap();
+					let c = u32::from_str_radix(&self.input[self.index_bytes+2..self.index_bytes + self.yyleng], 16).unwrap();
 					let c = char::from_u32(c).unwrap();
 
 					// self.check_escape_warning();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 466c3d0..42b8026 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5863,7 +5863,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 466c3d0..42b8026 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5863,7 +5863,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
-- 
2.43.0


From f6bbf738d1332484250b8d6ffe1467268428e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 03/17] fix: report Unicode escapes above the code point range
 instead of panicking

---
 crates/lexer-generator/resources/scan.l                |  5 ++++-
 .../src/parser_generator/lexer/generated.rs            | 10 ++++++++--
 crates/postgresql-cst-parser/src/lexer/generated.rs    | 10 ++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 74962e8..9fe0bde 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -862,7 +862,10 @@ other			.
 					} else if is_utf16_surrogate_second(c) {
 						yyerror!("invalid Unicode surrogate pair");
 					} else {
-						self.addunicode(char::from_u32(c as u32).unwrap())?;
+						match char::from_u32(c) {
+							Some(c) => self.addunicode(c)?,
+							None => yyerror!("invalid Unicode escape value"),
+						}
 					}
 
 					self.pop_yylloc();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 42b8026..f96c5d5 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
@@ -5691,7 +5694,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 42b8026..f96c5d5 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
@@ -5691,7 +5694,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
-- 
2.43.0


From 54797078a740a6a66fac01d11511c22e564406f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 04/17] fix: report parameter numbers that do not fit instead
 of panicking

---
 crates/lexer-generator/resources/scan.l              |  5 ++++-
 .../src/parser_generator/lexer/generated.rs          | 12 ++++++++----
 crates/postgresql-cst-parser/src/lexer/generated.rs  | 12 ++++++++----
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 9fe0bde..b4cc659 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -1486,7 +1486,10 @@ other			.
 					// return PARAM;
 
 					self.set_yylloc();
-					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+					self.yylval = match i32::from_str_radix(&self.yytext()[1..], 10) {
+						Ok(v) => Yylval::I(v),
+						Err(_) => yyerror!("parameter number too large"),
+					};
 					return Ok(Some(TokenKind::PARAM));
 				}
 
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index f96c5d5..d99b2f1 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4926,8 +4926,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        self.yylval = match i32::from_str_radix(&self.yytext()[1..], 10) {
+                            Ok(v) => Yylval::I(v),
+                            Err(_) => yyerror!("parameter number too large"),
+                        };
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6439,8 +6441,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        self.yylval = match i32::from_str_radix(&self.yytext()[1..], 10) {
+                            Ok(v) => Yylval::I(v),
+                            Err(_) => yyerror!("parameter number too large"),
+                        };
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index f96c5d5..d99b2f1 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4926,8 +4926,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        self.yylval = match i32::from_str_radix(&self.yytext()[1..], 10) {
+                            Ok(v) => Yylval::I(v),
+                            Err(_) => yyerror!("parameter number too large"),
+                        };
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6439,8 +6441,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        self.yylval = match i32::from_str_radix(&self.yytext()[1..], 10) {
+                            Ok(v) => Yylval::I(v),
+                            Err(_) => yyerror!("parameter number too large"),
+                        };
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
-- 
2.43.0


From 8342bc5f895d0d5021b53f978bc7ff3b3321d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 05/17] fix: never end a lexer match inside a multi-byte
 character

---
 .../src/parser_generator/lexer/util.rs        | 26 +++++++++++++++++++
 .../postgresql-cst-parser/src/lexer/util.rs   | 26 +++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer/util.rs b/crates/parser-generator/src/parser_generator/lexer/util.rs
index 0c28eed..57aa441 100644
--- a/crates/parser-generator/src/parser_generator/lexer/util.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/util.rs
@@ -61,6 +61,19 @@ impl Lexer {
 
     #[cfg(not(feature = "regex-match"))]
     pub fn find_match_len(&self) -> (usize, u8) {
+        let (mut match_len, accept_rule) = self.find_longest_match();
+
+        // Some patterns match a single byte, which may be the first byte of a multi-byte character.
+        // Never split a character.
+        while !self.input.is_char_boundary(self.index_bytes + match_len) {
+            match_len += 1;
+        }
+
+        (match_len, accept_rule)
+    }
+
+    #[cfg(not(feature = "regex-match"))]
+    fn find_longest_match(&self) -> (usize, u8) {
         use super::generated::dfa::get_dfa_table;
 
         let s = &self.input[self.index_bytes..];
@@ -101,6 +114,19 @@ impl Lexer {
 
     #[cfg(feature = "regex-match")]
     pub fn find_match_len(&self) -> (usize, super::generated::RuleKind) {
+        let (mut match_len, kind) = self.find_longest_match();
+
+        // Some patterns match a single byte, which may be the first byte of a multi-byte character.
+        // Never split a character.
+        while !self.input.is_char_boundary(self.index_bytes + match_len) {
+            match_len += 1;
+        }
+
+        (match_len, kind)
+    }
+
+    #[cfg(feature = "regex-match")]
+    fn find_longest_match(&self) -> (usize, super::generated::RuleKind) {
         let rules = self.rules.iter().filter(|rule| rule.state == self.state);
 
         let s = &self.input[self.index_bytes..];
diff --git a/crates/postgresql-cst-parser/src/lexer/util.rs b/crates/postgresql-cst-parser/src/lexer/util.rs
index 0c28eed..57aa441 100644
--- a/crates/postgresql-cst-parser/src/lexer/util.rs
+++ b/crates/postgresql-cst-parser/src/lexer/util.rs
@@ -61,6 +61,19 @@ impl Lexer {
 
     #[cfg(not(feature = "regex-match"))]
     pub fn find_match_len(&self) -> (usize, u8) {
+        let (mut match_len, accept_rule) = self.find_longest_match();
+
+        // Some patterns match a single byte, which may be the first byte of a multi-byte character.
+        // Never split a character.
+        while !self.input.is_char_boundary(self.index_bytes + match_len) {
+            match_len += 1;
+        }
+
+        (match_len, accept_rule)
+    }
+
+    #[cfg(not(feature = "regex-match"))]
+    fn find_longest_match(&self) -> (usize, u8) {
         use super::generated::dfa::get_dfa_table;
 
         let s = &self.input[self.index_bytes..];
@@ -101,6 +114,19 @@ impl Lexer {
 
     #[cfg(feature = "regex-match")]
     pub fn find_match_len(&self) -> (usize, super::generated::RuleKind) {
+        let (mut match_len, kind) = self.find_longest_match();
+
+        // Some patterns match a single byte, which may be the first byte of a multi-byte character.
+        // Never split a character.
+        while !self.input.is_char_boundary(self.index_bytes + match_len) {
+            match_len += 1;
+        }
+
+        (match_len, kind)
+    }
+
+    #[cfg(feature = "regex-match")]
+    fn find_longest_match(&self) -> (usize, super::generated::RuleKind) {
         let rules = self.rules.iter().filter(|rule| rule.state == self.state);
 
         let s = &self.input[self.index_bytes..];
-- 
2.43.0


From ca1a0a7a2a2bd05a46a5075c6f4d81eb55114224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 06/17] fix: report tokens unknown to the grammar as syntax
 errors instead of panicking

---
 .../templates/parser_template.rs                 | 10 ++++++----
 crates/postgresql-cst-parser/src/cst.rs          | 16 ++++++++++++++--
 crates/postgresql-cst-parser/src/parser.rs       | 10 ++++++----
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/crates/parser-generator/templates/parser_template.rs b/crates/parser-generator/templates/parser_template.rs
index 547f5d3..1467d3a 100644
--- a/crates/parser-generator/templates/parser_template.rs
+++ b/crates/parser-generator/templates/parser_template.rs
@@ -33,10 +33,12 @@ pub(crate) fn end_rule_kind() -> TokenKind {{end_rule_kind}}
 
 pub(crate) fn end_rule_id() -> u32 {{end_rule_id}}
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {{token_to_component_id}
-    _ => unreachable!(),
-    }
+/// Returns None for a token that does not appear in the grammar
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    let id = match kind {{token_to_component_id}
+    _ => return None,
+    };
+    Some(id)
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
diff --git a/crates/postgresql-cst-parser/src/cst.rs b/crates/postgresql-cst-parser/src/cst.rs
index 94b937f..6f5d637 100644
--- a/crates/postgresql-cst-parser/src/cst.rs
+++ b/crates/postgresql-cst-parser/src/cst.rs
@@ -177,7 +177,16 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             }
         };
 
-        let cid = token_kind_to_component_id(&token.kind);
+        let cid = match token_kind_to_component_id(&token.kind) {
+            Some(cid) => cid,
+            None => {
+                return Err(ParserError::ParseError {
+                    message: format!("syntax error at byte position {}", token.start_byte_pos),
+                    start_byte_pos: token.start_byte_pos,
+                    end_byte_pos: token.end_byte_pos,
+                });
+            }
+        };
 
         if matches!(token.kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT) {
             if last_pos < token.start_byte_pos {
@@ -323,7 +332,10 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             break;
         }
 
-        let cid = token_kind_to_component_id(&token.kind);
+        let cid = match token_kind_to_component_id(&token.kind) {
+            Some(cid) => cid,
+            None => continue,
+        };
         let kind = SyntaxKind::from_raw(RawSyntaxKind(cid));
         extras.push((
             kind,
diff --git a/crates/postgresql-cst-parser/src/parser.rs b/crates/postgresql-cst-parser/src/parser.rs
index ffbfb7d..47cff4d 100644
--- a/crates/postgresql-cst-parser/src/parser.rs
+++ b/crates/postgresql-cst-parser/src/parser.rs
@@ -33032,8 +33032,9 @@ pub(crate) fn end_rule_id() -> u32 {
     126
 }
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {
+/// Returns None for a token that does not appear in the grammar
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    let id = match kind {
         TokenKind::KEYWORD(s) if s == "ABORT_P" => 0,
         TokenKind::KEYWORD(s) if s == "ABSENT" => 1,
         TokenKind::KEYWORD(s) if s == "ABSOLUTE_P" => 2,
@@ -33570,8 +33571,9 @@ pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
         TokenKind::KEYWORD(s) if s == "ZONE" => 533,
         TokenKind::C_COMMENT => 1262,
         TokenKind::SQL_COMMENT => 1263,
-        _ => unreachable!(),
-    }
+        _ => return None,
+    };
+    Some(id)
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
-- 
2.43.0


From 9d2a7fc8d38a1e37a5399c4f4440b7863f20b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 07/17] fix: reject null characters instead of dropping the
 rest of the input

---
 crates/parser-generator/src/parser_generator/lexer.rs | 5 +++++
 crates/postgresql-cst-parser/src/lexer.rs             | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index bda28fe..123c745 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -157,6 +157,11 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // The lexer treats a null character as the end of the input
+    if input.contains('\0') {
+        return Err(ParserError::new_error("null character not permitted"));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index bda28fe..123c745 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -157,6 +157,11 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // The lexer treats a null character as the end of the input
+    if input.contains('\0') {
+        return Err(ParserError::new_error("null character not permitted"));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
-- 
2.43.0


From f55b7f71d4c3b2118cca2d0c481014d8bfde8891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 08/17] fix: accept string constants and identifiers with
 Unicode escapes

---
 crates/parser-generator/src/parser_generator/lexer.rs | 9 +++++++++
 crates/postgresql-cst-parser/src/lexer.rs             | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index 123c745..182483d 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -177,7 +177,9 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
             TokenKind::SCONST
                 | TokenKind::BCONST
                 | TokenKind::XCONST
+                | TokenKind::USCONST
                 | TokenKind::IDENT
+                | TokenKind::UIDENT
                 | TokenKind::C_COMMENT
         ) {
             lexer.yyllocend_bytes
@@ -185,6 +187,13 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
             lexer.yylloc_bytes + lexer.yyleng
         };
 
+        // Like PostgreSQL's base_yylex, pass constants and identifiers with Unicode escapes as plain ones
+        let kind = match kind {
+            TokenKind::USCONST => TokenKind::SCONST,
+            TokenKind::UIDENT => TokenKind::IDENT,
+            kind => kind,
+        };
+
         tokens.push(Token {
             start_byte_pos,
             end_byte_pos,
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index 123c745..182483d 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -177,7 +177,9 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
             TokenKind::SCONST
                 | TokenKind::BCONST
                 | TokenKind::XCONST
+                | TokenKind::USCONST
                 | TokenKind::IDENT
+                | TokenKind::UIDENT
                 | TokenKind::C_COMMENT
         ) {
             lexer.yyllocend_bytes
@@ -185,6 +187,13 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
             lexer.yylloc_bytes + lexer.yyleng
         };
 
+        // Like PostgreSQL's base_yylex, pass constants and identifiers with Unicode escapes as plain ones
+        let kind = match kind {
+            TokenKind::USCONST => TokenKind::SCONST,
+            TokenKind::UIDENT => TokenKind::IDENT,
+            kind => kind,
+        };
+
         tokens.push(Token {
             start_byte_pos,
             end_byte_pos,
-- 
2.43.0


From 5a56863ec7a541ed665ccefc6a6f21db535af0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:51 +0000
Subject: [PATCH 09/17] verif: read-only hooks behind cfg(verif_hooks)

---
 crates/postgresql-cst-parser/src/lib.rs | 61 +++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/crates/postgresql-cst-parser/src/lib.rs b/crates/postgresql-cst-parser/src/lib.rs
index 8f212e6..041fe5f 100644
--- a/crates/postgresql-cst-parser/src/lib.rs
+++ b/crates/postgresql-cst-parser/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(non_camel_case_types)]
+#![allow(unexpected_cfgs)] // verif_hooks
 
 mod lexer;
 
@@ -18,6 +19,66 @@ pub use cst::SyntaxToken;
 pub use lexer::parser_error::ParserError;
 pub use lexer::parser_error::ScanReport;
 
+/// Read access to internals for external verification tools (built only with `--cfg verif_hooks`)
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::lexer::{lex, lexer_ported::init_tokens, Lexer, Token, TokenKind, Yylval};
+    use crate::parser;
+
+    /// (check, value, offset, default) of the action table
+    pub fn action_tables() -> (
+        &'static [i16],
+        &'static [i16],
+        &'static [u32],
+        &'static [i16],
+    ) {
+        (
+            &parser::ACTION_CHECK_TABLE,
+            &parser::ACTION_TABLE,
+            &parser::ACTION_TABLE_INDEX,
+            &parser::ACTION_DEF_RULE_TABLE,
+        )
+    }
+
+    /// (check, value, offset) of the goto table
+    pub fn goto_tables() -> (&'static [i16], &'static [i16], &'static [u32]) {
+        (
+            &parser::GOTO_CHECK_TABLE,
+            &parser::GOTO_TABLE,
+            &parser::GOTO_TABLE_INDEX,
+        )
+    }
+
+    /// Left-hand side name and length of every rule
+    pub fn rules() -> Vec<(&'static str, usize)> {
+        parser::RULES.iter().map(|r| (r.name, r.len)).collect()
+    }
+
+    pub fn num_terminal_symbol() -> u32 {
+        parser::num_terminal_symbol()
+    }
+
+    pub fn num_non_terminal_symbol() -> u32 {
+        parser::num_non_terminal_symbol()
+    }
+
+    pub fn end_rule() -> (TokenKind, u32) {
+        (parser::end_rule_kind(), parser::end_rule_id())
+    }
+
+    pub fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+        parser::token_kind_to_component_id(kind)
+    }
+
+    pub fn rule_name_to_component_id(name: &str) -> u32 {
+        parser::rule_name_to_component_id(name)
+    }
+
+    pub fn keyword_map() -> std::collections::HashMap<&'static str, &'static str> {
+        Lexer::new("").keyword_map
+    }
+}
+
 /// Parse SQL and construct a Complete Syntax Tree (CST).
 ///
 /// # Examples
-- 
2.43.0


From 34e7b494066ce2c177464e087e6ecdcc99272261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 10/17] fix: '.' in a lexer pattern does not match a newline

---
 crates/automata/src/regexp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 5e9c230..2ccb189 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -303,9 +303,10 @@ impl RegexpParser {
                 let last = self.pop_node();
                 RegexpNode::Repeat(Box::new(last), 0, 1)
             }
+            // Any byte except newline
             b'.' => {
                 self.index += 1;
-                RegexpNode::NoneOf(Vec::new())
+                RegexpNode::NoneOf(vec![b'\n'])
             }
             b']' | b')' | b'}' => unreachable!(),
             _ => {
-- 
2.43.0


From 0367cf63458cbf5925593585ec037e42ba2f288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 11/17] fix: the opening of a grammar comment does not close it

---
 crates/parser-generator/src/parser_generator/bison.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 2f5a201..78ff9a9 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -405,6 +405,9 @@ fn scan(body: String) -> Vec<BisonToken> {
             }
 
             if c == '*' {
+                // The asterisk of the opening does not belong to the closing
+                update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+
                 while !chars[i..].starts_with(&['*', '/']) {
                     update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
                 }
-- 
2.43.0


From 2a5bfb50e6839baf3a9b2f0629296b79e6b54f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 12/17] fix: read a character literal at the start of a grammar
 line

---
 crates/parser-generator/src/parser_generator/bison.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 78ff9a9..4a3b36a 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -434,6 +434,8 @@ fn scan(body: String) -> Vec<BisonToken> {
 
             value.push('\'');
 
+            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+
             tokens.push(BisonToken::Literal {
                 range: Range {
                     start_byte_pos: byte_pos - value.len(),
@@ -446,7 +448,6 @@ fn scan(body: String) -> Vec<BisonToken> {
                 value,
             });
 
-            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
             continue;
         }
 
-- 
2.43.0


From 2d1b563789203a8c86f73e31f42c502caa492a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 13/17] fix: end octal and hexadecimal escapes in lexer
 patterns after three and two digits

---
 crates/automata/src/regexp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 2ccb189..a85b464 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -91,8 +91,10 @@ impl RegexpParser {
             b'v' => b'\x0b',
             b'x' => {
                 let mut v = 0;
+                // At most two hexadecimal digits belong to the escape
+                let end = self.index + 2;
 
-                while self.index < self.bytes.len() {
+                while self.index < self.bytes.len() && self.index < end {
                     let c = self.bytes[self.index];
 
                     if !c.is_ascii_hexdigit() {
@@ -113,13 +115,15 @@ impl RegexpParser {
                 v
             }
             // If no format specified, treat as octal number
-            b'0'..=b'9' => {
+            b'0'..=b'7' => {
                 let mut v = c - b'0';
+                // At most three octal digits belong to the escape
+                let end = self.index + 2;
 
-                while self.index < self.bytes.len() {
+                while self.index < self.bytes.len() && self.index < end {
                     let c = self.bytes[self.index];
 
-                    if !c.is_ascii_digit() {
+                    if !matches!(c, b'0'..=b'7') {
                         break;
                     }
 
-- 
2.43.0


From 5e8b32ea47c45ab211b5b046ecab53a75d570e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 14/17] fix: escapes keep their meaning inside quoted text of
 lexer patterns

---
 crates/automata/src/regexp.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index a85b464..ac0d21c 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -208,6 +208,12 @@ impl RegexpParser {
         self.index += 1;
         loop {
             let c = self.bytes[self.index];
+
+            if c == b'\\' {
+                nodes.push(self.parse_escape_sequence_as_node());
+                continue;
+            }
+
             self.index += 1;
 
             if c == b'"' {
-- 
2.43.0


From 8dc32702c0ca93b712bf761bbd44f5a66e06fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 15/17] fix: \a in a lexer pattern is the alert character

---
 crates/automata/src/regexp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index ac0d21c..88e247f 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -83,6 +83,7 @@ impl RegexpParser {
         self.index += 1;
 
         match c {
+            b'a' => b'\x07',
             b'b' => b'\x08',
             b'f' => b'\x0c',
             b't' => b'\t',
-- 
2.43.0


From b6b2b67f7d281f9eb9bea3e5b050973c9822c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 16/17] fix: remove duplicate terminals that share an
 identifier with others

---
 crates/parser-generator/src/parser_generator/lalr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parser-generator/src/parser_generator/lalr.rs b/crates/parser-generator/src/parser_generator/lalr.rs
index ab23126..feb5045 100644
--- a/crates/parser-generator/src/parser_generator/lalr.rs
+++ b/crates/parser-generator/src/parser_generator/lalr.rs
@@ -205,8 +205,10 @@ impl Lalr {
 
         non_terminal_components.push(accept_rule_component.clone());
         terminal_components.push(end_rule_component.clone());
-        terminal_components.sort_by_key(|c| c.to_rule_identifier());
+        // Different terminals may have the same identifier, so remove duplicates first
+        terminal_components.sort();
         terminal_components.dedup();
+        terminal_components.sort_by_key(|c| c.to_rule_identifier());
 
         terminal_components
             .iter()
-- 
2.43.0


From 67812a5d4982edff2685d5d24029e84795b32ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:05 +0000
Subject: [PATCH 17/17] fix: split a lexer rule at the byte where its pattern
 ends

The position was counted in characters and used as a byte offset, so a
pattern with a non-ASCII character was cut short or hit a panic.
---
 crates/lexer-generator/src/flex_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/lexer-generator/src/flex_file.rs b/crates/lexer-generator/src/flex_file.rs
index d8f5a99..6fff975 100644
--- a/crates/lexer-generator/src/flex_file.rs
+++ b/crates/lexer-generator/src/flex_file.rs
@@ -59,7 +59,7 @@ fn parse_pattern_actions(
         return Some(("<<EOF>>".to_owned(), actions));
     }
 
-    let j = line.chars().position(|c| c.is_whitespace()).unwrap();
+    let j = line.find(char::is_whitespace).unwrap();
 
     let pattern = line[..j].to_owned();
     let actions = parse_actions(line[j..].to_owned(), it);
-- 
2.43.0

