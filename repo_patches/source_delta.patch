From 252737c678e50977caff079d4bd21685fad0682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 01/76] fix: a comment inside a continued instruction is not an
 argument of it

Comment lines are allowed after a line continuation, but the comment rule
produced a token there, so e.g. ADD ATTRIBUTE got an extra attribute with an
empty name.
---
 semantics/oca-file/src/ocafile.pest      | 2 +-
 transformation/oca-file/src/ocafile.pest | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 6924889..4e9fd39 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -10,7 +10,7 @@ meta_key_pair = @{ meta_attr_key ~ arg_ws? ~ "=" ~ arg_ws?  ~ meta_attr_value }
 meta_comment = @{ "--" ~ ws* ~ (!NEWLINE ~ meta_key_pair)* }
 meta_comment_line = _{ ws* ~ meta_comment ~ NEWLINE? }
 
-comment = @{ "#" ~ (!NEWLINE ~ ANY)* }
+comment = _{ "#" ~ (!NEWLINE ~ ANY)* }
 comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
 
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 2a7119e..7ce1458 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -10,7 +10,7 @@ meta_key_pair = @{ meta_attr_key ~ arg_ws? ~ "=" ~ arg_ws?  ~ meta_attr_value }
 meta_comment = @{ "--" ~ ws* ~ (!NEWLINE ~ meta_key_pair)* }
 meta_comment_line = _{ ws* ~ meta_comment ~ NEWLINE? }
 
-comment = @{ "#" ~ (!NEWLINE ~ ANY)* }
+comment = _{ "#" ~ (!NEWLINE ~ ANY)* }
 comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
 
-- 
2.43.0


From 6868d9304639be0f66e288535205e77784ceb3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 02/76] fix: record the line an instruction starts on

The number of preceding tokens was recorded, which differs from the line as
soon as an instruction or a quoted value spans several lines.
---
 semantics/oca-file/src/ocafile/mod.rs      | 4 ++--
 transformation/oca-file/src/ocafile/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 027bdf8..d9aece8 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -63,7 +63,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -106,7 +106,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
diff --git a/transformation/oca-file/src/ocafile/mod.rs b/transformation/oca-file/src/ocafile/mod.rs
index bc08e84..192d302 100644
--- a/transformation/oca-file/src/ocafile/mod.rs
+++ b/transformation/oca-file/src/ocafile/mod.rs
@@ -57,7 +57,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -100,7 +100,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
-- 
2.43.0


From f23fb9ca822b28f9141e0b62d0c166fd61393979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 03/76] fix: parse long quoted strings with escapes without
 recursing

Every escape added a level of recursion, so a long quoted value with many
escapes overflowed the stack.
---
 semantics/oca-file/src/ocafile.pest      | 4 ++--
 transformation/oca-file/src/ocafile.pest | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 4e9fd39..a65683b 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -15,12 +15,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (escape | !("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (escape | !("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 7ce1458..13be4b6 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -15,12 +15,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (escape | !("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (escape | !("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
-- 
2.43.0


From 3a763631e74c90fcc96de37bc3ffa889579da13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 04/76] fix: a blank line inside a continued instruction is not
 an argument of it

---
 semantics/oca-file/src/ocafile.pest      | 2 +-
 transformation/oca-file/src/ocafile.pest | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index a65683b..621e193 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -12,7 +12,7 @@ meta_comment_line = _{ ws* ~ meta_comment ~ NEWLINE? }
 
 comment = _{ "#" ~ (!NEWLINE ~ ANY)* }
 comment_line = _{ ws* ~ comment ~ NEWLINE? }
-empty_line = @{ ws* ~ NEWLINE }
+empty_line = _{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
 inner   = @{ (escape | !("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* }
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 13be4b6..dc1cc55 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -12,7 +12,7 @@ meta_comment_line = _{ ws* ~ meta_comment ~ NEWLINE? }
 
 comment = _{ "#" ~ (!NEWLINE ~ ANY)* }
 comment_line = _{ ws* ~ comment ~ NEWLINE? }
-empty_line = @{ ws* ~ NEWLINE }
+empty_line = _{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
 inner   = @{ (escape | !("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* }
-- 
2.43.0


From 93ac6c939c314087fdca59f02e6574c5519b17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 05/76] fix: find the precompiler of an OCAfile by its meta
 lines only

Text like '-- name=x' inside a quoted value or in the middle of an
instruction was taken for a meta comment, so well-formed files were rejected
or handed to the wrong parser.
---
 oca-file/src/ocafile.pest | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 626ef22..22e598b 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -21,9 +21,9 @@ commands = _{
 
 string = ${ single_quoted_string | double_quoted_string }
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (escape | !("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* }
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (escape | !("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
@@ -54,8 +54,11 @@ TELUGU | THAANA | THAI | TIBETAN | TIFINAGH | TIRHUTA | TOTO | UGARITIC | VAI |
 VITHKUQI | WANCHO | WARANG_CITI | YEZIDI | YI | ZANABAZAR_SQUARE }
 char = { LETTER | NUMBER | "." | "-" | "_" | "/" | ":" | SCRIPTS }
 
+// everything else is left to the specific parser; a quoted value may span lines
+instruction_line = @{ (string | line_continuation ~ (comment_line | empty_line)* | ws+ ~ comment | !NEWLINE ~ ANY)+ ~ NEWLINE? }
+
 file = {
   SOI ~
-  (empty_line | meta_comment_line | comment_line | ANY)*
+  (empty_line | meta_comment_line | comment_line | instruction_line)*
   ~ EOI
 }
-- 
2.43.0


From 84ae70997dbfea69d3f13f8a226f16f84b18ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 06/76] fix: a tab ends an unquoted unit like a space does

---
 semantics/oca-file/src/ocafile.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 621e193..47f9335 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -208,7 +208,7 @@ key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ key_value }
 attr_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 prop_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 
-unit_char = ${ !" " ~ !NEWLINE ~ ANY }
+unit_char = ${ !ws ~ !NEWLINE ~ ANY }
 unit_value = ${ string | unit_char+ }
 unit_key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ unit_value }
 unit_attr_key_pairs = ${ (arg_ws? ~ unit_key_pair ~ arg_ws?)+ }
-- 
2.43.0


From 7de4adae91df1383f9abde5d122adf343735c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 07/76] fix: the quotes of a meta value or classification are
 not part of it

---
 oca-file/src/ocafile/mod.rs                   | 14 ++++++++-
 .../oca-file/src/ocafile/instructions/add.rs  |  4 +--
 semantics/oca-file/src/ocafile/mod.rs         | 30 +++++++++++++++++--
 transformation/oca-file/src/ocafile/mod.rs    | 14 ++++++++-
 4 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/oca-file/src/ocafile/mod.rs b/oca-file/src/ocafile/mod.rs
index 877518d..6b0b3ab 100644
--- a/oca-file/src/ocafile/mod.rs
+++ b/oca-file/src/ocafile/mod.rs
@@ -23,6 +23,18 @@ pub enum OCAAst {
 
 pub type Pair<'a> = pest::iterators::Pair<'a, Rule>;
 
+/// Text of a value which may be written with or without quotes
+fn unquoted(value: Pair) -> String {
+    match value.clone().into_inner().next() {
+        Some(string) if string.as_rule() == Rule::string => string
+            .into_inner()
+            .next_back()
+            .map(|inner| inner.as_str().to_string())
+            .unwrap_or_default(),
+        _ => value.as_str().to_string(),
+    }
+}
+
 pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
     let file = OCAfileParser::parse(Rule::file, &unparsed_file)
         .map_err(|e| {
@@ -58,7 +70,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                         key = attr.as_str().to_string();
                     }
                     Rule::meta_attr_value => {
-                        value = attr.as_str().to_string();
+                        value = unquoted(attr);
                     }
                     _ => {
                         return Err(ParseError::MetaError(attr.as_str().to_string()));
diff --git a/semantics/oca-file/src/ocafile/instructions/add.rs b/semantics/oca-file/src/ocafile/instructions/add.rs
index b08fdf9..457c672 100644
--- a/semantics/oca-file/src/ocafile/instructions/add.rs
+++ b/semantics/oca-file/src/ocafile/instructions/add.rs
@@ -1,4 +1,4 @@
-use crate::ocafile::{error::InstructionError, instructions::helpers, Pair, Rule};
+use crate::ocafile::{error::InstructionError, instructions::helpers, unquoted, Pair, Rule};
 use indexmap::IndexMap;
 use log::{debug, info};
 use oca_ast_semantics::ast::{
@@ -58,7 +58,7 @@ impl AddInstruction {
                     print!("Classification: {:?}", classification.as_rule());
                     properties.insert(
                         "classification".to_string(),
-                        NestedValue::Value(classification.as_str().to_string()),
+                        NestedValue::Value(unquoted(classification)),
                     );
                     object_kind = Some(ObjectKind::CaptureBase(CaptureContent {
                         properties: Some(properties),
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index d9aece8..8441629 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -42,6 +42,18 @@ impl TryFromPair for Command {
     }
 }
 
+/// Text of a value which may be written with or without quotes
+pub(crate) fn unquoted(value: Pair) -> String {
+    match value.clone().into_inner().next() {
+        Some(string) if string.as_rule() == Rule::string => string
+            .into_inner()
+            .next_back()
+            .map(|inner| inner.as_str().to_string())
+            .unwrap_or_default(),
+        _ => value.as_str().to_string(),
+    }
+}
+
 pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
     let file = OCAfileParser::parse(Rule::file, &unparsed_file)
         .map_err(|e| {
@@ -79,7 +91,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                         key = attr.as_str().to_string();
                     }
                     Rule::meta_attr_value => {
-                        value = attr.as_str().to_string();
+                        value = unquoted(attr);
                     }
                     _ => {
                         return Err(ParseError::MetaError(attr.as_str().to_string()));
@@ -149,6 +161,19 @@ fn oca_file_format(nested: NestedAttrType) -> String {
     })
 }
 
+// Classification is written without quotes unless they are needed
+fn format_classification(value: &str) -> String {
+    let plain = !value.is_empty()
+        && value
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || "._-/:".contains(c));
+    if plain {
+        value.to_string()
+    } else {
+        format!("\"{}\"", value)
+    }
+}
+
 /// Generate OCA file from AST
 ///
 /// # Arguments
@@ -180,7 +205,8 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                             for (prop_name, prop_value) in properties {
                                 if prop_name.eq("classification") {
                                     if let ast::NestedValue::Value(value) = prop_value {
-                                        line.push_str(format!("CLASSIFICATION {}", value).as_str());
+                                        line.push_str("CLASSIFICATION ");
+                                        line.push_str(&format_classification(value));
                                     }
                                 }
                             }
diff --git a/transformation/oca-file/src/ocafile/mod.rs b/transformation/oca-file/src/ocafile/mod.rs
index 192d302..fe0a3d3 100644
--- a/transformation/oca-file/src/ocafile/mod.rs
+++ b/transformation/oca-file/src/ocafile/mod.rs
@@ -36,6 +36,18 @@ impl TryFromPair for Command {
     }
 }
 
+/// Text of a value which may be written with or without quotes
+fn unquoted(value: Pair) -> String {
+    match value.clone().into_inner().next() {
+        Some(string) if string.as_rule() == Rule::string => string
+            .into_inner()
+            .next_back()
+            .map(|inner| inner.as_str().to_string())
+            .unwrap_or_default(),
+        _ => value.as_str().to_string(),
+    }
+}
+
 pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, ParseError> {
     let file = OCAfileParser::parse(Rule::file, &unparsed_file)
         .map_err(|e| {
@@ -73,7 +85,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
                         key = attr.as_str().to_string();
                     }
                     Rule::meta_attr_value => {
-                        value = attr.as_str().to_string();
+                        value = unquoted(attr);
                     }
                     _ => {
                         return Err(ParseError::MetaError(attr.as_str().to_string()));
-- 
2.43.0


From 83f41ee418507ae775a60015e3047def90e063b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 08/76] fix: quote printed values so that they can be read back

A value holding a double quote (written in single quotes) was printed between
double quotes.
---
 semantics/oca-file/src/ocafile/mod.rs | 56 +++++++++++++++++----------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 8441629..00b4f51 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -161,6 +161,21 @@ fn oca_file_format(nested: NestedAttrType) -> String {
     })
 }
 
+// A value is kept the way it was written, so it fits in at least one kind of quotes
+fn quoted(value: &str) -> String {
+    let mut chars = value.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                chars.next();
+            }
+            '"' => return format!("'{}'", value),
+            _ => {}
+        }
+    }
+    format!("\"{}\"", value)
+}
+
 // Classification is written without quotes unless they are needed
 fn format_classification(value: &str) -> String {
     let plain = !value.is_empty()
@@ -170,7 +185,7 @@ fn format_classification(value: &str) -> String {
     if plain {
         value.to_string()
     } else {
-        format!("\"{}\"", value)
+        quoted(value)
     }
 }
 
@@ -228,7 +243,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -244,7 +259,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -274,7 +289,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(quoted(value))
                                                     } else {
                                                         None
                                                     }
@@ -292,14 +307,14 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(quoted(value))
                                                     } else {
                                                         None
                                                     }
                                                 })
                                                 .collect::<Vec<String>>()
                                                 .join(", ");
-                                                    Some(format!("\"{}\": [{}]", group, codes))
+                                                    Some(format!("{}: [{}]", quoted(group), codes))
                                                     } else {
                                                         None
                                                     }
@@ -309,7 +324,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                             line.push_str(format!(" {}={{{}}}", key, group_codes).as_str());
                                         } else if let ast::NestedValue::Value(said) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, said).as_str(),
+                                                format!(" {}={}", key, quoted(said)).as_str(),
                                             );
                                         }
                                     });
@@ -349,8 +364,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                             label
                                                         {
                                                             Some(format!(
-                                                                "\"{}\": \"{}\"",
-                                                                code, label
+                                                                "{}: {}",
+                                                                quoted(code),
+                                                                quoted(label)
                                                             ))
                                                         } else {
                                                             None
@@ -363,7 +379,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 );
                                             } else if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -391,7 +407,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -414,7 +430,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -428,7 +444,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     for (prop_name, prop_value) in properties {
                                         let key = prop_name.replace("frame_", "");
                                         if let ast::NestedValue::Value(value) = prop_value {
-                                            line.push_str(format!("        {}=\"{}\" \\\n", key, value).as_str());
+                                            line.push_str(format!("        {}={} \\\n", key, quoted(value)).as_str());
                                         }
                                     }
                                 }
@@ -441,8 +457,8 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 let mut frame_str = "\n            ".to_string();
                                                 frame_str.push_str(
                                                     format!(
-                                                        "\"{}\": {{",
-                                                        f_key
+                                                        "{}: {{",
+                                                        quoted(f_key)
                                                     ).as_str()
                                                 );
 
@@ -451,9 +467,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                         if let ast::NestedValue::Value(frame_value) = frame_value {
                                                             frame_str.push_str(
                                                                 format!(
-                                                                    "\n                \"{}\": \"{}\",",
-                                                                    frame_key,
-                                                                    frame_value
+                                                                    "\n                {}: {},",
+                                                                    quoted(frame_key),
+                                                                    quoted(frame_value)
                                                                 ).as_str()
                                                             );
                                                         }
@@ -492,7 +508,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -503,7 +519,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
-- 
2.43.0


From 7f96b5f414c762de582e562f65cce30a1ffd44e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 09/76] fix: separate the attributes of a printed ENTRY
 instruction

---
 semantics/oca-file/src/ocafile/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 00b4f51..4b59cc6 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -352,7 +352,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         });
                                     }
                                     if let Some(ref attributes) = content.attributes {
-                                        line.push_str("ATTRS ");
+                                        line.push_str("ATTRS");
                                         attributes.iter().for_each(|(key, value)| {
                                             // TODO there is no need for NestedValue here
                                             if let ast::NestedValue::Object(values) = value {
@@ -375,7 +375,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                     .collect::<Vec<String>>()
                                                     .join(", ");
                                                 line.push_str(
-                                                    format!("{}={{{}}}", key, codes).as_str(),
+                                                    format!(" {}={{{}}}", key, codes).as_str(),
                                                 );
                                             } else if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-- 
2.43.0


From efad584ca9b59c900f4e84e70b4b490d0323d5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 10/76] fix: print references by name instead of aborting or
 dropping them

---
 semantics/oca-file/src/ocafile/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 4b59cc6..36bfcc6 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -142,7 +142,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 fn format_reference(ref_value: RefValue) -> String {
     match ref_value {
         RefValue::Said(said) => format!("refs:{}", said),
-        _ => panic!("Unsupported reference type: {:?}", ref_value),
+        RefValue::Name(name) => format!("refn:{}", name),
     }
 }
 
@@ -419,10 +419,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                             if let Some(content) = command.object_kind.overlay_content() {
                                 if let Some(ref properties) = content.properties {
                                     let target = properties.get("target");
-                                    if let Some(ast::NestedValue::Reference(RefValue::Said(target_said))) = target {
-                                        line.push_str(
-                                            format!("refs:{} ", target_said).as_str(),
-                                        );
+                                    if let Some(ast::NestedValue::Reference(target)) = target {
+                                        line.push_str(&format_reference(target.clone()));
+                                        line.push(' ');
                                     }
                                 }
                                 if let Some(ref attributes) = content.attributes {
-- 
2.43.0


From 2a9a26dd006496d46f0cc1f382a23f869edf5d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 11/76] fix: print the identifier of a FROM instruction

---
 semantics/oca-file/src/ocafile/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 36bfcc6..f79690a 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -553,6 +553,13 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
             },
             ast::CommandType::From => {
                 line.push_str("FROM ");
+                if let ast::ObjectKind::OCABundle(content) = &command.object_kind {
+                    let ast::ReferenceAttrType::Reference(reference) = &content.said;
+                    match reference {
+                        RefValue::Said(said) => line.push_str(&said.to_string()),
+                        RefValue::Name(_) => line.push_str(&format_reference(reference.clone())),
+                    }
+                }
             }
             ast::CommandType::Modify => todo!(),
         }
-- 
2.43.0


From b03e1816b31b65e8126e5a176cdc2eb2b2ed7dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 12/76] fix: keep the order of properties when printing an
 instruction

---
 semantics/oca-file/src/ocafile/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index f79690a..26b89e3 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -234,7 +234,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                 if let Some(ref properties) = content.properties {
                                     let mut properties = properties.clone();
                                     if let Some(ast::NestedValue::Value(lang)) =
-                                        properties.remove("lang")
+                                        properties.shift_remove("lang")
                                     {
                                         line.push_str(format!("{} ", lang).as_str());
                                     }
@@ -337,7 +337,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                 if let Some(ref properties) = content.properties {
                                     let mut properties = properties.clone();
                                     if let Some(ast::NestedValue::Value(lang)) =
-                                        properties.remove("lang")
+                                        properties.shift_remove("lang")
                                     {
                                         line.push_str(format!("{} ", lang).as_str());
                                     }
@@ -498,7 +498,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                 if let Some(ref properties) = content.properties {
                                     let mut properties = properties.clone();
                                     if let Some(ast::NestedValue::Value(lang)) =
-                                        properties.remove("lang")
+                                        properties.shift_remove("lang")
                                     {
                                         line.push_str(format!("{} ", lang).as_str());
                                     }
-- 
2.43.0


From 88233cb0a660bedc64e2606063767fada88ce5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 13/76] fix: parse and print the attributes of
 FLAGGED_ATTRIBUTES one by one

The whole list was kept as one name, and printing the instruction gave only
'ADD'.
---
 semantics/oca-file/src/ocafile/instructions/helpers.rs | 4 ++--
 semantics/oca-file/src/ocafile/mod.rs                  | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index 7188edc..af2207b 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -1,6 +1,6 @@
 use std::str::FromStr;
 
-use crate::ocafile::{error::ExtractingAttributeError, Pair, Rule};
+use crate::ocafile::{error::ExtractingAttributeError, unquoted, Pair, Rule};
 use indexmap::IndexMap;
 use log::debug;
 use oca_ast_semantics::ast::{
@@ -482,7 +482,7 @@ pub(crate) fn extract_flagged_attrs(object: pest::iterators::Pair<'_, Rule>) ->
     for attr in object.into_inner() {
         match attr.as_rule() {
             Rule::list_value => {
-                flagged_attrs.push(attr.as_str().to_string());
+                flagged_attrs.extend(attr.into_inner().map(unquoted));
             }
             _ => {
                 debug!(
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 26b89e3..f9eb4a9 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -226,6 +226,12 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                 }
                             }
                         }
+                        if let Some(flagged_attributes) = &content.flagged_attributes {
+                            line.push_str("FLAGGED_ATTRIBUTES");
+                            for attribute in flagged_attributes {
+                                line.push_str(&format!(" {}", quoted(attribute)));
+                            }
+                        }
                     }
                     ast::ObjectKind::Overlay(o_type, _) => match o_type {
                         ast::OverlayType::Meta(_) => {
-- 
2.43.0


From 53d06260d51ae0aae2d3e348a5a0d36588cf90f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 14/76] fix: print no empty ATTRS after CHARACTER_ENCODING
 PROPS

---
 semantics/oca-file/src/ocafile/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index f9eb4a9..47660c3 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -519,7 +519,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         });
                                     }
                                 }
-                                if let Some(ref attributes) = content.attributes {
+                                if let Some(attributes) =
+                                    content.attributes.as_ref().filter(|a| !a.is_empty())
+                                {
                                     line.push_str("ATTRS");
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
-- 
2.43.0


From a3dc89784c9d3d3d760c381045e100f3635fff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 15/76] fix: read back the attribute mapping overlay of a
 serialized instruction

---
 semantics/oca-ast/src/ast/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index e04a503..2864627 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -271,7 +271,9 @@ impl FromStr for OverlayType {
             "EntryCode" => Ok(OverlayType::EntryCode(v)),
             "Entry" => Ok(OverlayType::Entry(v)),
             "Unit" => Ok(OverlayType::Unit(v)),
-            "Mapping" => Ok(OverlayType::AttributeMapping(v)),
+            "AttributeMapping" | "Mapping" => {
+                Ok(OverlayType::AttributeMapping(v))
+            }
             "EntryCodeMapping" => Ok(OverlayType::EntryCodeMapping(v)),
             "Subset" => Ok(OverlayType::Subset(v)),
             "UnitMapping" => Ok(OverlayType::UnitMapping(v)),
-- 
2.43.0


From 77ca50b9966e721dffb9e37d5248291d3912ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 16/76] fix: reject an array type that does not hold exactly
 one type

---
 semantics/oca-ast/src/ast/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-ast/src/ast/attributes.rs b/semantics/oca-ast/src/ast/attributes.rs
index ae49b7c..506214b 100644
--- a/semantics/oca-ast/src/ast/attributes.rs
+++ b/semantics/oca-ast/src/ast/attributes.rs
@@ -94,7 +94,9 @@ impl<'de> Deserialize<'de> for NestedAttrType {
                     }
                 }
             },
-            serde_json::Value::Array(arr) => NestedAttrTypeFrame::Array(arr[0].clone()).into(),
+            serde_json::Value::Array(mut arr) if arr.len() == 1 => {
+                NestedAttrTypeFrame::Array(arr.remove(0)).into()
+            }
             value => {
                 AttributeError::ConvertingFailure(serde_json::to_string(&value).unwrap()).into()
             }
-- 
2.43.0


From eb88eaf4fca596d2113be72078ce4a60fa405241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 17/76] fix: a later unit or entry code declaration replaces
 the earlier one

---
 semantics/oca-bundle/src/state/attribute.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index 33ab18c..f56f658 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -102,17 +102,17 @@ impl Attribute {
                 self.format.clone_from(&other.format);
             }
 
-            if self.unit.is_none() {
+            if other.unit.is_some() {
                 self.unit.clone_from(&other.unit);
             }
 
-            if self.entry_codes.is_none() {
+            if other.entry_codes.is_some() {
                 self.entry_codes.clone_from(&other.entry_codes);
             }
 
             self.merge_entries(other);
 
-            if self.entry_codes_mapping.is_none() {
+            if other.entry_codes_mapping.is_some() {
                 self.entry_codes_mapping
                     .clone_from(&other.entry_codes_mapping);
             }
-- 
2.43.0


From e496a533acd165b085cc8ce69ad313113a0402e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 18/76] fix: report an undefined link target or frame id
 instead of aborting

---
 semantics/oca-bundle/src/build.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index b6e5ea5..da7b0fc 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -457,9 +457,10 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             target_bundle = Some(target_said.to_string());
                         }
                     }
-                    if target_bundle.is_none() {
+                    let target_bundle = target_bundle.ok_or_else(|| {
                         errors.push("Undefined target bundle".to_string());
-                    }
+                        errors.clone()
+                    })?;
 
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
@@ -472,8 +473,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(linked_attr) = attr_type_value {
-                                attribute
-                                    .set_link(target_bundle.clone().unwrap(), linked_attr.clone());
+                                attribute.set_link(target_bundle.clone(), linked_attr.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -494,9 +494,10 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             }
                         }
                     }
-                    if frame_id.is_none() {
+                    let frame_id = frame_id.ok_or_else(|| {
                         errors.push("Undefined frame id".to_string());
-                    }
+                        errors.clone()
+                    })?;
 
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_framing_value) in attributes {
@@ -530,7 +531,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                         }
                                     }
                                 }
-                                attribute.set_framing(frame_id.clone().unwrap(), framing.clone());
+                                attribute.set_framing(frame_id.clone(), framing.clone());
                             }
                             oca.add_attribute(attribute);
                         }
-- 
2.43.0


From 95a44a75d84a9c00e1f72bf1f9743286a06448ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 19/76] fix: report an unknown language instead of aborting

---
 semantics/oca-bundle/src/build.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index da7b0fc..ce16643 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -120,6 +120,10 @@ pub fn from_ast(
     }
 }
 
+fn parse_language(lang: &str) -> Result<isolang::Language, Vec<String>> {
+    isolang::Language::from_639_1(lang).ok_or_else(|| vec![format!("Unknown language: {lang}")])
+}
+
 pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, Vec<String>> {
     let mut errors = vec![];
     let mut oca: OCABox = match base {
@@ -161,7 +165,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         let lang = mut_properties.remove("lang");
                         let mut lang_iso = None;
                         if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
+                            lang_iso = Some(parse_language(&lang_str)?);
                         }
 
                         for (prop_name, prop_value) in mut_properties {
@@ -177,7 +181,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         let mut mut_properties = properties.clone();
                         let lang = mut_properties.remove("lang");
                         if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
+                            lang_iso = Some(parse_language(&lang_str)?);
                         }
                     }
                     if let Some(ref attributes) = content.attributes {
@@ -203,7 +207,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         let mut mut_properties = properties.clone();
                         let lang = mut_properties.remove("lang");
                         if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
+                            lang_iso = Some(parse_language(&lang_str)?);
                         }
                     }
                     if let Some(ref attributes) = content.attributes {
@@ -405,7 +409,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         let mut mut_properties = properties.clone();
                         let lang = mut_properties.remove("lang");
                         if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
+                            lang_iso = Some(parse_language(&lang_str)?);
                         }
                     }
                     if let Some(ref attributes) = content.attributes {
-- 
2.43.0


From fa59659c74662748a7b33dd1f928da2eb6acf87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 20/76] fix: report an unsupported instruction instead of
 aborting

---
 semantics/oca-bundle/src/build.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index ce16643..3a2c6e4 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -544,7 +544,6 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 _ => (),
             }
         }
-        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_)) => todo!(),
         (ast::CommandType::Remove, ast::ObjectKind::CaptureBase(content)) => {
             if let Some(ref attributes) = content.attributes {
                 for (attr_name, _) in attributes {
@@ -559,11 +558,12 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 }
             }
         }
-        (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Remove, ast::ObjectKind::Overlay(_, _)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::CaptureBase(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::Overlay(_, _)) => todo!(),
+        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_))
+        | (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_))
+        | (ast::CommandType::Remove, ast::ObjectKind::Overlay(_, _))
+        | (ast::CommandType::Modify, _) => {
+            errors.push("Unsupported instruction".to_string());
+        }
     }
 
     if errors.is_empty() {
-- 
2.43.0


From d6b2540ef123b58b5569e3660e2515403f6da11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 21/76] fix: report an OCAfile without instructions instead of
 aborting

---
 semantics/oca-bundle/src/build.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 3a2c6e4..8c28ac4 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -110,13 +110,17 @@ pub fn from_ast(
             }
         }
     }
-    if errors.is_empty() {
-        Ok(OCABuild {
-            oca_bundle: base.unwrap().generate_bundle(),
+    match base {
+        Some(mut oca_box) if errors.is_empty() => Ok(OCABuild {
+            oca_bundle: oca_box.generate_bundle(),
             steps,
-        })
-    } else {
-        Err(errors)
+        }),
+        None if errors.is_empty() => Err(vec![Error::FromASTError {
+            line_number: 0,
+            raw_line: "".to_string(),
+            message: "No instructions".to_string(),
+        }]),
+        _ => Err(errors),
     }
 }
 
-- 
2.43.0


From 53248814a87695dd5f81cc621da8a796ed2cc608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 22/76] fix: framings of one frame share its metadata

---
 semantics/oca-bundle/src/build.rs     | 11 ++++++++++-
 semantics/oca-bundle/src/state/oca.rs | 11 +++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 8c28ac4..d4c557e 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -506,6 +506,12 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         errors.push("Undefined frame id".to_string());
                         errors.clone()
                     })?;
+                    // The metadata describes the frame, so all its framings share it.
+                    let mut shared_meta = HashMap::new();
+                    for scope in oca.framing_scopes_mut(&frame_id) {
+                        shared_meta.extend(scope.frame_meta.clone());
+                    }
+                    shared_meta.extend(frame_meta);
 
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_framing_value) in attributes {
@@ -532,7 +538,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                                     predicate_id: predicate_id.to_string(),
                                                     framing_justification: framing_justification
                                                         .to_string(),
-                                                    frame_meta: frame_meta.clone(),
+                                                    frame_meta: shared_meta.clone(),
                                                 };
                                                 framing.insert(framing_key.clone(), framing_scope);
                                             }
@@ -544,6 +550,9 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             oca.add_attribute(attribute);
                         }
                     }
+                    for scope in oca.framing_scopes_mut(&frame_id) {
+                        scope.frame_meta.clone_from(&shared_meta);
+                    }
                 }
                 _ => (),
             }
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 241336f..1aca4dc 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -106,6 +106,17 @@ impl OCABox {
         self.classification = None;
     }
 
+    /// Framings of all attributes which belong to given frame
+    pub fn framing_scopes_mut<'a>(
+        &'a mut self,
+        frame_id: &'a str,
+    ) -> impl Iterator<Item = &'a mut overlay::attribute_framing::FramingScope> {
+        self.attributes
+            .values_mut()
+            .filter_map(move |attribute| attribute.framings.as_mut()?.get_mut(frame_id))
+            .flat_map(|framing| framing.values_mut())
+    }
+
     pub fn generate_bundle(&mut self) -> OCABundle {
         let mut capture_base = self.generate_capture_base();
         let mut overlays = self.generate_overlays();
-- 
2.43.0


From 4b13d3b5cadd5ac19fc0b7452588446d4f53cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 23/76] fix: report a malformed overlay of a loaded bundle
 instead of aborting

---
 semantics/oca-bundle/src/state/oca.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 1aca4dc..142a05b 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -653,10 +653,11 @@ where
             while let Some((_, value)) = map.next_entry::<String, serde_value::Value>()? {
                 if let serde_value::Value::Seq(ov) = value {
                     for o in ov {
-                        overlays.push(o.deserialize_into().unwrap());
+                        overlays.push(o.deserialize_into().map_err(serde::de::Error::custom)?);
                     }
                 } else if let serde_value::Value::Map(_) = value {
-                    overlays.push(value.deserialize_into().unwrap());
+                    overlays
+                        .push(value.deserialize_into().map_err(serde::de::Error::custom)?);
                 }
             }
 
-- 
2.43.0


From e6ad888d4765f5266359df8214923a767bdeb3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 24/76] fix: an overlay of undeclared attributes does not abort
 loading a bundle for editing

---
 semantics/oca-bundle/src/state/oca.rs         | 112 +++++++-----------
 .../src/state/oca/overlay/conditional.rs      |  14 +++
 2 files changed, 58 insertions(+), 68 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 142a05b..35c8e3f 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -710,7 +710,9 @@ impl From<OCABundle> for OCABox {
             attributes.insert(attr_name.clone(), attr);
         }
         for attr_name in oca_bundle.capture_base.flagged_attributes {
-            attributes.get_mut(&attr_name).unwrap().set_flagged();
+            if let Some(attribute) = attributes.get_mut(&attr_name) {
+                attribute.set_flagged();
+            }
         }
 
         let meta_overlays = oca_bundle
@@ -735,10 +737,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in character_encoding_overlays {
             for (attr_name, encoding) in overlay.attribute_character_encoding.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_encoding(*encoding);
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_encoding(*encoding);
+                }
             }
         }
 
@@ -749,10 +750,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in conformance_overlays {
             for (attr_name, conformance) in overlay.attribute_conformance.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_conformance(conformance.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_conformance(conformance.clone());
+                }
             }
         }
 
@@ -762,21 +762,13 @@ impl From<OCABundle> for OCABox {
             .filter_map(|x| x.as_any().downcast_ref::<overlay::Conditional>())
             .collect::<Vec<_>>();
 
-        let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         for overlay in conditional_overlays {
             for (attr_name, condition) in overlay.attribute_conditions.iter() {
-                let condition_dependencies = overlay.attribute_dependencies.get(attr_name).unwrap(); // todo
-                let cond = re
-                    .replace_all(condition, |caps: &regex::Captures| {
-                        let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()].clone();
-                        format!("${{{}}}", dep)
-                    })
-                    .to_string();
+                let cond = overlay.condition_with_names(attr_name, condition);
 
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_condition(cond.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_condition(cond.clone());
+                }
             }
         }
 
@@ -787,10 +779,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in cardinality_overlays {
             for (attr_name, cardinality) in overlay.attribute_cardinality.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_cardinality(cardinality.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_cardinality(cardinality.clone());
+                }
             }
         }
 
@@ -803,10 +794,9 @@ impl From<OCABundle> for OCABox {
                 .collect::<Vec<_>>();
             for overlay in format_overlays {
                 for (attr_name, format) in overlay.attribute_formats.iter() {
-                    attributes
-                        .get_mut(attr_name)
-                        .unwrap()
-                        .set_format(format.clone());
+                    if let Some(attribute) = attributes.get_mut(attr_name) {
+                        attribute.set_format(format.clone());
+                    }
                 }
             }
         }
@@ -818,10 +808,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in unit_overlays {
             for (attr_name, unit) in overlay.attribute_unit.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_unit(unit.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_unit(unit.clone());
+                }
             }
         }
 
@@ -832,10 +821,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in entry_code_overlays {
             for (attr_name, entry_code) in overlay.attribute_entry_codes.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_entry_codes(entry_code.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_entry_codes(entry_code.clone());
+                }
             }
         }
 
@@ -846,10 +834,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in entry_overlays {
             for (attr_name, entries) in overlay.attribute_entries.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_entry(*overlay.language().unwrap(), entries.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_entry(*overlay.language().unwrap(), entries.clone());
+                }
             }
         }
 
@@ -860,10 +847,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in label_overlays {
             for (attr_name, label) in overlay.attribute_labels.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_label(*overlay.language().unwrap(), label.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_label(*overlay.language().unwrap(), label.clone());
+                }
             }
         }
 
@@ -874,10 +860,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in information_overlays {
             for (attr_name, information) in overlay.attribute_information.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_information(*overlay.language().unwrap(), information.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_information(*overlay.language().unwrap(), information.clone());
+                }
             }
         }
 
@@ -888,10 +873,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in link_overlays {
             for (attr_name, mapping) in overlay.attribute_mapping.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_link(overlay.target_bundle.clone(), mapping.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_link(overlay.target_bundle.clone(), mapping.clone());
+                }
             }
         }
 
@@ -901,7 +885,9 @@ impl From<OCABundle> for OCABox {
             .filter_map(|x| x.as_any().downcast_ref::<overlay::AttributeFraming>())
             .collect::<Vec<_>>();
         for overlay in framing_overlays {
-            let frame_id = overlay.metadata.get("frame_id").unwrap();
+            let Some(frame_id) = overlay.metadata.get("frame_id") else {
+                continue;
+            };
             let mut frame_meta = overlay.metadata.clone();
             frame_meta.remove("frame_id");
 
@@ -915,10 +901,9 @@ impl From<OCABundle> for OCABox {
                     })
                     .collect::<HashMap<_, _>>();
 
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_framing(frame_id.to_string(), framing);
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_framing(frame_id.to_string(), framing);
+                }
             }
         }
 
@@ -1106,17 +1091,8 @@ impl OCABundle {
                         .downcast_ref::<overlay::Conditional>()
                         .unwrap();
                     let mut attributes = IndexMap::new();
-                    let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
                     for (attr_name, condition) in conditional.attribute_conditions.iter() {
-                        let condition_dependencies =
-                            conditional.attribute_dependencies.get(attr_name).unwrap(); // todo
-                        let cond = re
-                            .replace_all(condition, |caps: &regex::Captures| {
-                                let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()]
-                                    .clone();
-                                format!("${{{}}}", dep)
-                            })
-                            .to_string();
+                        let cond = conditional.condition_with_names(attr_name, condition);
 
                         attributes.insert(attr_name.clone(), NestedValue::Value(cond.clone()));
                     }
diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index 404e95c..b9a6df5 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -175,6 +175,20 @@ impl ConditionalOverlay {
             attribute_dependencies: BTreeMap::new(),
         }
     }
+
+    /// Condition with numbers of dependencies replaced by names of attributes
+    pub fn condition_with_names(&self, attr_name: &str, condition: &str) -> String {
+        let dependencies = self.attribute_dependencies.get(attr_name);
+        let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
+        re.replace_all(condition, |caps: &regex::Captures| {
+            let index = caps[1].parse::<usize>().ok();
+            match index.and_then(|i| dependencies?.get(i)) {
+                Some(dep) => format!("${{{}}}", dep),
+                None => caps[0].to_string(),
+            }
+        })
+        .to_string()
+    }
 }
 
 impl Default for ConditionalOverlay {
-- 
2.43.0


From c73be09574155ef8d346e11495e85491c530c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 25/76] fix: convert bundles in languages without a two letter
 code instead of aborting

---
 semantics/oca-bundle/src/state/oca.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 35c8e3f..8c2e712 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -915,6 +915,14 @@ impl From<OCABundle> for OCABox {
     }
 }
 
+/// Two letter code of a language, or three letter one if the language has only that
+fn language_code(language: &Language) -> String {
+    language
+        .to_639_1()
+        .unwrap_or_else(|| language.to_639_3())
+        .to_string()
+}
+
 impl OCABundle {
     pub fn fill_said(&mut self) {
         let code = HashFunctionCode::Blake3_256;
@@ -1007,7 +1015,7 @@ impl OCABundle {
                     properties.insert(
                         "lang".to_string(),
                         NestedValue::Value(
-                            meta.language().unwrap().to_639_1().unwrap().to_string(),
+                            language_code(meta.language().unwrap()),
                         ),
                     );
                     for (meta_name, meta_value) in meta.attr_pairs.iter() {
@@ -1032,7 +1040,7 @@ impl OCABundle {
                     properties.insert(
                         "lang".to_string(),
                         NestedValue::Value(
-                            label.language().unwrap().to_639_1().unwrap().to_string(),
+                            language_code(label.language().unwrap()),
                         ),
                     );
                     let mut attributes = IndexMap::new();
@@ -1060,12 +1068,7 @@ impl OCABundle {
                     properties.insert(
                         "lang".to_string(),
                         NestedValue::Value(
-                            information
-                                .language()
-                                .unwrap()
-                                .to_639_1()
-                                .unwrap()
-                                .to_string(),
+                            language_code(information.language().unwrap()),
                         ),
                     );
                     let mut attributes = IndexMap::new();
@@ -1192,7 +1195,7 @@ impl OCABundle {
                     properties.insert(
                         "lang".to_string(),
                         NestedValue::Value(
-                            entry.language().unwrap().to_639_1().unwrap().to_string(),
+                            language_code(entry.language().unwrap()),
                         ),
                     );
                     let mut attributes = IndexMap::new();
-- 
2.43.0


From 5a9979f3fb6e6676695eeed7c7c86bc053999bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 26/76] fix: keep links and framings when converting a bundle
 to instructions

---
 semantics/oca-bundle/src/state/oca.rs | 67 +++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 8c2e712..144737c 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -28,6 +28,7 @@ use convert_case::{Case, Casing};
 use isolang::Language;
 use oca_ast_semantics::ast::{
     CaptureContent, Command, CommandType, Content, NestedValue, OCAAst, ObjectKind, OverlayType,
+    RefValue,
 };
 /// Internal representation of OCA objects in split between non-attributes values and attributes.
 /// It is used to build dynamically objects without knowing yet whole structure of the object.
@@ -1278,6 +1279,72 @@ impl OCABundle {
                     };
                     ast.commands.push(command);
                 }
+                OverlayType::Link(_) => {
+                    let link = overlay.as_any().downcast_ref::<overlay::Link>().unwrap();
+                    if let Ok(target) = link.target_bundle.parse() {
+                        let mut properties = IndexMap::new();
+                        properties.insert(
+                            "target".to_string(),
+                            NestedValue::Reference(RefValue::Said(target)),
+                        );
+                        let mut attributes = IndexMap::new();
+                        for (attr_name, linked_attr) in link.attribute_mapping.iter() {
+                            attributes
+                                .insert(attr_name.clone(), NestedValue::Value(linked_attr.clone()));
+                        }
+                        let command = Command {
+                            kind: CommandType::Add,
+                            object_kind: ObjectKind::Overlay(
+                                overlay.overlay_type().clone(),
+                                Content {
+                                    attributes: Some(attributes),
+                                    properties: Some(properties),
+                                },
+                            ),
+                        };
+                        ast.commands.push(command);
+                    }
+                }
+                OverlayType::AttributeFraming(_) => {
+                    let framing_ov = overlay
+                        .as_any()
+                        .downcast_ref::<overlay::AttributeFraming>()
+                        .unwrap();
+                    let mut properties = IndexMap::new();
+                    for (meta_name, meta_value) in framing_ov.metadata.iter() {
+                        let name = meta_name.strip_prefix("frame_").unwrap_or(meta_name);
+                        properties
+                            .insert(name.to_string(), NestedValue::Value(meta_value.clone()));
+                    }
+                    let mut attributes = IndexMap::new();
+                    for (attr_name, framing) in framing_ov.attribute_framing.iter() {
+                        let mut scopes = IndexMap::new();
+                        for (term, scope) in framing {
+                            let mut values = IndexMap::new();
+                            values.insert(
+                                "predicate_id".to_string(),
+                                NestedValue::Value(scope.predicate_id.clone()),
+                            );
+                            values.insert(
+                                "framing_justification".to_string(),
+                                NestedValue::Value(scope.framing_justification.clone()),
+                            );
+                            scopes.insert(term.clone(), NestedValue::Object(values));
+                        }
+                        attributes.insert(attr_name.clone(), NestedValue::Object(scopes));
+                    }
+                    let command = Command {
+                        kind: CommandType::Add,
+                        object_kind: ObjectKind::Overlay(
+                            overlay.overlay_type().clone(),
+                            Content {
+                                attributes: Some(attributes),
+                                properties: Some(properties),
+                            },
+                        ),
+                    };
+                    ast.commands.push(command);
+                }
                 _ => {}
             }
         });
-- 
2.43.0


From f0b2cfbfa6e6ad2ccb8d9e3526b38cc15d69a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 27/76] fix: an invalid condition does not hide the other
 errors of a bundle

---
 semantics/oca-bundle/src/state/validator.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-bundle/src/state/validator.rs b/semantics/oca-bundle/src/state/validator.rs
index ba94b05..c1ea1b3 100644
--- a/semantics/oca-bundle/src/state/validator.rs
+++ b/semantics/oca-bundle/src/state/validator.rs
@@ -133,10 +133,12 @@ impl Validator {
             .find_map(|x| x.as_any().downcast_ref::<overlay::Conditional>());
 
         if let Some(conditional_overlay) = conditional_overlay {
-            self.validate_conditional(
+            if let Err(condition_errors) = self.validate_conditional(
                 oca_bundle.capture_base.attributes.clone(),
                 conditional_overlay,
-            )?;
+            ) {
+                errors.extend(condition_errors);
+            }
         }
 
         if !enforced_langs.is_empty() {
-- 
2.43.0


From 86cb450ea7103deb5099a2a2f63677b5cbe1a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 28/76] fix: a condition the validator cannot mock is reported
 instead of aborting

---
 semantics/oca-bundle/src/state/validator.rs | 91 +++++++++++++--------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/semantics/oca-bundle/src/state/validator.rs b/semantics/oca-bundle/src/state/validator.rs
index c1ea1b3..47c5c33 100644
--- a/semantics/oca-bundle/src/state/validator.rs
+++ b/semantics/oca-bundle/src/state/validator.rs
@@ -232,8 +232,14 @@ impl Validator {
         let dependencies = overlay.attribute_dependencies.clone();
         let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         for &attr in overlay.attributes().iter() {
-            let condition = conditions.get(attr).unwrap(); // todo
-            let condition_dependencies = dependencies.get(attr).unwrap(); // todo
+            let (Some(condition), Some(condition_dependencies)) =
+                (conditions.get(attr), dependencies.get(attr))
+            else {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' has no dependencies of its condition"
+                )));
+                continue;
+            };
             if condition_dependencies.contains(attr) {
                 errors.push(Error::Custom(format!(
                     "Attribute '{attr}' cannot be a dependency of itself"
@@ -242,41 +248,45 @@ impl Validator {
             }
 
             let mut attr_mocks: HashMap<String, String> = HashMap::new();
-            condition_dependencies.iter().for_each(|dep| {
-                let dep_type = attr_types.get(dep).unwrap(); // todo
-                let value = match dep_type {
-                    NestedAttrType::Null => "null".to_string(),
-                    NestedAttrType::Value(base_type) => match base_type {
-                        AttributeType::Text => "'test'".to_string(),
-                        AttributeType::Numeric => "0".to_string(),
-                        AttributeType::DateTime => "'2020-01-01'".to_string(),
-                        AttributeType::Binary => "test".to_string(),
-                        AttributeType::Boolean => "true".to_string(),
-                    },
-                    // TODO validate nested objects
-                    NestedAttrType::Array(boxed_type) => match **boxed_type {
-                        NestedAttrType::Value(base_type) => match base_type {
-                            AttributeType::Text => "['test']".to_string(),
-                            AttributeType::Numeric => "[0]".to_string(),
-                            AttributeType::DateTime => "['2020-01-01']".to_string(),
-                            AttributeType::Binary => "[test]".to_string(),
-                            AttributeType::Boolean => "[true]".to_string(),
-                        },
-                        _ => panic!("Invalid or not supported array type"),
-                    },
-                    NestedAttrType::Reference(ref_value) => ref_value.to_string(),
-                };
-                attr_mocks.insert(dep.to_string(), value);
-            });
+            let mut undefined = vec![];
+            for dep in condition_dependencies {
+                match attr_types.get(dep) {
+                    Some(dep_type) => {
+                        attr_mocks.insert(dep.to_string(), mock_value(dep_type));
+                    }
+                    None => undefined.push(dep),
+                }
+            }
+            if !undefined.is_empty() {
+                errors.extend(undefined.into_iter().map(|dep| {
+                    Error::Custom(format!(
+                        "Attribute '{attr}' has undefined dependency '{dep}'"
+                    ))
+                }));
+                continue;
+            }
 
+            let mut unknown_mention = false;
             let script = re
                 .replace_all(condition, |caps: &regex::Captures| {
-                    attr_mocks
-                        .get(&condition_dependencies[caps[1].parse::<usize>().unwrap()].clone())
-                        .unwrap()
-                        .to_string()
+                    caps[1]
+                        .parse::<usize>()
+                        .ok()
+                        .and_then(|i| condition_dependencies.get(i))
+                        .and_then(|dep| attr_mocks.get(dep))
+                        .cloned()
+                        .unwrap_or_else(|| {
+                            unknown_mention = true;
+                            caps[0].to_string()
+                        })
                 })
                 .to_string();
+            if unknown_mention {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' has condition with unknown dependency"
+                )));
+                continue;
+            }
 
             let mut lua = Lua::new();
             let thread_result = lua.try_run(|ctx| {
@@ -399,6 +409,23 @@ impl Validator {
     }
 }
 
+/// Example of a value of the attribute type, as it is written in a condition
+fn mock_value(attr_type: &NestedAttrType) -> String {
+    match attr_type {
+        NestedAttrType::Null => "null".to_string(),
+        NestedAttrType::Value(base_type) => match base_type {
+            AttributeType::Text => "'test'".to_string(),
+            AttributeType::Numeric => "0".to_string(),
+            AttributeType::DateTime => "'2020-01-01'".to_string(),
+            AttributeType::Binary => "test".to_string(),
+            AttributeType::Boolean => "true".to_string(),
+        },
+        // TODO validate nested objects
+        NestedAttrType::Array(item_type) => format!("{{{}}}", mock_value(item_type)),
+        NestedAttrType::Reference(ref_value) => format!("'{ref_value}'"),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 33a7840389899bff965f81721d4e1f0ace258aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 29/76] fix: serialize groups of entry codes in sorted order,
 so that a loaded bundle keeps its identifier

---
 semantics/oca-bundle/src/state/entry_codes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/state/entry_codes.rs b/semantics/oca-bundle/src/state/entry_codes.rs
index 9a1bddc..8577987 100644
--- a/semantics/oca-bundle/src/state/entry_codes.rs
+++ b/semantics/oca-bundle/src/state/entry_codes.rs
@@ -3,6 +3,7 @@ use serde::{
     ser::{SerializeMap, SerializeSeq},
     Deserialize, Serialize,
 };
+use std::collections::BTreeMap;
 
 impl Serialize for EntryCodes {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -22,7 +23,7 @@ impl Serialize for EntryCodes {
             }
             Self::Object(codes) => {
                 let mut map = serializer.serialize_map(Some(codes.len()))?;
-                let sorted_codes: IndexMap<_, _> = codes.iter().collect();
+                let sorted_codes: BTreeMap<_, _> = codes.iter().collect();
                 for (k, v) in sorted_codes {
                     map.serialize_entry(k, v)?;
                 }
-- 
2.43.0


From fc9c13ca456626dec1c8c6485e648f620d489835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 30/76] fix: print attributes and classification of a bundle as
 separate instructions

---
 semantics/oca-bundle/src/state/oca.rs | 43 +++++++++++++--------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 144737c..c1baae0 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -934,33 +934,32 @@ impl OCABundle {
     pub fn to_ast(&self) -> OCAAst {
         let mut ast = OCAAst::new();
 
-        let mut properties = None;
+        if !self.capture_base.attributes.is_empty() {
+            ast.commands.push(Command {
+                kind: CommandType::Add,
+                object_kind: ObjectKind::CaptureBase(CaptureContent {
+                    attributes: Some(self.capture_base.attributes.clone()),
+                    properties: None,
+                    flagged_attributes: None,
+                }),
+            });
+        }
+
         if !self.capture_base.classification.is_empty() {
-            properties = Some(IndexMap::new());
-            properties.as_mut().unwrap().insert(
+            let mut properties = IndexMap::new();
+            properties.insert(
                 "classification".to_string(),
                 NestedValue::Value(self.capture_base.classification.clone()),
             );
-        }
-
-        let mut attributes = IndexMap::new();
-        self.capture_base
-            .attributes
-            .iter()
-            .for_each(|(attr_name, attr_type)| {
-                attributes.insert(attr_name.clone(), attr_type.clone());
+            ast.commands.push(Command {
+                kind: CommandType::Add,
+                object_kind: ObjectKind::CaptureBase(CaptureContent {
+                    attributes: None,
+                    properties: Some(properties),
+                    flagged_attributes: None,
+                }),
             });
-
-        let command = Command {
-            kind: CommandType::Add,
-            object_kind: ObjectKind::CaptureBase(CaptureContent {
-                // TODO find out if we can use indexmap in capture base to simplify stuff
-                attributes: Some(self.capture_base.attributes.clone().into_iter().collect()),
-                properties,
-                flagged_attributes: None,
-            }),
-        };
-        ast.commands.push(command);
+        }
 
         self.overlays.iter().for_each(|overlay| {
             match overlay.overlay_type() {
-- 
2.43.0


From 2631766dcfa143fde4b0fd7d7579718c16bf1315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 31/76] fix: an identifier cut short after its leading 0 is
 reported instead of aborting the parser

---
 semantics/oca-ast/src/ast/mod.rs                    | 13 +++++++++++--
 semantics/oca-file/src/ocafile/instructions/from.rs |  6 ++----
 .../oca-file/src/ocafile/instructions/helpers.rs    |  7 +++----
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index 2864627..31b77d1 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -430,6 +430,15 @@ pub enum RefValue {
     Name(String),
 }
 
+/// Parses an identifier. The code of an identifier starting with `0` takes two
+/// characters, which `SelfAddressingIdentifier::from_str` takes for granted.
+pub fn parse_said(s: &str) -> Result<SelfAddressingIdentifier, said::error::Error> {
+    if s.starts_with('0') && s.get(1..2).is_none() {
+        return Err(said::error::Error::IncorrectLengthError(s.to_string()));
+    }
+    SelfAddressingIdentifier::from_str(s)
+}
+
 impl FromStr for RefValue {
     type Err = RefValueParsingError;
 
@@ -439,7 +448,7 @@ impl FromStr for RefValue {
             .ok_or(RefValueParsingError::MissingColon)?;
         match tag {
             "refs" => {
-                let said = SelfAddressingIdentifier::from_str(rest)?;
+                let said = parse_said(rest)?;
                 Ok(RefValue::Said(said))
             }
             "refn" => Ok(RefValue::Name(rest.to_string())),
@@ -639,7 +648,7 @@ impl<'de> Deserialize<'de> for RefValue {
         ))?;
         match tag {
             "refs" => {
-                let said = SelfAddressingIdentifier::from_str(rest);
+                let said = parse_said(rest);
                 match said {
                     Ok(said) => Ok(RefValue::Said(said)),
                     Err(_) => Err(serde::de::Error::custom(format!(
diff --git a/semantics/oca-file/src/ocafile/instructions/from.rs b/semantics/oca-file/src/ocafile/instructions/from.rs
index 791b3df..8b9c128 100644
--- a/semantics/oca-file/src/ocafile/instructions/from.rs
+++ b/semantics/oca-file/src/ocafile/instructions/from.rs
@@ -1,9 +1,8 @@
 use crate::ocafile::{error::InstructionError, Pair, Rule};
 use log::debug;
 use oca_ast_semantics::ast::{
-    BundleContent, Command, CommandType, ObjectKind, RefValue, ReferenceAttrType,
+    parse_said, BundleContent, Command, CommandType, ObjectKind, RefValue, ReferenceAttrType,
 };
-use said::SelfAddressingIdentifier;
 
 #[derive(Debug, PartialEq, Eq, Clone)]
 pub struct FromInstruction {}
@@ -26,8 +25,7 @@ impl FromInstruction {
         }
 
         let said_str = said_pair.unwrap().as_str();
-        let said: SelfAddressingIdentifier = said_str
-            .parse()
+        let said = parse_said(said_str)
             .map_err(|_| InstructionError::Parser(format!("Invalid said: {said_str}")))?;
         debug!("Using oca bundle from: {:?}", said);
         let said = ReferenceAttrType::Reference(RefValue::Said(said));
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index af2207b..d4859a4 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -5,10 +5,9 @@ use indexmap::IndexMap;
 use log::debug;
 use oca_ast_semantics::ast::{
     recursive_attributes::{AttributeTypeResult, NestedAttrTypeFrame},
-    AttributeType, Content, NestedAttrType, NestedValue, RefValue,
+    parse_said, AttributeType, Content, NestedAttrType, NestedValue, RefValue,
 };
 use recursion::ExpandableExt;
-use said::SelfAddressingIdentifier;
 
 fn extract_attr_type(input: Pair) -> Result<NestedAttrType, ExtractingAttributeError> {
     let res = AttributeTypeResult::expand_frames(input, |seed| match seed.as_rule() {
@@ -22,7 +21,7 @@ fn extract_attr_type(input: Pair) -> Result<NestedAttrType, ExtractingAttributeE
             seed.as_str().to_string(),
         ))
         .into(),
-        Rule::said => match SelfAddressingIdentifier::from_str(seed.as_str()) {
+        Rule::said => match parse_said(seed.as_str()) {
             Ok(said) => NestedAttrTypeFrame::Reference(RefValue::Said(said)).into(),
             Err(e) => ExtractingAttributeError::SaidError(e).into(),
         },
@@ -425,7 +424,7 @@ pub fn extract_properites_key_pairs(object: Pair) -> Option<IndexMap<String, Nes
             }
             Rule::said => {
                 debug!("Parsing target said: {:?}", attr.as_str());
-                if let Ok(said) = SelfAddressingIdentifier::from_str(attr.as_str()) {
+                if let Ok(said) = parse_said(attr.as_str()) {
                     properties.insert(
                         "target".to_string(),
                         NestedValue::Reference(RefValue::Said(said)),
-- 
2.43.0


From f156893fd86bcb3fd7cfce9c4f16bf0ab04ccc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 32/76] fix: what a file starting from a bundle adds and
 removes is checked against that bundle

---
 semantics/oca-ast/src/validator.rs |  8 +++++++-
 semantics/oca-bundle/src/build.rs  | 14 ++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-ast/src/validator.rs b/semantics/oca-ast/src/validator.rs
index bdcd733..cda134f 100644
--- a/semantics/oca-ast/src/validator.rs
+++ b/semantics/oca-ast/src/validator.rs
@@ -72,7 +72,9 @@ fn validate_1_0_0(ast: &OCAAst, command: Command) -> Result<bool, Error> {
                 }
             }
         }
-        (CommandType::Remove, ObjectKind::CaptureBase(_)) => {
+        // What a list starting from another bundle may remove is only known
+        // when it is applied to that bundle
+        (CommandType::Remove, ObjectKind::CaptureBase(_)) if !starts_from_bundle(ast) => {
             match rule_remove_attr_if_exist(ast, command) {
                 Ok(result) => {
                     if !result {
@@ -111,6 +113,10 @@ fn validate_1_0_0(ast: &OCAAst, command: Command) -> Result<bool, Error> {
     }
 }
 
+fn starts_from_bundle(ast: &OCAAst) -> bool {
+    matches!(ast.commands.first(), Some(command) if command.kind == CommandType::From)
+}
+
 /// Check rule for remove command
 /// Rule would be valid if attributes which commands tries to remove exist in the stack
 ///
diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index d4c557e..f8a6fef 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -19,6 +19,7 @@ use crate::state::{
 };
 use indexmap::IndexMap;
 use oca_ast_semantics::ast;
+use oca_ast_semantics::validator::{OCAValidator, Validator};
 use std::collections::HashMap;
 use std::str::FromStr;
 
@@ -67,6 +68,8 @@ pub fn from_ast(
         None => None,
     };
     let mut base: Option<OCABox> = from_oca.clone().map(OCABox::from);
+    // What has been declared in the bundle to start from and since then
+    let mut history = from_oca.as_ref().map(OCABundle::to_ast);
     let default_command_meta = ast::CommandMeta {
         line_number: 0,
         raw_line: "unknown".to_string(),
@@ -81,6 +84,17 @@ pub fn from_ast(
             .commands_meta
             .get(&command_index)
             .unwrap_or(&default_command_meta);
+        if let Some(history) = &mut history {
+            if let Err(e) = (OCAValidator {}).validate(history, command.clone()) {
+                errors.push(Error::FromASTError {
+                    line_number: command_meta.line_number,
+                    raw_line: command_meta.raw_line.clone(),
+                    message: format!("Error validating instruction: {}", e),
+                });
+                continue;
+            }
+            history.commands.push(command.clone());
+        }
         match apply_command(base.clone(), command.clone()) {
             Ok(oca_box) => {
                 let mut oca_box_mut = oca_box.clone();
-- 
2.43.0


From 24e5b02f8fe6abd1b11819eb12499f66f9b7b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 33/76] fix: references by name inside nested arrays are
 resolved

---
 oca/src/local_references.rs | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index 0a34b37..bfd0c7e 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -23,29 +23,17 @@ pub fn replace_refn_with_refs<R: References>(
         {
             if let Some(attributes) = &mut content.attributes {
                 for (_, attr_type) in attributes {
-                    match attr_type {
-                        NestedAttrType::Reference(RefValue::Name(refn)) => {
-                            if let Some(said) = references.find(refn) {
-                                let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                *attr_type = NestedAttrType::Reference(RefValue::Said(said));
-                            } else {
-                                return Err(ValidationError::UnknownRefn(refn.clone()));
-                            }
-                        }
-                        NestedAttrType::Array(box_attr_type) => {
-                            if let NestedAttrType::Reference(RefValue::Name(refn)) =
-                                &**box_attr_type
-                            {
-                                if let Some(said) = references.find(refn) {
-                                    let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                    **box_attr_type =
-                                        NestedAttrType::Reference(RefValue::Said(said));
-                                } else {
-                                    return Err(ValidationError::UnknownRefn(refn.clone()));
-                                }
-                            }
+                    let mut attr_type = attr_type;
+                    while let NestedAttrType::Array(box_attr_type) = attr_type {
+                        attr_type = &mut **box_attr_type;
+                    }
+                    if let NestedAttrType::Reference(RefValue::Name(refn)) = attr_type {
+                        if let Some(said) = references.find(refn) {
+                            let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
+                            *attr_type = NestedAttrType::Reference(RefValue::Said(said));
+                        } else {
+                            return Err(ValidationError::UnknownRefn(refn.clone()));
                         }
-                        _ => (),
                     }
                 }
             }
-- 
2.43.0


From c9fa560a007c63f2ee500069421a8f209eeed4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 34/76] fix: reaching a bundle again does not make its recorded
 history circular

---
 oca/src/facade/build.rs | 20 +++++++++++++-------
 oca/src/facade/fetch.rs |  2 +-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index d7d6d7a..4d48843 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -299,13 +299,19 @@ impl Facade {
         let command_str = serde_json::to_string(&step.command).unwrap();
         input.extend(command_str.as_bytes());
         let result_bundle = step.result.clone();
-        self.db
-            .insert(
-                Namespace::OCA,
-                &format!("oca.{}.operation", result_bundle.said.clone().unwrap()),
-                &input,
-            )
-            .unwrap();
+        let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
+        // A bundle keeps the history it was first built with: a step leading back to it (or one
+        // without an effect) would make the history circular.
+        if self
+            .db
+            .get(Namespace::OCA, &operation_key)
+            .unwrap()
+            .is_none()
+        {
+            self.db
+                .insert(Namespace::OCA, &operation_key, &input)
+                .unwrap();
+        }
 
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index f588588..8687e70 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -309,7 +309,7 @@ impl Facade {
             history.push(OCABuildStep {
                 parent_said: parent_said.clone().parse().ok(),
                 command,
-                result: self.get_oca_bundle(s, false).unwrap().bundle.clone(),
+                result: self.get_oca_bundle(s, false)?.bundle.clone(),
             });
             said = parent_said;
 
-- 
2.43.0


From e698058e59ba58222685641bd77b9a3700227e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 35/76] fix: dependencies inside nested arrays are found

---
 oca/src/facade/fetch.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 8687e70..ecd38be 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -409,17 +409,12 @@ fn retrive_all_references(bundle: OCABundle) -> Vec<SelfAddressingIdentifier> {
     let mut refs: Vec<SelfAddressingIdentifier> = vec![];
 
     for (_, value) in bundle.capture_base.attributes {
-        match value {
-            ast::NestedAttrType::Reference(RefValue::Said(said)) => {
-                refs.push(said);
-            }
-            // TODO(recursion) handle nested arrays
-            ast::NestedAttrType::Array(box_attr_type) => {
-                if let ast::NestedAttrType::Reference(RefValue::Said(said)) = &*box_attr_type {
-                    refs.push(said.clone());
-                }
-            }
-            _ => {}
+        let mut value = value;
+        while let ast::NestedAttrType::Array(box_attr_type) = value {
+            value = *box_attr_type;
+        }
+        if let ast::NestedAttrType::Reference(RefValue::Said(said)) = value {
+            refs.push(said);
         }
     }
     refs
-- 
2.43.0


From 24b2fb60014a0826d55eb3b963ac3e71909c32cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 36/76] fix: an object of an intermediate version is reported
 instead of aborting

---
 oca/src/facade/fetch.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index ecd38be..9dd0241 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -232,7 +232,14 @@ impl Facade {
                     errors.push(e.to_string());
                     errors.clone()
                 })?;
-            let o_type: ObjectKind = (*r_type.unwrap().first().unwrap()).into();
+            let o_type: ObjectKind = (*r_type
+                .as_ref()
+                .and_then(|r_type| r_type.first())
+                .ok_or_else(|| {
+                    errors.push(format!("No OCA Object found for said: {}", said));
+                    errors.clone()
+                })?)
+            .into();
             match o_type {
                 ObjectKind::CaptureBase(_) => result.push(OCAObject::CaptureBase(
                     serde_json::from_str::<CaptureBase>(&object_str).map_err(|e| {
-- 
2.43.0


From 73d328e1d67f99365050a3327a290432f9d4fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 37/76] fix: report a storage that cannot list the references
 instead of aborting

---
 oca/src/facade/fetch.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 9dd0241..3f7a515 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -126,8 +126,7 @@ impl Facade {
     pub fn fetch_all_refs(&self) -> Result<HashMap<String, String>, String> {
         let mut refs: HashMap<String, String> = HashMap::new();
         self.db
-            .get_all(Namespace::OCAReferences)
-            .unwrap()
+            .get_all(Namespace::OCAReferences)?
             .iter()
             .for_each(|(k, v)| {
                 refs.insert(k.clone(), String::from_utf8(v.to_vec()).unwrap());
-- 
2.43.0


From 468c48cee7c788d136f3a8610b88d3b0faadb689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 38/76] fix: exploring the key of a metadata record does not
 abort

---
 oca/src/facade/explore.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index 096669c..c36c702 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -9,9 +9,12 @@ use super::Facade;
 impl Facade {
     pub fn explore(&self, said: String) -> Option<Relationship> {
         let relations_u8_res = self.db.get(Namespace::OCARelations, &said);
+        let metadata_res = self
+            .db
+            .get(Namespace::OCARelations, &format!("{}.metadata", said));
 
-        match relations_u8_res {
-            Ok(Some(relations_u8)) => {
+        match (relations_u8_res, metadata_res) {
+            (Ok(Some(relations_u8)), Ok(Some(_))) => {
                 let relationship: Relationship = relations_u8.into();
                 Some(Relationship {
                     base_object: OCAObject::new(self, said),
-- 
2.43.0


From 9fcdfa46310a6d84ff0b1f30e164e3bb4f31795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 39/76] fix: keys of the file system storage cannot leave its
 directory or be unstorable

---
 oca/src/data_storage.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 7bf0970..aed2a50 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -237,6 +237,26 @@ impl FileSystemStorageConfigBuilder {
     }
 }
 
+impl FileSystemStorage {
+    /// Name of the file holding the value of `key`. Bytes that cannot be part
+    /// of a file name everywhere are percent-encoded.
+    fn file_name(key: &str) -> String {
+        if key.is_empty() {
+            return "%".to_string();
+        }
+        key.bytes()
+            .enumerate()
+            .map(|(i, b)| match b {
+                b'.' if i == 0 => "%2E".to_string(),
+                b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'_' | b'.' => {
+                    (b as char).to_string()
+                }
+                _ => format!("%{:02X}", b),
+            })
+            .collect()
+    }
+}
+
 impl DataStorage for FileSystemStorage {
     fn new() -> Self {
         Self { dir: None }
@@ -256,7 +276,7 @@ impl DataStorage for FileSystemStorage {
             let mut path = dir.clone();
             path.push(namespace.as_str());
             if path.try_exists().unwrap() {
-                path.push(key);
+                path.push(Self::file_name(key));
                 Ok(std::fs::read(path.clone()).ok())
             } else {
                 Ok(None)
@@ -278,7 +298,7 @@ impl DataStorage for FileSystemStorage {
                 std::fs::create_dir_all(path.clone()).unwrap();
             }
 
-            path.push(key);
+            path.push(Self::file_name(key));
             std::fs::write(path.clone(), value).map_err(|e| e.to_string())
         } else {
             Err("File path is required".to_string())
-- 
2.43.0


From 36d695d0dcb30e77dcfeb71395f799a0995edb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 40/76] fix: list and index a bundle only after it is stored

---
 oca/src/facade/build.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 4d48843..e050eaa 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -122,10 +122,6 @@ impl Facade {
     }
 
     pub fn build(&mut self, oca_build: &OCABuild) -> Result<OCABundle, Error> {
-        self.build_cache(&oca_build.oca_bundle);
-
-        self.build_meta(&oca_build.oca_bundle);
-
         oca_build
             .steps
             .iter()
@@ -135,6 +131,11 @@ impl Facade {
 
         self.build_models(oca_build);
 
+        // A bundle is listed and found only once everything about it is stored.
+        self.build_cache(&oca_build.oca_bundle);
+
+        self.build_meta(&oca_build.oca_bundle);
+
         Ok(oca_build.oca_bundle.clone())
     }
 
-- 
2.43.0


From 3ceaec07af7a97bce940b7b30bdef570d281baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 41/76] fix: report a transformation file without source or
 target instead of aborting

---
 .../transformation-file/src/build.rs          | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/transformation/transformation-file/src/build.rs b/transformation/transformation-file/src/build.rs
index 2d7ce1a..530d861 100644
--- a/transformation/transformation-file/src/build.rs
+++ b/transformation/transformation-file/src/build.rs
@@ -25,22 +25,33 @@ pub enum Error {
 pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Error>> {
     let mut errors = vec![];
 
+    let default_command_meta = ast::CommandMeta {
+        line_number: 0,
+        raw_line: "unknown".to_string(),
+    };
+
     let mut base: Option<Transformation> = None;
     if !ast.meta.is_empty() {
-        let source = ast.meta.get("source").expect("missing source meta");
-        let source_said = source.replace("refs:", "");
-        let target = ast.meta.get("target").expect("missing target meta");
-        let target_said = target.replace("refs:", "");
+        let mut meta = |key: &str| {
+            if !ast.meta.contains_key(key) {
+                errors.push(Error::FromASTError {
+                    line_number: default_command_meta.line_number,
+                    raw_line: default_command_meta.raw_line.clone(),
+                    message: format!("missing {} meta", key),
+                });
+            }
+            ast.meta.get(key).map(|value| value.replace("refs:", ""))
+        };
+        let source_said = meta("source");
+        let target_said = meta("target");
         let mut transformation = Transformation::new();
-        transformation.set_source(source_said);
-        transformation.set_target(target_said);
+        if let (Some(source_said), Some(target_said)) = (source_said, target_said) {
+            transformation.set_source(source_said);
+            transformation.set_target(target_said);
+        }
         base = Some(transformation)
     }
 
-    let default_command_meta = ast::CommandMeta {
-        line_number: 0,
-        raw_line: "unknown".to_string(),
-    };
     for (i, command) in ast.commands.iter().enumerate() {
         let command_index = i;
         // todo pass the references
@@ -62,7 +73,7 @@ pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Erro
         }
     }
     if errors.is_empty() {
-        let mut transformation = base.unwrap().clone();
+        let mut transformation = base.unwrap_or_default();
         transformation.fill_said();
         Ok(transformation)
     } else {
-- 
2.43.0


From 427af2785ce82bde1d0531fffc73b973f7ca16e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 42/76] fix: encode a combined bundle without a semantic bundle
 instead of aborting

---
 oca/src/facade/bundle.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oca/src/facade/bundle.rs b/oca/src/facade/bundle.rs
index 7ce3fab..71298b6 100644
--- a/oca/src/facade/bundle.rs
+++ b/oca/src/facade/bundle.rs
@@ -67,8 +67,12 @@ impl Bundle {
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
 
-        let structural = self.structural.as_ref().unwrap();
-        let structural_str = String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap();
+        let structural_str = match self.structural.as_ref() {
+            Some(structural) => {
+                String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap()
+            }
+            None => "null".to_string(),
+        };
 
         let mut transformations_str = String::new();
         let mut transformations_iter = self.transformations.iter().peekable();
-- 
2.43.0


From 1e39aebf883ee89c88494b5807593a81a49e61a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 43/76] fix: the first version after a FROM instruction records
 its parent

---
 semantics/oca-dag/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/semantics/oca-dag/src/lib.rs b/semantics/oca-dag/src/lib.rs
index 64b402b..0c97ee6 100644
--- a/semantics/oca-dag/src/lib.rs
+++ b/semantics/oca-dag/src/lib.rs
@@ -50,14 +50,12 @@ pub struct OCABundleModel {
 
 #[derive(Debug, Clone)]
 struct State {
-    oca_bundle: Option<SelfAddressingIdentifier>,
     capture_base: Option<SelfAddressingIdentifier>,
     overlays: HashMap<String, SelfAddressingIdentifier>,
 }
 impl State {
     fn new() -> Self {
         Self {
-            oca_bundle: None,
             capture_base: None,
             overlays: HashMap::new(),
         }
@@ -153,7 +151,7 @@ fn apply_step(
 
     let oca_bundle_model = OCABundleModel {
         oca_bundle_said: step.result.said.clone().unwrap(),
-        parent: state.oca_bundle,
+        parent: step.parent_said.clone(),
         capture_base_said: step.result.capture_base.said.clone().unwrap(),
         overlays_said: step
             .result
@@ -162,8 +160,7 @@ fn apply_step(
             .map(|overlay| overlay.said().clone().unwrap())
             .collect(),
     };
-    result.oca_bundle = Some(oca_bundle_model.clone());
-    current_state.oca_bundle = Some(oca_bundle_model.oca_bundle_said.clone());
+    result.oca_bundle = Some(oca_bundle_model);
 
     (current_state, result)
 }
-- 
2.43.0


From a7ef3507d0a696230200afe8ec8a31c5fd745be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 44/76] fix: version records of links and framings are about
 the right overlay

---
 semantics/oca-dag/src/lib.rs | 41 ++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-dag/src/lib.rs b/semantics/oca-dag/src/lib.rs
index 0c97ee6..a644967 100644
--- a/semantics/oca-dag/src/lib.rs
+++ b/semantics/oca-dag/src/lib.rs
@@ -2,6 +2,7 @@ pub mod data_storage;
 pub mod versioning;
 
 use oca_ast_semantics::ast;
+use oca_bundle_semantics::state::oca::{overlay, DynOverlay};
 use said::{derivation::HashFunction, SelfAddressingIdentifier};
 use std::collections::HashMap;
 use std::str::FromStr;
@@ -93,6 +94,34 @@ pub fn build_core_db_model(oca_build: &oca_bundle_semantics::build::OCABuild) ->
     result_models
 }
 
+/// The link target or frame an overlay is about. There is one overlay for each.
+fn overlay_subject(overlay: &DynOverlay) -> Option<String> {
+    let overlay = overlay.as_any();
+    if let Some(link) = overlay.downcast_ref::<overlay::Link>() {
+        Some(link.target_bundle.clone())
+    } else {
+        overlay
+            .downcast_ref::<overlay::AttributeFraming>()
+            .and_then(|framing| framing.metadata.get("frame_id").cloned())
+    }
+}
+
+/// The link target or frame an instruction is about.
+fn command_subject(overlay_type: &ast::OverlayType, content: &ast::Content) -> Option<String> {
+    let properties = content.properties.as_ref()?;
+    match overlay_type {
+        ast::OverlayType::Link(_) => match properties.get("target")? {
+            ast::NestedValue::Reference(ast::RefValue::Said(said)) => Some(said.to_string()),
+            _ => None,
+        },
+        ast::OverlayType::AttributeFraming(_) => match properties.get("id")? {
+            ast::NestedValue::Value(id) => Some(id.clone()),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
 fn apply_step(
     state: State,
     step: &oca_bundle_semantics::build::OCABuildStep,
@@ -121,16 +150,20 @@ fn apply_step(
                 }
             }
 
+            let subject = command_subject(overlay_type, content);
             let overlay = step.result.overlays.iter().find(|overlay| {
-                overlay.overlay_type().eq(overlay_type) && overlay.language() == lang.as_ref()
+                overlay.overlay_type().eq(overlay_type)
+                    && overlay.language() == lang.as_ref()
+                    && overlay_subject(overlay) == subject
             });
 
             if let Some(overlay) = overlay {
-                let overlay_key = match overlay.language() {
-                    Some(lang) => {
+                let overlay_key = match (overlay.language(), subject) {
+                    (Some(lang), _) => {
                         format!("{}-{}", &overlay.overlay_type(), lang.to_639_1().unwrap())
                     }
-                    None => format!("{}", overlay.overlay_type()),
+                    (None, Some(subject)) => format!("{}-{}", overlay.overlay_type(), subject),
+                    (None, None) => format!("{}", overlay.overlay_type()),
                 };
                 let parent_overlay = state.overlays.get(&overlay_key);
                 let overlay_model = OverlayModel {
-- 
2.43.0


From 454f46fd4b8d3cf411c4ec560f815201f322db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 45/76] fix: reaching a version again does not make its chain
 of versions circular

---
 oca/src/facade/build.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index e050eaa..a004a78 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -18,6 +18,7 @@ use oca_bundle_semantics::Encode;
 use oca_dag_semantics::build_core_db_model;
 use said::derivation::HashFunctionCode;
 use said::sad::SerializationFormats;
+use said::SelfAddressingIdentifier;
 
 #[derive(thiserror::Error, Debug, serde::Serialize)]
 #[serde(untagged)]
@@ -378,13 +379,7 @@ impl Facade {
                 );
                 input.extend(capture_base_model.command_digest.to_string().as_bytes());
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", capture_base_model.capture_base_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.insert_version(&capture_base_model.capture_base_said, &input);
             }
 
             if let Some(overlay_model) = &model.overlay {
@@ -409,13 +404,7 @@ impl Facade {
                 );
                 input.extend(overlay_model.command_digest.to_string().as_bytes());
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", overlay_model.overlay_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.insert_version(&overlay_model.overlay_said, &input);
             }
 
             if let Some(oca_bundle_model) = &model.oca_bundle {
@@ -445,14 +434,17 @@ impl Facade {
                     input.extend(said.to_string().as_bytes());
                 }
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", oca_bundle_model.oca_bundle_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.insert_version(&oca_bundle_model.oca_bundle_said, &input);
             }
         });
     }
+
+    /// A version keeps the parent it was first derived from, otherwise the chain
+    /// of versions would become circular when a version is reached again.
+    fn insert_version(&mut self, said: &SelfAddressingIdentifier, record: &[u8]) {
+        let key = format!("core_model.{}", said);
+        if self.db.get(Namespace::CoreModel, &key).unwrap().is_none() {
+            self.db.insert(Namespace::CoreModel, &key, record).unwrap();
+        }
+    }
 }
-- 
2.43.0


From 779aca4ebfe12ed40fe6b6655886a89d1c346dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 46/76] fix: any text can be searched for

---
 oca/src/repositories/oca_bundle_fts_repo.rs | 55 ++++++++++++---------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 7d63b15..5165e37 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -78,12 +78,12 @@ impl OCABundleFTSRepo {
         page: usize,
     ) -> SearchResult {
         let offset = (page - 1) * limit;
-        let query = match language {
+        let match_query = |meta_query: &str| match language {
             Some(lang) => {
                 let lang_code = isolang::Language::to_639_3(&lang).to_string();
-                format!("({{name description}}:{meta_query:} AND language_code:{lang_code:}) OR ({{name description}}:{meta_query:} NOT language_code:{lang_code:})")
+                format!("({{name description}}:({meta_query:}) AND language_code:{lang_code:}) OR ({{name description}}:({meta_query:}) NOT language_code:{lang_code:})")
             }
-            None => format!("{{name description}}:{meta_query:}"),
+            None => format!("{{name description}}:({meta_query:})"),
         };
 
         let sql_query = r#"
@@ -132,21 +132,20 @@ impl OCABundleFTSRepo {
                 let mut snippet_regex = self.snippet.clone().unwrap();
                 snippet_regex = snippet_regex.replace("<mark>", "");
                 snippet_regex = snippet_regex.replace("</mark>", "");
-                let mut v: Vec<String> =
-                    snippet_regex.split("...").map(|x| x.to_string()).collect();
-                if v.first().unwrap().is_empty() {
+                let mut v: Vec<String> = snippet_regex.split("...").map(regex::escape).collect();
+                if v.len() > 1 && v.first().unwrap().is_empty() {
                     v.remove(0);
                     if let Some(x) = v.first_mut() {
                         *x = format!(".*{}", x);
                     }
                 }
-                if v.last().unwrap().is_empty() {
+                if v.len() > 1 && v.last().unwrap().is_empty() {
                     v.pop();
                     if let Some(x) = v.last_mut() {
                         *x = format!("{}.*", x);
                     }
                 }
-                snippet_regex = v.join("...");
+                snippet_regex = v.join("\\.\\.\\.");
                 let re = regex::Regex::new(&format!("(?m)^([^:]+):{snippet_regex:}$")).unwrap();
                 let hay = format!(
                     "\
@@ -167,27 +166,37 @@ meta_overlay:{}
         let connection = self.connection.connection.lock().unwrap();
         let mut statement = connection.prepare(sql_query).unwrap();
 
-        let rows = statement
-            .query_map(
-                [query.clone(), limit.to_string(), offset.to_string()],
-                |row| {
+        let mut find = |query: String| -> rusqlite::Result<Vec<Record>> {
+            statement
+                .query_map([query, limit.to_string(), offset.to_string()], |row| {
                     Ok(Record {
-                        name: row.get(0).unwrap(),
-                        description: row.get(1).unwrap(),
-                        oca_bundle_said: row.get(3).unwrap(),
-                        rank: row.get(4).unwrap(),
-                        total: row.get(7).unwrap(),
-                        snippet: row.get(5).unwrap(),
+                        name: row.get(0)?,
+                        description: row.get(1)?,
+                        oca_bundle_said: row.get(3)?,
+                        rank: row.get(4)?,
+                        total: row.get(7)?,
+                        snippet: row.get(5)?,
                     })
-                },
-            )
-            .unwrap();
+                })?
+                .collect()
+        };
+
+        // What is not a full-text query is taken as words to search for.
+        let found = find(match_query(&meta_query))
+            .or_else(|_| {
+                let words = meta_query
+                    .split_whitespace()
+                    .map(|word| format!("\"{}\"", word.replace('"', "\"\"")))
+                    .collect::<Vec<_>>()
+                    .join(" ");
+                find(match_query(&words))
+            })
+            .unwrap_or_default();
 
         let mut records = vec![];
         let mut total: usize = 0;
 
-        for row in rows {
-            let record = row.unwrap();
+        for record in found {
             if total == 0 {
                 total = record.total as usize;
             }
-- 
2.43.0


From 5044ee75f299f875343cc5a128e3a2d988dd4492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 47/76] fix: the identifier filled into a combined bundle is
 the one its JSON carries

---
 oca/src/facade/bundle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oca/src/facade/bundle.rs b/oca/src/facade/bundle.rs
index 71298b6..c7f137f 100644
--- a/oca/src/facade/bundle.rs
+++ b/oca/src/facade/bundle.rs
@@ -57,10 +57,13 @@ impl Bundle {
         self.transformations.push(transformation);
     }
 
+    /// Sets the identifier to the one the encoded bundle carries
     pub fn fill_said(&mut self) {
-        let code = HashFunctionCode::Blake3_256;
-        let format = SerializationFormats::JSON;
-        self.compute_digest(&code, &format);
+        self.said = self
+            .encode()
+            .and_then(|encoded| serde_json::from_str::<serde_json::Value>(&encoded))
+            .ok()
+            .and_then(|bundle| bundle["d"].as_str()?.parse().ok());
     }
 
     pub fn encode(&self) -> Result<String, serde_json::Error> {
-- 
2.43.0


From 79acb63b2adb4b7e1bb1052259b0bbad97aa97d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 48/76] fix: letters outside ASCII do not become part of a
 standard's URN

---
 semantics/oca-bundle/src/state/standard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/state/standard.rs b/semantics/oca-bundle/src/state/standard.rs
index 7649514..dbbd433 100644
--- a/semantics/oca-bundle/src/state/standard.rs
+++ b/semantics/oca-bundle/src/state/standard.rs
@@ -12,7 +12,7 @@ pub struct Standard {
 impl Standard {
     pub fn new(value: String) -> Self {
         Self {
-            value: value.to_lowercase(),
+            value: value.to_ascii_lowercase(),
         }
     }
 
-- 
2.43.0


From 0ef01a9987b48152f3862094f83782c7643eab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 49/76] fix: a standard overlay is written in one order

---
 semantics/oca-bundle/src/state/oca/overlay/standard.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca/overlay/standard.rs b/semantics/oca-bundle/src/state/oca/overlay/standard.rs
index 1779023..59ab117 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/standard.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/standard.rs
@@ -5,7 +5,7 @@ use said::derivation::HashFunctionCode;
 use said::{sad::SerializationFormats, sad::SAD};
 use serde::{Deserialize, Serialize};
 use std::any::Any;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[allow(dead_code)]
 pub(crate) trait StandardAttribute {
@@ -33,7 +33,7 @@ pub struct StandardOverlay {
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
-    pub attribute_standards: HashMap<String, Standard>,
+    pub attribute_standards: BTreeMap<String, Standard>,
 }
 
 impl Overlay for StandardOverlay {
@@ -71,7 +71,7 @@ impl StandardOverlay {
             capture_base: None,
             said: None,
             overlay_type: OverlayType::Standard(overlay_version),
-            attribute_standards: HashMap::new(),
+            attribute_standards: BTreeMap::new(),
         })
     }
 }
-- 
2.43.0


From 1166ecbfe1eba4f44c00bcc5899e3d9d61e13723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 50/76] fix: the dots of an ISO URN are dots

---
 semantics/oca-bundle/config/standards.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/config/standards.yml b/semantics/oca-bundle/config/standards.yml
index 66ab176..c1db0d3 100644
--- a/semantics/oca-bundle/config/standards.yml
+++ b/semantics/oca-bundle/config/standards.yml
@@ -1,2 +1,2 @@
 ietf: ^([Rr][Ff][Cc]:[0-9]+|[Ff][Yy][Ii]:[0-9]+|[Ss][Tt][Dd]:[0-9]+|[Bb][Cc][Pp]:[0-9]+|[Ii][Dd]:(([0-9A-Za-z]|-)+)|[Mm][Tt][Gg]:(([0-9A-Za-z]|-)+)|(([0-9A-Za-z]|-)+))$
-iso: ^[Ss][Tt][Dd]:([Ii][Ss][Oo]|[Ii][Ss][Oo]-[Ii][Ee][Cc]|[Ii][Ss][Oo]-[Cc][Ii][Ee]|[Ii][Ss][Oo]-[Aa][Ss][Tt][Mm]|[Ii][Ss][Oo]-[Ii][Ee][Ee][Ee]|[Ii][Ee][Cc])(:([Dd][Aa][Tt][Aa]|[Gg][Uu][Ii][Dd][Ee]|[Ii][Ss][Pp]|[Ii][Ww][Aa]|[Pp][Aa][Ss]|[Rr]|[Tt][Rr]|[Tt][Ss]|[Tt][Tt][Aa]))?:[0-9][0-9]*(:(-([0-9A-Za-z]|-)+))?((:(([Dd][Rr][Aa][Ff][Tt]|[Cc][Aa][Nn][Cc][Ee][Ll][Ll][Ee][Dd])|[Ss][Tt][Aa][Gg][Ee]-[0-9][0-9].[0-9][0-9](.[Vv][0-9][0-9]*)?))?:[Ee][Dd]-[0-9][0-9]*)?(:([Vv]([0-9][0-9]*|[0-9][0-9]*(-([Aa][Mm][Dd]|[Cc][Oo][Rr]|[Aa][Dd][Dd])[0-9][0-9]*(.[Vv][0-9][0-9]*)?)*)))?(:(([Ee][Nn]|[Ff][Rr]|[Rr][Uu]|[Ee][Ss]|[Aa][Rr])|([Ee][Nn],[Ff][Rr]|[Ee][Nn],[Rr][Uu]|[Ff][Rr],[Rr][Uu])|[Ee][Nn],[Ff][Rr],[Rr][Uu]))?(:([Aa][Mm][Dd]|[Cc][Oo][Rr]|[Aa][Dd][Dd]):[0-9][0-9]*(:[Vv][0-9][0-9]*)?(:(([Ee][Nn]|[Ff][Rr]|[Rr][Uu]|[Ee][Ss]|[Aa][Rr])|([Ee][Nn],[Ff][Rr]|[Ee][Nn],[Rr][Uu]|[Ff][Rr],[Rr][Uu])|[Ee][Nn],[Ff][Rr],[Rr][Uu]))?)*(:([Cc][Ll][Aa][Uu][Ss][Ee]|[Ff][Ii][Gg][Uu][Rr][Ee]|[Tt][Aa][Bb][Ll][Ee]|[Tt][Ee][Rr][Mm]):(((([A-Za-z]|[0-9][0-9]*)(.[0-9][0-9]*)*)|(([A-Za-z]|[0-9][0-9]*)(.[0-9][0-9]*)*)-(([A-Za-z]|[0-9][0-9]*)(.[0-9][0-9]*)*))(,((([A-Za-z]|[0-9][0-9]*)(.[0-9][0-9]*)*)|((([A-Za-z]|[0-9][0-9]*)(.[0-9][0-9]*)*)-(([A-Za-z]|[0-9][0-9]*)(.[0-9][0-9]*)*))))*))*((:[Tt][Ee][Cc][Hh]:.*|[A-Za-z]*))?$
+iso: ^[Ss][Tt][Dd]:([Ii][Ss][Oo]|[Ii][Ss][Oo]-[Ii][Ee][Cc]|[Ii][Ss][Oo]-[Cc][Ii][Ee]|[Ii][Ss][Oo]-[Aa][Ss][Tt][Mm]|[Ii][Ss][Oo]-[Ii][Ee][Ee][Ee]|[Ii][Ee][Cc])(:([Dd][Aa][Tt][Aa]|[Gg][Uu][Ii][Dd][Ee]|[Ii][Ss][Pp]|[Ii][Ww][Aa]|[Pp][Aa][Ss]|[Rr]|[Tt][Rr]|[Tt][Ss]|[Tt][Tt][Aa]))?:[0-9][0-9]*(:(-([0-9A-Za-z]|-)+))?((:(([Dd][Rr][Aa][Ff][Tt]|[Cc][Aa][Nn][Cc][Ee][Ll][Ll][Ee][Dd])|[Ss][Tt][Aa][Gg][Ee]-[0-9][0-9]\.[0-9][0-9](\.[Vv][0-9][0-9]*)?))?:[Ee][Dd]-[0-9][0-9]*)?(:([Vv]([0-9][0-9]*|[0-9][0-9]*(-([Aa][Mm][Dd]|[Cc][Oo][Rr]|[Aa][Dd][Dd])[0-9][0-9]*(\.[Vv][0-9][0-9]*)?)*)))?(:(([Ee][Nn]|[Ff][Rr]|[Rr][Uu]|[Ee][Ss]|[Aa][Rr])|([Ee][Nn],[Ff][Rr]|[Ee][Nn],[Rr][Uu]|[Ff][Rr],[Rr][Uu])|[Ee][Nn],[Ff][Rr],[Rr][Uu]))?(:([Aa][Mm][Dd]|[Cc][Oo][Rr]|[Aa][Dd][Dd]):[0-9][0-9]*(:[Vv][0-9][0-9]*)?(:(([Ee][Nn]|[Ff][Rr]|[Rr][Uu]|[Ee][Ss]|[Aa][Rr])|([Ee][Nn],[Ff][Rr]|[Ee][Nn],[Rr][Uu]|[Ff][Rr],[Rr][Uu])|[Ee][Nn],[Ff][Rr],[Rr][Uu]))?)*(:([Cc][Ll][Aa][Uu][Ss][Ee]|[Ff][Ii][Gg][Uu][Rr][Ee]|[Tt][Aa][Bb][Ll][Ee]|[Tt][Ee][Rr][Mm]):(((([A-Za-z]|[0-9][0-9]*)(\.[0-9][0-9]*)*)|(([A-Za-z]|[0-9][0-9]*)(\.[0-9][0-9]*)*)-(([A-Za-z]|[0-9][0-9]*)(\.[0-9][0-9]*)*))(,((([A-Za-z]|[0-9][0-9]*)(\.[0-9][0-9]*)*)|((([A-Za-z]|[0-9][0-9]*)(\.[0-9][0-9]*)*)-(([A-Za-z]|[0-9][0-9]*)(\.[0-9][0-9]*)*))))*))*((:[Tt][Ee][Cc][Hh]:.*|[A-Za-z]*))?$
-- 
2.43.0


From 2defaedb151be819891b608f20400938b6d31cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 51/76] fix: LINK ATTRIBUTE a->b needs no space in front of the
 arrow

---
 transformation/oca-file/src/ocafile.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index dc1cc55..00c761a 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -120,7 +120,7 @@ link_attributes = { ^"attribute" ~ link_attr_pairs+ }
 link_attr_pair = @{attr_key ~ arg_ws? ~ "->" ~ arg_ws?  ~ attr_key}
 link_attr_pairs = ${ (arg_ws ~ link_attr_pair)+}
 
-attr_key = ${ (ASCII_ALPHANUMERIC | "-" | "_" )+ }
+attr_key = ${ (!"->" ~ (ASCII_ALPHANUMERIC | "-" | "_" ))+ }
 key_value = ${ string | char+}
 key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ key_value }
 attr_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
-- 
2.43.0


From 084551a699c2ac61d908d88e119032f4df81258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 52/76] fix: editing a loaded bundle keeps its attribute
 mapping

---
 semantics/oca-bundle/src/state/oca.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index c1baae0..5af6e59 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -731,6 +731,15 @@ impl From<OCABundle> for OCABox {
             }
         }
 
+        let attribute_mapping_overlays = oca_bundle
+            .overlays
+            .iter()
+            .filter_map(|x| x.as_any().downcast_ref::<overlay::AttributeMapping>())
+            .collect::<Vec<_>>();
+        for overlay in attribute_mapping_overlays {
+            oca_box.add_attribute_mapping(overlay.clone());
+        }
+
         let character_encoding_overlays = oca_bundle
             .overlays
             .iter()
-- 
2.43.0


From 35a0500285b484a063074c153ded6cbc8d4aea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:01 +0000
Subject: [PATCH 53/76] fix: a dependency shared by several bundles is fetched
 once

---
 oca/src/facade/fetch.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 3f7a515..16423fb 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -20,6 +20,7 @@ use serde::Serialize;
 use std::borrow::Borrow;
 #[cfg(feature = "local-references")]
 use std::collections::HashMap;
+use std::collections::HashSet;
 use std::str::FromStr;
 
 #[derive(Debug, Serialize)]
@@ -388,10 +389,18 @@ pub fn get_oca_bundle(
         Ok(oca_bundle) => {
             let mut dep_bundles = vec![];
             if with_dep {
-                for refs in retrive_all_references(oca_bundle.clone()) {
-                    let dep_bundle = get_oca_bundle(storage, refs, true)?;
+                // a bundle referenced in several places is one dependency
+                let mut seen = HashSet::new();
+                let mut pending = retrive_all_references(oca_bundle.clone());
+                pending.reverse();
+                while let Some(refs) = pending.pop() {
+                    if !seen.insert(refs.clone()) {
+                        continue;
+                    }
+                    let dep_bundle = get_oca_bundle(storage, refs, false)?;
+                    let further = retrive_all_references(dep_bundle.bundle.clone());
+                    pending.extend(further.into_iter().rev());
                     dep_bundles.push(dep_bundle.bundle);
-                    dep_bundles.extend(dep_bundle.dependencies);
                 }
             }
             let result = BundleWithDependencies {
-- 
2.43.0


From c5b851181a524dbd11578265c75dd4c6a816ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 54/76] fix: a build reports what could not be stored

---
 oca/src/facade/build.rs                       | 33 ++++++++++++++-----
 oca/src/facade/explore.rs                     | 30 +++++++++--------
 .../repositories/capture_base_cache_repo.rs   |  9 +++--
 oca/src/repositories/oca_bundle_cache_repo.rs |  9 +++--
 oca/src/repositories/oca_bundle_fts_repo.rs   |  8 ++---
 5 files changed, 53 insertions(+), 36 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index a004a78..2c60e6c 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -27,6 +27,8 @@ pub enum Error {
     ValidationError(Vec<ValidationError>),
     #[error("Deprecated")]
     Deprecated,
+    #[error("Storage error: {0}")]
+    StorageError(String),
 }
 
 #[derive(thiserror::Error, Debug, serde::Serialize)]
@@ -128,14 +130,17 @@ impl Facade {
             .iter()
             .for_each(|step| self.build_step(step));
 
-        let _ = self.add_relations(oca_build.oca_bundle.clone());
+        self.add_relations(oca_build.oca_bundle.clone())
+            .map_err(Error::StorageError)?;
 
         self.build_models(oca_build);
 
         // A bundle is listed and found only once everything about it is stored.
-        self.build_cache(&oca_build.oca_bundle);
+        self.build_cache(&oca_build.oca_bundle)
+            .map_err(|e| Error::StorageError(e.to_string()))?;
 
-        self.build_meta(&oca_build.oca_bundle);
+        self.build_meta(&oca_build.oca_bundle)
+            .map_err(|e| Error::StorageError(e.to_string()))?;
 
         Ok(oca_build.oca_bundle.clone())
     }
@@ -182,7 +187,7 @@ impl Facade {
                     ReferenceAttrType::Reference(refs) => {
                         match refs {
                             RefValue::Said(said) => {
-                                match get_oca_bundle(storage, said, false) {
+                                match get_oca_bundle(storage, said.clone(), false) {
                                     Ok(oca_bundle) => {
                                         // TODO
                                         base = Some(oca_bundle.bundle.clone());
@@ -204,6 +209,12 @@ impl Facade {
                                                 message: e.clone(),
                                             })
                                         });
+                                        // stored, but cannot be read
+                                        let stored = storage
+                                            .get(Namespace::OCABundlesJSON, &said.to_string());
+                                        if stored != Ok(None) {
+                                            return Err(errors);
+                                        }
                                     }
                                 }
                             }
@@ -244,17 +255,19 @@ impl Facade {
         Ok(oca_build)
     }
 
-    fn build_cache(&self, oca_bundle: &OCABundle) {
+    fn build_cache(&self, oca_bundle: &OCABundle) -> rusqlite::Result<()> {
         let oca_bundle_cache_repo = OCABundleCacheRepo::new(self.connection());
         let oca_bundle_cache_record = OCABundleCacheRecord::new(oca_bundle);
-        oca_bundle_cache_repo.insert(oca_bundle_cache_record);
+        oca_bundle_cache_repo.insert(oca_bundle_cache_record)?;
 
         let capture_base_cache_repo = CaptureBaseCacheRepo::new(self.connection());
         let capture_base_cache_record = CaptureBaseCacheRecord::new(&oca_bundle.capture_base);
-        capture_base_cache_repo.insert(capture_base_cache_record);
+        capture_base_cache_repo.insert(capture_base_cache_record)?;
+
+        Ok(())
     }
 
-    fn build_meta(&self, oca_bundle: &OCABundle) {
+    fn build_meta(&self, oca_bundle: &OCABundle) -> rusqlite::Result<()> {
         let meta_overlays = oca_bundle
             .overlays
             .iter()
@@ -281,9 +294,11 @@ impl Facade {
                     meta_overlay.language,
                 );
 
-                oca_bundle_fts_repo.insert(oca_bundle_fts_record);
+                oca_bundle_fts_repo.insert(oca_bundle_fts_record)?;
             }
         }
+
+        Ok(())
     }
 
     fn build_step(&mut self, step: &OCABuildStep) {
diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index c36c702..0bab54e 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -8,20 +8,24 @@ use super::Facade;
 
 impl Facade {
     pub fn explore(&self, said: String) -> Option<Relationship> {
-        let relations_u8_res = self.db.get(Namespace::OCARelations, &said);
+        self.relationship(said).ok().flatten()
+    }
+
+    fn relationship(&self, said: String) -> Result<Option<Relationship>, String> {
+        let relations_u8_res = self.db.get(Namespace::OCARelations, &said)?;
         let metadata_res = self
             .db
-            .get(Namespace::OCARelations, &format!("{}.metadata", said));
+            .get(Namespace::OCARelations, &format!("{}.metadata", said))?;
 
         match (relations_u8_res, metadata_res) {
-            (Ok(Some(relations_u8)), Ok(Some(_))) => {
+            (Some(relations_u8), Some(_)) => {
                 let relationship: Relationship = relations_u8.into();
-                Some(Relationship {
+                Ok(Some(Relationship {
                     base_object: OCAObject::new(self, said),
                     relations: relationship.relations,
-                })
+                }))
             }
-            _ => None,
+            _ => Ok(None),
         }
     }
 
@@ -46,8 +50,8 @@ impl Facade {
             })
             .into()],
         )?;
-        oca_bundle.overlays.iter().for_each(|overlay| {
-            let _ = self.db.insert(
+        for overlay in oca_bundle.overlays.iter() {
+            self.db.insert(
                 Namespace::OCARelations,
                 &format!("{}.metadata", overlay.said().clone().unwrap()),
                 &[ObjectKind::Overlay(
@@ -58,8 +62,8 @@ impl Facade {
                     },
                 )
                 .into()],
-            );
-        });
+            )?;
+        }
 
         Ok(())
     }
@@ -71,7 +75,7 @@ impl Facade {
         let capture_base_said = oca_bundle.capture_base.said.clone().unwrap().to_string();
 
         let mut oca_bundle_rel =
-            self.explore(oca_bundle_said.clone())
+            self.relationship(oca_bundle_said.clone())?
                 .unwrap_or(Relationship::new(OCAObject::new(
                     self,
                     oca_bundle_said.clone(),
@@ -79,7 +83,7 @@ impl Facade {
         oca_bundle_rel.add_relation(OCAObject::new(self, capture_base_said.clone()));
 
         let mut capture_base_rel =
-            self.explore(capture_base_said.clone())
+            self.relationship(capture_base_said.clone())?
                 .unwrap_or(Relationship::new(OCAObject::new(
                     self,
                     capture_base_said.clone(),
@@ -93,7 +97,7 @@ impl Facade {
             capture_base_rel.add_relation(OCAObject::new(self, overlay_said.clone()));
 
             let mut overlay_rel = self
-                .explore(overlay_said.clone())
+                .relationship(overlay_said.clone())?
                 .unwrap_or(Relationship::new(OCAObject::new(
                     self,
                     overlay_said.clone(),
diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index e313e5b..94e938f 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -39,13 +39,12 @@ impl CaptureBaseCacheRepo {
         Self { connection }
     }
 
-    pub fn insert(&self, model: CaptureBaseCacheRecord) {
+    pub fn insert(&self, model: CaptureBaseCacheRecord) -> rusqlite::Result<usize> {
         let query = r#"
-        INSERT INTO capture_base_cache(said, capture_base)
+        INSERT OR IGNORE INTO capture_base_cache(said, capture_base)
             VALUES (?1, ?2)"#;
-        let _ = self
-            .connection
-            .execute(query, [&model.said, &model.capture_base]);
+        self.connection
+            .execute(query, [&model.said, &model.capture_base])
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 85ce2f1..f5d1848 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -42,13 +42,12 @@ impl OCABundleCacheRepo {
         Self { connection }
     }
 
-    pub fn insert(&self, model: OCABundleCacheRecord) {
+    pub fn insert(&self, model: OCABundleCacheRecord) -> rusqlite::Result<usize> {
         let query = r#"
-        INSERT INTO oca_bundle_cache(said, oca_bundle)
+        INSERT OR IGNORE INTO oca_bundle_cache(said, oca_bundle)
             VALUES (?1, ?2)"#;
-        let _ = self
-            .connection
-            .execute(query, [&model.said, &model.oca_bundle]);
+        self.connection
+            .execute(query, [&model.said, &model.oca_bundle])
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 5165e37..865047d 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -48,9 +48,9 @@ impl OCABundleFTSRepo {
         Self { connection }
     }
 
-    pub fn insert(&self, model: OCABundleFTSRecord) {
+    pub fn insert(&self, model: OCABundleFTSRecord) -> rusqlite::Result<usize> {
         let query = r#"
-        INSERT INTO oca_bundle_fts
+        INSERT OR IGNORE INTO oca_bundle_fts
         (rowid, name, description, language_code, oca_bundle_said)
         VALUES (
             (
@@ -59,7 +59,7 @@ impl OCABundleFTSRepo {
                 LIMIT 1
             ), ?1, ?2, ?3, ?4
         )"#;
-        let _ = self.connection.execute(
+        self.connection.execute(
             query,
             [
                 &model.name,
@@ -67,7 +67,7 @@ impl OCABundleFTSRepo {
                 &model.language_code,
                 &model.oca_bundle_said,
             ],
-        );
+        )
     }
 
     pub fn search(
-- 
2.43.0


From 8d2aa323a719e98bf9b3cf031a24f80ce7c5b96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 55/76] fix: a failed or unfinished write leaves the stored
 value as it was

---
 oca/src/data_storage.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index aed2a50..ccdc2f4 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -1,5 +1,9 @@
 use dyn_clonable::*;
-use std::{collections::HashMap, path::PathBuf};
+use std::{
+    collections::HashMap,
+    path::PathBuf,
+    sync::atomic::{AtomicU64, Ordering},
+};
 
 pub enum Namespace {
     OCA,
@@ -238,6 +242,13 @@ impl FileSystemStorageConfigBuilder {
 }
 
 impl FileSystemStorage {
+    /// Name of a file that no key and no other write uses.
+    fn aside_name() -> String {
+        static WRITES: AtomicU64 = AtomicU64::new(0);
+        let write = WRITES.fetch_add(1, Ordering::Relaxed);
+        format!(".{}-{}", std::process::id(), write)
+    }
+
     /// Name of the file holding the value of `key`. Bytes that cannot be part
     /// of a file name everywhere are percent-encoded.
     fn file_name(key: &str) -> String {
@@ -277,7 +288,11 @@ impl DataStorage for FileSystemStorage {
             path.push(namespace.as_str());
             if path.try_exists().unwrap() {
                 path.push(Self::file_name(key));
-                Ok(std::fs::read(path.clone()).ok())
+                match std::fs::read(path) {
+                    Ok(value) => Ok(Some(value)),
+                    Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+                    Err(e) => Err(e.to_string()),
+                }
             } else {
                 Ok(None)
             }
@@ -298,8 +313,16 @@ impl DataStorage for FileSystemStorage {
                 std::fs::create_dir_all(path.clone()).unwrap();
             }
 
+            // The value is written aside and then put in place, so that a write
+            // that fails leaves the value stored before as it was.
+            let aside = path.join(Self::aside_name());
             path.push(Self::file_name(key));
-            std::fs::write(path.clone(), value).map_err(|e| e.to_string())
+            std::fs::write(&aside, value)
+                .and_then(|_| std::fs::rename(&aside, path))
+                .map_err(|e| {
+                    let _ = std::fs::remove_file(&aside);
+                    e.to_string()
+                })
         } else {
             Err("File path is required".to_string())
         }
-- 
2.43.0


From eaa138538b7571586613673ad49d06b1bd40a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 56/76] fix: adding to an attribute keeps its other links and
 frames, and its flag

---
 semantics/oca-bundle/src/state/attribute.rs | 32 +++++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index f56f658..9230b1c 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -6,8 +6,13 @@ use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
 
 use crate::state::{
-    encoding::Encoding, entries::EntriesElement, entry_codes::EntryCodes,
-    oca::overlay::attribute_framing::Framing,
+    encoding::Encoding,
+    entries::EntriesElement,
+    entry_codes::EntryCodes,
+    oca::overlay::{
+        attribute_framing::{Framing, Framings},
+        link::Links,
+    },
 };
 #[derive(Serialize, Deserialize, Debug, Clone)]
 pub struct Attribute {
@@ -85,6 +90,10 @@ impl Attribute {
                 self.attribute_type.clone_from(&other.attribute_type);
             }
 
+            if other.is_flagged {
+                self.is_flagged = true;
+            }
+
             self.merge_labels(other);
             self.merge_information(other);
             self.merge_category_labels(other);
@@ -137,12 +146,23 @@ impl Attribute {
                 self.standards.clone_from(&other.standards);
             }
 
-            if other.links.is_some() {
-                self.links.clone_from(&other.links);
+            self.merge_links(other);
+            self.merge_framings(other);
+        }
+    }
+
+    fn merge_links(&mut self, other: &Attribute) {
+        if let Some(links) = &other.links {
+            for (target, link) in links {
+                self.set_link(target.clone(), link.clone());
             }
+        }
+    }
 
-            if other.framings.is_some() {
-                self.framings.clone_from(&other.framings);
+    fn merge_framings(&mut self, other: &Attribute) {
+        if let Some(framings) = &other.framings {
+            for (frame_id, framing) in framings {
+                self.set_framing(frame_id.clone(), framing.clone());
             }
         }
     }
-- 
2.43.0


From ae29a70a32df55471c1961725d210bbc80c658de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 57/76] fix: equal instructions hash equally, whatever the
 order of their entries

---
 semantics/oca-ast/src/ast/mod.rs | 44 +++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index 31b77d1..a560b46 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -5,8 +5,15 @@ use serde::{
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize, Serializer,
 };
-use std::{collections::HashMap, fmt, str::FromStr};
-use std::{hash::Hash, sync::OnceLock};
+use std::{
+    collections::{hash_map::DefaultHasher, HashMap},
+    fmt,
+    str::FromStr,
+};
+use std::{
+    hash::{Hash, Hasher},
+    sync::OnceLock,
+};
 use strum_macros::Display;
 use thiserror::Error;
 use wasm_bindgen::prelude::*;
@@ -74,20 +81,30 @@ impl Hash for ObjectKind {
 impl Hash for CaptureContent {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         if let Some(attributes) = &self.attributes {
-            for (key, value) in attributes {
-                key.hash(state);
-                value.hash(state);
-            }
+            hash_entries(state, attributes, |value, state| value.hash(state));
         }
         if let Some(properties) = &self.properties {
-            for (key, value) in properties {
-                key.hash(state);
-                value.hash(state);
-            }
+            hash_entries(state, properties, |value, state| value.hash(state));
         }
     }
 }
 
+/// Hashes the entries of a map. Maps are equal whatever the order of their
+/// entries, so the hash does not depend on it either.
+fn hash_entries<H: Hasher, V>(
+    state: &mut H,
+    entries: &IndexMap<String, V>,
+    hash_value: impl Fn(&V, &mut DefaultHasher),
+) {
+    let hash = entries.iter().fold(0u64, |hash, (key, value)| {
+        let mut entry = DefaultHasher::new();
+        key.hash(&mut entry);
+        hash_value(value, &mut entry);
+        hash.wrapping_add(entry.finish())
+    });
+    hash.hash(state);
+}
+
 impl ObjectKind {
     pub fn capture_content(&self) -> Option<&CaptureContent> {
         match self {
@@ -400,7 +417,7 @@ pub enum NestedValue {
     Array(Vec<NestedValue>),
 }
 impl NestedValue {
-    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+    fn hash<H: Hasher>(&self, state: &mut H) {
         match self {
             NestedValue::Reference(ref_value) => {
                 ref_value.hash(state);
@@ -409,10 +426,7 @@ impl NestedValue {
                 value.hash(state);
             }
             NestedValue::Object(object) => {
-                for (key, value) in object {
-                    key.hash(state);
-                    value.hash(state);
-                }
+                hash_entries(state, object, |value, state| value.hash(state));
             }
             NestedValue::Array(array) => {
                 for value in array {
-- 
2.43.0


From a6dbe2fe292d00f9213188ba173cf5d799f6a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 58/76] fix: equal transformation instructions hash equally,
 whatever the order of their pairs

---
 transformation/ast/src/ast/mod.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/transformation/ast/src/ast/mod.rs b/transformation/ast/src/ast/mod.rs
index 0aed1ff..b9ab264 100644
--- a/transformation/ast/src/ast/mod.rs
+++ b/transformation/ast/src/ast/mod.rs
@@ -4,8 +4,11 @@ use serde::{
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize, Serializer,
 };
-use std::hash::Hash;
-use std::{collections::HashMap, fmt};
+use std::hash::{Hash, Hasher};
+use std::{
+    collections::{hash_map::DefaultHasher, HashMap},
+    fmt,
+};
 
 pub mod error;
 
@@ -78,21 +81,26 @@ impl Hash for ObjectKind {
 impl Hash for RenameContent {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         if let Some(attributes) = &self.attributes {
-            for (key, value) in attributes {
-                key.hash(state);
-                value.hash(state);
-            }
+            hash_entries(attributes, state);
         }
     }
 }
 
+/// Hashes the entries of a map. Maps are equal whatever the order of their
+/// entries, so the hash does not depend on it either.
+fn hash_entries<H: Hasher>(entries: &IndexMap<String, String>, state: &mut H) {
+    let hash = entries.iter().fold(0u64, |hash, entry| {
+        let mut hasher = DefaultHasher::new();
+        entry.hash(&mut hasher);
+        hash.wrapping_add(hasher.finish())
+    });
+    hash.hash(state);
+}
+
 impl Hash for LinkContent {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         if let Some(attributes) = &self.attributes {
-            for (key, value) in attributes {
-                key.hash(state);
-                value.hash(state);
-            }
+            hash_entries(attributes, state);
         }
     }
 }
-- 
2.43.0


From a58dc466cf6f67cfa6d38f10ac7bdc40d27531f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 59/76] fix: a build reports a failing store instead of
 aborting

---
 oca/src/facade/build.rs                       | 130 +++++++++---------
 oca/src/local_references.rs                   |  51 ++++---
 oca/src/repositories/oca_bundle_cache_repo.rs |   9 +-
 oca/src/repositories/oca_bundle_fts_repo.rs   |   9 +-
 4 files changed, 112 insertions(+), 87 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 2c60e6c..71ba3b9 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -52,19 +52,29 @@ pub enum ValidationError {
     #[cfg(feature = "local-references")]
     #[error("Reference {0} not found")]
     UnknownRefn(String),
+    #[cfg(feature = "local-references")]
+    #[error("Reference {0} cannot be accessed: {1}")]
+    RefnStorage(String, String),
 }
 
 #[cfg(feature = "local-references")]
 impl References for Box<dyn DataStorage> {
     fn find(&self, refn: &str) -> Option<String> {
-        self.get(Namespace::OCAReferences, refn)
-            .unwrap()
-            .map(|said| String::from_utf8(said).unwrap())
+        self.try_find(refn).unwrap()
     }
 
     fn save(&mut self, refn: &str, value: String) {
-        self.insert(Namespace::OCAReferences, refn, value.to_string().as_bytes())
-            .unwrap()
+        self.try_save(refn, value).unwrap()
+    }
+
+    fn try_find(&self, refn: &str) -> Result<Option<String>, String> {
+        self.get(Namespace::OCAReferences, refn)?
+            .map(|said| String::from_utf8(said).map_err(|e| e.to_string()))
+            .transpose()
+    }
+
+    fn try_save(&mut self, refn: &str, value: String) -> Result<(), String> {
+        self.insert(Namespace::OCAReferences, refn, value.as_bytes())
     }
 }
 
@@ -125,15 +135,14 @@ impl Facade {
     }
 
     pub fn build(&mut self, oca_build: &OCABuild) -> Result<OCABundle, Error> {
-        oca_build
-            .steps
-            .iter()
-            .for_each(|step| self.build_step(step));
+        for step in &oca_build.steps {
+            self.build_step(step).map_err(Error::StorageError)?;
+        }
 
         self.add_relations(oca_build.oca_bundle.clone())
             .map_err(Error::StorageError)?;
 
-        self.build_models(oca_build);
+        self.build_models(oca_build).map_err(Error::StorageError)?;
 
         // A bundle is listed and found only once everything about it is stored.
         self.build_cache(&oca_build.oca_bundle)
@@ -250,13 +259,15 @@ impl Facade {
         if schema_name.is_some() {
             let schema_name = schema_name.unwrap();
             let said = oca_build.oca_bundle.said.clone().unwrap().to_string();
-            references.save(schema_name, said.clone());
+            references
+                .try_save(schema_name, said.clone())
+                .map_err(|e| vec![ValidationError::RefnStorage(schema_name.clone(), e)])?;
         };
         Ok(oca_build)
     }
 
     fn build_cache(&self, oca_bundle: &OCABundle) -> rusqlite::Result<()> {
-        let oca_bundle_cache_repo = OCABundleCacheRepo::new(self.connection());
+        let oca_bundle_cache_repo = OCABundleCacheRepo::try_new(self.connection())?;
         let oca_bundle_cache_record = OCABundleCacheRecord::new(oca_bundle);
         oca_bundle_cache_repo.insert(oca_bundle_cache_record)?;
 
@@ -277,7 +288,7 @@ impl Facade {
             })
             .collect::<Vec<_>>();
         if !meta_overlays.is_empty() {
-            let oca_bundle_fts_repo = OCABundleFTSRepo::new(self.connection());
+            let oca_bundle_fts_repo = OCABundleFTSRepo::try_new(self.connection())?;
             for meta_overlay in meta_overlays {
                 let oca_bundle_fts_record = OCABundleFTSRecord::new(
                     oca_bundle.said.clone().unwrap().to_string(),
@@ -301,7 +312,7 @@ impl Facade {
         Ok(())
     }
 
-    fn build_step(&mut self, step: &OCABuildStep) {
+    fn build_step(&mut self, step: &OCABuildStep) -> Result<(), String> {
         let mut input: Vec<u8> = vec![];
         match &step.parent_said {
             Some(said) => {
@@ -319,57 +330,42 @@ impl Facade {
         let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
         // A bundle keeps the history it was first built with: a step leading back to it (or one
         // without an effect) would make the history circular.
-        if self
-            .db
-            .get(Namespace::OCA, &operation_key)
-            .unwrap()
-            .is_none()
-        {
-            self.db
-                .insert(Namespace::OCA, &operation_key, &input)
-                .unwrap();
+        if self.db.get(Namespace::OCA, &operation_key)?.is_none() {
+            self.db.insert(Namespace::OCA, &operation_key, &input)?;
         }
 
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
-        self.db_cache
-            .insert(
-                Namespace::OCABundlesJSON,
-                &result_bundle.said.clone().unwrap().to_string(),
-                &result_bundle.encode(&code, &format).unwrap(),
-            )
-            .unwrap();
-        self.db_cache
-            .insert(
+        self.db_cache.insert(
+            Namespace::OCABundlesJSON,
+            &result_bundle.said.clone().unwrap().to_string(),
+            &result_bundle.encode(&code, &format).unwrap(),
+        )?;
+        self.db_cache.insert(
+            Namespace::OCAObjectsJSON,
+            &result_bundle.capture_base.said.clone().unwrap().to_string(),
+            &serde_json::to_string(&result_bundle.capture_base)
+                .unwrap()
+                .into_bytes(),
+        )?;
+        for overlay in result_bundle.overlays.iter() {
+            self.db_cache.insert(
                 Namespace::OCAObjectsJSON,
-                &result_bundle.capture_base.said.clone().unwrap().to_string(),
-                &serde_json::to_string(&result_bundle.capture_base)
-                    .unwrap()
-                    .into_bytes(),
-            )
-            .unwrap();
-        result_bundle.overlays.iter().for_each(|overlay| {
-            self.db_cache
-                .insert(
-                    Namespace::OCAObjectsJSON,
-                    &overlay.said().clone().unwrap().to_string(),
-                    &serde_json::to_string(&overlay).unwrap().into_bytes(),
-                )
-                .unwrap();
-        });
+                &overlay.said().clone().unwrap().to_string(),
+                &serde_json::to_string(&overlay).unwrap().into_bytes(),
+            )?;
+        }
+        Ok(())
     }
 
-    fn build_models(&mut self, oca_build: &OCABuild) {
-        let result_models = build_core_db_model(oca_build);
-        result_models.iter().for_each(|model| {
+    fn build_models(&mut self, oca_build: &OCABuild) -> Result<(), String> {
+        for model in build_core_db_model(oca_build) {
             if let Some(command_model) = &model.command {
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", command_model.digest),
-                        &command_model.json.clone().into_bytes(),
-                    )
-                    .unwrap();
+                self.db.insert(
+                    Namespace::CoreModel,
+                    &format!("core_model.{}", command_model.digest),
+                    &command_model.json.clone().into_bytes(),
+                )?;
             }
 
             if let Some(capture_base_model) = &model.capture_base {
@@ -394,7 +390,7 @@ impl Facade {
                 );
                 input.extend(capture_base_model.command_digest.to_string().as_bytes());
 
-                self.insert_version(&capture_base_model.capture_base_said, &input);
+                self.insert_version(&capture_base_model.capture_base_said, &input)?;
             }
 
             if let Some(overlay_model) = &model.overlay {
@@ -419,7 +415,7 @@ impl Facade {
                 );
                 input.extend(overlay_model.command_digest.to_string().as_bytes());
 
-                self.insert_version(&overlay_model.overlay_said, &input);
+                self.insert_version(&overlay_model.overlay_said, &input)?;
             }
 
             if let Some(oca_bundle_model) = &model.oca_bundle {
@@ -449,17 +445,23 @@ impl Facade {
                     input.extend(said.to_string().as_bytes());
                 }
 
-                self.insert_version(&oca_bundle_model.oca_bundle_said, &input);
+                self.insert_version(&oca_bundle_model.oca_bundle_said, &input)?;
             }
-        });
+        }
+        Ok(())
     }
 
     /// A version keeps the parent it was first derived from, otherwise the chain
     /// of versions would become circular when a version is reached again.
-    fn insert_version(&mut self, said: &SelfAddressingIdentifier, record: &[u8]) {
+    fn insert_version(
+        &mut self,
+        said: &SelfAddressingIdentifier,
+        record: &[u8],
+    ) -> Result<(), String> {
         let key = format!("core_model.{}", said);
-        if self.db.get(Namespace::CoreModel, &key).unwrap().is_none() {
-            self.db.insert(Namespace::CoreModel, &key, record).unwrap();
+        if self.db.get(Namespace::CoreModel, &key)?.is_none() {
+            self.db.insert(Namespace::CoreModel, &key, record)?;
         }
+        Ok(())
     }
 }
diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index bfd0c7e..1c1a105 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -1,7 +1,5 @@
-use std::str::FromStr;
-
 use oca_ast_semantics::ast::{
-    CommandType, NestedAttrType, NestedValue, OCAAst, ObjectKind, OverlayType, RefValue,
+    parse_said, CommandType, NestedAttrType, NestedValue, OCAAst, ObjectKind, OverlayType, RefValue,
 };
 use said::SelfAddressingIdentifier;
 
@@ -10,6 +8,29 @@ use crate::facade::build::ValidationError;
 pub trait References {
     fn find(&self, refn: &str) -> Option<String>;
     fn save(&mut self, refn: &str, value: String);
+
+    /// Like `find`, reporting what prevents it.
+    fn try_find(&self, refn: &str) -> Result<Option<String>, String> {
+        Ok(self.find(refn))
+    }
+
+    /// Like `save`, reporting what prevents it.
+    fn try_save(&mut self, refn: &str, value: String) -> Result<(), String> {
+        self.save(refn, value);
+        Ok(())
+    }
+}
+
+fn resolve<R: References>(
+    refn: &str,
+    references: &R,
+) -> Result<SelfAddressingIdentifier, ValidationError> {
+    let inaccessible = |e: String| ValidationError::RefnStorage(refn.to_string(), e);
+    let said = references
+        .try_find(refn)
+        .map_err(inaccessible)?
+        .ok_or_else(|| ValidationError::UnknownRefn(refn.to_string()))?;
+    parse_said(&said).map_err(|e| inaccessible(e.to_string()))
 }
 
 // Iterate over all commands and dereference all attribute references
@@ -28,12 +49,8 @@ pub fn replace_refn_with_refs<R: References>(
                         attr_type = &mut **box_attr_type;
                     }
                     if let NestedAttrType::Reference(RefValue::Name(refn)) = attr_type {
-                        if let Some(said) = references.find(refn) {
-                            let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                            *attr_type = NestedAttrType::Reference(RefValue::Said(said));
-                        } else {
-                            return Err(ValidationError::UnknownRefn(refn.clone()));
-                        }
+                        let said = resolve(refn, references)?;
+                        *attr_type = NestedAttrType::Reference(RefValue::Said(said));
                     }
                 }
             }
@@ -45,16 +62,12 @@ pub fn replace_refn_with_refs<R: References>(
             if let Some(properties) = &mut content.properties {
                 if let Some(NestedValue::Reference(RefValue::Name(refn))) = properties.get("target")
                 {
-                    if let Some(said) = references.find(refn) {
-                        let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                        properties.insert(
-                            "target".to_string(),
-                            NestedValue::Reference(RefValue::Said(said)),
-                        );
-                        *properties = properties.clone();
-                    } else {
-                        return Err(ValidationError::UnknownRefn(refn.clone()));
-                    }
+                    let said = resolve(refn, references)?;
+                    properties.insert(
+                        "target".to_string(),
+                        NestedValue::Reference(RefValue::Said(said)),
+                    );
+                    *properties = properties.clone();
                 }
             }
         }
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index f5d1848..635e5b0 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -32,14 +32,19 @@ pub struct OCABundleCacheRepo {
 
 impl OCABundleCacheRepo {
     pub fn new(connection: Connection) -> Self {
+        Self::try_new(connection).unwrap()
+    }
+
+    /// Like `new`, reporting what prevents it.
+    pub fn try_new(connection: Connection) -> rusqlite::Result<Self> {
         let create_table_query = r#"
         CREATE TABLE IF NOT EXISTS oca_bundle_cache(
             said TEXT PRIMARY KEY,
             oca_bundle TEXT
         )"#;
-        connection.execute(create_table_query, ()).unwrap();
+        connection.execute(create_table_query, ())?;
 
-        Self { connection }
+        Ok(Self { connection })
     }
 
     pub fn insert(&self, model: OCABundleCacheRecord) -> rusqlite::Result<usize> {
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 865047d..65d93a7 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -34,6 +34,11 @@ pub struct OCABundleFTSRepo {
 
 impl OCABundleFTSRepo {
     pub fn new(connection: Connection) -> Self {
+        Self::try_new(connection).unwrap()
+    }
+
+    /// Like `new`, reporting what prevents it.
+    pub fn try_new(connection: Connection) -> rusqlite::Result<Self> {
         let create_table_query = r#"
         CREATE VIRTUAL TABLE IF NOT EXISTS oca_bundle_fts
         USING FTS5(
@@ -43,9 +48,9 @@ impl OCABundleFTSRepo {
             oca_bundle_said UNINDEXED,
             tokenize="trigram"
         )"#;
-        connection.execute(create_table_query, ()).unwrap();
+        connection.execute(create_table_query, ())?;
 
-        Self { connection }
+        Ok(Self { connection })
     }
 
     pub fn insert(&self, model: OCABundleFTSRecord) -> rusqlite::Result<usize> {
-- 
2.43.0


From 277fb71c02c7caedb43493895d6c8ba61a1e8fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 60/76] fix: a damaged record is reported, not fatal or endless

---
 oca/src/facade/explore.rs        | 103 +++++++++++++++----------------
 oca/src/facade/fetch.rs          |  60 ++++++++----------
 semantics/oca-ast/src/ast/mod.rs |   5 ++
 3 files changed, 80 insertions(+), 88 deletions(-)

diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index 0bab54e..5ba602f 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -19,9 +19,9 @@ impl Facade {
 
         match (relations_u8_res, metadata_res) {
             (Some(relations_u8), Some(_)) => {
-                let relationship: Relationship = relations_u8.into();
+                let relationship = Relationship::try_from(relations_u8)?;
                 Ok(Some(Relationship {
-                    base_object: OCAObject::new(self, said),
+                    base_object: OCAObject::new(self, said)?,
                     relations: relationship.relations,
                 }))
             }
@@ -74,37 +74,31 @@ impl Facade {
         let oca_bundle_said = oca_bundle.said.clone().unwrap().to_string();
         let capture_base_said = oca_bundle.capture_base.said.clone().unwrap().to_string();
 
-        let mut oca_bundle_rel =
-            self.relationship(oca_bundle_said.clone())?
-                .unwrap_or(Relationship::new(OCAObject::new(
-                    self,
-                    oca_bundle_said.clone(),
-                )));
-        oca_bundle_rel.add_relation(OCAObject::new(self, capture_base_said.clone()));
-
-        let mut capture_base_rel =
-            self.relationship(capture_base_said.clone())?
-                .unwrap_or(Relationship::new(OCAObject::new(
-                    self,
-                    capture_base_said.clone(),
-                )));
-        capture_base_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone()));
+        let mut oca_bundle_rel = match self.relationship(oca_bundle_said.clone())? {
+            Some(relationship) => relationship,
+            None => Relationship::new(OCAObject::new(self, oca_bundle_said.clone())?),
+        };
+        oca_bundle_rel.add_relation(OCAObject::new(self, capture_base_said.clone())?);
+
+        let mut capture_base_rel = match self.relationship(capture_base_said.clone())? {
+            Some(relationship) => relationship,
+            None => Relationship::new(OCAObject::new(self, capture_base_said.clone())?),
+        };
+        capture_base_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone())?);
 
         for overlay in oca_bundle.overlays {
             let overlay_said = overlay.said().clone().unwrap().to_string();
 
-            oca_bundle_rel.add_relation(OCAObject::new(self, overlay_said.clone()));
-            capture_base_rel.add_relation(OCAObject::new(self, overlay_said.clone()));
+            oca_bundle_rel.add_relation(OCAObject::new(self, overlay_said.clone())?);
+            capture_base_rel.add_relation(OCAObject::new(self, overlay_said.clone())?);
 
-            let mut overlay_rel = self
-                .relationship(overlay_said.clone())?
-                .unwrap_or(Relationship::new(OCAObject::new(
-                    self,
-                    overlay_said.clone(),
-                )));
+            let mut overlay_rel = match self.relationship(overlay_said.clone())? {
+                Some(relationship) => relationship,
+                None => Relationship::new(OCAObject::new(self, overlay_said.clone())?),
+            };
 
-            overlay_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone()));
-            overlay_rel.add_relation(OCAObject::new(self, capture_base_said.clone()));
+            overlay_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone())?);
+            overlay_rel.add_relation(OCAObject::new(self, capture_base_said.clone())?);
             let overlay_rel_u8: Vec<u8> = overlay_rel.clone().into();
             self.db.insert(
                 Namespace::OCARelations,
@@ -130,13 +124,11 @@ impl Facade {
         Ok(())
     }
 
-    fn object_type(&self, said: String) -> ObjectKind {
-        let object_type = self
-            .db
-            .get(Namespace::OCARelations, &format!("{}.metadata", said))
-            .unwrap();
-
-        (*object_type.unwrap().first().unwrap()).into()
+    pub(super) fn object_type(&self, said: &str) -> Result<ObjectKind, String> {
+        self.db
+            .get(Namespace::OCARelations, &format!("{}.metadata", said))?
+            .and_then(|object_type| ObjectKind::from_code(*object_type.first()?))
+            .ok_or_else(|| format!("No OCA Object found for said: {}", said))
     }
 }
 
@@ -173,8 +165,10 @@ impl From<Relationship> for Vec<u8> {
     }
 }
 
-impl From<Vec<u8>> for Relationship {
-    fn from(val: Vec<u8>) -> Self {
+impl TryFrom<Vec<u8>> for Relationship {
+    type Error = String;
+
+    fn try_from(val: Vec<u8>) -> Result<Self, Self::Error> {
         let mut result = Relationship::new(OCAObject {
             said: "".to_string(),
             object_type: ObjectKind::OCABundle(BundleContent {
@@ -186,25 +180,30 @@ impl From<Vec<u8>> for Relationship {
 
         let mut tmp_val = val.clone();
         while !tmp_val.is_empty() {
-            let said_len = tmp_val[1];
+            let said_len = *tmp_val.get(1).ok_or("Malformed relations")?;
+            if tmp_val.len() < 2 + said_len as usize {
+                return Err("Malformed relations".to_string());
+            }
             let (o_u8, split_val) = tmp_val.split_at(2 + said_len as usize);
-            result.add_relation(OCAObject::from(o_u8.to_vec()));
+            result.add_relation(OCAObject::try_from(o_u8.to_vec())?);
             tmp_val = split_val.to_vec();
         }
 
-        result
+        Ok(result)
     }
 }
 
-impl From<Vec<u8>> for OCAObject {
-    fn from(val: Vec<u8>) -> Self {
-        let object_type = val[0];
-        let said_len = val[1];
-        let said = String::from_utf8(val[2..2 + said_len as usize].to_vec()).unwrap();
-        Self {
-            said,
-            object_type: object_type.into(),
-        }
+impl TryFrom<Vec<u8>> for OCAObject {
+    type Error = String;
+
+    fn try_from(val: Vec<u8>) -> Result<Self, Self::Error> {
+        let object_type = val
+            .first()
+            .and_then(|code| ObjectKind::from_code(*code))
+            .ok_or("Malformed relations")?;
+        let said = val.get(2..).unwrap_or_default().to_vec();
+        let said = String::from_utf8(said).map_err(|e| e.to_string())?;
+        Ok(Self { said, object_type })
     }
 }
 
@@ -243,10 +242,8 @@ impl Serialize for OCAObject {
 }
 
 impl OCAObject {
-    fn new(facade: &Facade, said: String) -> Self {
-        Self {
-            said: said.clone(),
-            object_type: facade.object_type(said),
-        }
+    fn new(facade: &Facade, said: String) -> Result<Self, String> {
+        let object_type = facade.object_type(&said)?;
+        Ok(Self { said, object_type })
     }
 }
diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 16423fb..1716f57 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -6,7 +6,7 @@ use crate::{
     data_storage::DataStorage,
     repositories::{OCABundleCacheRepo, OCABundleFTSRepo},
 };
-use oca_ast_semantics::ast::{self, OCAAst, ObjectKind, RefValue};
+use oca_ast_semantics::ast::{self, parse_said, OCAAst, ObjectKind, RefValue};
 use oca_bundle_semantics::build::OCABuildStep;
 use oca_bundle_semantics::state::oca::{capture_base::CaptureBase, DynOverlay, OCABundle};
 use said::{
@@ -21,7 +21,6 @@ use std::borrow::Borrow;
 #[cfg(feature = "local-references")]
 use std::collections::HashMap;
 use std::collections::HashSet;
-use std::str::FromStr;
 
 #[derive(Debug, Serialize)]
 #[serde(untagged)]
@@ -126,12 +125,9 @@ impl Facade {
     #[cfg(feature = "local-references")]
     pub fn fetch_all_refs(&self) -> Result<HashMap<String, String>, String> {
         let mut refs: HashMap<String, String> = HashMap::new();
-        self.db
-            .get_all(Namespace::OCAReferences)?
-            .iter()
-            .for_each(|(k, v)| {
-                refs.insert(k.clone(), String::from_utf8(v.to_vec()).unwrap());
-            });
+        for (k, v) in self.db.get_all(Namespace::OCAReferences)? {
+            refs.insert(k, String::from_utf8(v).map_err(|e| e.to_string())?);
+        }
         Ok(refs)
     }
 
@@ -224,22 +220,14 @@ impl Facade {
                 errors.push(format!("No OCA Object found for said: {}", said));
                 errors.clone()
             })?)
-            .unwrap();
-            let r_type = self
-                .db
-                .get(Namespace::OCARelations, &format!("{}.metadata", said))
-                .map_err(|e| {
-                    errors.push(e.to_string());
-                    errors.clone()
-                })?;
-            let o_type: ObjectKind = (*r_type
-                .as_ref()
-                .and_then(|r_type| r_type.first())
-                .ok_or_else(|| {
-                    errors.push(format!("No OCA Object found for said: {}", said));
-                    errors.clone()
-                })?)
-            .into();
+            .map_err(|e| {
+                errors.push(format!("Failed to parse OCA object: {}", e));
+                errors.clone()
+            })?;
+            let o_type = self.object_type(&said).map_err(|e| {
+                errors.push(e);
+                errors.clone()
+            })?;
             match o_type {
                 ObjectKind::CaptureBase(_) => result.push(OCAObject::CaptureBase(
                     serde_json::from_str::<CaptureBase>(&object_str).map_err(|e| {
@@ -290,13 +278,14 @@ impl Facade {
                 .map_err(|e| vec![format!("{}", e)])?
                 .ok_or_else(|| vec![format!("No history found for said: {}", said)])?;
 
-            let said_length = r.first().unwrap();
-            let parent_said = String::from_utf8_lossy(&r[1..*said_length as usize + 1]).to_string();
-            let op_length = r.len() - *said_length as usize - 1;
-            let op = String::from_utf8_lossy(
-                &r[*said_length as usize + 1..*said_length as usize + 1 + op_length],
-            )
-            .to_string();
+            let malformed = || vec![format!("Malformed history record for said: {}", said)];
+            let (said_length, rest) = r.split_first().ok_or_else(malformed)?;
+            if rest.len() < *said_length as usize {
+                return Err(malformed());
+            }
+            let (parent_said, op) = rest.split_at(*said_length as usize);
+            let parent_said = String::from_utf8_lossy(parent_said).to_string();
+            let op = String::from_utf8_lossy(op).to_string();
 
             match serde_json::from_str::<oca_ast_semantics::ast::Command>(&op) {
                 Ok(command) => Ok((parent_said, command)),
@@ -305,16 +294,17 @@ impl Facade {
         }
 
         let mut history: Vec<OCABuildStep> = vec![];
+        let mut seen = HashSet::new();
 
         loop {
             let (parent_said, command) = extract_operation(&self.db, &said)?;
-            if parent_said == said {
+            if !seen.insert(said.clone()) || parent_said == said {
                 dbg!("Malformed history for said: {}", said);
                 return Err(vec![format!("Malformed history")]);
             }
-            let s = SelfAddressingIdentifier::from_str(&said).unwrap(); // TODO
+            let s = parse_said(&said).map_err(|e| vec![e.to_string()])?;
             history.push(OCABuildStep {
-                parent_said: parent_said.clone().parse().ok(),
+                parent_said: parse_said(&parent_said).ok(),
                 command,
                 result: self.get_oca_bundle(s, false)?.bundle.clone(),
             });
@@ -381,7 +371,7 @@ pub fn get_oca_bundle(
     let oca_bundle_str = String::from_utf8(
         r.ok_or_else(|| vec![format!("No OCA Bundle found for said: {}", said)])?,
     )
-    .unwrap();
+    .map_err(|e| vec![format!("Failed to parse oca bundle: {}", e)])?;
     let oca_bundle: Result<OCABundle, Vec<String>> = serde_json::from_str(&oca_bundle_str)
         .map_err(|e| vec![format!("Failed to parse oca bundle: {}", e)]);
 
diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index a560b46..cff624f 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -106,6 +106,11 @@ fn hash_entries<H: Hasher, V>(
 }
 
 impl ObjectKind {
+    /// The kind of given numeric code, if there is one.
+    pub fn from_code(code: u8) -> Option<Self> {
+        (code <= 22).then(|| code.into())
+    }
+
     pub fn capture_content(&self) -> Option<&CaptureContent> {
         match self {
             ObjectKind::CaptureBase(content) => Some(content),
-- 
2.43.0


From 62e7f873dab75dde01db7a6e523bc24960c13f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 61/76] fix: a history record that is no text is reported, not
 read as another

---
 oca/src/facade/fetch.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 1716f57..009c53f 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -284,10 +284,9 @@ impl Facade {
                 return Err(malformed());
             }
             let (parent_said, op) = rest.split_at(*said_length as usize);
-            let parent_said = String::from_utf8_lossy(parent_said).to_string();
-            let op = String::from_utf8_lossy(op).to_string();
+            let parent_said = String::from_utf8(parent_said.to_vec()).map_err(|_| malformed())?;
 
-            match serde_json::from_str::<oca_ast_semantics::ast::Command>(&op) {
+            match serde_json::from_slice::<oca_ast_semantics::ast::Command>(op) {
                 Ok(command) => Ok((parent_said, command)),
                 Err(e) => Err(vec![format!("Failed to parse command: {}", e)]),
             }
-- 
2.43.0


From d727dea5b8879d6d80e2fa97699dbfaacc225573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:44 +0000
Subject: [PATCH 62/76] fix: refuse types and framing values nested deeper than
 can be read back

A file with attribute types nested in more than about 125 arrays was built and
stored, but its JSON form is beyond the recursion limit of the reader: the
bundle, its history and every listing could not be read any more. Deeper still,
parsing overflowed the stack.
---
 semantics/oca-file/src/ocafile.pest | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 47f9335..5f79a78 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -188,7 +188,7 @@ url = ${ string }
 json_key = ${ string }
 json_value = ${ string | url | json_object }
 json_pair = ${ json_key ~ arg_ws* ~ ":" ~ (arg_ws | NEWLINE)? ~ json_value ~ (arg_ws? ~ "," ~ (arg_ws | NEWLINE)?)? }
-json_object = ${ "{" ~ ((arg_ws | NEWLINE)? ~ arg_ws* ~ json_pair ~ (arg_ws | NEWLINE)?)+ ~ arg_ws* ~ "}" }
+json_object = ${ !PEEK[49..50] ~ PUSH("{") ~ ((arg_ws | NEWLINE)? ~ arg_ws* ~ json_pair ~ (arg_ws | NEWLINE)?)+ ~ arg_ws* ~ "}" ~ DROP }
 
 flagged_attrs = {^"flagged_attributes" ~ arg_ws ~ list_value}
 classification = { ^"classification" ~ arg_ws ~ classification_value}
@@ -239,7 +239,9 @@ base_attr_type = @{ ("Text" |
         "Binary" |
         "DateTime" )}
 
-array_attr_type = ${( "Array["~ arg_ws? ~ (base_attr_type | reference_type | array_attr_type ) ~ arg_ws? ~"]" )}
+// the stack holds one entry per open array (or object, see json_object), so that
+// types and values nested deeper than their JSON form can be read back are refused
+array_attr_type = ${( !PEEK[99..100] ~ PUSH("Array[") ~ arg_ws? ~ (base_attr_type | reference_type | array_attr_type ) ~ arg_ws? ~"]" ~ DROP )}
 reference_type = _{ ref_said | ref_alias }
 alias = @{ char+ }
 said = @{ char+ }
-- 
2.43.0


From fa099d6c4bb5f8899a6e5e86bd4656932d078702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:44 +0000
Subject: [PATCH 63/76] fix: report framings without predicate or justification
 instead of dropping them

---
 semantics/oca-bundle/src/build.rs | 39 +++++++++++++++++++------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index f8a6fef..c4ab10d 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -540,23 +540,32 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             if let ast::NestedValue::Object(attr_framing) = attr_framing_value {
                                 let mut framing = HashMap::new();
                                 for (framing_key, framing_value) in attr_framing {
-                                    if let ast::NestedValue::Object(framing_value) = framing_value {
-                                        if let Some(ast::NestedValue::Value(predicate_id)) =
-                                            framing_value.get("predicate_id")
-                                        {
-                                            if let Some(ast::NestedValue::Value(
-                                                framing_justification,
-                                            )) = framing_value.get("framing_justification")
-                                            {
-                                                let framing_scope = FramingScope {
-                                                    predicate_id: predicate_id.to_string(),
-                                                    framing_justification: framing_justification
-                                                        .to_string(),
-                                                    frame_meta: shared_meta.clone(),
-                                                };
-                                                framing.insert(framing_key.clone(), framing_scope);
+                                    let text = |key: &str| match framing_value {
+                                        ast::NestedValue::Object(framing_value) => {
+                                            match framing_value.get(key) {
+                                                Some(ast::NestedValue::Value(text)) => {
+                                                    Some(text.to_string())
+                                                }
+                                                _ => None,
                                             }
                                         }
+                                        _ => None,
+                                    };
+                                    match (text("predicate_id"), text("framing_justification")) {
+                                        (Some(predicate_id), Some(framing_justification)) => {
+                                            let framing_scope = FramingScope {
+                                                predicate_id,
+                                                framing_justification,
+                                                frame_meta: shared_meta.clone(),
+                                            };
+                                            framing.insert(framing_key.clone(), framing_scope);
+                                        }
+                                        _ => {
+                                            errors.push(format!(
+                                                "Framing of attribute {attr_name} needs predicate_id and framing_justification: {framing_key}"
+                                            ));
+                                            return Err(errors);
+                                        }
                                     }
                                 }
                                 attribute.set_framing(frame_id.clone(), framing.clone());
-- 
2.43.0


From 514d3a98f25eab8f17608972868cfdc23036bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:57 +0000
Subject: [PATCH 64/76] fix: printing keeps everything nested in a framing
 value

---
 semantics/oca-file/src/ocafile/mod.rs | 54 ++++++++++++---------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 47660c3..443cda3 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -189,6 +189,27 @@ fn format_classification(value: &str) -> String {
     }
 }
 
+// Framing in a form which keeps everything that is nested in it
+fn format_framing(value: &ast::NestedValue, indent: usize) -> String {
+    match value {
+        ast::NestedValue::Object(object) => {
+            let mut lines = "{".to_string();
+            for (key, value) in object {
+                lines.push_str(&format!(
+                    "\n{}{}: {},",
+                    " ".repeat(indent + 4),
+                    quoted(key),
+                    format_framing(value, indent + 4)
+                ));
+            }
+            lines.push_str(&format!("\n{}}}", " ".repeat(indent)));
+            lines
+        }
+        ast::NestedValue::Value(value) => quoted(value),
+        _ => String::new(),
+    }
+}
+
 /// Generate OCA file from AST
 ///
 /// # Arguments
@@ -456,38 +477,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                 if let Some(ref attributes) = content.attributes {
                                     line.push_str("    ATTRS \\");
                                     attributes.iter().for_each(|(key, value)| {
-                                        if let ast::NestedValue::Object(object) = value {
-                                            let mut frames_str = "".to_string();
-                                            for (f_key, f_value) in object.iter() {
-                                                let mut frame_str = "\n            ".to_string();
-                                                frame_str.push_str(
-                                                    format!(
-                                                        "{}: {{",
-                                                        quoted(f_key)
-                                                    ).as_str()
-                                                );
-
-                                                if let ast::NestedValue::Object(frame) = f_value {
-                                                    frame.iter().for_each(|(frame_key, frame_value)| {
-                                                        if let ast::NestedValue::Value(frame_value) = frame_value {
-                                                            frame_str.push_str(
-                                                                format!(
-                                                                    "\n                {}: {},",
-                                                                    quoted(frame_key),
-                                                                    quoted(frame_value)
-                                                                ).as_str()
-                                                            );
-                                                        }
-
-                                                    });
-                                                }
-
-                                                frame_str.push_str("\n            },");
-
-                                                frames_str.push_str(frame_str.as_str());
-                                            }
+                                        if let ast::NestedValue::Object(_) = value {
                                             line.push_str(
-                                                format!("\n        {}={{{}\n        }}", key, frames_str).as_str(),
+                                                format!("\n        {}={}", key, format_framing(value, 8)).as_str(),
                                             );
                                         }
                                     });
-- 
2.43.0


From ec065ab38f1f9c464da00f44e0fca48d47346756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:57 +0000
Subject: [PATCH 65/76] fix: REMOVE META and REMOVE LABEL keep language and
 keys, and are printed

---
 semantics/oca-file/src/ocafile.pest           |  4 ++--
 .../src/ocafile/instructions/remove.rs        | 14 +++++++------
 semantics/oca-file/src/ocafile/mod.rs         | 21 +++++++++++++++++--
 3 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 5f79a78..d94f4da 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -198,8 +198,8 @@ classification_value = { string | char+}
 //overlay_args = { ws* ~ ANY* }
 attribute = { ^"attribute" ~ attr_pairs+ }
 remove_attribute = { ^"attribute" ~ (arg_ws ~ attr_key)* }
-remove_meta = { ^"meta" ~ arg_ws ~ lang ~ (arg_ws ~ props_key ~ prop_key+)? }
-remove_label = { ^"label" ~ arg_ws ~ lang ~ (arg_ws ~ attrs_key ~ attr_key+)? }
+remove_meta = { ^"meta" ~ arg_ws ~ lang ~ (arg_ws ~ props_key ~ prop_key ~ (arg_ws ~ prop_key)*)? }
+remove_label = { ^"label" ~ arg_ws ~ lang ~ (arg_ws ~ attrs_key ~ attr_key ~ (arg_ws ~ attr_key)*)? }
 
 attr_key = ${ (ASCII_ALPHANUMERIC | "-" | "_" | ".")+ }
 prop_key = ${ (ASCII_ALPHANUMERIC | "-" | "_")+ }
diff --git a/semantics/oca-file/src/ocafile/instructions/remove.rs b/semantics/oca-file/src/ocafile/instructions/remove.rs
index 8373d41..fac0fd9 100644
--- a/semantics/oca-file/src/ocafile/instructions/remove.rs
+++ b/semantics/oca-file/src/ocafile/instructions/remove.rs
@@ -79,6 +79,12 @@ fn extract_properties_pairs(object: Pair) -> IndexMap<String, NestedValue> {
     let mut properties: IndexMap<String, NestedValue> = IndexMap::new();
     for attr_pairs in object.into_inner() {
         match attr_pairs.as_rule() {
+            Rule::lang => {
+                properties.insert(
+                    "lang".to_string(),
+                    NestedValue::Value(attr_pairs.as_str().to_string()),
+                );
+            }
             Rule::prop_key => {
                 debug!("Parsed attribute: {:?}", attr_pairs);
                 // TODO find out how to parse nested objects
@@ -87,9 +93,7 @@ fn extract_properties_pairs(object: Pair) -> IndexMap<String, NestedValue> {
                     NestedValue::Value("".to_string()),
                 );
             }
-            _ => {
-                return properties;
-            }
+            _ => (),
         }
     }
     properties
@@ -107,9 +111,7 @@ fn extract_attribute_pairs(object: Pair) -> IndexMap<String, NestedValue> {
                     NestedValue::Value("".to_string()),
                 );
             }
-            _ => {
-                return attributes;
-            }
+            _ => (),
         }
     }
     attributes
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 443cda3..c12345c 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -546,8 +546,25 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                         }
                     }
                 }
-                ast::ObjectKind::Overlay(_o_type, _) => {
-                    todo!()
+                ast::ObjectKind::Overlay(o_type, content) => {
+                    line.push_str("REMOVE ");
+                    line.push_str(&o_type.to_string().to_case(Case::UpperSnake));
+                    if let Some(properties) = &content.properties {
+                        if let Some(ast::NestedValue::Value(lang)) = properties.get("lang") {
+                            line.push_str(&format!(" {}", lang));
+                        }
+                        let keys = properties.keys().filter(|key| *key != "lang");
+                        for (index, key) in keys.enumerate() {
+                            line.push_str(if index == 0 { " PROPS " } else { " " });
+                            line.push_str(key);
+                        }
+                    }
+                    if let Some(attributes) = &content.attributes {
+                        for (index, key) in attributes.keys().enumerate() {
+                            line.push_str(if index == 0 { " ATTRS " } else { " " });
+                            line.push_str(key);
+                        }
+                    }
                 }
                 _ => {}
             },
-- 
2.43.0


From 8ac9004bc0babd88f7530aaf76dbbe235305f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:57 +0000
Subject: [PATCH 66/76] fix: FLAGGED_ATTRIBUTES are built and written back

---
 semantics/oca-bundle/src/build.rs     | 14 ++++++++++++++
 semantics/oca-bundle/src/state/oca.rs | 13 +++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index c4ab10d..bbc281d 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -164,6 +164,20 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     oca.add_attribute(attribute);
                 }
             }
+            if let Some(ref flagged_attributes) = content.flagged_attributes {
+                for attr_name in flagged_attributes {
+                    let mut attribute = oca
+                        .attributes
+                        .get(attr_name)
+                        .ok_or_else(|| {
+                            errors.push(format!("Undefined attribute: {attr_name}"));
+                            errors.clone()
+                        })?
+                        .clone();
+                    attribute.set_flagged();
+                    oca.add_attribute(attribute);
+                }
+            }
             if let Some(ref properties) = content.properties {
                 // TODO handle other properties
                 for (prop_name, prop_value) in properties {
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 5af6e59..6876f0d 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -954,6 +954,19 @@ impl OCABundle {
             });
         }
 
+        if !self.capture_base.flagged_attributes.is_empty() {
+            let mut flagged_attributes = self.capture_base.flagged_attributes.clone();
+            flagged_attributes.sort();
+            ast.commands.push(Command {
+                kind: CommandType::Add,
+                object_kind: ObjectKind::CaptureBase(CaptureContent {
+                    attributes: None,
+                    properties: None,
+                    flagged_attributes: Some(flagged_attributes),
+                }),
+            });
+        }
+
         if !self.capture_base.classification.is_empty() {
             let mut properties = IndexMap::new();
             properties.insert(
-- 
2.43.0


From 3058ec825e1bfb2e5e562b6351aebbf03988476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:57 +0000
Subject: [PATCH 67/76] fix: refuse META properties named like the overlay's
 own fields

---
 semantics/oca-bundle/src/build.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index bbc281d..7d22b18 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -201,6 +201,13 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         }
 
                         for (prop_name, prop_value) in mut_properties {
+                            // these are fields of the overlay itself
+                            if ["d", "capture_base", "type", "language"]
+                                .contains(&prop_name.as_str())
+                            {
+                                errors.push(format!("Reserved meta name: {prop_name}"));
+                                return Err(errors);
+                            }
                             if let ast::NestedValue::Value(value) = prop_value {
                                 oca.add_meta(lang_iso.unwrap(), prop_name.clone(), value.clone());
                             }
-- 
2.43.0


From b88c81ffc163fe2841c99a894f3a7a127c7af3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:09 +0000
Subject: [PATCH 68/76] fix: name the right line of a file that starts from an
 unknown bundle

---
 oca/src/facade/build.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 71ba3b9..b868387 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -232,6 +232,14 @@ impl Facade {
                     }
                 }
                 oca_ast.commands.remove(0);
+                if base.is_none() {
+                    // nothing precedes the remaining commands, so they count from the first
+                    oca_ast.commands_meta = oca_ast
+                        .commands_meta
+                        .into_iter()
+                        .filter_map(|(index, meta)| Some((index.checked_sub(1)?, meta)))
+                        .collect();
+                }
             }
         };
         Ok((base, oca_ast))
-- 
2.43.0


From 64f818ad99dc656434124d7e2f66b7b8975005cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:09 +0000
Subject: [PATCH 69/76] fix: an instruction without a language is refused
 instead of aborting the build

---
 semantics/oca-bundle/src/build.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 7d22b18..bef84c0 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -142,6 +142,10 @@ fn parse_language(lang: &str) -> Result<isolang::Language, Vec<String>> {
     isolang::Language::from_639_1(lang).ok_or_else(|| vec![format!("Unknown language: {lang}")])
 }
 
+fn required(lang: Option<isolang::Language>) -> Result<isolang::Language, Vec<String>> {
+    lang.ok_or_else(|| vec!["Undefined language".to_string()])
+}
+
 pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, Vec<String>> {
     let mut errors = vec![];
     let mut oca: OCABox = match base {
@@ -209,7 +213,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 return Err(errors);
                             }
                             if let ast::NestedValue::Value(value) = prop_value {
-                                oca.add_meta(lang_iso.unwrap(), prop_name.clone(), value.clone());
+                                oca.add_meta(required(lang_iso)?, prop_name.clone(), value.clone());
                             }
                         }
                     }
@@ -234,7 +238,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_label) = attr_type_value {
-                                attribute.set_label(lang_iso.unwrap(), attr_label.clone());
+                                attribute.set_label(required(lang_iso)?, attr_label.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -260,7 +264,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_info) = attr_type_value {
-                                attribute.set_information(lang_iso.unwrap(), attr_info.clone());
+                                attribute.set_information(required(lang_iso)?, attr_info.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -464,7 +468,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             match attr_type_value {
                                 ast::NestedValue::Value(attr_entries) => {
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        required(lang_iso)?,
                                         EntriesElement::Sai(attr_entries.clone()),
                                     );
                                 }
@@ -481,7 +485,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                         }
                                     }
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        required(lang_iso)?,
                                         EntriesElement::Object(entries),
                                     );
                                 }
-- 
2.43.0


From 5b3a082f7d700b07f86489dd63fee023b8f73a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:05 +0000
Subject: [PATCH 70/76] fix: a storage told to use an unusable path answers
 with errors instead of aborting

---
 oca/src/data_storage.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index ccdc2f4..01e6fc2 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -81,7 +81,7 @@ impl SledDataStorageConfigBuilder {
                 path.clone()
                     .into_os_string()
                     .into_string()
-                    .map_err(|e| e.into_string().unwrap())?,
+                    .map_err(|e| format!("path {e:?} is not valid UTF-8"))?,
             ),
             None => return Err("path is required".to_string()),
         };
@@ -94,6 +94,13 @@ impl SledDataStorageConfigBuilder {
     }
 }
 
+impl SledDataStorage {
+    fn tree(db: &sled::Db, namespace: Namespace) -> Result<sled::Tree, String> {
+        db.open_tree(namespace.as_str().as_bytes())
+            .map_err(|e| e.to_string())
+    }
+}
+
 impl DataStorage for SledDataStorage {
     fn new() -> Self {
         Self { db: None }
@@ -110,8 +117,8 @@ impl DataStorage for SledDataStorage {
 
     fn get(&self, namespace: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> {
         if let Some(ref db) = self.db {
-            let tree = db.open_tree(namespace.as_str().as_bytes()).unwrap();
-            match tree.get(key.as_bytes()).unwrap() {
+            let tree = Self::tree(db, namespace)?;
+            match tree.get(key.as_bytes()).map_err(|e| e.to_string())? {
                 Some(value) => Ok(Some(value.to_vec())),
                 None => Ok(None),
             }
@@ -123,10 +130,11 @@ impl DataStorage for SledDataStorage {
     fn get_all(&self, namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
         if let Some(ref db) = self.db {
             let mut all = HashMap::new();
-            let tree = db.open_tree(namespace.as_str().as_bytes()).unwrap();
-            let mut iter = tree.iter();
-            while let Some(Ok((key, value))) = iter.next() {
-                all.insert(String::from_utf8(key.to_vec()).unwrap(), value.to_vec());
+            let tree = Self::tree(db, namespace)?;
+            for entry in tree.iter() {
+                let (key, value) = entry.map_err(|e| e.to_string())?;
+                let key = String::from_utf8(key.to_vec()).map_err(|e| e.to_string())?;
+                all.insert(key, value.to_vec());
             }
 
             Ok(all)
@@ -137,7 +145,7 @@ impl DataStorage for SledDataStorage {
 
     fn insert(&mut self, namespace: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
         if let Some(ref db) = self.db {
-            let tree = db.open_tree(namespace.as_str().as_bytes()).unwrap();
+            let tree = Self::tree(db, namespace)?;
             match tree.insert(key.as_bytes(), value) {
                 Ok(_) => Ok(()),
                 Err(e) => Err(e.to_string()),
@@ -228,7 +236,7 @@ impl FileSystemStorageConfigBuilder {
                 path.clone()
                     .into_os_string()
                     .into_string()
-                    .map_err(|e| e.into_string().unwrap())?,
+                    .map_err(|e| format!("path {e:?} is not valid UTF-8"))?,
             ),
             None => return Err("path is required".to_string()),
         };
@@ -286,7 +294,7 @@ impl DataStorage for FileSystemStorage {
         if let Some(ref dir) = self.dir {
             let mut path = dir.clone();
             path.push(namespace.as_str());
-            if path.try_exists().unwrap() {
+            if path.try_exists().map_err(|e| e.to_string())? {
                 path.push(Self::file_name(key));
                 match std::fs::read(path) {
                     Ok(value) => Ok(Some(value)),
@@ -309,9 +317,7 @@ impl DataStorage for FileSystemStorage {
         if let Some(ref dir) = self.dir {
             let mut path = dir.clone();
             path.push(namespace.as_str());
-            if !path.try_exists().unwrap() {
-                std::fs::create_dir_all(path.clone()).unwrap();
-            }
+            std::fs::create_dir_all(&path).map_err(|e| e.to_string())?;
 
             // The value is written aside and then put in place, so that a write
             // that fails leaves the value stored before as it was.
-- 
2.43.0


From 3d1e577af813e0e9ca59ddb6dc8751bfdcded7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:44 +0000
Subject: [PATCH 71/76] fix: page sizes and numbers of any magnitude are
 answered instead of aborting

---
 oca/src/repositories/capture_base_cache_repo.rs | 2 +-
 oca/src/repositories/mod.rs                     | 8 ++++++++
 oca/src/repositories/oca_bundle_cache_repo.rs   | 2 +-
 oca/src/repositories/oca_bundle_fts_repo.rs     | 2 +-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index 94e938f..1eeab0b 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -48,7 +48,7 @@ impl CaptureBaseCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::limit_and_offset(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/mod.rs b/oca/src/repositories/mod.rs
index bbd565a..59d12fb 100644
--- a/oca/src/repositories/mod.rs
+++ b/oca/src/repositories/mod.rs
@@ -7,6 +7,14 @@ pub use oca_bundle_cache_repo::*;
 
 use std::path::PathBuf;
 
+/// What to ask the database for to get a page, pages being counted from one.
+/// The database knows no larger numbers than an `i64` holds.
+fn limit_and_offset(limit: usize, page: usize) -> (i64, i64) {
+    let number = |n: usize| i64::try_from(n).unwrap_or(i64::MAX);
+    let limit = number(limit);
+    (limit, number(page.saturating_sub(1)).saturating_mul(limit))
+}
+
 #[derive(Clone)]
 pub struct SQLiteConfig {
     pub path: Option<PathBuf>,
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 635e5b0..715573b 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -56,7 +56,7 @@ impl OCABundleCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::limit_and_offset(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 65d93a7..056cff6 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -82,7 +82,7 @@ impl OCABundleFTSRepo {
         limit: usize,
         page: usize,
     ) -> SearchResult {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::limit_and_offset(limit, page);
         let match_query = |meta_query: &str| match language {
             Some(lang) => {
                 let lang_code = isolang::Language::to_639_3(&lang).to_string();
-- 
2.43.0


From 71ee7ff9e00647c0c26d4c2a80d0d3eb5f7f0b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:30 +0000
Subject: [PATCH 72/76] fix: a condition the interpreter cannot cope with is an
 error instead of an abort

---
 .../src/state/oca/overlay/conditional.rs      | 76 ++++++++++---------
 semantics/oca-bundle/src/state/validator.rs   | 38 +++-------
 2 files changed, 49 insertions(+), 65 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index b9a6df5..3245c8a 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -1,10 +1,12 @@
 use crate::state::{attribute::Attribute, oca::Overlay};
 use oca_ast_semantics::ast::OverlayType;
-use piccolo::{Closure, Lua, Thread};
+use piccolo::{Closure, Lua, StaticError, Thread, ThreadMode};
 use said::derivation::HashFunctionCode;
 use said::{sad::SerializationFormats, sad::SAD};
 use serde::{Deserialize, Serialize};
-use std::{any::Any, collections::BTreeMap, error::Error as StdError, fmt::Display};
+use std::{
+    any::Any, collections::BTreeMap, error::Error as StdError, fmt::Display, panic::catch_unwind,
+};
 
 pub trait Conditionals {
     fn set_condition(&mut self, condition: String);
@@ -78,43 +80,45 @@ impl Conditionals for Attribute {
             })
             .to_string();
 
+        evaluate(&script).map_err(|e| {
+            vec![Error::Custom(format!(
+                "Attribute '{attr}' has invalid condition: {e}"
+            ))]
+        })
+    }
+}
+
+/// Steps of the interpreter a condition may take
+const MAX_STEPS: usize = 10_000;
+
+/// Value of an expression which mentions no attributes any more.
+/// One that the interpreter cannot cope with or that does not come to an end is an error.
+pub(crate) fn evaluate(script: &str) -> Result<bool, String> {
+    let reason = |e: StaticError| e.source().map_or_else(|| e.to_string(), |e| e.to_string());
+    let run = || {
         let mut lua = Lua::new();
-        let thread_result = lua.try_run(|ctx| {
-            let closure = Closure::load(ctx, format!("return {script}").as_bytes())?;
-            let thread = Thread::new(&ctx);
-            thread.start(ctx, closure.into(), ())?;
-            Ok(ctx.state.registry.stash(&ctx, thread))
-        });
+        let thread = lua
+            .try_run(|ctx| {
+                let closure = Closure::load(ctx, format!("return {script}").as_bytes())?;
+                let thread = Thread::new(&ctx);
+                thread.start(ctx, closure.into(), ())?;
+                Ok(ctx.state.registry.stash(&ctx, thread))
+            })
+            .map_err(reason)?;
 
-        let mut result = None;
-        match thread_result {
-            Ok(thread) => match lua.run_thread::<bool>(&thread) {
-                Ok(r) => result = Some(r),
-                Err(e) => {
-                    errors.push(Error::Custom(format!(
-                        "Attribute '{attr}' has invalid condition: {}",
-                        e.source().unwrap()
-                    )));
-                }
-            },
-            Err(e) => {
-                errors.push(Error::Custom(format!(
-                    "Attribute '{attr}' has invalid condition: {}",
-                    e.source().unwrap()
-                )));
-            }
-        };
-        if errors.is_empty() {
-            match result.is_some() {
-                true => Ok(result.unwrap()),
-                false => Err(vec![Error::Custom(format!(
-                    "Attribute '{attr}' has invalid condition",
-                ))]),
-            }
-        } else {
-            Err(errors)
+        let ended = (0..MAX_STEPS).any(|_| {
+            lua.run(|ctx| {
+                let thread = ctx.state.registry.fetch(&thread);
+                thread.mode() != ThreadMode::Normal || thread.step(ctx).is_err()
+            })
+        });
+        if !ended {
+            return Err("it takes too long".to_string());
         }
-    }
+        lua.run_thread::<bool>(&thread).map_err(reason)
+    };
+    // The interpreter aborts on some operations on unfitting values
+    catch_unwind(run).unwrap_or_else(|_| Err("it cannot be evaluated".to_string()))
 }
 
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
diff --git a/semantics/oca-bundle/src/state/validator.rs b/semantics/oca-bundle/src/state/validator.rs
index 47c5c33..f07299e 100644
--- a/semantics/oca-bundle/src/state/validator.rs
+++ b/semantics/oca-bundle/src/state/validator.rs
@@ -3,13 +3,12 @@ use crate::state::oca::DynOverlay;
 use indexmap::IndexMap;
 use isolang::Language;
 use oca_ast_semantics::ast::{AttributeType, NestedAttrType, OverlayType};
-use std::{
-    collections::{HashMap, HashSet},
-    error::Error as StdError,
-};
+use std::collections::{HashMap, HashSet};
 
-use super::oca::{overlay, OCABundle};
-use piccolo::{Closure, Lua, Thread};
+use super::oca::{
+    overlay::{self, conditional::evaluate},
+    OCABundle,
+};
 
 #[derive(Debug)]
 pub enum Error {
@@ -288,29 +287,10 @@ impl Validator {
                 continue;
             }
 
-            let mut lua = Lua::new();
-            let thread_result = lua.try_run(|ctx| {
-                let closure = Closure::load(ctx, format!("return {script}").as_bytes())?;
-                let thread = Thread::new(&ctx);
-                thread.start(ctx, closure.into(), ())?;
-                Ok(ctx.state.registry.stash(&ctx, thread))
-            });
-
-            match thread_result {
-                Ok(thread) => {
-                    if let Err(e) = lua.run_thread::<bool>(&thread) {
-                        errors.push(Error::Custom(format!(
-                            "Attribute '{attr}' has invalid condition: {}",
-                            e.source().unwrap()
-                        )));
-                    }
-                }
-                Err(e) => {
-                    errors.push(Error::Custom(format!(
-                        "Attribute '{attr}' has invalid condition: {}",
-                        e.source().unwrap()
-                    )));
-                }
+            if let Err(e) = evaluate(&script) {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' has invalid condition: {e}"
+                )));
             }
         }
 
-- 
2.43.0


From 9b63b82edf5351a3e764cfee2e1b9ffdcb2f3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:36 +0000
Subject: [PATCH 73/76] fix: checking a condition with an unknown mention is an
 error instead of an abort

---
 .../src/state/oca/overlay/conditional.rs      | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index 3245c8a..ac9c27b 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -53,7 +53,7 @@ impl Conditionals for Attribute {
         let condition = &self.condition.clone().ok_or(vec![Error::Custom(
             "Attribute has no condition".to_string(),
         )])?;
-        let condition_dependencies = &self.dependencies.clone().unwrap();
+        let condition_dependencies = &self.dependencies.clone().unwrap_or_default();
         let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         let attr = &self.name;
         if condition_dependencies.contains(attr) {
@@ -71,14 +71,26 @@ impl Conditionals for Attribute {
             return Err(errors);
         }
 
+        let mut unknown_mention = false;
         let script = re
             .replace_all(condition, |caps: &regex::Captures| {
-                dependency_values
-                    .get(&condition_dependencies[caps[1].parse::<usize>().unwrap()].clone())
-                    .unwrap()
-                    .to_string()
+                caps[1]
+                    .parse::<usize>()
+                    .ok()
+                    .and_then(|i| condition_dependencies.get(i))
+                    .and_then(|d| dependency_values.get(d))
+                    .map(|value| value.to_string())
+                    .unwrap_or_else(|| {
+                        unknown_mention = true;
+                        caps[0].to_string()
+                    })
             })
             .to_string();
+        if unknown_mention {
+            return Err(vec![Error::Custom(format!(
+                "Attribute '{attr}' has condition with unknown dependency"
+            ))]);
+        }
 
         evaluate(&script).map_err(|e| {
             vec![Error::Custom(format!(
-- 
2.43.0


From e564418f663f190b8cd637209fa11a87a6cbf053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:42 +0000
Subject: [PATCH 74/76] fix: a version that cannot be built is an error instead
 of an abort or an empty version

---
 semantics/oca-dag/src/versioning/ocafile.rs | 25 ++++++++++-----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index 6a84079..fb0415a 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -20,22 +20,18 @@ pub fn build_oca(
                 None => return Err("Missing bundle content".to_string()),
             };
             let oca_bundle_str = match db.get(&format!("oca.{}", said))? {
-                Some(oca_bundle_str) => String::from_utf8(oca_bundle_str).unwrap(),
+                Some(oca_bundle_str) => {
+                    String::from_utf8(oca_bundle_str).map_err(|e| e.to_string())?
+                }
                 None => return Err("OCA not found".to_string()),
             };
-            let oca_b = serde_json::from_str::<OCABundle>(&oca_bundle_str).unwrap();
+            let oca_b = serde_json::from_str::<OCABundle>(&oca_bundle_str)
+                .map_err(|e| e.to_string())?;
             base = Some(oca_b.into());
         } else {
-            let result = oca_bundle_semantics::build::apply_command(base.clone(), command.clone());
-            let mut oca_box: OCABox = OCABox::new();
-            match result {
-                Ok(oca) => {
-                    oca_box = oca;
-                }
-                Err(errors) => {
-                    println!("{:?}", errors);
-                }
-            };
+            let mut oca_box =
+                oca_bundle_semantics::build::apply_command(base.clone(), command.clone())
+                    .map_err(|errors| errors.join(", "))?;
             let oca_bundle = oca_box.generate_bundle();
             let command_str = serde_json::to_string(&command).unwrap();
 
@@ -67,7 +63,10 @@ pub fn build_oca(
         }
     }
 
-    Ok(base.unwrap().generate_bundle())
+    match base {
+        Some(mut base) => Ok(base.generate_bundle()),
+        None => Err("No commands".to_string()),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From d1bb0e750ea15e065ca698fb2a95552cbcbe0b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:54 +0000
Subject: [PATCH 75/76] fix: the version graph takes blocks of any length
 instead of aborting on long ones

---
 semantics/oca-dag/src/versioning/mod.rs     | 18 ++++++++++++++----
 semantics/oca-dag/src/versioning/ocafile.rs |  7 +++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/semantics/oca-dag/src/versioning/mod.rs b/semantics/oca-dag/src/versioning/mod.rs
index 8db25d3..510c579 100644
--- a/semantics/oca-dag/src/versioning/mod.rs
+++ b/semantics/oca-dag/src/versioning/mod.rs
@@ -33,8 +33,7 @@ impl Graph {
     fn generate_parents_digests(&self, parent_said: Option<&str>) -> Vec<u8> {
         let mut digests: Vec<u8> = Vec::new();
         if let Some(to) = parent_said {
-            digests.push(to.len().try_into().unwrap());
-            digests.extend(to.as_bytes());
+            push_block(&mut digests, to.as_bytes());
         }
         digests
     }
@@ -44,12 +43,23 @@ impl Graph {
         if let Some(children_digest) = children_digest {
             digests.extend(children_digest);
         }
-        digests.push(new.len().try_into().unwrap());
-        digests.extend(new.as_bytes());
+        push_block(&mut digests, new.as_bytes());
         digests
     }
 }
 
+/// Appends the length and the content of a block. A length of 255 and more takes
+/// several bytes, of which all but the last one are 255, and which add up to it.
+fn push_block(record: &mut Vec<u8>, block: &[u8]) {
+    let mut len = block.len();
+    while len >= 255 {
+        record.push(255);
+        len -= 255;
+    }
+    record.push(len as u8);
+    record.extend(block);
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index fb0415a..971d039 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -1,3 +1,4 @@
+use super::push_block;
 use crate::data_storage::DataStorage;
 use oca_ast_semantics::ast::{self, RefValue};
 use oca_bundle_semantics::state::oca::{OCABox, OCABundle};
@@ -39,15 +40,13 @@ pub fn build_oca(
             match base {
                 Some(ref mut base) => {
                     let base_said = base.generate_bundle().said.unwrap().to_string();
-                    input.push(base_said.len().try_into().unwrap());
-                    input.extend(base_said.as_bytes());
+                    push_block(&mut input, base_said.as_bytes());
                 }
                 None => {
                     input.push(0);
                 }
             }
-            input.push(command_str.len().try_into().unwrap());
-            input.extend(command_str.as_bytes());
+            push_block(&mut input, command_str.as_bytes());
             db.insert(
                 &format!("oca.{}.operation", oca_bundle.clone().said.unwrap()),
                 &input,
-- 
2.43.0


From 126be454f491ccc593a596582caf448ff88090d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:32 +0000
Subject: [PATCH 76/76] fix: listings report a damaged search database instead
 of aborting

---
 oca/src/facade/fetch.rs                       | 12 +++---
 .../repositories/capture_base_cache_repo.rs   | 42 ++++++++++---------
 oca/src/repositories/oca_bundle_cache_repo.rs | 41 ++++++++++--------
 3 files changed, 53 insertions(+), 42 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 009c53f..b36007f 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -140,8 +140,9 @@ impl Facade {
         let mut total: usize = 0;
         let mut errors = vec![];
 
-        let oca_bundle_cache_repo = OCABundleCacheRepo::new(self.connection());
-        let all_oca_bundle_records = oca_bundle_cache_repo.fetch_all(limit, page);
+        let all_oca_bundle_records = OCABundleCacheRepo::try_new(self.connection())
+            .and_then(|repo| repo.try_fetch_all(limit, page))
+            .map_err(|e| vec![e.to_string()])?;
         for all_oca_bundle_record in all_oca_bundle_records {
             if total == 0 {
                 total = all_oca_bundle_record.total;
@@ -176,9 +177,10 @@ impl Facade {
         let mut total: usize = 0;
         let mut errors = vec![];
 
-        let capture_base_cache_repo =
-            crate::repositories::CaptureBaseCacheRepo::new(self.connection());
-        let all_capture_base_records = capture_base_cache_repo.fetch_all(limit, page);
+        let all_capture_base_records =
+            crate::repositories::CaptureBaseCacheRepo::new(self.connection())
+                .try_fetch_all(limit, page)
+                .map_err(|e| vec![e.to_string()])?;
         for all_capture_base_record in all_capture_base_records {
             if total == 0 {
                 total = all_capture_base_record.total;
diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index 1eeab0b..18a883e 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -48,8 +48,16 @@ impl CaptureBaseCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
+        self.try_fetch_all(limit, page).unwrap()
+    }
+
+    /// Like `fetch_all`, reporting what prevents it.
+    pub fn try_fetch_all(
+        &self,
+        limit: usize,
+        page: usize,
+    ) -> rusqlite::Result<Vec<AllCaptureBaseRecord>> {
         let (limit, offset) = super::limit_and_offset(limit, page);
-        let mut results = vec![];
         let query = "
         SELECT results.*, count.total
         FROM
@@ -67,24 +75,20 @@ impl CaptureBaseCacheRepo {
         GROUP BY said";
 
         let connection = self.connection.connection.lock().unwrap();
-        let mut statement = connection.prepare(query).unwrap();
-
-        let models = statement
-            .query_map([limit, offset], |row| {
-                let cache_record =
-                    row.get::<_, Option<String>>(0)
-                        .unwrap()
-                        .map(|said| CaptureBaseCacheRecord {
-                            said,
-                            capture_base: row.get(1).unwrap(),
-                        });
-                Ok(AllCaptureBaseRecord {
-                    cache_record,
-                    total: row.get(2).unwrap(),
-                })
+        let mut statement = connection.prepare(query)?;
+        let models = statement.query_map([limit, offset], |row| {
+            let cache_record = match row.get::<_, Option<String>>(0)? {
+                Some(said) => Some(CaptureBaseCacheRecord {
+                    said,
+                    capture_base: row.get(1)?,
+                }),
+                None => None,
+            };
+            Ok(AllCaptureBaseRecord {
+                cache_record,
+                total: row.get(2)?,
             })
-            .unwrap();
-        models.for_each(|model| results.push(model.unwrap()));
-        results
+        })?;
+        models.collect()
     }
 }
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 715573b..c432d7e 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -56,8 +56,16 @@ impl OCABundleCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
+        self.try_fetch_all(limit, page).unwrap()
+    }
+
+    /// Like `fetch_all`, reporting what prevents it.
+    pub fn try_fetch_all(
+        &self,
+        limit: usize,
+        page: usize,
+    ) -> rusqlite::Result<Vec<AllOCABundleRecord>> {
         let (limit, offset) = super::limit_and_offset(limit, page);
-        let mut results = vec![];
         let query = "
         SELECT results.*, count.total
         FROM
@@ -75,23 +83,20 @@ impl OCABundleCacheRepo {
         GROUP BY said";
 
         let connection = self.connection.connection.lock().unwrap();
-        let mut statement = connection.prepare(query).unwrap();
-        let models = statement
-            .query_map([limit, offset], |row| {
-                let cache_record =
-                    row.get::<_, Option<String>>(0)
-                        .unwrap()
-                        .map(|said| OCABundleCacheRecord {
-                            said,
-                            oca_bundle: row.get(1).unwrap(),
-                        });
-                Ok(AllOCABundleRecord {
-                    cache_record,
-                    total: row.get(2).unwrap(),
-                })
+        let mut statement = connection.prepare(query)?;
+        let models = statement.query_map([limit, offset], |row| {
+            let cache_record = match row.get::<_, Option<String>>(0)? {
+                Some(said) => Some(OCABundleCacheRecord {
+                    said,
+                    oca_bundle: row.get(1)?,
+                }),
+                None => None,
+            };
+            Ok(AllOCABundleRecord {
+                cache_record,
+                total: row.get(2)?,
             })
-            .unwrap();
-        models.for_each(|model| results.push(model.unwrap()));
-        results
+        })?;
+        models.collect()
     }
 }
-- 
2.43.0

