From c07520a168f3793aa37f84e5247d567d2464cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 01/11] fix: a comment holding quoted text is a comment, not a
 message line

'# "quoted"' and '# msgid "x"' were taken for continuation and keyword lines,
because the flag after '#' was allowed to be empty.
---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index ad566c7..c1f97bc 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -22,7 +22,7 @@ impl PoParser {
             map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
-                r#"^\s*(?:#(~?\|?))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
+                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
             )
             .unwrap(),
             comment_re: Regex::new(r#"^\s*#(.)?\s*(.*)$"#).unwrap(),
-- 
2.43.0


From f3251cea90c741f667313939357c815b61b07014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 02/11] fix: negating the smallest number in a plural formula
 does not overflow

---
 src/plural/formula/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural/formula/node.rs b/src/plural/formula/node.rs
index 8753c08..76f62e6 100644
--- a/src/plural/formula/node.rs
+++ b/src/plural/formula/node.rs
@@ -94,7 +94,7 @@ impl Node {
             Node::Num(v) => *v,
             Node::UnOp { op, rhs } => match op {
                 UnOp::Not => bool_to_num(rhs.execute(n) == 0),
-                UnOp::Neg => -rhs.execute(n),
+                UnOp::Neg => rhs.execute(n).overflowing_neg().0,
             },
             Node::BinOp { op, lhs, rhs } => {
                 let lhs = lhs.execute(n);
-- 
2.43.0


From 6da62040949f17c93a957f5eb86db997e1a80179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 03/11] fix: a missing msgstr[i] does not shift the variants
 after it

The variants were appended one after the other, so that a gap filed each later
variant under the index before its own; and every index below nplurals was
asked for, however large nplurals is.
---
 src/po/message_extractor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index f5dd44c..6d95de3 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -80,9 +80,10 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
                     let count = forms.as_ref().map_or(2, |f| f.get_count());
 
                     for i in 0..count {
-                        if let Some(v) = self.parse_msg(&format!("msgstr[{}]", i))? {
-                            values.push(v);
-                        };
+                        match self.parse_msg(&format!("msgstr[{}]", i))? {
+                            Some(v) => values.push(v),
+                            None => break,
+                        }
                     }
 
                     return Ok(if values.is_empty() {
-- 
2.43.0


From 84ca00394abcb10c31a1ad2961fd2fcccdcd708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 04/11] fix: '#' followed by a tab starts a translator comment,
 as with a space

---
 src/po/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index c1f97bc..53c076d 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -73,7 +73,10 @@ impl PoParser {
             self.comment_re.captures(line).map_or(Err(()), |c| {
                 Ok(PoLine::Comment(
                     n,
-                    c.get(1).and_then(|m| m.as_str().chars().next()).unwrap_or(' '),
+                    c.get(1)
+                        .and_then(|m| m.as_str().chars().next())
+                        .filter(|c| !c.is_whitespace())
+                        .unwrap_or(' '),
                     c.get(2).map(|m| m.as_str().to_string()).unwrap_or_default(),
                 ))
             })
-- 
2.43.0


From c8dd49340127505caf635691979dfc7e2cfb0a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 05/11] fix: an empty item of a flag list is not a flag

---
 src/po/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/reader.rs b/src/po/reader.rs
index 1d0ecbf..85d590f 100644
--- a/src/po/reader.rs
+++ b/src/po/reader.rs
@@ -88,7 +88,7 @@ impl<'p, R: Read> PoReader<'p, R> {
         while let Some(Ok(PoLine::Comment(..))) = self.lines.peek() {
             match self.lines.next() {
                 Some(Ok(PoLine::Comment(_, ',', s))) => {
-                    for flag in s.split(',').map(str::trim) {
+                    for flag in s.split(',').map(str::trim).filter(|f| !f.is_empty()) {
                         unit.flags.insert(flag.to_string());
 
                         match flag {
-- 
2.43.0


From b5e366d9e6ef20da41e56697ee89940f307ffb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 06/11] fix: a Language header that is not ASCII does not panic

locale_config accepts some non-ASCII letters (its expressions ignore case) and
then slices inside a character.
---
 src/po/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/po/reader.rs b/src/po/reader.rs
index 85d590f..4acd1b6 100644
--- a/src/po/reader.rs
+++ b/src/po/reader.rs
@@ -195,7 +195,8 @@ impl<'p, R: Read> PoReader<'p, R> {
             self.header_notes.extend_from_slice(&u.notes);
             self.header_comments.extend_from_slice(&u.comments);
 
-            if let Some(lang) = self.header_properties.get("Language") {
+            // a language tag is plain ASCII
+            if let Some(lang) = self.header_properties.get("Language").filter(|l| l.is_ascii()) {
                 self.target_language = LanguageRange::new(lang)
                     .map(LanguageRange::into_static)
                     .or_else(|_| LanguageRange::from_unix(lang))
-- 
2.43.0


From 5b58c347fbbd812bed7dfba25f69f49b56d008da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 07/11] fix: '==' and '!=' bind looser than the orderings in a
 plural formula, as in C

---
 src/plural/formula/formula.lalrpop | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/plural/formula/formula.lalrpop b/src/plural/formula/formula.lalrpop
index cdd62da..3513a3d 100644
--- a/src/plural/formula/formula.lalrpop
+++ b/src/plural/formula/formula.lalrpop
@@ -20,18 +20,22 @@ Or: Node = {
 };
 
 And: Node = {
-    <l:And> "&&" <r:Logical> => Node::new_binop(BinOp::And, l, r),
-    <l:And> "and" <r:Logical> => Node::new_binop(BinOp::And, l, r),
-    Logical,
+    <l:And> "&&" <r:Equality> => Node::new_binop(BinOp::And, l, r),
+    <l:And> "and" <r:Equality> => Node::new_binop(BinOp::And, l, r),
+    Equality,
 };
 
-Logical: Node = {
-    <l:Logical> "==" <r:Not> => Node::new_binop(BinOp::Eq, l, r),
-    <l:Logical> "!=" <r:Not> => Node::new_binop(BinOp::Ne, l, r),
-    <l:Logical> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
-    <l:Logical> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
-    <l:Logical> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
-    <l:Logical> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
+Equality: Node = {
+    <l:Equality> "==" <r:Relation> => Node::new_binop(BinOp::Eq, l, r),
+    <l:Equality> "!=" <r:Relation> => Node::new_binop(BinOp::Ne, l, r),
+    Relation,
+};
+
+Relation: Node = {
+    <l:Relation> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
+    <l:Relation> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
+    <l:Relation> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
+    <l:Relation> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
     Not,
 };
 
-- 
2.43.0


From c92353a0bf610b021f79c864058ffa268c6b2a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 08/11] fix: '!' applies to its operand alone in a plural
 formula, as in C

'!n % 10' was read as '!(n % 10)'.
---
 src/plural/formula/formula.lalrpop | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/plural/formula/formula.lalrpop b/src/plural/formula/formula.lalrpop
index 3513a3d..f2ebfaa 100644
--- a/src/plural/formula/formula.lalrpop
+++ b/src/plural/formula/formula.lalrpop
@@ -40,23 +40,28 @@ Relation: Node = {
 };
 
 Not: Node = {
-    "!" <r:Add> => Node::new_unop(UnOp::Not, r),
-    "not" <r:Add> => Node::new_unop(UnOp::Not, r),
-    Add,
+    "not" <r:Add<Unary>> => Node::new_unop(UnOp::Not, r),
+    Add<Unary>,
 };
 
-Add: Node = {
-    <l:Add> "+" <r:Mul> => Node::new_binop(BinOp::Add, l, r),
-    <l:Add> "-" <r:Mul> => Node::new_binop(BinOp::Sub, l, r),
-    Mul,
+// `First` is what the leftmost operand can be
+Add<First>: Node = {
+    <l:Add<First>> "+" <r:Mul<Factor>> => Node::new_binop(BinOp::Add, l, r),
+    <l:Add<First>> "-" <r:Mul<Factor>> => Node::new_binop(BinOp::Sub, l, r),
+    Mul<First>,
 };
 
-Mul: Node = {
-    <l:Mul> "*" <r:Factor> => Node::new_binop(BinOp::Mul, l, r),
-    <l:Mul> "/" <r:Factor> => Node::new_binop(BinOp::Div, l, r),
-    <l:Mul> "%" <r:Factor> => Node::new_binop(BinOp::Mod, l, r),
+Mul<First>: Node = {
+    <l:Mul<First>> "*" <r:Factor> => Node::new_binop(BinOp::Mul, l, r),
+    <l:Mul<First>> "/" <r:Factor> => Node::new_binop(BinOp::Div, l, r),
+    <l:Mul<First>> "%" <r:Factor> => Node::new_binop(BinOp::Mod, l, r),
+    First,
+};
+
+Unary: Node = {
+    "!" <r:Unary> => Node::new_unop(UnOp::Not, r),
     Factor,
-}
+};
 
 Factor: Node = {
     "-" <r:Term> => Node::new_unop(UnOp::Neg, r),
-- 
2.43.0


From 0aba31c3ac345db4abbacfb798ba8668b13c2c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 09/11] fix: a plural formula of any size does not exhaust the
 stack

A long enough formula made a tree too deep to be evaluated or dropped, which
aborts the process.
---
 src/plural/formula/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/plural/formula/mod.rs b/src/plural/formula/mod.rs
index 0564cc3..ebb86a0 100644
--- a/src/plural/formula/mod.rs
+++ b/src/plural/formula/mod.rs
@@ -10,6 +10,9 @@ pub(super) struct Formula {
     expr: node::Node,
 }
 
+/// Longest accepted formula, in bytes. It bounds the depth of the tree, which is walked recursively.
+const MAX_LENGTH: usize = 4096;
+
 impl Formula {
     pub(super) fn parse(input: &str) -> Result<Self, Error> {
         let input = input.trim();
@@ -18,6 +21,10 @@ impl Formula {
             return Ok(Formula { expr: node::Node::Var });
         }
 
+        if input.len() > MAX_LENGTH {
+            return Err(Error::PluralForms(format!("formula too long ({} bytes)", input.len())));
+        }
+
         let parser = formula::FormulaParser::new();
         let res: Result<node::Node, ParseError<_, _, _>> = parser.parse(input);
 
-- 
2.43.0


From ff21e847680cdf423ec6c09da9e523b016f00144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 10/11] fix: a string whose closing quote is escaped is not a
 string

'msgid "a\"' was read as the text 'a\', though the string is not closed.
---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index 53c076d..383f703 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -22,7 +22,7 @@ impl PoParser {
             map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
-                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
+                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"((?:[^\\]|\\.)*)"\s*$"#,
             )
             .unwrap(),
             comment_re: Regex::new(r#"^\s*#(.)?\s*(.*)$"#).unwrap(),
-- 
2.43.0


From 135b73b9b2e1859fa36342070f8f2e12b491c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 11/11] fix: a Plural-Forms item without '=' is rejected, not
 merged into its neighbour

'nplurals3; plural=0;' was read as the single item 'nplurals3; plural', and
'nplurals=2; plural;' as nplurals alone.
---
 src/po/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index 383f703..8583978 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -19,8 +19,8 @@ pub struct PoParser {
 impl PoParser {
     pub fn new() -> PoParser {
         PoParser {
-            map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
-            map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
+            map_re: Regex::new(r"([^\s;]+?)\s*=\s*([^;]*?)\s*;").unwrap(),
+            map_check_re: Regex::new(r"^\s*([^\s;]+?\s*=\s*[^;]*?\s*;[\s;]*)*$").unwrap(),
             message_re: Regex::new(
                 r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"((?:[^\\]|\\.)*)"\s*$"#,
             )
-- 
2.43.0

