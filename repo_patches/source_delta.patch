From a4fdec7f1d2d32907777dc8478e70d2baa0af147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:46 +0000
Subject: [PATCH 01/22] fix: do not drop earlier patterns when a pattern with
 the same first token is added

Entry::insert replaced the child of a node which already had one, so every
pattern below it was lost.
---
 src/matcher/suffix_array/interface.rs | 6 ++++--
 src/matcher/trie/node/interface.rs    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/matcher/suffix_array/interface.rs b/src/matcher/suffix_array/interface.rs
index 3d74608..0ed5966 100644
--- a/src/matcher/suffix_array/interface.rs
+++ b/src/matcher/suffix_array/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::SA::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::SA::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
diff --git a/src/matcher/trie/node/interface.rs b/src/matcher/trie/node/interface.rs
index 321dcdd..17dbbee 100644
--- a/src/matcher/trie/node/interface.rs
+++ b/src/matcher/trie/node/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::ST::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::ST::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
-- 
2.43.0


From fccb64f5232772070a8ea4834ce2948de8379011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:47 +0000
Subject: [PATCH 02/22] fix: compare the first characters of literals instead
 of their first bytes

The trie panicked on literals and messages starting with a multi-byte character.
---
 src/matcher/trie/node/literal.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index 292cd39..bb67f94 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -49,15 +49,7 @@ impl LiteralNode {
     }
 
     pub fn cmp_str(&self, other: &str) -> Ordering {
-        if self.literal.is_empty() && other.is_empty() {
-            Ordering::Equal
-        } else if self.literal.is_empty() {
-            Ordering::Less
-        } else if other.is_empty() {
-            Ordering::Greater
-        } else {
-            self.literal[0..1].cmp(&other[0..1])
-        }
+        self.literal.chars().next().cmp(&other.chars().next())
     }
 
     pub fn split(&mut self, common_prefix_len: usize, literal: &str) {
-- 
2.43.0


From 06a1882bb6031bf918c99af0cead4ae531078740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:49 +0000
Subject: [PATCH 03/22] fix: SET matches characters, not bytes

A set with multi-byte characters accepted parts of other characters and panicked
when it cut one in two.
---
 src/parsers/set.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/parsers/set.rs b/src/parsers/set.rs
index 80f84b7..61fbe97 100644
--- a/src/parsers/set.rs
+++ b/src/parsers/set.rs
@@ -7,7 +7,7 @@ use parsers::{Parser, ObjectSafeHash, ParseResult, ParserBase, HasLengthConstrai
 #[derive(Clone, Debug, Hash)]
 pub struct SetParser {
     base: ParserBase,
-    character_set: BTreeSet<u8>,
+    character_set: BTreeSet<char>,
     min_length: Option<usize>,
     max_length: Option<usize>,
 }
@@ -39,23 +39,25 @@ impl SetParser {
         self.character_set = SetParser::create_set_from_str(set);
     }
 
-    fn create_set_from_str(set: &str) -> BTreeSet<u8> {
-        let vset: Vec<u8> = set.bytes().collect();
-        BTreeSet::from_iter(vset)
+    fn create_set_from_str(set: &str) -> BTreeSet<char> {
+        BTreeSet::from_iter(set.chars())
     }
 
-    fn calculate_match_length(&self, value: &str) -> usize {
+    // the length of the match in characters and in bytes
+    fn calculate_match_length(&self, value: &str) -> (usize, usize) {
         let mut match_len = 0;
+        let mut match_bytes = 0;
 
-        for c in value.bytes() {
+        for c in value.chars() {
             if self.character_set.contains(&c) {
                 match_len += 1;
+                match_bytes += c.len_utf8();
             } else {
                 break;
             }
         }
 
-        match_len
+        (match_len, match_bytes)
     }
 }
 
@@ -76,10 +78,10 @@ impl HasLengthConstraint for SetParser {
 
 impl Parser for SetParser {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
-        let match_len = self.calculate_match_length(value);
+        let (match_len, match_bytes) = self.calculate_match_length(value);
 
         if self.is_match_length_ok(match_len) {
-            Some(ParseResult::new(self, &value[..match_len]))
+            Some(ParseResult::new(self, &value[..match_bytes]))
         } else {
             None
         }
-- 
2.43.0


From d1f21fb50351514aecf6ccdfd8a7c8164868568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 04/22] fix: match a pattern which ends with a parser even if a
 longer one continues it (trie)

A parser node with a child never reported its own pattern.
---
 src/matcher/trie/node/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matcher/trie/node/parser.rs b/src/matcher/trie/node/parser.rs
index 52b1def..3796144 100644
--- a/src/matcher/trie/node/parser.rs
+++ b/src/matcher/trie/node/parser.rs
@@ -39,10 +39,10 @@ impl ParserNode {
             let text = text.ltrunc(parsed_kwpair.value().len());
 
             return match self.node() {
-                Some(node) => {
+                Some(node) if !(text.is_empty() && self.pattern.is_some()) => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
                 }
-                None => {
+                _ => {
                     self.push_last_kvpair(text, parsed_kwpair)
                 }
             };
@@ -90,10 +90,10 @@ impl ParserEntry for ParserNode {
             let text = value.ltrunc(parsed_kwpair.value().len());
 
             return match self.node() {
-                Some(node) => {
+                Some(node) if !(text.is_empty() && self.pattern.is_some()) => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
                 }
-                None => {
+                _ => {
                     self.push_last_kvpair(text, parsed_kwpair)
                 }
             };
-- 
2.43.0


From affc10a70ecb670dc26e7976cf363fd0b4bf4307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 05/22] fix: fall back to the alternatives when the longest
 literal leads to a dead end (trie)

The trie committed itself to the longest literal: the parsers on the way, the
patterns of the empty literal left behind by a split and GREEDY parsers matching
an empty rest were never tried, so the outcome depended on the insertion order.
---
 src/matcher/trie/node/literal.rs | 13 +++++++++
 src/matcher/trie/node/mod.rs     | 48 ++++++++++++++++++--------------
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index bb67f94..74350b5 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -3,6 +3,7 @@ use utils::common_prefix::CommonPrefix;
 
 use matcher::trie::node::SuffixTree;
 use matcher::Pattern;
+use matcher::result::MatchResult;
 
 use matcher::trie::node::interface::{Entry, LiteralEntry};
 
@@ -87,6 +88,18 @@ impl LiteralNode {
         self.node.is_none()
     }
 
+    pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
+        if !text.starts_with(self.literal()) {
+            return None;
+        }
+        let text = text.ltrunc(self.literal().len());
+
+        match self.pattern {
+            Some(ref pattern) if text.is_empty() => Some(MatchResult::new(pattern)),
+            _ => self.node().and_then(|node| node.parse(text)),
+        }
+    }
+
     fn compare_first_chars(&self, other: &LiteralNode) -> Ordering {
         self.cmp_str(other.literal())
     }
diff --git a/src/matcher/trie/node/mod.rs b/src/matcher/trie/node/mod.rs
index e6c0a51..e704376 100644
--- a/src/matcher/trie/node/mod.rs
+++ b/src/matcher/trie/node/mod.rs
@@ -160,31 +160,37 @@ impl SuffixTree {
 
     pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
         trace!("parse(): text = {}", text);
-        match self.lookup_literal(text) {
-            Ok((node, pos)) => {
-                trace!("{:?}", node);
-                let child = node.literal_children
-                                .get(pos)
-                                .expect("Failed to get a looked up child");
-                SuffixTree::create_match_result_if_child_is_leaf(child)
-            }
-            Err((node, remaining_len)) => {
-                let text = text.ltrunc(text.len() - remaining_len);
-                trace!("parse(): text = {}", text);
-                trace!("parse(): #parser_children = {}", node.parser_children.len());
-                node.parse_with_parsers(text)
-            }
+        if let Some(result) = self.parse_with_literals(text) {
+            return Some(result);
         }
+        trace!("parse(): #parser_children = {}", self.parser_children.len());
+        self.parse_with_parsers(text)
     }
 
-    fn create_match_result_if_child_is_leaf<'a, 'b>(child: &'a LiteralNode)
-                                                    -> Option<MatchResult<'a, 'b>> {
-        if let Some(pattern) = child.pattern() {
-            let result = MatchResult::new(pattern);
-            Some(result)
+    fn parse_with_literals<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
+        // an empty literal is left behind when a literal is split at the end of an other one
+        let result = self.parse_with_literal(text, text);
+        if result.is_none() && !text.is_empty() {
+            self.parse_with_literal("", text)
         } else {
-            info!("Early matching message: the message was too short to reach a leaf");
-            None
+            result
+        }
+    }
+
+    fn parse_with_literal<'a, 'b>(&'a self,
+                                  literal: &str,
+                                  text: &'b str)
+                                  -> Option<MatchResult<'a, 'b>> {
+        let cmp_str = |probe: &LiteralNode| probe.cmp_str(literal);
+
+        match self.literal_children.binary_search_by(&cmp_str) {
+            Ok(pos) => {
+                let child = self.literal_children
+                                .get(pos)
+                                .expect("Failed to get a looked up child");
+                child.parse(text)
+            }
+            Err(_) => None,
         }
     }
 
-- 
2.43.0


From 61edb831576cf896d6876fa16cd4abf1798a6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:06 +0000
Subject: [PATCH 06/22] fix: only match literals which are prefixes of the
 value (suffix array)

A message was matched by a literal which only shared a prefix with it, and the
parsers and the shorter literals were not tried if there was any literal entry.
---
 src/matcher/suffix_array/impls.rs | 48 ++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 6c0a378..38575a1 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -60,6 +60,35 @@ impl SuffixTable {
         }
     }
 
+    // Tries the literals which are prefixes of the value, the longest one first.
+    fn parse_with_literals<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        let mut entries = &self.literal_entries[..];
+        let mut prefix = value;
+
+        loop {
+            let result = entries.binary_search_by(|probe| {
+                let s: &str = probe.literal().borrow();
+                s.cmp(prefix)
+            });
+            let end = match result {
+                Ok(pos) => pos + 1,
+                Err(pos) => pos
+            };
+            if end == 0 {
+                return None;
+            }
+            let entry = &entries[end - 1];
+            let common_prefix_len = entry.literal().common_prefix_len(prefix);
+            if common_prefix_len == entry.literal().len() {
+                if let Some(result) = entry.parse_rest(value.ltrunc(common_prefix_len)) {
+                    return Some(result);
+                }
+            }
+            prefix = prefix.rtrunc(prefix.len() - common_prefix_len);
+            entries = &entries[..end - 1];
+        }
+    }
+
     fn parse_with_parsers<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
         for parser in &self.parser_entries {
             if let Some(result) = parser.parse(value) {
@@ -218,6 +247,13 @@ impl LiteralE {
             child: None
         }
     }
+
+    fn parse_rest<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        match self.pattern {
+            Some(ref pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
+            _ => self.child().and_then(|child| child.parse(value))
+        }
+    }
 }
 
 impl Entry for LiteralE {
@@ -247,16 +283,8 @@ impl LiteralEntry for LiteralE {
 
 impl Matcher for SuffixTable {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
-        if let Some(child) = self.longest_common_prefix(value) {
-            let common_prefix_len = child.literal().common_prefix_len(value);
-            if common_prefix_len == value.len() {
-                child.pattern().and_then(|pattern| Some(MatchResult::new(pattern)))
-            } else if common_prefix_len < value.len() {
-                let value = value.ltrunc(common_prefix_len);
-                child.child().and_then(|child| child.parse(value))
-            } else {
-                None
-            }
+        if let Some(result) = self.parse_with_literals(value) {
+            Some(result)
         } else {
             self.parse_with_parsers(value)
         }
-- 
2.43.0


From 5afb69eef9dc05efadcf40cfe30c2a2de8f86e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:46 +0000
Subject: [PATCH 07/22] fix: match a pattern which ends with a parser even if a
 longer one continues it (suffix array)

A parser entry with a child never reported its own pattern.
---
 src/matcher/suffix_array/impls.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 38575a1..5115fe9 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -216,7 +216,9 @@ impl ParserEntry for ParserE {
         self.parser.parse(value).and_then(|kvpair| {
             let value = value.ltrunc(kvpair.value().len());
 
-            if let Some(child) = self.child() {
+            if value.is_empty() && self.pattern().is_some() {
+                self.create_match_result(kvpair)
+            } else if let Some(child) = self.child() {
                 child.parse(value).and_then(|mut result| {
                     result.insert(kvpair);
                     Some(result)
-- 
2.43.0


From c3af3e7df05d2b3c35716af28828142cda5758c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:47 +0000
Subject: [PATCH 08/22] fix: report read errors of pattern files

The result of read_to_string() was ignored: an unreadable or non UTF-8 file gave
a syntax error and a partially read YAML file could be loaded without its tail.
---
 src/matcher/pattern_loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern_loader.rs b/src/matcher/pattern_loader.rs
index d3076f8..d57c2fb 100644
--- a/src/matcher/pattern_loader.rs
+++ b/src/matcher/pattern_loader.rs
@@ -17,7 +17,7 @@ impl PatternLoader {
     {
         let mut buffer = String::new();
         let mut file = try!(File::open(pattern_file_path));
-        let _ = file.read_to_string(&mut buffer);
+        try!(file.read_to_string(&mut buffer));
         Ok(buffer)
     }
 
-- 
2.43.0


From afba517430054788e314417b29dfbbb309a7028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:48 +0000
Subject: [PATCH 09/22] fix: name the missing uuid field in the error message

---
 src/matcher/pattern/deser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern/deser.rs b/src/matcher/pattern/deser.rs
index 66cb75f..ba129e2 100644
--- a/src/matcher/pattern/deser.rs
+++ b/src/matcher/pattern/deser.rs
@@ -99,7 +99,7 @@ impl serde::de::Visitor for PatternVisitor {
             }
         };
 
-        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("pattern")));
+        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));
 
         try!(visitor.end());
 
-- 
2.43.0


From c97349591ad3d6856bc2fefe65e46279ac64629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:49 +0000
Subject: [PATCH 10/22] fix: reject too large numbers in parser options instead
 of panicking

---
 src/grammar/parser/pattern.rustpeg   |  2 +-
 src/grammar/parser/pattern_parser.rs | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 98a6b33..c8353b3 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -102,4 +102,4 @@ all_chars_until_quotation_mark -> &'input str
 comma = "," " "*
 
 int -> usize
-  = [0-9]+ { usize::from_str(match_str).ok().unwrap() }
+  = [0-9]+ {? usize::from_str(match_str).map_err(|_| "a smaller number") }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index b51f65a..8b0d2a5 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -1187,9 +1187,13 @@ fn parse_int<'input, F: ParserFactory>(input: &'input str,
                 Matched(pos, _) => {
                     {
                         let match_str = &input[start_pos..pos];
-                        Matched(pos, {
-                            usize::from_str(match_str).ok().unwrap()
-                        })
+                        match usize::from_str(match_str) {
+                            Ok(value) => Matched(pos, value),
+                            Err(_) => {
+                                let _ = state.mark_failure(start_pos, "a smaller number");
+                                Failed
+                            }
+                        }
                     }
                 }
                 Failed => Failed,
-- 
2.43.0


From 98f7495a7c34fbfde347ff4cd6fac067986892d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:53 +0000
Subject: [PATCH 11/22] fix: unescape the literal after a GREEDY parser, too

---
 src/grammar/parser/pattern.rustpeg   | 4 ++--
 src/grammar/parser/pattern_parser.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index c8353b3..962104a 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -52,9 +52,9 @@ parser_INT_optional_params -> Vec<OptionalParameter<'input>>
 parser_GREEDY -> Vec<TokenType>
   = PARSER_BEGIN GREEDY name:parser_name? PARSER_END end_string:literal? {
     let mut tokens = Vec::new();
-    let parser = F::new_greedy(name, end_string);
+    let end_string = end_string.map(grammar::unescape_literal);
+    let parser = F::new_greedy(name, end_string.as_ref().map(|string| string.as_str()));
     tokens.push(TokenType::Parser(parser));
-    let end_string = end_string.map(|string| string.to_string());
     if let Some(end_string) = end_string {
       tokens.push(TokenType::Literal(end_string));
     }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index 8b0d2a5..3711c3d 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -598,13 +598,13 @@ fn parse_parser_GREEDY<'input, F: ParserFactory>(input: &'input str,
                                                                                 {
                                                                                     let mut tokens =
                                                                                         Vec::new();
+                                                                                    let end_string =
+                                                                                        end_string.map(grammar::unescape_literal);
                                                                                     let parser =
                                                                                         F::new_greedy(name,
-                                                                                                      end_string);
+                                                                                                      end_string.as_ref().map(|string|
+                                                                                                                                  string.as_str()));
                                                                                     tokens.push(TokenType::Parser(parser));
-                                                                                    let end_string =
-                                                                                        end_string.map(|string|
-                                                                                                           string.to_owned());
                                                                                     if let Some(end_string)
                                                                                            =
                                                                                            end_string
-- 
2.43.0


From af92908a851a638390b9d75b95ae74bbef95a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 12/22] fix: count the columns of a syntax error correctly
 after CRLF line ends

---
 src/grammar/parser/pattern_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index 3711c3d..a7d176a 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -93,7 +93,7 @@ fn any_char(input: &str, state: &mut ParseState, pos: usize) -> RuleResult<()> {
 fn pos_to_line(input: &str, pos: usize) -> (usize, usize) {
     let mut remaining = pos;
     let mut lineno: usize = 1;
-    for line in input.lines() {
+    for line in input.split('\n') {
         let line_length = line.len() + 1;
         if remaining < line_length {
             return (lineno, remaining + 1);
-- 
2.43.0


From 076b875d95008670a28880dfc1f189d108966848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:42 +0000
Subject: [PATCH 13/22] fix: pdb2adb: keep colons in the options of patterndb
 parsers

@ESTRING:x:: @ lost its end text, @SET:x:a:b@ its characters after the colon.
---
 utils/pdb2adb | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index decf658..68c09b5 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -282,15 +282,13 @@ sub _unescape_pattern {
 }
 
 sub _validate_pattern {
-	my ($type,$key,$opt) = split(/:/,$_[0]);
+	my ($type,$key,$opt) = split(/:/,$_[0],3);
 	$key ||= "pdb2adb2ignore";
 	$type ||= "";
 	for ($type) {
 		if (/^$/) {
 			return "";
 		} elsif (/^ESTRING$/) {
-			# ugly hack to detect ESTRING:foo::
-			$opt = ":" if (substr($_[0],-2) eq "::");
 			return "%{GREEDY:$key}$opt";
 		} elsif (/QSTRING/) {
 			my $a = substr($opt,0,1);
-- 
2.43.0


From 87951b58d2a02beb0f73811c6ec1f34ef98eb72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:42 +0000
Subject: [PATCH 14/22] fix: pdb2adb: convert patterns with escaped at signs

Patterns with @@ were dropped as unsupported.
---
 utils/pdb2adb | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index 68c09b5..a4279b3 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -261,14 +261,17 @@ sub _p2p {
 			}
 		} else {
 			if ($is_pattern) {
-				if (_validate_pattern($p)) {
+				if ($p eq '') {
+					# an escaped at sign: @@
+					push @out, '@';
+				} elsif (_validate_pattern($p)) {
 					push @out, _validate_pattern($p);
 				} else {
 					warn "unsupported `$p`\n";
 					return;
 				}
 			} else {
-				push @out, _unescape_pattern($p);
+				push @out, $p;
 				next
 			}
 		}
@@ -276,11 +279,6 @@ sub _p2p {
 	return join ("", @out)
 }
 
-sub _unescape_pattern {
-	(my $out = shift) =~ s/@@/@/g;
-	return $out;
-}
-
 sub _validate_pattern {
 	my ($type,$key,$opt) = split(/:/,$_[0],3);
 	$key ||= "pdb2adb2ignore";
-- 
2.43.0


From 1d488ef0ba37ee041a9d79b0027c493e3cdf1001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:42 +0000
Subject: [PATCH 15/22] fix: pdb2adb: escape %{ in literals

The converted file could not be loaded.
---
 utils/pdb2adb | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index a4279b3..5010a1d 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -271,7 +271,7 @@ sub _p2p {
 					return;
 				}
 			} else {
-				push @out, $p;
+				push @out, _escape_literal($p);
 				next
 			}
 		}
@@ -279,6 +279,11 @@ sub _p2p {
 	return join ("", @out)
 }
 
+sub _escape_literal {
+	(my $out = shift) =~ s/%\{/\\%\\{/g;
+	return $out;
+}
+
 sub _validate_pattern {
 	my ($type,$key,$opt) = split(/:/,$_[0],3);
 	$key ||= "pdb2adb2ignore";
@@ -287,7 +292,7 @@ sub _validate_pattern {
 		if (/^$/) {
 			return "";
 		} elsif (/^ESTRING$/) {
-			return "%{GREEDY:$key}$opt";
+			return "%{GREEDY:$key}" . _escape_literal($opt);
 		} elsif (/QSTRING/) {
 			my $a = substr($opt,0,1);
 			my $b;
-- 
2.43.0


From e7f2d900d7e2786737bb5a0c90a9e7251e9c9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:12 +0000
Subject: [PATCH 16/22] fix: pdb2adb keeps patterns and ruleset names that read
 0

Perl takes the text 0 for false, so such a pattern was left out without a
word and such a ruleset lost its name.
---
 utils/pdb2adb | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index 5010a1d..47d222a 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -40,10 +40,15 @@ sub init {
 	);
 }
 
+sub _ruleset_name {
+	my $name = $_[0] -> {att} -> {name};
+	return defined $name && $name ne "" ? $name : $_[0] -> id;
+}
+
 my %ruleset;
 sub ruleset {
 	my ($twig, $ruleset) = @_;
-	my $name = $ruleset -> {att} -> {name} || $ruleset -> {id};
+	my $name = _ruleset_name($ruleset);
 	$ruleset{$name}->{id} = $ruleset -> id;
 	$ruleset{$name}->{pubdate} = $ruleset -> parent -> {att} -> {pub_date};
 	$ruleset{$name}->{version} = $ruleset -> parent -> {att} -> {version};
@@ -51,14 +56,14 @@ sub ruleset {
 
 sub ruleset_description {
 	my ($twig, $description) = @_;
-	my $ruleset_id = $_ -> parent('ruleset') -> {att} -> {name} || $_ -> parent('ruleset') -> id;
+	my $ruleset_id = _ruleset_name($_ -> parent('ruleset'));
 	$description -> trim;
 	$ruleset{$ruleset_id}->{description} = $description -> text;
 }
 
 sub ruleset_pattern {
 	my ($twig, $pattern) = @_;
-	my $ruleset_id = $pattern -> parent('ruleset') -> {att} -> {name} || $pattern -> parent('ruleset') -> id;
+	my $ruleset_id = _ruleset_name($pattern -> parent('ruleset'));
 	if (! defined $ruleset{$ruleset_id}->{patterns}) {
 		$ruleset{$ruleset_id}->{patterns} = [];
 	}
@@ -68,7 +73,7 @@ sub ruleset_pattern {
 my %rule;
 sub rule {
 	my ($twig, $rule) = @_;
-	my $ruleset_id = $rule -> parent('ruleset') -> {att} -> {name} || $rule -> parent('ruleset') -> id;
+	my $ruleset_id = _ruleset_name($rule -> parent('ruleset'));
 	$rule{$rule->id}->{id} = $rule -> id;
 	$rule{$rule->id}->{ruleset} = $ruleset_id;
 	$rule{$rule->id}->{ruleclass} = $rule -> class;
@@ -218,7 +223,7 @@ if ($opt -> patterns) {
 				test_messages => \@test_messages,
 				%extra_values,
 				%extra_tags,
-			} if _p2p($pattern);
+			} if length(_p2p($pattern) // "");
 			$pattern_uuid = $ug->create();
 			$pattern_uuid = $ug -> to_string($pattern_uuid);
 		}
-- 
2.43.0


From 8a9fd69cf38bfce03e5d9e017c878a0004267256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:59 +0000
Subject: [PATCH 17/22] fix: pdb2adb escapes %{ in the program that -P puts in
 front of patterns

---
 utils/pdb2adb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index 47d222a..e8db25b 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -213,7 +213,7 @@ if ($opt -> patterns) {
 		for my $pattern (@{$rule->{patterns}}) {
 			my $adbp;
 			if ($opt -> program) {
-				$adbp = "${program}: ";
+				$adbp = _escape_literal("${program}: ");
 			}
 			$adbp .= _p2p($pattern);
 			push @adb_pattern, {
-- 
2.43.0


From d9a292d593200dfdb949f2b4fcb87a7540a15226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:46 +0000
Subject: [PATCH 18/22] fix: pdb2adb escapes %{ that comes about where two
 pieces of a pattern meet

---
 utils/pdb2adb | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index e8db25b..9e9c82e 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -281,7 +281,15 @@ sub _p2p {
 			}
 		}
 	}
-	return join ("", @out)
+	my $joined = "";
+	for my $piece (@out) {
+		# an opening may come about where two pieces meet
+		if ($piece =~ /^\{/ && $joined =~ s/%\z/\\%/) {
+			$piece = "\\$piece";
+		}
+		$joined .= $piece;
+	}
+	return $joined;
 }
 
 sub _escape_literal {
-- 
2.43.0


From 3e9c1e8c209ce7e59c5573c4f604b79d04f5c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:48 +0000
Subject: [PATCH 19/22] fix: pdb2adb leaves out sets with quotation marks

They cannot be expressed, and one of them made the whole converted file
unloadable.
---
 utils/pdb2adb | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index 9e9c82e..d9819a4 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -325,6 +325,11 @@ sub _validate_pattern {
 				warn "pdb(`$type`) partially supported by $adbset\n";
 				return "%{$adbset:$key}";
 		} elsif (/^STRING$/) {
+				if (defined $opt && $opt =~ /"/) {
+					# a set cannot contain quotation marks
+					warn "unsupported options `$opt` of pattern parser `$type`\n";
+					return
+				}
 				if ($opt) {
 					my $adbset = "SET(\"AZERTYUIOPQSDFGHJKLMWXCVBNazertyuiopqsdfghjklmwxcvbn1234567890$opt\")";
 					warn "pdb(`$type`) with options `$opt` partially supported by $adbset\n";
@@ -337,6 +342,11 @@ sub _validate_pattern {
 		} elsif (/^ANYSTRING$/) {
 			return "%{GREEDY:$key}";
 		} elsif (/^SET$/) {
+			if (!defined $opt || $opt eq "" || $opt =~ /"/) {
+				# a set has to contain something, but no quotation marks
+				warn "unsupported options of pattern parser `$type`\n";
+				return
+			}
 			return "%{SET(\"$opt\"):$key}";
 		} elsif (/^(IPvANY|MACADDR|IPv4|LLADDR)/) {
 			warn "pdb(`$type`) will use adb('GREEDY') which may match your messages differently.\n";
-- 
2.43.0


From 8916020ddc3dbb1ead0b4c0adda09f4e51c15bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:15 +0000
Subject: [PATCH 20/22] fix: pdb2adb does not stumble over actions without a
 message

---
 utils/pdb2adb | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index d9819a4..0f4f920 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -131,6 +131,8 @@ sub action {
 	my ($twig, $action) = @_;
 	my $rule_id = $action -> parent('rule') -> id;
 	my $message = $action -> next_elt('message');
+	# e.g. an action that creates a context
+	return unless defined $message;
 	my $values = $message -> next_elt('values');
 	my $tags = $message -> next_elt('tags');
 	my (%value, %tag, %trigger, %condition, %inherit);
-- 
2.43.0


From d46898ec3a4a80688b03346dfaa1365172ec644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 21/22] fix: pdb2adb does not stumble over rules with examples
 and no pattern

---
 utils/pdb2adb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index 0f4f920..ee8513f 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -208,7 +208,7 @@ if ($opt -> patterns) {
 		if ($rule -> {tags}) {
 			%extra_tags = ( tags => $rule -> {tags})
 		}
-		if (@test_messages > 0 && @{$rule->{patterns}} > 1) {
+		if (@test_messages > 0 && @{$rule->{patterns} || []} > 1) {
 			warn "rule `${uuid}` has multiple patterns *and* test_messages. You must manually redistribute test_messages\n";
 		}
 		my $pattern_uuid = $uuid;
-- 
2.43.0


From 9858e137a521df08ab9033dea5dd19b30b663e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:33 +0000
Subject: [PATCH 22/22] fix: a test message that expects no tags at all passes
 for a pattern without tags

An empty list of expected tags passed if the pattern had tags and failed
if it had none.
---
 src/matcher/pattern/testmessage/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern/testmessage/message.rs b/src/matcher/pattern/testmessage/message.rs
index 7b912a9..719b82e 100644
--- a/src/matcher/pattern/testmessage/message.rs
+++ b/src/matcher/pattern/testmessage/message.rs
@@ -87,7 +87,7 @@ impl TestMessage {
                 try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
                                                                       got_tags,
                                                                       result));
-            } else {
+            } else if !expected_tags.is_empty() {
                 return Err(self.report_unexpected_tags_error(result));
             }
         }
-- 
2.43.0

