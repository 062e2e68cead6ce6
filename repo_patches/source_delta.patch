From 09957007bcd516ce7fedb8e89484c28dd61fd6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 01/36] fix: an empty TextRange compares equal to itself

---
 fall/text/src/text_range.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fall/text/src/text_range.rs b/fall/text/src/text_range.rs
index 1b87fc4..72fa95c 100644
--- a/fall/text/src/text_range.rs
+++ b/fall/text/src/text_range.rs
@@ -113,12 +113,12 @@ impl ops::Index<TextRange> for String {
 
 impl PartialOrd for TextRange {
     fn partial_cmp(&self, other: &TextRange) -> Option<Ordering> {
-        if self.end() <= other.start() {
+        if self == other {
+            Some(Ordering::Equal)
+        } else if self.end() <= other.start() {
             Some(Ordering::Less)
         } else if other.end() <= self.start() {
             Some(Ordering::Greater)
-        } else if self == other {
-            Some(Ordering::Equal)
         } else {
             None
         }
-- 
2.43.0


From bc4cbe7e8fc1a0c73bc6842b28ecc700bf81c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 02/36] fix: a text the start rule rejects parses to an error
 instead of a panic

---
 fall/parse/src/syn_engine/expr.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 1e2d304..cea96f1 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -20,7 +20,19 @@ pub(crate) fn parse(
     let (mut parser, pos) = Parser::new(prev, &grammar, &is_ws, text, tokens);
 
     let start_rule = parser.grammar.start_rule;
-    let mut leftover = parse_expr(&mut parser, start_rule, pos).unwrap();
+    let mut leftover = match parse_expr(&mut parser, start_rule, pos) {
+        Some(leftover) => leftover,
+        None => {
+            // The text does not match the start rule at all:
+            // produce a file node with everything in an error
+            match grammar[start_rule] {
+                Expr::Pub { ty, .. } => parser.start(ty),
+                _ => unreachable!(),
+            };
+            parser.finish();
+            pos
+        }
+    };
     if !leftover.is_empty() {
         parser.reopen();
         parser.start_error();
-- 
2.43.0


From 804b5e27876ba71d50257891ab958f6d45213172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 03/36] fix: lookahead over replaceable, injected and Pratt
 nodes does not touch the events

---
 fall/parse/src/syn_engine/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 25f40d5..d6109e0 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -150,6 +150,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
+        if self.predicate_mode {
+            return;
+        }
         let ty = self[ty_idx];
         match self.events[mark.0 as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
@@ -158,6 +161,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn forward_parent(&mut self, child: Mark, parent: Mark) {
+        if self.predicate_mode {
+            return;
+        }
         match self.events[child.0 as usize] {
             Event::Start { ref mut forward_parent, .. } =>
                 *forward_parent = Some(parent.0 - child.0),
-- 
2.43.0


From adc0bdda54df42dc7945b273b39f4264a28ddfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 04/36] fix: abandoned alternatives and lookahead leave no
 trace in prev/replaces

---
 fall/parse/src/syn_engine/expr.rs   | 11 ++++++++---
 fall/parse/src/syn_engine/parser.rs | 29 ++++++++++++++++++++---------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index cea96f1..1a76d7e 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -60,7 +60,9 @@ pub(crate) fn parse_expr(p: &mut Parser, expr: ExprRef, tokens: Pos) -> Option<P
 fn parse_expr_pred(p: &mut Parser, expr: ExprRef, tokens: Pos) -> Option<Pos> {
     let old_mode = p.predicate_mode;
     p.predicate_mode = true;
+    let mark = p.mark();
     let result = parse_expr(p, expr, tokens);
+    p.rollback(mark);
     p.predicate_mode = old_mode;
     result
 }
@@ -141,14 +143,17 @@ fn parse_pub<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     ty_idx: NodeTypeRef, body: ExprRef, replaceable: bool,
 ) -> Option<Pos> {
+    let outer_replacement = p.replacement;
     if replaceable {
         p.replacement = None;
     }
     let mark = p.start(ty_idx);
     let ts = parse_expr(p, body, tokens)?;
-    if let (true, Some(ty)) = (replaceable, p.replacement) {
-        p.replacement = None;
-        p.replace(mark, ty)
+    if replaceable {
+        if let Some(ty) = p.replacement {
+            p.replace(mark, ty)
+        }
+        p.replacement = outer_replacement;
     };
     p.finish();
     p.prev = Some(p[ty_idx]);
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index d6109e0..c92a43a 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -34,7 +34,12 @@ impl Pos {
     }
 }
 
-pub(crate) struct Mark(u32);
+/// A point in parsing to which it is possible to return.
+pub(crate) struct Mark {
+    event: u32,
+    replacement: Option<NodeTypeRef>,
+    prev: Option<NodeType>,
+}
 
 impl<'g> Parser<'g> {
     pub fn new(
@@ -119,8 +124,8 @@ impl<'g> Parser<'g> {
 
     pub fn finish_cached(&mut self, mark: Mark) {
         if !self.predicate_mode {
-            let len = self.events.len() as u32 - (mark.0 + 1);
-            match self.events[mark.0 as usize] {
+            let len = self.events.len() as u32 - (mark.event + 1);
+            match self.events[mark.event as usize] {
                 Event::Cached { ref mut n_events, .. } => *n_events = len,
                 _ => unreachable!(),
             }
@@ -137,7 +142,11 @@ impl<'g> Parser<'g> {
     }
 
     pub fn mark(&self) -> Mark {
-        Mark(self.events.len() as u32)
+        Mark {
+            event: self.events.len() as u32,
+            replacement: self.replacement,
+            prev: self.prev,
+        }
     }
 
     pub fn rollback(&mut self, mark: Mark) {
@@ -146,7 +155,9 @@ impl<'g> Parser<'g> {
             unsafe { xs.set_len(len) }
         }
 
-        truncate_fast(&mut self.events, mark.0 as usize);
+        truncate_fast(&mut self.events, mark.event as usize);
+        self.replacement = mark.replacement;
+        self.prev = mark.prev;
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
@@ -154,7 +165,7 @@ impl<'g> Parser<'g> {
             return;
         }
         let ty = self[ty_idx];
-        match self.events[mark.0 as usize] {
+        match self.events[mark.event as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
             _ => unreachable!()
         }
@@ -164,9 +175,9 @@ impl<'g> Parser<'g> {
         if self.predicate_mode {
             return;
         }
-        match self.events[child.0 as usize] {
+        match self.events[child.event as usize] {
             Event::Start { ref mut forward_parent, .. } =>
-                *forward_parent = Some(parent.0 - child.0),
+                *forward_parent = Some(parent.event - child.event),
             _ => unreachable!(),
         }
     }
@@ -218,7 +229,7 @@ impl<'g> Parser<'g> {
     }
 
     fn start_ty(&mut self, ty: NodeType) -> Mark {
-        let mark = Mark(self.events.len() as u32);
+        let mark = self.mark();
         self.event(Event::Start { ty, forward_parent: None });
         mark
     }
-- 
2.43.0


From ffc2f64d4ebc2b02648cba62a3cc242e18302565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 05/36] fix: reparsing does not look up cached nodes past the
 end or during lookahead

---
 fall/parse/src/syn_engine/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index c92a43a..2551d50 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -105,11 +105,20 @@ impl<'g> Parser<'g> {
     }
 
     pub fn get_from_cache(&mut self, expr: ExprRef, pos: Pos) -> Option<Pos> {
+        if pos.is_empty() {
+            return None;
+        }
         if let Some((ref cache, events)) = self.cache {
             let text_pos = self.non_ws_indexes[pos.0 as usize].0;
             if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
-                self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
-                return Some(Pos(pos.0 + n_tokens, pos.1));
+                let end = Pos(pos.0 + n_tokens, pos.1);
+                if end.0 > end.1 {
+                    return None;
+                }
+                if !self.predicate_mode {
+                    self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                }
+                return Some(end);
             }
         }
 
-- 
2.43.0


From 2d2d0f354c6a2741a0d495421838ae472c9ccc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 06/36] fix: an empty text the start rule rejects gets an error
 node too

---
 fall/parse/src/syn_engine/expr.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 1a76d7e..41c3bf1 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -20,20 +20,18 @@ pub(crate) fn parse(
     let (mut parser, pos) = Parser::new(prev, &grammar, &is_ws, text, tokens);
 
     let start_rule = parser.grammar.start_rule;
-    let mut leftover = match parse_expr(&mut parser, start_rule, pos) {
-        Some(leftover) => leftover,
-        None => {
-            // The text does not match the start rule at all:
-            // produce a file node with everything in an error
-            match grammar[start_rule] {
-                Expr::Pub { ty, .. } => parser.start(ty),
-                _ => unreachable!(),
-            };
-            parser.finish();
-            pos
-        }
-    };
-    if !leftover.is_empty() {
+    let result = parse_expr(&mut parser, start_rule, pos);
+    if result.is_none() {
+        // The text does not match the start rule at all:
+        // produce a file node with everything in an error
+        match grammar[start_rule] {
+            Expr::Pub { ty, .. } => parser.start(ty),
+            _ => unreachable!(),
+        };
+        parser.finish();
+    }
+    let mut leftover = result.unwrap_or(pos);
+    if result.is_none() || !leftover.is_empty() {
         parser.reopen();
         parser.start_error();
         while let Some((_, ts)) = parser.bump(leftover) {
-- 
2.43.0


From 02183b9c48395a4c285d921e48fcc1c2a48c545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 07/36] fix: Rust casts bind looser than unary operators; <<=,
 >>=, & & and | | are told apart

---
 lang/rust/syntax/src/rust.fall | 8 ++++----
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index d2dcbd2..b26ebb4 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1010,7 +1010,7 @@ test r"
 fn main() { -x??; }
 "
 
-#[postfix]
+#[postfix(12)]
 pub rule cast_expr {
   expr {'as' type_reference}
 }
@@ -1055,7 +1055,7 @@ rule binop(op) {
 
 #[bin(8)]
 pub rule bit_and {
-  expr <binop {'&' <not '&'>}> expr
+  expr <binop {<not '&&'> '&'}> expr
 }
 
 #[bin(7)]
@@ -1065,7 +1065,7 @@ pub rule bit_xor {
 
 #[bin(6)]
 pub rule bit_or {
-  expr <binop {'|' <not '|'>}> expr
+  expr <binop {<not '||'> '|'}> expr
 }
 
 #[bin(5)]
@@ -1074,7 +1074,7 @@ pub rule comparison {
 }
 
 rule cmp_op {
-  '==' | '!=' | '<' | '>' | '<=' | '>='
+  '==' | '!=' | <not {'<<=' | '>>='}> {'<' | '>'} | '<=' | '>='
 }
 
 #[bin(4)]
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 223c058..6431235 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":283,"replaceable":false}},{"Pub":{"ty":103,"body":302,"replaceable":false}},{"Pub":{"ty":104,"body":307,"replaceable":false}},{"Pub":{"ty":105,"body":310,"replaceable":false}},{"Pub":{"ty":106,"body":317,"replaceable":false}},{"Pub":{"ty":107,"body":330,"replaceable":false}},{"Pub":{"ty":108,"body":339,"replaceable":false}},{"Pub":{"ty":109,"body":352,"replaceable":false}},{"Pub":{"ty":110,"body":360,"replaceable":false}},{"Pub":{"ty":111,"body":372,"replaceable":false}},{"Or":[373,374,375,376]},{"Or":[378,380,382,384,386,388,390,392,397]},{"Pub":{"ty":112,"body":407,"replaceable":false}},{"Pub":{"ty":113,"body":421,"replaceable":false}},{"Pub":{"ty":114,"body":425,"replaceable":false}},{"Pub":{"ty":115,"body":429,"replaceable":false}},{"Or":[437]},{"Pub":{"ty":116,"body":444,"replaceable":false}},{"Pub":{"ty":117,"body":448,"replaceable":false}},{"Or":[468]},{"Pub":{"ty":118,"body":473,"replaceable":false}},{"Pub":{"ty":119,"body":493,"replaceable":false}},{"Pub":{"ty":120,"body":503,"replaceable":false}},{"Pub":{"ty":121,"body":518,"replaceable":false}},{"Or":[519]},{"Or":[521]},{"Or":[523]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":526,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":530,"replaceable":false}},{"Pub":{"ty":122,"body":535,"replaceable":false}},{"Pub":{"ty":123,"body":542,"replaceable":false}},{"Pub":{"ty":124,"body":556,"replaceable":false}},{"Pub":{"ty":125,"body":582,"replaceable":false}},{"Pub":{"ty":126,"body":587,"replaceable":false}},{"Pub":{"ty":127,"body":591,"replaceable":false}},{"Pub":{"ty":128,"body":597,"replaceable":false}},{"Or":[598,599,600,601,602,603,604,605,606,607]},{"Pub":{"ty":129,"body":609,"replaceable":false}},{"Pub":{"ty":130,"body":611,"replaceable":false}},{"Pub":{"ty":131,"body":619,"replaceable":false}},{"Pub":{"ty":132,"body":622,"replaceable":false}},{"Pub":{"ty":133,"body":626,"replaceable":false}},{"Pub":{"ty":134,"body":632,"replaceable":true}},{"PubReplace":{"ty":135,"body":636}},{"Pub":{"ty":136,"body":639,"replaceable":false}},{"Pub":{"ty":137,"body":648,"replaceable":false}},{"Pub":{"ty":138,"body":655,"replaceable":false}},{"Pub":{"ty":100,"body":661,"replaceable":false}},{"Pub":{"ty":139,"body":664,"replaceable":false}},{"Or":[665,666,667,668,669,670,671]},{"Pub":{"ty":140,"body":674,"replaceable":false}},{"Pub":{"ty":141,"body":680,"replaceable":true}},{"PubReplace":{"ty":142,"body":692}},{"PubReplace":{"ty":143,"body":704}},{"Pub":{"ty":144,"body":711,"replaceable":false}},{"Pub":{"ty":145,"body":718,"replaceable":false}},{"Pub":{"ty":146,"body":720,"replaceable":false}},{"Pub":{"ty":147,"body":724,"replaceable":false}},{"Pub":{"ty":148,"body":730,"replaceable":true}},{"PubReplace":{"ty":149,"body":734}},{"Pub":{"ty":150,"body":739,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":768,"priority":999},{"ty":186,"op":769,"priority":999},{"ty":187,"op":770,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":745,"priority":999,"has_rhs":false},{"ty":178,"op":754,"priority":999,"has_rhs":false},{"ty":180,"op":762,"priority":999,"has_rhs":false},{"ty":181,"op":763,"priority":999,"has_rhs":false},{"ty":182,"op":764,"priority":999,"has_rhs":false},{"ty":183,"op":767,"priority":999,"has_rhs":false},{"ty":188,"op":778,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":796,"priority":8,"has_rhs":true},{"ty":192,"op":798,"priority":7,"has_rhs":true},{"ty":193,"op":804,"priority":6,"has_rhs":true},{"ty":194,"op":805,"priority":5,"has_rhs":true},{"ty":195,"op":807,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":810,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":834,"priority":1,"has_rhs":true}]}},{"Or":[835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885]},{"Or":[887]},{"Or":[891]},{"Pub":{"ty":152,"body":902,"replaceable":false}},{"Pub":{"ty":153,"body":910,"replaceable":true}},{"PubReplace":{"ty":154,"body":923}},{"Pub":{"ty":155,"body":930,"replaceable":false}},{"Pub":{"ty":156,"body":934,"replaceable":false}},{"Pub":{"ty":157,"body":941,"replaceable":true}},{"PubReplace":{"ty":158,"body":946}},{"Pub":{"ty":159,"body":959,"replaceable":false}},{"Pub":{"ty":160,"body":971,"replaceable":false}},{"Or":[979]},{"Pub":{"ty":161,"body":983,"replaceable":false}},{"Pub":{"ty":162,"body":992,"replaceable":false}},{"Pub":{"ty":163,"body":1002,"replaceable":false}},{"Or":[1003,1004,1005,1006]},{"Or":[1008,1010,1011,1012]},{"Pub":{"ty":164,"body":1021,"replaceable":false}},{"Pub":{"ty":165,"body":1024,"replaceable":false}},{"Pub":{"ty":166,"body":1027,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1087,"replaceable":false}},{"Or":[1093]},{"Pub":{"ty":174,"body":1096,"replaceable":false}},{"Pub":{"ty":175,"body":1098,"replaceable":false}},{"Pub":{"ty":176,"body":1100,"replaceable":false}},{"Pub":{"ty":177,"body":1108,"replaceable":false}},{"Pub":{"ty":178,"body":1119,"replaceable":false}},{"Or":[1123]},{"Pub":{"ty":179,"body":1125,"replaceable":false}},{"Pub":{"ty":180,"body":1135,"replaceable":false}},{"Pub":{"ty":181,"body":1138,"replaceable":false}},{"Pub":{"ty":182,"body":1141,"replaceable":false}},{"Pub":{"ty":183,"body":1146,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1181,"replaceable":false}},{"Pub":{"ty":190,"body":1189,"replaceable":false}},{"Or":[1193,1197]},{"Pub":{"ty":191,"body":1205,"replaceable":false}},{"Pub":{"ty":192,"body":1209,"replaceable":false}},{"Pub":{"ty":193,"body":1217,"replaceable":false}},{"Pub":{"ty":194,"body":1220,"replaceable":false}},{"Or":[1222,1224,1226,1228,1230,1232]},{"Pub":{"ty":195,"body":1236,"replaceable":false}},{"Pub":{"ty":196,"body":1240,"replaceable":false}},{"Pub":{"ty":197,"body":1243,"replaceable":false}},{"Pub":{"ty":197,"body":1245,"replaceable":false}},{"Pub":{"ty":197,"body":1247,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Or":[1253,1255]},{"Or":[1263]},{"Pub":{"ty":198,"body":1289,"replaceable":false}},{"Pub":{"ty":199,"body":1292,"replaceable":false}},{"Pub":{"ty":200,"body":1296,"replaceable":false}},{"Or":[1299]},{"Or":[1301]},{"Pub":{"ty":201,"body":1311,"replaceable":false}},{"Pub":{"ty":202,"body":1319,"replaceable":false}},{"Pub":{"ty":203,"body":1334,"replaceable":false}},{"Pub":{"ty":204,"body":1363,"replaceable":false}},{"Or":[1373]},{"Or":[1378]},{"Or":[1383]},{"Or":[1388]},{"Or":[1393]},{"Or":[1401]},{"Or":[1416]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":59},{"And":[[273,49],null]},{"Or":[274]},{"Opt":275},{"Token":61},{"And":[[277],null]},"Eof",{"And":[[279],null]},{"Or":[278,280]},{"And":[[271,272,276,281],2]},{"Or":[282]},{"Token":11},{"And":[[284],null]},{"ContextualToken":[4,"union"]},{"And":[[286],null]},{"Or":[285,287]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,291]]]},{"And":[[292],null]},{"Token":58},{"And":[[294],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,296]]]},{"Token":58},{"And":[[297,298],null]},{"Or":[293,295,299]},{"And":[[288,289,290,300],1]},{"Or":[301]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[303,304,305,49],2]},{"Or":[306]},{"Opt":36},{"And":[[308,49],null]},{"Or":[309]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,314]]]},{"And":[[311,312,313,315],1]},{"Or":[316]},{"Token":92},{"Token":53},{"And":[[319,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,321]]]},{"And":[[322],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,324]]]},{"And":[[325],null]},{"Or":[320,323,326]},{"Opt":327},{"And":[[318,328],1]},{"Or":[329]},{"Token":13},{"Token":92},{"Token":58},{"And":[[333],null]},{"Call":[151,[[3,1]]]},{"And":[[335],null]},{"Or":[334,336]},{"And":[[331,332,337],1]},{"Or":[338]},{"Token":35},{"Opt":340},{"Token":17},{"Opt":31},{"Token":23},{"And":[[344,49],null]},{"Or":[345]},{"Opt":346},{"And":[[49,347],null]},{"Or":[348]},{"Opt":37},{"And":[[341,342,343,349,350,23],2]},{"Or":[351]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,353,354,355,356,357,358,23],3]},{"Or":[359]},{"Opt":36},{"And":[[145,361],null]},{"Or":[362]},{"Inject":[363,24]},{"And":[[364],null]},{"And":[[28],null]},{"Or":[365,366]},{"WithSkip":[25,367]},{"Rep":368},{"Call":[151,[[3,369]]]},{"And":[[370],null]},{"Or":[371]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[377],null]},{"Token":8},{"And":[[379],null]},{"Token":20},{"And":[[381],null]},{"Token":21},{"And":[[383],null]},{"Token":22},{"And":[[385],null]},{"Token":35},{"And":[[387],null]},{"Token":65},{"And":[[389],null]},{"Token":7},{"And":[[391],null]},{"Token":92},{"Token":82},{"And":[[393,394],null]},{"Or":[395]},{"And":[[396],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[401,49],null]},{"Or":[402]},{"Opt":403},{"Token":58},{"And":[[398,399,400,404,405],1]},{"Or":[406]},{"Token":21},{"And":[[408],null]},{"Token":22},{"And":[[410],null]},{"Or":[409,411]},{"Token":92},{"Token":59},{"Token":53},{"And":[[415,75],null]},{"Or":[416]},{"Opt":417},{"Token":58},{"And":[[412,413,414,49,418,419],1]},{"Or":[420]},{"And":[[147],null]},{"Token":58},{"And":[[148,423],null]},{"Or":[422,424]},{"Rep":30},{"Call":[151,[[3,426]]]},{"And":[[10,427],null]},{"Or":[428]},{"Opt":36},{"And":[[145,430],null]},{"Or":[431]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[433,434]},{"Inject":[432,435]},{"And":[[436],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[438,439],null]},{"Or":[440]},{"Call":[153,[[5,441]]]},{"And":[[442],null]},{"Or":[443]},{"Token":92},{"Opt":33},{"And":[[445,446],1]},{"Or":[447]},{"Token":59},{"Token":73},{"And":[[450],null]},"Eof",{"And":[[452],null]},{"Token":61},{"And":[[454],null]},{"Token":39},{"And":[[456],null]},{"Token":36},{"And":[[458],null]},{"Or":[455,457,459]},{"Not":460},{"Not":461},{"And":[[462],null]},{"Or":[451,453,463]},{"And":[[34,464],1]},{"Or":[465]},{"Rep":466},{"And":[[449,467],null]},{"Token":87},{"And":[[469],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[470,471,472]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[477],null]},"Eof",{"And":[[479],null]},{"Token":61},{"Not":481},{"Not":482},{"And":[[483],null]},{"Or":[478,480,484]},{"And":[[476,485],1]},{"Or":[486]},{"Rep":487},{"And":[[475,488],null]},{"Or":[489]},{"Opt":490},{"And":[[474,491],1]},{"Or":[492]},{"Token":10},{"Token":6},{"And":[[495],null]},{"Token":19},{"And":[[497],null]},{"Or":[496,498]},{"Call":[152,[[4,499]]]},{"Opt":500},{"And":[[494,501],null]},{"Or":[502]},{"Token":36},{"Token":61},{"And":[[505],null]},"Eof",{"And":[[507],null]},{"Token":39},{"Not":509},{"Not":510},{"And":[[511],null]},{"Or":[506,508,512]},{"And":[[49,33,513],null]},{"Or":[514]},{"Rep":515},{"And":[[504,516],1]},{"Or":[517]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[520],null]},{"Enter":[1,41]},{"And":[[522],null]},{"Token":60},{"And":[[524,45],null]},{"Or":[525]},{"Token":60},{"Opt":527},{"And":[[528,45],null]},{"Or":[529]},{"Token":60},{"And":[[531,45],null]},{"Or":[532]},{"And":[[41,533],null]},{"Or":[534]},{"Token":5},{"And":[[49,536,49],null]},{"Or":[537]},{"Call":[153,[[5,538]]]},{"Token":60},{"And":[[539,540,45],null]},{"Or":[541]},{"Token":92},{"And":[[543],null]},{"Token":18},{"And":[[545],null]},{"Token":19},{"And":[[547],null]},{"Or":[544,546,548]},{"And":[[46],null]},{"IsIn":3},{"And":[[551,47],null]},{"Or":[550,552]},{"Opt":553},{"And":[[549,554],null]},{"Or":[555]},{"IsIn":3},{"And":[[557],null]},{"IsIn":1},{"Token":60},{"And":[[559,560],null]},{"Or":[558,561]},{"Token":87},{"Call":[150,[[2,563]]]},{"Token":92},{"Token":53},{"And":[[565,566],null]},{"Or":[567]},{"Not":568},{"And":[[569,49],null]},{"Or":[570]},{"Call":[150,[[2,571]]]},{"Token":92},{"Token":53},{"And":[[573,574,49],null]},{"Or":[575]},{"Call":[150,[[2,576]]]},{"And":[[564,572,577],null]},{"Or":[578]},{"Call":[153,[[5,579]]]},{"And":[[562,580],null]},{"Or":[581]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,583]]]},{"Opt":9},{"And":[[584,585],null]},{"Or":[586]},{"Token":5},{"Token":92},{"And":[[588,589],null]},{"Or":[590]},{"Token":73},{"And":[[592,34],null]},{"Or":[593]},{"Rep":594},{"And":[[50,595],null]},{"Or":[596]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[608]},{"And":[[120,49],null]},{"Or":[610]},{"Token":67},{"Token":21},{"And":[[613],null]},{"Token":27},{"And":[[615],null]},{"Or":[614,616]},{"And":[[612,617,49],null]},{"Or":[618]},{"Token":81},{"And":[[620],null]},{"Or":[621]},{"Token":37},{"Token":38},{"And":[[623,624],null]},{"Or":[625]},{"Opt":57},{"And":[[49,627],null]},{"Or":[628]},{"Call":[152,[[4,629]]]},{"And":[[630],null]},{"Or":[631]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[633,634],null]},{"Or":[635]},{"Token":82},{"And":[[637],null]},{"Or":[638]},{"Token":58},{"And":[[640,75],null]},{"Or":[641]},{"Opt":642},{"And":[[49,643],null]},{"Or":[644]},{"Call":[154,[[6,645]]]},{"And":[[646],null]},{"Or":[647]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,651]]]},{"Opt":9},{"And":[[649,650,652,653],2]},{"Or":[654]},{"Token":59},{"And":[[63,656],null]},{"Or":[657]},{"Opt":658},{"And":[[659,49],null]},{"Or":[660]},{"Token":23},{"And":[[662,31,49],1]},{"Or":[663]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[672],null]},{"Or":[673]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[675,676]},{"Opt":677},{"And":[[40,678],null]},{"Or":[679]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":683},{"And":[[682,684],null]},{"Or":[685]},{"Opt":686},{"And":[[681,687],null]},{"Or":[688]},{"Call":[152,[[4,689]]]},{"And":[[690],null]},{"Or":[691]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[151,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Token":59},{"Not":705},{"And":[[69,706],null]},{"Token":92},{"Token":59},{"And":[[708,709,63],2]},{"Or":[707,710]},{"Token":28},{"Opt":712},{"Token":27},{"Opt":714},{"Token":92},{"And":[[713,715,716],null]},{"Or":[717]},{"And":[[79],null]},{"Or":[719]},{"Token":37},{"Token":38},{"And":[[721,722],null]},{"Or":[723]},{"Opt":73},{"And":[[63,725],null]},{"Or":[726]},{"Call":[152,[[4,727]]]},{"And":[[728],null]},{"Or":[729]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[731,732],null]},{"Or":[733]},{"Token":77},{"Token":27},{"Opt":736},{"And":[[735,737,63],null]},{"Or":[738]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":742},{"And":[[740,741,743,113],null]},{"Or":[744]},{"IsIn":2},{"Not":77},{"And":[[746,747],null]},{"IsIn":2},{"Not":749},{"And":[[750],null]},{"Or":[748,751]},{"And":[[752,113],null]},{"Or":[753]},{"Token":62},{"Token":92},{"And":[[756],null]},{"Token":89},{"And":[[758],null]},{"Or":[757,759]},{"And":[[755,760],null]},{"Or":[761]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[765,49],null]},{"Or":[766]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[771],null]},{"Token":69},{"And":[[773],null]},{"Token":71},{"And":[[775],null]},{"Or":[772,774,776]},{"Call":[127,[[1,777]]]},{"Token":73},{"And":[[779],null]},{"Token":75},{"And":[[781],null]},{"Or":[780,782]},{"Call":[127,[[1,783]]]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"Call":[127,[[1,789]]]},{"Token":77},{"Token":77},{"Not":792},{"And":[[791,793],null]},{"Or":[794]},{"Call":[127,[[1,795]]]},{"Token":84},{"Call":[127,[[1,797]]]},{"Token":79},{"Token":79},{"Not":800},{"And":[[799,801],null]},{"Or":[802]},{"Call":[127,[[1,803]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,806]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,808]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[811],null]},{"Token":74},{"And":[[813],null]},{"Token":76},{"And":[[815],null]},{"Token":68},{"And":[[817],null]},{"Token":70},{"And":[[819],null]},{"Token":72},{"And":[[821],null]},{"Token":78},{"And":[[823],null]},{"Token":80},{"And":[[825],null]},{"Token":85},{"And":[[827],null]},{"ContextualToken":[48,">>="]},{"And":[[829],null]},{"ContextualToken":[46,"<<="]},{"And":[[831],null]},{"Or":[812,814,816,818,820,822,824,826,828,830,832]},{"Call":[127,[[1,833]]]},{"And":[[79],null]},{"Token":92},{"And":[[836],null]},{"Token":87},{"And":[[838],null]},{"Token":18},{"And":[[840],null]},{"Token":19},{"And":[[842],null]},{"Token":41},{"And":[[844],null]},{"Token":60},{"And":[[846],null]},{"Token":37},{"And":[[848],null]},{"Token":43},{"And":[[850],null]},{"Token":79},{"And":[[852],null]},{"Token":31},{"And":[[854],null]},{"Token":39},{"And":[[856],null]},{"Token":14},{"And":[[858],null]},{"Token":25},{"And":[[860],null]},{"Token":24},{"And":[[862],null]},{"Token":23},{"And":[[864],null]},{"Token":30},{"And":[[866],null]},{"Token":26},{"And":[[868],null]},{"Token":32},{"And":[[870],null]},{"Token":33},{"And":[[872],null]},{"Token":77},{"And":[[874],null]},{"Token":67},{"And":[[876],null]},{"Token":75},{"And":[[878],null]},{"Token":82},{"And":[[880],null]},{"Token":63},{"And":[[882],null]},{"Token":64},{"And":[[884],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[886],null]},{"Var":0},{"Exit":[2,888]},{"Exit":[0,889]},{"And":[[890],null]},{"Token":89},{"And":[[892],null]},{"Token":90},{"And":[[894],null]},{"Token":91},{"And":[[896],null]},{"Token":86},{"And":[[898],null]},{"Token":88},{"And":[[900],null]},{"Or":[893,895,897,899,901]},{"Token":92},{"Token":82},{"And":[[903,904],null]},{"Or":[905]},{"Not":906},{"Opt":81},{"And":[[907,40,908],null]},{"Or":[909]},{"IsIn":0},{"Not":911},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[914,915],null]},{"Or":[916]},{"Opt":917},{"And":[[913,918],null]},{"Or":[919]},{"Call":[151,[[3,920]]]},{"And":[[912,921],null]},{"Or":[922]},{"Token":92},{"Token":59},{"And":[[925,75],null]},{"Or":[926]},{"Opt":927},{"And":[[924,928],1]},{"Or":[929]},{"Token":37},{"Token":38},{"And":[[931,932],null]},{"Or":[933]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[935,936],null]},{"Or":[937]},{"Call":[152,[[4,938]]]},{"And":[[939],null]},{"Or":[940]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,943]]]},{"And":[[942,944],null]},{"Or":[945]},{"Token":58},{"And":[[947,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[949,950],null]},{"Or":[948,951]},{"Opt":952},{"And":[[75,953],null]},{"Or":[954]},{"Call":[78,[[0,955]]]},{"Call":[154,[[6,956]]]},{"And":[[957],null]},{"Or":[958]},{"Token":26},{"Opt":960},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[965,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[967],null]},{"Or":[966,968]},{"And":[[961,962,963,964,969],null]},{"Or":[970]},{"Token":61},{"And":[[972],null]},{"Token":79},{"Not":974},{"Not":975},{"And":[[976],null]},{"Or":[973,977]},{"And":[[13,978],1]},{"Token":31},{"Opt":75},{"And":[[980,981],null]},{"Or":[982]},{"Token":33},{"And":[[984],null]},{"Token":32},{"And":[[986],null]},{"Or":[985,987]},{"Token":87},{"Opt":989},{"And":[[988,990],null]},{"Or":[991]},{"Token":35},{"Opt":993},{"WithSkip":[93,92]},{"Rep":995},{"Call":[151,[[3,996]]]},{"And":[[994,997],null]},{"Or":[998]},{"Call":[78,[[0,999]]]},{"And":[[1000],null]},{"Or":[1001]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1007],null]},{"Token":58},{"And":[[1009],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1015,75],1]},{"Or":[1016]},{"Opt":1017},{"Token":58},{"And":[[1013,63,1014,1018,1019],1]},{"Or":[1020]},{"Token":59},{"And":[[1022,49],null]},{"Or":[1023]},{"Token":58},{"And":[[1025],null]},{"Or":[1026]},{"And":[[77],null]},"Eof",{"And":[[1029],null]},{"Token":58},{"And":[[1031],null]},{"Or":[1028,1030,1032]},{"And":[[75,1033],1]},{"Or":[1034]},{"Enter":[2,1035]},{"And":[[1036],null]},{"Or":[1037]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,100,91,1046],1]},{"Or":[1047]},{"Opt":104},{"Token":25},{"And":[[1049,1050,100,91],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,63,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,101],1]},{"Enter":[0,75]},{"And":[[1059],null]},{"Opt":104},{"Token":24},{"And":[[1061,1062,91],2]},{"Or":[1063]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1065,1066,63,1067,101,91],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1074]]]},{"And":[[1073,101,1075],1]},{"Or":[1076]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1080],null]},"Eof",{"And":[[1082],null]},{"And":[[77],null]},{"Or":[1081,1083,1084]},{"And":[[107,1078,1079,1085],1]},{"Or":[1086]},{"Token":79},{"And":[[1088,63],null]},{"Or":[1089]},{"Rep":1090},{"Opt":108},{"And":[[63,1091,1092],null]},{"Token":14},{"And":[[1094,75],null]},{"Or":[1095]},{"And":[[147],null]},{"Or":[1097]},{"And":[[148],null]},{"Or":[1099]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1103},{"And":[[1101,1102,1104,113],null]},{"Or":[1105]},{"And":[[75,1106],null]},{"Or":[1107]},{"IsIn":2},{"Not":77},{"And":[[1109,1110],null]},{"IsIn":2},{"Not":1112},{"And":[[1113],null]},{"Or":[1111,1114]},{"And":[[1115,113],null]},{"Or":[1116]},{"And":[[75,1117],null]},{"Or":[1118]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1120]]]},{"Call":[78,[[0,1121]]]},{"And":[[1122],null]},{"And":[[75],null]},{"Or":[1124]},{"Token":62},{"Token":92},{"And":[[1127],null]},{"Token":89},{"And":[[1129],null]},{"Or":[1128,1130]},{"And":[[1126,1131],null]},{"Or":[1132]},{"And":[[75,1133],null]},{"Or":[1134]},{"Call":[154,[[6,75]]]},{"And":[[75,1136],null]},{"Or":[1137]},{"Token":83},{"And":[[75,1139],null]},{"Or":[1140]},{"Token":5},{"And":[[1142,49],null]},{"Or":[1143]},{"And":[[75,1144],null]},{"Or":[1145]},{"And":[[120,75],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,75],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,75],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,75],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"Call":[127,[[1,1170]]]},{"And":[[75,1171,75],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"Call":[127,[[1,1178]]]},{"And":[[75,1179,75],null]},{"Or":[1180]},{"ContextualToken":[45,"<<"]},{"And":[[1182],null]},{"ContextualToken":[47,">>"]},{"And":[[1184],null]},{"Or":[1183,1185]},{"Call":[127,[[1,1186]]]},{"And":[[75,1187,75],null]},{"Or":[1188]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1190,1191,1192],null]},{"IsIn":2},{"Not":1194},{"Var":1},{"And":[[1195,1196],null]},{"Token":77},{"Token":77},{"Not":1199},{"And":[[1198,1200],null]},{"Or":[1201]},{"Call":[127,[[1,1202]]]},{"And":[[75,1203,75],null]},{"Or":[1204]},{"Token":84},{"Call":[127,[[1,1206]]]},{"And":[[75,1207,75],null]},{"Or":[1208]},{"Token":79},{"Token":79},{"Not":1211},{"And":[[1210,1212],null]},{"Or":[1213]},{"Call":[127,[[1,1214]]]},{"And":[[75,1215,75],null]},{"Or":[1216]},{"Call":[127,[[1,132]]]},{"And":[[75,1218,75],null]},{"Or":[1219]},{"Token":54},{"And":[[1221],null]},{"Token":55},{"And":[[1223],null]},{"Token":41},{"And":[[1225],null]},{"Token":42},{"And":[[1227],null]},{"Token":57},{"And":[[1229],null]},{"Token":56},{"And":[[1231],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1233]]]},{"And":[[75,1234,75],null]},{"Or":[1235]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1237]]]},{"And":[[75,1238,75],null]},{"Or":[1239]},{"Call":[127,[[1,140]]]},{"And":[[75,1241,75],null]},{"Or":[1242]},{"And":[[140,75],null]},{"Or":[1244]},{"And":[[75,139],null]},{"Or":[1246]},{"Token":63},{"Not":76},{"And":[[1248,1249],null]},{"Or":[1250]},{"Token":63},{"And":[[1252],null]},{"Token":64},{"And":[[1254],null]},{"Not":76},{"Not":1256},{"Token":39},{"IsIn":0},{"And":[[1258,1259],null]},{"Or":[1260]},{"Not":1261},{"And":[[139,1257,1262],null]},{"Token":53},{"And":[[1264],null]},{"Token":74},{"And":[[1266],null]},{"Token":76},{"And":[[1268],null]},{"Token":68},{"And":[[1270],null]},{"Token":70},{"And":[[1272],null]},{"Token":72},{"And":[[1274],null]},{"Token":78},{"And":[[1276],null]},{"Token":80},{"And":[[1278],null]},{"Token":85},{"And":[[1280],null]},{"ContextualToken":[48,">>="]},{"And":[[1282],null]},{"ContextualToken":[46,"<<="]},{"And":[[1284],null]},{"Or":[1265,1267,1269,1271,1273,1275,1277,1279,1281,1283,1285]},{"Call":[127,[[1,1286]]]},{"And":[[75,1287,75],null]},{"Or":[1288]},{"Token":65},{"And":[[1290,144],null]},{"Or":[1291]},{"Token":65},{"Token":82},{"And":[[1293,1294,144],null]},{"Or":[1295]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1297]]]},{"And":[[1298],null]},{"Rep":142},{"And":[[1300],null]},{"Token":92},{"Token":53},{"And":[[1303,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1305]]]},{"And":[[1306],null]},{"Or":[1304,1307]},{"Opt":1308},{"And":[[1302,1309],1]},{"Or":[1310]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1314},{"Rep":149},{"Call":[151,[[3,1316]]]},{"And":[[1312,1313,1315,1317],null]},{"Or":[1318]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1322},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1324,1325,1326],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1328,1329,1330],null]},{"Or":[1327,1331]},{"And":[[1320,1321,1323,1332],null]},{"Or":[1333]},{"Token":37},{"And":[[1335],null]},{"Token":38},{"And":[[1337],null]},{"Token":39},{"And":[[1339],null]},{"Token":40},{"And":[[1341],null]},{"Token":43},{"And":[[1343],null]},{"Token":44},{"And":[[1345],null]},{"Or":[1336,1338,1340,1342,1344,1346]},{"Not":1347},"Any",{"And":[[1348,1349],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1351,1352,1353],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1355,1356,1357],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1359,1360,1361],null]},{"Or":[1350,1354,1358,1362]},{"Var":2},"Eof",{"And":[[1365],null]},{"Token":61},{"And":[[1367],null]},{"Or":[1366,1368]},{"And":[[1364,1369],1]},{"Or":[1370]},{"Rep":1371},{"And":[[1372],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1374],[8,1375],[9,1376]]]},{"And":[[1377],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1379],[8,1380],[9,1381]]]},{"And":[[1382],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1384],[8,1385],[9,1386]]]},{"And":[[1387],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1389],[8,1390],[9,1391]]]},{"And":[[1392],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1395],[11,1396]]]},{"Var":9},{"Layer":[1397,1398]},{"Var":8},{"And":[[1394,1399,1400],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1403],[11,1404]]]},{"Var":11},{"And":[[1402,1405,1406],1]},{"Var":11},{"Not":1408},"Any",{"And":[[1409,1410],null]},{"Or":[1411]},{"And":[[1412],null]},{"Or":[1407,1413]},{"Rep":1414},{"And":[[1415],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":283,"replaceable":false}},{"Pub":{"ty":103,"body":302,"replaceable":false}},{"Pub":{"ty":104,"body":307,"replaceable":false}},{"Pub":{"ty":105,"body":310,"replaceable":false}},{"Pub":{"ty":106,"body":317,"replaceable":false}},{"Pub":{"ty":107,"body":330,"replaceable":false}},{"Pub":{"ty":108,"body":339,"replaceable":false}},{"Pub":{"ty":109,"body":352,"replaceable":false}},{"Pub":{"ty":110,"body":360,"replaceable":false}},{"Pub":{"ty":111,"body":372,"replaceable":false}},{"Or":[373,374,375,376]},{"Or":[378,380,382,384,386,388,390,392,397]},{"Pub":{"ty":112,"body":407,"replaceable":false}},{"Pub":{"ty":113,"body":421,"replaceable":false}},{"Pub":{"ty":114,"body":425,"replaceable":false}},{"Pub":{"ty":115,"body":429,"replaceable":false}},{"Or":[437]},{"Pub":{"ty":116,"body":444,"replaceable":false}},{"Pub":{"ty":117,"body":448,"replaceable":false}},{"Or":[468]},{"Pub":{"ty":118,"body":473,"replaceable":false}},{"Pub":{"ty":119,"body":493,"replaceable":false}},{"Pub":{"ty":120,"body":503,"replaceable":false}},{"Pub":{"ty":121,"body":518,"replaceable":false}},{"Or":[519]},{"Or":[521]},{"Or":[523]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":526,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":530,"replaceable":false}},{"Pub":{"ty":122,"body":535,"replaceable":false}},{"Pub":{"ty":123,"body":542,"replaceable":false}},{"Pub":{"ty":124,"body":556,"replaceable":false}},{"Pub":{"ty":125,"body":582,"replaceable":false}},{"Pub":{"ty":126,"body":587,"replaceable":false}},{"Pub":{"ty":127,"body":591,"replaceable":false}},{"Pub":{"ty":128,"body":597,"replaceable":false}},{"Or":[598,599,600,601,602,603,604,605,606,607]},{"Pub":{"ty":129,"body":609,"replaceable":false}},{"Pub":{"ty":130,"body":611,"replaceable":false}},{"Pub":{"ty":131,"body":619,"replaceable":false}},{"Pub":{"ty":132,"body":622,"replaceable":false}},{"Pub":{"ty":133,"body":626,"replaceable":false}},{"Pub":{"ty":134,"body":632,"replaceable":true}},{"PubReplace":{"ty":135,"body":636}},{"Pub":{"ty":136,"body":639,"replaceable":false}},{"Pub":{"ty":137,"body":648,"replaceable":false}},{"Pub":{"ty":138,"body":655,"replaceable":false}},{"Pub":{"ty":100,"body":661,"replaceable":false}},{"Pub":{"ty":139,"body":664,"replaceable":false}},{"Or":[665,666,667,668,669,670,671]},{"Pub":{"ty":140,"body":674,"replaceable":false}},{"Pub":{"ty":141,"body":680,"replaceable":true}},{"PubReplace":{"ty":142,"body":692}},{"PubReplace":{"ty":143,"body":704}},{"Pub":{"ty":144,"body":711,"replaceable":false}},{"Pub":{"ty":145,"body":718,"replaceable":false}},{"Pub":{"ty":146,"body":720,"replaceable":false}},{"Pub":{"ty":147,"body":724,"replaceable":false}},{"Pub":{"ty":148,"body":730,"replaceable":true}},{"PubReplace":{"ty":149,"body":734}},{"Pub":{"ty":150,"body":739,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":768,"priority":999},{"ty":186,"op":769,"priority":999},{"ty":187,"op":770,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":745,"priority":999,"has_rhs":false},{"ty":178,"op":754,"priority":999,"has_rhs":false},{"ty":180,"op":762,"priority":999,"has_rhs":false},{"ty":181,"op":763,"priority":999,"has_rhs":false},{"ty":182,"op":764,"priority":999,"has_rhs":false},{"ty":183,"op":767,"priority":12,"has_rhs":false},{"ty":188,"op":778,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":796,"priority":8,"has_rhs":true},{"ty":192,"op":798,"priority":7,"has_rhs":true},{"ty":193,"op":804,"priority":6,"has_rhs":true},{"ty":194,"op":805,"priority":5,"has_rhs":true},{"ty":195,"op":807,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":810,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":834,"priority":1,"has_rhs":true}]}},{"Or":[835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885]},{"Or":[887]},{"Or":[891]},{"Pub":{"ty":152,"body":902,"replaceable":false}},{"Pub":{"ty":153,"body":910,"replaceable":true}},{"PubReplace":{"ty":154,"body":923}},{"Pub":{"ty":155,"body":930,"replaceable":false}},{"Pub":{"ty":156,"body":934,"replaceable":false}},{"Pub":{"ty":157,"body":941,"replaceable":true}},{"PubReplace":{"ty":158,"body":946}},{"Pub":{"ty":159,"body":959,"replaceable":false}},{"Pub":{"ty":160,"body":971,"replaceable":false}},{"Or":[979]},{"Pub":{"ty":161,"body":983,"replaceable":false}},{"Pub":{"ty":162,"body":992,"replaceable":false}},{"Pub":{"ty":163,"body":1002,"replaceable":false}},{"Or":[1003,1004,1005,1006]},{"Or":[1008,1010,1011,1012]},{"Pub":{"ty":164,"body":1021,"replaceable":false}},{"Pub":{"ty":165,"body":1024,"replaceable":false}},{"Pub":{"ty":166,"body":1027,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1087,"replaceable":false}},{"Or":[1093]},{"Pub":{"ty":174,"body":1096,"replaceable":false}},{"Pub":{"ty":175,"body":1098,"replaceable":false}},{"Pub":{"ty":176,"body":1100,"replaceable":false}},{"Pub":{"ty":177,"body":1108,"replaceable":false}},{"Pub":{"ty":178,"body":1119,"replaceable":false}},{"Or":[1123]},{"Pub":{"ty":179,"body":1125,"replaceable":false}},{"Pub":{"ty":180,"body":1135,"replaceable":false}},{"Pub":{"ty":181,"body":1138,"replaceable":false}},{"Pub":{"ty":182,"body":1141,"replaceable":false}},{"Pub":{"ty":183,"body":1146,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1181,"replaceable":false}},{"Pub":{"ty":190,"body":1189,"replaceable":false}},{"Or":[1193,1197]},{"Pub":{"ty":191,"body":1205,"replaceable":false}},{"Pub":{"ty":192,"body":1209,"replaceable":false}},{"Pub":{"ty":193,"body":1217,"replaceable":false}},{"Pub":{"ty":194,"body":1220,"replaceable":false}},{"Or":[1222,1224,1236,1238,1240]},{"Pub":{"ty":195,"body":1244,"replaceable":false}},{"Pub":{"ty":196,"body":1248,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1253,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Pub":{"ty":197,"body":1259,"replaceable":false}},{"Or":[1261,1263]},{"Or":[1271]},{"Pub":{"ty":198,"body":1297,"replaceable":false}},{"Pub":{"ty":199,"body":1300,"replaceable":false}},{"Pub":{"ty":200,"body":1304,"replaceable":false}},{"Or":[1307]},{"Or":[1309]},{"Pub":{"ty":201,"body":1319,"replaceable":false}},{"Pub":{"ty":202,"body":1327,"replaceable":false}},{"Pub":{"ty":203,"body":1342,"replaceable":false}},{"Pub":{"ty":204,"body":1371,"replaceable":false}},{"Or":[1381]},{"Or":[1386]},{"Or":[1391]},{"Or":[1396]},{"Or":[1401]},{"Or":[1409]},{"Or":[1424]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":59},{"And":[[273,49],null]},{"Or":[274]},{"Opt":275},{"Token":61},{"And":[[277],null]},"Eof",{"And":[[279],null]},{"Or":[278,280]},{"And":[[271,272,276,281],2]},{"Or":[282]},{"Token":11},{"And":[[284],null]},{"ContextualToken":[4,"union"]},{"And":[[286],null]},{"Or":[285,287]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,291]]]},{"And":[[292],null]},{"Token":58},{"And":[[294],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,296]]]},{"Token":58},{"And":[[297,298],null]},{"Or":[293,295,299]},{"And":[[288,289,290,300],1]},{"Or":[301]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[303,304,305,49],2]},{"Or":[306]},{"Opt":36},{"And":[[308,49],null]},{"Or":[309]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,314]]]},{"And":[[311,312,313,315],1]},{"Or":[316]},{"Token":92},{"Token":53},{"And":[[319,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,321]]]},{"And":[[322],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,324]]]},{"And":[[325],null]},{"Or":[320,323,326]},{"Opt":327},{"And":[[318,328],1]},{"Or":[329]},{"Token":13},{"Token":92},{"Token":58},{"And":[[333],null]},{"Call":[151,[[3,1]]]},{"And":[[335],null]},{"Or":[334,336]},{"And":[[331,332,337],1]},{"Or":[338]},{"Token":35},{"Opt":340},{"Token":17},{"Opt":31},{"Token":23},{"And":[[344,49],null]},{"Or":[345]},{"Opt":346},{"And":[[49,347],null]},{"Or":[348]},{"Opt":37},{"And":[[341,342,343,349,350,23],2]},{"Or":[351]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,353,354,355,356,357,358,23],3]},{"Or":[359]},{"Opt":36},{"And":[[145,361],null]},{"Or":[362]},{"Inject":[363,24]},{"And":[[364],null]},{"And":[[28],null]},{"Or":[365,366]},{"WithSkip":[25,367]},{"Rep":368},{"Call":[151,[[3,369]]]},{"And":[[370],null]},{"Or":[371]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[377],null]},{"Token":8},{"And":[[379],null]},{"Token":20},{"And":[[381],null]},{"Token":21},{"And":[[383],null]},{"Token":22},{"And":[[385],null]},{"Token":35},{"And":[[387],null]},{"Token":65},{"And":[[389],null]},{"Token":7},{"And":[[391],null]},{"Token":92},{"Token":82},{"And":[[393,394],null]},{"Or":[395]},{"And":[[396],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[401,49],null]},{"Or":[402]},{"Opt":403},{"Token":58},{"And":[[398,399,400,404,405],1]},{"Or":[406]},{"Token":21},{"And":[[408],null]},{"Token":22},{"And":[[410],null]},{"Or":[409,411]},{"Token":92},{"Token":59},{"Token":53},{"And":[[415,75],null]},{"Or":[416]},{"Opt":417},{"Token":58},{"And":[[412,413,414,49,418,419],1]},{"Or":[420]},{"And":[[147],null]},{"Token":58},{"And":[[148,423],null]},{"Or":[422,424]},{"Rep":30},{"Call":[151,[[3,426]]]},{"And":[[10,427],null]},{"Or":[428]},{"Opt":36},{"And":[[145,430],null]},{"Or":[431]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[433,434]},{"Inject":[432,435]},{"And":[[436],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[438,439],null]},{"Or":[440]},{"Call":[153,[[5,441]]]},{"And":[[442],null]},{"Or":[443]},{"Token":92},{"Opt":33},{"And":[[445,446],1]},{"Or":[447]},{"Token":59},{"Token":73},{"And":[[450],null]},"Eof",{"And":[[452],null]},{"Token":61},{"And":[[454],null]},{"Token":39},{"And":[[456],null]},{"Token":36},{"And":[[458],null]},{"Or":[455,457,459]},{"Not":460},{"Not":461},{"And":[[462],null]},{"Or":[451,453,463]},{"And":[[34,464],1]},{"Or":[465]},{"Rep":466},{"And":[[449,467],null]},{"Token":87},{"And":[[469],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[470,471,472]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[477],null]},"Eof",{"And":[[479],null]},{"Token":61},{"Not":481},{"Not":482},{"And":[[483],null]},{"Or":[478,480,484]},{"And":[[476,485],1]},{"Or":[486]},{"Rep":487},{"And":[[475,488],null]},{"Or":[489]},{"Opt":490},{"And":[[474,491],1]},{"Or":[492]},{"Token":10},{"Token":6},{"And":[[495],null]},{"Token":19},{"And":[[497],null]},{"Or":[496,498]},{"Call":[152,[[4,499]]]},{"Opt":500},{"And":[[494,501],null]},{"Or":[502]},{"Token":36},{"Token":61},{"And":[[505],null]},"Eof",{"And":[[507],null]},{"Token":39},{"Not":509},{"Not":510},{"And":[[511],null]},{"Or":[506,508,512]},{"And":[[49,33,513],null]},{"Or":[514]},{"Rep":515},{"And":[[504,516],1]},{"Or":[517]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[520],null]},{"Enter":[1,41]},{"And":[[522],null]},{"Token":60},{"And":[[524,45],null]},{"Or":[525]},{"Token":60},{"Opt":527},{"And":[[528,45],null]},{"Or":[529]},{"Token":60},{"And":[[531,45],null]},{"Or":[532]},{"And":[[41,533],null]},{"Or":[534]},{"Token":5},{"And":[[49,536,49],null]},{"Or":[537]},{"Call":[153,[[5,538]]]},{"Token":60},{"And":[[539,540,45],null]},{"Or":[541]},{"Token":92},{"And":[[543],null]},{"Token":18},{"And":[[545],null]},{"Token":19},{"And":[[547],null]},{"Or":[544,546,548]},{"And":[[46],null]},{"IsIn":3},{"And":[[551,47],null]},{"Or":[550,552]},{"Opt":553},{"And":[[549,554],null]},{"Or":[555]},{"IsIn":3},{"And":[[557],null]},{"IsIn":1},{"Token":60},{"And":[[559,560],null]},{"Or":[558,561]},{"Token":87},{"Call":[150,[[2,563]]]},{"Token":92},{"Token":53},{"And":[[565,566],null]},{"Or":[567]},{"Not":568},{"And":[[569,49],null]},{"Or":[570]},{"Call":[150,[[2,571]]]},{"Token":92},{"Token":53},{"And":[[573,574,49],null]},{"Or":[575]},{"Call":[150,[[2,576]]]},{"And":[[564,572,577],null]},{"Or":[578]},{"Call":[153,[[5,579]]]},{"And":[[562,580],null]},{"Or":[581]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,583]]]},{"Opt":9},{"And":[[584,585],null]},{"Or":[586]},{"Token":5},{"Token":92},{"And":[[588,589],null]},{"Or":[590]},{"Token":73},{"And":[[592,34],null]},{"Or":[593]},{"Rep":594},{"And":[[50,595],null]},{"Or":[596]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[608]},{"And":[[120,49],null]},{"Or":[610]},{"Token":67},{"Token":21},{"And":[[613],null]},{"Token":27},{"And":[[615],null]},{"Or":[614,616]},{"And":[[612,617,49],null]},{"Or":[618]},{"Token":81},{"And":[[620],null]},{"Or":[621]},{"Token":37},{"Token":38},{"And":[[623,624],null]},{"Or":[625]},{"Opt":57},{"And":[[49,627],null]},{"Or":[628]},{"Call":[152,[[4,629]]]},{"And":[[630],null]},{"Or":[631]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[633,634],null]},{"Or":[635]},{"Token":82},{"And":[[637],null]},{"Or":[638]},{"Token":58},{"And":[[640,75],null]},{"Or":[641]},{"Opt":642},{"And":[[49,643],null]},{"Or":[644]},{"Call":[154,[[6,645]]]},{"And":[[646],null]},{"Or":[647]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,651]]]},{"Opt":9},{"And":[[649,650,652,653],2]},{"Or":[654]},{"Token":59},{"And":[[63,656],null]},{"Or":[657]},{"Opt":658},{"And":[[659,49],null]},{"Or":[660]},{"Token":23},{"And":[[662,31,49],1]},{"Or":[663]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[672],null]},{"Or":[673]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[675,676]},{"Opt":677},{"And":[[40,678],null]},{"Or":[679]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":683},{"And":[[682,684],null]},{"Or":[685]},{"Opt":686},{"And":[[681,687],null]},{"Or":[688]},{"Call":[152,[[4,689]]]},{"And":[[690],null]},{"Or":[691]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[151,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Token":59},{"Not":705},{"And":[[69,706],null]},{"Token":92},{"Token":59},{"And":[[708,709,63],2]},{"Or":[707,710]},{"Token":28},{"Opt":712},{"Token":27},{"Opt":714},{"Token":92},{"And":[[713,715,716],null]},{"Or":[717]},{"And":[[79],null]},{"Or":[719]},{"Token":37},{"Token":38},{"And":[[721,722],null]},{"Or":[723]},{"Opt":73},{"And":[[63,725],null]},{"Or":[726]},{"Call":[152,[[4,727]]]},{"And":[[728],null]},{"Or":[729]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[731,732],null]},{"Or":[733]},{"Token":77},{"Token":27},{"Opt":736},{"And":[[735,737,63],null]},{"Or":[738]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":742},{"And":[[740,741,743,113],null]},{"Or":[744]},{"IsIn":2},{"Not":77},{"And":[[746,747],null]},{"IsIn":2},{"Not":749},{"And":[[750],null]},{"Or":[748,751]},{"And":[[752,113],null]},{"Or":[753]},{"Token":62},{"Token":92},{"And":[[756],null]},{"Token":89},{"And":[[758],null]},{"Or":[757,759]},{"And":[[755,760],null]},{"Or":[761]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[765,49],null]},{"Or":[766]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[771],null]},{"Token":69},{"And":[[773],null]},{"Token":71},{"And":[[775],null]},{"Or":[772,774,776]},{"Call":[127,[[1,777]]]},{"Token":73},{"And":[[779],null]},{"Token":75},{"And":[[781],null]},{"Or":[780,782]},{"Call":[127,[[1,783]]]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"Call":[127,[[1,789]]]},{"ContextualToken":[49,"&&"]},{"Not":791},{"Token":77},{"And":[[792,793],null]},{"Or":[794]},{"Call":[127,[[1,795]]]},{"Token":84},{"Call":[127,[[1,797]]]},{"ContextualToken":[50,"||"]},{"Not":799},{"Token":79},{"And":[[800,801],null]},{"Or":[802]},{"Call":[127,[[1,803]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,806]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,808]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[811],null]},{"Token":74},{"And":[[813],null]},{"Token":76},{"And":[[815],null]},{"Token":68},{"And":[[817],null]},{"Token":70},{"And":[[819],null]},{"Token":72},{"And":[[821],null]},{"Token":78},{"And":[[823],null]},{"Token":80},{"And":[[825],null]},{"Token":85},{"And":[[827],null]},{"ContextualToken":[48,">>="]},{"And":[[829],null]},{"ContextualToken":[46,"<<="]},{"And":[[831],null]},{"Or":[812,814,816,818,820,822,824,826,828,830,832]},{"Call":[127,[[1,833]]]},{"And":[[79],null]},{"Token":92},{"And":[[836],null]},{"Token":87},{"And":[[838],null]},{"Token":18},{"And":[[840],null]},{"Token":19},{"And":[[842],null]},{"Token":41},{"And":[[844],null]},{"Token":60},{"And":[[846],null]},{"Token":37},{"And":[[848],null]},{"Token":43},{"And":[[850],null]},{"Token":79},{"And":[[852],null]},{"Token":31},{"And":[[854],null]},{"Token":39},{"And":[[856],null]},{"Token":14},{"And":[[858],null]},{"Token":25},{"And":[[860],null]},{"Token":24},{"And":[[862],null]},{"Token":23},{"And":[[864],null]},{"Token":30},{"And":[[866],null]},{"Token":26},{"And":[[868],null]},{"Token":32},{"And":[[870],null]},{"Token":33},{"And":[[872],null]},{"Token":77},{"And":[[874],null]},{"Token":67},{"And":[[876],null]},{"Token":75},{"And":[[878],null]},{"Token":82},{"And":[[880],null]},{"Token":63},{"And":[[882],null]},{"Token":64},{"And":[[884],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[886],null]},{"Var":0},{"Exit":[2,888]},{"Exit":[0,889]},{"And":[[890],null]},{"Token":89},{"And":[[892],null]},{"Token":90},{"And":[[894],null]},{"Token":91},{"And":[[896],null]},{"Token":86},{"And":[[898],null]},{"Token":88},{"And":[[900],null]},{"Or":[893,895,897,899,901]},{"Token":92},{"Token":82},{"And":[[903,904],null]},{"Or":[905]},{"Not":906},{"Opt":81},{"And":[[907,40,908],null]},{"Or":[909]},{"IsIn":0},{"Not":911},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[914,915],null]},{"Or":[916]},{"Opt":917},{"And":[[913,918],null]},{"Or":[919]},{"Call":[151,[[3,920]]]},{"And":[[912,921],null]},{"Or":[922]},{"Token":92},{"Token":59},{"And":[[925,75],null]},{"Or":[926]},{"Opt":927},{"And":[[924,928],1]},{"Or":[929]},{"Token":37},{"Token":38},{"And":[[931,932],null]},{"Or":[933]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[935,936],null]},{"Or":[937]},{"Call":[152,[[4,938]]]},{"And":[[939],null]},{"Or":[940]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,943]]]},{"And":[[942,944],null]},{"Or":[945]},{"Token":58},{"And":[[947,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[949,950],null]},{"Or":[948,951]},{"Opt":952},{"And":[[75,953],null]},{"Or":[954]},{"Call":[78,[[0,955]]]},{"Call":[154,[[6,956]]]},{"And":[[957],null]},{"Or":[958]},{"Token":26},{"Opt":960},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[965,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[967],null]},{"Or":[966,968]},{"And":[[961,962,963,964,969],null]},{"Or":[970]},{"Token":61},{"And":[[972],null]},{"Token":79},{"Not":974},{"Not":975},{"And":[[976],null]},{"Or":[973,977]},{"And":[[13,978],1]},{"Token":31},{"Opt":75},{"And":[[980,981],null]},{"Or":[982]},{"Token":33},{"And":[[984],null]},{"Token":32},{"And":[[986],null]},{"Or":[985,987]},{"Token":87},{"Opt":989},{"And":[[988,990],null]},{"Or":[991]},{"Token":35},{"Opt":993},{"WithSkip":[93,92]},{"Rep":995},{"Call":[151,[[3,996]]]},{"And":[[994,997],null]},{"Or":[998]},{"Call":[78,[[0,999]]]},{"And":[[1000],null]},{"Or":[1001]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1007],null]},{"Token":58},{"And":[[1009],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1015,75],1]},{"Or":[1016]},{"Opt":1017},{"Token":58},{"And":[[1013,63,1014,1018,1019],1]},{"Or":[1020]},{"Token":59},{"And":[[1022,49],null]},{"Or":[1023]},{"Token":58},{"And":[[1025],null]},{"Or":[1026]},{"And":[[77],null]},"Eof",{"And":[[1029],null]},{"Token":58},{"And":[[1031],null]},{"Or":[1028,1030,1032]},{"And":[[75,1033],1]},{"Or":[1034]},{"Enter":[2,1035]},{"And":[[1036],null]},{"Or":[1037]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,100,91,1046],1]},{"Or":[1047]},{"Opt":104},{"Token":25},{"And":[[1049,1050,100,91],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,63,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,101],1]},{"Enter":[0,75]},{"And":[[1059],null]},{"Opt":104},{"Token":24},{"And":[[1061,1062,91],2]},{"Or":[1063]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1065,1066,63,1067,101,91],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1074]]]},{"And":[[1073,101,1075],1]},{"Or":[1076]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1080],null]},"Eof",{"And":[[1082],null]},{"And":[[77],null]},{"Or":[1081,1083,1084]},{"And":[[107,1078,1079,1085],1]},{"Or":[1086]},{"Token":79},{"And":[[1088,63],null]},{"Or":[1089]},{"Rep":1090},{"Opt":108},{"And":[[63,1091,1092],null]},{"Token":14},{"And":[[1094,75],null]},{"Or":[1095]},{"And":[[147],null]},{"Or":[1097]},{"And":[[148],null]},{"Or":[1099]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1103},{"And":[[1101,1102,1104,113],null]},{"Or":[1105]},{"And":[[75,1106],null]},{"Or":[1107]},{"IsIn":2},{"Not":77},{"And":[[1109,1110],null]},{"IsIn":2},{"Not":1112},{"And":[[1113],null]},{"Or":[1111,1114]},{"And":[[1115,113],null]},{"Or":[1116]},{"And":[[75,1117],null]},{"Or":[1118]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1120]]]},{"Call":[78,[[0,1121]]]},{"And":[[1122],null]},{"And":[[75],null]},{"Or":[1124]},{"Token":62},{"Token":92},{"And":[[1127],null]},{"Token":89},{"And":[[1129],null]},{"Or":[1128,1130]},{"And":[[1126,1131],null]},{"Or":[1132]},{"And":[[75,1133],null]},{"Or":[1134]},{"Call":[154,[[6,75]]]},{"And":[[75,1136],null]},{"Or":[1137]},{"Token":83},{"And":[[75,1139],null]},{"Or":[1140]},{"Token":5},{"And":[[1142,49],null]},{"Or":[1143]},{"And":[[75,1144],null]},{"Or":[1145]},{"And":[[120,75],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,75],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,75],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,75],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"Call":[127,[[1,1170]]]},{"And":[[75,1171,75],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"Call":[127,[[1,1178]]]},{"And":[[75,1179,75],null]},{"Or":[1180]},{"ContextualToken":[45,"<<"]},{"And":[[1182],null]},{"ContextualToken":[47,">>"]},{"And":[[1184],null]},{"Or":[1183,1185]},{"Call":[127,[[1,1186]]]},{"And":[[75,1187,75],null]},{"Or":[1188]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1190,1191,1192],null]},{"IsIn":2},{"Not":1194},{"Var":1},{"And":[[1195,1196],null]},{"ContextualToken":[49,"&&"]},{"Not":1198},{"Token":77},{"And":[[1199,1200],null]},{"Or":[1201]},{"Call":[127,[[1,1202]]]},{"And":[[75,1203,75],null]},{"Or":[1204]},{"Token":84},{"Call":[127,[[1,1206]]]},{"And":[[75,1207,75],null]},{"Or":[1208]},{"ContextualToken":[50,"||"]},{"Not":1210},{"Token":79},{"And":[[1211,1212],null]},{"Or":[1213]},{"Call":[127,[[1,1214]]]},{"And":[[75,1215,75],null]},{"Or":[1216]},{"Call":[127,[[1,132]]]},{"And":[[75,1218,75],null]},{"Or":[1219]},{"Token":54},{"And":[[1221],null]},{"Token":55},{"And":[[1223],null]},{"ContextualToken":[46,"<<="]},{"And":[[1225],null]},{"ContextualToken":[48,">>="]},{"And":[[1227],null]},{"Or":[1226,1228]},{"Not":1229},{"Token":41},{"And":[[1231],null]},{"Token":42},{"And":[[1233],null]},{"Or":[1232,1234]},{"And":[[1230,1235],null]},{"Token":57},{"And":[[1237],null]},{"Token":56},{"And":[[1239],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1241]]]},{"And":[[75,1242,75],null]},{"Or":[1243]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1245]]]},{"And":[[75,1246,75],null]},{"Or":[1247]},{"Call":[127,[[1,140]]]},{"And":[[75,1249,75],null]},{"Or":[1250]},{"And":[[140,75],null]},{"Or":[1252]},{"And":[[75,139],null]},{"Or":[1254]},{"Token":63},{"Not":76},{"And":[[1256,1257],null]},{"Or":[1258]},{"Token":63},{"And":[[1260],null]},{"Token":64},{"And":[[1262],null]},{"Not":76},{"Not":1264},{"Token":39},{"IsIn":0},{"And":[[1266,1267],null]},{"Or":[1268]},{"Not":1269},{"And":[[139,1265,1270],null]},{"Token":53},{"And":[[1272],null]},{"Token":74},{"And":[[1274],null]},{"Token":76},{"And":[[1276],null]},{"Token":68},{"And":[[1278],null]},{"Token":70},{"And":[[1280],null]},{"Token":72},{"And":[[1282],null]},{"Token":78},{"And":[[1284],null]},{"Token":80},{"And":[[1286],null]},{"Token":85},{"And":[[1288],null]},{"ContextualToken":[48,">>="]},{"And":[[1290],null]},{"ContextualToken":[46,"<<="]},{"And":[[1292],null]},{"Or":[1273,1275,1277,1279,1281,1283,1285,1287,1289,1291,1293]},{"Call":[127,[[1,1294]]]},{"And":[[75,1295,75],null]},{"Or":[1296]},{"Token":65},{"And":[[1298,144],null]},{"Or":[1299]},{"Token":65},{"Token":82},{"And":[[1301,1302,144],null]},{"Or":[1303]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1305]]]},{"And":[[1306],null]},{"Rep":142},{"And":[[1308],null]},{"Token":92},{"Token":53},{"And":[[1311,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1313]]]},{"And":[[1314],null]},{"Or":[1312,1315]},{"Opt":1316},{"And":[[1310,1317],1]},{"Or":[1318]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1322},{"Rep":149},{"Call":[151,[[3,1324]]]},{"And":[[1320,1321,1323,1325],null]},{"Or":[1326]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1330},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1332,1333,1334],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1336,1337,1338],null]},{"Or":[1335,1339]},{"And":[[1328,1329,1331,1340],null]},{"Or":[1341]},{"Token":37},{"And":[[1343],null]},{"Token":38},{"And":[[1345],null]},{"Token":39},{"And":[[1347],null]},{"Token":40},{"And":[[1349],null]},{"Token":43},{"And":[[1351],null]},{"Token":44},{"And":[[1353],null]},{"Or":[1344,1346,1348,1350,1352,1354]},{"Not":1355},"Any",{"And":[[1356,1357],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1359,1360,1361],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1363,1364,1365],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1367,1368,1369],null]},{"Or":[1358,1362,1366,1370]},{"Var":2},"Eof",{"And":[[1373],null]},{"Token":61},{"And":[[1375],null]},{"Or":[1374,1376]},{"And":[[1372,1377],1]},{"Or":[1378]},{"Rep":1379},{"And":[[1380],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1382],[8,1383],[9,1384]]]},{"And":[[1385],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1387],[8,1388],[9,1389]]]},{"And":[[1390],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1392],[8,1393],[9,1394]]]},{"And":[[1395],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1397],[8,1398],[9,1399]]]},{"And":[[1400],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1403],[11,1404]]]},{"Var":9},{"Layer":[1405,1406]},{"Var":8},{"And":[[1402,1407,1408],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1411],[11,1412]]]},{"Var":11},{"And":[[1410,1413,1414],1]},{"Var":11},{"Not":1416},"Any",{"And":[[1417,1418],null]},{"Or":[1419]},{"And":[[1420],null]},{"Or":[1415,1421]},{"Rep":1422},{"And":[[1423],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 942ba613ec96e488066b60cf7650b25986fb3b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 08/36] fix: raw string literals with more than thirty hashes
 do not crash the lexers

---
 lang/fall/syntax/src/fall.fall | 6 ++----
 lang/fall/syntax/src/fall.rs   | 6 ++----
 lang/rust/syntax/src/rust.fall | 6 ++----
 lang/rust/syntax/src/rust.rs   | 6 ++----
 4 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index c371f98..5f26d7c 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -250,10 +250,8 @@ verbatim r#########"
 
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more then 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", &s[1..quote_start]);
+    s[quote_start + 1..].find(closing.as_str()).map(|i| i + quote_start + 1 + closing.len())
 }
 
 "#########
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 530551a..6929f7e 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -188,10 +188,8 @@ pub fn language() -> &'static rt::Language {
 }
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more then 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", &s[1..quote_start]);
+    s[quote_start + 1..].find(closing.as_str()).map(|i| i + quote_start + 1 + closing.len())
 }
 #[allow(unused)]
 use self::rt::AstNode;
diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index b26ebb4..334ad9c 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1293,10 +1293,8 @@ fn whitespace_binder(ty: rt::NodeType, adjacent_tokens: Vec<(rt::NodeType, &str)
 
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more than 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", &s[1..quote_start]);
+    s[quote_start + 1..].find(closing.as_str()).map(|i| i + quote_start + 1 + closing.len())
 }
 
 fn parse_block_comment(s: &str) -> Option<usize> {
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 6431235..610f9df 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -571,10 +571,8 @@ fn whitespace_binder(ty: rt::NodeType, adjacent_tokens: Vec<(rt::NodeType, &str)
 }
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more than 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", &s[1..quote_start]);
+    s[quote_start + 1..].find(closing.as_str()).map(|i| i + quote_start + 1 + closing.len())
 }
 fn parse_block_comment(s: &str) -> Option<usize> {
     let mut s = &s[2..];
-- 
2.43.0


From 7eaa01184049d77d0f4c53b0c6c3172c7e9c8be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 09/36] fix: the type of a Rust cast does not take a following
 + operand as a bound

---
 lang/rust/syntax/src/rust.fall | 5 ++++-
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index 334ad9c..c6ebc60 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -428,6 +428,9 @@ pub rule type_reference {
 }
 test r"type T = Box<Iterator<Item=T + 'static> + Send>;"
 
+#[type(type_reference)]
+pub rule type_no_bounds { any_type }
+
 rule any_type {
   path_type | reference_type | pointer_type
 | placeholder_type | unit_type | paren_type | never_type
@@ -1012,7 +1015,7 @@ fn main() { -x??; }
 
 #[postfix(12)]
 pub rule cast_expr {
-  expr {'as' type_reference}
+  expr {'as' type_no_bounds}
 }
 test r"
 fn main() { 1 as u128; }
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 610f9df..96d4ba3 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":283,"replaceable":false}},{"Pub":{"ty":103,"body":302,"replaceable":false}},{"Pub":{"ty":104,"body":307,"replaceable":false}},{"Pub":{"ty":105,"body":310,"replaceable":false}},{"Pub":{"ty":106,"body":317,"replaceable":false}},{"Pub":{"ty":107,"body":330,"replaceable":false}},{"Pub":{"ty":108,"body":339,"replaceable":false}},{"Pub":{"ty":109,"body":352,"replaceable":false}},{"Pub":{"ty":110,"body":360,"replaceable":false}},{"Pub":{"ty":111,"body":372,"replaceable":false}},{"Or":[373,374,375,376]},{"Or":[378,380,382,384,386,388,390,392,397]},{"Pub":{"ty":112,"body":407,"replaceable":false}},{"Pub":{"ty":113,"body":421,"replaceable":false}},{"Pub":{"ty":114,"body":425,"replaceable":false}},{"Pub":{"ty":115,"body":429,"replaceable":false}},{"Or":[437]},{"Pub":{"ty":116,"body":444,"replaceable":false}},{"Pub":{"ty":117,"body":448,"replaceable":false}},{"Or":[468]},{"Pub":{"ty":118,"body":473,"replaceable":false}},{"Pub":{"ty":119,"body":493,"replaceable":false}},{"Pub":{"ty":120,"body":503,"replaceable":false}},{"Pub":{"ty":121,"body":518,"replaceable":false}},{"Or":[519]},{"Or":[521]},{"Or":[523]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":526,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":530,"replaceable":false}},{"Pub":{"ty":122,"body":535,"replaceable":false}},{"Pub":{"ty":123,"body":542,"replaceable":false}},{"Pub":{"ty":124,"body":556,"replaceable":false}},{"Pub":{"ty":125,"body":582,"replaceable":false}},{"Pub":{"ty":126,"body":587,"replaceable":false}},{"Pub":{"ty":127,"body":591,"replaceable":false}},{"Pub":{"ty":128,"body":597,"replaceable":false}},{"Or":[598,599,600,601,602,603,604,605,606,607]},{"Pub":{"ty":129,"body":609,"replaceable":false}},{"Pub":{"ty":130,"body":611,"replaceable":false}},{"Pub":{"ty":131,"body":619,"replaceable":false}},{"Pub":{"ty":132,"body":622,"replaceable":false}},{"Pub":{"ty":133,"body":626,"replaceable":false}},{"Pub":{"ty":134,"body":632,"replaceable":true}},{"PubReplace":{"ty":135,"body":636}},{"Pub":{"ty":136,"body":639,"replaceable":false}},{"Pub":{"ty":137,"body":648,"replaceable":false}},{"Pub":{"ty":138,"body":655,"replaceable":false}},{"Pub":{"ty":100,"body":661,"replaceable":false}},{"Pub":{"ty":139,"body":664,"replaceable":false}},{"Or":[665,666,667,668,669,670,671]},{"Pub":{"ty":140,"body":674,"replaceable":false}},{"Pub":{"ty":141,"body":680,"replaceable":true}},{"PubReplace":{"ty":142,"body":692}},{"PubReplace":{"ty":143,"body":704}},{"Pub":{"ty":144,"body":711,"replaceable":false}},{"Pub":{"ty":145,"body":718,"replaceable":false}},{"Pub":{"ty":146,"body":720,"replaceable":false}},{"Pub":{"ty":147,"body":724,"replaceable":false}},{"Pub":{"ty":148,"body":730,"replaceable":true}},{"PubReplace":{"ty":149,"body":734}},{"Pub":{"ty":150,"body":739,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":768,"priority":999},{"ty":186,"op":769,"priority":999},{"ty":187,"op":770,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":745,"priority":999,"has_rhs":false},{"ty":178,"op":754,"priority":999,"has_rhs":false},{"ty":180,"op":762,"priority":999,"has_rhs":false},{"ty":181,"op":763,"priority":999,"has_rhs":false},{"ty":182,"op":764,"priority":999,"has_rhs":false},{"ty":183,"op":767,"priority":12,"has_rhs":false},{"ty":188,"op":778,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":796,"priority":8,"has_rhs":true},{"ty":192,"op":798,"priority":7,"has_rhs":true},{"ty":193,"op":804,"priority":6,"has_rhs":true},{"ty":194,"op":805,"priority":5,"has_rhs":true},{"ty":195,"op":807,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":810,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":834,"priority":1,"has_rhs":true}]}},{"Or":[835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885]},{"Or":[887]},{"Or":[891]},{"Pub":{"ty":152,"body":902,"replaceable":false}},{"Pub":{"ty":153,"body":910,"replaceable":true}},{"PubReplace":{"ty":154,"body":923}},{"Pub":{"ty":155,"body":930,"replaceable":false}},{"Pub":{"ty":156,"body":934,"replaceable":false}},{"Pub":{"ty":157,"body":941,"replaceable":true}},{"PubReplace":{"ty":158,"body":946}},{"Pub":{"ty":159,"body":959,"replaceable":false}},{"Pub":{"ty":160,"body":971,"replaceable":false}},{"Or":[979]},{"Pub":{"ty":161,"body":983,"replaceable":false}},{"Pub":{"ty":162,"body":992,"replaceable":false}},{"Pub":{"ty":163,"body":1002,"replaceable":false}},{"Or":[1003,1004,1005,1006]},{"Or":[1008,1010,1011,1012]},{"Pub":{"ty":164,"body":1021,"replaceable":false}},{"Pub":{"ty":165,"body":1024,"replaceable":false}},{"Pub":{"ty":166,"body":1027,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1087,"replaceable":false}},{"Or":[1093]},{"Pub":{"ty":174,"body":1096,"replaceable":false}},{"Pub":{"ty":175,"body":1098,"replaceable":false}},{"Pub":{"ty":176,"body":1100,"replaceable":false}},{"Pub":{"ty":177,"body":1108,"replaceable":false}},{"Pub":{"ty":178,"body":1119,"replaceable":false}},{"Or":[1123]},{"Pub":{"ty":179,"body":1125,"replaceable":false}},{"Pub":{"ty":180,"body":1135,"replaceable":false}},{"Pub":{"ty":181,"body":1138,"replaceable":false}},{"Pub":{"ty":182,"body":1141,"replaceable":false}},{"Pub":{"ty":183,"body":1146,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1181,"replaceable":false}},{"Pub":{"ty":190,"body":1189,"replaceable":false}},{"Or":[1193,1197]},{"Pub":{"ty":191,"body":1205,"replaceable":false}},{"Pub":{"ty":192,"body":1209,"replaceable":false}},{"Pub":{"ty":193,"body":1217,"replaceable":false}},{"Pub":{"ty":194,"body":1220,"replaceable":false}},{"Or":[1222,1224,1236,1238,1240]},{"Pub":{"ty":195,"body":1244,"replaceable":false}},{"Pub":{"ty":196,"body":1248,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1253,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Pub":{"ty":197,"body":1259,"replaceable":false}},{"Or":[1261,1263]},{"Or":[1271]},{"Pub":{"ty":198,"body":1297,"replaceable":false}},{"Pub":{"ty":199,"body":1300,"replaceable":false}},{"Pub":{"ty":200,"body":1304,"replaceable":false}},{"Or":[1307]},{"Or":[1309]},{"Pub":{"ty":201,"body":1319,"replaceable":false}},{"Pub":{"ty":202,"body":1327,"replaceable":false}},{"Pub":{"ty":203,"body":1342,"replaceable":false}},{"Pub":{"ty":204,"body":1371,"replaceable":false}},{"Or":[1381]},{"Or":[1386]},{"Or":[1391]},{"Or":[1396]},{"Or":[1401]},{"Or":[1409]},{"Or":[1424]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":59},{"And":[[273,49],null]},{"Or":[274]},{"Opt":275},{"Token":61},{"And":[[277],null]},"Eof",{"And":[[279],null]},{"Or":[278,280]},{"And":[[271,272,276,281],2]},{"Or":[282]},{"Token":11},{"And":[[284],null]},{"ContextualToken":[4,"union"]},{"And":[[286],null]},{"Or":[285,287]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,291]]]},{"And":[[292],null]},{"Token":58},{"And":[[294],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,296]]]},{"Token":58},{"And":[[297,298],null]},{"Or":[293,295,299]},{"And":[[288,289,290,300],1]},{"Or":[301]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[303,304,305,49],2]},{"Or":[306]},{"Opt":36},{"And":[[308,49],null]},{"Or":[309]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,314]]]},{"And":[[311,312,313,315],1]},{"Or":[316]},{"Token":92},{"Token":53},{"And":[[319,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,321]]]},{"And":[[322],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,324]]]},{"And":[[325],null]},{"Or":[320,323,326]},{"Opt":327},{"And":[[318,328],1]},{"Or":[329]},{"Token":13},{"Token":92},{"Token":58},{"And":[[333],null]},{"Call":[151,[[3,1]]]},{"And":[[335],null]},{"Or":[334,336]},{"And":[[331,332,337],1]},{"Or":[338]},{"Token":35},{"Opt":340},{"Token":17},{"Opt":31},{"Token":23},{"And":[[344,49],null]},{"Or":[345]},{"Opt":346},{"And":[[49,347],null]},{"Or":[348]},{"Opt":37},{"And":[[341,342,343,349,350,23],2]},{"Or":[351]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,353,354,355,356,357,358,23],3]},{"Or":[359]},{"Opt":36},{"And":[[145,361],null]},{"Or":[362]},{"Inject":[363,24]},{"And":[[364],null]},{"And":[[28],null]},{"Or":[365,366]},{"WithSkip":[25,367]},{"Rep":368},{"Call":[151,[[3,369]]]},{"And":[[370],null]},{"Or":[371]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[377],null]},{"Token":8},{"And":[[379],null]},{"Token":20},{"And":[[381],null]},{"Token":21},{"And":[[383],null]},{"Token":22},{"And":[[385],null]},{"Token":35},{"And":[[387],null]},{"Token":65},{"And":[[389],null]},{"Token":7},{"And":[[391],null]},{"Token":92},{"Token":82},{"And":[[393,394],null]},{"Or":[395]},{"And":[[396],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[401,49],null]},{"Or":[402]},{"Opt":403},{"Token":58},{"And":[[398,399,400,404,405],1]},{"Or":[406]},{"Token":21},{"And":[[408],null]},{"Token":22},{"And":[[410],null]},{"Or":[409,411]},{"Token":92},{"Token":59},{"Token":53},{"And":[[415,75],null]},{"Or":[416]},{"Opt":417},{"Token":58},{"And":[[412,413,414,49,418,419],1]},{"Or":[420]},{"And":[[147],null]},{"Token":58},{"And":[[148,423],null]},{"Or":[422,424]},{"Rep":30},{"Call":[151,[[3,426]]]},{"And":[[10,427],null]},{"Or":[428]},{"Opt":36},{"And":[[145,430],null]},{"Or":[431]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[433,434]},{"Inject":[432,435]},{"And":[[436],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[438,439],null]},{"Or":[440]},{"Call":[153,[[5,441]]]},{"And":[[442],null]},{"Or":[443]},{"Token":92},{"Opt":33},{"And":[[445,446],1]},{"Or":[447]},{"Token":59},{"Token":73},{"And":[[450],null]},"Eof",{"And":[[452],null]},{"Token":61},{"And":[[454],null]},{"Token":39},{"And":[[456],null]},{"Token":36},{"And":[[458],null]},{"Or":[455,457,459]},{"Not":460},{"Not":461},{"And":[[462],null]},{"Or":[451,453,463]},{"And":[[34,464],1]},{"Or":[465]},{"Rep":466},{"And":[[449,467],null]},{"Token":87},{"And":[[469],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[470,471,472]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[477],null]},"Eof",{"And":[[479],null]},{"Token":61},{"Not":481},{"Not":482},{"And":[[483],null]},{"Or":[478,480,484]},{"And":[[476,485],1]},{"Or":[486]},{"Rep":487},{"And":[[475,488],null]},{"Or":[489]},{"Opt":490},{"And":[[474,491],1]},{"Or":[492]},{"Token":10},{"Token":6},{"And":[[495],null]},{"Token":19},{"And":[[497],null]},{"Or":[496,498]},{"Call":[152,[[4,499]]]},{"Opt":500},{"And":[[494,501],null]},{"Or":[502]},{"Token":36},{"Token":61},{"And":[[505],null]},"Eof",{"And":[[507],null]},{"Token":39},{"Not":509},{"Not":510},{"And":[[511],null]},{"Or":[506,508,512]},{"And":[[49,33,513],null]},{"Or":[514]},{"Rep":515},{"And":[[504,516],1]},{"Or":[517]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[520],null]},{"Enter":[1,41]},{"And":[[522],null]},{"Token":60},{"And":[[524,45],null]},{"Or":[525]},{"Token":60},{"Opt":527},{"And":[[528,45],null]},{"Or":[529]},{"Token":60},{"And":[[531,45],null]},{"Or":[532]},{"And":[[41,533],null]},{"Or":[534]},{"Token":5},{"And":[[49,536,49],null]},{"Or":[537]},{"Call":[153,[[5,538]]]},{"Token":60},{"And":[[539,540,45],null]},{"Or":[541]},{"Token":92},{"And":[[543],null]},{"Token":18},{"And":[[545],null]},{"Token":19},{"And":[[547],null]},{"Or":[544,546,548]},{"And":[[46],null]},{"IsIn":3},{"And":[[551,47],null]},{"Or":[550,552]},{"Opt":553},{"And":[[549,554],null]},{"Or":[555]},{"IsIn":3},{"And":[[557],null]},{"IsIn":1},{"Token":60},{"And":[[559,560],null]},{"Or":[558,561]},{"Token":87},{"Call":[150,[[2,563]]]},{"Token":92},{"Token":53},{"And":[[565,566],null]},{"Or":[567]},{"Not":568},{"And":[[569,49],null]},{"Or":[570]},{"Call":[150,[[2,571]]]},{"Token":92},{"Token":53},{"And":[[573,574,49],null]},{"Or":[575]},{"Call":[150,[[2,576]]]},{"And":[[564,572,577],null]},{"Or":[578]},{"Call":[153,[[5,579]]]},{"And":[[562,580],null]},{"Or":[581]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,583]]]},{"Opt":9},{"And":[[584,585],null]},{"Or":[586]},{"Token":5},{"Token":92},{"And":[[588,589],null]},{"Or":[590]},{"Token":73},{"And":[[592,34],null]},{"Or":[593]},{"Rep":594},{"And":[[50,595],null]},{"Or":[596]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[608]},{"And":[[120,49],null]},{"Or":[610]},{"Token":67},{"Token":21},{"And":[[613],null]},{"Token":27},{"And":[[615],null]},{"Or":[614,616]},{"And":[[612,617,49],null]},{"Or":[618]},{"Token":81},{"And":[[620],null]},{"Or":[621]},{"Token":37},{"Token":38},{"And":[[623,624],null]},{"Or":[625]},{"Opt":57},{"And":[[49,627],null]},{"Or":[628]},{"Call":[152,[[4,629]]]},{"And":[[630],null]},{"Or":[631]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[633,634],null]},{"Or":[635]},{"Token":82},{"And":[[637],null]},{"Or":[638]},{"Token":58},{"And":[[640,75],null]},{"Or":[641]},{"Opt":642},{"And":[[49,643],null]},{"Or":[644]},{"Call":[154,[[6,645]]]},{"And":[[646],null]},{"Or":[647]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,651]]]},{"Opt":9},{"And":[[649,650,652,653],2]},{"Or":[654]},{"Token":59},{"And":[[63,656],null]},{"Or":[657]},{"Opt":658},{"And":[[659,49],null]},{"Or":[660]},{"Token":23},{"And":[[662,31,49],1]},{"Or":[663]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[672],null]},{"Or":[673]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[675,676]},{"Opt":677},{"And":[[40,678],null]},{"Or":[679]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":683},{"And":[[682,684],null]},{"Or":[685]},{"Opt":686},{"And":[[681,687],null]},{"Or":[688]},{"Call":[152,[[4,689]]]},{"And":[[690],null]},{"Or":[691]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[151,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Token":59},{"Not":705},{"And":[[69,706],null]},{"Token":92},{"Token":59},{"And":[[708,709,63],2]},{"Or":[707,710]},{"Token":28},{"Opt":712},{"Token":27},{"Opt":714},{"Token":92},{"And":[[713,715,716],null]},{"Or":[717]},{"And":[[79],null]},{"Or":[719]},{"Token":37},{"Token":38},{"And":[[721,722],null]},{"Or":[723]},{"Opt":73},{"And":[[63,725],null]},{"Or":[726]},{"Call":[152,[[4,727]]]},{"And":[[728],null]},{"Or":[729]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[731,732],null]},{"Or":[733]},{"Token":77},{"Token":27},{"Opt":736},{"And":[[735,737,63],null]},{"Or":[738]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":742},{"And":[[740,741,743,113],null]},{"Or":[744]},{"IsIn":2},{"Not":77},{"And":[[746,747],null]},{"IsIn":2},{"Not":749},{"And":[[750],null]},{"Or":[748,751]},{"And":[[752,113],null]},{"Or":[753]},{"Token":62},{"Token":92},{"And":[[756],null]},{"Token":89},{"And":[[758],null]},{"Or":[757,759]},{"And":[[755,760],null]},{"Or":[761]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[765,49],null]},{"Or":[766]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[771],null]},{"Token":69},{"And":[[773],null]},{"Token":71},{"And":[[775],null]},{"Or":[772,774,776]},{"Call":[127,[[1,777]]]},{"Token":73},{"And":[[779],null]},{"Token":75},{"And":[[781],null]},{"Or":[780,782]},{"Call":[127,[[1,783]]]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"Call":[127,[[1,789]]]},{"ContextualToken":[49,"&&"]},{"Not":791},{"Token":77},{"And":[[792,793],null]},{"Or":[794]},{"Call":[127,[[1,795]]]},{"Token":84},{"Call":[127,[[1,797]]]},{"ContextualToken":[50,"||"]},{"Not":799},{"Token":79},{"And":[[800,801],null]},{"Or":[802]},{"Call":[127,[[1,803]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,806]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,808]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[811],null]},{"Token":74},{"And":[[813],null]},{"Token":76},{"And":[[815],null]},{"Token":68},{"And":[[817],null]},{"Token":70},{"And":[[819],null]},{"Token":72},{"And":[[821],null]},{"Token":78},{"And":[[823],null]},{"Token":80},{"And":[[825],null]},{"Token":85},{"And":[[827],null]},{"ContextualToken":[48,">>="]},{"And":[[829],null]},{"ContextualToken":[46,"<<="]},{"And":[[831],null]},{"Or":[812,814,816,818,820,822,824,826,828,830,832]},{"Call":[127,[[1,833]]]},{"And":[[79],null]},{"Token":92},{"And":[[836],null]},{"Token":87},{"And":[[838],null]},{"Token":18},{"And":[[840],null]},{"Token":19},{"And":[[842],null]},{"Token":41},{"And":[[844],null]},{"Token":60},{"And":[[846],null]},{"Token":37},{"And":[[848],null]},{"Token":43},{"And":[[850],null]},{"Token":79},{"And":[[852],null]},{"Token":31},{"And":[[854],null]},{"Token":39},{"And":[[856],null]},{"Token":14},{"And":[[858],null]},{"Token":25},{"And":[[860],null]},{"Token":24},{"And":[[862],null]},{"Token":23},{"And":[[864],null]},{"Token":30},{"And":[[866],null]},{"Token":26},{"And":[[868],null]},{"Token":32},{"And":[[870],null]},{"Token":33},{"And":[[872],null]},{"Token":77},{"And":[[874],null]},{"Token":67},{"And":[[876],null]},{"Token":75},{"And":[[878],null]},{"Token":82},{"And":[[880],null]},{"Token":63},{"And":[[882],null]},{"Token":64},{"And":[[884],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[886],null]},{"Var":0},{"Exit":[2,888]},{"Exit":[0,889]},{"And":[[890],null]},{"Token":89},{"And":[[892],null]},{"Token":90},{"And":[[894],null]},{"Token":91},{"And":[[896],null]},{"Token":86},{"And":[[898],null]},{"Token":88},{"And":[[900],null]},{"Or":[893,895,897,899,901]},{"Token":92},{"Token":82},{"And":[[903,904],null]},{"Or":[905]},{"Not":906},{"Opt":81},{"And":[[907,40,908],null]},{"Or":[909]},{"IsIn":0},{"Not":911},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[914,915],null]},{"Or":[916]},{"Opt":917},{"And":[[913,918],null]},{"Or":[919]},{"Call":[151,[[3,920]]]},{"And":[[912,921],null]},{"Or":[922]},{"Token":92},{"Token":59},{"And":[[925,75],null]},{"Or":[926]},{"Opt":927},{"And":[[924,928],1]},{"Or":[929]},{"Token":37},{"Token":38},{"And":[[931,932],null]},{"Or":[933]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[935,936],null]},{"Or":[937]},{"Call":[152,[[4,938]]]},{"And":[[939],null]},{"Or":[940]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,943]]]},{"And":[[942,944],null]},{"Or":[945]},{"Token":58},{"And":[[947,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[949,950],null]},{"Or":[948,951]},{"Opt":952},{"And":[[75,953],null]},{"Or":[954]},{"Call":[78,[[0,955]]]},{"Call":[154,[[6,956]]]},{"And":[[957],null]},{"Or":[958]},{"Token":26},{"Opt":960},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[965,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[967],null]},{"Or":[966,968]},{"And":[[961,962,963,964,969],null]},{"Or":[970]},{"Token":61},{"And":[[972],null]},{"Token":79},{"Not":974},{"Not":975},{"And":[[976],null]},{"Or":[973,977]},{"And":[[13,978],1]},{"Token":31},{"Opt":75},{"And":[[980,981],null]},{"Or":[982]},{"Token":33},{"And":[[984],null]},{"Token":32},{"And":[[986],null]},{"Or":[985,987]},{"Token":87},{"Opt":989},{"And":[[988,990],null]},{"Or":[991]},{"Token":35},{"Opt":993},{"WithSkip":[93,92]},{"Rep":995},{"Call":[151,[[3,996]]]},{"And":[[994,997],null]},{"Or":[998]},{"Call":[78,[[0,999]]]},{"And":[[1000],null]},{"Or":[1001]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1007],null]},{"Token":58},{"And":[[1009],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1015,75],1]},{"Or":[1016]},{"Opt":1017},{"Token":58},{"And":[[1013,63,1014,1018,1019],1]},{"Or":[1020]},{"Token":59},{"And":[[1022,49],null]},{"Or":[1023]},{"Token":58},{"And":[[1025],null]},{"Or":[1026]},{"And":[[77],null]},"Eof",{"And":[[1029],null]},{"Token":58},{"And":[[1031],null]},{"Or":[1028,1030,1032]},{"And":[[75,1033],1]},{"Or":[1034]},{"Enter":[2,1035]},{"And":[[1036],null]},{"Or":[1037]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,100,91,1046],1]},{"Or":[1047]},{"Opt":104},{"Token":25},{"And":[[1049,1050,100,91],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,63,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,101],1]},{"Enter":[0,75]},{"And":[[1059],null]},{"Opt":104},{"Token":24},{"And":[[1061,1062,91],2]},{"Or":[1063]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1065,1066,63,1067,101,91],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1074]]]},{"And":[[1073,101,1075],1]},{"Or":[1076]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1080],null]},"Eof",{"And":[[1082],null]},{"And":[[77],null]},{"Or":[1081,1083,1084]},{"And":[[107,1078,1079,1085],1]},{"Or":[1086]},{"Token":79},{"And":[[1088,63],null]},{"Or":[1089]},{"Rep":1090},{"Opt":108},{"And":[[63,1091,1092],null]},{"Token":14},{"And":[[1094,75],null]},{"Or":[1095]},{"And":[[147],null]},{"Or":[1097]},{"And":[[148],null]},{"Or":[1099]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1103},{"And":[[1101,1102,1104,113],null]},{"Or":[1105]},{"And":[[75,1106],null]},{"Or":[1107]},{"IsIn":2},{"Not":77},{"And":[[1109,1110],null]},{"IsIn":2},{"Not":1112},{"And":[[1113],null]},{"Or":[1111,1114]},{"And":[[1115,113],null]},{"Or":[1116]},{"And":[[75,1117],null]},{"Or":[1118]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1120]]]},{"Call":[78,[[0,1121]]]},{"And":[[1122],null]},{"And":[[75],null]},{"Or":[1124]},{"Token":62},{"Token":92},{"And":[[1127],null]},{"Token":89},{"And":[[1129],null]},{"Or":[1128,1130]},{"And":[[1126,1131],null]},{"Or":[1132]},{"And":[[75,1133],null]},{"Or":[1134]},{"Call":[154,[[6,75]]]},{"And":[[75,1136],null]},{"Or":[1137]},{"Token":83},{"And":[[75,1139],null]},{"Or":[1140]},{"Token":5},{"And":[[1142,49],null]},{"Or":[1143]},{"And":[[75,1144],null]},{"Or":[1145]},{"And":[[120,75],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,75],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,75],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,75],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"Call":[127,[[1,1170]]]},{"And":[[75,1171,75],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"Call":[127,[[1,1178]]]},{"And":[[75,1179,75],null]},{"Or":[1180]},{"ContextualToken":[45,"<<"]},{"And":[[1182],null]},{"ContextualToken":[47,">>"]},{"And":[[1184],null]},{"Or":[1183,1185]},{"Call":[127,[[1,1186]]]},{"And":[[75,1187,75],null]},{"Or":[1188]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1190,1191,1192],null]},{"IsIn":2},{"Not":1194},{"Var":1},{"And":[[1195,1196],null]},{"ContextualToken":[49,"&&"]},{"Not":1198},{"Token":77},{"And":[[1199,1200],null]},{"Or":[1201]},{"Call":[127,[[1,1202]]]},{"And":[[75,1203,75],null]},{"Or":[1204]},{"Token":84},{"Call":[127,[[1,1206]]]},{"And":[[75,1207,75],null]},{"Or":[1208]},{"ContextualToken":[50,"||"]},{"Not":1210},{"Token":79},{"And":[[1211,1212],null]},{"Or":[1213]},{"Call":[127,[[1,1214]]]},{"And":[[75,1215,75],null]},{"Or":[1216]},{"Call":[127,[[1,132]]]},{"And":[[75,1218,75],null]},{"Or":[1219]},{"Token":54},{"And":[[1221],null]},{"Token":55},{"And":[[1223],null]},{"ContextualToken":[46,"<<="]},{"And":[[1225],null]},{"ContextualToken":[48,">>="]},{"And":[[1227],null]},{"Or":[1226,1228]},{"Not":1229},{"Token":41},{"And":[[1231],null]},{"Token":42},{"And":[[1233],null]},{"Or":[1232,1234]},{"And":[[1230,1235],null]},{"Token":57},{"And":[[1237],null]},{"Token":56},{"And":[[1239],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1241]]]},{"And":[[75,1242,75],null]},{"Or":[1243]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1245]]]},{"And":[[75,1246,75],null]},{"Or":[1247]},{"Call":[127,[[1,140]]]},{"And":[[75,1249,75],null]},{"Or":[1250]},{"And":[[140,75],null]},{"Or":[1252]},{"And":[[75,139],null]},{"Or":[1254]},{"Token":63},{"Not":76},{"And":[[1256,1257],null]},{"Or":[1258]},{"Token":63},{"And":[[1260],null]},{"Token":64},{"And":[[1262],null]},{"Not":76},{"Not":1264},{"Token":39},{"IsIn":0},{"And":[[1266,1267],null]},{"Or":[1268]},{"Not":1269},{"And":[[139,1265,1270],null]},{"Token":53},{"And":[[1272],null]},{"Token":74},{"And":[[1274],null]},{"Token":76},{"And":[[1276],null]},{"Token":68},{"And":[[1278],null]},{"Token":70},{"And":[[1280],null]},{"Token":72},{"And":[[1282],null]},{"Token":78},{"And":[[1284],null]},{"Token":80},{"And":[[1286],null]},{"Token":85},{"And":[[1288],null]},{"ContextualToken":[48,">>="]},{"And":[[1290],null]},{"ContextualToken":[46,"<<="]},{"And":[[1292],null]},{"Or":[1273,1275,1277,1279,1281,1283,1285,1287,1289,1291,1293]},{"Call":[127,[[1,1294]]]},{"And":[[75,1295,75],null]},{"Or":[1296]},{"Token":65},{"And":[[1298,144],null]},{"Or":[1299]},{"Token":65},{"Token":82},{"And":[[1301,1302,144],null]},{"Or":[1303]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1305]]]},{"And":[[1306],null]},{"Rep":142},{"And":[[1308],null]},{"Token":92},{"Token":53},{"And":[[1311,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1313]]]},{"And":[[1314],null]},{"Or":[1312,1315]},{"Opt":1316},{"And":[[1310,1317],1]},{"Or":[1318]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1322},{"Rep":149},{"Call":[151,[[3,1324]]]},{"And":[[1320,1321,1323,1325],null]},{"Or":[1326]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1330},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1332,1333,1334],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1336,1337,1338],null]},{"Or":[1335,1339]},{"And":[[1328,1329,1331,1340],null]},{"Or":[1341]},{"Token":37},{"And":[[1343],null]},{"Token":38},{"And":[[1345],null]},{"Token":39},{"And":[[1347],null]},{"Token":40},{"And":[[1349],null]},{"Token":43},{"And":[[1351],null]},{"Token":44},{"And":[[1353],null]},{"Or":[1344,1346,1348,1350,1352,1354]},{"Not":1355},"Any",{"And":[[1356,1357],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1359,1360,1361],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1363,1364,1365],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1367,1368,1369],null]},{"Or":[1358,1362,1366,1370]},{"Var":2},"Eof",{"And":[[1373],null]},{"Token":61},{"And":[[1375],null]},{"Or":[1374,1376]},{"And":[[1372,1377],1]},{"Or":[1378]},{"Rep":1379},{"And":[[1380],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1382],[8,1383],[9,1384]]]},{"And":[[1385],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1387],[8,1388],[9,1389]]]},{"And":[[1390],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1392],[8,1393],[9,1394]]]},{"And":[[1395],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1397],[8,1398],[9,1399]]]},{"And":[[1400],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1403],[11,1404]]]},{"Var":9},{"Layer":[1405,1406]},{"Var":8},{"And":[[1402,1407,1408],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1411],[11,1412]]]},{"Var":11},{"And":[[1410,1413,1414],1]},{"Var":11},{"Not":1416},"Any",{"And":[[1417,1418],null]},{"Or":[1419]},{"And":[[1420],null]},{"Or":[1415,1421]},{"Rep":1422},{"And":[[1423],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":159,"replaceable":false}},{"Or":[162]},{"Or":[164,166,168,170,172,174,176,177]},{"Cached":194},{"Pub":{"ty":94,"body":210,"replaceable":false}},{"Pub":{"ty":95,"body":216,"replaceable":false}},{"Pub":{"ty":96,"body":222,"replaceable":false}},{"Pub":{"ty":97,"body":229,"replaceable":false}},{"Pub":{"ty":98,"body":245,"replaceable":false}},{"Or":[247]},{"Pub":{"ty":99,"body":252,"replaceable":false}},{"Or":[258]},{"Pub":{"ty":100,"body":261,"replaceable":false}},{"Pub":{"ty":101,"body":267,"replaceable":false}},{"Pub":{"ty":102,"body":284,"replaceable":false}},{"Pub":{"ty":103,"body":303,"replaceable":false}},{"Pub":{"ty":104,"body":308,"replaceable":false}},{"Pub":{"ty":105,"body":311,"replaceable":false}},{"Pub":{"ty":106,"body":318,"replaceable":false}},{"Pub":{"ty":107,"body":331,"replaceable":false}},{"Pub":{"ty":108,"body":340,"replaceable":false}},{"Pub":{"ty":109,"body":353,"replaceable":false}},{"Pub":{"ty":110,"body":361,"replaceable":false}},{"Pub":{"ty":111,"body":373,"replaceable":false}},{"Or":[374,375,376,377]},{"Or":[379,381,383,385,387,389,391,393,398]},{"Pub":{"ty":112,"body":408,"replaceable":false}},{"Pub":{"ty":113,"body":422,"replaceable":false}},{"Pub":{"ty":114,"body":426,"replaceable":false}},{"Pub":{"ty":115,"body":430,"replaceable":false}},{"Or":[438]},{"Pub":{"ty":116,"body":445,"replaceable":false}},{"Pub":{"ty":117,"body":449,"replaceable":false}},{"Or":[469]},{"Pub":{"ty":118,"body":474,"replaceable":false}},{"Pub":{"ty":119,"body":494,"replaceable":false}},{"Pub":{"ty":120,"body":504,"replaceable":false}},{"Pub":{"ty":121,"body":519,"replaceable":false}},{"Or":[520]},{"Or":[522]},{"Or":[524]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":527,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":531,"replaceable":false}},{"Pub":{"ty":122,"body":536,"replaceable":false}},{"Pub":{"ty":123,"body":543,"replaceable":false}},{"Pub":{"ty":124,"body":557,"replaceable":false}},{"Pub":{"ty":125,"body":583,"replaceable":false}},{"Pub":{"ty":126,"body":588,"replaceable":false}},{"Pub":{"ty":127,"body":592,"replaceable":false}},{"Pub":{"ty":128,"body":598,"replaceable":false}},{"Pub":{"ty":128,"body":600,"replaceable":false}},{"Or":[601,602,603,604,605,606,607,608,609,610]},{"Pub":{"ty":129,"body":612,"replaceable":false}},{"Pub":{"ty":130,"body":614,"replaceable":false}},{"Pub":{"ty":131,"body":622,"replaceable":false}},{"Pub":{"ty":132,"body":625,"replaceable":false}},{"Pub":{"ty":133,"body":629,"replaceable":false}},{"Pub":{"ty":134,"body":635,"replaceable":true}},{"PubReplace":{"ty":135,"body":639}},{"Pub":{"ty":136,"body":642,"replaceable":false}},{"Pub":{"ty":137,"body":651,"replaceable":false}},{"Pub":{"ty":138,"body":658,"replaceable":false}},{"Pub":{"ty":100,"body":664,"replaceable":false}},{"Pub":{"ty":139,"body":667,"replaceable":false}},{"Or":[668,669,670,671,672,673,674]},{"Pub":{"ty":140,"body":677,"replaceable":false}},{"Pub":{"ty":141,"body":683,"replaceable":true}},{"PubReplace":{"ty":142,"body":695}},{"PubReplace":{"ty":143,"body":707}},{"Pub":{"ty":144,"body":714,"replaceable":false}},{"Pub":{"ty":145,"body":721,"replaceable":false}},{"Pub":{"ty":146,"body":723,"replaceable":false}},{"Pub":{"ty":147,"body":727,"replaceable":false}},{"Pub":{"ty":148,"body":733,"replaceable":true}},{"PubReplace":{"ty":149,"body":737}},{"Pub":{"ty":150,"body":742,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,139],"prefixes":[{"ty":184,"op":121,"priority":999},{"ty":185,"op":771,"priority":999},{"ty":186,"op":772,"priority":999},{"ty":187,"op":773,"priority":999},{"ty":197,"op":141,"priority":2}],"infixes":[{"ty":177,"op":748,"priority":999,"has_rhs":false},{"ty":178,"op":757,"priority":999,"has_rhs":false},{"ty":180,"op":765,"priority":999,"has_rhs":false},{"ty":181,"op":766,"priority":999,"has_rhs":false},{"ty":182,"op":767,"priority":999,"has_rhs":false},{"ty":183,"op":770,"priority":12,"has_rhs":false},{"ty":188,"op":781,"priority":11,"has_rhs":true},{"ty":189,"op":787,"priority":10,"has_rhs":true},{"ty":190,"op":793,"priority":9,"has_rhs":true},{"ty":191,"op":799,"priority":8,"has_rhs":true},{"ty":192,"op":801,"priority":7,"has_rhs":true},{"ty":193,"op":807,"priority":6,"has_rhs":true},{"ty":194,"op":808,"priority":5,"has_rhs":true},{"ty":195,"op":810,"priority":4,"has_rhs":true},{"ty":196,"op":812,"priority":3,"has_rhs":true},{"ty":197,"op":813,"priority":2,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":false},{"ty":198,"op":837,"priority":1,"has_rhs":true}]}},{"Or":[838,840,842,844,846,848,850,852,854,856,858,860,862,864,866,868,870,872,874,876,878,880,882,884,886,888]},{"Or":[890]},{"Or":[894]},{"Pub":{"ty":152,"body":905,"replaceable":false}},{"Pub":{"ty":153,"body":913,"replaceable":true}},{"PubReplace":{"ty":154,"body":926}},{"Pub":{"ty":155,"body":933,"replaceable":false}},{"Pub":{"ty":156,"body":937,"replaceable":false}},{"Pub":{"ty":157,"body":944,"replaceable":true}},{"PubReplace":{"ty":158,"body":949}},{"Pub":{"ty":159,"body":962,"replaceable":false}},{"Pub":{"ty":160,"body":974,"replaceable":false}},{"Or":[982]},{"Pub":{"ty":161,"body":986,"replaceable":false}},{"Pub":{"ty":162,"body":995,"replaceable":false}},{"Pub":{"ty":163,"body":1005,"replaceable":false}},{"Or":[1006,1007,1008,1009]},{"Or":[1011,1013,1014,1015]},{"Pub":{"ty":164,"body":1024,"replaceable":false}},{"Pub":{"ty":165,"body":1027,"replaceable":false}},{"Pub":{"ty":166,"body":1030,"replaceable":false}},{"Pub":{"ty":167,"body":1041,"replaceable":false}},{"Pub":{"ty":168,"body":1051,"replaceable":false}},{"Pub":{"ty":169,"body":1055,"replaceable":false}},{"Or":[1061]},{"Or":[1063]},{"Pub":{"ty":170,"body":1067,"replaceable":false}},{"Pub":{"ty":171,"body":1072,"replaceable":false}},{"Or":[1075]},{"Pub":{"ty":172,"body":1080,"replaceable":false}},{"Pub":{"ty":173,"body":1090,"replaceable":false}},{"Or":[1096]},{"Pub":{"ty":174,"body":1099,"replaceable":false}},{"Pub":{"ty":175,"body":1101,"replaceable":false}},{"Pub":{"ty":176,"body":1103,"replaceable":false}},{"Pub":{"ty":177,"body":1111,"replaceable":false}},{"Pub":{"ty":178,"body":1122,"replaceable":false}},{"Or":[1126]},{"Pub":{"ty":179,"body":1128,"replaceable":false}},{"Pub":{"ty":180,"body":1138,"replaceable":false}},{"Pub":{"ty":181,"body":1141,"replaceable":false}},{"Pub":{"ty":182,"body":1144,"replaceable":false}},{"Pub":{"ty":183,"body":1149,"replaceable":false}},{"Pub":{"ty":184,"body":1151,"replaceable":false}},{"Or":[1157]},{"Pub":{"ty":185,"body":1160,"replaceable":false}},{"Pub":{"ty":186,"body":1163,"replaceable":false}},{"Pub":{"ty":187,"body":1166,"replaceable":false}},{"Pub":{"ty":188,"body":1176,"replaceable":false}},{"Pub":{"ty":189,"body":1184,"replaceable":false}},{"Pub":{"ty":190,"body":1192,"replaceable":false}},{"Or":[1196,1200]},{"Pub":{"ty":191,"body":1208,"replaceable":false}},{"Pub":{"ty":192,"body":1212,"replaceable":false}},{"Pub":{"ty":193,"body":1220,"replaceable":false}},{"Pub":{"ty":194,"body":1223,"replaceable":false}},{"Or":[1225,1227,1239,1241,1243]},{"Pub":{"ty":195,"body":1247,"replaceable":false}},{"Pub":{"ty":196,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1254,"replaceable":false}},{"Pub":{"ty":197,"body":1256,"replaceable":false}},{"Pub":{"ty":197,"body":1258,"replaceable":false}},{"Pub":{"ty":197,"body":1262,"replaceable":false}},{"Or":[1264,1266]},{"Or":[1274]},{"Pub":{"ty":198,"body":1300,"replaceable":false}},{"Pub":{"ty":199,"body":1303,"replaceable":false}},{"Pub":{"ty":200,"body":1307,"replaceable":false}},{"Or":[1310]},{"Or":[1312]},{"Pub":{"ty":201,"body":1322,"replaceable":false}},{"Pub":{"ty":202,"body":1330,"replaceable":false}},{"Pub":{"ty":203,"body":1345,"replaceable":false}},{"Pub":{"ty":204,"body":1374,"replaceable":false}},{"Or":[1384]},{"Or":[1389]},{"Or":[1394]},{"Or":[1399]},{"Or":[1404]},{"Or":[1412]},{"Or":[1427]},{"And":[[1],null]},{"Or":[158]},{"WithSkip":[2,3]},{"Rep":160},{"And":[[161],null]},{"Token":11},{"And":[[163],null]},{"ContextualToken":[4,"union"]},{"And":[[165],null]},{"Token":16},{"And":[[167],null]},{"Token":12},{"And":[[169],null]},{"Token":13},{"And":[[171],null]},{"Token":17},{"And":[[173],null]},{"Token":29},{"And":[[175],null]},{"And":[[25],null]},{"Opt":36},{"And":[[146,178],null]},{"Or":[179]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[181,182,183,184,185,186,187,188,189]},{"Inject":[180,190]},{"And":[[191],null]},{"And":[[28],null]},{"Or":[192,193]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[197,5],null]},{"Or":[198]},{"Opt":199},{"And":[[200],null]},{"Or":[196,201]},{"And":[[38,202],null]},{"Token":60},{"Opt":204},{"And":[[205,5],null]},{"Or":[203,206]},{"Token":58},{"And":[[195,207,208],1]},{"Or":[209]},{"Token":67},{"And":[[211],null]},{"Call":[151,[[2,6]]]},{"Call":[152,[[3,213]]]},{"And":[[214],null]},{"Or":[212,215]},{"Token":18},{"And":[[217],null]},{"Token":92},{"Opt":48},{"And":[[219,220],1]},{"Or":[218,221]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[223,224,225,226,227],2]},{"Or":[228]},{"Token":21},{"Opt":230},{"Token":35},{"Opt":232},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[241],null]},{"Or":[240,242]},{"And":[[231,233,234,235,236,237,11,238,239,243],4]},{"Or":[244]},{"Token":51},{"And":[[246,49],null]},{"Token":7},{"Token":90},{"Opt":249},{"And":[[248,250],null]},{"Or":[251]},{"Opt":14},{"Call":[151,[[2,12]]]},{"And":[[253,254],null]},{"Or":[255]},{"Call":[153,[[4,256]]]},{"And":[[257],null]},{"Token":59},{"And":[[64,259,49],1]},{"Or":[260]},{"Token":59},{"And":[[262,49],null]},{"Or":[263]},{"Opt":264},{"And":[[64,265],null]},{"Or":[266]},{"And":[[121],null]},{"Token":27},{"And":[[269],null]},{"Or":[268,270]},{"Opt":271},{"Token":18},{"Token":59},{"And":[[274,49],null]},{"Or":[275]},{"Opt":276},{"Token":61},{"And":[[278],null]},"Eof",{"And":[[280],null]},{"Or":[279,281]},{"And":[[272,273,277,282],2]},{"Or":[283]},{"Token":11},{"And":[[285],null]},{"ContextualToken":[4,"union"]},{"And":[[287],null]},{"Or":[286,288]},{"Token":92},{"Opt":31},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,292]]]},{"And":[[293],null]},{"Token":58},{"And":[[295],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,297]]]},{"Token":58},{"And":[[298,299],null]},{"Or":[294,296,300]},{"And":[[289,290,291,301],1]},{"Or":[302]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[304,305,306,49],2]},{"Or":[307]},{"Opt":36},{"And":[[309,49],null]},{"Or":[310]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[151,[[2,19]]]},{"Call":[152,[[3,315]]]},{"And":[[312,313,314,316],1]},{"Or":[317]},{"Token":92},{"Token":53},{"And":[[320,76],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,322]]]},{"And":[[323],null]},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,325]]]},{"And":[[326],null]},{"Or":[321,324,327]},{"Opt":328},{"And":[[319,329],1]},{"Or":[330]},{"Token":13},{"Token":92},{"Token":58},{"And":[[334],null]},{"Call":[152,[[3,1]]]},{"And":[[336],null]},{"Or":[335,337]},{"And":[[332,333,338],1]},{"Or":[339]},{"Token":35},{"Opt":341},{"Token":17},{"Opt":31},{"Token":23},{"And":[[345,49],null]},{"Or":[346]},{"Opt":347},{"And":[[49,348],null]},{"Or":[349]},{"Opt":37},{"And":[[342,343,344,350,351,23],2]},{"Or":[352]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[146,354,355,356,357,358,359,23],3]},{"Or":[360]},{"Opt":36},{"And":[[146,362],null]},{"Or":[363]},{"Inject":[364,24]},{"And":[[365],null]},{"And":[[28],null]},{"Or":[366,367]},{"WithSkip":[25,368]},{"Rep":369},{"Call":[152,[[3,370]]]},{"And":[[371],null]},{"Or":[372]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[144],null]},{"Token":10},{"And":[[378],null]},{"Token":8},{"And":[[380],null]},{"Token":20},{"And":[[382],null]},{"Token":21},{"And":[[384],null]},{"Token":22},{"And":[[386],null]},{"Token":35},{"And":[[388],null]},{"Token":65},{"And":[[390],null]},{"Token":7},{"And":[[392],null]},{"Token":92},{"Token":82},{"And":[[394,395],null]},{"Or":[396]},{"And":[[397],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[402,49],null]},{"Or":[403]},{"Opt":404},{"Token":58},{"And":[[399,400,401,405,406],1]},{"Or":[407]},{"Token":21},{"And":[[409],null]},{"Token":22},{"And":[[411],null]},{"Or":[410,412]},{"Token":92},{"Token":59},{"Token":53},{"And":[[416,76],null]},{"Or":[417]},{"Opt":418},{"Token":58},{"And":[[413,414,415,49,419,420],1]},{"Or":[421]},{"And":[[148],null]},{"Token":58},{"And":[[149,424],null]},{"Or":[423,425]},{"Rep":30},{"Call":[152,[[3,427]]]},{"And":[[10,428],null]},{"Or":[429]},{"Opt":36},{"And":[[146,431],null]},{"Or":[432]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[434,435]},{"Inject":[433,436]},{"And":[[437],null]},{"Call":[151,[[2,35]]]},{"Call":[151,[[2,32]]]},{"And":[[439,440],null]},{"Or":[441]},{"Call":[154,[[5,442]]]},{"And":[[443],null]},{"Or":[444]},{"Token":92},{"Opt":33},{"And":[[446,447],1]},{"Or":[448]},{"Token":59},{"Token":73},{"And":[[451],null]},"Eof",{"And":[[453],null]},{"Token":61},{"And":[[455],null]},{"Token":39},{"And":[[457],null]},{"Token":36},{"And":[[459],null]},{"Or":[456,458,460]},{"Not":461},{"Not":462},{"And":[[463],null]},{"Or":[452,454,464]},{"And":[[34,465],1]},{"Or":[466]},{"Rep":467},{"And":[[450,468],null]},{"Token":87},{"And":[[470],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[471,472,473]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[478],null]},"Eof",{"And":[[480],null]},{"Token":61},{"Not":482},{"Not":483},{"And":[[484],null]},{"Or":[479,481,485]},{"And":[[477,486],1]},{"Or":[487]},{"Rep":488},{"And":[[476,489],null]},{"Or":[490]},{"Opt":491},{"And":[[475,492],1]},{"Or":[493]},{"Token":10},{"Token":6},{"And":[[496],null]},{"Token":19},{"And":[[498],null]},{"Or":[497,499]},{"Call":[153,[[4,500]]]},{"Opt":501},{"And":[[495,502],null]},{"Or":[503]},{"Token":36},{"Token":61},{"And":[[506],null]},"Eof",{"And":[[508],null]},{"Token":39},{"Not":510},{"Not":511},{"And":[[512],null]},{"Or":[507,509,513]},{"And":[[49,33,514],null]},{"Or":[515]},{"Rep":516},{"And":[[505,517],1]},{"Or":[518]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[521],null]},{"Enter":[1,41]},{"And":[[523],null]},{"Token":60},{"And":[[525,45],null]},{"Or":[526]},{"Token":60},{"Opt":528},{"And":[[529,45],null]},{"Or":[530]},{"Token":60},{"And":[[532,45],null]},{"Or":[533]},{"And":[[41,534],null]},{"Or":[535]},{"Token":5},{"And":[[49,537,49],null]},{"Or":[538]},{"Call":[154,[[5,539]]]},{"Token":60},{"And":[[540,541,45],null]},{"Or":[542]},{"Token":92},{"And":[[544],null]},{"Token":18},{"And":[[546],null]},{"Token":19},{"And":[[548],null]},{"Or":[545,547,549]},{"And":[[46],null]},{"IsIn":3},{"And":[[552,47],null]},{"Or":[551,553]},{"Opt":554},{"And":[[550,555],null]},{"Or":[556]},{"IsIn":3},{"And":[[558],null]},{"IsIn":1},{"Token":60},{"And":[[560,561],null]},{"Or":[559,562]},{"Token":87},{"Call":[151,[[2,564]]]},{"Token":92},{"Token":53},{"And":[[566,567],null]},{"Or":[568]},{"Not":569},{"And":[[570,49],null]},{"Or":[571]},{"Call":[151,[[2,572]]]},{"Token":92},{"Token":53},{"And":[[574,575,49],null]},{"Or":[576]},{"Call":[151,[[2,577]]]},{"And":[[565,573,578],null]},{"Or":[579]},{"Call":[154,[[5,580]]]},{"And":[[563,581],null]},{"Or":[582]},{"Call":[151,[[2,49]]]},{"Call":[153,[[4,584]]]},{"Opt":9},{"And":[[585,586],null]},{"Or":[587]},{"Token":5},{"Token":92},{"And":[[589,590],null]},{"Or":[591]},{"Token":73},{"And":[[593,34],null]},{"Or":[594]},{"Rep":595},{"And":[[51,596],null]},{"Or":[597]},{"And":[[51],null]},{"Or":[599]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[611]},{"And":[[121,49],null]},{"Or":[613]},{"Token":67},{"Token":21},{"And":[[616],null]},{"Token":27},{"And":[[618],null]},{"Or":[617,619]},{"And":[[615,620,49],null]},{"Or":[621]},{"Token":81},{"And":[[623],null]},{"Or":[624]},{"Token":37},{"Token":38},{"And":[[626,627],null]},{"Or":[628]},{"Opt":58},{"And":[[49,630],null]},{"Or":[631]},{"Call":[153,[[4,632]]]},{"And":[[633],null]},{"Or":[634]},{"Token":61},{"Call":[151,[[2,49]]]},{"And":[[636,637],null]},{"Or":[638]},{"Token":82},{"And":[[640],null]},{"Or":[641]},{"Token":58},{"And":[[643,76],null]},{"Or":[644]},{"Opt":645},{"And":[[49,646],null]},{"Or":[647]},{"Call":[155,[[6,648]]]},{"And":[[649],null]},{"Or":[650]},{"Opt":10},{"Token":8},{"Call":[151,[[2,62]]]},{"Call":[153,[[4,654]]]},{"Opt":9},{"And":[[652,653,655,656],2]},{"Or":[657]},{"Token":59},{"And":[[64,659],null]},{"Or":[660]},{"Opt":661},{"And":[[662,49],null]},{"Or":[663]},{"Token":23},{"And":[[665,31,49],1]},{"Or":[666]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[675],null]},{"Or":[676]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[678,679]},{"Opt":680},{"And":[[40,681],null]},{"Or":[682]},{"Call":[151,[[2,64]]]},{"Token":63},{"Token":61},{"Opt":686},{"And":[[685,687],null]},{"Or":[688]},{"Opt":689},{"And":[[684,690],null]},{"Or":[691]},{"Call":[153,[[4,692]]]},{"And":[[693],null]},{"Or":[694]},{"Call":[151,[[2,69]]]},{"Token":63},{"Token":61},{"Opt":698},{"And":[[697,699],null]},{"Or":[700]},{"Opt":701},{"And":[[696,702],null]},{"Or":[703]},{"Call":[152,[[3,704]]]},{"And":[[705],null]},{"Or":[706]},{"Token":59},{"Not":708},{"And":[[70,709],null]},{"Token":92},{"Token":59},{"And":[[711,712,64],2]},{"Or":[710,713]},{"Token":28},{"Opt":715},{"Token":27},{"Opt":717},{"Token":92},{"And":[[716,718,719],null]},{"Or":[720]},{"And":[[80],null]},{"Or":[722]},{"Token":37},{"Token":38},{"And":[[724,725],null]},{"Or":[726]},{"Opt":74},{"And":[[64,728],null]},{"Or":[729]},{"Call":[153,[[4,730]]]},{"And":[[731],null]},{"Or":[732]},{"Token":61},{"Call":[151,[[2,64]]]},{"And":[[734,735],null]},{"Or":[736]},{"Token":77},{"Token":27},{"Opt":739},{"And":[[738,740,64],null]},{"Or":[741]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":745},{"And":[[743,744,746,114],null]},{"Or":[747]},{"IsIn":2},{"Not":78},{"And":[[749,750],null]},{"IsIn":2},{"Not":752},{"And":[[753],null]},{"Or":[751,754]},{"And":[[755,114],null]},{"Or":[756]},{"Token":62},{"Token":92},{"And":[[759],null]},{"Token":89},{"And":[[761],null]},{"Or":[760,762]},{"And":[[758,763],null]},{"Or":[764]},{"Call":[155,[[6,76]]]},{"Token":83},{"Token":5},{"And":[[768,50],null]},{"Or":[769]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[774],null]},{"Token":69},{"And":[[776],null]},{"Token":71},{"And":[[778],null]},{"Or":[775,777,779]},{"Call":[128,[[1,780]]]},{"Token":73},{"And":[[782],null]},{"Token":75},{"And":[[784],null]},{"Or":[783,785]},{"Call":[128,[[1,786]]]},{"ContextualToken":[45,"<<"]},{"And":[[788],null]},{"ContextualToken":[47,">>"]},{"And":[[790],null]},{"Or":[789,791]},{"Call":[128,[[1,792]]]},{"ContextualToken":[49,"&&"]},{"Not":794},{"Token":77},{"And":[[795,796],null]},{"Or":[797]},{"Call":[128,[[1,798]]]},{"Token":84},{"Call":[128,[[1,800]]]},{"ContextualToken":[50,"||"]},{"Not":802},{"Token":79},{"And":[[803,804],null]},{"Or":[805]},{"Call":[128,[[1,806]]]},{"Call":[128,[[1,133]]]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,809]]]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,811]]]},{"Call":[128,[[1,141]]]},{"Token":53},{"And":[[814],null]},{"Token":74},{"And":[[816],null]},{"Token":76},{"And":[[818],null]},{"Token":68},{"And":[[820],null]},{"Token":70},{"And":[[822],null]},{"Token":72},{"And":[[824],null]},{"Token":78},{"And":[[826],null]},{"Token":80},{"And":[[828],null]},{"Token":85},{"And":[[830],null]},{"ContextualToken":[48,">>="]},{"And":[[832],null]},{"ContextualToken":[46,"<<="]},{"And":[[834],null]},{"Or":[815,817,819,821,823,825,827,829,831,833,835]},{"Call":[128,[[1,836]]]},{"And":[[80],null]},{"Token":92},{"And":[[839],null]},{"Token":87},{"And":[[841],null]},{"Token":18},{"And":[[843],null]},{"Token":19},{"And":[[845],null]},{"Token":41},{"And":[[847],null]},{"Token":60},{"And":[[849],null]},{"Token":37},{"And":[[851],null]},{"Token":43},{"And":[[853],null]},{"Token":79},{"And":[[855],null]},{"Token":31},{"And":[[857],null]},{"Token":39},{"And":[[859],null]},{"Token":14},{"And":[[861],null]},{"Token":25},{"And":[[863],null]},{"Token":24},{"And":[[865],null]},{"Token":23},{"And":[[867],null]},{"Token":30},{"And":[[869],null]},{"Token":26},{"And":[[871],null]},{"Token":32},{"And":[[873],null]},{"Token":33},{"And":[[875],null]},{"Token":77},{"And":[[877],null]},{"Token":67},{"And":[[879],null]},{"Token":75},{"And":[[881],null]},{"Token":82},{"And":[[883],null]},{"Token":63},{"And":[[885],null]},{"Token":64},{"And":[[887],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[889],null]},{"Var":0},{"Exit":[2,891]},{"Exit":[0,892]},{"And":[[893],null]},{"Token":89},{"And":[[895],null]},{"Token":90},{"And":[[897],null]},{"Token":91},{"And":[[899],null]},{"Token":86},{"And":[[901],null]},{"Token":88},{"And":[[903],null]},{"Or":[896,898,900,902,904]},{"Token":92},{"Token":82},{"And":[[906,907],null]},{"Or":[908]},{"Not":909},{"Opt":82},{"And":[[910,40,911],null]},{"Or":[912]},{"IsIn":0},{"Not":914},{"Call":[151,[[2,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[917,918],null]},{"Or":[919]},{"Opt":920},{"And":[[916,921],null]},{"Or":[922]},{"Call":[152,[[3,923]]]},{"And":[[915,924],null]},{"Or":[925]},{"Token":92},{"Token":59},{"And":[[928,76],null]},{"Or":[929]},{"Opt":930},{"And":[[927,931],1]},{"Or":[932]},{"Token":37},{"Token":38},{"And":[[934,935],null]},{"Or":[936]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[938,939],null]},{"Or":[940]},{"Call":[153,[[4,941]]]},{"And":[[942],null]},{"Or":[943]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[151,[[2,946]]]},{"And":[[945,947],null]},{"Or":[948]},{"Token":58},{"And":[[950,76],null]},{"Token":61},{"Call":[151,[[2,76]]]},{"And":[[952,953],null]},{"Or":[951,954]},{"Opt":955},{"And":[[76,956],null]},{"Or":[957]},{"Call":[79,[[0,958]]]},{"Call":[155,[[6,959]]]},{"And":[[960],null]},{"Or":[961]},{"Token":26},{"Opt":963},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[968,49,92],null]},{"Call":[79,[[0,76]]]},{"And":[[970],null]},{"Or":[969,971]},{"And":[[964,965,966,967,972],null]},{"Or":[973]},{"Token":61},{"And":[[975],null]},{"Token":79},{"Not":977},{"Not":978},{"And":[[979],null]},{"Or":[976,980]},{"And":[[13,981],1]},{"Token":31},{"Opt":76},{"And":[[983,984],null]},{"Or":[985]},{"Token":33},{"And":[[987],null]},{"Token":32},{"And":[[989],null]},{"Or":[988,990]},{"Token":87},{"Opt":992},{"And":[[991,993],null]},{"Or":[994]},{"Token":35},{"Opt":996},{"WithSkip":[94,93]},{"Rep":998},{"Call":[152,[[3,999]]]},{"And":[[997,1000],null]},{"Or":[1001]},{"Call":[79,[[0,1002]]]},{"And":[[1003],null]},{"Or":[1004]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1010],null]},{"Token":58},{"And":[[1012],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1018,76],1]},{"Or":[1019]},{"Opt":1020},{"Token":58},{"And":[[1016,64,1017,1021,1022],1]},{"Or":[1023]},{"Token":59},{"And":[[1025,49],null]},{"Or":[1026]},{"Token":58},{"And":[[1028],null]},{"Or":[1029]},{"And":[[78],null]},"Eof",{"And":[[1032],null]},{"Token":58},{"And":[[1034],null]},{"Or":[1031,1033,1035]},{"And":[[76,1036],1]},{"Or":[1037]},{"Enter":[2,1038]},{"And":[[1039],null]},{"Or":[1040]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1044,1045]},{"And":[[1043,1046],null]},{"Or":[1047]},{"Opt":1048},{"And":[[1042,101,92,1049],1]},{"Or":[1050]},{"Opt":105},{"Token":25},{"And":[[1052,1053,101,92],2]},{"Or":[1054]},{"Token":9},{"Token":53},{"And":[[1056,64,1057],1]},{"Or":[1058]},{"Opt":1059},{"And":[[1060,102],1]},{"Enter":[0,76]},{"And":[[1062],null]},{"Opt":105},{"Token":24},{"And":[[1064,1065,92],2]},{"Or":[1066]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1068,1069,64,1070,102,92],2]},{"Or":[1071]},{"Token":87},{"Token":59},{"And":[[1073,1074],null]},{"Token":30},{"Rep":107},{"Call":[152,[[3,1077]]]},{"And":[[1076,102,1078],1]},{"Or":[1079]},{"Token":52},{"Enter":[2,76]},{"Token":61},{"And":[[1083],null]},"Eof",{"And":[[1085],null]},{"And":[[78],null]},{"Or":[1084,1086,1087]},{"And":[[108,1081,1082,1088],1]},{"Or":[1089]},{"Token":79},{"And":[[1091,64],null]},{"Or":[1092]},{"Rep":1093},{"Opt":109},{"And":[[64,1094,1095],null]},{"Token":14},{"And":[[1097,76],null]},{"Or":[1098]},{"And":[[148],null]},{"Or":[1100]},{"And":[[149],null]},{"Or":[1102]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1106},{"And":[[1104,1105,1107,114],null]},{"Or":[1108]},{"And":[[76,1109],null]},{"Or":[1110]},{"IsIn":2},{"Not":78},{"And":[[1112,1113],null]},{"IsIn":2},{"Not":1115},{"And":[[1116],null]},{"Or":[1114,1117]},{"And":[[1118,114],null]},{"Or":[1119]},{"And":[[76,1120],null]},{"Or":[1121]},{"Call":[151,[[2,115]]]},{"Call":[153,[[4,1123]]]},{"Call":[79,[[0,1124]]]},{"And":[[1125],null]},{"And":[[76],null]},{"Or":[1127]},{"Token":62},{"Token":92},{"And":[[1130],null]},{"Token":89},{"And":[[1132],null]},{"Or":[1131,1133]},{"And":[[1129,1134],null]},{"Or":[1135]},{"And":[[76,1136],null]},{"Or":[1137]},{"Call":[155,[[6,76]]]},{"And":[[76,1139],null]},{"Or":[1140]},{"Token":83},{"And":[[76,1142],null]},{"Or":[1143]},{"Token":5},{"And":[[1145,50],null]},{"Or":[1146]},{"And":[[76,1147],null]},{"Or":[1148]},{"And":[[121,76],null]},{"Or":[1150]},{"Token":77},{"Token":87},{"Opt":1153},{"Token":27},{"Opt":1155},{"And":[[1152,1154,1156],null]},{"Token":67},{"And":[[1158,76],null]},{"Or":[1159]},{"Token":75},{"And":[[1161,76],null]},{"Or":[1162]},{"Token":82},{"And":[[1164,76],null]},{"Or":[1165]},{"Token":67},{"And":[[1167],null]},{"Token":69},{"And":[[1169],null]},{"Token":71},{"And":[[1171],null]},{"Or":[1168,1170,1172]},{"Call":[128,[[1,1173]]]},{"And":[[76,1174,76],null]},{"Or":[1175]},{"Token":73},{"And":[[1177],null]},{"Token":75},{"And":[[1179],null]},{"Or":[1178,1180]},{"Call":[128,[[1,1181]]]},{"And":[[76,1182,76],null]},{"Or":[1183]},{"ContextualToken":[45,"<<"]},{"And":[[1185],null]},{"ContextualToken":[47,">>"]},{"And":[[1187],null]},{"Or":[1186,1188]},{"Call":[128,[[1,1189]]]},{"And":[[76,1190,76],null]},{"Or":[1191]},{"IsIn":2},{"Not":78},{"Var":1},{"And":[[1193,1194,1195],null]},{"IsIn":2},{"Not":1197},{"Var":1},{"And":[[1198,1199],null]},{"ContextualToken":[49,"&&"]},{"Not":1201},{"Token":77},{"And":[[1202,1203],null]},{"Or":[1204]},{"Call":[128,[[1,1205]]]},{"And":[[76,1206,76],null]},{"Or":[1207]},{"Token":84},{"Call":[128,[[1,1209]]]},{"And":[[76,1210,76],null]},{"Or":[1211]},{"ContextualToken":[50,"||"]},{"Not":1213},{"Token":79},{"And":[[1214,1215],null]},{"Or":[1216]},{"Call":[128,[[1,1217]]]},{"And":[[76,1218,76],null]},{"Or":[1219]},{"Call":[128,[[1,133]]]},{"And":[[76,1221,76],null]},{"Or":[1222]},{"Token":54},{"And":[[1224],null]},{"Token":55},{"And":[[1226],null]},{"ContextualToken":[46,"<<="]},{"And":[[1228],null]},{"ContextualToken":[48,">>="]},{"And":[[1230],null]},{"Or":[1229,1231]},{"Not":1232},{"Token":41},{"And":[[1234],null]},{"Token":42},{"And":[[1236],null]},{"Or":[1235,1237]},{"And":[[1233,1238],null]},{"Token":57},{"And":[[1240],null]},{"Token":56},{"And":[[1242],null]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,1244]]]},{"And":[[76,1245,76],null]},{"Or":[1246]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,1248]]]},{"And":[[76,1249,76],null]},{"Or":[1250]},{"Call":[128,[[1,141]]]},{"And":[[76,1252,76],null]},{"Or":[1253]},{"And":[[141,76],null]},{"Or":[1255]},{"And":[[76,140],null]},{"Or":[1257]},{"Token":63},{"Not":77},{"And":[[1259,1260],null]},{"Or":[1261]},{"Token":63},{"And":[[1263],null]},{"Token":64},{"And":[[1265],null]},{"Not":77},{"Not":1267},{"Token":39},{"IsIn":0},{"And":[[1269,1270],null]},{"Or":[1271]},{"Not":1272},{"And":[[140,1268,1273],null]},{"Token":53},{"And":[[1275],null]},{"Token":74},{"And":[[1277],null]},{"Token":76},{"And":[[1279],null]},{"Token":68},{"And":[[1281],null]},{"Token":70},{"And":[[1283],null]},{"Token":72},{"And":[[1285],null]},{"Token":78},{"And":[[1287],null]},{"Token":80},{"And":[[1289],null]},{"Token":85},{"And":[[1291],null]},{"ContextualToken":[48,">>="]},{"And":[[1293],null]},{"ContextualToken":[46,"<<="]},{"And":[[1295],null]},{"Or":[1276,1278,1280,1282,1284,1286,1288,1290,1292,1294,1296]},{"Call":[128,[[1,1297]]]},{"And":[[76,1298,76],null]},{"Or":[1299]},{"Token":65},{"And":[[1301,145],null]},{"Or":[1302]},{"Token":65},{"Token":82},{"And":[[1304,1305,145],null]},{"Or":[1306]},{"Call":[151,[[2,147]]]},{"Call":[155,[[6,1308]]]},{"And":[[1309],null]},{"Rep":143},{"And":[[1311],null]},{"Token":92},{"Token":53},{"And":[[1314,76],null]},{"Call":[151,[[2,147]]]},{"Call":[153,[[4,1316]]]},{"And":[[1317],null]},{"Or":[1315,1318]},{"Opt":1319},{"And":[[1313,1320],1]},{"Or":[1321]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1325},{"Rep":150},{"Call":[152,[[3,1327]]]},{"And":[[1323,1324,1326,1328],null]},{"Or":[1329]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1333},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1335,1336,1337],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1339,1340,1341],null]},{"Or":[1338,1342]},{"And":[[1331,1332,1334,1343],null]},{"Or":[1344]},{"Token":37},{"And":[[1346],null]},{"Token":38},{"And":[[1348],null]},{"Token":39},{"And":[[1350],null]},{"Token":40},{"And":[[1352],null]},{"Token":43},{"And":[[1354],null]},{"Token":44},{"And":[[1356],null]},{"Or":[1347,1349,1351,1353,1355,1357]},{"Not":1358},"Any",{"And":[[1359,1360],null]},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1362,1363,1364],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1366,1367,1368],null]},{"Token":39},{"Rep":150},{"Token":40},{"And":[[1370,1371,1372],null]},{"Or":[1361,1365,1369,1373]},{"Var":2},"Eof",{"And":[[1376],null]},{"Token":61},{"And":[[1378],null]},{"Or":[1377,1379]},{"And":[[1375,1380],1]},{"Or":[1381]},{"Rep":1382},{"And":[[1383],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[156,[[7,1385],[8,1386],[9,1387]]]},{"And":[[1388],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[156,[[7,1390],[8,1391],[9,1392]]]},{"And":[[1393],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[156,[[7,1395],[8,1396],[9,1397]]]},{"And":[[1398],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[156,[[7,1400],[8,1401],[9,1402]]]},{"And":[[1403],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[157,[[10,1406],[11,1407]]]},{"Var":9},{"Layer":[1408,1409]},{"Var":8},{"And":[[1405,1410,1411],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[157,[[10,1414],[11,1415]]]},{"Var":11},{"And":[[1413,1416,1417],1]},{"Var":11},{"Not":1419},"Any",{"And":[[1420,1421],null]},{"Or":[1422]},{"And":[[1423],null]},{"Or":[1418,1424]},{"Rep":1425},{"And":[[1426],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From f3bda4e6f84b6952040130b59961e467971db52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 10/36] fix: a cached rule taken from the cache leaves prev and
 replacement as a fresh parse does

---
 fall/parse/src/syn_engine/mod.rs    |  7 ++++---
 fall/parse/src/syn_engine/parser.rs | 26 ++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index b362028..a3b0db3 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use fall_tree::{NodeType, TextEdit, TextUnit, TextEditOp, tu, TextRange, ERROR};
 use crate::lex_engine::Token;
-use crate::{Expr, ExprRef};
+use crate::{Expr, ExprRef, NodeTypeRef};
 
 pub struct Grammar<'g> {
     pub node_types: &'g [NodeType],
@@ -34,7 +34,8 @@ pub(crate) enum Event {
     Start { ty: NodeType, forward_parent: Option<u32> },
     Token { ty: NodeType, n_raw_tokens: u16 },
     End,
-    Cached { key: u32, n_events: u32 },
+    /// `replacement` and `prev` are the parser state the cached rule left behind.
+    Cached { key: u32, n_events: u32, replacement: Option<NodeTypeRef>, prev: Option<NodeType> },
 }
 
 pub(crate) fn salvage_segments(
@@ -79,7 +80,7 @@ pub(crate) fn salvage_segments(
             Event::Token { n_raw_tokens, .. } =>
                 eat_tokens(&mut raw_token_pos, &mut text_pos, n_raw_tokens),
 
-            Event::Cached { key, n_events } => {
+            Event::Cached { key, n_events, .. } => {
                 let start = text_pos;
                 let mut n_tokens = 0u32;
                 let mut has_error = false;
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 2551d50..118d676 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -115,8 +115,13 @@ impl<'g> Parser<'g> {
                 if end.0 > end.1 {
                     return None;
                 }
+                let segment = &events[start_event as usize..(start_event + n_events) as usize];
+                if let Event::Cached { replacement, prev, .. } = events[start_event as usize - 1] {
+                    self.replacement = replacement;
+                    self.prev = prev.or(self.prev);
+                }
                 if !self.predicate_mode {
-                    self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                    self.events.extend_from_slice(segment);
                 }
                 return Some(end);
             }
@@ -127,18 +132,31 @@ impl<'g> Parser<'g> {
 
     pub fn start_cached(&mut self, expr: ExprRef) -> Mark {
         let mark = self.mark();
-        self.event(Event::Cached { key: expr.0, n_events: 0 });
+        self.event(Event::Cached { key: expr.0, n_events: 0, replacement: None, prev: None });
+        self.replacement = None;
         mark
     }
 
     pub fn finish_cached(&mut self, mark: Mark) {
         if !self.predicate_mode {
-            let len = self.events.len() as u32 - (mark.event + 1);
+            let segment = &self.events[mark.event as usize + 1..];
+            let has_nodes = segment.iter().any(|e| match e {
+                Event::Start { .. } => true,
+                _ => false,
+            });
+            let len = segment.len() as u32;
+            let left_replacement = self.replacement;
+            let left_prev = if has_nodes { self.prev } else { None };
             match self.events[mark.event as usize] {
-                Event::Cached { ref mut n_events, .. } => *n_events = len,
+                Event::Cached { ref mut n_events, ref mut replacement, ref mut prev, .. } => {
+                    *n_events = len;
+                    *replacement = left_replacement;
+                    *prev = left_prev;
+                }
                 _ => unreachable!(),
             }
         }
+        self.replacement = self.replacement.or(mark.replacement);
     }
 
     pub fn reopen(&mut self) {
-- 
2.43.0


From 729f4e3d7ede02f890c89af5370e6d001c8dc468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 11/36] fix: editor services and generator do not panic on AST
 definitions without a name and rules without a body

---
 fall/gen/src/generate/codegen.rs              | 38 ++++++++++---------
 .../src/analysis/query/ast_node_traits.rs     |  2 +-
 .../fall/src/analysis/query/resolve_method.rs |  4 +-
 .../analysis/query/resolve_pratt_variant.rs   | 12 +++---
 lang/fall/src/editor/references/mod.rs        |  4 +-
 lang/fall/syntax/src/ast_ext.rs               |  8 ++--
 lang/fall/syntax/src/fall.fall                | 14 +++----
 lang/fall/syntax/src/fall.rs                  | 28 +++++++-------
 8 files changed, 58 insertions(+), 52 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 28a5d8b..08a47c8 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -72,16 +72,17 @@ impl<'a, 'f> Codegen<'a, 'f> {
 
         context.insert("lex_rules", &lex_rules);
 
-        let verbatim = self.file().verbatim_def().map(|v| v.contents());
+        let verbatim = self.file().verbatim_def().and_then(|v| v.contents());
         context.insert("verbatim", &verbatim);
         context.insert("has_whitespace_binder", &verbatim.map(|t| t.contains("whitespace_binder")).unwrap_or(false));
 
 
         if let Some(ast) = self.file().ast_def() {
             context.insert("ast_nodes", &ast.ast_nodes().map(|node| {
+                let name = ast_name(node.name())?;
                 Ok(CtxAstNode {
-                    struct_name: camel(node.name()),
-                    node_type_name: scream(node.name()),
+                    struct_name: camel(name),
+                    node_type_name: scream(name),
                     methods: node.methods()
                         .map(|method| self.gen_method(method))
                         .collect::<Result<Vec<CtxMethod>>>()?,
@@ -89,15 +90,15 @@ impl<'a, 'f> Codegen<'a, 'f> {
             }).collect::<Result<Vec<_>>>()?);
 
             context.insert("ast_classes", &ast.ast_classes().map(|class| {
-                CtxAstClass {
-                    enum_name: camel(class.name()),
+                Ok(CtxAstClass {
+                    enum_name: camel(ast_name(class.name())?),
                     variants: class.variants().map(|variant| (scream(variant), camel(variant))).collect(),
-                }
-            }).collect::<Vec<_>>());
+                })
+            }).collect::<Result<Vec<_>>>()?);
 
             context.insert("ast_traits", &ast.ast_traits().map(|trait_| {
                 Ok(CtxAstTrait {
-                    trait_name: camel(trait_.name()),
+                    trait_name: camel(ast_name(trait_.name())?),
                     methods: trait_.methods()
                         .map(|method| self.gen_method(method))
                         .collect::<Result<Vec<CtxMethod>>>()?,
@@ -105,8 +106,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         .filter(|&node| {
                             self.analysis.ast_node_traits(node).contains(&trait_)
                         })
-                        .map(|node| camel(node.name()))
-                        .collect(),
+                        .map(|node| Ok(camel(ast_name(node.name())?)))
+                        .collect::<Result<Vec<_>>>()?,
                 })
             }).collect::<Result<Vec<_>>>()?);
         }
@@ -149,7 +150,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 
     fn gen_rule(&mut self, rule: SynRule<'f>) -> Result<dst::Expr> {
-        let body = match (rule.is_pratt(), rule.body()) {
+        let body = match (rule.is_pratt(), rule.body().ok_or(format_err!("Rule without a body"))?) {
             (true, Expr::BlockExpr(block)) => {
                 let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                 self.push_expr(pratt)
@@ -368,23 +369,23 @@ impl<'a, 'f> Codegen<'a, 'f> {
             MethodKind::NodeAccessor(kind, arity) => {
                 match (kind, arity) {
                     (ChildKind::AstNode(n), Arity::Single) =>
-                        (format!("{}<'f>", camel(n.name())),
+                        (format!("{}<'f>", camel(ast_name(n.name())?)),
                          "rt::AstChildren::new(self.node().children()).next().unwrap()".to_owned()),
                     (ChildKind::AstNode(n), Arity::Optional) =>
-                        (format!("Option<{}<'f>>", camel(n.name())),
+                        (format!("Option<{}<'f>>", camel(ast_name(n.name())?)),
                          "rt::AstChildren::new(self.node().children()).next()".to_owned()),
                     (ChildKind::AstNode(n), Arity::Many) =>
-                        (format!("rt::AstChildren<'f, {}<'f>>", camel(n.name())),
+                        (format!("rt::AstChildren<'f, {}<'f>>", camel(ast_name(n.name())?)),
                          "rt::AstChildren::new(self.node().children())".to_owned()),
 
                     (ChildKind::AstClass(n), Arity::Single) =>
-                        (format!("{}<'f>", camel(n.name())),
+                        (format!("{}<'f>", camel(ast_name(n.name())?)),
                          "rt::AstChildren::new(self.node().children()).next().unwrap()".to_owned()),
                     (ChildKind::AstClass(n), Arity::Optional) =>
-                        (format!("Option<{}<'f>>", camel(n.name())),
+                        (format!("Option<{}<'f>>", camel(ast_name(n.name())?)),
                          "rt::AstChildren::new(self.node().children()).next()".to_owned()),
                     (ChildKind::AstClass(n), Arity::Many) =>
-                        (format!("rt::AstChildren<'f, {}<'f>>", camel(n.name())),
+                        (format!("rt::AstChildren<'f, {}<'f>>", camel(ast_name(n.name())?)),
                          "rt::AstChildren::new(self.node().children())".to_owned()),
 
                     (ChildKind::Token(lex_rule), arity) => {
@@ -407,6 +408,9 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 }
 
+fn ast_name(name: Option<Text>) -> Result<Text> {
+    name.ok_or(format_err!("AST definition without a name"))
+}
 
 #[derive(Serialize)]
 struct CtxLexRule<'f> {
diff --git a/lang/fall/src/analysis/query/ast_node_traits.rs b/lang/fall/src/analysis/query/ast_node_traits.rs
index bb9ca17..7ed7730 100644
--- a/lang/fall/src/analysis/query/ast_node_traits.rs
+++ b/lang/fall/src/analysis/query/ast_node_traits.rs
@@ -9,7 +9,7 @@ use crate::syntax::{AstTraitDef, COLON, IDENT};
 impl<'f> db::OnceQExecutor<'f> for super::AstNodeTraits<'f> {
     fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> Arc<Vec<AstTraitDef<'f>>> {
         let traits: HashMap<Text, AstTraitDef> = db.file().ast_def().map(|ast| {
-            ast.ast_traits().map(|trait_| (trait_.name(), trait_)).collect()
+            ast.ast_traits().filter_map(|trait_| Some((trait_.name()?, trait_))).collect()
         }).unwrap_or_default();
 
         let refs = self.0.node().children()
diff --git a/lang/fall/src/analysis/query/resolve_method.rs b/lang/fall/src/analysis/query/resolve_method.rs
index 4763681..72bb135 100644
--- a/lang/fall/src/analysis/query/resolve_method.rs
+++ b/lang/fall/src/analysis/query/resolve_method.rs
@@ -29,10 +29,10 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolveMethod<'f> {
 
 fn child_kind<'f>(file: FallFile<'f>, selector: AstSelector<'f>) -> Option<ChildKind<'f>> {
     let ast_def = file.ast_def()?;
-    if let Some(ast) = ast_def.ast_nodes().find(|a| a.name() == selector.child()) {
+    if let Some(ast) = ast_def.ast_nodes().find(|a| a.name() == Some(selector.child())) {
         return Some(ChildKind::AstNode(ast));
     }
-    if let Some(class) = ast_def.ast_classes().find(|c| c.name() == selector.child()) {
+    if let Some(class) = ast_def.ast_classes().find(|c| c.name() == Some(selector.child())) {
         return Some(ChildKind::AstClass(class));
     }
     if let Some(lex_rule) = file.tokenizer_def().and_then(|td| td.lex_rules().find(|r| r.node_type() == selector.child())) {
diff --git a/lang/fall/src/analysis/query/resolve_pratt_variant.rs b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
index 476e9fa..1c8fd53 100644
--- a/lang/fall/src/analysis/query/resolve_pratt_variant.rs
+++ b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
@@ -28,14 +28,16 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
             }
         };
 
+        let body = rule.body()?;
+
         if kind == "atom" {
             if priority.is_some() {
                 d.error(name_ident, "Atom rules don't have priority")
             }
-            return Some(PratVariant::Atom(rule.body()));
+            return Some(PratVariant::Atom(body));
         }
 
-        let args = match rule.body() {
+        let args = match body {
             Expr::BlockExpr(block) => match block.alts().collect_tuple() {
                 Some((alt, )) => match alt {
                     Expr::SeqExpr(args) => args.parts(),
@@ -61,7 +63,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Postfix rule requires a single expression and an operation"
                     );
                     return None;
@@ -75,7 +77,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Prefix rule requires an operation and a single expression"
                     );
                     return None;
@@ -88,7 +90,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     ),
                     (None, _) => {
                         d.error(
-                            rule.body().node(),
+                            body.node(),
                             "Binary expression requires a left hand side expression, an operator \
                              and a right hand side expression"
                         );
diff --git a/lang/fall/src/editor/references/mod.rs b/lang/fall/src/editor/references/mod.rs
index 2473fe5..27ac78b 100644
--- a/lang/fall/src/editor/references/mod.rs
+++ b/lang/fall/src/editor/references/mod.rs
@@ -110,13 +110,13 @@ impl<'f> From<Parameter<'f>> for Declaration<'f> {
 
 impl<'f> From<AstNodeDef<'f>> for Declaration<'f> {
     fn from(rule: AstNodeDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), rule.name_ident())
     }
 }
 
 impl<'f> From<AstClassDef<'f>> for Declaration<'f> {
     fn from(rule: AstClassDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), rule.name_ident())
     }
 }
 
diff --git a/lang/fall/syntax/src/ast_ext.rs b/lang/fall/syntax/src/ast_ext.rs
index 2f1e0bb..de94dc8 100644
--- a/lang/fall/syntax/src/ast_ext.rs
+++ b/lang/fall/syntax/src/ast_ext.rs
@@ -111,8 +111,8 @@ impl<'f> SynRule<'f> {
 }
 
 impl<'f> VerbatimDef<'f> {
-    pub fn contents(&self) -> Text<'f> {
-        lit_body(self.literal_string()).trim()
+    pub fn contents(&self) -> Option<Text<'f>> {
+        self.literal_string().map(|s| lit_body(s).trim())
     }
 }
 
@@ -123,8 +123,8 @@ impl<'f> TestDef<'f> {
 }
 
 impl<'f> AstClassDef<'f> {
-    pub fn name(&self) -> Text<'f> {
-        child_of_type(self.node(), IDENT).unwrap().text()
+    pub fn name(&self) -> Option<Text<'f>> {
+        self.name_ident().map(|ident| ident.text())
     }
 
     pub fn variants<'a>(&'a self) -> Box<dyn Iterator<Item=Text<'f>> + 'a> {
diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index 5f26d7c..ec3725c 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -325,7 +325,7 @@ ast {
     attributes attributes?
     name_ident ident?
     name ident?.text
-    body expr
+    body expr?
     parameters parameters?
   }
 
@@ -349,7 +349,7 @@ ast {
   node attribute_value { }
 
   node verbatim_def {
-    literal_string hash_string.text
+    literal_string hash_string?.text
   }
 
   node ast_def {
@@ -359,19 +359,19 @@ ast {
   }
 
   node ast_node_def {
-    name_ident ident
-    name ident.text
+    name_ident ident?
+    name ident?.text
     methods method_def*
   }
 
   node ast_trait_def {
-    name_ident ident
-    name ident.text
+    name_ident ident?
+    name ident?.text
     methods method_def*
   }
 
   node ast_class_def {
-    name_ident ident
+    name_ident ident?
   }
 
   node method_def {
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 6929f7e..6739a39 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -302,8 +302,8 @@ impl<'f> SynRule<'f> {
     pub fn name(&self) -> Option<rt::Text<'f>> {
         rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
-    pub fn body(&self) -> Expr<'f> {
-        rt::AstChildren::new(self.node().children()).next().unwrap()
+    pub fn body(&self) -> Option<Expr<'f>> {
+        rt::AstChildren::new(self.node().children()).next()
     }
     pub fn parameters(&self) -> Option<Parameters<'f>> {
         rt::AstChildren::new(self.node().children()).next()
@@ -449,8 +449,8 @@ impl<'f> rt::AstNode<'f> for VerbatimDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> VerbatimDef<'f> {
-    pub fn literal_string(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), HASH_STRING).text()
+    pub fn literal_string(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), HASH_STRING).map(|n| n.text())
     }
 }
 impl<'f> ::std::fmt::Debug for VerbatimDef<'f> {
@@ -503,11 +503,11 @@ impl<'f> rt::AstNode<'f> for AstNodeDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstNodeDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
-    pub fn name(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), IDENT).text()
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
     pub fn methods(&self) -> rt::AstChildren<'f, MethodDef<'f>> {
         rt::AstChildren::new(self.node().children())
@@ -533,11 +533,11 @@ impl<'f> rt::AstNode<'f> for AstTraitDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstTraitDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
-    pub fn name(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), IDENT).text()
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
     pub fn methods(&self) -> rt::AstChildren<'f, MethodDef<'f>> {
         rt::AstChildren::new(self.node().children())
@@ -563,8 +563,8 @@ impl<'f> rt::AstNode<'f> for AstClassDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstClassDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
 }
 impl<'f> ::std::fmt::Debug for AstClassDef<'f> {
-- 
2.43.0


From ecd2d3a98fcbf7c7331005e040b7558470727664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 12/36] fix: reformatting a grammar file does not put two
 spaces around an empty alternative

---
 lang/fall/src/editor/formatter.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lang/fall/src/editor/formatter.rs b/lang/fall/src/editor/formatter.rs
index c951fa9..620971e 100644
--- a/lang/fall/src/editor/formatter.rs
+++ b/lang/fall/src/editor/formatter.rs
@@ -44,7 +44,7 @@ impl<'r> Spacer<'r> {
     fn apply<'f>(&self, node: Node<'f>, edit: &mut FileEdit<'f>) {
         for &rule in self.rules {
             let (spaces, ws_node, before_ws_node) =
-                match (rule, sibling(node, Direction::Right), sibling(node, Direction::Left)) {
+                match (rule, neighbor(node, Direction::Right), neighbor(node, Direction::Left)) {
                     (Rule::After(rty, spaces), Some(next), _) if rty == node.ty() => {
                         (spaces, next, node)
                     }
@@ -71,6 +71,19 @@ impl<'r> Spacer<'r> {
 }
 
 
+// The closest sibling with text: an empty node between two tokens does not separate them.
+fn neighbor(node: Node, dir: Direction) -> Option<Node> {
+    let mut current = sibling(node, dir);
+    while let Some(n) = current {
+        if !n.range().is_empty() {
+            break;
+        }
+        current = sibling(n, dir);
+    }
+    current
+}
+
+
 fn reformat_node<'f>(node: Node<'f>, edit: &mut FileEdit<'f>, spacer: &Spacer) {
     spacer.apply(node, edit);
     for child in node.children() {
-- 
2.43.0


From e2b072d3e96c859e2564456f5254fc7d54151424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 13/36] fix: duplicate rules and single-use contexts are
 reported also when nothing refers to them

---
 lang/fall/src/analysis/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index aaf204c..bf9e936 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -66,6 +66,8 @@ impl<'f> Analysis<'f> {
         );
         self.db.get(query::UnusedRules);
         self.db.get(query::AllLexRules);
+        self.db.get(query::AllSynRules);
+        self.db.get(query::AllContexts);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
         result.sort_by_key(|d| {
-- 
2.43.0


From d99d31e0533014c1c3372835b5820eb7670bfa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 14/36] fix: extracting a rule keeps a block as the body of the
 rule and does not glue names together

---
 lang/fall/src/editor/actions/extract_rule.rs | 24 ++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lang/fall/src/editor/actions/extract_rule.rs b/lang/fall/src/editor/actions/extract_rule.rs
index c314338..4ff3569 100644
--- a/lang/fall/src/editor/actions/extract_rule.rs
+++ b/lang/fall/src/editor/actions/extract_rule.rs
@@ -1,4 +1,4 @@
-use fall_tree::{AstNode, File, Node, TextRange, FileEdit};
+use fall_tree::{AstNode, File, Node, TextRange, FileEdit, tu};
 use fall_tree::search::{find_covering_node, ancestors};
 use fall_tree::search::ast;
 use fall_editor::actions::ActionResult;
@@ -25,11 +25,31 @@ pub fn extract_rule(file: &File, range: TextRange, apply: bool) -> Option<Action
     let new_rule = format!("\n\nrule new_rule {{\n  {}\n}}", file.text().slice(range));
 
     let mut edit = FileEdit::new(file);
-    edit.replace_substring(range, "new_rule".to_owned());
+    edit.replace_substring(range, reference(file, expr, range));
     edit.insert_text_after(rule, new_rule);
     Some(ActionResult::Applied(edit.into_text_edit()))
 }
 
+fn reference(file: &File, expr: Node, range: TextRange) -> String {
+    // The body of a rule is always a block
+    if expr.parent().and_then(SynRule::wrap).is_some() {
+        return "{ new_rule }".to_owned();
+    }
+
+    // Don't glue the reference to the names around it
+    let is_word = |c: char| c.is_alphanumeric() || c == '_';
+    let before = file.text().slice(TextRange::from_to(tu(0), range.start())).to_string();
+    let after = file.text().slice(TextRange::from_to(range.end(), file.text().len())).to_string();
+    let mut result = "new_rule".to_owned();
+    if before.ends_with(is_word) {
+        result.insert(0, ' ');
+    }
+    if after.starts_with(is_word) {
+        result.push(' ');
+    }
+    result
+}
+
 
 fn is_expression(node: Node) -> bool {
     Expr::wrap(node).is_some()
-- 
2.43.0


From 71982517c59740d9466e7743978ab2e9a9567fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 15/36] fix: looking for alternatives to swap does not print to
 the standard output

---
 lang/fall/src/editor/actions/swap_alternatives.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lang/fall/src/editor/actions/swap_alternatives.rs b/lang/fall/src/editor/actions/swap_alternatives.rs
index 980345e..5519a0f 100644
--- a/lang/fall/src/editor/actions/swap_alternatives.rs
+++ b/lang/fall/src/editor/actions/swap_alternatives.rs
@@ -27,8 +27,6 @@ fn find_swappable_nodes<'f>(file: &'f File, offset: TextUnit) -> Option<(Node<'f
             return None;
         },
     };
-    println!("B");
-
     let parent = pipe.parent().and_then(BlockExpr::wrap)?;
     for (alt1, alt2) in parent.alts().zip(parent.alts().skip(1)) {
         let n1 = alt1.node();
-- 
2.43.0


From 38744576bc9f851d8186afbb81e089f17aafc412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 16/36] fall_gen: expose the template context under
 cfg(verif_hooks)

---
 fall/gen/src/generate/mod.rs | 5 +++++
 fall/gen/src/lib.rs          | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/fall/gen/src/generate/mod.rs b/fall/gen/src/generate/mod.rs
index 42d6418..9a7ad21 100644
--- a/fall/gen/src/generate/mod.rs
+++ b/fall/gen/src/generate/mod.rs
@@ -12,6 +12,11 @@ pub fn generate(analysis: &Analysis) -> Result<String> {
         .map_err(|e| format_err!("Failed to format template:\n{:?}", e))
 }
 
+#[cfg(verif_hooks)]
+pub fn context(analysis: &Analysis) -> Result<::serde_json::Value> {
+    Ok(codegen::Codegen::new(analysis).generate()?.into_json())
+}
+
 const TEMPLATE: &'static str = r#####"
 use fall_parse::runtime as rt;
 pub use self::rt::ERROR;
diff --git a/fall/gen/src/lib.rs b/fall/gen/src/lib.rs
index d994f6e..24c41cf 100644
--- a/fall/gen/src/lib.rs
+++ b/fall/gen/src/lib.rs
@@ -60,6 +60,12 @@ pub fn generate(analysis: &lang_fall::Analysis) -> Result<String> {
     generate::generate(analysis)
 }
 
+/// What the generated file is rendered from.
+#[cfg(verif_hooks)]
+pub fn codegen_context(analysis: &lang_fall::Analysis) -> Result<serde_json::Value> {
+    generate::context(analysis)
+}
+
 pub struct TestRenderer;
 
 impl TestRenderer {
-- 
2.43.0


From 0979d16e9349dccc08c63fb46050fd52dbacd608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 17/36] fix: an argument of a rule may mention the parameters
 of its caller, in any number

---
 fall/parse/src/syn_engine/expr.rs   | 20 ++++++---------
 fall/parse/src/syn_engine/parser.rs | 39 ++++++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 41c3bf1..8e22513 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -335,17 +335,9 @@ fn parse_call<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     body: ExprRef, args: &'g [(Arg, ExprRef)],
 ) -> Option<Pos> {
-    let old = p.args;
-    for &(arg_pos, arg) in args {
-        let arg = match p.grammar[arg] {
-            Expr::Var(i) => p.args[i.0 as usize].unwrap(),
-            _ => arg
-        };
-
-        p.args[arg_pos.0 as usize] = Some(arg);
-    }
+    let old = p.enter_call(args);
     let result = parse_expr(p, body, tokens);
-    p.args = old;
+    p.leave_call(old);
     result
 }
 
@@ -353,8 +345,12 @@ fn parse_var<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     i: Arg,
 ) -> Option<Pos> {
-    let expr = p.args[i.0 as usize].unwrap();
-    parse_expr(p, expr, tokens)
+    // The argument may itself mention parameters, those of its caller
+    let (expr, env) = p.arg(i);
+    let old = ::std::mem::replace(&mut p.env, env);
+    let result = parse_expr(p, expr, tokens);
+    p.env = old;
+    result
 }
 
 fn parse_prev_is<'g>(
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 118d676..8896288 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use fall_tree::{TextUnit, Text, TextSuffix, NodeType, tu};
 use crate::lex_engine::Token;
 use crate::syn_engine::{Grammar, Event};
-use crate::{NodeTypeRef, ExprRef};
+use crate::{Arg, Expr, NodeTypeRef, ExprRef};
 
 pub(crate) struct Parser<'g> {
     cache: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &'g [Event])>,
@@ -17,7 +17,10 @@ pub(crate) struct Parser<'g> {
     pub replacement: Option<NodeTypeRef>,
     pub predicate_mode: bool,
     pub contexts: [bool; 16],
-    pub args: [Option<ExprRef>; 16],
+    /// Arguments of the calls being parsed. An argument goes with the index of
+    /// the call its own parameters refer to.
+    calls: Vec<Vec<(Arg, ExprRef, usize)>>,
+    pub env: usize,
     pub prev: Option<NodeType>,
 }
 
@@ -75,7 +78,8 @@ impl<'g> Parser<'g> {
             replacement: None,
             predicate_mode: false,
             contexts: [false; 16],
-            args: [None; 16],
+            calls: vec![Vec::new()],
+            env: 0,
             prev: None,
         };
         (parser, pos)
@@ -91,6 +95,35 @@ impl<'g> Parser<'g> {
     }
 
 
+    pub fn arg(&self, arg: Arg) -> (ExprRef, usize) {
+        self.calls[self.env].iter()
+            .find(|&&(a, _, _)| a.0 == arg.0)
+            .map(|&(_, expr, env)| (expr, env))
+            .unwrap()
+    }
+
+    /// Makes `args` the current arguments, returns what to restore afterwards.
+    pub fn enter_call(&mut self, args: &[(Arg, ExprRef)]) -> usize {
+        let args = args.iter()
+            .map(|&(arg, expr)| match self.grammar[expr] {
+                Expr::Var(outer) => {
+                    let (expr, env) = self.arg(outer);
+                    (arg, expr, env)
+                }
+                _ => (arg, expr, self.env),
+            })
+            .collect();
+        let old = self.env;
+        self.env = self.calls.len();
+        self.calls.push(args);
+        old
+    }
+
+    pub fn leave_call(&mut self, old: usize) {
+        self.calls.pop();
+        self.env = old;
+    }
+
     pub fn start(&mut self, ty_idx: NodeTypeRef) -> Mark {
         let ty = self[ty_idx];
         self.start_ty(ty)
-- 
2.43.0


From e3ca15a73bab380a4df63acc30dc5a26de1b582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 18/36] fix: a cached rule is reused only in the contexts and
 after the node it was parsed with

---
 fall/parse/src/syn_engine/expr.rs   | 16 +++++++---------
 fall/parse/src/syn_engine/mod.rs    | 12 ++++++++++--
 fall/parse/src/syn_engine/parser.rs | 19 +++++++++++++++----
 3 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 8e22513..a66f446 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -304,11 +304,10 @@ fn parse_enter<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     ctx: Context, e: ExprRef,
 ) -> Option<Pos> {
-    let idx = ctx.0 as usize;
-    let old = p.contexts[idx];
-    p.contexts[idx] = true;
+    let old = p.contexts;
+    p.contexts |= 1 << ctx.0;
     let result = parse_expr(p, e, tokens);
-    p.contexts[idx] = old;
+    p.contexts = old;
     result
 }
 
@@ -316,11 +315,10 @@ fn parse_exit<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     ctx: Context, e: ExprRef,
 ) -> Option<Pos> {
-    let idx = ctx.0 as usize;
-    let old = p.contexts[idx];
-    p.contexts[idx] = false;
+    let old = p.contexts;
+    p.contexts &= !(1 << ctx.0);
     let result = parse_expr(p, e, tokens);
-    p.contexts[idx] = old;
+    p.contexts = old;
     result
 }
 
@@ -328,7 +326,7 @@ fn parse_is_in<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     ctx: Context,
 ) -> Option<Pos> {
-    if p.contexts[ctx.0 as usize] { Some(tokens) } else { None }
+    if p.contexts & (1 << ctx.0) != 0 { Some(tokens) } else { None }
 }
 
 fn parse_call<'g>(
diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index a3b0db3..6326f79 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -34,8 +34,16 @@ pub(crate) enum Event {
     Start { ty: NodeType, forward_parent: Option<u32> },
     Token { ty: NodeType, n_raw_tokens: u16 },
     End,
-    /// `replacement` and `prev` are the parser state the cached rule left behind.
-    Cached { key: u32, n_events: u32, replacement: Option<NodeTypeRef>, prev: Option<NodeType> },
+    /// `contexts` and `before` are the parser state the cached rule started from,
+    /// `replacement` and `prev` are the state it left behind.
+    Cached {
+        key: u32,
+        n_events: u32,
+        contexts: u64,
+        before: Option<NodeType>,
+        replacement: Option<NodeTypeRef>,
+        prev: Option<NodeType>,
+    },
 }
 
 pub(crate) fn salvage_segments(
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 8896288..9ffe961 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -16,7 +16,8 @@ pub(crate) struct Parser<'g> {
     events: Vec<Event>,
     pub replacement: Option<NodeTypeRef>,
     pub predicate_mode: bool,
-    pub contexts: [bool; 16],
+    /// A bit for each context
+    pub contexts: u64,
     /// Arguments of the calls being parsed. An argument goes with the index of
     /// the call its own parameters refer to.
     calls: Vec<Vec<(Arg, ExprRef, usize)>>,
@@ -77,7 +78,7 @@ impl<'g> Parser<'g> {
             events: Vec::new(),
             replacement: None,
             predicate_mode: false,
-            contexts: [false; 16],
+            contexts: 0,
             calls: vec![Vec::new()],
             env: 0,
             prev: None,
@@ -149,7 +150,10 @@ impl<'g> Parser<'g> {
                     return None;
                 }
                 let segment = &events[start_event as usize..(start_event + n_events) as usize];
-                if let Event::Cached { replacement, prev, .. } = events[start_event as usize - 1] {
+                if let Event::Cached { contexts, before, replacement, prev, .. } = events[start_event as usize - 1] {
+                    if contexts != self.contexts || before != self.prev {
+                        return None;
+                    }
                     self.replacement = replacement;
                     self.prev = prev.or(self.prev);
                 }
@@ -165,7 +169,14 @@ impl<'g> Parser<'g> {
 
     pub fn start_cached(&mut self, expr: ExprRef) -> Mark {
         let mark = self.mark();
-        self.event(Event::Cached { key: expr.0, n_events: 0, replacement: None, prev: None });
+        self.event(Event::Cached {
+            key: expr.0,
+            n_events: 0,
+            contexts: self.contexts,
+            before: self.prev,
+            replacement: None,
+            prev: None,
+        });
         self.replacement = None;
         mark
     }
-- 
2.43.0


From 35eb3d0dfccb63579a93023a1a9e91b7b21c1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 19/36] fix: a cached rule is reused only if everything it
 looked at is unchanged

---
 fall/parse/src/lib.rs               |  13 ++--
 fall/parse/src/syn_engine/expr.rs   |  26 ++++---
 fall/parse/src/syn_engine/mod.rs    |  43 +++++++++--
 fall/parse/src/syn_engine/parser.rs | 111 +++++++++++++++++++++-------
 4 files changed, 147 insertions(+), 46 deletions(-)

diff --git a/fall/parse/src/lib.rs b/fall/parse/src/lib.rs
index d7f1671..a4499bc 100644
--- a/fall/parse/src/lib.rs
+++ b/fall/parse/src/lib.rs
@@ -10,9 +10,8 @@ pub extern crate fall_tree;
 pub extern crate serde_json;
 
 use std::any::Any;
-use std::collections::HashMap;
 
-use fall_tree::{Text, Language, NodeType, Metrics, TextEdit, TextUnit, TreeBuilder, ERROR, tu};
+use fall_tree::{Text, Language, NodeType, Metrics, TextEdit, TreeBuilder, ERROR, tu};
 
 mod lex_engine;
 
@@ -221,13 +220,17 @@ pub fn reparse(
     });
     metrics.record("relexed region", relexed_region as u64, "");
 
-    let salvaged = syn_engine::salvage_segments(
+    let segments = syn_engine::salvage_segments(
         &incremental_data.events,
         &incremental_data.tokens,
         &|t| lang.node_type_info(t.ty).whitespace_like,
         edit,
     );
-    let prev = Some((salvaged, incremental_data.events.as_ref()));
+    let prev = Some(syn_engine::Previous {
+        segments,
+        events: &incremental_data.events,
+        tokens: &incremental_data.tokens,
+    });
     let events = parser_def.parse(prev, new_text, &tokens, lang, metrics, builder);
     let incremental_data = IncrementalData { tokens, events };
     Some(Box::new(incremental_data))
@@ -237,7 +240,7 @@ pub fn reparse(
 impl ParserDefinition {
     fn parse(
         &self,
-        prev: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &[Event])>,
+        prev: Option<syn_engine::Previous>,
         text: Text,
         tokens: &[Token],
         lang: &Language,
diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index a66f446..085c0e7 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -1,16 +1,15 @@
-use std::collections::HashMap;
-use fall_tree::{Language, Text, TextUnit};
+use fall_tree::{Language, Text};
 
 use crate::{NodeTypeRef, Context, Arg, ExprRef, Expr};
 use crate::lex_engine::Token;
 use crate::syn_engine::parser::{Parser, Pos};
 use crate::syn_engine::Event;
 
-use super::Grammar;
+use super::{Grammar, Previous};
 use super::pratt::parse_pratt;
 
 pub(crate) fn parse(
-    prev: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &[Event])>,
+    prev: Option<Previous>,
     grammar: Grammar,
     lang: &Language,
     text: Text,
@@ -236,9 +235,9 @@ fn parse_not<'g>(
 }
 
 fn parse_eof<'g>(
-    _: &mut Parser<'g>, tokens: Pos,
+    p: &mut Parser<'g>, tokens: Pos,
 ) -> Option<Pos> {
-    if tokens.is_empty() { Some(tokens) } else { None }
+    if p.at_end(tokens) { Some(tokens) } else { None }
 }
 
 fn parse_layer<'g>(
@@ -381,10 +380,17 @@ fn parse_inject<'g>(
 }
 
 fn parse_cached<'g>(p: &mut Parser<'g>, expr: ExprRef, pos: Pos) -> Option<Pos> {
+    if p.has_args() {
+        // The arguments are not a part of the key
+        return parse_expr(p, expr, pos);
+    }
 
+    let looked = p.start_looking(pos);
     let mark = p.start_cached(expr);
-    let result = p.get_from_cache(expr, pos).or_else(|| parse_expr(p, expr, pos))?;
-    p.finish_cached(mark);
-
-    Some(result)
+    let result = p.get_from_cache(expr, pos).or_else(|| parse_expr(p, expr, pos));
+    if result.is_some() {
+        p.finish_cached(mark, pos);
+    }
+    p.finish_looking(looked);
+    result
 }
diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index 6326f79..41bda97 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -35,10 +35,13 @@ pub(crate) enum Event {
     Token { ty: NodeType, n_raw_tokens: u16 },
     End,
     /// `contexts` and `before` are the parser state the cached rule started from,
-    /// `replacement` and `prev` are the state it left behind.
+    /// `replacement` and `prev` are the state it left behind. The rule looked at
+    /// `n_looked` tokens and, if `limit` is set, noticed that there are only so many.
     Cached {
         key: u32,
         n_events: u32,
+        n_looked: u32,
+        limit: Option<u32>,
         contexts: u64,
         before: Option<NodeType>,
         replacement: Option<NodeTypeRef>,
@@ -46,12 +49,30 @@ pub(crate) enum Event {
     },
 }
 
+/// Part of the old parse which may be reused
+pub(crate) struct Segment {
+    pub first_event: usize,
+    pub n_events: usize,
+    pub n_tokens: u32,
+    /// Tokens the parse of the segment depends on
+    pub tokens: ::std::ops::Range<usize>,
+}
+
+pub(crate) type Segments = HashMap<(TextUnit, ExprRef), Segment>;
+
+/// The old parse
+pub(crate) struct Previous<'a> {
+    pub segments: Segments,
+    pub events: &'a [Event],
+    pub tokens: &'a [Token],
+}
+
 pub(crate) fn salvage_segments(
     old_events: &[Event],
     old_tokens: &[Token],
     is_ws: &dyn Fn(&Token) -> bool,
     edit: &TextEdit,
-) -> HashMap<(TextUnit, ExprRef), (u32, u32, u32)> {
+) -> Segments {
     let mut result = HashMap::new();
 
     let mut raw_token_pos = 0;
@@ -88,8 +109,9 @@ pub(crate) fn salvage_segments(
             Event::Token { n_raw_tokens, .. } =>
                 eat_tokens(&mut raw_token_pos, &mut text_pos, n_raw_tokens),
 
-            Event::Cached { key, n_events, .. } => {
+            Event::Cached { key, n_events, n_looked, .. } => {
                 let start = text_pos;
+                let first_token = raw_token_pos;
                 let mut n_tokens = 0u32;
                 let mut has_error = false;
                 for _ in 0..n_events {
@@ -107,7 +129,13 @@ pub(crate) fn salvage_segments(
                     continue
                 }
 
-                let end = text_pos;
+                let (mut end_token, mut end, mut left) = (first_token, start, n_looked);
+                while left > 0 {
+                    if !is_ws(&old_tokens[end_token]) {
+                        left -= 1;
+                    }
+                    bump(&mut end_token, &mut end);
+                }
                 let range = TextRange::from_to(start, end);
 
                 let mut inserted = tu(0);
@@ -115,7 +143,12 @@ pub(crate) fn salvage_segments(
                     match *op {
                         TextEditOp::Copy(copy) => if range.is_subrange_of(copy) {
                             let fixed_start = inserted + (start - copy.start());
-                            result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
+                            result.insert((fixed_start, ExprRef(key)), Segment {
+                                first_event: start_event as usize,
+                                n_events: n_events as usize,
+                                n_tokens,
+                                tokens: first_token..end_token,
+                            });
                         } else {
                             inserted += copy.len()
                         }
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 9ffe961..9b36b98 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -1,12 +1,10 @@
-use std::collections::HashMap;
-
 use fall_tree::{TextUnit, Text, TextSuffix, NodeType, tu};
 use crate::lex_engine::Token;
-use crate::syn_engine::{Grammar, Event};
+use crate::syn_engine::{Grammar, Event, Previous};
 use crate::{Arg, Expr, NodeTypeRef, ExprRef};
 
 pub(crate) struct Parser<'g> {
-    cache: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &'g [Event])>,
+    cache: Option<Previous<'g>>,
     pub grammar: &'g Grammar<'g>,
     text: Text<'g>,
     tokens: &'g [Token],
@@ -23,6 +21,15 @@ pub(crate) struct Parser<'g> {
     calls: Vec<Vec<(Arg, ExprRef, usize)>>,
     pub env: usize,
     pub prev: Option<NodeType>,
+    looked: Looked,
+}
+
+/// How far the parser has looked: past the last token it has seen,
+/// and the furthest end of input it has noticed
+#[derive(Copy, Clone)]
+pub(crate) struct Looked {
+    tokens: u32,
+    end: Option<u32>,
 }
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq)]
@@ -47,7 +54,7 @@ pub(crate) struct Mark {
 
 impl<'g> Parser<'g> {
     pub fn new(
-        cache: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &'g [Event])>,
+        cache: Option<Previous<'g>>,
         grammar: &'g Grammar<'g>,
         is_ws: &dyn Fn(Token) -> bool,
         text: Text<'g>,
@@ -82,6 +89,7 @@ impl<'g> Parser<'g> {
             calls: vec![Vec::new()],
             env: 0,
             prev: None,
+            looked: Looked { tokens: 0, end: None },
         };
         (parser, pos)
     }
@@ -138,33 +146,68 @@ impl<'g> Parser<'g> {
         self.event(Event::End)
     }
 
+    /// Are there no tokens left?
+    pub fn at_end(&mut self, pos: Pos) -> bool {
+        if pos.is_empty() {
+            self.looked.end = self.looked.end.max(Some(pos.1));
+        } else {
+            self.looked.tokens = self.looked.tokens.max(pos.0 + 1);
+        }
+        pos.is_empty()
+    }
+
+    pub fn start_looking(&mut self, pos: Pos) -> Looked {
+        ::std::mem::replace(&mut self.looked, Looked { tokens: pos.0, end: None })
+    }
+
+    pub fn finish_looking(&mut self, outer: Looked) {
+        self.looked.tokens = self.looked.tokens.max(outer.tokens);
+        self.looked.end = self.looked.end.max(outer.end);
+    }
+
+    pub fn has_args(&self) -> bool {
+        !self.calls[self.env].is_empty()
+    }
+
     pub fn get_from_cache(&mut self, expr: ExprRef, pos: Pos) -> Option<Pos> {
         if pos.is_empty() {
             return None;
         }
-        if let Some((ref cache, events)) = self.cache {
-            let text_pos = self.non_ws_indexes[pos.0 as usize].0;
-            if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
-                let end = Pos(pos.0 + n_tokens, pos.1);
-                if end.0 > end.1 {
+        let cache = self.cache.as_ref()?;
+        let (text_pos, token) = self.non_ws_indexes[pos.0 as usize];
+        let segment = cache.segments.get(&(text_pos, expr))?;
+        let old_tokens = &cache.tokens[segment.tokens.clone()];
+        let same_tokens = self.tokens[token..].iter()
+            .zip(old_tokens)
+            .filter(|&(new, old)| new.ty == old.ty && new.len == old.len)
+            .count() == old_tokens.len();
+        if !same_tokens {
+            return None;
+        }
+
+        let available = pos.1 - pos.0;
+        match cache.events[segment.first_event - 1] {
+            Event::Cached { n_looked, limit, contexts, before, replacement, prev, .. } => {
+                if n_looked > available || limit.map_or(false, |limit| limit != available) {
                     return None;
                 }
-                let segment = &events[start_event as usize..(start_event + n_events) as usize];
-                if let Event::Cached { contexts, before, replacement, prev, .. } = events[start_event as usize - 1] {
-                    if contexts != self.contexts || before != self.prev {
-                        return None;
-                    }
-                    self.replacement = replacement;
-                    self.prev = prev.or(self.prev);
+                if contexts != self.contexts || before != self.prev {
+                    return None;
                 }
-                if !self.predicate_mode {
-                    self.events.extend_from_slice(segment);
+                self.replacement = replacement;
+                self.prev = prev.or(self.prev);
+                self.looked.tokens = self.looked.tokens.max(pos.0 + n_looked);
+                if limit.is_some() {
+                    self.looked.end = self.looked.end.max(Some(pos.1));
                 }
-                return Some(end);
             }
+            _ => unreachable!(),
         }
-
-        return None;
+        if !self.predicate_mode {
+            let last_event = segment.first_event + segment.n_events;
+            self.events.extend_from_slice(&cache.events[segment.first_event..last_event]);
+        }
+        Some(Pos(pos.0 + segment.n_tokens, pos.1))
     }
 
     pub fn start_cached(&mut self, expr: ExprRef) -> Mark {
@@ -172,6 +215,8 @@ impl<'g> Parser<'g> {
         self.event(Event::Cached {
             key: expr.0,
             n_events: 0,
+            n_looked: 0,
+            limit: None,
             contexts: self.contexts,
             before: self.prev,
             replacement: None,
@@ -181,8 +226,9 @@ impl<'g> Parser<'g> {
         mark
     }
 
-    pub fn finish_cached(&mut self, mark: Mark) {
+    pub fn finish_cached(&mut self, mark: Mark, pos: Pos) {
         if !self.predicate_mode {
+            let looked = self.looked;
             let segment = &self.events[mark.event as usize + 1..];
             let has_nodes = segment.iter().any(|e| match e {
                 Event::Start { .. } => true,
@@ -192,8 +238,15 @@ impl<'g> Parser<'g> {
             let left_replacement = self.replacement;
             let left_prev = if has_nodes { self.prev } else { None };
             match self.events[mark.event as usize] {
-                Event::Cached { ref mut n_events, ref mut replacement, ref mut prev, .. } => {
+                Event::Cached {
+                    ref mut n_events, ref mut n_looked, ref mut limit,
+                    ref mut replacement, ref mut prev, ..
+                } => {
                     *n_events = len;
+                    *n_looked = looked.tokens - pos.0;
+                    if looked.end == Some(pos.1) {
+                        *limit = Some(pos.1 - pos.0);
+                    }
                     *replacement = left_replacement;
                     *prev = left_prev;
                 }
@@ -254,7 +307,7 @@ impl<'g> Parser<'g> {
     }
 
     pub fn bump(&mut self, pos: Pos) -> Option<(NodeType, Pos)> {
-        if pos.is_empty() {
+        if self.at_end(pos) {
             return None;
         }
         let ty = self[pos].ty;
@@ -263,9 +316,15 @@ impl<'g> Parser<'g> {
     }
 
     pub fn bump_by_text(&mut self, tokens: Pos, text: &str, ty_idx: NodeTypeRef) -> Option<Pos> {
-        if tokens.is_empty() {
+        if self.at_end(tokens) {
             return None;
         }
+        // A token has at least one byte
+        for i in 1..text.len() as u32 {
+            if self.at_end(Pos(tokens.0 + i, tokens.1)) {
+                break;
+            }
+        }
         let start = self.non_ws_indexes[tokens.0 as usize].0;
         let current_text = self.text.slice(TextSuffix::from(start));
 
-- 
2.43.0


From 4f9059def4854cfb1cfc9a7e453f27f0fd46225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 20/36] fix: AST names may begin or end with an underscore

---
 fall/gen/src/util.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fall/gen/src/util.rs b/fall/gen/src/util.rs
index 6cc6350..c4df685 100644
--- a/fall/gen/src/util.rs
+++ b/fall/gen/src/util.rs
@@ -7,6 +7,12 @@ pub fn scream(word: Text) -> String {
 pub fn camel(word: Text) -> String {
     word.to_cow()
         .split("_")
-        .map(|w| w[..1].to_ascii_uppercase() + &w[1..])
+        .map(|w| {
+            let mut chars = w.chars();
+            match chars.next() {
+                Some(first) => first.to_ascii_uppercase().to_string() + chars.as_str(),
+                None => String::new(),
+            }
+        })
         .collect()
 }
-- 
2.43.0


From b0db59370a356484c9f03d5f52961d82bc36c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 21/36] fix: the generator rejects grammars it cannot turn into
 a working parser instead of crashing

---
 fall/gen/src/generate/codegen.rs | 70 +++++++++++++++++++++++---------
 fall/parse/src/lib.rs            |  3 ++
 2 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 08a47c8..48e1637 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -58,6 +58,10 @@ impl<'a, 'f> Codegen<'a, 'f> {
             let expr = self.gen_rule(r)?;
             self.expressions[i] = expr;
         }
+        match self.expressions.first() {
+            Some(dst::Expr::Pub { .. }) => (),
+            _ => return Err(format_err!("The first rule should be public")),
+        }
         let parser = serde_json::to_string(&self.expressions).unwrap();
         context.insert("parser_json", &parser);
 
@@ -155,7 +159,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                 self.push_expr(pratt)
             }
-            (true, _) => unreachable!(),
+            (true, _) => return Err(format_err!("Bad pratt spec")),
             (false, body) => self.gen_expr(body)?
         };
 
@@ -185,7 +189,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 assert_eq!(self.expressions.len() - 1, body.0 as usize);
                 self.expressions.pop().unwrap()
             }
-            _ => unreachable!(),
+            (None, true, _) => return Err(format_err!("Only a public rule can replace")),
         };
 
         Ok(body)
@@ -203,9 +207,14 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 dst::Expr::Or(block.alts().map(|e| self.gen_expr(e)).collect::<Result<Vec<_>>>()?),
 
             Expr::SeqExpr(seq) => {
-                fn is_commit(part: Expr) -> bool {
-                    part.node().text() == "<commit>"
-                }
+                let analysis = self.analysis;
+                let is_commit = |part: Expr<'f>| match part {
+                    Expr::CallExpr(call) => match analysis.resolve_call(call) {
+                        Some(CallKind::Commit) => true,
+                        _ => false,
+                    },
+                    _ => false,
+                };
                 let commit = seq.parts().position(is_commit);
                 let parts = seq.parts()
                     .filter(|&p| !is_commit(p))
@@ -215,10 +224,10 @@ impl<'a, 'f> Codegen<'a, 'f> {
             }
 
             Expr::RefExpr(ref_) => {
-                let ref_ = self.analysis.resolve_reference(ref_)
+                let target = self.analysis.resolve_reference(ref_)
                     .ok_or(format_err!("Unresolved references: {}", ref_.node().text()))?;
 
-                match ref_ {
+                match target {
                     RefKind::Token(rule) => {
                         let ty_ref = self.lex_rule_ty(rule);
                         if rule.is_contextual() {
@@ -232,16 +241,24 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             dst::Expr::Token(ty_ref)
                         }
                     }
-                    RefKind::RuleReference(rule) => return Ok(self.syn_rule_ref(rule)),
+                    RefKind::RuleReference(rule) => {
+                        if rule.parameters().map_or(false, |p| p.parameters().next().is_some()) {
+                            return Err(format_err!("Missing arguments: {}", ref_.node().text()));
+                        }
+                        return Ok(self.syn_rule_ref(rule));
+                    }
                     RefKind::Param(p) => dst::Expr::Var(self.param_ref(p)),
                 }
             }
 
             Expr::CallExpr(call) => {
-                let call = self.analysis.resolve_call(call)
+                let kind = self.analysis.resolve_call(call)
                     .ok_or(format_err!("Failed to compile {}", call.node().text()))?;
 
-                match call {
+                match kind {
+                    CallKind::Enter(idx, _) | CallKind::Exit(idx, _) | CallKind::IsIn(idx)
+                    if idx >= dst::MAX_CONTEXTS => return Err(format_err!("Too many contexts")),
+
                     CallKind::Eof => dst::Expr::Eof,
                     CallKind::Any => dst::Expr::Any,
                     CallKind::Enter(idx, expr) => dst::Expr::Enter(
@@ -268,16 +285,25 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         self.gen_expr(e1)?,
                         self.gen_expr(e2)?,
                     ),
-                    CallKind::RuleCall(rule, args) => dst::Expr::Call(
-                        self.syn_rule_ref(rule),
-                        args.iter()
-                            .map(|&(p, e)| Ok((self.param_ref(p), self.gen_expr(e)?)))
-                            .collect::<Result<Vec<_>>>()?,
-                    ),
+                    CallKind::RuleCall(rule, args) => {
+                        let n_params = rule.parameters().map_or(0, |p| p.parameters().count());
+                        if args.len() != n_params || call.args().count() != n_params {
+                            return Err(format_err!("Wrong number of arguments: {}", call.node().text()));
+                        }
+                        dst::Expr::Call(
+                            self.syn_rule_ref(rule),
+                            args.iter()
+                                .map(|&(p, e)| Ok((self.param_ref(p), self.gen_expr(e)?)))
+                                .collect::<Result<Vec<_>>>()?,
+                        )
+                    }
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
-                        tokens.iter().map(|&r| self.syn_rule_ty(r).unwrap()).collect()
+                        tokens.iter()
+                            .map(|&r| self.syn_rule_ty(r)
+                                .ok_or(format_err!("Unknown type: {}", r.node().text())))
+                            .collect::<Result<Vec<_>>>()?
                     ),
-                    CallKind::Commit => panic!("Should be handled specially"),
+                    CallKind::Commit => return Err(format_err!("<commit> should be a part of a sequence")),
                 }
             }
             Expr::OptExpr(opt_expr) => dst::Expr::Opt(self.gen_expr(opt_expr.expr())?),
@@ -363,7 +389,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         ("Option<rt::Text<'f>>".to_owned(),
                          format!("rt::child_of_type(self.node(), {}).map(|n| n.text())", node_type)),
 
-                    Arity::Many => unimplemented!(),
+                    Arity::Many => return Err(repeated_token(method)),
                 }
             }
             MethodKind::NodeAccessor(kind, arity) => {
@@ -397,7 +423,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             Arity::Optional =>
                                 ("Option<rt::Node<'f>>".to_owned(),
                                  format!("self.node().children().find(|n| n.ty() == {})", node_type)),
-                            Arity::Many => unimplemented!(),
+                            Arity::Many => return Err(repeated_token(method)),
                         }
                     }
                 }
@@ -408,6 +434,10 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 }
 
+fn repeated_token(method: MethodDef) -> ::failure::Error {
+    format_err!("Repeated tokens are not supported: `{}`", method.node().text())
+}
+
 fn ast_name(name: Option<Text>) -> Result<Text> {
     name.ok_or(format_err!("AST definition without a name"))
 }
diff --git a/fall/parse/src/lib.rs b/fall/parse/src/lib.rs
index a4499bc..de36afb 100644
--- a/fall/parse/src/lib.rs
+++ b/fall/parse/src/lib.rs
@@ -106,6 +106,9 @@ impl Default for ParserDefinition {
 #[typed_index(NodeType)]
 pub struct NodeTypeRef(pub u32);
 
+/// Contexts of a grammar are numbered from zero up to this.
+pub const MAX_CONTEXTS: u32 = 64;
+
 #[derive(Copy, Clone, Serialize, Deserialize, Debug)]
 pub struct Context(pub u32);
 
-- 
2.43.0


From 42ff6a3c6f0e0e8442724102f603ae2370acec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 22/36] fix: reading a text range that ends before it starts is
 an error

---
 fall/text/src/text_range.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fall/text/src/text_range.rs b/fall/text/src/text_range.rs
index 72fa95c..a25d4ff 100644
--- a/fall/text/src/text_range.rs
+++ b/fall/text/src/text_range.rs
@@ -2,7 +2,7 @@ use std::cmp::Ordering;
 use std::fmt;
 use std::ops;
 
-use serde::{Serialize, Serializer, Deserialize, Deserializer};
+use serde::{de, Serialize, Serializer, Deserialize, Deserializer};
 
 use super::{TextUnit, tu};
 
@@ -32,7 +32,10 @@ impl Serialize for TextRange {
 
 impl<'de> Deserialize<'de> for TextRange {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let (start, end) = Deserialize::deserialize(deserializer)?;
+        let (start, end): (TextUnit, TextUnit) = Deserialize::deserialize(deserializer)?;
+        if start > end {
+            return Err(de::Error::custom(format_args!("Invalid text range [{}; {})", start, end)));
+        }
         Ok(TextRange { start, end })
     }
 }
-- 
2.43.0


From 1d3c7dcaa65a2b25a84e7aa5f5e47623975b2fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 23/36] lang_rust, indxr: an index of given texts under
 cfg(verif_hooks)

---
 indxr/src/lib.rs                     | 11 +++++++++++
 lang/rust/src/editor/symbol_index.rs |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index a4b61fa..8849261 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -43,6 +43,17 @@ impl<V: Send + 'static> FileIndex<V> {
         FileIndex { imp }
     }
 
+    /// An index of what is given, which does not change.
+    #[cfg(verif_hooks)]
+    pub fn of_values(values: Vec<(PathBuf, V)>) -> Self {
+        let data = values.into_iter()
+            .map(|(path, value)| (path.clone(), IndexedFile { path, value }))
+            .collect();
+        let file_set = IndexableFileSet { roots: Vec::new(), filter: Box::new(|_| false) };
+        let imp = FileIndexImpl { file_set, data: Mutex::new(data), mapper: Box::new(|_| None) };
+        FileIndex { imp: Arc::new(imp) }
+    }
+
     pub fn process_files(&self, sink: &mut dyn FnMut(&IndexedFile<V>) -> bool) {
         let data = self.imp.data.lock().unwrap();
         for file in data.values() {
diff --git a/lang/rust/src/editor/symbol_index.rs b/lang/rust/src/editor/symbol_index.rs
index 3aaa67d..e09e84e 100644
--- a/lang/rust/src/editor/symbol_index.rs
+++ b/lang/rust/src/editor/symbol_index.rs
@@ -28,6 +28,13 @@ impl SymbolIndex {
         SymbolIndex { index }
     }
 
+    /// An index of the given files, which are not watched.
+    #[cfg(verif_hooks)]
+    pub fn of_texts(texts: Vec<(PathBuf, String)>) -> SymbolIndex {
+        let files = texts.into_iter().map(|(path, text)| (path, FileSymbols::new(text))).collect();
+        SymbolIndex { index: FileIndex::of_values(files) }
+    }
+
     pub fn query(&self, query: &str) -> Vec<(PathBuf, Symbol)> {
         let mut query = Query::new(query);
         let mut result = Vec::new();
-- 
2.43.0


From a1dddb83131c7e84fe98c9b1b4f11b767627b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 24/36] fix: the Rust editor answers at the start of a file
 instead of crashing

---
 lang/rust/src/editor/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lang/rust/src/editor/mod.rs b/lang/rust/src/editor/mod.rs
index 7a40883..30113b3 100644
--- a/lang/rust/src/editor/mod.rs
+++ b/lang/rust/src/editor/mod.rs
@@ -29,6 +29,9 @@ impl RustEditorFile {
     }
 
     pub fn after_space_typed(&self, offset: TextUnit) -> Option<String> {
+        if offset < tu(1) {
+            return None;
+        }
         let let_kw = find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased()?;
         if let_kw.ty() != LET {
             return None;
@@ -44,16 +47,16 @@ impl RustEditorFile {
     }
 
     pub fn expand(&self, offset: TextUnit) -> Option<TextEdit> {
+        if offset < tu(2) {
+            return None;
+        }
         let leaf = find_leaf_at_offset(self.file.root(), offset - tu(2))
             .left_biased()?;
         let expr: ExprStmt = ast::ancestor(leaf)?;
         let mut edit = FileEdit::new(&self.file);
-        let text = self.file.text().slice(
-            TextRange::from_to(
-                expr.node().range().start(),
-                expr.node().range().end() - tu(3),
-            ),
-        );
+        let text = expr.node().text();
+        // what the abbreviation is a field of
+        let text = text.slice(TextRange::from_to(tu(0), text.rfind(".")?));
         edit.replace_substring(
             TextRange::from_to(expr.node().range().start(), offset),
             format!("eprintln!(\"{text} = {{:?}}\", {text});", text = text)
@@ -63,6 +66,9 @@ impl RustEditorFile {
     }
 
     pub fn breadcrumbs(&self, offset: TextUnit) -> Vec<String> {
+        if offset < tu(1) {
+            return Vec::new();
+        }
         let leaf = match find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased() {
             Some(leaf) => leaf,
             None => return Vec::new(),
-- 
2.43.0


From c9e399798c20d0b1a56b2acd0e5f0284fbc1e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 25/36] fix: symbol search finds every symbol of a name

---
 lang/rust/src/editor/symbol_index.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lang/rust/src/editor/symbol_index.rs b/lang/rust/src/editor/symbol_index.rs
index e09e84e..b29208a 100644
--- a/lang/rust/src/editor/symbol_index.rs
+++ b/lang/rust/src/editor/symbol_index.rs
@@ -82,9 +82,11 @@ impl Query {
         let a = FstSubSeq::new(&self.query);
         for idx in file.map.search(a).into_stream().into_values() {
             let idx = idx as usize;
-            let symbol = file.symbols[idx].clone();
-            if self.all_symbols || is_type(symbol.ty) {
-                acc(symbol)
+            let name = file.symbols[idx].name.to_lowercase();
+            for symbol in file.symbols[idx..].iter().take_while(|s| s.name.to_lowercase() == name) {
+                if self.all_symbols || is_type(symbol.ty) {
+                    acc(symbol.clone())
+                }
             }
         }
     }
@@ -110,11 +112,11 @@ impl FileSymbols {
             })
         });
         symbols.sort_by_key(|s| s.name.to_lowercase());
-        symbols.dedup_by_key(|s| s.name.to_lowercase());
 
-        let map = fst::Map::from_iter(
-            symbols.iter().map(|s| (s.name.to_lowercase())).zip(0u64..)
-        ).unwrap();
+        // Symbols of the same name follow each other, the map has the first of them
+        let mut names: Vec<(String, u64)> = symbols.iter().map(|s| s.name.to_lowercase()).zip(0u64..).collect();
+        names.dedup_by(|a, b| a.0 == b.0);
+        let map = fst::Map::from_iter(names).unwrap();
 
         FileSymbols { symbols, map }
     }
-- 
2.43.0


From 865e5fb18f36073a3ca70352b315dfe435dc62d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 26/36] fix: 'Add braces' keeps an alias in the braces and
 leaves super alone

---
 lang/rust/src/editor/actions.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lang/rust/src/editor/actions.rs b/lang/rust/src/editor/actions.rs
index 8fc6b10..ba7e309 100644
--- a/lang/rust/src/editor/actions.rs
+++ b/lang/rust/src/editor/actions.rs
@@ -1,7 +1,7 @@
-use fall_tree::{File, TextUnit, FileEdit, AstNode};
+use fall_tree::{File, TextUnit, TextRange, FileEdit, AstNode};
 use fall_tree::search::ast;
 use fall_editor::actions::ActionResult;
-use crate::syntax::{NameOwner, TypeParametersOwner, EnumDef, StructDef, UseDecl};
+use crate::syntax::{NameOwner, TypeParametersOwner, EnumDef, StructDef, UseDecl, ALIAS, IDENT, SELF};
 
 
 pub const ACTIONS: &[(&str, fn(&File, TextUnit, bool) -> Option<ActionResult>)] = &[
@@ -16,11 +16,18 @@ fn add_use_braces(file: &File, offset: TextUnit, apply: bool) -> Option<ActionRe
     if use_decl.spec().is_some() {
         return None;
     }
+    // `super` can't stand in braces
+    if !last_segment.children().any(|n| n.ty() == IDENT || n.ty() == SELF) {
+        return None;
+    }
     if !apply {
         return Some(ActionResult::Available);
     }
+    // `a as b` goes into the braces as a whole
+    let end = use_decl.node().children().find(|n| n.ty() == ALIAS).unwrap_or(last_segment).range().end();
+    let range = TextRange::from_to(last_segment.range().start(), end);
     let mut edit = FileEdit::new(&file);
-    edit.replace_with_text(last_segment, format!("{{{}}}", last_segment.text()));
+    edit.replace_substring(range, format!("{{{}}}", file.text().slice(range)));
     Some(ActionResult::Applied(edit.into_text_edit()))
 }
 
-- 
2.43.0


From 3d49cd08e85c8505d27fae7cadea667545073cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 27/36] fix: self may have an alias in a use list

---
 lang/rust/syntax/src/rust.fall | 2 +-
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index c6ebc60..f2b6a95 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -140,7 +140,7 @@ pub rule use_spec {
 }
 
 pub rule use_spec_entry {
-  'self' | ident <commit> alias?
+  'self' alias? | ident <commit> alias?
 }
 
 test r"
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 96d4ba3..c079568 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":159,"replaceable":false}},{"Or":[162]},{"Or":[164,166,168,170,172,174,176,177]},{"Cached":194},{"Pub":{"ty":94,"body":210,"replaceable":false}},{"Pub":{"ty":95,"body":216,"replaceable":false}},{"Pub":{"ty":96,"body":222,"replaceable":false}},{"Pub":{"ty":97,"body":229,"replaceable":false}},{"Pub":{"ty":98,"body":245,"replaceable":false}},{"Or":[247]},{"Pub":{"ty":99,"body":252,"replaceable":false}},{"Or":[258]},{"Pub":{"ty":100,"body":261,"replaceable":false}},{"Pub":{"ty":101,"body":267,"replaceable":false}},{"Pub":{"ty":102,"body":284,"replaceable":false}},{"Pub":{"ty":103,"body":303,"replaceable":false}},{"Pub":{"ty":104,"body":308,"replaceable":false}},{"Pub":{"ty":105,"body":311,"replaceable":false}},{"Pub":{"ty":106,"body":318,"replaceable":false}},{"Pub":{"ty":107,"body":331,"replaceable":false}},{"Pub":{"ty":108,"body":340,"replaceable":false}},{"Pub":{"ty":109,"body":353,"replaceable":false}},{"Pub":{"ty":110,"body":361,"replaceable":false}},{"Pub":{"ty":111,"body":373,"replaceable":false}},{"Or":[374,375,376,377]},{"Or":[379,381,383,385,387,389,391,393,398]},{"Pub":{"ty":112,"body":408,"replaceable":false}},{"Pub":{"ty":113,"body":422,"replaceable":false}},{"Pub":{"ty":114,"body":426,"replaceable":false}},{"Pub":{"ty":115,"body":430,"replaceable":false}},{"Or":[438]},{"Pub":{"ty":116,"body":445,"replaceable":false}},{"Pub":{"ty":117,"body":449,"replaceable":false}},{"Or":[469]},{"Pub":{"ty":118,"body":474,"replaceable":false}},{"Pub":{"ty":119,"body":494,"replaceable":false}},{"Pub":{"ty":120,"body":504,"replaceable":false}},{"Pub":{"ty":121,"body":519,"replaceable":false}},{"Or":[520]},{"Or":[522]},{"Or":[524]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":527,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":531,"replaceable":false}},{"Pub":{"ty":122,"body":536,"replaceable":false}},{"Pub":{"ty":123,"body":543,"replaceable":false}},{"Pub":{"ty":124,"body":557,"replaceable":false}},{"Pub":{"ty":125,"body":583,"replaceable":false}},{"Pub":{"ty":126,"body":588,"replaceable":false}},{"Pub":{"ty":127,"body":592,"replaceable":false}},{"Pub":{"ty":128,"body":598,"replaceable":false}},{"Pub":{"ty":128,"body":600,"replaceable":false}},{"Or":[601,602,603,604,605,606,607,608,609,610]},{"Pub":{"ty":129,"body":612,"replaceable":false}},{"Pub":{"ty":130,"body":614,"replaceable":false}},{"Pub":{"ty":131,"body":622,"replaceable":false}},{"Pub":{"ty":132,"body":625,"replaceable":false}},{"Pub":{"ty":133,"body":629,"replaceable":false}},{"Pub":{"ty":134,"body":635,"replaceable":true}},{"PubReplace":{"ty":135,"body":639}},{"Pub":{"ty":136,"body":642,"replaceable":false}},{"Pub":{"ty":137,"body":651,"replaceable":false}},{"Pub":{"ty":138,"body":658,"replaceable":false}},{"Pub":{"ty":100,"body":664,"replaceable":false}},{"Pub":{"ty":139,"body":667,"replaceable":false}},{"Or":[668,669,670,671,672,673,674]},{"Pub":{"ty":140,"body":677,"replaceable":false}},{"Pub":{"ty":141,"body":683,"replaceable":true}},{"PubReplace":{"ty":142,"body":695}},{"PubReplace":{"ty":143,"body":707}},{"Pub":{"ty":144,"body":714,"replaceable":false}},{"Pub":{"ty":145,"body":721,"replaceable":false}},{"Pub":{"ty":146,"body":723,"replaceable":false}},{"Pub":{"ty":147,"body":727,"replaceable":false}},{"Pub":{"ty":148,"body":733,"replaceable":true}},{"PubReplace":{"ty":149,"body":737}},{"Pub":{"ty":150,"body":742,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,139],"prefixes":[{"ty":184,"op":121,"priority":999},{"ty":185,"op":771,"priority":999},{"ty":186,"op":772,"priority":999},{"ty":187,"op":773,"priority":999},{"ty":197,"op":141,"priority":2}],"infixes":[{"ty":177,"op":748,"priority":999,"has_rhs":false},{"ty":178,"op":757,"priority":999,"has_rhs":false},{"ty":180,"op":765,"priority":999,"has_rhs":false},{"ty":181,"op":766,"priority":999,"has_rhs":false},{"ty":182,"op":767,"priority":999,"has_rhs":false},{"ty":183,"op":770,"priority":12,"has_rhs":false},{"ty":188,"op":781,"priority":11,"has_rhs":true},{"ty":189,"op":787,"priority":10,"has_rhs":true},{"ty":190,"op":793,"priority":9,"has_rhs":true},{"ty":191,"op":799,"priority":8,"has_rhs":true},{"ty":192,"op":801,"priority":7,"has_rhs":true},{"ty":193,"op":807,"priority":6,"has_rhs":true},{"ty":194,"op":808,"priority":5,"has_rhs":true},{"ty":195,"op":810,"priority":4,"has_rhs":true},{"ty":196,"op":812,"priority":3,"has_rhs":true},{"ty":197,"op":813,"priority":2,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":false},{"ty":198,"op":837,"priority":1,"has_rhs":true}]}},{"Or":[838,840,842,844,846,848,850,852,854,856,858,860,862,864,866,868,870,872,874,876,878,880,882,884,886,888]},{"Or":[890]},{"Or":[894]},{"Pub":{"ty":152,"body":905,"replaceable":false}},{"Pub":{"ty":153,"body":913,"replaceable":true}},{"PubReplace":{"ty":154,"body":926}},{"Pub":{"ty":155,"body":933,"replaceable":false}},{"Pub":{"ty":156,"body":937,"replaceable":false}},{"Pub":{"ty":157,"body":944,"replaceable":true}},{"PubReplace":{"ty":158,"body":949}},{"Pub":{"ty":159,"body":962,"replaceable":false}},{"Pub":{"ty":160,"body":974,"replaceable":false}},{"Or":[982]},{"Pub":{"ty":161,"body":986,"replaceable":false}},{"Pub":{"ty":162,"body":995,"replaceable":false}},{"Pub":{"ty":163,"body":1005,"replaceable":false}},{"Or":[1006,1007,1008,1009]},{"Or":[1011,1013,1014,1015]},{"Pub":{"ty":164,"body":1024,"replaceable":false}},{"Pub":{"ty":165,"body":1027,"replaceable":false}},{"Pub":{"ty":166,"body":1030,"replaceable":false}},{"Pub":{"ty":167,"body":1041,"replaceable":false}},{"Pub":{"ty":168,"body":1051,"replaceable":false}},{"Pub":{"ty":169,"body":1055,"replaceable":false}},{"Or":[1061]},{"Or":[1063]},{"Pub":{"ty":170,"body":1067,"replaceable":false}},{"Pub":{"ty":171,"body":1072,"replaceable":false}},{"Or":[1075]},{"Pub":{"ty":172,"body":1080,"replaceable":false}},{"Pub":{"ty":173,"body":1090,"replaceable":false}},{"Or":[1096]},{"Pub":{"ty":174,"body":1099,"replaceable":false}},{"Pub":{"ty":175,"body":1101,"replaceable":false}},{"Pub":{"ty":176,"body":1103,"replaceable":false}},{"Pub":{"ty":177,"body":1111,"replaceable":false}},{"Pub":{"ty":178,"body":1122,"replaceable":false}},{"Or":[1126]},{"Pub":{"ty":179,"body":1128,"replaceable":false}},{"Pub":{"ty":180,"body":1138,"replaceable":false}},{"Pub":{"ty":181,"body":1141,"replaceable":false}},{"Pub":{"ty":182,"body":1144,"replaceable":false}},{"Pub":{"ty":183,"body":1149,"replaceable":false}},{"Pub":{"ty":184,"body":1151,"replaceable":false}},{"Or":[1157]},{"Pub":{"ty":185,"body":1160,"replaceable":false}},{"Pub":{"ty":186,"body":1163,"replaceable":false}},{"Pub":{"ty":187,"body":1166,"replaceable":false}},{"Pub":{"ty":188,"body":1176,"replaceable":false}},{"Pub":{"ty":189,"body":1184,"replaceable":false}},{"Pub":{"ty":190,"body":1192,"replaceable":false}},{"Or":[1196,1200]},{"Pub":{"ty":191,"body":1208,"replaceable":false}},{"Pub":{"ty":192,"body":1212,"replaceable":false}},{"Pub":{"ty":193,"body":1220,"replaceable":false}},{"Pub":{"ty":194,"body":1223,"replaceable":false}},{"Or":[1225,1227,1239,1241,1243]},{"Pub":{"ty":195,"body":1247,"replaceable":false}},{"Pub":{"ty":196,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1254,"replaceable":false}},{"Pub":{"ty":197,"body":1256,"replaceable":false}},{"Pub":{"ty":197,"body":1258,"replaceable":false}},{"Pub":{"ty":197,"body":1262,"replaceable":false}},{"Or":[1264,1266]},{"Or":[1274]},{"Pub":{"ty":198,"body":1300,"replaceable":false}},{"Pub":{"ty":199,"body":1303,"replaceable":false}},{"Pub":{"ty":200,"body":1307,"replaceable":false}},{"Or":[1310]},{"Or":[1312]},{"Pub":{"ty":201,"body":1322,"replaceable":false}},{"Pub":{"ty":202,"body":1330,"replaceable":false}},{"Pub":{"ty":203,"body":1345,"replaceable":false}},{"Pub":{"ty":204,"body":1374,"replaceable":false}},{"Or":[1384]},{"Or":[1389]},{"Or":[1394]},{"Or":[1399]},{"Or":[1404]},{"Or":[1412]},{"Or":[1427]},{"And":[[1],null]},{"Or":[158]},{"WithSkip":[2,3]},{"Rep":160},{"And":[[161],null]},{"Token":11},{"And":[[163],null]},{"ContextualToken":[4,"union"]},{"And":[[165],null]},{"Token":16},{"And":[[167],null]},{"Token":12},{"And":[[169],null]},{"Token":13},{"And":[[171],null]},{"Token":17},{"And":[[173],null]},{"Token":29},{"And":[[175],null]},{"And":[[25],null]},{"Opt":36},{"And":[[146,178],null]},{"Or":[179]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[181,182,183,184,185,186,187,188,189]},{"Inject":[180,190]},{"And":[[191],null]},{"And":[[28],null]},{"Or":[192,193]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[197,5],null]},{"Or":[198]},{"Opt":199},{"And":[[200],null]},{"Or":[196,201]},{"And":[[38,202],null]},{"Token":60},{"Opt":204},{"And":[[205,5],null]},{"Or":[203,206]},{"Token":58},{"And":[[195,207,208],1]},{"Or":[209]},{"Token":67},{"And":[[211],null]},{"Call":[151,[[2,6]]]},{"Call":[152,[[3,213]]]},{"And":[[214],null]},{"Or":[212,215]},{"Token":18},{"And":[[217],null]},{"Token":92},{"Opt":48},{"And":[[219,220],1]},{"Or":[218,221]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[223,224,225,226,227],2]},{"Or":[228]},{"Token":21},{"Opt":230},{"Token":35},{"Opt":232},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[241],null]},{"Or":[240,242]},{"And":[[231,233,234,235,236,237,11,238,239,243],4]},{"Or":[244]},{"Token":51},{"And":[[246,49],null]},{"Token":7},{"Token":90},{"Opt":249},{"And":[[248,250],null]},{"Or":[251]},{"Opt":14},{"Call":[151,[[2,12]]]},{"And":[[253,254],null]},{"Or":[255]},{"Call":[153,[[4,256]]]},{"And":[[257],null]},{"Token":59},{"And":[[64,259,49],1]},{"Or":[260]},{"Token":59},{"And":[[262,49],null]},{"Or":[263]},{"Opt":264},{"And":[[64,265],null]},{"Or":[266]},{"And":[[121],null]},{"Token":27},{"And":[[269],null]},{"Or":[268,270]},{"Opt":271},{"Token":18},{"Token":59},{"And":[[274,49],null]},{"Or":[275]},{"Opt":276},{"Token":61},{"And":[[278],null]},"Eof",{"And":[[280],null]},{"Or":[279,281]},{"And":[[272,273,277,282],2]},{"Or":[283]},{"Token":11},{"And":[[285],null]},{"ContextualToken":[4,"union"]},{"And":[[287],null]},{"Or":[286,288]},{"Token":92},{"Opt":31},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,292]]]},{"And":[[293],null]},{"Token":58},{"And":[[295],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,297]]]},{"Token":58},{"And":[[298,299],null]},{"Or":[294,296,300]},{"And":[[289,290,291,301],1]},{"Or":[302]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[304,305,306,49],2]},{"Or":[307]},{"Opt":36},{"And":[[309,49],null]},{"Or":[310]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[151,[[2,19]]]},{"Call":[152,[[3,315]]]},{"And":[[312,313,314,316],1]},{"Or":[317]},{"Token":92},{"Token":53},{"And":[[320,76],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,322]]]},{"And":[[323],null]},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,325]]]},{"And":[[326],null]},{"Or":[321,324,327]},{"Opt":328},{"And":[[319,329],1]},{"Or":[330]},{"Token":13},{"Token":92},{"Token":58},{"And":[[334],null]},{"Call":[152,[[3,1]]]},{"And":[[336],null]},{"Or":[335,337]},{"And":[[332,333,338],1]},{"Or":[339]},{"Token":35},{"Opt":341},{"Token":17},{"Opt":31},{"Token":23},{"And":[[345,49],null]},{"Or":[346]},{"Opt":347},{"And":[[49,348],null]},{"Or":[349]},{"Opt":37},{"And":[[342,343,344,350,351,23],2]},{"Or":[352]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[146,354,355,356,357,358,359,23],3]},{"Or":[360]},{"Opt":36},{"And":[[146,362],null]},{"Or":[363]},{"Inject":[364,24]},{"And":[[365],null]},{"And":[[28],null]},{"Or":[366,367]},{"WithSkip":[25,368]},{"Rep":369},{"Call":[152,[[3,370]]]},{"And":[[371],null]},{"Or":[372]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[144],null]},{"Token":10},{"And":[[378],null]},{"Token":8},{"And":[[380],null]},{"Token":20},{"And":[[382],null]},{"Token":21},{"And":[[384],null]},{"Token":22},{"And":[[386],null]},{"Token":35},{"And":[[388],null]},{"Token":65},{"And":[[390],null]},{"Token":7},{"And":[[392],null]},{"Token":92},{"Token":82},{"And":[[394,395],null]},{"Or":[396]},{"And":[[397],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[402,49],null]},{"Or":[403]},{"Opt":404},{"Token":58},{"And":[[399,400,401,405,406],1]},{"Or":[407]},{"Token":21},{"And":[[409],null]},{"Token":22},{"And":[[411],null]},{"Or":[410,412]},{"Token":92},{"Token":59},{"Token":53},{"And":[[416,76],null]},{"Or":[417]},{"Opt":418},{"Token":58},{"And":[[413,414,415,49,419,420],1]},{"Or":[421]},{"And":[[148],null]},{"Token":58},{"And":[[149,424],null]},{"Or":[423,425]},{"Rep":30},{"Call":[152,[[3,427]]]},{"And":[[10,428],null]},{"Or":[429]},{"Opt":36},{"And":[[146,431],null]},{"Or":[432]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[434,435]},{"Inject":[433,436]},{"And":[[437],null]},{"Call":[151,[[2,35]]]},{"Call":[151,[[2,32]]]},{"And":[[439,440],null]},{"Or":[441]},{"Call":[154,[[5,442]]]},{"And":[[443],null]},{"Or":[444]},{"Token":92},{"Opt":33},{"And":[[446,447],1]},{"Or":[448]},{"Token":59},{"Token":73},{"And":[[451],null]},"Eof",{"And":[[453],null]},{"Token":61},{"And":[[455],null]},{"Token":39},{"And":[[457],null]},{"Token":36},{"And":[[459],null]},{"Or":[456,458,460]},{"Not":461},{"Not":462},{"And":[[463],null]},{"Or":[452,454,464]},{"And":[[34,465],1]},{"Or":[466]},{"Rep":467},{"And":[[450,468],null]},{"Token":87},{"And":[[470],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[471,472,473]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[478],null]},"Eof",{"And":[[480],null]},{"Token":61},{"Not":482},{"Not":483},{"And":[[484],null]},{"Or":[479,481,485]},{"And":[[477,486],1]},{"Or":[487]},{"Rep":488},{"And":[[476,489],null]},{"Or":[490]},{"Opt":491},{"And":[[475,492],1]},{"Or":[493]},{"Token":10},{"Token":6},{"And":[[496],null]},{"Token":19},{"And":[[498],null]},{"Or":[497,499]},{"Call":[153,[[4,500]]]},{"Opt":501},{"And":[[495,502],null]},{"Or":[503]},{"Token":36},{"Token":61},{"And":[[506],null]},"Eof",{"And":[[508],null]},{"Token":39},{"Not":510},{"Not":511},{"And":[[512],null]},{"Or":[507,509,513]},{"And":[[49,33,514],null]},{"Or":[515]},{"Rep":516},{"And":[[505,517],1]},{"Or":[518]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[521],null]},{"Enter":[1,41]},{"And":[[523],null]},{"Token":60},{"And":[[525,45],null]},{"Or":[526]},{"Token":60},{"Opt":528},{"And":[[529,45],null]},{"Or":[530]},{"Token":60},{"And":[[532,45],null]},{"Or":[533]},{"And":[[41,534],null]},{"Or":[535]},{"Token":5},{"And":[[49,537,49],null]},{"Or":[538]},{"Call":[154,[[5,539]]]},{"Token":60},{"And":[[540,541,45],null]},{"Or":[542]},{"Token":92},{"And":[[544],null]},{"Token":18},{"And":[[546],null]},{"Token":19},{"And":[[548],null]},{"Or":[545,547,549]},{"And":[[46],null]},{"IsIn":3},{"And":[[552,47],null]},{"Or":[551,553]},{"Opt":554},{"And":[[550,555],null]},{"Or":[556]},{"IsIn":3},{"And":[[558],null]},{"IsIn":1},{"Token":60},{"And":[[560,561],null]},{"Or":[559,562]},{"Token":87},{"Call":[151,[[2,564]]]},{"Token":92},{"Token":53},{"And":[[566,567],null]},{"Or":[568]},{"Not":569},{"And":[[570,49],null]},{"Or":[571]},{"Call":[151,[[2,572]]]},{"Token":92},{"Token":53},{"And":[[574,575,49],null]},{"Or":[576]},{"Call":[151,[[2,577]]]},{"And":[[565,573,578],null]},{"Or":[579]},{"Call":[154,[[5,580]]]},{"And":[[563,581],null]},{"Or":[582]},{"Call":[151,[[2,49]]]},{"Call":[153,[[4,584]]]},{"Opt":9},{"And":[[585,586],null]},{"Or":[587]},{"Token":5},{"Token":92},{"And":[[589,590],null]},{"Or":[591]},{"Token":73},{"And":[[593,34],null]},{"Or":[594]},{"Rep":595},{"And":[[51,596],null]},{"Or":[597]},{"And":[[51],null]},{"Or":[599]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[611]},{"And":[[121,49],null]},{"Or":[613]},{"Token":67},{"Token":21},{"And":[[616],null]},{"Token":27},{"And":[[618],null]},{"Or":[617,619]},{"And":[[615,620,49],null]},{"Or":[621]},{"Token":81},{"And":[[623],null]},{"Or":[624]},{"Token":37},{"Token":38},{"And":[[626,627],null]},{"Or":[628]},{"Opt":58},{"And":[[49,630],null]},{"Or":[631]},{"Call":[153,[[4,632]]]},{"And":[[633],null]},{"Or":[634]},{"Token":61},{"Call":[151,[[2,49]]]},{"And":[[636,637],null]},{"Or":[638]},{"Token":82},{"And":[[640],null]},{"Or":[641]},{"Token":58},{"And":[[643,76],null]},{"Or":[644]},{"Opt":645},{"And":[[49,646],null]},{"Or":[647]},{"Call":[155,[[6,648]]]},{"And":[[649],null]},{"Or":[650]},{"Opt":10},{"Token":8},{"Call":[151,[[2,62]]]},{"Call":[153,[[4,654]]]},{"Opt":9},{"And":[[652,653,655,656],2]},{"Or":[657]},{"Token":59},{"And":[[64,659],null]},{"Or":[660]},{"Opt":661},{"And":[[662,49],null]},{"Or":[663]},{"Token":23},{"And":[[665,31,49],1]},{"Or":[666]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[675],null]},{"Or":[676]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[678,679]},{"Opt":680},{"And":[[40,681],null]},{"Or":[682]},{"Call":[151,[[2,64]]]},{"Token":63},{"Token":61},{"Opt":686},{"And":[[685,687],null]},{"Or":[688]},{"Opt":689},{"And":[[684,690],null]},{"Or":[691]},{"Call":[153,[[4,692]]]},{"And":[[693],null]},{"Or":[694]},{"Call":[151,[[2,69]]]},{"Token":63},{"Token":61},{"Opt":698},{"And":[[697,699],null]},{"Or":[700]},{"Opt":701},{"And":[[696,702],null]},{"Or":[703]},{"Call":[152,[[3,704]]]},{"And":[[705],null]},{"Or":[706]},{"Token":59},{"Not":708},{"And":[[70,709],null]},{"Token":92},{"Token":59},{"And":[[711,712,64],2]},{"Or":[710,713]},{"Token":28},{"Opt":715},{"Token":27},{"Opt":717},{"Token":92},{"And":[[716,718,719],null]},{"Or":[720]},{"And":[[80],null]},{"Or":[722]},{"Token":37},{"Token":38},{"And":[[724,725],null]},{"Or":[726]},{"Opt":74},{"And":[[64,728],null]},{"Or":[729]},{"Call":[153,[[4,730]]]},{"And":[[731],null]},{"Or":[732]},{"Token":61},{"Call":[151,[[2,64]]]},{"And":[[734,735],null]},{"Or":[736]},{"Token":77},{"Token":27},{"Opt":739},{"And":[[738,740,64],null]},{"Or":[741]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":745},{"And":[[743,744,746,114],null]},{"Or":[747]},{"IsIn":2},{"Not":78},{"And":[[749,750],null]},{"IsIn":2},{"Not":752},{"And":[[753],null]},{"Or":[751,754]},{"And":[[755,114],null]},{"Or":[756]},{"Token":62},{"Token":92},{"And":[[759],null]},{"Token":89},{"And":[[761],null]},{"Or":[760,762]},{"And":[[758,763],null]},{"Or":[764]},{"Call":[155,[[6,76]]]},{"Token":83},{"Token":5},{"And":[[768,50],null]},{"Or":[769]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[774],null]},{"Token":69},{"And":[[776],null]},{"Token":71},{"And":[[778],null]},{"Or":[775,777,779]},{"Call":[128,[[1,780]]]},{"Token":73},{"And":[[782],null]},{"Token":75},{"And":[[784],null]},{"Or":[783,785]},{"Call":[128,[[1,786]]]},{"ContextualToken":[45,"<<"]},{"And":[[788],null]},{"ContextualToken":[47,">>"]},{"And":[[790],null]},{"Or":[789,791]},{"Call":[128,[[1,792]]]},{"ContextualToken":[49,"&&"]},{"Not":794},{"Token":77},{"And":[[795,796],null]},{"Or":[797]},{"Call":[128,[[1,798]]]},{"Token":84},{"Call":[128,[[1,800]]]},{"ContextualToken":[50,"||"]},{"Not":802},{"Token":79},{"And":[[803,804],null]},{"Or":[805]},{"Call":[128,[[1,806]]]},{"Call":[128,[[1,133]]]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,809]]]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,811]]]},{"Call":[128,[[1,141]]]},{"Token":53},{"And":[[814],null]},{"Token":74},{"And":[[816],null]},{"Token":76},{"And":[[818],null]},{"Token":68},{"And":[[820],null]},{"Token":70},{"And":[[822],null]},{"Token":72},{"And":[[824],null]},{"Token":78},{"And":[[826],null]},{"Token":80},{"And":[[828],null]},{"Token":85},{"And":[[830],null]},{"ContextualToken":[48,">>="]},{"And":[[832],null]},{"ContextualToken":[46,"<<="]},{"And":[[834],null]},{"Or":[815,817,819,821,823,825,827,829,831,833,835]},{"Call":[128,[[1,836]]]},{"And":[[80],null]},{"Token":92},{"And":[[839],null]},{"Token":87},{"And":[[841],null]},{"Token":18},{"And":[[843],null]},{"Token":19},{"And":[[845],null]},{"Token":41},{"And":[[847],null]},{"Token":60},{"And":[[849],null]},{"Token":37},{"And":[[851],null]},{"Token":43},{"And":[[853],null]},{"Token":79},{"And":[[855],null]},{"Token":31},{"And":[[857],null]},{"Token":39},{"And":[[859],null]},{"Token":14},{"And":[[861],null]},{"Token":25},{"And":[[863],null]},{"Token":24},{"And":[[865],null]},{"Token":23},{"And":[[867],null]},{"Token":30},{"And":[[869],null]},{"Token":26},{"And":[[871],null]},{"Token":32},{"And":[[873],null]},{"Token":33},{"And":[[875],null]},{"Token":77},{"And":[[877],null]},{"Token":67},{"And":[[879],null]},{"Token":75},{"And":[[881],null]},{"Token":82},{"And":[[883],null]},{"Token":63},{"And":[[885],null]},{"Token":64},{"And":[[887],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[889],null]},{"Var":0},{"Exit":[2,891]},{"Exit":[0,892]},{"And":[[893],null]},{"Token":89},{"And":[[895],null]},{"Token":90},{"And":[[897],null]},{"Token":91},{"And":[[899],null]},{"Token":86},{"And":[[901],null]},{"Token":88},{"And":[[903],null]},{"Or":[896,898,900,902,904]},{"Token":92},{"Token":82},{"And":[[906,907],null]},{"Or":[908]},{"Not":909},{"Opt":82},{"And":[[910,40,911],null]},{"Or":[912]},{"IsIn":0},{"Not":914},{"Call":[151,[[2,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[917,918],null]},{"Or":[919]},{"Opt":920},{"And":[[916,921],null]},{"Or":[922]},{"Call":[152,[[3,923]]]},{"And":[[915,924],null]},{"Or":[925]},{"Token":92},{"Token":59},{"And":[[928,76],null]},{"Or":[929]},{"Opt":930},{"And":[[927,931],1]},{"Or":[932]},{"Token":37},{"Token":38},{"And":[[934,935],null]},{"Or":[936]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[938,939],null]},{"Or":[940]},{"Call":[153,[[4,941]]]},{"And":[[942],null]},{"Or":[943]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[151,[[2,946]]]},{"And":[[945,947],null]},{"Or":[948]},{"Token":58},{"And":[[950,76],null]},{"Token":61},{"Call":[151,[[2,76]]]},{"And":[[952,953],null]},{"Or":[951,954]},{"Opt":955},{"And":[[76,956],null]},{"Or":[957]},{"Call":[79,[[0,958]]]},{"Call":[155,[[6,959]]]},{"And":[[960],null]},{"Or":[961]},{"Token":26},{"Opt":963},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[968,49,92],null]},{"Call":[79,[[0,76]]]},{"And":[[970],null]},{"Or":[969,971]},{"And":[[964,965,966,967,972],null]},{"Or":[973]},{"Token":61},{"And":[[975],null]},{"Token":79},{"Not":977},{"Not":978},{"And":[[979],null]},{"Or":[976,980]},{"And":[[13,981],1]},{"Token":31},{"Opt":76},{"And":[[983,984],null]},{"Or":[985]},{"Token":33},{"And":[[987],null]},{"Token":32},{"And":[[989],null]},{"Or":[988,990]},{"Token":87},{"Opt":992},{"And":[[991,993],null]},{"Or":[994]},{"Token":35},{"Opt":996},{"WithSkip":[94,93]},{"Rep":998},{"Call":[152,[[3,999]]]},{"And":[[997,1000],null]},{"Or":[1001]},{"Call":[79,[[0,1002]]]},{"And":[[1003],null]},{"Or":[1004]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1010],null]},{"Token":58},{"And":[[1012],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1018,76],1]},{"Or":[1019]},{"Opt":1020},{"Token":58},{"And":[[1016,64,1017,1021,1022],1]},{"Or":[1023]},{"Token":59},{"And":[[1025,49],null]},{"Or":[1026]},{"Token":58},{"And":[[1028],null]},{"Or":[1029]},{"And":[[78],null]},"Eof",{"And":[[1032],null]},{"Token":58},{"And":[[1034],null]},{"Or":[1031,1033,1035]},{"And":[[76,1036],1]},{"Or":[1037]},{"Enter":[2,1038]},{"And":[[1039],null]},{"Or":[1040]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1044,1045]},{"And":[[1043,1046],null]},{"Or":[1047]},{"Opt":1048},{"And":[[1042,101,92,1049],1]},{"Or":[1050]},{"Opt":105},{"Token":25},{"And":[[1052,1053,101,92],2]},{"Or":[1054]},{"Token":9},{"Token":53},{"And":[[1056,64,1057],1]},{"Or":[1058]},{"Opt":1059},{"And":[[1060,102],1]},{"Enter":[0,76]},{"And":[[1062],null]},{"Opt":105},{"Token":24},{"And":[[1064,1065,92],2]},{"Or":[1066]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1068,1069,64,1070,102,92],2]},{"Or":[1071]},{"Token":87},{"Token":59},{"And":[[1073,1074],null]},{"Token":30},{"Rep":107},{"Call":[152,[[3,1077]]]},{"And":[[1076,102,1078],1]},{"Or":[1079]},{"Token":52},{"Enter":[2,76]},{"Token":61},{"And":[[1083],null]},"Eof",{"And":[[1085],null]},{"And":[[78],null]},{"Or":[1084,1086,1087]},{"And":[[108,1081,1082,1088],1]},{"Or":[1089]},{"Token":79},{"And":[[1091,64],null]},{"Or":[1092]},{"Rep":1093},{"Opt":109},{"And":[[64,1094,1095],null]},{"Token":14},{"And":[[1097,76],null]},{"Or":[1098]},{"And":[[148],null]},{"Or":[1100]},{"And":[[149],null]},{"Or":[1102]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1106},{"And":[[1104,1105,1107,114],null]},{"Or":[1108]},{"And":[[76,1109],null]},{"Or":[1110]},{"IsIn":2},{"Not":78},{"And":[[1112,1113],null]},{"IsIn":2},{"Not":1115},{"And":[[1116],null]},{"Or":[1114,1117]},{"And":[[1118,114],null]},{"Or":[1119]},{"And":[[76,1120],null]},{"Or":[1121]},{"Call":[151,[[2,115]]]},{"Call":[153,[[4,1123]]]},{"Call":[79,[[0,1124]]]},{"And":[[1125],null]},{"And":[[76],null]},{"Or":[1127]},{"Token":62},{"Token":92},{"And":[[1130],null]},{"Token":89},{"And":[[1132],null]},{"Or":[1131,1133]},{"And":[[1129,1134],null]},{"Or":[1135]},{"And":[[76,1136],null]},{"Or":[1137]},{"Call":[155,[[6,76]]]},{"And":[[76,1139],null]},{"Or":[1140]},{"Token":83},{"And":[[76,1142],null]},{"Or":[1143]},{"Token":5},{"And":[[1145,50],null]},{"Or":[1146]},{"And":[[76,1147],null]},{"Or":[1148]},{"And":[[121,76],null]},{"Or":[1150]},{"Token":77},{"Token":87},{"Opt":1153},{"Token":27},{"Opt":1155},{"And":[[1152,1154,1156],null]},{"Token":67},{"And":[[1158,76],null]},{"Or":[1159]},{"Token":75},{"And":[[1161,76],null]},{"Or":[1162]},{"Token":82},{"And":[[1164,76],null]},{"Or":[1165]},{"Token":67},{"And":[[1167],null]},{"Token":69},{"And":[[1169],null]},{"Token":71},{"And":[[1171],null]},{"Or":[1168,1170,1172]},{"Call":[128,[[1,1173]]]},{"And":[[76,1174,76],null]},{"Or":[1175]},{"Token":73},{"And":[[1177],null]},{"Token":75},{"And":[[1179],null]},{"Or":[1178,1180]},{"Call":[128,[[1,1181]]]},{"And":[[76,1182,76],null]},{"Or":[1183]},{"ContextualToken":[45,"<<"]},{"And":[[1185],null]},{"ContextualToken":[47,">>"]},{"And":[[1187],null]},{"Or":[1186,1188]},{"Call":[128,[[1,1189]]]},{"And":[[76,1190,76],null]},{"Or":[1191]},{"IsIn":2},{"Not":78},{"Var":1},{"And":[[1193,1194,1195],null]},{"IsIn":2},{"Not":1197},{"Var":1},{"And":[[1198,1199],null]},{"ContextualToken":[49,"&&"]},{"Not":1201},{"Token":77},{"And":[[1202,1203],null]},{"Or":[1204]},{"Call":[128,[[1,1205]]]},{"And":[[76,1206,76],null]},{"Or":[1207]},{"Token":84},{"Call":[128,[[1,1209]]]},{"And":[[76,1210,76],null]},{"Or":[1211]},{"ContextualToken":[50,"||"]},{"Not":1213},{"Token":79},{"And":[[1214,1215],null]},{"Or":[1216]},{"Call":[128,[[1,1217]]]},{"And":[[76,1218,76],null]},{"Or":[1219]},{"Call":[128,[[1,133]]]},{"And":[[76,1221,76],null]},{"Or":[1222]},{"Token":54},{"And":[[1224],null]},{"Token":55},{"And":[[1226],null]},{"ContextualToken":[46,"<<="]},{"And":[[1228],null]},{"ContextualToken":[48,">>="]},{"And":[[1230],null]},{"Or":[1229,1231]},{"Not":1232},{"Token":41},{"And":[[1234],null]},{"Token":42},{"And":[[1236],null]},{"Or":[1235,1237]},{"And":[[1233,1238],null]},{"Token":57},{"And":[[1240],null]},{"Token":56},{"And":[[1242],null]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,1244]]]},{"And":[[76,1245,76],null]},{"Or":[1246]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,1248]]]},{"And":[[76,1249,76],null]},{"Or":[1250]},{"Call":[128,[[1,141]]]},{"And":[[76,1252,76],null]},{"Or":[1253]},{"And":[[141,76],null]},{"Or":[1255]},{"And":[[76,140],null]},{"Or":[1257]},{"Token":63},{"Not":77},{"And":[[1259,1260],null]},{"Or":[1261]},{"Token":63},{"And":[[1263],null]},{"Token":64},{"And":[[1265],null]},{"Not":77},{"Not":1267},{"Token":39},{"IsIn":0},{"And":[[1269,1270],null]},{"Or":[1271]},{"Not":1272},{"And":[[140,1268,1273],null]},{"Token":53},{"And":[[1275],null]},{"Token":74},{"And":[[1277],null]},{"Token":76},{"And":[[1279],null]},{"Token":68},{"And":[[1281],null]},{"Token":70},{"And":[[1283],null]},{"Token":72},{"And":[[1285],null]},{"Token":78},{"And":[[1287],null]},{"Token":80},{"And":[[1289],null]},{"Token":85},{"And":[[1291],null]},{"ContextualToken":[48,">>="]},{"And":[[1293],null]},{"ContextualToken":[46,"<<="]},{"And":[[1295],null]},{"Or":[1276,1278,1280,1282,1284,1286,1288,1290,1292,1294,1296]},{"Call":[128,[[1,1297]]]},{"And":[[76,1298,76],null]},{"Or":[1299]},{"Token":65},{"And":[[1301,145],null]},{"Or":[1302]},{"Token":65},{"Token":82},{"And":[[1304,1305,145],null]},{"Or":[1306]},{"Call":[151,[[2,147]]]},{"Call":[155,[[6,1308]]]},{"And":[[1309],null]},{"Rep":143},{"And":[[1311],null]},{"Token":92},{"Token":53},{"And":[[1314,76],null]},{"Call":[151,[[2,147]]]},{"Call":[153,[[4,1316]]]},{"And":[[1317],null]},{"Or":[1315,1318]},{"Opt":1319},{"And":[[1313,1320],1]},{"Or":[1321]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1325},{"Rep":150},{"Call":[152,[[3,1327]]]},{"And":[[1323,1324,1326,1328],null]},{"Or":[1329]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1333},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1335,1336,1337],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1339,1340,1341],null]},{"Or":[1338,1342]},{"And":[[1331,1332,1334,1343],null]},{"Or":[1344]},{"Token":37},{"And":[[1346],null]},{"Token":38},{"And":[[1348],null]},{"Token":39},{"And":[[1350],null]},{"Token":40},{"And":[[1352],null]},{"Token":43},{"And":[[1354],null]},{"Token":44},{"And":[[1356],null]},{"Or":[1347,1349,1351,1353,1355,1357]},{"Not":1358},"Any",{"And":[[1359,1360],null]},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1362,1363,1364],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1366,1367,1368],null]},{"Token":39},{"Rep":150},{"Token":40},{"And":[[1370,1371,1372],null]},{"Or":[1361,1365,1369,1373]},{"Var":2},"Eof",{"And":[[1376],null]},{"Token":61},{"And":[[1378],null]},{"Or":[1377,1379]},{"And":[[1375,1380],1]},{"Or":[1381]},{"Rep":1382},{"And":[[1383],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[156,[[7,1385],[8,1386],[9,1387]]]},{"And":[[1388],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[156,[[7,1390],[8,1391],[9,1392]]]},{"And":[[1393],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[156,[[7,1395],[8,1396],[9,1397]]]},{"And":[[1398],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[156,[[7,1400],[8,1401],[9,1402]]]},{"And":[[1403],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[157,[[10,1406],[11,1407]]]},{"Var":9},{"Layer":[1408,1409]},{"Var":8},{"And":[[1405,1410,1411],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[157,[[10,1414],[11,1415]]]},{"Var":11},{"And":[[1413,1416,1417],1]},{"Var":11},{"Not":1419},"Any",{"And":[[1420,1421],null]},{"Or":[1422]},{"And":[[1423],null]},{"Or":[1418,1424]},{"Rep":1425},{"And":[[1426],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":159,"replaceable":false}},{"Or":[162]},{"Or":[164,166,168,170,172,174,176,177]},{"Cached":194},{"Pub":{"ty":94,"body":210,"replaceable":false}},{"Pub":{"ty":95,"body":216,"replaceable":false}},{"Pub":{"ty":96,"body":223,"replaceable":false}},{"Pub":{"ty":97,"body":230,"replaceable":false}},{"Pub":{"ty":98,"body":246,"replaceable":false}},{"Or":[248]},{"Pub":{"ty":99,"body":253,"replaceable":false}},{"Or":[259]},{"Pub":{"ty":100,"body":262,"replaceable":false}},{"Pub":{"ty":101,"body":268,"replaceable":false}},{"Pub":{"ty":102,"body":285,"replaceable":false}},{"Pub":{"ty":103,"body":304,"replaceable":false}},{"Pub":{"ty":104,"body":309,"replaceable":false}},{"Pub":{"ty":105,"body":312,"replaceable":false}},{"Pub":{"ty":106,"body":319,"replaceable":false}},{"Pub":{"ty":107,"body":332,"replaceable":false}},{"Pub":{"ty":108,"body":341,"replaceable":false}},{"Pub":{"ty":109,"body":354,"replaceable":false}},{"Pub":{"ty":110,"body":362,"replaceable":false}},{"Pub":{"ty":111,"body":374,"replaceable":false}},{"Or":[375,376,377,378]},{"Or":[380,382,384,386,388,390,392,394,399]},{"Pub":{"ty":112,"body":409,"replaceable":false}},{"Pub":{"ty":113,"body":423,"replaceable":false}},{"Pub":{"ty":114,"body":427,"replaceable":false}},{"Pub":{"ty":115,"body":431,"replaceable":false}},{"Or":[439]},{"Pub":{"ty":116,"body":446,"replaceable":false}},{"Pub":{"ty":117,"body":450,"replaceable":false}},{"Or":[470]},{"Pub":{"ty":118,"body":475,"replaceable":false}},{"Pub":{"ty":119,"body":495,"replaceable":false}},{"Pub":{"ty":120,"body":505,"replaceable":false}},{"Pub":{"ty":121,"body":520,"replaceable":false}},{"Or":[521]},{"Or":[523]},{"Or":[525]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":528,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":532,"replaceable":false}},{"Pub":{"ty":122,"body":537,"replaceable":false}},{"Pub":{"ty":123,"body":544,"replaceable":false}},{"Pub":{"ty":124,"body":558,"replaceable":false}},{"Pub":{"ty":125,"body":584,"replaceable":false}},{"Pub":{"ty":126,"body":589,"replaceable":false}},{"Pub":{"ty":127,"body":593,"replaceable":false}},{"Pub":{"ty":128,"body":599,"replaceable":false}},{"Pub":{"ty":128,"body":601,"replaceable":false}},{"Or":[602,603,604,605,606,607,608,609,610,611]},{"Pub":{"ty":129,"body":613,"replaceable":false}},{"Pub":{"ty":130,"body":615,"replaceable":false}},{"Pub":{"ty":131,"body":623,"replaceable":false}},{"Pub":{"ty":132,"body":626,"replaceable":false}},{"Pub":{"ty":133,"body":630,"replaceable":false}},{"Pub":{"ty":134,"body":636,"replaceable":true}},{"PubReplace":{"ty":135,"body":640}},{"Pub":{"ty":136,"body":643,"replaceable":false}},{"Pub":{"ty":137,"body":652,"replaceable":false}},{"Pub":{"ty":138,"body":659,"replaceable":false}},{"Pub":{"ty":100,"body":665,"replaceable":false}},{"Pub":{"ty":139,"body":668,"replaceable":false}},{"Or":[669,670,671,672,673,674,675]},{"Pub":{"ty":140,"body":678,"replaceable":false}},{"Pub":{"ty":141,"body":684,"replaceable":true}},{"PubReplace":{"ty":142,"body":696}},{"PubReplace":{"ty":143,"body":708}},{"Pub":{"ty":144,"body":715,"replaceable":false}},{"Pub":{"ty":145,"body":722,"replaceable":false}},{"Pub":{"ty":146,"body":724,"replaceable":false}},{"Pub":{"ty":147,"body":728,"replaceable":false}},{"Pub":{"ty":148,"body":734,"replaceable":true}},{"PubReplace":{"ty":149,"body":738}},{"Pub":{"ty":150,"body":743,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,139],"prefixes":[{"ty":184,"op":121,"priority":999},{"ty":185,"op":772,"priority":999},{"ty":186,"op":773,"priority":999},{"ty":187,"op":774,"priority":999},{"ty":197,"op":141,"priority":2}],"infixes":[{"ty":177,"op":749,"priority":999,"has_rhs":false},{"ty":178,"op":758,"priority":999,"has_rhs":false},{"ty":180,"op":766,"priority":999,"has_rhs":false},{"ty":181,"op":767,"priority":999,"has_rhs":false},{"ty":182,"op":768,"priority":999,"has_rhs":false},{"ty":183,"op":771,"priority":12,"has_rhs":false},{"ty":188,"op":782,"priority":11,"has_rhs":true},{"ty":189,"op":788,"priority":10,"has_rhs":true},{"ty":190,"op":794,"priority":9,"has_rhs":true},{"ty":191,"op":800,"priority":8,"has_rhs":true},{"ty":192,"op":802,"priority":7,"has_rhs":true},{"ty":193,"op":808,"priority":6,"has_rhs":true},{"ty":194,"op":809,"priority":5,"has_rhs":true},{"ty":195,"op":811,"priority":4,"has_rhs":true},{"ty":196,"op":813,"priority":3,"has_rhs":true},{"ty":197,"op":814,"priority":2,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":false},{"ty":198,"op":838,"priority":1,"has_rhs":true}]}},{"Or":[839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885,887,889]},{"Or":[891]},{"Or":[895]},{"Pub":{"ty":152,"body":906,"replaceable":false}},{"Pub":{"ty":153,"body":914,"replaceable":true}},{"PubReplace":{"ty":154,"body":927}},{"Pub":{"ty":155,"body":934,"replaceable":false}},{"Pub":{"ty":156,"body":938,"replaceable":false}},{"Pub":{"ty":157,"body":945,"replaceable":true}},{"PubReplace":{"ty":158,"body":950}},{"Pub":{"ty":159,"body":963,"replaceable":false}},{"Pub":{"ty":160,"body":975,"replaceable":false}},{"Or":[983]},{"Pub":{"ty":161,"body":987,"replaceable":false}},{"Pub":{"ty":162,"body":996,"replaceable":false}},{"Pub":{"ty":163,"body":1006,"replaceable":false}},{"Or":[1007,1008,1009,1010]},{"Or":[1012,1014,1015,1016]},{"Pub":{"ty":164,"body":1025,"replaceable":false}},{"Pub":{"ty":165,"body":1028,"replaceable":false}},{"Pub":{"ty":166,"body":1031,"replaceable":false}},{"Pub":{"ty":167,"body":1042,"replaceable":false}},{"Pub":{"ty":168,"body":1052,"replaceable":false}},{"Pub":{"ty":169,"body":1056,"replaceable":false}},{"Or":[1062]},{"Or":[1064]},{"Pub":{"ty":170,"body":1068,"replaceable":false}},{"Pub":{"ty":171,"body":1073,"replaceable":false}},{"Or":[1076]},{"Pub":{"ty":172,"body":1081,"replaceable":false}},{"Pub":{"ty":173,"body":1091,"replaceable":false}},{"Or":[1097]},{"Pub":{"ty":174,"body":1100,"replaceable":false}},{"Pub":{"ty":175,"body":1102,"replaceable":false}},{"Pub":{"ty":176,"body":1104,"replaceable":false}},{"Pub":{"ty":177,"body":1112,"replaceable":false}},{"Pub":{"ty":178,"body":1123,"replaceable":false}},{"Or":[1127]},{"Pub":{"ty":179,"body":1129,"replaceable":false}},{"Pub":{"ty":180,"body":1139,"replaceable":false}},{"Pub":{"ty":181,"body":1142,"replaceable":false}},{"Pub":{"ty":182,"body":1145,"replaceable":false}},{"Pub":{"ty":183,"body":1150,"replaceable":false}},{"Pub":{"ty":184,"body":1152,"replaceable":false}},{"Or":[1158]},{"Pub":{"ty":185,"body":1161,"replaceable":false}},{"Pub":{"ty":186,"body":1164,"replaceable":false}},{"Pub":{"ty":187,"body":1167,"replaceable":false}},{"Pub":{"ty":188,"body":1177,"replaceable":false}},{"Pub":{"ty":189,"body":1185,"replaceable":false}},{"Pub":{"ty":190,"body":1193,"replaceable":false}},{"Or":[1197,1201]},{"Pub":{"ty":191,"body":1209,"replaceable":false}},{"Pub":{"ty":192,"body":1213,"replaceable":false}},{"Pub":{"ty":193,"body":1221,"replaceable":false}},{"Pub":{"ty":194,"body":1224,"replaceable":false}},{"Or":[1226,1228,1240,1242,1244]},{"Pub":{"ty":195,"body":1248,"replaceable":false}},{"Pub":{"ty":196,"body":1252,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Pub":{"ty":197,"body":1257,"replaceable":false}},{"Pub":{"ty":197,"body":1259,"replaceable":false}},{"Pub":{"ty":197,"body":1263,"replaceable":false}},{"Or":[1265,1267]},{"Or":[1275]},{"Pub":{"ty":198,"body":1301,"replaceable":false}},{"Pub":{"ty":199,"body":1304,"replaceable":false}},{"Pub":{"ty":200,"body":1308,"replaceable":false}},{"Or":[1311]},{"Or":[1313]},{"Pub":{"ty":201,"body":1323,"replaceable":false}},{"Pub":{"ty":202,"body":1331,"replaceable":false}},{"Pub":{"ty":203,"body":1346,"replaceable":false}},{"Pub":{"ty":204,"body":1375,"replaceable":false}},{"Or":[1385]},{"Or":[1390]},{"Or":[1395]},{"Or":[1400]},{"Or":[1405]},{"Or":[1413]},{"Or":[1428]},{"And":[[1],null]},{"Or":[158]},{"WithSkip":[2,3]},{"Rep":160},{"And":[[161],null]},{"Token":11},{"And":[[163],null]},{"ContextualToken":[4,"union"]},{"And":[[165],null]},{"Token":16},{"And":[[167],null]},{"Token":12},{"And":[[169],null]},{"Token":13},{"And":[[171],null]},{"Token":17},{"And":[[173],null]},{"Token":29},{"And":[[175],null]},{"And":[[25],null]},{"Opt":36},{"And":[[146,178],null]},{"Or":[179]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[181,182,183,184,185,186,187,188,189]},{"Inject":[180,190]},{"And":[[191],null]},{"And":[[28],null]},{"Or":[192,193]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[197,5],null]},{"Or":[198]},{"Opt":199},{"And":[[200],null]},{"Or":[196,201]},{"And":[[38,202],null]},{"Token":60},{"Opt":204},{"And":[[205,5],null]},{"Or":[203,206]},{"Token":58},{"And":[[195,207,208],1]},{"Or":[209]},{"Token":67},{"And":[[211],null]},{"Call":[151,[[2,6]]]},{"Call":[152,[[3,213]]]},{"And":[[214],null]},{"Or":[212,215]},{"Token":18},{"Opt":48},{"And":[[217,218],null]},{"Token":92},{"Opt":48},{"And":[[220,221],1]},{"Or":[219,222]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[224,225,226,227,228],2]},{"Or":[229]},{"Token":21},{"Opt":231},{"Token":35},{"Opt":233},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[242],null]},{"Or":[241,243]},{"And":[[232,234,235,236,237,238,11,239,240,244],4]},{"Or":[245]},{"Token":51},{"And":[[247,49],null]},{"Token":7},{"Token":90},{"Opt":250},{"And":[[249,251],null]},{"Or":[252]},{"Opt":14},{"Call":[151,[[2,12]]]},{"And":[[254,255],null]},{"Or":[256]},{"Call":[153,[[4,257]]]},{"And":[[258],null]},{"Token":59},{"And":[[64,260,49],1]},{"Or":[261]},{"Token":59},{"And":[[263,49],null]},{"Or":[264]},{"Opt":265},{"And":[[64,266],null]},{"Or":[267]},{"And":[[121],null]},{"Token":27},{"And":[[270],null]},{"Or":[269,271]},{"Opt":272},{"Token":18},{"Token":59},{"And":[[275,49],null]},{"Or":[276]},{"Opt":277},{"Token":61},{"And":[[279],null]},"Eof",{"And":[[281],null]},{"Or":[280,282]},{"And":[[273,274,278,283],2]},{"Or":[284]},{"Token":11},{"And":[[286],null]},{"ContextualToken":[4,"union"]},{"And":[[288],null]},{"Or":[287,289]},{"Token":92},{"Opt":31},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,293]]]},{"And":[[294],null]},{"Token":58},{"And":[[296],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,298]]]},{"Token":58},{"And":[[299,300],null]},{"Or":[295,297,301]},{"And":[[290,291,292,302],1]},{"Or":[303]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[305,306,307,49],2]},{"Or":[308]},{"Opt":36},{"And":[[310,49],null]},{"Or":[311]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[151,[[2,19]]]},{"Call":[152,[[3,316]]]},{"And":[[313,314,315,317],1]},{"Or":[318]},{"Token":92},{"Token":53},{"And":[[321,76],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,323]]]},{"And":[[324],null]},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,326]]]},{"And":[[327],null]},{"Or":[322,325,328]},{"Opt":329},{"And":[[320,330],1]},{"Or":[331]},{"Token":13},{"Token":92},{"Token":58},{"And":[[335],null]},{"Call":[152,[[3,1]]]},{"And":[[337],null]},{"Or":[336,338]},{"And":[[333,334,339],1]},{"Or":[340]},{"Token":35},{"Opt":342},{"Token":17},{"Opt":31},{"Token":23},{"And":[[346,49],null]},{"Or":[347]},{"Opt":348},{"And":[[49,349],null]},{"Or":[350]},{"Opt":37},{"And":[[343,344,345,351,352,23],2]},{"Or":[353]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[146,355,356,357,358,359,360,23],3]},{"Or":[361]},{"Opt":36},{"And":[[146,363],null]},{"Or":[364]},{"Inject":[365,24]},{"And":[[366],null]},{"And":[[28],null]},{"Or":[367,368]},{"WithSkip":[25,369]},{"Rep":370},{"Call":[152,[[3,371]]]},{"And":[[372],null]},{"Or":[373]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[144],null]},{"Token":10},{"And":[[379],null]},{"Token":8},{"And":[[381],null]},{"Token":20},{"And":[[383],null]},{"Token":21},{"And":[[385],null]},{"Token":22},{"And":[[387],null]},{"Token":35},{"And":[[389],null]},{"Token":65},{"And":[[391],null]},{"Token":7},{"And":[[393],null]},{"Token":92},{"Token":82},{"And":[[395,396],null]},{"Or":[397]},{"And":[[398],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[403,49],null]},{"Or":[404]},{"Opt":405},{"Token":58},{"And":[[400,401,402,406,407],1]},{"Or":[408]},{"Token":21},{"And":[[410],null]},{"Token":22},{"And":[[412],null]},{"Or":[411,413]},{"Token":92},{"Token":59},{"Token":53},{"And":[[417,76],null]},{"Or":[418]},{"Opt":419},{"Token":58},{"And":[[414,415,416,49,420,421],1]},{"Or":[422]},{"And":[[148],null]},{"Token":58},{"And":[[149,425],null]},{"Or":[424,426]},{"Rep":30},{"Call":[152,[[3,428]]]},{"And":[[10,429],null]},{"Or":[430]},{"Opt":36},{"And":[[146,432],null]},{"Or":[433]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[435,436]},{"Inject":[434,437]},{"And":[[438],null]},{"Call":[151,[[2,35]]]},{"Call":[151,[[2,32]]]},{"And":[[440,441],null]},{"Or":[442]},{"Call":[154,[[5,443]]]},{"And":[[444],null]},{"Or":[445]},{"Token":92},{"Opt":33},{"And":[[447,448],1]},{"Or":[449]},{"Token":59},{"Token":73},{"And":[[452],null]},"Eof",{"And":[[454],null]},{"Token":61},{"And":[[456],null]},{"Token":39},{"And":[[458],null]},{"Token":36},{"And":[[460],null]},{"Or":[457,459,461]},{"Not":462},{"Not":463},{"And":[[464],null]},{"Or":[453,455,465]},{"And":[[34,466],1]},{"Or":[467]},{"Rep":468},{"And":[[451,469],null]},{"Token":87},{"And":[[471],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[472,473,474]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[479],null]},"Eof",{"And":[[481],null]},{"Token":61},{"Not":483},{"Not":484},{"And":[[485],null]},{"Or":[480,482,486]},{"And":[[478,487],1]},{"Or":[488]},{"Rep":489},{"And":[[477,490],null]},{"Or":[491]},{"Opt":492},{"And":[[476,493],1]},{"Or":[494]},{"Token":10},{"Token":6},{"And":[[497],null]},{"Token":19},{"And":[[499],null]},{"Or":[498,500]},{"Call":[153,[[4,501]]]},{"Opt":502},{"And":[[496,503],null]},{"Or":[504]},{"Token":36},{"Token":61},{"And":[[507],null]},"Eof",{"And":[[509],null]},{"Token":39},{"Not":511},{"Not":512},{"And":[[513],null]},{"Or":[508,510,514]},{"And":[[49,33,515],null]},{"Or":[516]},{"Rep":517},{"And":[[506,518],1]},{"Or":[519]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[522],null]},{"Enter":[1,41]},{"And":[[524],null]},{"Token":60},{"And":[[526,45],null]},{"Or":[527]},{"Token":60},{"Opt":529},{"And":[[530,45],null]},{"Or":[531]},{"Token":60},{"And":[[533,45],null]},{"Or":[534]},{"And":[[41,535],null]},{"Or":[536]},{"Token":5},{"And":[[49,538,49],null]},{"Or":[539]},{"Call":[154,[[5,540]]]},{"Token":60},{"And":[[541,542,45],null]},{"Or":[543]},{"Token":92},{"And":[[545],null]},{"Token":18},{"And":[[547],null]},{"Token":19},{"And":[[549],null]},{"Or":[546,548,550]},{"And":[[46],null]},{"IsIn":3},{"And":[[553,47],null]},{"Or":[552,554]},{"Opt":555},{"And":[[551,556],null]},{"Or":[557]},{"IsIn":3},{"And":[[559],null]},{"IsIn":1},{"Token":60},{"And":[[561,562],null]},{"Or":[560,563]},{"Token":87},{"Call":[151,[[2,565]]]},{"Token":92},{"Token":53},{"And":[[567,568],null]},{"Or":[569]},{"Not":570},{"And":[[571,49],null]},{"Or":[572]},{"Call":[151,[[2,573]]]},{"Token":92},{"Token":53},{"And":[[575,576,49],null]},{"Or":[577]},{"Call":[151,[[2,578]]]},{"And":[[566,574,579],null]},{"Or":[580]},{"Call":[154,[[5,581]]]},{"And":[[564,582],null]},{"Or":[583]},{"Call":[151,[[2,49]]]},{"Call":[153,[[4,585]]]},{"Opt":9},{"And":[[586,587],null]},{"Or":[588]},{"Token":5},{"Token":92},{"And":[[590,591],null]},{"Or":[592]},{"Token":73},{"And":[[594,34],null]},{"Or":[595]},{"Rep":596},{"And":[[51,597],null]},{"Or":[598]},{"And":[[51],null]},{"Or":[600]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[612]},{"And":[[121,49],null]},{"Or":[614]},{"Token":67},{"Token":21},{"And":[[617],null]},{"Token":27},{"And":[[619],null]},{"Or":[618,620]},{"And":[[616,621,49],null]},{"Or":[622]},{"Token":81},{"And":[[624],null]},{"Or":[625]},{"Token":37},{"Token":38},{"And":[[627,628],null]},{"Or":[629]},{"Opt":58},{"And":[[49,631],null]},{"Or":[632]},{"Call":[153,[[4,633]]]},{"And":[[634],null]},{"Or":[635]},{"Token":61},{"Call":[151,[[2,49]]]},{"And":[[637,638],null]},{"Or":[639]},{"Token":82},{"And":[[641],null]},{"Or":[642]},{"Token":58},{"And":[[644,76],null]},{"Or":[645]},{"Opt":646},{"And":[[49,647],null]},{"Or":[648]},{"Call":[155,[[6,649]]]},{"And":[[650],null]},{"Or":[651]},{"Opt":10},{"Token":8},{"Call":[151,[[2,62]]]},{"Call":[153,[[4,655]]]},{"Opt":9},{"And":[[653,654,656,657],2]},{"Or":[658]},{"Token":59},{"And":[[64,660],null]},{"Or":[661]},{"Opt":662},{"And":[[663,49],null]},{"Or":[664]},{"Token":23},{"And":[[666,31,49],1]},{"Or":[667]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[676],null]},{"Or":[677]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[679,680]},{"Opt":681},{"And":[[40,682],null]},{"Or":[683]},{"Call":[151,[[2,64]]]},{"Token":63},{"Token":61},{"Opt":687},{"And":[[686,688],null]},{"Or":[689]},{"Opt":690},{"And":[[685,691],null]},{"Or":[692]},{"Call":[153,[[4,693]]]},{"And":[[694],null]},{"Or":[695]},{"Call":[151,[[2,69]]]},{"Token":63},{"Token":61},{"Opt":699},{"And":[[698,700],null]},{"Or":[701]},{"Opt":702},{"And":[[697,703],null]},{"Or":[704]},{"Call":[152,[[3,705]]]},{"And":[[706],null]},{"Or":[707]},{"Token":59},{"Not":709},{"And":[[70,710],null]},{"Token":92},{"Token":59},{"And":[[712,713,64],2]},{"Or":[711,714]},{"Token":28},{"Opt":716},{"Token":27},{"Opt":718},{"Token":92},{"And":[[717,719,720],null]},{"Or":[721]},{"And":[[80],null]},{"Or":[723]},{"Token":37},{"Token":38},{"And":[[725,726],null]},{"Or":[727]},{"Opt":74},{"And":[[64,729],null]},{"Or":[730]},{"Call":[153,[[4,731]]]},{"And":[[732],null]},{"Or":[733]},{"Token":61},{"Call":[151,[[2,64]]]},{"And":[[735,736],null]},{"Or":[737]},{"Token":77},{"Token":27},{"Opt":740},{"And":[[739,741,64],null]},{"Or":[742]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":746},{"And":[[744,745,747,114],null]},{"Or":[748]},{"IsIn":2},{"Not":78},{"And":[[750,751],null]},{"IsIn":2},{"Not":753},{"And":[[754],null]},{"Or":[752,755]},{"And":[[756,114],null]},{"Or":[757]},{"Token":62},{"Token":92},{"And":[[760],null]},{"Token":89},{"And":[[762],null]},{"Or":[761,763]},{"And":[[759,764],null]},{"Or":[765]},{"Call":[155,[[6,76]]]},{"Token":83},{"Token":5},{"And":[[769,50],null]},{"Or":[770]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[775],null]},{"Token":69},{"And":[[777],null]},{"Token":71},{"And":[[779],null]},{"Or":[776,778,780]},{"Call":[128,[[1,781]]]},{"Token":73},{"And":[[783],null]},{"Token":75},{"And":[[785],null]},{"Or":[784,786]},{"Call":[128,[[1,787]]]},{"ContextualToken":[45,"<<"]},{"And":[[789],null]},{"ContextualToken":[47,">>"]},{"And":[[791],null]},{"Or":[790,792]},{"Call":[128,[[1,793]]]},{"ContextualToken":[49,"&&"]},{"Not":795},{"Token":77},{"And":[[796,797],null]},{"Or":[798]},{"Call":[128,[[1,799]]]},{"Token":84},{"Call":[128,[[1,801]]]},{"ContextualToken":[50,"||"]},{"Not":803},{"Token":79},{"And":[[804,805],null]},{"Or":[806]},{"Call":[128,[[1,807]]]},{"Call":[128,[[1,133]]]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,810]]]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,812]]]},{"Call":[128,[[1,141]]]},{"Token":53},{"And":[[815],null]},{"Token":74},{"And":[[817],null]},{"Token":76},{"And":[[819],null]},{"Token":68},{"And":[[821],null]},{"Token":70},{"And":[[823],null]},{"Token":72},{"And":[[825],null]},{"Token":78},{"And":[[827],null]},{"Token":80},{"And":[[829],null]},{"Token":85},{"And":[[831],null]},{"ContextualToken":[48,">>="]},{"And":[[833],null]},{"ContextualToken":[46,"<<="]},{"And":[[835],null]},{"Or":[816,818,820,822,824,826,828,830,832,834,836]},{"Call":[128,[[1,837]]]},{"And":[[80],null]},{"Token":92},{"And":[[840],null]},{"Token":87},{"And":[[842],null]},{"Token":18},{"And":[[844],null]},{"Token":19},{"And":[[846],null]},{"Token":41},{"And":[[848],null]},{"Token":60},{"And":[[850],null]},{"Token":37},{"And":[[852],null]},{"Token":43},{"And":[[854],null]},{"Token":79},{"And":[[856],null]},{"Token":31},{"And":[[858],null]},{"Token":39},{"And":[[860],null]},{"Token":14},{"And":[[862],null]},{"Token":25},{"And":[[864],null]},{"Token":24},{"And":[[866],null]},{"Token":23},{"And":[[868],null]},{"Token":30},{"And":[[870],null]},{"Token":26},{"And":[[872],null]},{"Token":32},{"And":[[874],null]},{"Token":33},{"And":[[876],null]},{"Token":77},{"And":[[878],null]},{"Token":67},{"And":[[880],null]},{"Token":75},{"And":[[882],null]},{"Token":82},{"And":[[884],null]},{"Token":63},{"And":[[886],null]},{"Token":64},{"And":[[888],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[890],null]},{"Var":0},{"Exit":[2,892]},{"Exit":[0,893]},{"And":[[894],null]},{"Token":89},{"And":[[896],null]},{"Token":90},{"And":[[898],null]},{"Token":91},{"And":[[900],null]},{"Token":86},{"And":[[902],null]},{"Token":88},{"And":[[904],null]},{"Or":[897,899,901,903,905]},{"Token":92},{"Token":82},{"And":[[907,908],null]},{"Or":[909]},{"Not":910},{"Opt":82},{"And":[[911,40,912],null]},{"Or":[913]},{"IsIn":0},{"Not":915},{"Call":[151,[[2,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[918,919],null]},{"Or":[920]},{"Opt":921},{"And":[[917,922],null]},{"Or":[923]},{"Call":[152,[[3,924]]]},{"And":[[916,925],null]},{"Or":[926]},{"Token":92},{"Token":59},{"And":[[929,76],null]},{"Or":[930]},{"Opt":931},{"And":[[928,932],1]},{"Or":[933]},{"Token":37},{"Token":38},{"And":[[935,936],null]},{"Or":[937]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[939,940],null]},{"Or":[941]},{"Call":[153,[[4,942]]]},{"And":[[943],null]},{"Or":[944]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[151,[[2,947]]]},{"And":[[946,948],null]},{"Or":[949]},{"Token":58},{"And":[[951,76],null]},{"Token":61},{"Call":[151,[[2,76]]]},{"And":[[953,954],null]},{"Or":[952,955]},{"Opt":956},{"And":[[76,957],null]},{"Or":[958]},{"Call":[79,[[0,959]]]},{"Call":[155,[[6,960]]]},{"And":[[961],null]},{"Or":[962]},{"Token":26},{"Opt":964},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[969,49,92],null]},{"Call":[79,[[0,76]]]},{"And":[[971],null]},{"Or":[970,972]},{"And":[[965,966,967,968,973],null]},{"Or":[974]},{"Token":61},{"And":[[976],null]},{"Token":79},{"Not":978},{"Not":979},{"And":[[980],null]},{"Or":[977,981]},{"And":[[13,982],1]},{"Token":31},{"Opt":76},{"And":[[984,985],null]},{"Or":[986]},{"Token":33},{"And":[[988],null]},{"Token":32},{"And":[[990],null]},{"Or":[989,991]},{"Token":87},{"Opt":993},{"And":[[992,994],null]},{"Or":[995]},{"Token":35},{"Opt":997},{"WithSkip":[94,93]},{"Rep":999},{"Call":[152,[[3,1000]]]},{"And":[[998,1001],null]},{"Or":[1002]},{"Call":[79,[[0,1003]]]},{"And":[[1004],null]},{"Or":[1005]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1011],null]},{"Token":58},{"And":[[1013],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1019,76],1]},{"Or":[1020]},{"Opt":1021},{"Token":58},{"And":[[1017,64,1018,1022,1023],1]},{"Or":[1024]},{"Token":59},{"And":[[1026,49],null]},{"Or":[1027]},{"Token":58},{"And":[[1029],null]},{"Or":[1030]},{"And":[[78],null]},"Eof",{"And":[[1033],null]},{"Token":58},{"And":[[1035],null]},{"Or":[1032,1034,1036]},{"And":[[76,1037],1]},{"Or":[1038]},{"Enter":[2,1039]},{"And":[[1040],null]},{"Or":[1041]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1045,1046]},{"And":[[1044,1047],null]},{"Or":[1048]},{"Opt":1049},{"And":[[1043,101,92,1050],1]},{"Or":[1051]},{"Opt":105},{"Token":25},{"And":[[1053,1054,101,92],2]},{"Or":[1055]},{"Token":9},{"Token":53},{"And":[[1057,64,1058],1]},{"Or":[1059]},{"Opt":1060},{"And":[[1061,102],1]},{"Enter":[0,76]},{"And":[[1063],null]},{"Opt":105},{"Token":24},{"And":[[1065,1066,92],2]},{"Or":[1067]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1069,1070,64,1071,102,92],2]},{"Or":[1072]},{"Token":87},{"Token":59},{"And":[[1074,1075],null]},{"Token":30},{"Rep":107},{"Call":[152,[[3,1078]]]},{"And":[[1077,102,1079],1]},{"Or":[1080]},{"Token":52},{"Enter":[2,76]},{"Token":61},{"And":[[1084],null]},"Eof",{"And":[[1086],null]},{"And":[[78],null]},{"Or":[1085,1087,1088]},{"And":[[108,1082,1083,1089],1]},{"Or":[1090]},{"Token":79},{"And":[[1092,64],null]},{"Or":[1093]},{"Rep":1094},{"Opt":109},{"And":[[64,1095,1096],null]},{"Token":14},{"And":[[1098,76],null]},{"Or":[1099]},{"And":[[148],null]},{"Or":[1101]},{"And":[[149],null]},{"Or":[1103]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1107},{"And":[[1105,1106,1108,114],null]},{"Or":[1109]},{"And":[[76,1110],null]},{"Or":[1111]},{"IsIn":2},{"Not":78},{"And":[[1113,1114],null]},{"IsIn":2},{"Not":1116},{"And":[[1117],null]},{"Or":[1115,1118]},{"And":[[1119,114],null]},{"Or":[1120]},{"And":[[76,1121],null]},{"Or":[1122]},{"Call":[151,[[2,115]]]},{"Call":[153,[[4,1124]]]},{"Call":[79,[[0,1125]]]},{"And":[[1126],null]},{"And":[[76],null]},{"Or":[1128]},{"Token":62},{"Token":92},{"And":[[1131],null]},{"Token":89},{"And":[[1133],null]},{"Or":[1132,1134]},{"And":[[1130,1135],null]},{"Or":[1136]},{"And":[[76,1137],null]},{"Or":[1138]},{"Call":[155,[[6,76]]]},{"And":[[76,1140],null]},{"Or":[1141]},{"Token":83},{"And":[[76,1143],null]},{"Or":[1144]},{"Token":5},{"And":[[1146,50],null]},{"Or":[1147]},{"And":[[76,1148],null]},{"Or":[1149]},{"And":[[121,76],null]},{"Or":[1151]},{"Token":77},{"Token":87},{"Opt":1154},{"Token":27},{"Opt":1156},{"And":[[1153,1155,1157],null]},{"Token":67},{"And":[[1159,76],null]},{"Or":[1160]},{"Token":75},{"And":[[1162,76],null]},{"Or":[1163]},{"Token":82},{"And":[[1165,76],null]},{"Or":[1166]},{"Token":67},{"And":[[1168],null]},{"Token":69},{"And":[[1170],null]},{"Token":71},{"And":[[1172],null]},{"Or":[1169,1171,1173]},{"Call":[128,[[1,1174]]]},{"And":[[76,1175,76],null]},{"Or":[1176]},{"Token":73},{"And":[[1178],null]},{"Token":75},{"And":[[1180],null]},{"Or":[1179,1181]},{"Call":[128,[[1,1182]]]},{"And":[[76,1183,76],null]},{"Or":[1184]},{"ContextualToken":[45,"<<"]},{"And":[[1186],null]},{"ContextualToken":[47,">>"]},{"And":[[1188],null]},{"Or":[1187,1189]},{"Call":[128,[[1,1190]]]},{"And":[[76,1191,76],null]},{"Or":[1192]},{"IsIn":2},{"Not":78},{"Var":1},{"And":[[1194,1195,1196],null]},{"IsIn":2},{"Not":1198},{"Var":1},{"And":[[1199,1200],null]},{"ContextualToken":[49,"&&"]},{"Not":1202},{"Token":77},{"And":[[1203,1204],null]},{"Or":[1205]},{"Call":[128,[[1,1206]]]},{"And":[[76,1207,76],null]},{"Or":[1208]},{"Token":84},{"Call":[128,[[1,1210]]]},{"And":[[76,1211,76],null]},{"Or":[1212]},{"ContextualToken":[50,"||"]},{"Not":1214},{"Token":79},{"And":[[1215,1216],null]},{"Or":[1217]},{"Call":[128,[[1,1218]]]},{"And":[[76,1219,76],null]},{"Or":[1220]},{"Call":[128,[[1,133]]]},{"And":[[76,1222,76],null]},{"Or":[1223]},{"Token":54},{"And":[[1225],null]},{"Token":55},{"And":[[1227],null]},{"ContextualToken":[46,"<<="]},{"And":[[1229],null]},{"ContextualToken":[48,">>="]},{"And":[[1231],null]},{"Or":[1230,1232]},{"Not":1233},{"Token":41},{"And":[[1235],null]},{"Token":42},{"And":[[1237],null]},{"Or":[1236,1238]},{"And":[[1234,1239],null]},{"Token":57},{"And":[[1241],null]},{"Token":56},{"And":[[1243],null]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,1245]]]},{"And":[[76,1246,76],null]},{"Or":[1247]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,1249]]]},{"And":[[76,1250,76],null]},{"Or":[1251]},{"Call":[128,[[1,141]]]},{"And":[[76,1253,76],null]},{"Or":[1254]},{"And":[[141,76],null]},{"Or":[1256]},{"And":[[76,140],null]},{"Or":[1258]},{"Token":63},{"Not":77},{"And":[[1260,1261],null]},{"Or":[1262]},{"Token":63},{"And":[[1264],null]},{"Token":64},{"And":[[1266],null]},{"Not":77},{"Not":1268},{"Token":39},{"IsIn":0},{"And":[[1270,1271],null]},{"Or":[1272]},{"Not":1273},{"And":[[140,1269,1274],null]},{"Token":53},{"And":[[1276],null]},{"Token":74},{"And":[[1278],null]},{"Token":76},{"And":[[1280],null]},{"Token":68},{"And":[[1282],null]},{"Token":70},{"And":[[1284],null]},{"Token":72},{"And":[[1286],null]},{"Token":78},{"And":[[1288],null]},{"Token":80},{"And":[[1290],null]},{"Token":85},{"And":[[1292],null]},{"ContextualToken":[48,">>="]},{"And":[[1294],null]},{"ContextualToken":[46,"<<="]},{"And":[[1296],null]},{"Or":[1277,1279,1281,1283,1285,1287,1289,1291,1293,1295,1297]},{"Call":[128,[[1,1298]]]},{"And":[[76,1299,76],null]},{"Or":[1300]},{"Token":65},{"And":[[1302,145],null]},{"Or":[1303]},{"Token":65},{"Token":82},{"And":[[1305,1306,145],null]},{"Or":[1307]},{"Call":[151,[[2,147]]]},{"Call":[155,[[6,1309]]]},{"And":[[1310],null]},{"Rep":143},{"And":[[1312],null]},{"Token":92},{"Token":53},{"And":[[1315,76],null]},{"Call":[151,[[2,147]]]},{"Call":[153,[[4,1317]]]},{"And":[[1318],null]},{"Or":[1316,1319]},{"Opt":1320},{"And":[[1314,1321],1]},{"Or":[1322]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1326},{"Rep":150},{"Call":[152,[[3,1328]]]},{"And":[[1324,1325,1327,1329],null]},{"Or":[1330]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1334},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1336,1337,1338],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1340,1341,1342],null]},{"Or":[1339,1343]},{"And":[[1332,1333,1335,1344],null]},{"Or":[1345]},{"Token":37},{"And":[[1347],null]},{"Token":38},{"And":[[1349],null]},{"Token":39},{"And":[[1351],null]},{"Token":40},{"And":[[1353],null]},{"Token":43},{"And":[[1355],null]},{"Token":44},{"And":[[1357],null]},{"Or":[1348,1350,1352,1354,1356,1358]},{"Not":1359},"Any",{"And":[[1360,1361],null]},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1363,1364,1365],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1367,1368,1369],null]},{"Token":39},{"Rep":150},{"Token":40},{"And":[[1371,1372,1373],null]},{"Or":[1362,1366,1370,1374]},{"Var":2},"Eof",{"And":[[1377],null]},{"Token":61},{"And":[[1379],null]},{"Or":[1378,1380]},{"And":[[1376,1381],1]},{"Or":[1382]},{"Rep":1383},{"And":[[1384],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[156,[[7,1386],[8,1387],[9,1388]]]},{"And":[[1389],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[156,[[7,1391],[8,1392],[9,1393]]]},{"And":[[1394],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[156,[[7,1396],[8,1397],[9,1398]]]},{"And":[[1399],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[156,[[7,1401],[8,1402],[9,1403]]]},{"And":[[1404],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[157,[[10,1407],[11,1408]]]},{"Var":9},{"Layer":[1409,1410]},{"Var":8},{"And":[[1406,1411,1412],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[157,[[10,1415],[11,1416]]]},{"Var":11},{"And":[[1414,1417,1418],1]},{"Var":11},{"Not":1420},"Any",{"And":[[1421,1422],null]},{"Or":[1423]},{"And":[[1424],null]},{"Or":[1419,1425]},{"Rep":1426},{"And":[[1427],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From b1df39e10866e13d7eb292dfd7c517962775ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:06 +0000
Subject: [PATCH 28/36] fix: a tree without a root or with several is refused

---
 fall/tree/src/node/tree_builder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fall/tree/src/node/tree_builder.rs b/fall/tree/src/node/tree_builder.rs
index 00ab2bd..a95de70 100644
--- a/fall/tree/src/node/tree_builder.rs
+++ b/fall/tree/src/node/tree_builder.rs
@@ -27,6 +27,7 @@ impl TreeBuilder {
             range: TextRange::from_len(self.pos, tu(0)),
         };
         let id = if self.in_progress.is_empty() {
+            assert!(self.nodes.is_empty(), "a tree has one root");
             self.new_node(node)
         } else {
             self.push_child(node)
@@ -51,6 +52,7 @@ impl TreeBuilder {
 
     pub(crate) fn finish(self) -> Vec<NodeData> {
         assert!(self.in_progress.is_empty());
+        assert!(!self.nodes.is_empty(), "a tree has a root");
         self.nodes
     }
 
-- 
2.43.0


From a1798c141c35573632292d029923753e0eb128a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:06 +0000
Subject: [PATCH 29/36] fix: the file index forgets the files of a directory
 that went away

---
 indxr/src/lib.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index 8849261..274bf7d 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -122,25 +122,16 @@ impl<V> FileIndexImpl<V> {
         let added = path.exists();
         match (path.is_dir(), added) {
             (false, true) => {
-                if !(self.file_set.filter)(path) {
-                    return
-                }
-                let value = (self.mapper)(path);
+                let value = if (self.file_set.filter)(path) { (self.mapper)(path) } else { None };
                 let mut data = self.data.lock().unwrap();
-                match value {
-                    None => {
-                        data.remove(path);
-                    },
-                    Some(value) => {
-                        let file = IndexedFile { path: path.to_owned(), value};
-                        data.insert(path.to_owned(), file);
-                    }
-                };
-            }
-            (false, false) => {
-                self.data.lock().unwrap().remove(path);
+                // there may have been a directory
+                data.retain(|k, _| !k.starts_with(path));
+                if let Some(value) = value {
+                    let file = IndexedFile { path: path.to_owned(), value};
+                    data.insert(path.to_owned(), file);
+                }
             }
-            (true, false) => {
+            (_, false) => {
                 self.data.lock().unwrap().retain(|k, _| {
                     !k.starts_with(path)
                 });
@@ -160,7 +151,9 @@ impl<V> FileIndexImpl<V> {
                     }
                 }
 
-                self.data.lock().unwrap().extend(local);
+                let mut data = self.data.lock().unwrap();
+                data.retain(|k, _| !k.starts_with(path));
+                data.extend(local);
             }
         };
     }
-- 
2.43.0


From 22b7c374a1c8eecb9c776734b8e082b676461ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:06 +0000
Subject: [PATCH 30/36] indxr: an index told of changes under cfg(verif_hooks)

---
 indxr/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index 274bf7d..5a3415b 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -54,6 +54,17 @@ impl<V: Send + 'static> FileIndex<V> {
         FileIndex { imp: Arc::new(imp) }
     }
 
+    /// An index that is told of changes instead of watching for them.
+    #[cfg(verif_hooks)]
+    pub fn unwatched(file_set: IndexableFileSet, mapper: Mapper<V>) -> Self {
+        FileIndex { imp: Arc::new(FileIndexImpl { file_set, data: Default::default(), mapper }) }
+    }
+
+    #[cfg(verif_hooks)]
+    pub fn changed(&self, path: &Path) {
+        self.imp.change(path)
+    }
+
     pub fn process_files(&self, sink: &mut dyn FnMut(&IndexedFile<V>) -> bool) {
         let data = self.imp.data.lock().unwrap();
         for file in data.values() {
-- 
2.43.0


From 571ba2a44a2717cb9684d512ff02c490154a6649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:32 +0000
Subject: [PATCH 31/36] fix: a block that begins a statement or an arm ends it,
 and only there

---
 lang/rust/syntax/src/rust.fall | 55 ++++++++++++++++------------------
 lang/rust/syntax/src/rust.rs   |  2 +-
 2 files changed, 26 insertions(+), 31 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index f2b6a95..f8804e5 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -645,14 +645,16 @@ rule expr_first {
 | '&' | '*' | '-' | '!' | '..' | '...'
 }
 
-rule prev_is_block {
-  <prev_is block_expr if_expr while_expr loop_expr for_expr match_expr
-    block_macro_expr
-  >
+// An expression which ends the statement or the match arm it begins,
+// unless a method call, a field or `?` follows.
+rule block_like_expr {
+  { block_expr | if_expr | while_expr | loop_expr | for_expr | match_expr
+  | block_macro_expr }
+  <not {'.' | '?'}>
 }
 
 rule without_restrictions(p) {
-  <exit 'condition' <exit 'stmt' p>>
+  <exit 'condition' p>
 }
 
 #[atom]
@@ -825,9 +827,8 @@ fn main() {
 pub rule empty_stmt { ';' }
 
 pub rule expr_stmt {
-  <enter 'stmt'
-    {expr <commit> {prev_is_block | <eof> | ';'}}
-  >
+  block_like_expr
+| expr <commit> {<eof> | ';'}
 }
 
 #[atom]
@@ -905,8 +906,10 @@ pub rule match_expr {
 
 pub rule match_arm {
   match_arm_pattern <commit>
-  '=>' <enter 'stmt' expr>
-  {',' | <eof> | prev_is_block}
+  '=>' {
+    block_like_expr ','?
+  | expr {',' | <eof>}
+  }
 }
 
 rule match_arm_pattern {
@@ -961,10 +964,7 @@ test r"
 
 #[postfix]
 pub rule call_expr {
-  expr {
-    {<is_in 'stmt'> <not prev_is_block> | <not <is_in 'stmt'>>}
-    call_args
-  }
+  expr call_args
 }
 
 test r"
@@ -1038,42 +1038,37 @@ pub rule not_expr { '!' expr }
 
 #[bin(11)]
 pub rule product_expr {
-  expr <binop {'*' | '/' | '%'}> expr
+  expr {'*' | '/' | '%'} expr
 }
 
 #[bin(10)]
 pub rule sum_expr {
-  expr <binop {'+' | '-'}> expr
+  expr {'+' | '-'} expr
 }
 
 #[bin(9)]
 pub rule bit_shift {
-  expr <binop {'<<' | '>>'}> expr
-}
-
-rule binop(op) {
-  <is_in 'stmt'> <not prev_is_block> op
-| <not <is_in 'stmt'>> op
+  expr {'<<' | '>>'} expr
 }
 
 #[bin(8)]
 pub rule bit_and {
-  expr <binop {<not '&&'> '&'}> expr
+  expr {<not '&&'> '&'} expr
 }
 
 #[bin(7)]
 pub rule bit_xor {
-  expr <binop '^'> expr
+  expr '^' expr
 }
 
 #[bin(6)]
 pub rule bit_or {
-  expr <binop {<not '||'> '|'}> expr
+  expr {<not '||'> '|'} expr
 }
 
 #[bin(5)]
 pub rule comparison {
-  expr <binop cmp_op> expr
+  expr cmp_op expr
 }
 
 rule cmp_op {
@@ -1082,17 +1077,17 @@ rule cmp_op {
 
 #[bin(4)]
 pub rule logical_and {
-  expr <binop '&&'> expr
+  expr '&&' expr
 }
 
 #[bin(3)]
 pub rule logical_or {
-  expr <binop '||'> expr
+  expr '||' expr
 }
 
 #[bin(2)]
 pub rule range_expr {
-  expr <binop infix_range_op> expr
+  expr infix_range_op expr
 }
 
 #[prefix(2), type(range_expr)]
@@ -1133,7 +1128,7 @@ fn main() {
 
 #[bin(1)]
 pub rule assignment_expr {
-  expr <binop {'=' | '+=' | '-=' | '*=' | '/=' | '%=' | '&=' | '|=' | '^=' | '>>=' | '<<=' }> expr
+  expr {'=' | '+=' | '-=' | '*=' | '/=' | '%=' | '&=' | '|=' | '^=' | '>>=' | '<<=' } expr
 }
 
 // END EXPRESSIONS
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index c079568..febb84d 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":159,"replaceable":false}},{"Or":[162]},{"Or":[164,166,168,170,172,174,176,177]},{"Cached":194},{"Pub":{"ty":94,"body":210,"replaceable":false}},{"Pub":{"ty":95,"body":216,"replaceable":false}},{"Pub":{"ty":96,"body":223,"replaceable":false}},{"Pub":{"ty":97,"body":230,"replaceable":false}},{"Pub":{"ty":98,"body":246,"replaceable":false}},{"Or":[248]},{"Pub":{"ty":99,"body":253,"replaceable":false}},{"Or":[259]},{"Pub":{"ty":100,"body":262,"replaceable":false}},{"Pub":{"ty":101,"body":268,"replaceable":false}},{"Pub":{"ty":102,"body":285,"replaceable":false}},{"Pub":{"ty":103,"body":304,"replaceable":false}},{"Pub":{"ty":104,"body":309,"replaceable":false}},{"Pub":{"ty":105,"body":312,"replaceable":false}},{"Pub":{"ty":106,"body":319,"replaceable":false}},{"Pub":{"ty":107,"body":332,"replaceable":false}},{"Pub":{"ty":108,"body":341,"replaceable":false}},{"Pub":{"ty":109,"body":354,"replaceable":false}},{"Pub":{"ty":110,"body":362,"replaceable":false}},{"Pub":{"ty":111,"body":374,"replaceable":false}},{"Or":[375,376,377,378]},{"Or":[380,382,384,386,388,390,392,394,399]},{"Pub":{"ty":112,"body":409,"replaceable":false}},{"Pub":{"ty":113,"body":423,"replaceable":false}},{"Pub":{"ty":114,"body":427,"replaceable":false}},{"Pub":{"ty":115,"body":431,"replaceable":false}},{"Or":[439]},{"Pub":{"ty":116,"body":446,"replaceable":false}},{"Pub":{"ty":117,"body":450,"replaceable":false}},{"Or":[470]},{"Pub":{"ty":118,"body":475,"replaceable":false}},{"Pub":{"ty":119,"body":495,"replaceable":false}},{"Pub":{"ty":120,"body":505,"replaceable":false}},{"Pub":{"ty":121,"body":520,"replaceable":false}},{"Or":[521]},{"Or":[523]},{"Or":[525]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":528,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":532,"replaceable":false}},{"Pub":{"ty":122,"body":537,"replaceable":false}},{"Pub":{"ty":123,"body":544,"replaceable":false}},{"Pub":{"ty":124,"body":558,"replaceable":false}},{"Pub":{"ty":125,"body":584,"replaceable":false}},{"Pub":{"ty":126,"body":589,"replaceable":false}},{"Pub":{"ty":127,"body":593,"replaceable":false}},{"Pub":{"ty":128,"body":599,"replaceable":false}},{"Pub":{"ty":128,"body":601,"replaceable":false}},{"Or":[602,603,604,605,606,607,608,609,610,611]},{"Pub":{"ty":129,"body":613,"replaceable":false}},{"Pub":{"ty":130,"body":615,"replaceable":false}},{"Pub":{"ty":131,"body":623,"replaceable":false}},{"Pub":{"ty":132,"body":626,"replaceable":false}},{"Pub":{"ty":133,"body":630,"replaceable":false}},{"Pub":{"ty":134,"body":636,"replaceable":true}},{"PubReplace":{"ty":135,"body":640}},{"Pub":{"ty":136,"body":643,"replaceable":false}},{"Pub":{"ty":137,"body":652,"replaceable":false}},{"Pub":{"ty":138,"body":659,"replaceable":false}},{"Pub":{"ty":100,"body":665,"replaceable":false}},{"Pub":{"ty":139,"body":668,"replaceable":false}},{"Or":[669,670,671,672,673,674,675]},{"Pub":{"ty":140,"body":678,"replaceable":false}},{"Pub":{"ty":141,"body":684,"replaceable":true}},{"PubReplace":{"ty":142,"body":696}},{"PubReplace":{"ty":143,"body":708}},{"Pub":{"ty":144,"body":715,"replaceable":false}},{"Pub":{"ty":145,"body":722,"replaceable":false}},{"Pub":{"ty":146,"body":724,"replaceable":false}},{"Pub":{"ty":147,"body":728,"replaceable":false}},{"Pub":{"ty":148,"body":734,"replaceable":true}},{"PubReplace":{"ty":149,"body":738}},{"Pub":{"ty":150,"body":743,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,139],"prefixes":[{"ty":184,"op":121,"priority":999},{"ty":185,"op":772,"priority":999},{"ty":186,"op":773,"priority":999},{"ty":187,"op":774,"priority":999},{"ty":197,"op":141,"priority":2}],"infixes":[{"ty":177,"op":749,"priority":999,"has_rhs":false},{"ty":178,"op":758,"priority":999,"has_rhs":false},{"ty":180,"op":766,"priority":999,"has_rhs":false},{"ty":181,"op":767,"priority":999,"has_rhs":false},{"ty":182,"op":768,"priority":999,"has_rhs":false},{"ty":183,"op":771,"priority":12,"has_rhs":false},{"ty":188,"op":782,"priority":11,"has_rhs":true},{"ty":189,"op":788,"priority":10,"has_rhs":true},{"ty":190,"op":794,"priority":9,"has_rhs":true},{"ty":191,"op":800,"priority":8,"has_rhs":true},{"ty":192,"op":802,"priority":7,"has_rhs":true},{"ty":193,"op":808,"priority":6,"has_rhs":true},{"ty":194,"op":809,"priority":5,"has_rhs":true},{"ty":195,"op":811,"priority":4,"has_rhs":true},{"ty":196,"op":813,"priority":3,"has_rhs":true},{"ty":197,"op":814,"priority":2,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":false},{"ty":198,"op":838,"priority":1,"has_rhs":true}]}},{"Or":[839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885,887,889]},{"Or":[891]},{"Or":[895]},{"Pub":{"ty":152,"body":906,"replaceable":false}},{"Pub":{"ty":153,"body":914,"replaceable":true}},{"PubReplace":{"ty":154,"body":927}},{"Pub":{"ty":155,"body":934,"replaceable":false}},{"Pub":{"ty":156,"body":938,"replaceable":false}},{"Pub":{"ty":157,"body":945,"replaceable":true}},{"PubReplace":{"ty":158,"body":950}},{"Pub":{"ty":159,"body":963,"replaceable":false}},{"Pub":{"ty":160,"body":975,"replaceable":false}},{"Or":[983]},{"Pub":{"ty":161,"body":987,"replaceable":false}},{"Pub":{"ty":162,"body":996,"replaceable":false}},{"Pub":{"ty":163,"body":1006,"replaceable":false}},{"Or":[1007,1008,1009,1010]},{"Or":[1012,1014,1015,1016]},{"Pub":{"ty":164,"body":1025,"replaceable":false}},{"Pub":{"ty":165,"body":1028,"replaceable":false}},{"Pub":{"ty":166,"body":1031,"replaceable":false}},{"Pub":{"ty":167,"body":1042,"replaceable":false}},{"Pub":{"ty":168,"body":1052,"replaceable":false}},{"Pub":{"ty":169,"body":1056,"replaceable":false}},{"Or":[1062]},{"Or":[1064]},{"Pub":{"ty":170,"body":1068,"replaceable":false}},{"Pub":{"ty":171,"body":1073,"replaceable":false}},{"Or":[1076]},{"Pub":{"ty":172,"body":1081,"replaceable":false}},{"Pub":{"ty":173,"body":1091,"replaceable":false}},{"Or":[1097]},{"Pub":{"ty":174,"body":1100,"replaceable":false}},{"Pub":{"ty":175,"body":1102,"replaceable":false}},{"Pub":{"ty":176,"body":1104,"replaceable":false}},{"Pub":{"ty":177,"body":1112,"replaceable":false}},{"Pub":{"ty":178,"body":1123,"replaceable":false}},{"Or":[1127]},{"Pub":{"ty":179,"body":1129,"replaceable":false}},{"Pub":{"ty":180,"body":1139,"replaceable":false}},{"Pub":{"ty":181,"body":1142,"replaceable":false}},{"Pub":{"ty":182,"body":1145,"replaceable":false}},{"Pub":{"ty":183,"body":1150,"replaceable":false}},{"Pub":{"ty":184,"body":1152,"replaceable":false}},{"Or":[1158]},{"Pub":{"ty":185,"body":1161,"replaceable":false}},{"Pub":{"ty":186,"body":1164,"replaceable":false}},{"Pub":{"ty":187,"body":1167,"replaceable":false}},{"Pub":{"ty":188,"body":1177,"replaceable":false}},{"Pub":{"ty":189,"body":1185,"replaceable":false}},{"Pub":{"ty":190,"body":1193,"replaceable":false}},{"Or":[1197,1201]},{"Pub":{"ty":191,"body":1209,"replaceable":false}},{"Pub":{"ty":192,"body":1213,"replaceable":false}},{"Pub":{"ty":193,"body":1221,"replaceable":false}},{"Pub":{"ty":194,"body":1224,"replaceable":false}},{"Or":[1226,1228,1240,1242,1244]},{"Pub":{"ty":195,"body":1248,"replaceable":false}},{"Pub":{"ty":196,"body":1252,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Pub":{"ty":197,"body":1257,"replaceable":false}},{"Pub":{"ty":197,"body":1259,"replaceable":false}},{"Pub":{"ty":197,"body":1263,"replaceable":false}},{"Or":[1265,1267]},{"Or":[1275]},{"Pub":{"ty":198,"body":1301,"replaceable":false}},{"Pub":{"ty":199,"body":1304,"replaceable":false}},{"Pub":{"ty":200,"body":1308,"replaceable":false}},{"Or":[1311]},{"Or":[1313]},{"Pub":{"ty":201,"body":1323,"replaceable":false}},{"Pub":{"ty":202,"body":1331,"replaceable":false}},{"Pub":{"ty":203,"body":1346,"replaceable":false}},{"Pub":{"ty":204,"body":1375,"replaceable":false}},{"Or":[1385]},{"Or":[1390]},{"Or":[1395]},{"Or":[1400]},{"Or":[1405]},{"Or":[1413]},{"Or":[1428]},{"And":[[1],null]},{"Or":[158]},{"WithSkip":[2,3]},{"Rep":160},{"And":[[161],null]},{"Token":11},{"And":[[163],null]},{"ContextualToken":[4,"union"]},{"And":[[165],null]},{"Token":16},{"And":[[167],null]},{"Token":12},{"And":[[169],null]},{"Token":13},{"And":[[171],null]},{"Token":17},{"And":[[173],null]},{"Token":29},{"And":[[175],null]},{"And":[[25],null]},{"Opt":36},{"And":[[146,178],null]},{"Or":[179]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[181,182,183,184,185,186,187,188,189]},{"Inject":[180,190]},{"And":[[191],null]},{"And":[[28],null]},{"Or":[192,193]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[197,5],null]},{"Or":[198]},{"Opt":199},{"And":[[200],null]},{"Or":[196,201]},{"And":[[38,202],null]},{"Token":60},{"Opt":204},{"And":[[205,5],null]},{"Or":[203,206]},{"Token":58},{"And":[[195,207,208],1]},{"Or":[209]},{"Token":67},{"And":[[211],null]},{"Call":[151,[[2,6]]]},{"Call":[152,[[3,213]]]},{"And":[[214],null]},{"Or":[212,215]},{"Token":18},{"Opt":48},{"And":[[217,218],null]},{"Token":92},{"Opt":48},{"And":[[220,221],1]},{"Or":[219,222]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[224,225,226,227,228],2]},{"Or":[229]},{"Token":21},{"Opt":231},{"Token":35},{"Opt":233},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[242],null]},{"Or":[241,243]},{"And":[[232,234,235,236,237,238,11,239,240,244],4]},{"Or":[245]},{"Token":51},{"And":[[247,49],null]},{"Token":7},{"Token":90},{"Opt":250},{"And":[[249,251],null]},{"Or":[252]},{"Opt":14},{"Call":[151,[[2,12]]]},{"And":[[254,255],null]},{"Or":[256]},{"Call":[153,[[4,257]]]},{"And":[[258],null]},{"Token":59},{"And":[[64,260,49],1]},{"Or":[261]},{"Token":59},{"And":[[263,49],null]},{"Or":[264]},{"Opt":265},{"And":[[64,266],null]},{"Or":[267]},{"And":[[121],null]},{"Token":27},{"And":[[270],null]},{"Or":[269,271]},{"Opt":272},{"Token":18},{"Token":59},{"And":[[275,49],null]},{"Or":[276]},{"Opt":277},{"Token":61},{"And":[[279],null]},"Eof",{"And":[[281],null]},{"Or":[280,282]},{"And":[[273,274,278,283],2]},{"Or":[284]},{"Token":11},{"And":[[286],null]},{"ContextualToken":[4,"union"]},{"And":[[288],null]},{"Or":[287,289]},{"Token":92},{"Opt":31},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,293]]]},{"And":[[294],null]},{"Token":58},{"And":[[296],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,298]]]},{"Token":58},{"And":[[299,300],null]},{"Or":[295,297,301]},{"And":[[290,291,292,302],1]},{"Or":[303]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[305,306,307,49],2]},{"Or":[308]},{"Opt":36},{"And":[[310,49],null]},{"Or":[311]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[151,[[2,19]]]},{"Call":[152,[[3,316]]]},{"And":[[313,314,315,317],1]},{"Or":[318]},{"Token":92},{"Token":53},{"And":[[321,76],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,323]]]},{"And":[[324],null]},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,326]]]},{"And":[[327],null]},{"Or":[322,325,328]},{"Opt":329},{"And":[[320,330],1]},{"Or":[331]},{"Token":13},{"Token":92},{"Token":58},{"And":[[335],null]},{"Call":[152,[[3,1]]]},{"And":[[337],null]},{"Or":[336,338]},{"And":[[333,334,339],1]},{"Or":[340]},{"Token":35},{"Opt":342},{"Token":17},{"Opt":31},{"Token":23},{"And":[[346,49],null]},{"Or":[347]},{"Opt":348},{"And":[[49,349],null]},{"Or":[350]},{"Opt":37},{"And":[[343,344,345,351,352,23],2]},{"Or":[353]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[146,355,356,357,358,359,360,23],3]},{"Or":[361]},{"Opt":36},{"And":[[146,363],null]},{"Or":[364]},{"Inject":[365,24]},{"And":[[366],null]},{"And":[[28],null]},{"Or":[367,368]},{"WithSkip":[25,369]},{"Rep":370},{"Call":[152,[[3,371]]]},{"And":[[372],null]},{"Or":[373]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[144],null]},{"Token":10},{"And":[[379],null]},{"Token":8},{"And":[[381],null]},{"Token":20},{"And":[[383],null]},{"Token":21},{"And":[[385],null]},{"Token":22},{"And":[[387],null]},{"Token":35},{"And":[[389],null]},{"Token":65},{"And":[[391],null]},{"Token":7},{"And":[[393],null]},{"Token":92},{"Token":82},{"And":[[395,396],null]},{"Or":[397]},{"And":[[398],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[403,49],null]},{"Or":[404]},{"Opt":405},{"Token":58},{"And":[[400,401,402,406,407],1]},{"Or":[408]},{"Token":21},{"And":[[410],null]},{"Token":22},{"And":[[412],null]},{"Or":[411,413]},{"Token":92},{"Token":59},{"Token":53},{"And":[[417,76],null]},{"Or":[418]},{"Opt":419},{"Token":58},{"And":[[414,415,416,49,420,421],1]},{"Or":[422]},{"And":[[148],null]},{"Token":58},{"And":[[149,425],null]},{"Or":[424,426]},{"Rep":30},{"Call":[152,[[3,428]]]},{"And":[[10,429],null]},{"Or":[430]},{"Opt":36},{"And":[[146,432],null]},{"Or":[433]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[435,436]},{"Inject":[434,437]},{"And":[[438],null]},{"Call":[151,[[2,35]]]},{"Call":[151,[[2,32]]]},{"And":[[440,441],null]},{"Or":[442]},{"Call":[154,[[5,443]]]},{"And":[[444],null]},{"Or":[445]},{"Token":92},{"Opt":33},{"And":[[447,448],1]},{"Or":[449]},{"Token":59},{"Token":73},{"And":[[452],null]},"Eof",{"And":[[454],null]},{"Token":61},{"And":[[456],null]},{"Token":39},{"And":[[458],null]},{"Token":36},{"And":[[460],null]},{"Or":[457,459,461]},{"Not":462},{"Not":463},{"And":[[464],null]},{"Or":[453,455,465]},{"And":[[34,466],1]},{"Or":[467]},{"Rep":468},{"And":[[451,469],null]},{"Token":87},{"And":[[471],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[472,473,474]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[479],null]},"Eof",{"And":[[481],null]},{"Token":61},{"Not":483},{"Not":484},{"And":[[485],null]},{"Or":[480,482,486]},{"And":[[478,487],1]},{"Or":[488]},{"Rep":489},{"And":[[477,490],null]},{"Or":[491]},{"Opt":492},{"And":[[476,493],1]},{"Or":[494]},{"Token":10},{"Token":6},{"And":[[497],null]},{"Token":19},{"And":[[499],null]},{"Or":[498,500]},{"Call":[153,[[4,501]]]},{"Opt":502},{"And":[[496,503],null]},{"Or":[504]},{"Token":36},{"Token":61},{"And":[[507],null]},"Eof",{"And":[[509],null]},{"Token":39},{"Not":511},{"Not":512},{"And":[[513],null]},{"Or":[508,510,514]},{"And":[[49,33,515],null]},{"Or":[516]},{"Rep":517},{"And":[[506,518],1]},{"Or":[519]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[522],null]},{"Enter":[1,41]},{"And":[[524],null]},{"Token":60},{"And":[[526,45],null]},{"Or":[527]},{"Token":60},{"Opt":529},{"And":[[530,45],null]},{"Or":[531]},{"Token":60},{"And":[[533,45],null]},{"Or":[534]},{"And":[[41,535],null]},{"Or":[536]},{"Token":5},{"And":[[49,538,49],null]},{"Or":[539]},{"Call":[154,[[5,540]]]},{"Token":60},{"And":[[541,542,45],null]},{"Or":[543]},{"Token":92},{"And":[[545],null]},{"Token":18},{"And":[[547],null]},{"Token":19},{"And":[[549],null]},{"Or":[546,548,550]},{"And":[[46],null]},{"IsIn":3},{"And":[[553,47],null]},{"Or":[552,554]},{"Opt":555},{"And":[[551,556],null]},{"Or":[557]},{"IsIn":3},{"And":[[559],null]},{"IsIn":1},{"Token":60},{"And":[[561,562],null]},{"Or":[560,563]},{"Token":87},{"Call":[151,[[2,565]]]},{"Token":92},{"Token":53},{"And":[[567,568],null]},{"Or":[569]},{"Not":570},{"And":[[571,49],null]},{"Or":[572]},{"Call":[151,[[2,573]]]},{"Token":92},{"Token":53},{"And":[[575,576,49],null]},{"Or":[577]},{"Call":[151,[[2,578]]]},{"And":[[566,574,579],null]},{"Or":[580]},{"Call":[154,[[5,581]]]},{"And":[[564,582],null]},{"Or":[583]},{"Call":[151,[[2,49]]]},{"Call":[153,[[4,585]]]},{"Opt":9},{"And":[[586,587],null]},{"Or":[588]},{"Token":5},{"Token":92},{"And":[[590,591],null]},{"Or":[592]},{"Token":73},{"And":[[594,34],null]},{"Or":[595]},{"Rep":596},{"And":[[51,597],null]},{"Or":[598]},{"And":[[51],null]},{"Or":[600]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[612]},{"And":[[121,49],null]},{"Or":[614]},{"Token":67},{"Token":21},{"And":[[617],null]},{"Token":27},{"And":[[619],null]},{"Or":[618,620]},{"And":[[616,621,49],null]},{"Or":[622]},{"Token":81},{"And":[[624],null]},{"Or":[625]},{"Token":37},{"Token":38},{"And":[[627,628],null]},{"Or":[629]},{"Opt":58},{"And":[[49,631],null]},{"Or":[632]},{"Call":[153,[[4,633]]]},{"And":[[634],null]},{"Or":[635]},{"Token":61},{"Call":[151,[[2,49]]]},{"And":[[637,638],null]},{"Or":[639]},{"Token":82},{"And":[[641],null]},{"Or":[642]},{"Token":58},{"And":[[644,76],null]},{"Or":[645]},{"Opt":646},{"And":[[49,647],null]},{"Or":[648]},{"Call":[155,[[6,649]]]},{"And":[[650],null]},{"Or":[651]},{"Opt":10},{"Token":8},{"Call":[151,[[2,62]]]},{"Call":[153,[[4,655]]]},{"Opt":9},{"And":[[653,654,656,657],2]},{"Or":[658]},{"Token":59},{"And":[[64,660],null]},{"Or":[661]},{"Opt":662},{"And":[[663,49],null]},{"Or":[664]},{"Token":23},{"And":[[666,31,49],1]},{"Or":[667]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[676],null]},{"Or":[677]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[679,680]},{"Opt":681},{"And":[[40,682],null]},{"Or":[683]},{"Call":[151,[[2,64]]]},{"Token":63},{"Token":61},{"Opt":687},{"And":[[686,688],null]},{"Or":[689]},{"Opt":690},{"And":[[685,691],null]},{"Or":[692]},{"Call":[153,[[4,693]]]},{"And":[[694],null]},{"Or":[695]},{"Call":[151,[[2,69]]]},{"Token":63},{"Token":61},{"Opt":699},{"And":[[698,700],null]},{"Or":[701]},{"Opt":702},{"And":[[697,703],null]},{"Or":[704]},{"Call":[152,[[3,705]]]},{"And":[[706],null]},{"Or":[707]},{"Token":59},{"Not":709},{"And":[[70,710],null]},{"Token":92},{"Token":59},{"And":[[712,713,64],2]},{"Or":[711,714]},{"Token":28},{"Opt":716},{"Token":27},{"Opt":718},{"Token":92},{"And":[[717,719,720],null]},{"Or":[721]},{"And":[[80],null]},{"Or":[723]},{"Token":37},{"Token":38},{"And":[[725,726],null]},{"Or":[727]},{"Opt":74},{"And":[[64,729],null]},{"Or":[730]},{"Call":[153,[[4,731]]]},{"And":[[732],null]},{"Or":[733]},{"Token":61},{"Call":[151,[[2,64]]]},{"And":[[735,736],null]},{"Or":[737]},{"Token":77},{"Token":27},{"Opt":740},{"And":[[739,741,64],null]},{"Or":[742]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":746},{"And":[[744,745,747,114],null]},{"Or":[748]},{"IsIn":2},{"Not":78},{"And":[[750,751],null]},{"IsIn":2},{"Not":753},{"And":[[754],null]},{"Or":[752,755]},{"And":[[756,114],null]},{"Or":[757]},{"Token":62},{"Token":92},{"And":[[760],null]},{"Token":89},{"And":[[762],null]},{"Or":[761,763]},{"And":[[759,764],null]},{"Or":[765]},{"Call":[155,[[6,76]]]},{"Token":83},{"Token":5},{"And":[[769,50],null]},{"Or":[770]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[775],null]},{"Token":69},{"And":[[777],null]},{"Token":71},{"And":[[779],null]},{"Or":[776,778,780]},{"Call":[128,[[1,781]]]},{"Token":73},{"And":[[783],null]},{"Token":75},{"And":[[785],null]},{"Or":[784,786]},{"Call":[128,[[1,787]]]},{"ContextualToken":[45,"<<"]},{"And":[[789],null]},{"ContextualToken":[47,">>"]},{"And":[[791],null]},{"Or":[790,792]},{"Call":[128,[[1,793]]]},{"ContextualToken":[49,"&&"]},{"Not":795},{"Token":77},{"And":[[796,797],null]},{"Or":[798]},{"Call":[128,[[1,799]]]},{"Token":84},{"Call":[128,[[1,801]]]},{"ContextualToken":[50,"||"]},{"Not":803},{"Token":79},{"And":[[804,805],null]},{"Or":[806]},{"Call":[128,[[1,807]]]},{"Call":[128,[[1,133]]]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,810]]]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,812]]]},{"Call":[128,[[1,141]]]},{"Token":53},{"And":[[815],null]},{"Token":74},{"And":[[817],null]},{"Token":76},{"And":[[819],null]},{"Token":68},{"And":[[821],null]},{"Token":70},{"And":[[823],null]},{"Token":72},{"And":[[825],null]},{"Token":78},{"And":[[827],null]},{"Token":80},{"And":[[829],null]},{"Token":85},{"And":[[831],null]},{"ContextualToken":[48,">>="]},{"And":[[833],null]},{"ContextualToken":[46,"<<="]},{"And":[[835],null]},{"Or":[816,818,820,822,824,826,828,830,832,834,836]},{"Call":[128,[[1,837]]]},{"And":[[80],null]},{"Token":92},{"And":[[840],null]},{"Token":87},{"And":[[842],null]},{"Token":18},{"And":[[844],null]},{"Token":19},{"And":[[846],null]},{"Token":41},{"And":[[848],null]},{"Token":60},{"And":[[850],null]},{"Token":37},{"And":[[852],null]},{"Token":43},{"And":[[854],null]},{"Token":79},{"And":[[856],null]},{"Token":31},{"And":[[858],null]},{"Token":39},{"And":[[860],null]},{"Token":14},{"And":[[862],null]},{"Token":25},{"And":[[864],null]},{"Token":24},{"And":[[866],null]},{"Token":23},{"And":[[868],null]},{"Token":30},{"And":[[870],null]},{"Token":26},{"And":[[872],null]},{"Token":32},{"And":[[874],null]},{"Token":33},{"And":[[876],null]},{"Token":77},{"And":[[878],null]},{"Token":67},{"And":[[880],null]},{"Token":75},{"And":[[882],null]},{"Token":82},{"And":[[884],null]},{"Token":63},{"And":[[886],null]},{"Token":64},{"And":[[888],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[890],null]},{"Var":0},{"Exit":[2,892]},{"Exit":[0,893]},{"And":[[894],null]},{"Token":89},{"And":[[896],null]},{"Token":90},{"And":[[898],null]},{"Token":91},{"And":[[900],null]},{"Token":86},{"And":[[902],null]},{"Token":88},{"And":[[904],null]},{"Or":[897,899,901,903,905]},{"Token":92},{"Token":82},{"And":[[907,908],null]},{"Or":[909]},{"Not":910},{"Opt":82},{"And":[[911,40,912],null]},{"Or":[913]},{"IsIn":0},{"Not":915},{"Call":[151,[[2,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[918,919],null]},{"Or":[920]},{"Opt":921},{"And":[[917,922],null]},{"Or":[923]},{"Call":[152,[[3,924]]]},{"And":[[916,925],null]},{"Or":[926]},{"Token":92},{"Token":59},{"And":[[929,76],null]},{"Or":[930]},{"Opt":931},{"And":[[928,932],1]},{"Or":[933]},{"Token":37},{"Token":38},{"And":[[935,936],null]},{"Or":[937]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[939,940],null]},{"Or":[941]},{"Call":[153,[[4,942]]]},{"And":[[943],null]},{"Or":[944]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[151,[[2,947]]]},{"And":[[946,948],null]},{"Or":[949]},{"Token":58},{"And":[[951,76],null]},{"Token":61},{"Call":[151,[[2,76]]]},{"And":[[953,954],null]},{"Or":[952,955]},{"Opt":956},{"And":[[76,957],null]},{"Or":[958]},{"Call":[79,[[0,959]]]},{"Call":[155,[[6,960]]]},{"And":[[961],null]},{"Or":[962]},{"Token":26},{"Opt":964},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[969,49,92],null]},{"Call":[79,[[0,76]]]},{"And":[[971],null]},{"Or":[970,972]},{"And":[[965,966,967,968,973],null]},{"Or":[974]},{"Token":61},{"And":[[976],null]},{"Token":79},{"Not":978},{"Not":979},{"And":[[980],null]},{"Or":[977,981]},{"And":[[13,982],1]},{"Token":31},{"Opt":76},{"And":[[984,985],null]},{"Or":[986]},{"Token":33},{"And":[[988],null]},{"Token":32},{"And":[[990],null]},{"Or":[989,991]},{"Token":87},{"Opt":993},{"And":[[992,994],null]},{"Or":[995]},{"Token":35},{"Opt":997},{"WithSkip":[94,93]},{"Rep":999},{"Call":[152,[[3,1000]]]},{"And":[[998,1001],null]},{"Or":[1002]},{"Call":[79,[[0,1003]]]},{"And":[[1004],null]},{"Or":[1005]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1011],null]},{"Token":58},{"And":[[1013],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1019,76],1]},{"Or":[1020]},{"Opt":1021},{"Token":58},{"And":[[1017,64,1018,1022,1023],1]},{"Or":[1024]},{"Token":59},{"And":[[1026,49],null]},{"Or":[1027]},{"Token":58},{"And":[[1029],null]},{"Or":[1030]},{"And":[[78],null]},"Eof",{"And":[[1033],null]},{"Token":58},{"And":[[1035],null]},{"Or":[1032,1034,1036]},{"And":[[76,1037],1]},{"Or":[1038]},{"Enter":[2,1039]},{"And":[[1040],null]},{"Or":[1041]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1045,1046]},{"And":[[1044,1047],null]},{"Or":[1048]},{"Opt":1049},{"And":[[1043,101,92,1050],1]},{"Or":[1051]},{"Opt":105},{"Token":25},{"And":[[1053,1054,101,92],2]},{"Or":[1055]},{"Token":9},{"Token":53},{"And":[[1057,64,1058],1]},{"Or":[1059]},{"Opt":1060},{"And":[[1061,102],1]},{"Enter":[0,76]},{"And":[[1063],null]},{"Opt":105},{"Token":24},{"And":[[1065,1066,92],2]},{"Or":[1067]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1069,1070,64,1071,102,92],2]},{"Or":[1072]},{"Token":87},{"Token":59},{"And":[[1074,1075],null]},{"Token":30},{"Rep":107},{"Call":[152,[[3,1078]]]},{"And":[[1077,102,1079],1]},{"Or":[1080]},{"Token":52},{"Enter":[2,76]},{"Token":61},{"And":[[1084],null]},"Eof",{"And":[[1086],null]},{"And":[[78],null]},{"Or":[1085,1087,1088]},{"And":[[108,1082,1083,1089],1]},{"Or":[1090]},{"Token":79},{"And":[[1092,64],null]},{"Or":[1093]},{"Rep":1094},{"Opt":109},{"And":[[64,1095,1096],null]},{"Token":14},{"And":[[1098,76],null]},{"Or":[1099]},{"And":[[148],null]},{"Or":[1101]},{"And":[[149],null]},{"Or":[1103]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1107},{"And":[[1105,1106,1108,114],null]},{"Or":[1109]},{"And":[[76,1110],null]},{"Or":[1111]},{"IsIn":2},{"Not":78},{"And":[[1113,1114],null]},{"IsIn":2},{"Not":1116},{"And":[[1117],null]},{"Or":[1115,1118]},{"And":[[1119,114],null]},{"Or":[1120]},{"And":[[76,1121],null]},{"Or":[1122]},{"Call":[151,[[2,115]]]},{"Call":[153,[[4,1124]]]},{"Call":[79,[[0,1125]]]},{"And":[[1126],null]},{"And":[[76],null]},{"Or":[1128]},{"Token":62},{"Token":92},{"And":[[1131],null]},{"Token":89},{"And":[[1133],null]},{"Or":[1132,1134]},{"And":[[1130,1135],null]},{"Or":[1136]},{"And":[[76,1137],null]},{"Or":[1138]},{"Call":[155,[[6,76]]]},{"And":[[76,1140],null]},{"Or":[1141]},{"Token":83},{"And":[[76,1143],null]},{"Or":[1144]},{"Token":5},{"And":[[1146,50],null]},{"Or":[1147]},{"And":[[76,1148],null]},{"Or":[1149]},{"And":[[121,76],null]},{"Or":[1151]},{"Token":77},{"Token":87},{"Opt":1154},{"Token":27},{"Opt":1156},{"And":[[1153,1155,1157],null]},{"Token":67},{"And":[[1159,76],null]},{"Or":[1160]},{"Token":75},{"And":[[1162,76],null]},{"Or":[1163]},{"Token":82},{"And":[[1165,76],null]},{"Or":[1166]},{"Token":67},{"And":[[1168],null]},{"Token":69},{"And":[[1170],null]},{"Token":71},{"And":[[1172],null]},{"Or":[1169,1171,1173]},{"Call":[128,[[1,1174]]]},{"And":[[76,1175,76],null]},{"Or":[1176]},{"Token":73},{"And":[[1178],null]},{"Token":75},{"And":[[1180],null]},{"Or":[1179,1181]},{"Call":[128,[[1,1182]]]},{"And":[[76,1183,76],null]},{"Or":[1184]},{"ContextualToken":[45,"<<"]},{"And":[[1186],null]},{"ContextualToken":[47,">>"]},{"And":[[1188],null]},{"Or":[1187,1189]},{"Call":[128,[[1,1190]]]},{"And":[[76,1191,76],null]},{"Or":[1192]},{"IsIn":2},{"Not":78},{"Var":1},{"And":[[1194,1195,1196],null]},{"IsIn":2},{"Not":1198},{"Var":1},{"And":[[1199,1200],null]},{"ContextualToken":[49,"&&"]},{"Not":1202},{"Token":77},{"And":[[1203,1204],null]},{"Or":[1205]},{"Call":[128,[[1,1206]]]},{"And":[[76,1207,76],null]},{"Or":[1208]},{"Token":84},{"Call":[128,[[1,1210]]]},{"And":[[76,1211,76],null]},{"Or":[1212]},{"ContextualToken":[50,"||"]},{"Not":1214},{"Token":79},{"And":[[1215,1216],null]},{"Or":[1217]},{"Call":[128,[[1,1218]]]},{"And":[[76,1219,76],null]},{"Or":[1220]},{"Call":[128,[[1,133]]]},{"And":[[76,1222,76],null]},{"Or":[1223]},{"Token":54},{"And":[[1225],null]},{"Token":55},{"And":[[1227],null]},{"ContextualToken":[46,"<<="]},{"And":[[1229],null]},{"ContextualToken":[48,">>="]},{"And":[[1231],null]},{"Or":[1230,1232]},{"Not":1233},{"Token":41},{"And":[[1235],null]},{"Token":42},{"And":[[1237],null]},{"Or":[1236,1238]},{"And":[[1234,1239],null]},{"Token":57},{"And":[[1241],null]},{"Token":56},{"And":[[1243],null]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,1245]]]},{"And":[[76,1246,76],null]},{"Or":[1247]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,1249]]]},{"And":[[76,1250,76],null]},{"Or":[1251]},{"Call":[128,[[1,141]]]},{"And":[[76,1253,76],null]},{"Or":[1254]},{"And":[[141,76],null]},{"Or":[1256]},{"And":[[76,140],null]},{"Or":[1258]},{"Token":63},{"Not":77},{"And":[[1260,1261],null]},{"Or":[1262]},{"Token":63},{"And":[[1264],null]},{"Token":64},{"And":[[1266],null]},{"Not":77},{"Not":1268},{"Token":39},{"IsIn":0},{"And":[[1270,1271],null]},{"Or":[1272]},{"Not":1273},{"And":[[140,1269,1274],null]},{"Token":53},{"And":[[1276],null]},{"Token":74},{"And":[[1278],null]},{"Token":76},{"And":[[1280],null]},{"Token":68},{"And":[[1282],null]},{"Token":70},{"And":[[1284],null]},{"Token":72},{"And":[[1286],null]},{"Token":78},{"And":[[1288],null]},{"Token":80},{"And":[[1290],null]},{"Token":85},{"And":[[1292],null]},{"ContextualToken":[48,">>="]},{"And":[[1294],null]},{"ContextualToken":[46,"<<="]},{"And":[[1296],null]},{"Or":[1277,1279,1281,1283,1285,1287,1289,1291,1293,1295,1297]},{"Call":[128,[[1,1298]]]},{"And":[[76,1299,76],null]},{"Or":[1300]},{"Token":65},{"And":[[1302,145],null]},{"Or":[1303]},{"Token":65},{"Token":82},{"And":[[1305,1306,145],null]},{"Or":[1307]},{"Call":[151,[[2,147]]]},{"Call":[155,[[6,1309]]]},{"And":[[1310],null]},{"Rep":143},{"And":[[1312],null]},{"Token":92},{"Token":53},{"And":[[1315,76],null]},{"Call":[151,[[2,147]]]},{"Call":[153,[[4,1317]]]},{"And":[[1318],null]},{"Or":[1316,1319]},{"Opt":1320},{"And":[[1314,1321],1]},{"Or":[1322]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1326},{"Rep":150},{"Call":[152,[[3,1328]]]},{"And":[[1324,1325,1327,1329],null]},{"Or":[1330]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1334},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1336,1337,1338],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1340,1341,1342],null]},{"Or":[1339,1343]},{"And":[[1332,1333,1335,1344],null]},{"Or":[1345]},{"Token":37},{"And":[[1347],null]},{"Token":38},{"And":[[1349],null]},{"Token":39},{"And":[[1351],null]},{"Token":40},{"And":[[1353],null]},{"Token":43},{"And":[[1355],null]},{"Token":44},{"And":[[1357],null]},{"Or":[1348,1350,1352,1354,1356,1358]},{"Not":1359},"Any",{"And":[[1360,1361],null]},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1363,1364,1365],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1367,1368,1369],null]},{"Token":39},{"Rep":150},{"Token":40},{"And":[[1371,1372,1373],null]},{"Or":[1362,1366,1370,1374]},{"Var":2},"Eof",{"And":[[1377],null]},{"Token":61},{"And":[[1379],null]},{"Or":[1378,1380]},{"And":[[1376,1381],1]},{"Or":[1382]},{"Rep":1383},{"And":[[1384],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[156,[[7,1386],[8,1387],[9,1388]]]},{"And":[[1389],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[156,[[7,1391],[8,1392],[9,1393]]]},{"And":[[1394],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[156,[[7,1396],[8,1397],[9,1398]]]},{"And":[[1399],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[156,[[7,1401],[8,1402],[9,1403]]]},{"And":[[1404],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[157,[[10,1407],[11,1408]]]},{"Var":9},{"Layer":[1409,1410]},{"Var":8},{"And":[[1406,1411,1412],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[157,[[10,1415],[11,1416]]]},{"Var":11},{"And":[[1414,1417,1418],1]},{"Var":11},{"Not":1420},"Any",{"And":[[1421,1422],null]},{"Or":[1423]},{"And":[[1424],null]},{"Or":[1419,1425]},{"Rep":1426},{"And":[[1427],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":222,"replaceable":false}},{"Pub":{"ty":97,"body":229,"replaceable":false}},{"Pub":{"ty":98,"body":245,"replaceable":false}},{"Or":[247]},{"Pub":{"ty":99,"body":252,"replaceable":false}},{"Or":[258]},{"Pub":{"ty":100,"body":261,"replaceable":false}},{"Pub":{"ty":101,"body":267,"replaceable":false}},{"Pub":{"ty":102,"body":284,"replaceable":false}},{"Pub":{"ty":103,"body":303,"replaceable":false}},{"Pub":{"ty":104,"body":308,"replaceable":false}},{"Pub":{"ty":105,"body":311,"replaceable":false}},{"Pub":{"ty":106,"body":318,"replaceable":false}},{"Pub":{"ty":107,"body":331,"replaceable":false}},{"Pub":{"ty":108,"body":340,"replaceable":false}},{"Pub":{"ty":109,"body":353,"replaceable":false}},{"Pub":{"ty":110,"body":361,"replaceable":false}},{"Pub":{"ty":111,"body":373,"replaceable":false}},{"Or":[374,375,376,377]},{"Or":[379,381,383,385,387,389,391,393,398]},{"Pub":{"ty":112,"body":408,"replaceable":false}},{"Pub":{"ty":113,"body":422,"replaceable":false}},{"Pub":{"ty":114,"body":426,"replaceable":false}},{"Pub":{"ty":115,"body":430,"replaceable":false}},{"Or":[438]},{"Pub":{"ty":116,"body":445,"replaceable":false}},{"Pub":{"ty":117,"body":449,"replaceable":false}},{"Or":[469]},{"Pub":{"ty":118,"body":474,"replaceable":false}},{"Pub":{"ty":119,"body":494,"replaceable":false}},{"Pub":{"ty":120,"body":504,"replaceable":false}},{"Pub":{"ty":121,"body":519,"replaceable":false}},{"Or":[520]},{"Or":[522]},{"Or":[524]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":527,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":531,"replaceable":false}},{"Pub":{"ty":122,"body":536,"replaceable":false}},{"Pub":{"ty":123,"body":543,"replaceable":false}},{"Pub":{"ty":124,"body":557,"replaceable":false}},{"Pub":{"ty":125,"body":583,"replaceable":false}},{"Pub":{"ty":126,"body":588,"replaceable":false}},{"Pub":{"ty":127,"body":592,"replaceable":false}},{"Pub":{"ty":128,"body":598,"replaceable":false}},{"Pub":{"ty":128,"body":600,"replaceable":false}},{"Or":[601,602,603,604,605,606,607,608,609,610]},{"Pub":{"ty":129,"body":612,"replaceable":false}},{"Pub":{"ty":130,"body":614,"replaceable":false}},{"Pub":{"ty":131,"body":622,"replaceable":false}},{"Pub":{"ty":132,"body":625,"replaceable":false}},{"Pub":{"ty":133,"body":629,"replaceable":false}},{"Pub":{"ty":134,"body":635,"replaceable":true}},{"PubReplace":{"ty":135,"body":639}},{"Pub":{"ty":136,"body":642,"replaceable":false}},{"Pub":{"ty":137,"body":651,"replaceable":false}},{"Pub":{"ty":138,"body":658,"replaceable":false}},{"Pub":{"ty":100,"body":664,"replaceable":false}},{"Pub":{"ty":139,"body":667,"replaceable":false}},{"Or":[668,669,670,671,672,673,674]},{"Pub":{"ty":140,"body":677,"replaceable":false}},{"Pub":{"ty":141,"body":683,"replaceable":true}},{"PubReplace":{"ty":142,"body":695}},{"PubReplace":{"ty":143,"body":707}},{"Pub":{"ty":144,"body":714,"replaceable":false}},{"Pub":{"ty":145,"body":721,"replaceable":false}},{"Pub":{"ty":146,"body":723,"replaceable":false}},{"Pub":{"ty":147,"body":727,"replaceable":false}},{"Pub":{"ty":148,"body":733,"replaceable":true}},{"PubReplace":{"ty":149,"body":737}},{"Pub":{"ty":150,"body":742,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,138],"prefixes":[{"ty":184,"op":121,"priority":999},{"ty":185,"op":762,"priority":999},{"ty":186,"op":763,"priority":999},{"ty":187,"op":764,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":748,"priority":999,"has_rhs":false},{"ty":178,"op":114,"priority":999,"has_rhs":false},{"ty":180,"op":756,"priority":999,"has_rhs":false},{"ty":181,"op":757,"priority":999,"has_rhs":false},{"ty":182,"op":758,"priority":999,"has_rhs":false},{"ty":183,"op":761,"priority":12,"has_rhs":false},{"ty":188,"op":771,"priority":11,"has_rhs":true},{"ty":189,"op":776,"priority":10,"has_rhs":true},{"ty":190,"op":781,"priority":9,"has_rhs":true},{"ty":191,"op":786,"priority":8,"has_rhs":true},{"ty":192,"op":787,"priority":7,"has_rhs":true},{"ty":193,"op":792,"priority":6,"has_rhs":true},{"ty":194,"op":132,"priority":5,"has_rhs":true},{"ty":195,"op":793,"priority":4,"has_rhs":true},{"ty":196,"op":794,"priority":3,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":817,"priority":1,"has_rhs":true}]}},{"Or":[818,820,822,824,826,828,830,832,834,836,838,840,842,844,846,848,850,852,854,856,858,860,862,864,866,868]},{"Or":[883]},{"Or":[886]},{"Pub":{"ty":152,"body":897,"replaceable":false}},{"Pub":{"ty":153,"body":905,"replaceable":true}},{"PubReplace":{"ty":154,"body":918}},{"Pub":{"ty":155,"body":925,"replaceable":false}},{"Pub":{"ty":156,"body":929,"replaceable":false}},{"Pub":{"ty":157,"body":936,"replaceable":true}},{"PubReplace":{"ty":158,"body":941}},{"Pub":{"ty":159,"body":954,"replaceable":false}},{"Pub":{"ty":160,"body":966,"replaceable":false}},{"Or":[974]},{"Pub":{"ty":161,"body":978,"replaceable":false}},{"Pub":{"ty":162,"body":987,"replaceable":false}},{"Pub":{"ty":163,"body":997,"replaceable":false}},{"Or":[998,999,1000,1001]},{"Or":[1003,1005,1006,1007]},{"Pub":{"ty":164,"body":1016,"replaceable":false}},{"Pub":{"ty":165,"body":1019,"replaceable":false}},{"Pub":{"ty":166,"body":1022,"replaceable":false}},{"Pub":{"ty":167,"body":1030,"replaceable":false}},{"Pub":{"ty":168,"body":1040,"replaceable":false}},{"Pub":{"ty":169,"body":1044,"replaceable":false}},{"Or":[1050]},{"Or":[1052]},{"Pub":{"ty":170,"body":1056,"replaceable":false}},{"Pub":{"ty":171,"body":1061,"replaceable":false}},{"Or":[1064]},{"Pub":{"ty":172,"body":1069,"replaceable":false}},{"Pub":{"ty":173,"body":1082,"replaceable":false}},{"Or":[1088]},{"Pub":{"ty":174,"body":1091,"replaceable":false}},{"Pub":{"ty":175,"body":1093,"replaceable":false}},{"Pub":{"ty":176,"body":1095,"replaceable":false}},{"Pub":{"ty":177,"body":1103,"replaceable":false}},{"Pub":{"ty":178,"body":1105,"replaceable":false}},{"Or":[1109]},{"Pub":{"ty":179,"body":1111,"replaceable":false}},{"Pub":{"ty":180,"body":1121,"replaceable":false}},{"Pub":{"ty":181,"body":1124,"replaceable":false}},{"Pub":{"ty":182,"body":1127,"replaceable":false}},{"Pub":{"ty":183,"body":1132,"replaceable":false}},{"Pub":{"ty":184,"body":1134,"replaceable":false}},{"Or":[1140]},{"Pub":{"ty":185,"body":1143,"replaceable":false}},{"Pub":{"ty":186,"body":1146,"replaceable":false}},{"Pub":{"ty":187,"body":1149,"replaceable":false}},{"Pub":{"ty":188,"body":1158,"replaceable":false}},{"Pub":{"ty":189,"body":1165,"replaceable":false}},{"Pub":{"ty":190,"body":1172,"replaceable":false}},{"Pub":{"ty":191,"body":1179,"replaceable":false}},{"Pub":{"ty":192,"body":1182,"replaceable":false}},{"Pub":{"ty":193,"body":1189,"replaceable":false}},{"Pub":{"ty":194,"body":1191,"replaceable":false}},{"Or":[1193,1195,1207,1209,1211]},{"Pub":{"ty":195,"body":1214,"replaceable":false}},{"Pub":{"ty":196,"body":1217,"replaceable":false}},{"Pub":{"ty":197,"body":1219,"replaceable":false}},{"Pub":{"ty":197,"body":1221,"replaceable":false}},{"Pub":{"ty":197,"body":1223,"replaceable":false}},{"Pub":{"ty":197,"body":1227,"replaceable":false}},{"Or":[1229,1231]},{"Or":[1239]},{"Pub":{"ty":198,"body":1264,"replaceable":false}},{"Pub":{"ty":199,"body":1267,"replaceable":false}},{"Pub":{"ty":200,"body":1271,"replaceable":false}},{"Or":[1274]},{"Or":[1276]},{"Pub":{"ty":201,"body":1286,"replaceable":false}},{"Pub":{"ty":202,"body":1294,"replaceable":false}},{"Pub":{"ty":203,"body":1309,"replaceable":false}},{"Pub":{"ty":204,"body":1338,"replaceable":false}},{"Or":[1348]},{"Or":[1353]},{"Or":[1358]},{"Or":[1363]},{"Or":[1368]},{"Or":[1376]},{"Or":[1391]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[1,6]]]},{"Call":[151,[[2,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"Opt":48},{"And":[[216,217],null]},{"Token":92},{"Opt":48},{"And":[[219,220],1]},{"Or":[218,221]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[223,224,225,226,227],2]},{"Or":[228]},{"Token":21},{"Opt":230},{"Token":35},{"Opt":232},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[241],null]},{"Or":[240,242]},{"And":[[231,233,234,235,236,237,11,238,239,243],4]},{"Or":[244]},{"Token":51},{"And":[[246,49],null]},{"Token":7},{"Token":90},{"Opt":249},{"And":[[248,250],null]},{"Or":[251]},{"Opt":14},{"Call":[150,[[1,12]]]},{"And":[[253,254],null]},{"Or":[255]},{"Call":[152,[[3,256]]]},{"And":[[257],null]},{"Token":59},{"And":[[64,259,49],1]},{"Or":[260]},{"Token":59},{"And":[[262,49],null]},{"Or":[263]},{"Opt":264},{"And":[[64,265],null]},{"Or":[266]},{"And":[[121],null]},{"Token":27},{"And":[[269],null]},{"Or":[268,270]},{"Opt":271},{"Token":18},{"Token":59},{"And":[[274,49],null]},{"Or":[275]},{"Opt":276},{"Token":61},{"And":[[278],null]},"Eof",{"And":[[280],null]},{"Or":[279,281]},{"And":[[272,273,277,282],2]},{"Or":[283]},{"Token":11},{"And":[[285],null]},{"ContextualToken":[4,"union"]},{"And":[[287],null]},{"Or":[286,288]},{"Token":92},{"Opt":31},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,292]]]},{"And":[[293],null]},{"Token":58},{"And":[[295],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,297]]]},{"Token":58},{"And":[[298,299],null]},{"Or":[294,296,300]},{"And":[[289,290,291,301],1]},{"Or":[302]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[304,305,306,49],2]},{"Or":[307]},{"Opt":36},{"And":[[309,49],null]},{"Or":[310]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[1,19]]]},{"Call":[151,[[2,315]]]},{"And":[[312,313,314,316],1]},{"Or":[317]},{"Token":92},{"Token":53},{"And":[[320,76],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,322]]]},{"And":[[323],null]},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,325]]]},{"And":[[326],null]},{"Or":[321,324,327]},{"Opt":328},{"And":[[319,329],1]},{"Or":[330]},{"Token":13},{"Token":92},{"Token":58},{"And":[[334],null]},{"Call":[151,[[2,1]]]},{"And":[[336],null]},{"Or":[335,337]},{"And":[[332,333,338],1]},{"Or":[339]},{"Token":35},{"Opt":341},{"Token":17},{"Opt":31},{"Token":23},{"And":[[345,49],null]},{"Or":[346]},{"Opt":347},{"And":[[49,348],null]},{"Or":[349]},{"Opt":37},{"And":[[342,343,344,350,351,23],2]},{"Or":[352]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,354,355,356,357,358,359,23],3]},{"Or":[360]},{"Opt":36},{"And":[[145,362],null]},{"Or":[363]},{"Inject":[364,24]},{"And":[[365],null]},{"And":[[28],null]},{"Or":[366,367]},{"WithSkip":[25,368]},{"Rep":369},{"Call":[151,[[2,370]]]},{"And":[[371],null]},{"Or":[372]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[378],null]},{"Token":8},{"And":[[380],null]},{"Token":20},{"And":[[382],null]},{"Token":21},{"And":[[384],null]},{"Token":22},{"And":[[386],null]},{"Token":35},{"And":[[388],null]},{"Token":65},{"And":[[390],null]},{"Token":7},{"And":[[392],null]},{"Token":92},{"Token":82},{"And":[[394,395],null]},{"Or":[396]},{"And":[[397],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[402,49],null]},{"Or":[403]},{"Opt":404},{"Token":58},{"And":[[399,400,401,405,406],1]},{"Or":[407]},{"Token":21},{"And":[[409],null]},{"Token":22},{"And":[[411],null]},{"Or":[410,412]},{"Token":92},{"Token":59},{"Token":53},{"And":[[416,76],null]},{"Or":[417]},{"Opt":418},{"Token":58},{"And":[[413,414,415,49,419,420],1]},{"Or":[421]},{"And":[[147],null]},{"Token":58},{"And":[[148,424],null]},{"Or":[423,425]},{"Rep":30},{"Call":[151,[[2,427]]]},{"And":[[10,428],null]},{"Or":[429]},{"Opt":36},{"And":[[145,431],null]},{"Or":[432]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[434,435]},{"Inject":[433,436]},{"And":[[437],null]},{"Call":[150,[[1,35]]]},{"Call":[150,[[1,32]]]},{"And":[[439,440],null]},{"Or":[441]},{"Call":[153,[[4,442]]]},{"And":[[443],null]},{"Or":[444]},{"Token":92},{"Opt":33},{"And":[[446,447],1]},{"Or":[448]},{"Token":59},{"Token":73},{"And":[[451],null]},"Eof",{"And":[[453],null]},{"Token":61},{"And":[[455],null]},{"Token":39},{"And":[[457],null]},{"Token":36},{"And":[[459],null]},{"Or":[456,458,460]},{"Not":461},{"Not":462},{"And":[[463],null]},{"Or":[452,454,464]},{"And":[[34,465],1]},{"Or":[466]},{"Rep":467},{"And":[[450,468],null]},{"Token":87},{"And":[[470],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[471,472,473]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[478],null]},"Eof",{"And":[[480],null]},{"Token":61},{"Not":482},{"Not":483},{"And":[[484],null]},{"Or":[479,481,485]},{"And":[[477,486],1]},{"Or":[487]},{"Rep":488},{"And":[[476,489],null]},{"Or":[490]},{"Opt":491},{"And":[[475,492],1]},{"Or":[493]},{"Token":10},{"Token":6},{"And":[[496],null]},{"Token":19},{"And":[[498],null]},{"Or":[497,499]},{"Call":[152,[[3,500]]]},{"Opt":501},{"And":[[495,502],null]},{"Or":[503]},{"Token":36},{"Token":61},{"And":[[506],null]},"Eof",{"And":[[508],null]},{"Token":39},{"Not":510},{"Not":511},{"And":[[512],null]},{"Or":[507,509,513]},{"And":[[49,33,514],null]},{"Or":[515]},{"Rep":516},{"And":[[505,517],1]},{"Or":[518]},{"And":[[41],null]},{"Enter":[2,41]},{"And":[[521],null]},{"Enter":[1,41]},{"And":[[523],null]},{"Token":60},{"And":[[525,45],null]},{"Or":[526]},{"Token":60},{"Opt":528},{"And":[[529,45],null]},{"Or":[530]},{"Token":60},{"And":[[532,45],null]},{"Or":[533]},{"And":[[41,534],null]},{"Or":[535]},{"Token":5},{"And":[[49,537,49],null]},{"Or":[538]},{"Call":[153,[[4,539]]]},{"Token":60},{"And":[[540,541,45],null]},{"Or":[542]},{"Token":92},{"And":[[544],null]},{"Token":18},{"And":[[546],null]},{"Token":19},{"And":[[548],null]},{"Or":[545,547,549]},{"And":[[46],null]},{"IsIn":2},{"And":[[552,47],null]},{"Or":[551,553]},{"Opt":554},{"And":[[550,555],null]},{"Or":[556]},{"IsIn":2},{"And":[[558],null]},{"IsIn":1},{"Token":60},{"And":[[560,561],null]},{"Or":[559,562]},{"Token":87},{"Call":[150,[[1,564]]]},{"Token":92},{"Token":53},{"And":[[566,567],null]},{"Or":[568]},{"Not":569},{"And":[[570,49],null]},{"Or":[571]},{"Call":[150,[[1,572]]]},{"Token":92},{"Token":53},{"And":[[574,575,49],null]},{"Or":[576]},{"Call":[150,[[1,577]]]},{"And":[[565,573,578],null]},{"Or":[579]},{"Call":[153,[[4,580]]]},{"And":[[563,581],null]},{"Or":[582]},{"Call":[150,[[1,49]]]},{"Call":[152,[[3,584]]]},{"Opt":9},{"And":[[585,586],null]},{"Or":[587]},{"Token":5},{"Token":92},{"And":[[589,590],null]},{"Or":[591]},{"Token":73},{"And":[[593,34],null]},{"Or":[594]},{"Rep":595},{"And":[[51,596],null]},{"Or":[597]},{"And":[[51],null]},{"Or":[599]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[611]},{"And":[[121,49],null]},{"Or":[613]},{"Token":67},{"Token":21},{"And":[[616],null]},{"Token":27},{"And":[[618],null]},{"Or":[617,619]},{"And":[[615,620,49],null]},{"Or":[621]},{"Token":81},{"And":[[623],null]},{"Or":[624]},{"Token":37},{"Token":38},{"And":[[626,627],null]},{"Or":[628]},{"Opt":58},{"And":[[49,630],null]},{"Or":[631]},{"Call":[152,[[3,632]]]},{"And":[[633],null]},{"Or":[634]},{"Token":61},{"Call":[150,[[1,49]]]},{"And":[[636,637],null]},{"Or":[638]},{"Token":82},{"And":[[640],null]},{"Or":[641]},{"Token":58},{"And":[[643,76],null]},{"Or":[644]},{"Opt":645},{"And":[[49,646],null]},{"Or":[647]},{"Call":[154,[[5,648]]]},{"And":[[649],null]},{"Or":[650]},{"Opt":10},{"Token":8},{"Call":[150,[[1,62]]]},{"Call":[152,[[3,654]]]},{"Opt":9},{"And":[[652,653,655,656],2]},{"Or":[657]},{"Token":59},{"And":[[64,659],null]},{"Or":[660]},{"Opt":661},{"And":[[662,49],null]},{"Or":[663]},{"Token":23},{"And":[[665,31,49],1]},{"Or":[666]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[675],null]},{"Or":[676]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[678,679]},{"Opt":680},{"And":[[40,681],null]},{"Or":[682]},{"Call":[150,[[1,64]]]},{"Token":63},{"Token":61},{"Opt":686},{"And":[[685,687],null]},{"Or":[688]},{"Opt":689},{"And":[[684,690],null]},{"Or":[691]},{"Call":[152,[[3,692]]]},{"And":[[693],null]},{"Or":[694]},{"Call":[150,[[1,69]]]},{"Token":63},{"Token":61},{"Opt":698},{"And":[[697,699],null]},{"Or":[700]},{"Opt":701},{"And":[[696,702],null]},{"Or":[703]},{"Call":[151,[[2,704]]]},{"And":[[705],null]},{"Or":[706]},{"Token":59},{"Not":708},{"And":[[70,709],null]},{"Token":92},{"Token":59},{"And":[[711,712,64],2]},{"Or":[710,713]},{"Token":28},{"Opt":715},{"Token":27},{"Opt":717},{"Token":92},{"And":[[716,718,719],null]},{"Or":[720]},{"And":[[80],null]},{"Or":[722]},{"Token":37},{"Token":38},{"And":[[724,725],null]},{"Or":[726]},{"Opt":74},{"And":[[64,728],null]},{"Or":[729]},{"Call":[152,[[3,730]]]},{"And":[[731],null]},{"Or":[732]},{"Token":61},{"Call":[150,[[1,64]]]},{"And":[[734,735],null]},{"Or":[736]},{"Token":77},{"Token":27},{"Opt":739},{"And":[[738,740,64],null]},{"Or":[741]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":745},{"And":[[743,744,746,114],null]},{"Or":[747]},{"Token":62},{"Token":92},{"And":[[750],null]},{"Token":89},{"And":[[752],null]},{"Or":[751,753]},{"And":[[749,754],null]},{"Or":[755]},{"Call":[154,[[5,76]]]},{"Token":83},{"Token":5},{"And":[[759,50],null]},{"Or":[760]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[765],null]},{"Token":69},{"And":[[767],null]},{"Token":71},{"And":[[769],null]},{"Or":[766,768,770]},{"Token":73},{"And":[[772],null]},{"Token":75},{"And":[[774],null]},{"Or":[773,775]},{"ContextualToken":[45,"<<"]},{"And":[[777],null]},{"ContextualToken":[47,">>"]},{"And":[[779],null]},{"Or":[778,780]},{"ContextualToken":[49,"&&"]},{"Not":782},{"Token":77},{"And":[[783,784],null]},{"Or":[785]},{"Token":84},{"ContextualToken":[50,"||"]},{"Not":788},{"Token":79},{"And":[[789,790],null]},{"Or":[791]},{"ContextualToken":[49,"&&"]},{"ContextualToken":[50,"||"]},{"Token":53},{"And":[[795],null]},{"Token":74},{"And":[[797],null]},{"Token":76},{"And":[[799],null]},{"Token":68},{"And":[[801],null]},{"Token":70},{"And":[[803],null]},{"Token":72},{"And":[[805],null]},{"Token":78},{"And":[[807],null]},{"Token":80},{"And":[[809],null]},{"Token":85},{"And":[[811],null]},{"ContextualToken":[48,">>="]},{"And":[[813],null]},{"ContextualToken":[46,"<<="]},{"And":[[815],null]},{"Or":[796,798,800,802,804,806,808,810,812,814,816]},{"And":[[80],null]},{"Token":92},{"And":[[819],null]},{"Token":87},{"And":[[821],null]},{"Token":18},{"And":[[823],null]},{"Token":19},{"And":[[825],null]},{"Token":41},{"And":[[827],null]},{"Token":60},{"And":[[829],null]},{"Token":37},{"And":[[831],null]},{"Token":43},{"And":[[833],null]},{"Token":79},{"And":[[835],null]},{"Token":31},{"And":[[837],null]},{"Token":39},{"And":[[839],null]},{"Token":14},{"And":[[841],null]},{"Token":25},{"And":[[843],null]},{"Token":24},{"And":[[845],null]},{"Token":23},{"And":[[847],null]},{"Token":30},{"And":[[849],null]},{"Token":26},{"And":[[851],null]},{"Token":32},{"And":[[853],null]},{"Token":33},{"And":[[855],null]},{"Token":77},{"And":[[857],null]},{"Token":67},{"And":[[859],null]},{"Token":75},{"And":[[861],null]},{"Token":82},{"And":[[863],null]},{"Token":63},{"And":[[865],null]},{"Token":64},{"And":[[867],null]},{"And":[[92],null]},{"And":[[99],null]},{"And":[[100],null]},{"And":[[103],null]},{"And":[[104],null]},{"And":[[106],null]},{"And":[[110],null]},{"Or":[869,870,871,872,873,874,875]},{"Token":62},{"And":[[877],null]},{"Token":83},{"And":[[879],null]},{"Or":[878,880]},{"Not":881},{"And":[[876,882],null]},{"Var":0},{"Exit":[0,884]},{"And":[[885],null]},{"Token":89},{"And":[[887],null]},{"Token":90},{"And":[[889],null]},{"Token":91},{"And":[[891],null]},{"Token":86},{"And":[[893],null]},{"Token":88},{"And":[[895],null]},{"Or":[888,890,892,894,896]},{"Token":92},{"Token":82},{"And":[[898,899],null]},{"Or":[900]},{"Not":901},{"Opt":82},{"And":[[902,40,903],null]},{"Or":[904]},{"IsIn":0},{"Not":906},{"Call":[150,[[1,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[909,910],null]},{"Or":[911]},{"Opt":912},{"And":[[908,913],null]},{"Or":[914]},{"Call":[151,[[2,915]]]},{"And":[[907,916],null]},{"Or":[917]},{"Token":92},{"Token":59},{"And":[[920,76],null]},{"Or":[921]},{"Opt":922},{"And":[[919,923],1]},{"Or":[924]},{"Token":37},{"Token":38},{"And":[[926,927],null]},{"Or":[928]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[930,931],null]},{"Or":[932]},{"Call":[152,[[3,933]]]},{"And":[[934],null]},{"Or":[935]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[150,[[1,938]]]},{"And":[[937,939],null]},{"Or":[940]},{"Token":58},{"And":[[942,76],null]},{"Token":61},{"Call":[150,[[1,76]]]},{"And":[[944,945],null]},{"Or":[943,946]},{"Opt":947},{"And":[[76,948],null]},{"Or":[949]},{"Call":[79,[[0,950]]]},{"Call":[154,[[5,951]]]},{"And":[[952],null]},{"Or":[953]},{"Token":26},{"Opt":955},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[960,49,92],null]},{"Call":[79,[[0,76]]]},{"And":[[962],null]},{"Or":[961,963]},{"And":[[956,957,958,959,964],null]},{"Or":[965]},{"Token":61},{"And":[[967],null]},{"Token":79},{"Not":969},{"Not":970},{"And":[[971],null]},{"Or":[968,972]},{"And":[[13,973],1]},{"Token":31},{"Opt":76},{"And":[[975,976],null]},{"Or":[977]},{"Token":33},{"And":[[979],null]},{"Token":32},{"And":[[981],null]},{"Or":[980,982]},{"Token":87},{"Opt":984},{"And":[[983,985],null]},{"Or":[986]},{"Token":35},{"Opt":988},{"WithSkip":[94,93]},{"Rep":990},{"Call":[151,[[2,991]]]},{"And":[[989,992],null]},{"Or":[993]},{"Call":[79,[[0,994]]]},{"And":[[995],null]},{"Or":[996]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1002],null]},{"Token":58},{"And":[[1004],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1010,76],1]},{"Or":[1011]},{"Opt":1012},{"Token":58},{"And":[[1008,64,1009,1013,1014],1]},{"Or":[1015]},{"Token":59},{"And":[[1017,49],null]},{"Or":[1018]},{"Token":58},{"And":[[1020],null]},{"Or":[1021]},{"And":[[78],null]},"Eof",{"And":[[1024],null]},{"Token":58},{"And":[[1026],null]},{"Or":[1025,1027]},{"And":[[76,1028],1]},{"Or":[1023,1029]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1033,1034]},{"And":[[1032,1035],null]},{"Or":[1036]},{"Opt":1037},{"And":[[1031,101,92,1038],1]},{"Or":[1039]},{"Opt":105},{"Token":25},{"And":[[1041,1042,101,92],2]},{"Or":[1043]},{"Token":9},{"Token":53},{"And":[[1045,64,1046],1]},{"Or":[1047]},{"Opt":1048},{"And":[[1049,102],1]},{"Enter":[0,76]},{"And":[[1051],null]},{"Opt":105},{"Token":24},{"And":[[1053,1054,92],2]},{"Or":[1055]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1057,1058,64,1059,102,92],2]},{"Or":[1060]},{"Token":87},{"Token":59},{"And":[[1062,1063],null]},{"Token":30},{"Rep":107},{"Call":[151,[[2,1066]]]},{"And":[[1065,102,1067],1]},{"Or":[1068]},{"Token":52},{"Token":61},{"Opt":1071},{"And":[[78,1072],null]},{"Token":61},{"And":[[1074],null]},"Eof",{"And":[[1076],null]},{"Or":[1075,1077]},{"And":[[76,1078],null]},{"Or":[1073,1079]},{"And":[[108,1070,1080],1]},{"Or":[1081]},{"Token":79},{"And":[[1083,64],null]},{"Or":[1084]},{"Rep":1085},{"Opt":109},{"And":[[64,1086,1087],null]},{"Token":14},{"And":[[1089,76],null]},{"Or":[1090]},{"And":[[147],null]},{"Or":[1092]},{"And":[[148],null]},{"Or":[1094]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1098},{"And":[[1096,1097,1099,114],null]},{"Or":[1100]},{"And":[[76,1101],null]},{"Or":[1102]},{"And":[[76,114],null]},{"Or":[1104]},{"Call":[150,[[1,115]]]},{"Call":[152,[[3,1106]]]},{"Call":[79,[[0,1107]]]},{"And":[[1108],null]},{"And":[[76],null]},{"Or":[1110]},{"Token":62},{"Token":92},{"And":[[1113],null]},{"Token":89},{"And":[[1115],null]},{"Or":[1114,1116]},{"And":[[1112,1117],null]},{"Or":[1118]},{"And":[[76,1119],null]},{"Or":[1120]},{"Call":[154,[[5,76]]]},{"And":[[76,1122],null]},{"Or":[1123]},{"Token":83},{"And":[[76,1125],null]},{"Or":[1126]},{"Token":5},{"And":[[1128,50],null]},{"Or":[1129]},{"And":[[76,1130],null]},{"Or":[1131]},{"And":[[121,76],null]},{"Or":[1133]},{"Token":77},{"Token":87},{"Opt":1136},{"Token":27},{"Opt":1138},{"And":[[1135,1137,1139],null]},{"Token":67},{"And":[[1141,76],null]},{"Or":[1142]},{"Token":75},{"And":[[1144,76],null]},{"Or":[1145]},{"Token":82},{"And":[[1147,76],null]},{"Or":[1148]},{"Token":67},{"And":[[1150],null]},{"Token":69},{"And":[[1152],null]},{"Token":71},{"And":[[1154],null]},{"Or":[1151,1153,1155]},{"And":[[76,1156,76],null]},{"Or":[1157]},{"Token":73},{"And":[[1159],null]},{"Token":75},{"And":[[1161],null]},{"Or":[1160,1162]},{"And":[[76,1163,76],null]},{"Or":[1164]},{"ContextualToken":[45,"<<"]},{"And":[[1166],null]},{"ContextualToken":[47,">>"]},{"And":[[1168],null]},{"Or":[1167,1169]},{"And":[[76,1170,76],null]},{"Or":[1171]},{"ContextualToken":[49,"&&"]},{"Not":1173},{"Token":77},{"And":[[1174,1175],null]},{"Or":[1176]},{"And":[[76,1177,76],null]},{"Or":[1178]},{"Token":84},{"And":[[76,1180,76],null]},{"Or":[1181]},{"ContextualToken":[50,"||"]},{"Not":1183},{"Token":79},{"And":[[1184,1185],null]},{"Or":[1186]},{"And":[[76,1187,76],null]},{"Or":[1188]},{"And":[[76,132,76],null]},{"Or":[1190]},{"Token":54},{"And":[[1192],null]},{"Token":55},{"And":[[1194],null]},{"ContextualToken":[46,"<<="]},{"And":[[1196],null]},{"ContextualToken":[48,">>="]},{"And":[[1198],null]},{"Or":[1197,1199]},{"Not":1200},{"Token":41},{"And":[[1202],null]},{"Token":42},{"And":[[1204],null]},{"Or":[1203,1205]},{"And":[[1201,1206],null]},{"Token":57},{"And":[[1208],null]},{"Token":56},{"And":[[1210],null]},{"ContextualToken":[49,"&&"]},{"And":[[76,1212,76],null]},{"Or":[1213]},{"ContextualToken":[50,"||"]},{"And":[[76,1215,76],null]},{"Or":[1216]},{"And":[[76,140,76],null]},{"Or":[1218]},{"And":[[140,76],null]},{"Or":[1220]},{"And":[[76,139],null]},{"Or":[1222]},{"Token":63},{"Not":77},{"And":[[1224,1225],null]},{"Or":[1226]},{"Token":63},{"And":[[1228],null]},{"Token":64},{"And":[[1230],null]},{"Not":77},{"Not":1232},{"Token":39},{"IsIn":0},{"And":[[1234,1235],null]},{"Or":[1236]},{"Not":1237},{"And":[[139,1233,1238],null]},{"Token":53},{"And":[[1240],null]},{"Token":74},{"And":[[1242],null]},{"Token":76},{"And":[[1244],null]},{"Token":68},{"And":[[1246],null]},{"Token":70},{"And":[[1248],null]},{"Token":72},{"And":[[1250],null]},{"Token":78},{"And":[[1252],null]},{"Token":80},{"And":[[1254],null]},{"Token":85},{"And":[[1256],null]},{"ContextualToken":[48,">>="]},{"And":[[1258],null]},{"ContextualToken":[46,"<<="]},{"And":[[1260],null]},{"Or":[1241,1243,1245,1247,1249,1251,1253,1255,1257,1259,1261]},{"And":[[76,1262,76],null]},{"Or":[1263]},{"Token":65},{"And":[[1265,144],null]},{"Or":[1266]},{"Token":65},{"Token":82},{"And":[[1268,1269,144],null]},{"Or":[1270]},{"Call":[150,[[1,146]]]},{"Call":[154,[[5,1272]]]},{"And":[[1273],null]},{"Rep":142},{"And":[[1275],null]},{"Token":92},{"Token":53},{"And":[[1278,76],null]},{"Call":[150,[[1,146]]]},{"Call":[152,[[3,1280]]]},{"And":[[1281],null]},{"Or":[1279,1282]},{"Opt":1283},{"And":[[1277,1284],1]},{"Or":[1285]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1289},{"Rep":149},{"Call":[151,[[2,1291]]]},{"And":[[1287,1288,1290,1292],null]},{"Or":[1293]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1297},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1299,1300,1301],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1303,1304,1305],null]},{"Or":[1302,1306]},{"And":[[1295,1296,1298,1307],null]},{"Or":[1308]},{"Token":37},{"And":[[1310],null]},{"Token":38},{"And":[[1312],null]},{"Token":39},{"And":[[1314],null]},{"Token":40},{"And":[[1316],null]},{"Token":43},{"And":[[1318],null]},{"Token":44},{"And":[[1320],null]},{"Or":[1311,1313,1315,1317,1319,1321]},{"Not":1322},"Any",{"And":[[1323,1324],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1326,1327,1328],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1330,1331,1332],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1334,1335,1336],null]},{"Or":[1325,1329,1333,1337]},{"Var":1},"Eof",{"And":[[1340],null]},{"Token":61},{"And":[[1342],null]},{"Or":[1341,1343]},{"And":[[1339,1344],1]},{"Or":[1345]},{"Rep":1346},{"And":[[1347],null]},{"Token":39},{"Token":40},{"Var":2},{"Call":[155,[[6,1349],[7,1350],[8,1351]]]},{"And":[[1352],null]},{"Token":37},{"Token":38},{"Var":3},{"Call":[155,[[6,1354],[7,1355],[8,1356]]]},{"And":[[1357],null]},{"Token":41},{"Token":42},{"Var":4},{"Call":[155,[[6,1359],[7,1360],[8,1361]]]},{"And":[[1362],null]},{"Token":43},{"Token":44},{"Var":5},{"Call":[155,[[6,1364],[7,1365],[8,1366]]]},{"And":[[1367],null]},{"Var":6},{"Var":6},{"Var":7},{"Call":[156,[[9,1370],[10,1371]]]},{"Var":8},{"Layer":[1372,1373]},{"Var":7},{"And":[[1369,1374,1375],1]},{"Var":9},{"Var":9},{"Var":10},{"Call":[156,[[9,1378],[10,1379]]]},{"Var":10},{"And":[[1377,1380,1381],1]},{"Var":10},{"Not":1383},"Any",{"And":[[1384,1385],null]},{"Or":[1386]},{"And":[[1387],null]},{"Or":[1382,1388]},{"Rep":1389},{"And":[[1390],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 5d6cd591485fbe422210143c63ab6f0a28e79a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:39 +0000
Subject: [PATCH 32/36] fix: contexts of conditions and type paths end at
 brackets

---
 lang/rust/syntax/src/rust.fall | 10 +++++-----
 lang/rust/syntax/src/rust.rs   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index f8804e5..14366c3 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -491,7 +491,7 @@ fn main() -> ! { }
 
 pub rule array_type {
   <in_bracks {
-    type_reference {';' expr}?
+    type_reference {';' <exit 'type_path' <without_restrictions expr>>}?
   }>
 }
 test r"
@@ -739,7 +739,7 @@ fn main() {
 pub rule lambda_expr {
   'move'? '|' lambda_arg* '|' {
     '->' type_reference block_expr
-  | <without_restrictions expr>
+  | expr
   }
 }
 
@@ -901,7 +901,7 @@ fn main() { for x in xs {} }
 
 #[atom]
 pub rule match_expr {
-  'match' <commit> no_struct_literal_expr <block match_arm*>
+  'match' <commit> no_struct_literal_expr <block <without_restrictions match_arm*>>
 }
 
 pub rule match_arm {
@@ -999,7 +999,7 @@ fn main() { x.foo; x.92; }
 
 #[postfix]
 pub rule index_expr {
-  expr <in_bracks expr>
+  expr <in_bracks <without_restrictions expr>>
 }
 test r"
 fn main() { xs[92]; }
@@ -1102,7 +1102,7 @@ pub rule postfix_range_expr {
 
 #[atom, type(range_expr)]
 pub rule full_range_expr {
-  '..' <not expr_first>
+  '..' <not {<not {'{' <is_in 'condition'>}> expr_first}>
 }
 
 rule range_op {
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index febb84d..af64598 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":222,"replaceable":false}},{"Pub":{"ty":97,"body":229,"replaceable":false}},{"Pub":{"ty":98,"body":245,"replaceable":false}},{"Or":[247]},{"Pub":{"ty":99,"body":252,"replaceable":false}},{"Or":[258]},{"Pub":{"ty":100,"body":261,"replaceable":false}},{"Pub":{"ty":101,"body":267,"replaceable":false}},{"Pub":{"ty":102,"body":284,"replaceable":false}},{"Pub":{"ty":103,"body":303,"replaceable":false}},{"Pub":{"ty":104,"body":308,"replaceable":false}},{"Pub":{"ty":105,"body":311,"replaceable":false}},{"Pub":{"ty":106,"body":318,"replaceable":false}},{"Pub":{"ty":107,"body":331,"replaceable":false}},{"Pub":{"ty":108,"body":340,"replaceable":false}},{"Pub":{"ty":109,"body":353,"replaceable":false}},{"Pub":{"ty":110,"body":361,"replaceable":false}},{"Pub":{"ty":111,"body":373,"replaceable":false}},{"Or":[374,375,376,377]},{"Or":[379,381,383,385,387,389,391,393,398]},{"Pub":{"ty":112,"body":408,"replaceable":false}},{"Pub":{"ty":113,"body":422,"replaceable":false}},{"Pub":{"ty":114,"body":426,"replaceable":false}},{"Pub":{"ty":115,"body":430,"replaceable":false}},{"Or":[438]},{"Pub":{"ty":116,"body":445,"replaceable":false}},{"Pub":{"ty":117,"body":449,"replaceable":false}},{"Or":[469]},{"Pub":{"ty":118,"body":474,"replaceable":false}},{"Pub":{"ty":119,"body":494,"replaceable":false}},{"Pub":{"ty":120,"body":504,"replaceable":false}},{"Pub":{"ty":121,"body":519,"replaceable":false}},{"Or":[520]},{"Or":[522]},{"Or":[524]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":527,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":531,"replaceable":false}},{"Pub":{"ty":122,"body":536,"replaceable":false}},{"Pub":{"ty":123,"body":543,"replaceable":false}},{"Pub":{"ty":124,"body":557,"replaceable":false}},{"Pub":{"ty":125,"body":583,"replaceable":false}},{"Pub":{"ty":126,"body":588,"replaceable":false}},{"Pub":{"ty":127,"body":592,"replaceable":false}},{"Pub":{"ty":128,"body":598,"replaceable":false}},{"Pub":{"ty":128,"body":600,"replaceable":false}},{"Or":[601,602,603,604,605,606,607,608,609,610]},{"Pub":{"ty":129,"body":612,"replaceable":false}},{"Pub":{"ty":130,"body":614,"replaceable":false}},{"Pub":{"ty":131,"body":622,"replaceable":false}},{"Pub":{"ty":132,"body":625,"replaceable":false}},{"Pub":{"ty":133,"body":629,"replaceable":false}},{"Pub":{"ty":134,"body":635,"replaceable":true}},{"PubReplace":{"ty":135,"body":639}},{"Pub":{"ty":136,"body":642,"replaceable":false}},{"Pub":{"ty":137,"body":651,"replaceable":false}},{"Pub":{"ty":138,"body":658,"replaceable":false}},{"Pub":{"ty":100,"body":664,"replaceable":false}},{"Pub":{"ty":139,"body":667,"replaceable":false}},{"Or":[668,669,670,671,672,673,674]},{"Pub":{"ty":140,"body":677,"replaceable":false}},{"Pub":{"ty":141,"body":683,"replaceable":true}},{"PubReplace":{"ty":142,"body":695}},{"PubReplace":{"ty":143,"body":707}},{"Pub":{"ty":144,"body":714,"replaceable":false}},{"Pub":{"ty":145,"body":721,"replaceable":false}},{"Pub":{"ty":146,"body":723,"replaceable":false}},{"Pub":{"ty":147,"body":727,"replaceable":false}},{"Pub":{"ty":148,"body":733,"replaceable":true}},{"PubReplace":{"ty":149,"body":737}},{"Pub":{"ty":150,"body":742,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,138],"prefixes":[{"ty":184,"op":121,"priority":999},{"ty":185,"op":762,"priority":999},{"ty":186,"op":763,"priority":999},{"ty":187,"op":764,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":748,"priority":999,"has_rhs":false},{"ty":178,"op":114,"priority":999,"has_rhs":false},{"ty":180,"op":756,"priority":999,"has_rhs":false},{"ty":181,"op":757,"priority":999,"has_rhs":false},{"ty":182,"op":758,"priority":999,"has_rhs":false},{"ty":183,"op":761,"priority":12,"has_rhs":false},{"ty":188,"op":771,"priority":11,"has_rhs":true},{"ty":189,"op":776,"priority":10,"has_rhs":true},{"ty":190,"op":781,"priority":9,"has_rhs":true},{"ty":191,"op":786,"priority":8,"has_rhs":true},{"ty":192,"op":787,"priority":7,"has_rhs":true},{"ty":193,"op":792,"priority":6,"has_rhs":true},{"ty":194,"op":132,"priority":5,"has_rhs":true},{"ty":195,"op":793,"priority":4,"has_rhs":true},{"ty":196,"op":794,"priority":3,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":817,"priority":1,"has_rhs":true}]}},{"Or":[818,820,822,824,826,828,830,832,834,836,838,840,842,844,846,848,850,852,854,856,858,860,862,864,866,868]},{"Or":[883]},{"Or":[886]},{"Pub":{"ty":152,"body":897,"replaceable":false}},{"Pub":{"ty":153,"body":905,"replaceable":true}},{"PubReplace":{"ty":154,"body":918}},{"Pub":{"ty":155,"body":925,"replaceable":false}},{"Pub":{"ty":156,"body":929,"replaceable":false}},{"Pub":{"ty":157,"body":936,"replaceable":true}},{"PubReplace":{"ty":158,"body":941}},{"Pub":{"ty":159,"body":954,"replaceable":false}},{"Pub":{"ty":160,"body":966,"replaceable":false}},{"Or":[974]},{"Pub":{"ty":161,"body":978,"replaceable":false}},{"Pub":{"ty":162,"body":987,"replaceable":false}},{"Pub":{"ty":163,"body":997,"replaceable":false}},{"Or":[998,999,1000,1001]},{"Or":[1003,1005,1006,1007]},{"Pub":{"ty":164,"body":1016,"replaceable":false}},{"Pub":{"ty":165,"body":1019,"replaceable":false}},{"Pub":{"ty":166,"body":1022,"replaceable":false}},{"Pub":{"ty":167,"body":1030,"replaceable":false}},{"Pub":{"ty":168,"body":1040,"replaceable":false}},{"Pub":{"ty":169,"body":1044,"replaceable":false}},{"Or":[1050]},{"Or":[1052]},{"Pub":{"ty":170,"body":1056,"replaceable":false}},{"Pub":{"ty":171,"body":1061,"replaceable":false}},{"Or":[1064]},{"Pub":{"ty":172,"body":1069,"replaceable":false}},{"Pub":{"ty":173,"body":1082,"replaceable":false}},{"Or":[1088]},{"Pub":{"ty":174,"body":1091,"replaceable":false}},{"Pub":{"ty":175,"body":1093,"replaceable":false}},{"Pub":{"ty":176,"body":1095,"replaceable":false}},{"Pub":{"ty":177,"body":1103,"replaceable":false}},{"Pub":{"ty":178,"body":1105,"replaceable":false}},{"Or":[1109]},{"Pub":{"ty":179,"body":1111,"replaceable":false}},{"Pub":{"ty":180,"body":1121,"replaceable":false}},{"Pub":{"ty":181,"body":1124,"replaceable":false}},{"Pub":{"ty":182,"body":1127,"replaceable":false}},{"Pub":{"ty":183,"body":1132,"replaceable":false}},{"Pub":{"ty":184,"body":1134,"replaceable":false}},{"Or":[1140]},{"Pub":{"ty":185,"body":1143,"replaceable":false}},{"Pub":{"ty":186,"body":1146,"replaceable":false}},{"Pub":{"ty":187,"body":1149,"replaceable":false}},{"Pub":{"ty":188,"body":1158,"replaceable":false}},{"Pub":{"ty":189,"body":1165,"replaceable":false}},{"Pub":{"ty":190,"body":1172,"replaceable":false}},{"Pub":{"ty":191,"body":1179,"replaceable":false}},{"Pub":{"ty":192,"body":1182,"replaceable":false}},{"Pub":{"ty":193,"body":1189,"replaceable":false}},{"Pub":{"ty":194,"body":1191,"replaceable":false}},{"Or":[1193,1195,1207,1209,1211]},{"Pub":{"ty":195,"body":1214,"replaceable":false}},{"Pub":{"ty":196,"body":1217,"replaceable":false}},{"Pub":{"ty":197,"body":1219,"replaceable":false}},{"Pub":{"ty":197,"body":1221,"replaceable":false}},{"Pub":{"ty":197,"body":1223,"replaceable":false}},{"Pub":{"ty":197,"body":1227,"replaceable":false}},{"Or":[1229,1231]},{"Or":[1239]},{"Pub":{"ty":198,"body":1264,"replaceable":false}},{"Pub":{"ty":199,"body":1267,"replaceable":false}},{"Pub":{"ty":200,"body":1271,"replaceable":false}},{"Or":[1274]},{"Or":[1276]},{"Pub":{"ty":201,"body":1286,"replaceable":false}},{"Pub":{"ty":202,"body":1294,"replaceable":false}},{"Pub":{"ty":203,"body":1309,"replaceable":false}},{"Pub":{"ty":204,"body":1338,"replaceable":false}},{"Or":[1348]},{"Or":[1353]},{"Or":[1358]},{"Or":[1363]},{"Or":[1368]},{"Or":[1376]},{"Or":[1391]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[1,6]]]},{"Call":[151,[[2,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"Opt":48},{"And":[[216,217],null]},{"Token":92},{"Opt":48},{"And":[[219,220],1]},{"Or":[218,221]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[223,224,225,226,227],2]},{"Or":[228]},{"Token":21},{"Opt":230},{"Token":35},{"Opt":232},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[241],null]},{"Or":[240,242]},{"And":[[231,233,234,235,236,237,11,238,239,243],4]},{"Or":[244]},{"Token":51},{"And":[[246,49],null]},{"Token":7},{"Token":90},{"Opt":249},{"And":[[248,250],null]},{"Or":[251]},{"Opt":14},{"Call":[150,[[1,12]]]},{"And":[[253,254],null]},{"Or":[255]},{"Call":[152,[[3,256]]]},{"And":[[257],null]},{"Token":59},{"And":[[64,259,49],1]},{"Or":[260]},{"Token":59},{"And":[[262,49],null]},{"Or":[263]},{"Opt":264},{"And":[[64,265],null]},{"Or":[266]},{"And":[[121],null]},{"Token":27},{"And":[[269],null]},{"Or":[268,270]},{"Opt":271},{"Token":18},{"Token":59},{"And":[[274,49],null]},{"Or":[275]},{"Opt":276},{"Token":61},{"And":[[278],null]},"Eof",{"And":[[280],null]},{"Or":[279,281]},{"And":[[272,273,277,282],2]},{"Or":[283]},{"Token":11},{"And":[[285],null]},{"ContextualToken":[4,"union"]},{"And":[[287],null]},{"Or":[286,288]},{"Token":92},{"Opt":31},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,292]]]},{"And":[[293],null]},{"Token":58},{"And":[[295],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,297]]]},{"Token":58},{"And":[[298,299],null]},{"Or":[294,296,300]},{"And":[[289,290,291,301],1]},{"Or":[302]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[304,305,306,49],2]},{"Or":[307]},{"Opt":36},{"And":[[309,49],null]},{"Or":[310]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[1,19]]]},{"Call":[151,[[2,315]]]},{"And":[[312,313,314,316],1]},{"Or":[317]},{"Token":92},{"Token":53},{"And":[[320,76],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,322]]]},{"And":[[323],null]},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,325]]]},{"And":[[326],null]},{"Or":[321,324,327]},{"Opt":328},{"And":[[319,329],1]},{"Or":[330]},{"Token":13},{"Token":92},{"Token":58},{"And":[[334],null]},{"Call":[151,[[2,1]]]},{"And":[[336],null]},{"Or":[335,337]},{"And":[[332,333,338],1]},{"Or":[339]},{"Token":35},{"Opt":341},{"Token":17},{"Opt":31},{"Token":23},{"And":[[345,49],null]},{"Or":[346]},{"Opt":347},{"And":[[49,348],null]},{"Or":[349]},{"Opt":37},{"And":[[342,343,344,350,351,23],2]},{"Or":[352]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,354,355,356,357,358,359,23],3]},{"Or":[360]},{"Opt":36},{"And":[[145,362],null]},{"Or":[363]},{"Inject":[364,24]},{"And":[[365],null]},{"And":[[28],null]},{"Or":[366,367]},{"WithSkip":[25,368]},{"Rep":369},{"Call":[151,[[2,370]]]},{"And":[[371],null]},{"Or":[372]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[378],null]},{"Token":8},{"And":[[380],null]},{"Token":20},{"And":[[382],null]},{"Token":21},{"And":[[384],null]},{"Token":22},{"And":[[386],null]},{"Token":35},{"And":[[388],null]},{"Token":65},{"And":[[390],null]},{"Token":7},{"And":[[392],null]},{"Token":92},{"Token":82},{"And":[[394,395],null]},{"Or":[396]},{"And":[[397],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[402,49],null]},{"Or":[403]},{"Opt":404},{"Token":58},{"And":[[399,400,401,405,406],1]},{"Or":[407]},{"Token":21},{"And":[[409],null]},{"Token":22},{"And":[[411],null]},{"Or":[410,412]},{"Token":92},{"Token":59},{"Token":53},{"And":[[416,76],null]},{"Or":[417]},{"Opt":418},{"Token":58},{"And":[[413,414,415,49,419,420],1]},{"Or":[421]},{"And":[[147],null]},{"Token":58},{"And":[[148,424],null]},{"Or":[423,425]},{"Rep":30},{"Call":[151,[[2,427]]]},{"And":[[10,428],null]},{"Or":[429]},{"Opt":36},{"And":[[145,431],null]},{"Or":[432]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[434,435]},{"Inject":[433,436]},{"And":[[437],null]},{"Call":[150,[[1,35]]]},{"Call":[150,[[1,32]]]},{"And":[[439,440],null]},{"Or":[441]},{"Call":[153,[[4,442]]]},{"And":[[443],null]},{"Or":[444]},{"Token":92},{"Opt":33},{"And":[[446,447],1]},{"Or":[448]},{"Token":59},{"Token":73},{"And":[[451],null]},"Eof",{"And":[[453],null]},{"Token":61},{"And":[[455],null]},{"Token":39},{"And":[[457],null]},{"Token":36},{"And":[[459],null]},{"Or":[456,458,460]},{"Not":461},{"Not":462},{"And":[[463],null]},{"Or":[452,454,464]},{"And":[[34,465],1]},{"Or":[466]},{"Rep":467},{"And":[[450,468],null]},{"Token":87},{"And":[[470],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[471,472,473]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[478],null]},"Eof",{"And":[[480],null]},{"Token":61},{"Not":482},{"Not":483},{"And":[[484],null]},{"Or":[479,481,485]},{"And":[[477,486],1]},{"Or":[487]},{"Rep":488},{"And":[[476,489],null]},{"Or":[490]},{"Opt":491},{"And":[[475,492],1]},{"Or":[493]},{"Token":10},{"Token":6},{"And":[[496],null]},{"Token":19},{"And":[[498],null]},{"Or":[497,499]},{"Call":[152,[[3,500]]]},{"Opt":501},{"And":[[495,502],null]},{"Or":[503]},{"Token":36},{"Token":61},{"And":[[506],null]},"Eof",{"And":[[508],null]},{"Token":39},{"Not":510},{"Not":511},{"And":[[512],null]},{"Or":[507,509,513]},{"And":[[49,33,514],null]},{"Or":[515]},{"Rep":516},{"And":[[505,517],1]},{"Or":[518]},{"And":[[41],null]},{"Enter":[2,41]},{"And":[[521],null]},{"Enter":[1,41]},{"And":[[523],null]},{"Token":60},{"And":[[525,45],null]},{"Or":[526]},{"Token":60},{"Opt":528},{"And":[[529,45],null]},{"Or":[530]},{"Token":60},{"And":[[532,45],null]},{"Or":[533]},{"And":[[41,534],null]},{"Or":[535]},{"Token":5},{"And":[[49,537,49],null]},{"Or":[538]},{"Call":[153,[[4,539]]]},{"Token":60},{"And":[[540,541,45],null]},{"Or":[542]},{"Token":92},{"And":[[544],null]},{"Token":18},{"And":[[546],null]},{"Token":19},{"And":[[548],null]},{"Or":[545,547,549]},{"And":[[46],null]},{"IsIn":2},{"And":[[552,47],null]},{"Or":[551,553]},{"Opt":554},{"And":[[550,555],null]},{"Or":[556]},{"IsIn":2},{"And":[[558],null]},{"IsIn":1},{"Token":60},{"And":[[560,561],null]},{"Or":[559,562]},{"Token":87},{"Call":[150,[[1,564]]]},{"Token":92},{"Token":53},{"And":[[566,567],null]},{"Or":[568]},{"Not":569},{"And":[[570,49],null]},{"Or":[571]},{"Call":[150,[[1,572]]]},{"Token":92},{"Token":53},{"And":[[574,575,49],null]},{"Or":[576]},{"Call":[150,[[1,577]]]},{"And":[[565,573,578],null]},{"Or":[579]},{"Call":[153,[[4,580]]]},{"And":[[563,581],null]},{"Or":[582]},{"Call":[150,[[1,49]]]},{"Call":[152,[[3,584]]]},{"Opt":9},{"And":[[585,586],null]},{"Or":[587]},{"Token":5},{"Token":92},{"And":[[589,590],null]},{"Or":[591]},{"Token":73},{"And":[[593,34],null]},{"Or":[594]},{"Rep":595},{"And":[[51,596],null]},{"Or":[597]},{"And":[[51],null]},{"Or":[599]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[611]},{"And":[[121,49],null]},{"Or":[613]},{"Token":67},{"Token":21},{"And":[[616],null]},{"Token":27},{"And":[[618],null]},{"Or":[617,619]},{"And":[[615,620,49],null]},{"Or":[621]},{"Token":81},{"And":[[623],null]},{"Or":[624]},{"Token":37},{"Token":38},{"And":[[626,627],null]},{"Or":[628]},{"Opt":58},{"And":[[49,630],null]},{"Or":[631]},{"Call":[152,[[3,632]]]},{"And":[[633],null]},{"Or":[634]},{"Token":61},{"Call":[150,[[1,49]]]},{"And":[[636,637],null]},{"Or":[638]},{"Token":82},{"And":[[640],null]},{"Or":[641]},{"Token":58},{"And":[[643,76],null]},{"Or":[644]},{"Opt":645},{"And":[[49,646],null]},{"Or":[647]},{"Call":[154,[[5,648]]]},{"And":[[649],null]},{"Or":[650]},{"Opt":10},{"Token":8},{"Call":[150,[[1,62]]]},{"Call":[152,[[3,654]]]},{"Opt":9},{"And":[[652,653,655,656],2]},{"Or":[657]},{"Token":59},{"And":[[64,659],null]},{"Or":[660]},{"Opt":661},{"And":[[662,49],null]},{"Or":[663]},{"Token":23},{"And":[[665,31,49],1]},{"Or":[666]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[675],null]},{"Or":[676]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[678,679]},{"Opt":680},{"And":[[40,681],null]},{"Or":[682]},{"Call":[150,[[1,64]]]},{"Token":63},{"Token":61},{"Opt":686},{"And":[[685,687],null]},{"Or":[688]},{"Opt":689},{"And":[[684,690],null]},{"Or":[691]},{"Call":[152,[[3,692]]]},{"And":[[693],null]},{"Or":[694]},{"Call":[150,[[1,69]]]},{"Token":63},{"Token":61},{"Opt":698},{"And":[[697,699],null]},{"Or":[700]},{"Opt":701},{"And":[[696,702],null]},{"Or":[703]},{"Call":[151,[[2,704]]]},{"And":[[705],null]},{"Or":[706]},{"Token":59},{"Not":708},{"And":[[70,709],null]},{"Token":92},{"Token":59},{"And":[[711,712,64],2]},{"Or":[710,713]},{"Token":28},{"Opt":715},{"Token":27},{"Opt":717},{"Token":92},{"And":[[716,718,719],null]},{"Or":[720]},{"And":[[80],null]},{"Or":[722]},{"Token":37},{"Token":38},{"And":[[724,725],null]},{"Or":[726]},{"Opt":74},{"And":[[64,728],null]},{"Or":[729]},{"Call":[152,[[3,730]]]},{"And":[[731],null]},{"Or":[732]},{"Token":61},{"Call":[150,[[1,64]]]},{"And":[[734,735],null]},{"Or":[736]},{"Token":77},{"Token":27},{"Opt":739},{"And":[[738,740,64],null]},{"Or":[741]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":745},{"And":[[743,744,746,114],null]},{"Or":[747]},{"Token":62},{"Token":92},{"And":[[750],null]},{"Token":89},{"And":[[752],null]},{"Or":[751,753]},{"And":[[749,754],null]},{"Or":[755]},{"Call":[154,[[5,76]]]},{"Token":83},{"Token":5},{"And":[[759,50],null]},{"Or":[760]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[765],null]},{"Token":69},{"And":[[767],null]},{"Token":71},{"And":[[769],null]},{"Or":[766,768,770]},{"Token":73},{"And":[[772],null]},{"Token":75},{"And":[[774],null]},{"Or":[773,775]},{"ContextualToken":[45,"<<"]},{"And":[[777],null]},{"ContextualToken":[47,">>"]},{"And":[[779],null]},{"Or":[778,780]},{"ContextualToken":[49,"&&"]},{"Not":782},{"Token":77},{"And":[[783,784],null]},{"Or":[785]},{"Token":84},{"ContextualToken":[50,"||"]},{"Not":788},{"Token":79},{"And":[[789,790],null]},{"Or":[791]},{"ContextualToken":[49,"&&"]},{"ContextualToken":[50,"||"]},{"Token":53},{"And":[[795],null]},{"Token":74},{"And":[[797],null]},{"Token":76},{"And":[[799],null]},{"Token":68},{"And":[[801],null]},{"Token":70},{"And":[[803],null]},{"Token":72},{"And":[[805],null]},{"Token":78},{"And":[[807],null]},{"Token":80},{"And":[[809],null]},{"Token":85},{"And":[[811],null]},{"ContextualToken":[48,">>="]},{"And":[[813],null]},{"ContextualToken":[46,"<<="]},{"And":[[815],null]},{"Or":[796,798,800,802,804,806,808,810,812,814,816]},{"And":[[80],null]},{"Token":92},{"And":[[819],null]},{"Token":87},{"And":[[821],null]},{"Token":18},{"And":[[823],null]},{"Token":19},{"And":[[825],null]},{"Token":41},{"And":[[827],null]},{"Token":60},{"And":[[829],null]},{"Token":37},{"And":[[831],null]},{"Token":43},{"And":[[833],null]},{"Token":79},{"And":[[835],null]},{"Token":31},{"And":[[837],null]},{"Token":39},{"And":[[839],null]},{"Token":14},{"And":[[841],null]},{"Token":25},{"And":[[843],null]},{"Token":24},{"And":[[845],null]},{"Token":23},{"And":[[847],null]},{"Token":30},{"And":[[849],null]},{"Token":26},{"And":[[851],null]},{"Token":32},{"And":[[853],null]},{"Token":33},{"And":[[855],null]},{"Token":77},{"And":[[857],null]},{"Token":67},{"And":[[859],null]},{"Token":75},{"And":[[861],null]},{"Token":82},{"And":[[863],null]},{"Token":63},{"And":[[865],null]},{"Token":64},{"And":[[867],null]},{"And":[[92],null]},{"And":[[99],null]},{"And":[[100],null]},{"And":[[103],null]},{"And":[[104],null]},{"And":[[106],null]},{"And":[[110],null]},{"Or":[869,870,871,872,873,874,875]},{"Token":62},{"And":[[877],null]},{"Token":83},{"And":[[879],null]},{"Or":[878,880]},{"Not":881},{"And":[[876,882],null]},{"Var":0},{"Exit":[0,884]},{"And":[[885],null]},{"Token":89},{"And":[[887],null]},{"Token":90},{"And":[[889],null]},{"Token":91},{"And":[[891],null]},{"Token":86},{"And":[[893],null]},{"Token":88},{"And":[[895],null]},{"Or":[888,890,892,894,896]},{"Token":92},{"Token":82},{"And":[[898,899],null]},{"Or":[900]},{"Not":901},{"Opt":82},{"And":[[902,40,903],null]},{"Or":[904]},{"IsIn":0},{"Not":906},{"Call":[150,[[1,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[909,910],null]},{"Or":[911]},{"Opt":912},{"And":[[908,913],null]},{"Or":[914]},{"Call":[151,[[2,915]]]},{"And":[[907,916],null]},{"Or":[917]},{"Token":92},{"Token":59},{"And":[[920,76],null]},{"Or":[921]},{"Opt":922},{"And":[[919,923],1]},{"Or":[924]},{"Token":37},{"Token":38},{"And":[[926,927],null]},{"Or":[928]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[930,931],null]},{"Or":[932]},{"Call":[152,[[3,933]]]},{"And":[[934],null]},{"Or":[935]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[150,[[1,938]]]},{"And":[[937,939],null]},{"Or":[940]},{"Token":58},{"And":[[942,76],null]},{"Token":61},{"Call":[150,[[1,76]]]},{"And":[[944,945],null]},{"Or":[943,946]},{"Opt":947},{"And":[[76,948],null]},{"Or":[949]},{"Call":[79,[[0,950]]]},{"Call":[154,[[5,951]]]},{"And":[[952],null]},{"Or":[953]},{"Token":26},{"Opt":955},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[960,49,92],null]},{"Call":[79,[[0,76]]]},{"And":[[962],null]},{"Or":[961,963]},{"And":[[956,957,958,959,964],null]},{"Or":[965]},{"Token":61},{"And":[[967],null]},{"Token":79},{"Not":969},{"Not":970},{"And":[[971],null]},{"Or":[968,972]},{"And":[[13,973],1]},{"Token":31},{"Opt":76},{"And":[[975,976],null]},{"Or":[977]},{"Token":33},{"And":[[979],null]},{"Token":32},{"And":[[981],null]},{"Or":[980,982]},{"Token":87},{"Opt":984},{"And":[[983,985],null]},{"Or":[986]},{"Token":35},{"Opt":988},{"WithSkip":[94,93]},{"Rep":990},{"Call":[151,[[2,991]]]},{"And":[[989,992],null]},{"Or":[993]},{"Call":[79,[[0,994]]]},{"And":[[995],null]},{"Or":[996]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1002],null]},{"Token":58},{"And":[[1004],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1010,76],1]},{"Or":[1011]},{"Opt":1012},{"Token":58},{"And":[[1008,64,1009,1013,1014],1]},{"Or":[1015]},{"Token":59},{"And":[[1017,49],null]},{"Or":[1018]},{"Token":58},{"And":[[1020],null]},{"Or":[1021]},{"And":[[78],null]},"Eof",{"And":[[1024],null]},{"Token":58},{"And":[[1026],null]},{"Or":[1025,1027]},{"And":[[76,1028],1]},{"Or":[1023,1029]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1033,1034]},{"And":[[1032,1035],null]},{"Or":[1036]},{"Opt":1037},{"And":[[1031,101,92,1038],1]},{"Or":[1039]},{"Opt":105},{"Token":25},{"And":[[1041,1042,101,92],2]},{"Or":[1043]},{"Token":9},{"Token":53},{"And":[[1045,64,1046],1]},{"Or":[1047]},{"Opt":1048},{"And":[[1049,102],1]},{"Enter":[0,76]},{"And":[[1051],null]},{"Opt":105},{"Token":24},{"And":[[1053,1054,92],2]},{"Or":[1055]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1057,1058,64,1059,102,92],2]},{"Or":[1060]},{"Token":87},{"Token":59},{"And":[[1062,1063],null]},{"Token":30},{"Rep":107},{"Call":[151,[[2,1066]]]},{"And":[[1065,102,1067],1]},{"Or":[1068]},{"Token":52},{"Token":61},{"Opt":1071},{"And":[[78,1072],null]},{"Token":61},{"And":[[1074],null]},"Eof",{"And":[[1076],null]},{"Or":[1075,1077]},{"And":[[76,1078],null]},{"Or":[1073,1079]},{"And":[[108,1070,1080],1]},{"Or":[1081]},{"Token":79},{"And":[[1083,64],null]},{"Or":[1084]},{"Rep":1085},{"Opt":109},{"And":[[64,1086,1087],null]},{"Token":14},{"And":[[1089,76],null]},{"Or":[1090]},{"And":[[147],null]},{"Or":[1092]},{"And":[[148],null]},{"Or":[1094]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1098},{"And":[[1096,1097,1099,114],null]},{"Or":[1100]},{"And":[[76,1101],null]},{"Or":[1102]},{"And":[[76,114],null]},{"Or":[1104]},{"Call":[150,[[1,115]]]},{"Call":[152,[[3,1106]]]},{"Call":[79,[[0,1107]]]},{"And":[[1108],null]},{"And":[[76],null]},{"Or":[1110]},{"Token":62},{"Token":92},{"And":[[1113],null]},{"Token":89},{"And":[[1115],null]},{"Or":[1114,1116]},{"And":[[1112,1117],null]},{"Or":[1118]},{"And":[[76,1119],null]},{"Or":[1120]},{"Call":[154,[[5,76]]]},{"And":[[76,1122],null]},{"Or":[1123]},{"Token":83},{"And":[[76,1125],null]},{"Or":[1126]},{"Token":5},{"And":[[1128,50],null]},{"Or":[1129]},{"And":[[76,1130],null]},{"Or":[1131]},{"And":[[121,76],null]},{"Or":[1133]},{"Token":77},{"Token":87},{"Opt":1136},{"Token":27},{"Opt":1138},{"And":[[1135,1137,1139],null]},{"Token":67},{"And":[[1141,76],null]},{"Or":[1142]},{"Token":75},{"And":[[1144,76],null]},{"Or":[1145]},{"Token":82},{"And":[[1147,76],null]},{"Or":[1148]},{"Token":67},{"And":[[1150],null]},{"Token":69},{"And":[[1152],null]},{"Token":71},{"And":[[1154],null]},{"Or":[1151,1153,1155]},{"And":[[76,1156,76],null]},{"Or":[1157]},{"Token":73},{"And":[[1159],null]},{"Token":75},{"And":[[1161],null]},{"Or":[1160,1162]},{"And":[[76,1163,76],null]},{"Or":[1164]},{"ContextualToken":[45,"<<"]},{"And":[[1166],null]},{"ContextualToken":[47,">>"]},{"And":[[1168],null]},{"Or":[1167,1169]},{"And":[[76,1170,76],null]},{"Or":[1171]},{"ContextualToken":[49,"&&"]},{"Not":1173},{"Token":77},{"And":[[1174,1175],null]},{"Or":[1176]},{"And":[[76,1177,76],null]},{"Or":[1178]},{"Token":84},{"And":[[76,1180,76],null]},{"Or":[1181]},{"ContextualToken":[50,"||"]},{"Not":1183},{"Token":79},{"And":[[1184,1185],null]},{"Or":[1186]},{"And":[[76,1187,76],null]},{"Or":[1188]},{"And":[[76,132,76],null]},{"Or":[1190]},{"Token":54},{"And":[[1192],null]},{"Token":55},{"And":[[1194],null]},{"ContextualToken":[46,"<<="]},{"And":[[1196],null]},{"ContextualToken":[48,">>="]},{"And":[[1198],null]},{"Or":[1197,1199]},{"Not":1200},{"Token":41},{"And":[[1202],null]},{"Token":42},{"And":[[1204],null]},{"Or":[1203,1205]},{"And":[[1201,1206],null]},{"Token":57},{"And":[[1208],null]},{"Token":56},{"And":[[1210],null]},{"ContextualToken":[49,"&&"]},{"And":[[76,1212,76],null]},{"Or":[1213]},{"ContextualToken":[50,"||"]},{"And":[[76,1215,76],null]},{"Or":[1216]},{"And":[[76,140,76],null]},{"Or":[1218]},{"And":[[140,76],null]},{"Or":[1220]},{"And":[[76,139],null]},{"Or":[1222]},{"Token":63},{"Not":77},{"And":[[1224,1225],null]},{"Or":[1226]},{"Token":63},{"And":[[1228],null]},{"Token":64},{"And":[[1230],null]},{"Not":77},{"Not":1232},{"Token":39},{"IsIn":0},{"And":[[1234,1235],null]},{"Or":[1236]},{"Not":1237},{"And":[[139,1233,1238],null]},{"Token":53},{"And":[[1240],null]},{"Token":74},{"And":[[1242],null]},{"Token":76},{"And":[[1244],null]},{"Token":68},{"And":[[1246],null]},{"Token":70},{"And":[[1248],null]},{"Token":72},{"And":[[1250],null]},{"Token":78},{"And":[[1252],null]},{"Token":80},{"And":[[1254],null]},{"Token":85},{"And":[[1256],null]},{"ContextualToken":[48,">>="]},{"And":[[1258],null]},{"ContextualToken":[46,"<<="]},{"And":[[1260],null]},{"Or":[1241,1243,1245,1247,1249,1251,1253,1255,1257,1259,1261]},{"And":[[76,1262,76],null]},{"Or":[1263]},{"Token":65},{"And":[[1265,144],null]},{"Or":[1266]},{"Token":65},{"Token":82},{"And":[[1268,1269,144],null]},{"Or":[1270]},{"Call":[150,[[1,146]]]},{"Call":[154,[[5,1272]]]},{"And":[[1273],null]},{"Rep":142},{"And":[[1275],null]},{"Token":92},{"Token":53},{"And":[[1278,76],null]},{"Call":[150,[[1,146]]]},{"Call":[152,[[3,1280]]]},{"And":[[1281],null]},{"Or":[1279,1282]},{"Opt":1283},{"And":[[1277,1284],1]},{"Or":[1285]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1289},{"Rep":149},{"Call":[151,[[2,1291]]]},{"And":[[1287,1288,1290,1292],null]},{"Or":[1293]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1297},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1299,1300,1301],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1303,1304,1305],null]},{"Or":[1302,1306]},{"And":[[1295,1296,1298,1307],null]},{"Or":[1308]},{"Token":37},{"And":[[1310],null]},{"Token":38},{"And":[[1312],null]},{"Token":39},{"And":[[1314],null]},{"Token":40},{"And":[[1316],null]},{"Token":43},{"And":[[1318],null]},{"Token":44},{"And":[[1320],null]},{"Or":[1311,1313,1315,1317,1319,1321]},{"Not":1322},"Any",{"And":[[1323,1324],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1326,1327,1328],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1330,1331,1332],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1334,1335,1336],null]},{"Or":[1325,1329,1333,1337]},{"Var":1},"Eof",{"And":[[1340],null]},{"Token":61},{"And":[[1342],null]},{"Or":[1341,1343]},{"And":[[1339,1344],1]},{"Or":[1345]},{"Rep":1346},{"And":[[1347],null]},{"Token":39},{"Token":40},{"Var":2},{"Call":[155,[[6,1349],[7,1350],[8,1351]]]},{"And":[[1352],null]},{"Token":37},{"Token":38},{"Var":3},{"Call":[155,[[6,1354],[7,1355],[8,1356]]]},{"And":[[1357],null]},{"Token":41},{"Token":42},{"Var":4},{"Call":[155,[[6,1359],[7,1360],[8,1361]]]},{"And":[[1362],null]},{"Token":43},{"Token":44},{"Var":5},{"Call":[155,[[6,1364],[7,1365],[8,1366]]]},{"And":[[1367],null]},{"Var":6},{"Var":6},{"Var":7},{"Call":[156,[[9,1370],[10,1371]]]},{"Var":8},{"Layer":[1372,1373]},{"Var":7},{"And":[[1369,1374,1375],1]},{"Var":9},{"Var":9},{"Var":10},{"Call":[156,[[9,1378],[10,1379]]]},{"Var":10},{"And":[[1377,1380,1381],1]},{"Var":10},{"Not":1383},"Any",{"And":[[1384,1385],null]},{"Or":[1386]},{"And":[[1387],null]},{"Or":[1382,1388]},{"Rep":1389},{"And":[[1390],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":222,"replaceable":false}},{"Pub":{"ty":97,"body":229,"replaceable":false}},{"Pub":{"ty":98,"body":245,"replaceable":false}},{"Or":[247]},{"Pub":{"ty":99,"body":252,"replaceable":false}},{"Or":[258]},{"Pub":{"ty":100,"body":261,"replaceable":false}},{"Pub":{"ty":101,"body":267,"replaceable":false}},{"Pub":{"ty":102,"body":284,"replaceable":false}},{"Pub":{"ty":103,"body":303,"replaceable":false}},{"Pub":{"ty":104,"body":308,"replaceable":false}},{"Pub":{"ty":105,"body":311,"replaceable":false}},{"Pub":{"ty":106,"body":318,"replaceable":false}},{"Pub":{"ty":107,"body":331,"replaceable":false}},{"Pub":{"ty":108,"body":340,"replaceable":false}},{"Pub":{"ty":109,"body":353,"replaceable":false}},{"Pub":{"ty":110,"body":361,"replaceable":false}},{"Pub":{"ty":111,"body":373,"replaceable":false}},{"Or":[374,375,376,377]},{"Or":[379,381,383,385,387,389,391,393,398]},{"Pub":{"ty":112,"body":408,"replaceable":false}},{"Pub":{"ty":113,"body":422,"replaceable":false}},{"Pub":{"ty":114,"body":426,"replaceable":false}},{"Pub":{"ty":115,"body":430,"replaceable":false}},{"Or":[438]},{"Pub":{"ty":116,"body":445,"replaceable":false}},{"Pub":{"ty":117,"body":449,"replaceable":false}},{"Or":[469]},{"Pub":{"ty":118,"body":474,"replaceable":false}},{"Pub":{"ty":119,"body":494,"replaceable":false}},{"Pub":{"ty":120,"body":504,"replaceable":false}},{"Pub":{"ty":121,"body":519,"replaceable":false}},{"Or":[520]},{"Or":[522]},{"Or":[524]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":527,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":531,"replaceable":false}},{"Pub":{"ty":122,"body":536,"replaceable":false}},{"Pub":{"ty":123,"body":543,"replaceable":false}},{"Pub":{"ty":124,"body":557,"replaceable":false}},{"Pub":{"ty":125,"body":583,"replaceable":false}},{"Pub":{"ty":126,"body":588,"replaceable":false}},{"Pub":{"ty":127,"body":592,"replaceable":false}},{"Pub":{"ty":128,"body":598,"replaceable":false}},{"Pub":{"ty":128,"body":600,"replaceable":false}},{"Or":[601,602,603,604,605,606,607,608,609,610]},{"Pub":{"ty":129,"body":612,"replaceable":false}},{"Pub":{"ty":130,"body":614,"replaceable":false}},{"Pub":{"ty":131,"body":622,"replaceable":false}},{"Pub":{"ty":132,"body":625,"replaceable":false}},{"Pub":{"ty":133,"body":629,"replaceable":false}},{"Pub":{"ty":134,"body":635,"replaceable":true}},{"PubReplace":{"ty":135,"body":639}},{"Pub":{"ty":136,"body":642,"replaceable":false}},{"Pub":{"ty":137,"body":653,"replaceable":false}},{"Pub":{"ty":138,"body":660,"replaceable":false}},{"Pub":{"ty":100,"body":666,"replaceable":false}},{"Pub":{"ty":139,"body":669,"replaceable":false}},{"Or":[670,671,672,673,674,675,676]},{"Pub":{"ty":140,"body":679,"replaceable":false}},{"Pub":{"ty":141,"body":685,"replaceable":true}},{"PubReplace":{"ty":142,"body":697}},{"PubReplace":{"ty":143,"body":709}},{"Pub":{"ty":144,"body":716,"replaceable":false}},{"Pub":{"ty":145,"body":723,"replaceable":false}},{"Pub":{"ty":146,"body":725,"replaceable":false}},{"Pub":{"ty":147,"body":729,"replaceable":false}},{"Pub":{"ty":148,"body":735,"replaceable":true}},{"PubReplace":{"ty":149,"body":739}},{"Pub":{"ty":150,"body":744,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,138],"prefixes":[{"ty":184,"op":121,"priority":999},{"ty":185,"op":765,"priority":999},{"ty":186,"op":766,"priority":999},{"ty":187,"op":767,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":750,"priority":999,"has_rhs":false},{"ty":178,"op":114,"priority":999,"has_rhs":false},{"ty":180,"op":758,"priority":999,"has_rhs":false},{"ty":181,"op":760,"priority":999,"has_rhs":false},{"ty":182,"op":761,"priority":999,"has_rhs":false},{"ty":183,"op":764,"priority":12,"has_rhs":false},{"ty":188,"op":774,"priority":11,"has_rhs":true},{"ty":189,"op":779,"priority":10,"has_rhs":true},{"ty":190,"op":784,"priority":9,"has_rhs":true},{"ty":191,"op":789,"priority":8,"has_rhs":true},{"ty":192,"op":790,"priority":7,"has_rhs":true},{"ty":193,"op":795,"priority":6,"has_rhs":true},{"ty":194,"op":132,"priority":5,"has_rhs":true},{"ty":195,"op":796,"priority":4,"has_rhs":true},{"ty":196,"op":797,"priority":3,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":820,"priority":1,"has_rhs":true}]}},{"Or":[821,823,825,827,829,831,833,835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871]},{"Or":[886]},{"Or":[889]},{"Pub":{"ty":152,"body":900,"replaceable":false}},{"Pub":{"ty":153,"body":908,"replaceable":true}},{"PubReplace":{"ty":154,"body":921}},{"Pub":{"ty":155,"body":928,"replaceable":false}},{"Pub":{"ty":156,"body":932,"replaceable":false}},{"Pub":{"ty":157,"body":939,"replaceable":true}},{"PubReplace":{"ty":158,"body":944}},{"Pub":{"ty":159,"body":957,"replaceable":false}},{"Pub":{"ty":160,"body":968,"replaceable":false}},{"Or":[976]},{"Pub":{"ty":161,"body":980,"replaceable":false}},{"Pub":{"ty":162,"body":989,"replaceable":false}},{"Pub":{"ty":163,"body":999,"replaceable":false}},{"Or":[1000,1001,1002,1003]},{"Or":[1005,1007,1008,1009]},{"Pub":{"ty":164,"body":1018,"replaceable":false}},{"Pub":{"ty":165,"body":1021,"replaceable":false}},{"Pub":{"ty":166,"body":1024,"replaceable":false}},{"Pub":{"ty":167,"body":1032,"replaceable":false}},{"Pub":{"ty":168,"body":1042,"replaceable":false}},{"Pub":{"ty":169,"body":1046,"replaceable":false}},{"Or":[1052]},{"Or":[1054]},{"Pub":{"ty":170,"body":1058,"replaceable":false}},{"Pub":{"ty":171,"body":1063,"replaceable":false}},{"Or":[1066]},{"Pub":{"ty":172,"body":1072,"replaceable":false}},{"Pub":{"ty":173,"body":1085,"replaceable":false}},{"Or":[1091]},{"Pub":{"ty":174,"body":1094,"replaceable":false}},{"Pub":{"ty":175,"body":1096,"replaceable":false}},{"Pub":{"ty":176,"body":1098,"replaceable":false}},{"Pub":{"ty":177,"body":1106,"replaceable":false}},{"Pub":{"ty":178,"body":1108,"replaceable":false}},{"Or":[1112]},{"Pub":{"ty":179,"body":1114,"replaceable":false}},{"Pub":{"ty":180,"body":1124,"replaceable":false}},{"Pub":{"ty":181,"body":1128,"replaceable":false}},{"Pub":{"ty":182,"body":1131,"replaceable":false}},{"Pub":{"ty":183,"body":1136,"replaceable":false}},{"Pub":{"ty":184,"body":1138,"replaceable":false}},{"Or":[1144]},{"Pub":{"ty":185,"body":1147,"replaceable":false}},{"Pub":{"ty":186,"body":1150,"replaceable":false}},{"Pub":{"ty":187,"body":1153,"replaceable":false}},{"Pub":{"ty":188,"body":1162,"replaceable":false}},{"Pub":{"ty":189,"body":1169,"replaceable":false}},{"Pub":{"ty":190,"body":1176,"replaceable":false}},{"Pub":{"ty":191,"body":1183,"replaceable":false}},{"Pub":{"ty":192,"body":1186,"replaceable":false}},{"Pub":{"ty":193,"body":1193,"replaceable":false}},{"Pub":{"ty":194,"body":1195,"replaceable":false}},{"Or":[1197,1199,1211,1213,1215]},{"Pub":{"ty":195,"body":1218,"replaceable":false}},{"Pub":{"ty":196,"body":1221,"replaceable":false}},{"Pub":{"ty":197,"body":1223,"replaceable":false}},{"Pub":{"ty":197,"body":1225,"replaceable":false}},{"Pub":{"ty":197,"body":1227,"replaceable":false}},{"Pub":{"ty":197,"body":1238,"replaceable":false}},{"Or":[1240,1242]},{"Or":[1250]},{"Pub":{"ty":198,"body":1275,"replaceable":false}},{"Pub":{"ty":199,"body":1278,"replaceable":false}},{"Pub":{"ty":200,"body":1282,"replaceable":false}},{"Or":[1285]},{"Or":[1287]},{"Pub":{"ty":201,"body":1297,"replaceable":false}},{"Pub":{"ty":202,"body":1305,"replaceable":false}},{"Pub":{"ty":203,"body":1320,"replaceable":false}},{"Pub":{"ty":204,"body":1349,"replaceable":false}},{"Or":[1359]},{"Or":[1364]},{"Or":[1369]},{"Or":[1374]},{"Or":[1379]},{"Or":[1387]},{"Or":[1402]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[1,6]]]},{"Call":[151,[[2,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"Opt":48},{"And":[[216,217],null]},{"Token":92},{"Opt":48},{"And":[[219,220],1]},{"Or":[218,221]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[223,224,225,226,227],2]},{"Or":[228]},{"Token":21},{"Opt":230},{"Token":35},{"Opt":232},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[241],null]},{"Or":[240,242]},{"And":[[231,233,234,235,236,237,11,238,239,243],4]},{"Or":[244]},{"Token":51},{"And":[[246,49],null]},{"Token":7},{"Token":90},{"Opt":249},{"And":[[248,250],null]},{"Or":[251]},{"Opt":14},{"Call":[150,[[1,12]]]},{"And":[[253,254],null]},{"Or":[255]},{"Call":[152,[[3,256]]]},{"And":[[257],null]},{"Token":59},{"And":[[64,259,49],1]},{"Or":[260]},{"Token":59},{"And":[[262,49],null]},{"Or":[263]},{"Opt":264},{"And":[[64,265],null]},{"Or":[266]},{"And":[[121],null]},{"Token":27},{"And":[[269],null]},{"Or":[268,270]},{"Opt":271},{"Token":18},{"Token":59},{"And":[[274,49],null]},{"Or":[275]},{"Opt":276},{"Token":61},{"And":[[278],null]},"Eof",{"And":[[280],null]},{"Or":[279,281]},{"And":[[272,273,277,282],2]},{"Or":[283]},{"Token":11},{"And":[[285],null]},{"ContextualToken":[4,"union"]},{"And":[[287],null]},{"Or":[286,288]},{"Token":92},{"Opt":31},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,292]]]},{"And":[[293],null]},{"Token":58},{"And":[[295],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,297]]]},{"Token":58},{"And":[[298,299],null]},{"Or":[294,296,300]},{"And":[[289,290,291,301],1]},{"Or":[302]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[304,305,306,49],2]},{"Or":[307]},{"Opt":36},{"And":[[309,49],null]},{"Or":[310]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[1,19]]]},{"Call":[151,[[2,315]]]},{"And":[[312,313,314,316],1]},{"Or":[317]},{"Token":92},{"Token":53},{"And":[[320,76],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,322]]]},{"And":[[323],null]},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,325]]]},{"And":[[326],null]},{"Or":[321,324,327]},{"Opt":328},{"And":[[319,329],1]},{"Or":[330]},{"Token":13},{"Token":92},{"Token":58},{"And":[[334],null]},{"Call":[151,[[2,1]]]},{"And":[[336],null]},{"Or":[335,337]},{"And":[[332,333,338],1]},{"Or":[339]},{"Token":35},{"Opt":341},{"Token":17},{"Opt":31},{"Token":23},{"And":[[345,49],null]},{"Or":[346]},{"Opt":347},{"And":[[49,348],null]},{"Or":[349]},{"Opt":37},{"And":[[342,343,344,350,351,23],2]},{"Or":[352]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,354,355,356,357,358,359,23],3]},{"Or":[360]},{"Opt":36},{"And":[[145,362],null]},{"Or":[363]},{"Inject":[364,24]},{"And":[[365],null]},{"And":[[28],null]},{"Or":[366,367]},{"WithSkip":[25,368]},{"Rep":369},{"Call":[151,[[2,370]]]},{"And":[[371],null]},{"Or":[372]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[378],null]},{"Token":8},{"And":[[380],null]},{"Token":20},{"And":[[382],null]},{"Token":21},{"And":[[384],null]},{"Token":22},{"And":[[386],null]},{"Token":35},{"And":[[388],null]},{"Token":65},{"And":[[390],null]},{"Token":7},{"And":[[392],null]},{"Token":92},{"Token":82},{"And":[[394,395],null]},{"Or":[396]},{"And":[[397],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[402,49],null]},{"Or":[403]},{"Opt":404},{"Token":58},{"And":[[399,400,401,405,406],1]},{"Or":[407]},{"Token":21},{"And":[[409],null]},{"Token":22},{"And":[[411],null]},{"Or":[410,412]},{"Token":92},{"Token":59},{"Token":53},{"And":[[416,76],null]},{"Or":[417]},{"Opt":418},{"Token":58},{"And":[[413,414,415,49,419,420],1]},{"Or":[421]},{"And":[[147],null]},{"Token":58},{"And":[[148,424],null]},{"Or":[423,425]},{"Rep":30},{"Call":[151,[[2,427]]]},{"And":[[10,428],null]},{"Or":[429]},{"Opt":36},{"And":[[145,431],null]},{"Or":[432]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[434,435]},{"Inject":[433,436]},{"And":[[437],null]},{"Call":[150,[[1,35]]]},{"Call":[150,[[1,32]]]},{"And":[[439,440],null]},{"Or":[441]},{"Call":[153,[[4,442]]]},{"And":[[443],null]},{"Or":[444]},{"Token":92},{"Opt":33},{"And":[[446,447],1]},{"Or":[448]},{"Token":59},{"Token":73},{"And":[[451],null]},"Eof",{"And":[[453],null]},{"Token":61},{"And":[[455],null]},{"Token":39},{"And":[[457],null]},{"Token":36},{"And":[[459],null]},{"Or":[456,458,460]},{"Not":461},{"Not":462},{"And":[[463],null]},{"Or":[452,454,464]},{"And":[[34,465],1]},{"Or":[466]},{"Rep":467},{"And":[[450,468],null]},{"Token":87},{"And":[[470],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[471,472,473]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[478],null]},"Eof",{"And":[[480],null]},{"Token":61},{"Not":482},{"Not":483},{"And":[[484],null]},{"Or":[479,481,485]},{"And":[[477,486],1]},{"Or":[487]},{"Rep":488},{"And":[[476,489],null]},{"Or":[490]},{"Opt":491},{"And":[[475,492],1]},{"Or":[493]},{"Token":10},{"Token":6},{"And":[[496],null]},{"Token":19},{"And":[[498],null]},{"Or":[497,499]},{"Call":[152,[[3,500]]]},{"Opt":501},{"And":[[495,502],null]},{"Or":[503]},{"Token":36},{"Token":61},{"And":[[506],null]},"Eof",{"And":[[508],null]},{"Token":39},{"Not":510},{"Not":511},{"And":[[512],null]},{"Or":[507,509,513]},{"And":[[49,33,514],null]},{"Or":[515]},{"Rep":516},{"And":[[505,517],1]},{"Or":[518]},{"And":[[41],null]},{"Enter":[2,41]},{"And":[[521],null]},{"Enter":[1,41]},{"And":[[523],null]},{"Token":60},{"And":[[525,45],null]},{"Or":[526]},{"Token":60},{"Opt":528},{"And":[[529,45],null]},{"Or":[530]},{"Token":60},{"And":[[532,45],null]},{"Or":[533]},{"And":[[41,534],null]},{"Or":[535]},{"Token":5},{"And":[[49,537,49],null]},{"Or":[538]},{"Call":[153,[[4,539]]]},{"Token":60},{"And":[[540,541,45],null]},{"Or":[542]},{"Token":92},{"And":[[544],null]},{"Token":18},{"And":[[546],null]},{"Token":19},{"And":[[548],null]},{"Or":[545,547,549]},{"And":[[46],null]},{"IsIn":2},{"And":[[552,47],null]},{"Or":[551,553]},{"Opt":554},{"And":[[550,555],null]},{"Or":[556]},{"IsIn":2},{"And":[[558],null]},{"IsIn":1},{"Token":60},{"And":[[560,561],null]},{"Or":[559,562]},{"Token":87},{"Call":[150,[[1,564]]]},{"Token":92},{"Token":53},{"And":[[566,567],null]},{"Or":[568]},{"Not":569},{"And":[[570,49],null]},{"Or":[571]},{"Call":[150,[[1,572]]]},{"Token":92},{"Token":53},{"And":[[574,575,49],null]},{"Or":[576]},{"Call":[150,[[1,577]]]},{"And":[[565,573,578],null]},{"Or":[579]},{"Call":[153,[[4,580]]]},{"And":[[563,581],null]},{"Or":[582]},{"Call":[150,[[1,49]]]},{"Call":[152,[[3,584]]]},{"Opt":9},{"And":[[585,586],null]},{"Or":[587]},{"Token":5},{"Token":92},{"And":[[589,590],null]},{"Or":[591]},{"Token":73},{"And":[[593,34],null]},{"Or":[594]},{"Rep":595},{"And":[[51,596],null]},{"Or":[597]},{"And":[[51],null]},{"Or":[599]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[611]},{"And":[[121,49],null]},{"Or":[613]},{"Token":67},{"Token":21},{"And":[[616],null]},{"Token":27},{"And":[[618],null]},{"Or":[617,619]},{"And":[[615,620,49],null]},{"Or":[621]},{"Token":81},{"And":[[623],null]},{"Or":[624]},{"Token":37},{"Token":38},{"And":[[626,627],null]},{"Or":[628]},{"Opt":58},{"And":[[49,630],null]},{"Or":[631]},{"Call":[152,[[3,632]]]},{"And":[[633],null]},{"Or":[634]},{"Token":61},{"Call":[150,[[1,49]]]},{"And":[[636,637],null]},{"Or":[638]},{"Token":82},{"And":[[640],null]},{"Or":[641]},{"Token":58},{"Call":[79,[[0,76]]]},{"Exit":[2,644]},{"And":[[643,645],null]},{"Or":[646]},{"Opt":647},{"And":[[49,648],null]},{"Or":[649]},{"Call":[154,[[5,650]]]},{"And":[[651],null]},{"Or":[652]},{"Opt":10},{"Token":8},{"Call":[150,[[1,62]]]},{"Call":[152,[[3,656]]]},{"Opt":9},{"And":[[654,655,657,658],2]},{"Or":[659]},{"Token":59},{"And":[[64,661],null]},{"Or":[662]},{"Opt":663},{"And":[[664,49],null]},{"Or":[665]},{"Token":23},{"And":[[667,31,49],1]},{"Or":[668]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[677],null]},{"Or":[678]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[680,681]},{"Opt":682},{"And":[[40,683],null]},{"Or":[684]},{"Call":[150,[[1,64]]]},{"Token":63},{"Token":61},{"Opt":688},{"And":[[687,689],null]},{"Or":[690]},{"Opt":691},{"And":[[686,692],null]},{"Or":[693]},{"Call":[152,[[3,694]]]},{"And":[[695],null]},{"Or":[696]},{"Call":[150,[[1,69]]]},{"Token":63},{"Token":61},{"Opt":700},{"And":[[699,701],null]},{"Or":[702]},{"Opt":703},{"And":[[698,704],null]},{"Or":[705]},{"Call":[151,[[2,706]]]},{"And":[[707],null]},{"Or":[708]},{"Token":59},{"Not":710},{"And":[[70,711],null]},{"Token":92},{"Token":59},{"And":[[713,714,64],2]},{"Or":[712,715]},{"Token":28},{"Opt":717},{"Token":27},{"Opt":719},{"Token":92},{"And":[[718,720,721],null]},{"Or":[722]},{"And":[[80],null]},{"Or":[724]},{"Token":37},{"Token":38},{"And":[[726,727],null]},{"Or":[728]},{"Opt":74},{"And":[[64,730],null]},{"Or":[731]},{"Call":[152,[[3,732]]]},{"And":[[733],null]},{"Or":[734]},{"Token":61},{"Call":[150,[[1,64]]]},{"And":[[736,737],null]},{"Or":[738]},{"Token":77},{"Token":27},{"Opt":741},{"And":[[740,742,64],null]},{"Or":[743]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":747},{"And":[[745,746,748,114],null]},{"Or":[749]},{"Token":62},{"Token":92},{"And":[[752],null]},{"Token":89},{"And":[[754],null]},{"Or":[753,755]},{"And":[[751,756],null]},{"Or":[757]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,759]]]},{"Token":83},{"Token":5},{"And":[[762,50],null]},{"Or":[763]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[768],null]},{"Token":69},{"And":[[770],null]},{"Token":71},{"And":[[772],null]},{"Or":[769,771,773]},{"Token":73},{"And":[[775],null]},{"Token":75},{"And":[[777],null]},{"Or":[776,778]},{"ContextualToken":[45,"<<"]},{"And":[[780],null]},{"ContextualToken":[47,">>"]},{"And":[[782],null]},{"Or":[781,783]},{"ContextualToken":[49,"&&"]},{"Not":785},{"Token":77},{"And":[[786,787],null]},{"Or":[788]},{"Token":84},{"ContextualToken":[50,"||"]},{"Not":791},{"Token":79},{"And":[[792,793],null]},{"Or":[794]},{"ContextualToken":[49,"&&"]},{"ContextualToken":[50,"||"]},{"Token":53},{"And":[[798],null]},{"Token":74},{"And":[[800],null]},{"Token":76},{"And":[[802],null]},{"Token":68},{"And":[[804],null]},{"Token":70},{"And":[[806],null]},{"Token":72},{"And":[[808],null]},{"Token":78},{"And":[[810],null]},{"Token":80},{"And":[[812],null]},{"Token":85},{"And":[[814],null]},{"ContextualToken":[48,">>="]},{"And":[[816],null]},{"ContextualToken":[46,"<<="]},{"And":[[818],null]},{"Or":[799,801,803,805,807,809,811,813,815,817,819]},{"And":[[80],null]},{"Token":92},{"And":[[822],null]},{"Token":87},{"And":[[824],null]},{"Token":18},{"And":[[826],null]},{"Token":19},{"And":[[828],null]},{"Token":41},{"And":[[830],null]},{"Token":60},{"And":[[832],null]},{"Token":37},{"And":[[834],null]},{"Token":43},{"And":[[836],null]},{"Token":79},{"And":[[838],null]},{"Token":31},{"And":[[840],null]},{"Token":39},{"And":[[842],null]},{"Token":14},{"And":[[844],null]},{"Token":25},{"And":[[846],null]},{"Token":24},{"And":[[848],null]},{"Token":23},{"And":[[850],null]},{"Token":30},{"And":[[852],null]},{"Token":26},{"And":[[854],null]},{"Token":32},{"And":[[856],null]},{"Token":33},{"And":[[858],null]},{"Token":77},{"And":[[860],null]},{"Token":67},{"And":[[862],null]},{"Token":75},{"And":[[864],null]},{"Token":82},{"And":[[866],null]},{"Token":63},{"And":[[868],null]},{"Token":64},{"And":[[870],null]},{"And":[[92],null]},{"And":[[99],null]},{"And":[[100],null]},{"And":[[103],null]},{"And":[[104],null]},{"And":[[106],null]},{"And":[[110],null]},{"Or":[872,873,874,875,876,877,878]},{"Token":62},{"And":[[880],null]},{"Token":83},{"And":[[882],null]},{"Or":[881,883]},{"Not":884},{"And":[[879,885],null]},{"Var":0},{"Exit":[0,887]},{"And":[[888],null]},{"Token":89},{"And":[[890],null]},{"Token":90},{"And":[[892],null]},{"Token":91},{"And":[[894],null]},{"Token":86},{"And":[[896],null]},{"Token":88},{"And":[[898],null]},{"Or":[891,893,895,897,899]},{"Token":92},{"Token":82},{"And":[[901,902],null]},{"Or":[903]},{"Not":904},{"Opt":82},{"And":[[905,40,906],null]},{"Or":[907]},{"IsIn":0},{"Not":909},{"Call":[150,[[1,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[912,913],null]},{"Or":[914]},{"Opt":915},{"And":[[911,916],null]},{"Or":[917]},{"Call":[151,[[2,918]]]},{"And":[[910,919],null]},{"Or":[920]},{"Token":92},{"Token":59},{"And":[[923,76],null]},{"Or":[924]},{"Opt":925},{"And":[[922,926],1]},{"Or":[927]},{"Token":37},{"Token":38},{"And":[[929,930],null]},{"Or":[931]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[933,934],null]},{"Or":[935]},{"Call":[152,[[3,936]]]},{"And":[[937],null]},{"Or":[938]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[150,[[1,941]]]},{"And":[[940,942],null]},{"Or":[943]},{"Token":58},{"And":[[945,76],null]},{"Token":61},{"Call":[150,[[1,76]]]},{"And":[[947,948],null]},{"Or":[946,949]},{"Opt":950},{"And":[[76,951],null]},{"Or":[952]},{"Call":[79,[[0,953]]]},{"Call":[154,[[5,954]]]},{"And":[[955],null]},{"Or":[956]},{"Token":26},{"Opt":958},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[963,49,92],null]},{"And":[[76],null]},{"Or":[964,965]},{"And":[[959,960,961,962,966],null]},{"Or":[967]},{"Token":61},{"And":[[969],null]},{"Token":79},{"Not":971},{"Not":972},{"And":[[973],null]},{"Or":[970,974]},{"And":[[13,975],1]},{"Token":31},{"Opt":76},{"And":[[977,978],null]},{"Or":[979]},{"Token":33},{"And":[[981],null]},{"Token":32},{"And":[[983],null]},{"Or":[982,984]},{"Token":87},{"Opt":986},{"And":[[985,987],null]},{"Or":[988]},{"Token":35},{"Opt":990},{"WithSkip":[94,93]},{"Rep":992},{"Call":[151,[[2,993]]]},{"And":[[991,994],null]},{"Or":[995]},{"Call":[79,[[0,996]]]},{"And":[[997],null]},{"Or":[998]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1004],null]},{"Token":58},{"And":[[1006],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1012,76],1]},{"Or":[1013]},{"Opt":1014},{"Token":58},{"And":[[1010,64,1011,1015,1016],1]},{"Or":[1017]},{"Token":59},{"And":[[1019,49],null]},{"Or":[1020]},{"Token":58},{"And":[[1022],null]},{"Or":[1023]},{"And":[[78],null]},"Eof",{"And":[[1026],null]},{"Token":58},{"And":[[1028],null]},{"Or":[1027,1029]},{"And":[[76,1030],1]},{"Or":[1025,1031]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1035,1036]},{"And":[[1034,1037],null]},{"Or":[1038]},{"Opt":1039},{"And":[[1033,101,92,1040],1]},{"Or":[1041]},{"Opt":105},{"Token":25},{"And":[[1043,1044,101,92],2]},{"Or":[1045]},{"Token":9},{"Token":53},{"And":[[1047,64,1048],1]},{"Or":[1049]},{"Opt":1050},{"And":[[1051,102],1]},{"Enter":[0,76]},{"And":[[1053],null]},{"Opt":105},{"Token":24},{"And":[[1055,1056,92],2]},{"Or":[1057]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1059,1060,64,1061,102,92],2]},{"Or":[1062]},{"Token":87},{"Token":59},{"And":[[1064,1065],null]},{"Token":30},{"Rep":107},{"Call":[79,[[0,1068]]]},{"Call":[151,[[2,1069]]]},{"And":[[1067,102,1070],1]},{"Or":[1071]},{"Token":52},{"Token":61},{"Opt":1074},{"And":[[78,1075],null]},{"Token":61},{"And":[[1077],null]},"Eof",{"And":[[1079],null]},{"Or":[1078,1080]},{"And":[[76,1081],null]},{"Or":[1076,1082]},{"And":[[108,1073,1083],1]},{"Or":[1084]},{"Token":79},{"And":[[1086,64],null]},{"Or":[1087]},{"Rep":1088},{"Opt":109},{"And":[[64,1089,1090],null]},{"Token":14},{"And":[[1092,76],null]},{"Or":[1093]},{"And":[[147],null]},{"Or":[1095]},{"And":[[148],null]},{"Or":[1097]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1101},{"And":[[1099,1100,1102,114],null]},{"Or":[1103]},{"And":[[76,1104],null]},{"Or":[1105]},{"And":[[76,114],null]},{"Or":[1107]},{"Call":[150,[[1,115]]]},{"Call":[152,[[3,1109]]]},{"Call":[79,[[0,1110]]]},{"And":[[1111],null]},{"And":[[76],null]},{"Or":[1113]},{"Token":62},{"Token":92},{"And":[[1116],null]},{"Token":89},{"And":[[1118],null]},{"Or":[1117,1119]},{"And":[[1115,1120],null]},{"Or":[1121]},{"And":[[76,1122],null]},{"Or":[1123]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,1125]]]},{"And":[[76,1126],null]},{"Or":[1127]},{"Token":83},{"And":[[76,1129],null]},{"Or":[1130]},{"Token":5},{"And":[[1132,50],null]},{"Or":[1133]},{"And":[[76,1134],null]},{"Or":[1135]},{"And":[[121,76],null]},{"Or":[1137]},{"Token":77},{"Token":87},{"Opt":1140},{"Token":27},{"Opt":1142},{"And":[[1139,1141,1143],null]},{"Token":67},{"And":[[1145,76],null]},{"Or":[1146]},{"Token":75},{"And":[[1148,76],null]},{"Or":[1149]},{"Token":82},{"And":[[1151,76],null]},{"Or":[1152]},{"Token":67},{"And":[[1154],null]},{"Token":69},{"And":[[1156],null]},{"Token":71},{"And":[[1158],null]},{"Or":[1155,1157,1159]},{"And":[[76,1160,76],null]},{"Or":[1161]},{"Token":73},{"And":[[1163],null]},{"Token":75},{"And":[[1165],null]},{"Or":[1164,1166]},{"And":[[76,1167,76],null]},{"Or":[1168]},{"ContextualToken":[45,"<<"]},{"And":[[1170],null]},{"ContextualToken":[47,">>"]},{"And":[[1172],null]},{"Or":[1171,1173]},{"And":[[76,1174,76],null]},{"Or":[1175]},{"ContextualToken":[49,"&&"]},{"Not":1177},{"Token":77},{"And":[[1178,1179],null]},{"Or":[1180]},{"And":[[76,1181,76],null]},{"Or":[1182]},{"Token":84},{"And":[[76,1184,76],null]},{"Or":[1185]},{"ContextualToken":[50,"||"]},{"Not":1187},{"Token":79},{"And":[[1188,1189],null]},{"Or":[1190]},{"And":[[76,1191,76],null]},{"Or":[1192]},{"And":[[76,132,76],null]},{"Or":[1194]},{"Token":54},{"And":[[1196],null]},{"Token":55},{"And":[[1198],null]},{"ContextualToken":[46,"<<="]},{"And":[[1200],null]},{"ContextualToken":[48,">>="]},{"And":[[1202],null]},{"Or":[1201,1203]},{"Not":1204},{"Token":41},{"And":[[1206],null]},{"Token":42},{"And":[[1208],null]},{"Or":[1207,1209]},{"And":[[1205,1210],null]},{"Token":57},{"And":[[1212],null]},{"Token":56},{"And":[[1214],null]},{"ContextualToken":[49,"&&"]},{"And":[[76,1216,76],null]},{"Or":[1217]},{"ContextualToken":[50,"||"]},{"And":[[76,1219,76],null]},{"Or":[1220]},{"And":[[76,140,76],null]},{"Or":[1222]},{"And":[[140,76],null]},{"Or":[1224]},{"And":[[76,139],null]},{"Or":[1226]},{"Token":63},{"Token":39},{"IsIn":0},{"And":[[1229,1230],null]},{"Or":[1231]},{"Not":1232},{"And":[[1233,77],null]},{"Or":[1234]},{"Not":1235},{"And":[[1228,1236],null]},{"Or":[1237]},{"Token":63},{"And":[[1239],null]},{"Token":64},{"And":[[1241],null]},{"Not":77},{"Not":1243},{"Token":39},{"IsIn":0},{"And":[[1245,1246],null]},{"Or":[1247]},{"Not":1248},{"And":[[139,1244,1249],null]},{"Token":53},{"And":[[1251],null]},{"Token":74},{"And":[[1253],null]},{"Token":76},{"And":[[1255],null]},{"Token":68},{"And":[[1257],null]},{"Token":70},{"And":[[1259],null]},{"Token":72},{"And":[[1261],null]},{"Token":78},{"And":[[1263],null]},{"Token":80},{"And":[[1265],null]},{"Token":85},{"And":[[1267],null]},{"ContextualToken":[48,">>="]},{"And":[[1269],null]},{"ContextualToken":[46,"<<="]},{"And":[[1271],null]},{"Or":[1252,1254,1256,1258,1260,1262,1264,1266,1268,1270,1272]},{"And":[[76,1273,76],null]},{"Or":[1274]},{"Token":65},{"And":[[1276,144],null]},{"Or":[1277]},{"Token":65},{"Token":82},{"And":[[1279,1280,144],null]},{"Or":[1281]},{"Call":[150,[[1,146]]]},{"Call":[154,[[5,1283]]]},{"And":[[1284],null]},{"Rep":142},{"And":[[1286],null]},{"Token":92},{"Token":53},{"And":[[1289,76],null]},{"Call":[150,[[1,146]]]},{"Call":[152,[[3,1291]]]},{"And":[[1292],null]},{"Or":[1290,1293]},{"Opt":1294},{"And":[[1288,1295],1]},{"Or":[1296]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1300},{"Rep":149},{"Call":[151,[[2,1302]]]},{"And":[[1298,1299,1301,1303],null]},{"Or":[1304]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1308},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1310,1311,1312],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1314,1315,1316],null]},{"Or":[1313,1317]},{"And":[[1306,1307,1309,1318],null]},{"Or":[1319]},{"Token":37},{"And":[[1321],null]},{"Token":38},{"And":[[1323],null]},{"Token":39},{"And":[[1325],null]},{"Token":40},{"And":[[1327],null]},{"Token":43},{"And":[[1329],null]},{"Token":44},{"And":[[1331],null]},{"Or":[1322,1324,1326,1328,1330,1332]},{"Not":1333},"Any",{"And":[[1334,1335],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1337,1338,1339],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1341,1342,1343],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1345,1346,1347],null]},{"Or":[1336,1340,1344,1348]},{"Var":1},"Eof",{"And":[[1351],null]},{"Token":61},{"And":[[1353],null]},{"Or":[1352,1354]},{"And":[[1350,1355],1]},{"Or":[1356]},{"Rep":1357},{"And":[[1358],null]},{"Token":39},{"Token":40},{"Var":2},{"Call":[155,[[6,1360],[7,1361],[8,1362]]]},{"And":[[1363],null]},{"Token":37},{"Token":38},{"Var":3},{"Call":[155,[[6,1365],[7,1366],[8,1367]]]},{"And":[[1368],null]},{"Token":41},{"Token":42},{"Var":4},{"Call":[155,[[6,1370],[7,1371],[8,1372]]]},{"And":[[1373],null]},{"Token":43},{"Token":44},{"Var":5},{"Call":[155,[[6,1375],[7,1376],[8,1377]]]},{"And":[[1378],null]},{"Var":6},{"Var":6},{"Var":7},{"Call":[156,[[9,1381],[10,1382]]]},{"Var":8},{"Layer":[1383,1384]},{"Var":7},{"And":[[1380,1385,1386],1]},{"Var":9},{"Var":9},{"Var":10},{"Call":[156,[[9,1389],[10,1390]]]},{"Var":10},{"And":[[1388,1391,1392],1]},{"Var":10},{"Not":1394},"Any",{"And":[[1395,1396],null]},{"Or":[1397]},{"And":[[1398],null]},{"Or":[1393,1399]},{"Rep":1400},{"And":[[1401],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 11ffd2abf134de9d4b83a3dd4bf1d37fa94d63c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:46 +0000
Subject: [PATCH 33/36] fix: a borrow does not take the label of a loop

---
 lang/rust/syntax/src/rust.fall | 2 +-
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index 14366c3..5b5da2b 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1022,7 +1022,7 @@ fn main() { 1 as u128; }
 "
 
 #[prefix]
-pub rule reference_expr { borrow expr }
+pub rule reference_expr { {'&' 'mut'?} expr }
 rule borrow {
   '&' lifetime? 'mut'?
 }
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index af64598..9307a22 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":222,"replaceable":false}},{"Pub":{"ty":97,"body":229,"replaceable":false}},{"Pub":{"ty":98,"body":245,"replaceable":false}},{"Or":[247]},{"Pub":{"ty":99,"body":252,"replaceable":false}},{"Or":[258]},{"Pub":{"ty":100,"body":261,"replaceable":false}},{"Pub":{"ty":101,"body":267,"replaceable":false}},{"Pub":{"ty":102,"body":284,"replaceable":false}},{"Pub":{"ty":103,"body":303,"replaceable":false}},{"Pub":{"ty":104,"body":308,"replaceable":false}},{"Pub":{"ty":105,"body":311,"replaceable":false}},{"Pub":{"ty":106,"body":318,"replaceable":false}},{"Pub":{"ty":107,"body":331,"replaceable":false}},{"Pub":{"ty":108,"body":340,"replaceable":false}},{"Pub":{"ty":109,"body":353,"replaceable":false}},{"Pub":{"ty":110,"body":361,"replaceable":false}},{"Pub":{"ty":111,"body":373,"replaceable":false}},{"Or":[374,375,376,377]},{"Or":[379,381,383,385,387,389,391,393,398]},{"Pub":{"ty":112,"body":408,"replaceable":false}},{"Pub":{"ty":113,"body":422,"replaceable":false}},{"Pub":{"ty":114,"body":426,"replaceable":false}},{"Pub":{"ty":115,"body":430,"replaceable":false}},{"Or":[438]},{"Pub":{"ty":116,"body":445,"replaceable":false}},{"Pub":{"ty":117,"body":449,"replaceable":false}},{"Or":[469]},{"Pub":{"ty":118,"body":474,"replaceable":false}},{"Pub":{"ty":119,"body":494,"replaceable":false}},{"Pub":{"ty":120,"body":504,"replaceable":false}},{"Pub":{"ty":121,"body":519,"replaceable":false}},{"Or":[520]},{"Or":[522]},{"Or":[524]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":527,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":531,"replaceable":false}},{"Pub":{"ty":122,"body":536,"replaceable":false}},{"Pub":{"ty":123,"body":543,"replaceable":false}},{"Pub":{"ty":124,"body":557,"replaceable":false}},{"Pub":{"ty":125,"body":583,"replaceable":false}},{"Pub":{"ty":126,"body":588,"replaceable":false}},{"Pub":{"ty":127,"body":592,"replaceable":false}},{"Pub":{"ty":128,"body":598,"replaceable":false}},{"Pub":{"ty":128,"body":600,"replaceable":false}},{"Or":[601,602,603,604,605,606,607,608,609,610]},{"Pub":{"ty":129,"body":612,"replaceable":false}},{"Pub":{"ty":130,"body":614,"replaceable":false}},{"Pub":{"ty":131,"body":622,"replaceable":false}},{"Pub":{"ty":132,"body":625,"replaceable":false}},{"Pub":{"ty":133,"body":629,"replaceable":false}},{"Pub":{"ty":134,"body":635,"replaceable":true}},{"PubReplace":{"ty":135,"body":639}},{"Pub":{"ty":136,"body":642,"replaceable":false}},{"Pub":{"ty":137,"body":653,"replaceable":false}},{"Pub":{"ty":138,"body":660,"replaceable":false}},{"Pub":{"ty":100,"body":666,"replaceable":false}},{"Pub":{"ty":139,"body":669,"replaceable":false}},{"Or":[670,671,672,673,674,675,676]},{"Pub":{"ty":140,"body":679,"replaceable":false}},{"Pub":{"ty":141,"body":685,"replaceable":true}},{"PubReplace":{"ty":142,"body":697}},{"PubReplace":{"ty":143,"body":709}},{"Pub":{"ty":144,"body":716,"replaceable":false}},{"Pub":{"ty":145,"body":723,"replaceable":false}},{"Pub":{"ty":146,"body":725,"replaceable":false}},{"Pub":{"ty":147,"body":729,"replaceable":false}},{"Pub":{"ty":148,"body":735,"replaceable":true}},{"PubReplace":{"ty":149,"body":739}},{"Pub":{"ty":150,"body":744,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,138],"prefixes":[{"ty":184,"op":121,"priority":999},{"ty":185,"op":765,"priority":999},{"ty":186,"op":766,"priority":999},{"ty":187,"op":767,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":750,"priority":999,"has_rhs":false},{"ty":178,"op":114,"priority":999,"has_rhs":false},{"ty":180,"op":758,"priority":999,"has_rhs":false},{"ty":181,"op":760,"priority":999,"has_rhs":false},{"ty":182,"op":761,"priority":999,"has_rhs":false},{"ty":183,"op":764,"priority":12,"has_rhs":false},{"ty":188,"op":774,"priority":11,"has_rhs":true},{"ty":189,"op":779,"priority":10,"has_rhs":true},{"ty":190,"op":784,"priority":9,"has_rhs":true},{"ty":191,"op":789,"priority":8,"has_rhs":true},{"ty":192,"op":790,"priority":7,"has_rhs":true},{"ty":193,"op":795,"priority":6,"has_rhs":true},{"ty":194,"op":132,"priority":5,"has_rhs":true},{"ty":195,"op":796,"priority":4,"has_rhs":true},{"ty":196,"op":797,"priority":3,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":820,"priority":1,"has_rhs":true}]}},{"Or":[821,823,825,827,829,831,833,835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871]},{"Or":[886]},{"Or":[889]},{"Pub":{"ty":152,"body":900,"replaceable":false}},{"Pub":{"ty":153,"body":908,"replaceable":true}},{"PubReplace":{"ty":154,"body":921}},{"Pub":{"ty":155,"body":928,"replaceable":false}},{"Pub":{"ty":156,"body":932,"replaceable":false}},{"Pub":{"ty":157,"body":939,"replaceable":true}},{"PubReplace":{"ty":158,"body":944}},{"Pub":{"ty":159,"body":957,"replaceable":false}},{"Pub":{"ty":160,"body":968,"replaceable":false}},{"Or":[976]},{"Pub":{"ty":161,"body":980,"replaceable":false}},{"Pub":{"ty":162,"body":989,"replaceable":false}},{"Pub":{"ty":163,"body":999,"replaceable":false}},{"Or":[1000,1001,1002,1003]},{"Or":[1005,1007,1008,1009]},{"Pub":{"ty":164,"body":1018,"replaceable":false}},{"Pub":{"ty":165,"body":1021,"replaceable":false}},{"Pub":{"ty":166,"body":1024,"replaceable":false}},{"Pub":{"ty":167,"body":1032,"replaceable":false}},{"Pub":{"ty":168,"body":1042,"replaceable":false}},{"Pub":{"ty":169,"body":1046,"replaceable":false}},{"Or":[1052]},{"Or":[1054]},{"Pub":{"ty":170,"body":1058,"replaceable":false}},{"Pub":{"ty":171,"body":1063,"replaceable":false}},{"Or":[1066]},{"Pub":{"ty":172,"body":1072,"replaceable":false}},{"Pub":{"ty":173,"body":1085,"replaceable":false}},{"Or":[1091]},{"Pub":{"ty":174,"body":1094,"replaceable":false}},{"Pub":{"ty":175,"body":1096,"replaceable":false}},{"Pub":{"ty":176,"body":1098,"replaceable":false}},{"Pub":{"ty":177,"body":1106,"replaceable":false}},{"Pub":{"ty":178,"body":1108,"replaceable":false}},{"Or":[1112]},{"Pub":{"ty":179,"body":1114,"replaceable":false}},{"Pub":{"ty":180,"body":1124,"replaceable":false}},{"Pub":{"ty":181,"body":1128,"replaceable":false}},{"Pub":{"ty":182,"body":1131,"replaceable":false}},{"Pub":{"ty":183,"body":1136,"replaceable":false}},{"Pub":{"ty":184,"body":1138,"replaceable":false}},{"Or":[1144]},{"Pub":{"ty":185,"body":1147,"replaceable":false}},{"Pub":{"ty":186,"body":1150,"replaceable":false}},{"Pub":{"ty":187,"body":1153,"replaceable":false}},{"Pub":{"ty":188,"body":1162,"replaceable":false}},{"Pub":{"ty":189,"body":1169,"replaceable":false}},{"Pub":{"ty":190,"body":1176,"replaceable":false}},{"Pub":{"ty":191,"body":1183,"replaceable":false}},{"Pub":{"ty":192,"body":1186,"replaceable":false}},{"Pub":{"ty":193,"body":1193,"replaceable":false}},{"Pub":{"ty":194,"body":1195,"replaceable":false}},{"Or":[1197,1199,1211,1213,1215]},{"Pub":{"ty":195,"body":1218,"replaceable":false}},{"Pub":{"ty":196,"body":1221,"replaceable":false}},{"Pub":{"ty":197,"body":1223,"replaceable":false}},{"Pub":{"ty":197,"body":1225,"replaceable":false}},{"Pub":{"ty":197,"body":1227,"replaceable":false}},{"Pub":{"ty":197,"body":1238,"replaceable":false}},{"Or":[1240,1242]},{"Or":[1250]},{"Pub":{"ty":198,"body":1275,"replaceable":false}},{"Pub":{"ty":199,"body":1278,"replaceable":false}},{"Pub":{"ty":200,"body":1282,"replaceable":false}},{"Or":[1285]},{"Or":[1287]},{"Pub":{"ty":201,"body":1297,"replaceable":false}},{"Pub":{"ty":202,"body":1305,"replaceable":false}},{"Pub":{"ty":203,"body":1320,"replaceable":false}},{"Pub":{"ty":204,"body":1349,"replaceable":false}},{"Or":[1359]},{"Or":[1364]},{"Or":[1369]},{"Or":[1374]},{"Or":[1379]},{"Or":[1387]},{"Or":[1402]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[1,6]]]},{"Call":[151,[[2,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"Opt":48},{"And":[[216,217],null]},{"Token":92},{"Opt":48},{"And":[[219,220],1]},{"Or":[218,221]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[223,224,225,226,227],2]},{"Or":[228]},{"Token":21},{"Opt":230},{"Token":35},{"Opt":232},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[241],null]},{"Or":[240,242]},{"And":[[231,233,234,235,236,237,11,238,239,243],4]},{"Or":[244]},{"Token":51},{"And":[[246,49],null]},{"Token":7},{"Token":90},{"Opt":249},{"And":[[248,250],null]},{"Or":[251]},{"Opt":14},{"Call":[150,[[1,12]]]},{"And":[[253,254],null]},{"Or":[255]},{"Call":[152,[[3,256]]]},{"And":[[257],null]},{"Token":59},{"And":[[64,259,49],1]},{"Or":[260]},{"Token":59},{"And":[[262,49],null]},{"Or":[263]},{"Opt":264},{"And":[[64,265],null]},{"Or":[266]},{"And":[[121],null]},{"Token":27},{"And":[[269],null]},{"Or":[268,270]},{"Opt":271},{"Token":18},{"Token":59},{"And":[[274,49],null]},{"Or":[275]},{"Opt":276},{"Token":61},{"And":[[278],null]},"Eof",{"And":[[280],null]},{"Or":[279,281]},{"And":[[272,273,277,282],2]},{"Or":[283]},{"Token":11},{"And":[[285],null]},{"ContextualToken":[4,"union"]},{"And":[[287],null]},{"Or":[286,288]},{"Token":92},{"Opt":31},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,292]]]},{"And":[[293],null]},{"Token":58},{"And":[[295],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,297]]]},{"Token":58},{"And":[[298,299],null]},{"Or":[294,296,300]},{"And":[[289,290,291,301],1]},{"Or":[302]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[304,305,306,49],2]},{"Or":[307]},{"Opt":36},{"And":[[309,49],null]},{"Or":[310]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[1,19]]]},{"Call":[151,[[2,315]]]},{"And":[[312,313,314,316],1]},{"Or":[317]},{"Token":92},{"Token":53},{"And":[[320,76],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,322]]]},{"And":[[323],null]},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,325]]]},{"And":[[326],null]},{"Or":[321,324,327]},{"Opt":328},{"And":[[319,329],1]},{"Or":[330]},{"Token":13},{"Token":92},{"Token":58},{"And":[[334],null]},{"Call":[151,[[2,1]]]},{"And":[[336],null]},{"Or":[335,337]},{"And":[[332,333,338],1]},{"Or":[339]},{"Token":35},{"Opt":341},{"Token":17},{"Opt":31},{"Token":23},{"And":[[345,49],null]},{"Or":[346]},{"Opt":347},{"And":[[49,348],null]},{"Or":[349]},{"Opt":37},{"And":[[342,343,344,350,351,23],2]},{"Or":[352]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,354,355,356,357,358,359,23],3]},{"Or":[360]},{"Opt":36},{"And":[[145,362],null]},{"Or":[363]},{"Inject":[364,24]},{"And":[[365],null]},{"And":[[28],null]},{"Or":[366,367]},{"WithSkip":[25,368]},{"Rep":369},{"Call":[151,[[2,370]]]},{"And":[[371],null]},{"Or":[372]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[378],null]},{"Token":8},{"And":[[380],null]},{"Token":20},{"And":[[382],null]},{"Token":21},{"And":[[384],null]},{"Token":22},{"And":[[386],null]},{"Token":35},{"And":[[388],null]},{"Token":65},{"And":[[390],null]},{"Token":7},{"And":[[392],null]},{"Token":92},{"Token":82},{"And":[[394,395],null]},{"Or":[396]},{"And":[[397],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[402,49],null]},{"Or":[403]},{"Opt":404},{"Token":58},{"And":[[399,400,401,405,406],1]},{"Or":[407]},{"Token":21},{"And":[[409],null]},{"Token":22},{"And":[[411],null]},{"Or":[410,412]},{"Token":92},{"Token":59},{"Token":53},{"And":[[416,76],null]},{"Or":[417]},{"Opt":418},{"Token":58},{"And":[[413,414,415,49,419,420],1]},{"Or":[421]},{"And":[[147],null]},{"Token":58},{"And":[[148,424],null]},{"Or":[423,425]},{"Rep":30},{"Call":[151,[[2,427]]]},{"And":[[10,428],null]},{"Or":[429]},{"Opt":36},{"And":[[145,431],null]},{"Or":[432]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[434,435]},{"Inject":[433,436]},{"And":[[437],null]},{"Call":[150,[[1,35]]]},{"Call":[150,[[1,32]]]},{"And":[[439,440],null]},{"Or":[441]},{"Call":[153,[[4,442]]]},{"And":[[443],null]},{"Or":[444]},{"Token":92},{"Opt":33},{"And":[[446,447],1]},{"Or":[448]},{"Token":59},{"Token":73},{"And":[[451],null]},"Eof",{"And":[[453],null]},{"Token":61},{"And":[[455],null]},{"Token":39},{"And":[[457],null]},{"Token":36},{"And":[[459],null]},{"Or":[456,458,460]},{"Not":461},{"Not":462},{"And":[[463],null]},{"Or":[452,454,464]},{"And":[[34,465],1]},{"Or":[466]},{"Rep":467},{"And":[[450,468],null]},{"Token":87},{"And":[[470],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[471,472,473]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[478],null]},"Eof",{"And":[[480],null]},{"Token":61},{"Not":482},{"Not":483},{"And":[[484],null]},{"Or":[479,481,485]},{"And":[[477,486],1]},{"Or":[487]},{"Rep":488},{"And":[[476,489],null]},{"Or":[490]},{"Opt":491},{"And":[[475,492],1]},{"Or":[493]},{"Token":10},{"Token":6},{"And":[[496],null]},{"Token":19},{"And":[[498],null]},{"Or":[497,499]},{"Call":[152,[[3,500]]]},{"Opt":501},{"And":[[495,502],null]},{"Or":[503]},{"Token":36},{"Token":61},{"And":[[506],null]},"Eof",{"And":[[508],null]},{"Token":39},{"Not":510},{"Not":511},{"And":[[512],null]},{"Or":[507,509,513]},{"And":[[49,33,514],null]},{"Or":[515]},{"Rep":516},{"And":[[505,517],1]},{"Or":[518]},{"And":[[41],null]},{"Enter":[2,41]},{"And":[[521],null]},{"Enter":[1,41]},{"And":[[523],null]},{"Token":60},{"And":[[525,45],null]},{"Or":[526]},{"Token":60},{"Opt":528},{"And":[[529,45],null]},{"Or":[530]},{"Token":60},{"And":[[532,45],null]},{"Or":[533]},{"And":[[41,534],null]},{"Or":[535]},{"Token":5},{"And":[[49,537,49],null]},{"Or":[538]},{"Call":[153,[[4,539]]]},{"Token":60},{"And":[[540,541,45],null]},{"Or":[542]},{"Token":92},{"And":[[544],null]},{"Token":18},{"And":[[546],null]},{"Token":19},{"And":[[548],null]},{"Or":[545,547,549]},{"And":[[46],null]},{"IsIn":2},{"And":[[552,47],null]},{"Or":[551,553]},{"Opt":554},{"And":[[550,555],null]},{"Or":[556]},{"IsIn":2},{"And":[[558],null]},{"IsIn":1},{"Token":60},{"And":[[560,561],null]},{"Or":[559,562]},{"Token":87},{"Call":[150,[[1,564]]]},{"Token":92},{"Token":53},{"And":[[566,567],null]},{"Or":[568]},{"Not":569},{"And":[[570,49],null]},{"Or":[571]},{"Call":[150,[[1,572]]]},{"Token":92},{"Token":53},{"And":[[574,575,49],null]},{"Or":[576]},{"Call":[150,[[1,577]]]},{"And":[[565,573,578],null]},{"Or":[579]},{"Call":[153,[[4,580]]]},{"And":[[563,581],null]},{"Or":[582]},{"Call":[150,[[1,49]]]},{"Call":[152,[[3,584]]]},{"Opt":9},{"And":[[585,586],null]},{"Or":[587]},{"Token":5},{"Token":92},{"And":[[589,590],null]},{"Or":[591]},{"Token":73},{"And":[[593,34],null]},{"Or":[594]},{"Rep":595},{"And":[[51,596],null]},{"Or":[597]},{"And":[[51],null]},{"Or":[599]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[611]},{"And":[[121,49],null]},{"Or":[613]},{"Token":67},{"Token":21},{"And":[[616],null]},{"Token":27},{"And":[[618],null]},{"Or":[617,619]},{"And":[[615,620,49],null]},{"Or":[621]},{"Token":81},{"And":[[623],null]},{"Or":[624]},{"Token":37},{"Token":38},{"And":[[626,627],null]},{"Or":[628]},{"Opt":58},{"And":[[49,630],null]},{"Or":[631]},{"Call":[152,[[3,632]]]},{"And":[[633],null]},{"Or":[634]},{"Token":61},{"Call":[150,[[1,49]]]},{"And":[[636,637],null]},{"Or":[638]},{"Token":82},{"And":[[640],null]},{"Or":[641]},{"Token":58},{"Call":[79,[[0,76]]]},{"Exit":[2,644]},{"And":[[643,645],null]},{"Or":[646]},{"Opt":647},{"And":[[49,648],null]},{"Or":[649]},{"Call":[154,[[5,650]]]},{"And":[[651],null]},{"Or":[652]},{"Opt":10},{"Token":8},{"Call":[150,[[1,62]]]},{"Call":[152,[[3,656]]]},{"Opt":9},{"And":[[654,655,657,658],2]},{"Or":[659]},{"Token":59},{"And":[[64,661],null]},{"Or":[662]},{"Opt":663},{"And":[[664,49],null]},{"Or":[665]},{"Token":23},{"And":[[667,31,49],1]},{"Or":[668]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[677],null]},{"Or":[678]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[680,681]},{"Opt":682},{"And":[[40,683],null]},{"Or":[684]},{"Call":[150,[[1,64]]]},{"Token":63},{"Token":61},{"Opt":688},{"And":[[687,689],null]},{"Or":[690]},{"Opt":691},{"And":[[686,692],null]},{"Or":[693]},{"Call":[152,[[3,694]]]},{"And":[[695],null]},{"Or":[696]},{"Call":[150,[[1,69]]]},{"Token":63},{"Token":61},{"Opt":700},{"And":[[699,701],null]},{"Or":[702]},{"Opt":703},{"And":[[698,704],null]},{"Or":[705]},{"Call":[151,[[2,706]]]},{"And":[[707],null]},{"Or":[708]},{"Token":59},{"Not":710},{"And":[[70,711],null]},{"Token":92},{"Token":59},{"And":[[713,714,64],2]},{"Or":[712,715]},{"Token":28},{"Opt":717},{"Token":27},{"Opt":719},{"Token":92},{"And":[[718,720,721],null]},{"Or":[722]},{"And":[[80],null]},{"Or":[724]},{"Token":37},{"Token":38},{"And":[[726,727],null]},{"Or":[728]},{"Opt":74},{"And":[[64,730],null]},{"Or":[731]},{"Call":[152,[[3,732]]]},{"And":[[733],null]},{"Or":[734]},{"Token":61},{"Call":[150,[[1,64]]]},{"And":[[736,737],null]},{"Or":[738]},{"Token":77},{"Token":27},{"Opt":741},{"And":[[740,742,64],null]},{"Or":[743]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":747},{"And":[[745,746,748,114],null]},{"Or":[749]},{"Token":62},{"Token":92},{"And":[[752],null]},{"Token":89},{"And":[[754],null]},{"Or":[753,755]},{"And":[[751,756],null]},{"Or":[757]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,759]]]},{"Token":83},{"Token":5},{"And":[[762,50],null]},{"Or":[763]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[768],null]},{"Token":69},{"And":[[770],null]},{"Token":71},{"And":[[772],null]},{"Or":[769,771,773]},{"Token":73},{"And":[[775],null]},{"Token":75},{"And":[[777],null]},{"Or":[776,778]},{"ContextualToken":[45,"<<"]},{"And":[[780],null]},{"ContextualToken":[47,">>"]},{"And":[[782],null]},{"Or":[781,783]},{"ContextualToken":[49,"&&"]},{"Not":785},{"Token":77},{"And":[[786,787],null]},{"Or":[788]},{"Token":84},{"ContextualToken":[50,"||"]},{"Not":791},{"Token":79},{"And":[[792,793],null]},{"Or":[794]},{"ContextualToken":[49,"&&"]},{"ContextualToken":[50,"||"]},{"Token":53},{"And":[[798],null]},{"Token":74},{"And":[[800],null]},{"Token":76},{"And":[[802],null]},{"Token":68},{"And":[[804],null]},{"Token":70},{"And":[[806],null]},{"Token":72},{"And":[[808],null]},{"Token":78},{"And":[[810],null]},{"Token":80},{"And":[[812],null]},{"Token":85},{"And":[[814],null]},{"ContextualToken":[48,">>="]},{"And":[[816],null]},{"ContextualToken":[46,"<<="]},{"And":[[818],null]},{"Or":[799,801,803,805,807,809,811,813,815,817,819]},{"And":[[80],null]},{"Token":92},{"And":[[822],null]},{"Token":87},{"And":[[824],null]},{"Token":18},{"And":[[826],null]},{"Token":19},{"And":[[828],null]},{"Token":41},{"And":[[830],null]},{"Token":60},{"And":[[832],null]},{"Token":37},{"And":[[834],null]},{"Token":43},{"And":[[836],null]},{"Token":79},{"And":[[838],null]},{"Token":31},{"And":[[840],null]},{"Token":39},{"And":[[842],null]},{"Token":14},{"And":[[844],null]},{"Token":25},{"And":[[846],null]},{"Token":24},{"And":[[848],null]},{"Token":23},{"And":[[850],null]},{"Token":30},{"And":[[852],null]},{"Token":26},{"And":[[854],null]},{"Token":32},{"And":[[856],null]},{"Token":33},{"And":[[858],null]},{"Token":77},{"And":[[860],null]},{"Token":67},{"And":[[862],null]},{"Token":75},{"And":[[864],null]},{"Token":82},{"And":[[866],null]},{"Token":63},{"And":[[868],null]},{"Token":64},{"And":[[870],null]},{"And":[[92],null]},{"And":[[99],null]},{"And":[[100],null]},{"And":[[103],null]},{"And":[[104],null]},{"And":[[106],null]},{"And":[[110],null]},{"Or":[872,873,874,875,876,877,878]},{"Token":62},{"And":[[880],null]},{"Token":83},{"And":[[882],null]},{"Or":[881,883]},{"Not":884},{"And":[[879,885],null]},{"Var":0},{"Exit":[0,887]},{"And":[[888],null]},{"Token":89},{"And":[[890],null]},{"Token":90},{"And":[[892],null]},{"Token":91},{"And":[[894],null]},{"Token":86},{"And":[[896],null]},{"Token":88},{"And":[[898],null]},{"Or":[891,893,895,897,899]},{"Token":92},{"Token":82},{"And":[[901,902],null]},{"Or":[903]},{"Not":904},{"Opt":82},{"And":[[905,40,906],null]},{"Or":[907]},{"IsIn":0},{"Not":909},{"Call":[150,[[1,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[912,913],null]},{"Or":[914]},{"Opt":915},{"And":[[911,916],null]},{"Or":[917]},{"Call":[151,[[2,918]]]},{"And":[[910,919],null]},{"Or":[920]},{"Token":92},{"Token":59},{"And":[[923,76],null]},{"Or":[924]},{"Opt":925},{"And":[[922,926],1]},{"Or":[927]},{"Token":37},{"Token":38},{"And":[[929,930],null]},{"Or":[931]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[933,934],null]},{"Or":[935]},{"Call":[152,[[3,936]]]},{"And":[[937],null]},{"Or":[938]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[150,[[1,941]]]},{"And":[[940,942],null]},{"Or":[943]},{"Token":58},{"And":[[945,76],null]},{"Token":61},{"Call":[150,[[1,76]]]},{"And":[[947,948],null]},{"Or":[946,949]},{"Opt":950},{"And":[[76,951],null]},{"Or":[952]},{"Call":[79,[[0,953]]]},{"Call":[154,[[5,954]]]},{"And":[[955],null]},{"Or":[956]},{"Token":26},{"Opt":958},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[963,49,92],null]},{"And":[[76],null]},{"Or":[964,965]},{"And":[[959,960,961,962,966],null]},{"Or":[967]},{"Token":61},{"And":[[969],null]},{"Token":79},{"Not":971},{"Not":972},{"And":[[973],null]},{"Or":[970,974]},{"And":[[13,975],1]},{"Token":31},{"Opt":76},{"And":[[977,978],null]},{"Or":[979]},{"Token":33},{"And":[[981],null]},{"Token":32},{"And":[[983],null]},{"Or":[982,984]},{"Token":87},{"Opt":986},{"And":[[985,987],null]},{"Or":[988]},{"Token":35},{"Opt":990},{"WithSkip":[94,93]},{"Rep":992},{"Call":[151,[[2,993]]]},{"And":[[991,994],null]},{"Or":[995]},{"Call":[79,[[0,996]]]},{"And":[[997],null]},{"Or":[998]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1004],null]},{"Token":58},{"And":[[1006],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1012,76],1]},{"Or":[1013]},{"Opt":1014},{"Token":58},{"And":[[1010,64,1011,1015,1016],1]},{"Or":[1017]},{"Token":59},{"And":[[1019,49],null]},{"Or":[1020]},{"Token":58},{"And":[[1022],null]},{"Or":[1023]},{"And":[[78],null]},"Eof",{"And":[[1026],null]},{"Token":58},{"And":[[1028],null]},{"Or":[1027,1029]},{"And":[[76,1030],1]},{"Or":[1025,1031]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1035,1036]},{"And":[[1034,1037],null]},{"Or":[1038]},{"Opt":1039},{"And":[[1033,101,92,1040],1]},{"Or":[1041]},{"Opt":105},{"Token":25},{"And":[[1043,1044,101,92],2]},{"Or":[1045]},{"Token":9},{"Token":53},{"And":[[1047,64,1048],1]},{"Or":[1049]},{"Opt":1050},{"And":[[1051,102],1]},{"Enter":[0,76]},{"And":[[1053],null]},{"Opt":105},{"Token":24},{"And":[[1055,1056,92],2]},{"Or":[1057]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1059,1060,64,1061,102,92],2]},{"Or":[1062]},{"Token":87},{"Token":59},{"And":[[1064,1065],null]},{"Token":30},{"Rep":107},{"Call":[79,[[0,1068]]]},{"Call":[151,[[2,1069]]]},{"And":[[1067,102,1070],1]},{"Or":[1071]},{"Token":52},{"Token":61},{"Opt":1074},{"And":[[78,1075],null]},{"Token":61},{"And":[[1077],null]},"Eof",{"And":[[1079],null]},{"Or":[1078,1080]},{"And":[[76,1081],null]},{"Or":[1076,1082]},{"And":[[108,1073,1083],1]},{"Or":[1084]},{"Token":79},{"And":[[1086,64],null]},{"Or":[1087]},{"Rep":1088},{"Opt":109},{"And":[[64,1089,1090],null]},{"Token":14},{"And":[[1092,76],null]},{"Or":[1093]},{"And":[[147],null]},{"Or":[1095]},{"And":[[148],null]},{"Or":[1097]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1101},{"And":[[1099,1100,1102,114],null]},{"Or":[1103]},{"And":[[76,1104],null]},{"Or":[1105]},{"And":[[76,114],null]},{"Or":[1107]},{"Call":[150,[[1,115]]]},{"Call":[152,[[3,1109]]]},{"Call":[79,[[0,1110]]]},{"And":[[1111],null]},{"And":[[76],null]},{"Or":[1113]},{"Token":62},{"Token":92},{"And":[[1116],null]},{"Token":89},{"And":[[1118],null]},{"Or":[1117,1119]},{"And":[[1115,1120],null]},{"Or":[1121]},{"And":[[76,1122],null]},{"Or":[1123]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,1125]]]},{"And":[[76,1126],null]},{"Or":[1127]},{"Token":83},{"And":[[76,1129],null]},{"Or":[1130]},{"Token":5},{"And":[[1132,50],null]},{"Or":[1133]},{"And":[[76,1134],null]},{"Or":[1135]},{"And":[[121,76],null]},{"Or":[1137]},{"Token":77},{"Token":87},{"Opt":1140},{"Token":27},{"Opt":1142},{"And":[[1139,1141,1143],null]},{"Token":67},{"And":[[1145,76],null]},{"Or":[1146]},{"Token":75},{"And":[[1148,76],null]},{"Or":[1149]},{"Token":82},{"And":[[1151,76],null]},{"Or":[1152]},{"Token":67},{"And":[[1154],null]},{"Token":69},{"And":[[1156],null]},{"Token":71},{"And":[[1158],null]},{"Or":[1155,1157,1159]},{"And":[[76,1160,76],null]},{"Or":[1161]},{"Token":73},{"And":[[1163],null]},{"Token":75},{"And":[[1165],null]},{"Or":[1164,1166]},{"And":[[76,1167,76],null]},{"Or":[1168]},{"ContextualToken":[45,"<<"]},{"And":[[1170],null]},{"ContextualToken":[47,">>"]},{"And":[[1172],null]},{"Or":[1171,1173]},{"And":[[76,1174,76],null]},{"Or":[1175]},{"ContextualToken":[49,"&&"]},{"Not":1177},{"Token":77},{"And":[[1178,1179],null]},{"Or":[1180]},{"And":[[76,1181,76],null]},{"Or":[1182]},{"Token":84},{"And":[[76,1184,76],null]},{"Or":[1185]},{"ContextualToken":[50,"||"]},{"Not":1187},{"Token":79},{"And":[[1188,1189],null]},{"Or":[1190]},{"And":[[76,1191,76],null]},{"Or":[1192]},{"And":[[76,132,76],null]},{"Or":[1194]},{"Token":54},{"And":[[1196],null]},{"Token":55},{"And":[[1198],null]},{"ContextualToken":[46,"<<="]},{"And":[[1200],null]},{"ContextualToken":[48,">>="]},{"And":[[1202],null]},{"Or":[1201,1203]},{"Not":1204},{"Token":41},{"And":[[1206],null]},{"Token":42},{"And":[[1208],null]},{"Or":[1207,1209]},{"And":[[1205,1210],null]},{"Token":57},{"And":[[1212],null]},{"Token":56},{"And":[[1214],null]},{"ContextualToken":[49,"&&"]},{"And":[[76,1216,76],null]},{"Or":[1217]},{"ContextualToken":[50,"||"]},{"And":[[76,1219,76],null]},{"Or":[1220]},{"And":[[76,140,76],null]},{"Or":[1222]},{"And":[[140,76],null]},{"Or":[1224]},{"And":[[76,139],null]},{"Or":[1226]},{"Token":63},{"Token":39},{"IsIn":0},{"And":[[1229,1230],null]},{"Or":[1231]},{"Not":1232},{"And":[[1233,77],null]},{"Or":[1234]},{"Not":1235},{"And":[[1228,1236],null]},{"Or":[1237]},{"Token":63},{"And":[[1239],null]},{"Token":64},{"And":[[1241],null]},{"Not":77},{"Not":1243},{"Token":39},{"IsIn":0},{"And":[[1245,1246],null]},{"Or":[1247]},{"Not":1248},{"And":[[139,1244,1249],null]},{"Token":53},{"And":[[1251],null]},{"Token":74},{"And":[[1253],null]},{"Token":76},{"And":[[1255],null]},{"Token":68},{"And":[[1257],null]},{"Token":70},{"And":[[1259],null]},{"Token":72},{"And":[[1261],null]},{"Token":78},{"And":[[1263],null]},{"Token":80},{"And":[[1265],null]},{"Token":85},{"And":[[1267],null]},{"ContextualToken":[48,">>="]},{"And":[[1269],null]},{"ContextualToken":[46,"<<="]},{"And":[[1271],null]},{"Or":[1252,1254,1256,1258,1260,1262,1264,1266,1268,1270,1272]},{"And":[[76,1273,76],null]},{"Or":[1274]},{"Token":65},{"And":[[1276,144],null]},{"Or":[1277]},{"Token":65},{"Token":82},{"And":[[1279,1280,144],null]},{"Or":[1281]},{"Call":[150,[[1,146]]]},{"Call":[154,[[5,1283]]]},{"And":[[1284],null]},{"Rep":142},{"And":[[1286],null]},{"Token":92},{"Token":53},{"And":[[1289,76],null]},{"Call":[150,[[1,146]]]},{"Call":[152,[[3,1291]]]},{"And":[[1292],null]},{"Or":[1290,1293]},{"Opt":1294},{"And":[[1288,1295],1]},{"Or":[1296]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1300},{"Rep":149},{"Call":[151,[[2,1302]]]},{"And":[[1298,1299,1301,1303],null]},{"Or":[1304]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1308},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1310,1311,1312],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1314,1315,1316],null]},{"Or":[1313,1317]},{"And":[[1306,1307,1309,1318],null]},{"Or":[1319]},{"Token":37},{"And":[[1321],null]},{"Token":38},{"And":[[1323],null]},{"Token":39},{"And":[[1325],null]},{"Token":40},{"And":[[1327],null]},{"Token":43},{"And":[[1329],null]},{"Token":44},{"And":[[1331],null]},{"Or":[1322,1324,1326,1328,1330,1332]},{"Not":1333},"Any",{"And":[[1334,1335],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1337,1338,1339],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1341,1342,1343],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1345,1346,1347],null]},{"Or":[1336,1340,1344,1348]},{"Var":1},"Eof",{"And":[[1351],null]},{"Token":61},{"And":[[1353],null]},{"Or":[1352,1354]},{"And":[[1350,1355],1]},{"Or":[1356]},{"Rep":1357},{"And":[[1358],null]},{"Token":39},{"Token":40},{"Var":2},{"Call":[155,[[6,1360],[7,1361],[8,1362]]]},{"And":[[1363],null]},{"Token":37},{"Token":38},{"Var":3},{"Call":[155,[[6,1365],[7,1366],[8,1367]]]},{"And":[[1368],null]},{"Token":41},{"Token":42},{"Var":4},{"Call":[155,[[6,1370],[7,1371],[8,1372]]]},{"And":[[1373],null]},{"Token":43},{"Token":44},{"Var":5},{"Call":[155,[[6,1375],[7,1376],[8,1377]]]},{"And":[[1378],null]},{"Var":6},{"Var":6},{"Var":7},{"Call":[156,[[9,1381],[10,1382]]]},{"Var":8},{"Layer":[1383,1384]},{"Var":7},{"And":[[1380,1385,1386],1]},{"Var":9},{"Var":9},{"Var":10},{"Call":[156,[[9,1389],[10,1390]]]},{"Var":10},{"And":[[1388,1391,1392],1]},{"Var":10},{"Not":1394},"Any",{"And":[[1395,1396],null]},{"Or":[1397]},{"And":[[1398],null]},{"Or":[1393,1399]},{"Rep":1400},{"And":[[1401],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":222,"replaceable":false}},{"Pub":{"ty":97,"body":229,"replaceable":false}},{"Pub":{"ty":98,"body":245,"replaceable":false}},{"Or":[247]},{"Pub":{"ty":99,"body":252,"replaceable":false}},{"Or":[258]},{"Pub":{"ty":100,"body":261,"replaceable":false}},{"Pub":{"ty":101,"body":267,"replaceable":false}},{"Pub":{"ty":102,"body":284,"replaceable":false}},{"Pub":{"ty":103,"body":303,"replaceable":false}},{"Pub":{"ty":104,"body":308,"replaceable":false}},{"Pub":{"ty":105,"body":311,"replaceable":false}},{"Pub":{"ty":106,"body":318,"replaceable":false}},{"Pub":{"ty":107,"body":331,"replaceable":false}},{"Pub":{"ty":108,"body":340,"replaceable":false}},{"Pub":{"ty":109,"body":353,"replaceable":false}},{"Pub":{"ty":110,"body":361,"replaceable":false}},{"Pub":{"ty":111,"body":373,"replaceable":false}},{"Or":[374,375,376,377]},{"Or":[379,381,383,385,387,389,391,393,398]},{"Pub":{"ty":112,"body":408,"replaceable":false}},{"Pub":{"ty":113,"body":422,"replaceable":false}},{"Pub":{"ty":114,"body":426,"replaceable":false}},{"Pub":{"ty":115,"body":430,"replaceable":false}},{"Or":[438]},{"Pub":{"ty":116,"body":445,"replaceable":false}},{"Pub":{"ty":117,"body":449,"replaceable":false}},{"Or":[469]},{"Pub":{"ty":118,"body":474,"replaceable":false}},{"Pub":{"ty":119,"body":494,"replaceable":false}},{"Pub":{"ty":120,"body":504,"replaceable":false}},{"Pub":{"ty":121,"body":519,"replaceable":false}},{"Or":[520]},{"Or":[522]},{"Or":[524]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":527,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":531,"replaceable":false}},{"Pub":{"ty":122,"body":536,"replaceable":false}},{"Pub":{"ty":123,"body":543,"replaceable":false}},{"Pub":{"ty":124,"body":557,"replaceable":false}},{"Pub":{"ty":125,"body":583,"replaceable":false}},{"Pub":{"ty":126,"body":588,"replaceable":false}},{"Pub":{"ty":127,"body":592,"replaceable":false}},{"Pub":{"ty":128,"body":598,"replaceable":false}},{"Pub":{"ty":128,"body":600,"replaceable":false}},{"Or":[601,602,603,604,605,606,607,608,609,610]},{"Pub":{"ty":129,"body":612,"replaceable":false}},{"Pub":{"ty":130,"body":614,"replaceable":false}},{"Pub":{"ty":131,"body":622,"replaceable":false}},{"Pub":{"ty":132,"body":625,"replaceable":false}},{"Pub":{"ty":133,"body":629,"replaceable":false}},{"Pub":{"ty":134,"body":635,"replaceable":true}},{"PubReplace":{"ty":135,"body":639}},{"Pub":{"ty":136,"body":642,"replaceable":false}},{"Pub":{"ty":137,"body":653,"replaceable":false}},{"Pub":{"ty":138,"body":660,"replaceable":false}},{"Pub":{"ty":100,"body":666,"replaceable":false}},{"Pub":{"ty":139,"body":669,"replaceable":false}},{"Or":[670,671,672,673,674,675,676]},{"Pub":{"ty":140,"body":679,"replaceable":false}},{"Pub":{"ty":141,"body":685,"replaceable":true}},{"PubReplace":{"ty":142,"body":697}},{"PubReplace":{"ty":143,"body":709}},{"Pub":{"ty":144,"body":716,"replaceable":false}},{"Pub":{"ty":145,"body":723,"replaceable":false}},{"Pub":{"ty":146,"body":725,"replaceable":false}},{"Pub":{"ty":147,"body":729,"replaceable":false}},{"Pub":{"ty":148,"body":735,"replaceable":true}},{"PubReplace":{"ty":149,"body":739}},{"Pub":{"ty":150,"body":744,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,138],"prefixes":[{"ty":184,"op":769,"priority":999},{"ty":185,"op":770,"priority":999},{"ty":186,"op":771,"priority":999},{"ty":187,"op":772,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":750,"priority":999,"has_rhs":false},{"ty":178,"op":114,"priority":999,"has_rhs":false},{"ty":180,"op":758,"priority":999,"has_rhs":false},{"ty":181,"op":760,"priority":999,"has_rhs":false},{"ty":182,"op":761,"priority":999,"has_rhs":false},{"ty":183,"op":764,"priority":12,"has_rhs":false},{"ty":188,"op":779,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":789,"priority":9,"has_rhs":true},{"ty":191,"op":794,"priority":8,"has_rhs":true},{"ty":192,"op":795,"priority":7,"has_rhs":true},{"ty":193,"op":800,"priority":6,"has_rhs":true},{"ty":194,"op":132,"priority":5,"has_rhs":true},{"ty":195,"op":801,"priority":4,"has_rhs":true},{"ty":196,"op":802,"priority":3,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":825,"priority":1,"has_rhs":true}]}},{"Or":[826,828,830,832,834,836,838,840,842,844,846,848,850,852,854,856,858,860,862,864,866,868,870,872,874,876]},{"Or":[891]},{"Or":[894]},{"Pub":{"ty":152,"body":905,"replaceable":false}},{"Pub":{"ty":153,"body":913,"replaceable":true}},{"PubReplace":{"ty":154,"body":926}},{"Pub":{"ty":155,"body":933,"replaceable":false}},{"Pub":{"ty":156,"body":937,"replaceable":false}},{"Pub":{"ty":157,"body":944,"replaceable":true}},{"PubReplace":{"ty":158,"body":949}},{"Pub":{"ty":159,"body":962,"replaceable":false}},{"Pub":{"ty":160,"body":973,"replaceable":false}},{"Or":[981]},{"Pub":{"ty":161,"body":985,"replaceable":false}},{"Pub":{"ty":162,"body":994,"replaceable":false}},{"Pub":{"ty":163,"body":1004,"replaceable":false}},{"Or":[1005,1006,1007,1008]},{"Or":[1010,1012,1013,1014]},{"Pub":{"ty":164,"body":1023,"replaceable":false}},{"Pub":{"ty":165,"body":1026,"replaceable":false}},{"Pub":{"ty":166,"body":1029,"replaceable":false}},{"Pub":{"ty":167,"body":1037,"replaceable":false}},{"Pub":{"ty":168,"body":1047,"replaceable":false}},{"Pub":{"ty":169,"body":1051,"replaceable":false}},{"Or":[1057]},{"Or":[1059]},{"Pub":{"ty":170,"body":1063,"replaceable":false}},{"Pub":{"ty":171,"body":1068,"replaceable":false}},{"Or":[1071]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1090,"replaceable":false}},{"Or":[1096]},{"Pub":{"ty":174,"body":1099,"replaceable":false}},{"Pub":{"ty":175,"body":1101,"replaceable":false}},{"Pub":{"ty":176,"body":1103,"replaceable":false}},{"Pub":{"ty":177,"body":1111,"replaceable":false}},{"Pub":{"ty":178,"body":1113,"replaceable":false}},{"Or":[1117]},{"Pub":{"ty":179,"body":1119,"replaceable":false}},{"Pub":{"ty":180,"body":1129,"replaceable":false}},{"Pub":{"ty":181,"body":1133,"replaceable":false}},{"Pub":{"ty":182,"body":1136,"replaceable":false}},{"Pub":{"ty":183,"body":1141,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1172,"replaceable":false}},{"Pub":{"ty":189,"body":1179,"replaceable":false}},{"Pub":{"ty":190,"body":1186,"replaceable":false}},{"Pub":{"ty":191,"body":1193,"replaceable":false}},{"Pub":{"ty":192,"body":1196,"replaceable":false}},{"Pub":{"ty":193,"body":1203,"replaceable":false}},{"Pub":{"ty":194,"body":1205,"replaceable":false}},{"Or":[1207,1209,1221,1223,1225]},{"Pub":{"ty":195,"body":1228,"replaceable":false}},{"Pub":{"ty":196,"body":1231,"replaceable":false}},{"Pub":{"ty":197,"body":1233,"replaceable":false}},{"Pub":{"ty":197,"body":1235,"replaceable":false}},{"Pub":{"ty":197,"body":1237,"replaceable":false}},{"Pub":{"ty":197,"body":1248,"replaceable":false}},{"Or":[1250,1252]},{"Or":[1260]},{"Pub":{"ty":198,"body":1285,"replaceable":false}},{"Pub":{"ty":199,"body":1288,"replaceable":false}},{"Pub":{"ty":200,"body":1292,"replaceable":false}},{"Or":[1295]},{"Or":[1297]},{"Pub":{"ty":201,"body":1307,"replaceable":false}},{"Pub":{"ty":202,"body":1315,"replaceable":false}},{"Pub":{"ty":203,"body":1330,"replaceable":false}},{"Pub":{"ty":204,"body":1359,"replaceable":false}},{"Or":[1369]},{"Or":[1374]},{"Or":[1379]},{"Or":[1384]},{"Or":[1389]},{"Or":[1397]},{"Or":[1412]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[1,6]]]},{"Call":[151,[[2,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"Opt":48},{"And":[[216,217],null]},{"Token":92},{"Opt":48},{"And":[[219,220],1]},{"Or":[218,221]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[223,224,225,226,227],2]},{"Or":[228]},{"Token":21},{"Opt":230},{"Token":35},{"Opt":232},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[241],null]},{"Or":[240,242]},{"And":[[231,233,234,235,236,237,11,238,239,243],4]},{"Or":[244]},{"Token":51},{"And":[[246,49],null]},{"Token":7},{"Token":90},{"Opt":249},{"And":[[248,250],null]},{"Or":[251]},{"Opt":14},{"Call":[150,[[1,12]]]},{"And":[[253,254],null]},{"Or":[255]},{"Call":[152,[[3,256]]]},{"And":[[257],null]},{"Token":59},{"And":[[64,259,49],1]},{"Or":[260]},{"Token":59},{"And":[[262,49],null]},{"Or":[263]},{"Opt":264},{"And":[[64,265],null]},{"Or":[266]},{"And":[[121],null]},{"Token":27},{"And":[[269],null]},{"Or":[268,270]},{"Opt":271},{"Token":18},{"Token":59},{"And":[[274,49],null]},{"Or":[275]},{"Opt":276},{"Token":61},{"And":[[278],null]},"Eof",{"And":[[280],null]},{"Or":[279,281]},{"And":[[272,273,277,282],2]},{"Or":[283]},{"Token":11},{"And":[[285],null]},{"ContextualToken":[4,"union"]},{"And":[[287],null]},{"Or":[286,288]},{"Token":92},{"Opt":31},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,292]]]},{"And":[[293],null]},{"Token":58},{"And":[[295],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,297]]]},{"Token":58},{"And":[[298,299],null]},{"Or":[294,296,300]},{"And":[[289,290,291,301],1]},{"Or":[302]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[304,305,306,49],2]},{"Or":[307]},{"Opt":36},{"And":[[309,49],null]},{"Or":[310]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[1,19]]]},{"Call":[151,[[2,315]]]},{"And":[[312,313,314,316],1]},{"Or":[317]},{"Token":92},{"Token":53},{"And":[[320,76],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,322]]]},{"And":[[323],null]},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,325]]]},{"And":[[326],null]},{"Or":[321,324,327]},{"Opt":328},{"And":[[319,329],1]},{"Or":[330]},{"Token":13},{"Token":92},{"Token":58},{"And":[[334],null]},{"Call":[151,[[2,1]]]},{"And":[[336],null]},{"Or":[335,337]},{"And":[[332,333,338],1]},{"Or":[339]},{"Token":35},{"Opt":341},{"Token":17},{"Opt":31},{"Token":23},{"And":[[345,49],null]},{"Or":[346]},{"Opt":347},{"And":[[49,348],null]},{"Or":[349]},{"Opt":37},{"And":[[342,343,344,350,351,23],2]},{"Or":[352]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,354,355,356,357,358,359,23],3]},{"Or":[360]},{"Opt":36},{"And":[[145,362],null]},{"Or":[363]},{"Inject":[364,24]},{"And":[[365],null]},{"And":[[28],null]},{"Or":[366,367]},{"WithSkip":[25,368]},{"Rep":369},{"Call":[151,[[2,370]]]},{"And":[[371],null]},{"Or":[372]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[378],null]},{"Token":8},{"And":[[380],null]},{"Token":20},{"And":[[382],null]},{"Token":21},{"And":[[384],null]},{"Token":22},{"And":[[386],null]},{"Token":35},{"And":[[388],null]},{"Token":65},{"And":[[390],null]},{"Token":7},{"And":[[392],null]},{"Token":92},{"Token":82},{"And":[[394,395],null]},{"Or":[396]},{"And":[[397],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[402,49],null]},{"Or":[403]},{"Opt":404},{"Token":58},{"And":[[399,400,401,405,406],1]},{"Or":[407]},{"Token":21},{"And":[[409],null]},{"Token":22},{"And":[[411],null]},{"Or":[410,412]},{"Token":92},{"Token":59},{"Token":53},{"And":[[416,76],null]},{"Or":[417]},{"Opt":418},{"Token":58},{"And":[[413,414,415,49,419,420],1]},{"Or":[421]},{"And":[[147],null]},{"Token":58},{"And":[[148,424],null]},{"Or":[423,425]},{"Rep":30},{"Call":[151,[[2,427]]]},{"And":[[10,428],null]},{"Or":[429]},{"Opt":36},{"And":[[145,431],null]},{"Or":[432]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[434,435]},{"Inject":[433,436]},{"And":[[437],null]},{"Call":[150,[[1,35]]]},{"Call":[150,[[1,32]]]},{"And":[[439,440],null]},{"Or":[441]},{"Call":[153,[[4,442]]]},{"And":[[443],null]},{"Or":[444]},{"Token":92},{"Opt":33},{"And":[[446,447],1]},{"Or":[448]},{"Token":59},{"Token":73},{"And":[[451],null]},"Eof",{"And":[[453],null]},{"Token":61},{"And":[[455],null]},{"Token":39},{"And":[[457],null]},{"Token":36},{"And":[[459],null]},{"Or":[456,458,460]},{"Not":461},{"Not":462},{"And":[[463],null]},{"Or":[452,454,464]},{"And":[[34,465],1]},{"Or":[466]},{"Rep":467},{"And":[[450,468],null]},{"Token":87},{"And":[[470],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[471,472,473]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[478],null]},"Eof",{"And":[[480],null]},{"Token":61},{"Not":482},{"Not":483},{"And":[[484],null]},{"Or":[479,481,485]},{"And":[[477,486],1]},{"Or":[487]},{"Rep":488},{"And":[[476,489],null]},{"Or":[490]},{"Opt":491},{"And":[[475,492],1]},{"Or":[493]},{"Token":10},{"Token":6},{"And":[[496],null]},{"Token":19},{"And":[[498],null]},{"Or":[497,499]},{"Call":[152,[[3,500]]]},{"Opt":501},{"And":[[495,502],null]},{"Or":[503]},{"Token":36},{"Token":61},{"And":[[506],null]},"Eof",{"And":[[508],null]},{"Token":39},{"Not":510},{"Not":511},{"And":[[512],null]},{"Or":[507,509,513]},{"And":[[49,33,514],null]},{"Or":[515]},{"Rep":516},{"And":[[505,517],1]},{"Or":[518]},{"And":[[41],null]},{"Enter":[2,41]},{"And":[[521],null]},{"Enter":[1,41]},{"And":[[523],null]},{"Token":60},{"And":[[525,45],null]},{"Or":[526]},{"Token":60},{"Opt":528},{"And":[[529,45],null]},{"Or":[530]},{"Token":60},{"And":[[532,45],null]},{"Or":[533]},{"And":[[41,534],null]},{"Or":[535]},{"Token":5},{"And":[[49,537,49],null]},{"Or":[538]},{"Call":[153,[[4,539]]]},{"Token":60},{"And":[[540,541,45],null]},{"Or":[542]},{"Token":92},{"And":[[544],null]},{"Token":18},{"And":[[546],null]},{"Token":19},{"And":[[548],null]},{"Or":[545,547,549]},{"And":[[46],null]},{"IsIn":2},{"And":[[552,47],null]},{"Or":[551,553]},{"Opt":554},{"And":[[550,555],null]},{"Or":[556]},{"IsIn":2},{"And":[[558],null]},{"IsIn":1},{"Token":60},{"And":[[560,561],null]},{"Or":[559,562]},{"Token":87},{"Call":[150,[[1,564]]]},{"Token":92},{"Token":53},{"And":[[566,567],null]},{"Or":[568]},{"Not":569},{"And":[[570,49],null]},{"Or":[571]},{"Call":[150,[[1,572]]]},{"Token":92},{"Token":53},{"And":[[574,575,49],null]},{"Or":[576]},{"Call":[150,[[1,577]]]},{"And":[[565,573,578],null]},{"Or":[579]},{"Call":[153,[[4,580]]]},{"And":[[563,581],null]},{"Or":[582]},{"Call":[150,[[1,49]]]},{"Call":[152,[[3,584]]]},{"Opt":9},{"And":[[585,586],null]},{"Or":[587]},{"Token":5},{"Token":92},{"And":[[589,590],null]},{"Or":[591]},{"Token":73},{"And":[[593,34],null]},{"Or":[594]},{"Rep":595},{"And":[[51,596],null]},{"Or":[597]},{"And":[[51],null]},{"Or":[599]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[611]},{"And":[[121,49],null]},{"Or":[613]},{"Token":67},{"Token":21},{"And":[[616],null]},{"Token":27},{"And":[[618],null]},{"Or":[617,619]},{"And":[[615,620,49],null]},{"Or":[621]},{"Token":81},{"And":[[623],null]},{"Or":[624]},{"Token":37},{"Token":38},{"And":[[626,627],null]},{"Or":[628]},{"Opt":58},{"And":[[49,630],null]},{"Or":[631]},{"Call":[152,[[3,632]]]},{"And":[[633],null]},{"Or":[634]},{"Token":61},{"Call":[150,[[1,49]]]},{"And":[[636,637],null]},{"Or":[638]},{"Token":82},{"And":[[640],null]},{"Or":[641]},{"Token":58},{"Call":[79,[[0,76]]]},{"Exit":[2,644]},{"And":[[643,645],null]},{"Or":[646]},{"Opt":647},{"And":[[49,648],null]},{"Or":[649]},{"Call":[154,[[5,650]]]},{"And":[[651],null]},{"Or":[652]},{"Opt":10},{"Token":8},{"Call":[150,[[1,62]]]},{"Call":[152,[[3,656]]]},{"Opt":9},{"And":[[654,655,657,658],2]},{"Or":[659]},{"Token":59},{"And":[[64,661],null]},{"Or":[662]},{"Opt":663},{"And":[[664,49],null]},{"Or":[665]},{"Token":23},{"And":[[667,31,49],1]},{"Or":[668]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[677],null]},{"Or":[678]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[680,681]},{"Opt":682},{"And":[[40,683],null]},{"Or":[684]},{"Call":[150,[[1,64]]]},{"Token":63},{"Token":61},{"Opt":688},{"And":[[687,689],null]},{"Or":[690]},{"Opt":691},{"And":[[686,692],null]},{"Or":[693]},{"Call":[152,[[3,694]]]},{"And":[[695],null]},{"Or":[696]},{"Call":[150,[[1,69]]]},{"Token":63},{"Token":61},{"Opt":700},{"And":[[699,701],null]},{"Or":[702]},{"Opt":703},{"And":[[698,704],null]},{"Or":[705]},{"Call":[151,[[2,706]]]},{"And":[[707],null]},{"Or":[708]},{"Token":59},{"Not":710},{"And":[[70,711],null]},{"Token":92},{"Token":59},{"And":[[713,714,64],2]},{"Or":[712,715]},{"Token":28},{"Opt":717},{"Token":27},{"Opt":719},{"Token":92},{"And":[[718,720,721],null]},{"Or":[722]},{"And":[[80],null]},{"Or":[724]},{"Token":37},{"Token":38},{"And":[[726,727],null]},{"Or":[728]},{"Opt":74},{"And":[[64,730],null]},{"Or":[731]},{"Call":[152,[[3,732]]]},{"And":[[733],null]},{"Or":[734]},{"Token":61},{"Call":[150,[[1,64]]]},{"And":[[736,737],null]},{"Or":[738]},{"Token":77},{"Token":27},{"Opt":741},{"And":[[740,742,64],null]},{"Or":[743]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":747},{"And":[[745,746,748,114],null]},{"Or":[749]},{"Token":62},{"Token":92},{"And":[[752],null]},{"Token":89},{"And":[[754],null]},{"Or":[753,755]},{"And":[[751,756],null]},{"Or":[757]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,759]]]},{"Token":83},{"Token":5},{"And":[[762,50],null]},{"Or":[763]},{"Token":77},{"Token":27},{"Opt":766},{"And":[[765,767],null]},{"Or":[768]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[773],null]},{"Token":69},{"And":[[775],null]},{"Token":71},{"And":[[777],null]},{"Or":[774,776,778]},{"Token":73},{"And":[[780],null]},{"Token":75},{"And":[[782],null]},{"Or":[781,783]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"ContextualToken":[49,"&&"]},{"Not":790},{"Token":77},{"And":[[791,792],null]},{"Or":[793]},{"Token":84},{"ContextualToken":[50,"||"]},{"Not":796},{"Token":79},{"And":[[797,798],null]},{"Or":[799]},{"ContextualToken":[49,"&&"]},{"ContextualToken":[50,"||"]},{"Token":53},{"And":[[803],null]},{"Token":74},{"And":[[805],null]},{"Token":76},{"And":[[807],null]},{"Token":68},{"And":[[809],null]},{"Token":70},{"And":[[811],null]},{"Token":72},{"And":[[813],null]},{"Token":78},{"And":[[815],null]},{"Token":80},{"And":[[817],null]},{"Token":85},{"And":[[819],null]},{"ContextualToken":[48,">>="]},{"And":[[821],null]},{"ContextualToken":[46,"<<="]},{"And":[[823],null]},{"Or":[804,806,808,810,812,814,816,818,820,822,824]},{"And":[[80],null]},{"Token":92},{"And":[[827],null]},{"Token":87},{"And":[[829],null]},{"Token":18},{"And":[[831],null]},{"Token":19},{"And":[[833],null]},{"Token":41},{"And":[[835],null]},{"Token":60},{"And":[[837],null]},{"Token":37},{"And":[[839],null]},{"Token":43},{"And":[[841],null]},{"Token":79},{"And":[[843],null]},{"Token":31},{"And":[[845],null]},{"Token":39},{"And":[[847],null]},{"Token":14},{"And":[[849],null]},{"Token":25},{"And":[[851],null]},{"Token":24},{"And":[[853],null]},{"Token":23},{"And":[[855],null]},{"Token":30},{"And":[[857],null]},{"Token":26},{"And":[[859],null]},{"Token":32},{"And":[[861],null]},{"Token":33},{"And":[[863],null]},{"Token":77},{"And":[[865],null]},{"Token":67},{"And":[[867],null]},{"Token":75},{"And":[[869],null]},{"Token":82},{"And":[[871],null]},{"Token":63},{"And":[[873],null]},{"Token":64},{"And":[[875],null]},{"And":[[92],null]},{"And":[[99],null]},{"And":[[100],null]},{"And":[[103],null]},{"And":[[104],null]},{"And":[[106],null]},{"And":[[110],null]},{"Or":[877,878,879,880,881,882,883]},{"Token":62},{"And":[[885],null]},{"Token":83},{"And":[[887],null]},{"Or":[886,888]},{"Not":889},{"And":[[884,890],null]},{"Var":0},{"Exit":[0,892]},{"And":[[893],null]},{"Token":89},{"And":[[895],null]},{"Token":90},{"And":[[897],null]},{"Token":91},{"And":[[899],null]},{"Token":86},{"And":[[901],null]},{"Token":88},{"And":[[903],null]},{"Or":[896,898,900,902,904]},{"Token":92},{"Token":82},{"And":[[906,907],null]},{"Or":[908]},{"Not":909},{"Opt":82},{"And":[[910,40,911],null]},{"Or":[912]},{"IsIn":0},{"Not":914},{"Call":[150,[[1,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[917,918],null]},{"Or":[919]},{"Opt":920},{"And":[[916,921],null]},{"Or":[922]},{"Call":[151,[[2,923]]]},{"And":[[915,924],null]},{"Or":[925]},{"Token":92},{"Token":59},{"And":[[928,76],null]},{"Or":[929]},{"Opt":930},{"And":[[927,931],1]},{"Or":[932]},{"Token":37},{"Token":38},{"And":[[934,935],null]},{"Or":[936]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[938,939],null]},{"Or":[940]},{"Call":[152,[[3,941]]]},{"And":[[942],null]},{"Or":[943]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[150,[[1,946]]]},{"And":[[945,947],null]},{"Or":[948]},{"Token":58},{"And":[[950,76],null]},{"Token":61},{"Call":[150,[[1,76]]]},{"And":[[952,953],null]},{"Or":[951,954]},{"Opt":955},{"And":[[76,956],null]},{"Or":[957]},{"Call":[79,[[0,958]]]},{"Call":[154,[[5,959]]]},{"And":[[960],null]},{"Or":[961]},{"Token":26},{"Opt":963},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[968,49,92],null]},{"And":[[76],null]},{"Or":[969,970]},{"And":[[964,965,966,967,971],null]},{"Or":[972]},{"Token":61},{"And":[[974],null]},{"Token":79},{"Not":976},{"Not":977},{"And":[[978],null]},{"Or":[975,979]},{"And":[[13,980],1]},{"Token":31},{"Opt":76},{"And":[[982,983],null]},{"Or":[984]},{"Token":33},{"And":[[986],null]},{"Token":32},{"And":[[988],null]},{"Or":[987,989]},{"Token":87},{"Opt":991},{"And":[[990,992],null]},{"Or":[993]},{"Token":35},{"Opt":995},{"WithSkip":[94,93]},{"Rep":997},{"Call":[151,[[2,998]]]},{"And":[[996,999],null]},{"Or":[1000]},{"Call":[79,[[0,1001]]]},{"And":[[1002],null]},{"Or":[1003]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1009],null]},{"Token":58},{"And":[[1011],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1017,76],1]},{"Or":[1018]},{"Opt":1019},{"Token":58},{"And":[[1015,64,1016,1020,1021],1]},{"Or":[1022]},{"Token":59},{"And":[[1024,49],null]},{"Or":[1025]},{"Token":58},{"And":[[1027],null]},{"Or":[1028]},{"And":[[78],null]},"Eof",{"And":[[1031],null]},{"Token":58},{"And":[[1033],null]},{"Or":[1032,1034]},{"And":[[76,1035],1]},{"Or":[1030,1036]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1040,1041]},{"And":[[1039,1042],null]},{"Or":[1043]},{"Opt":1044},{"And":[[1038,101,92,1045],1]},{"Or":[1046]},{"Opt":105},{"Token":25},{"And":[[1048,1049,101,92],2]},{"Or":[1050]},{"Token":9},{"Token":53},{"And":[[1052,64,1053],1]},{"Or":[1054]},{"Opt":1055},{"And":[[1056,102],1]},{"Enter":[0,76]},{"And":[[1058],null]},{"Opt":105},{"Token":24},{"And":[[1060,1061,92],2]},{"Or":[1062]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1064,1065,64,1066,102,92],2]},{"Or":[1067]},{"Token":87},{"Token":59},{"And":[[1069,1070],null]},{"Token":30},{"Rep":107},{"Call":[79,[[0,1073]]]},{"Call":[151,[[2,1074]]]},{"And":[[1072,102,1075],1]},{"Or":[1076]},{"Token":52},{"Token":61},{"Opt":1079},{"And":[[78,1080],null]},{"Token":61},{"And":[[1082],null]},"Eof",{"And":[[1084],null]},{"Or":[1083,1085]},{"And":[[76,1086],null]},{"Or":[1081,1087]},{"And":[[108,1078,1088],1]},{"Or":[1089]},{"Token":79},{"And":[[1091,64],null]},{"Or":[1092]},{"Rep":1093},{"Opt":109},{"And":[[64,1094,1095],null]},{"Token":14},{"And":[[1097,76],null]},{"Or":[1098]},{"And":[[147],null]},{"Or":[1100]},{"And":[[148],null]},{"Or":[1102]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1106},{"And":[[1104,1105,1107,114],null]},{"Or":[1108]},{"And":[[76,1109],null]},{"Or":[1110]},{"And":[[76,114],null]},{"Or":[1112]},{"Call":[150,[[1,115]]]},{"Call":[152,[[3,1114]]]},{"Call":[79,[[0,1115]]]},{"And":[[1116],null]},{"And":[[76],null]},{"Or":[1118]},{"Token":62},{"Token":92},{"And":[[1121],null]},{"Token":89},{"And":[[1123],null]},{"Or":[1122,1124]},{"And":[[1120,1125],null]},{"Or":[1126]},{"And":[[76,1127],null]},{"Or":[1128]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,1130]]]},{"And":[[76,1131],null]},{"Or":[1132]},{"Token":83},{"And":[[76,1134],null]},{"Or":[1135]},{"Token":5},{"And":[[1137,50],null]},{"Or":[1138]},{"And":[[76,1139],null]},{"Or":[1140]},{"Token":77},{"Token":27},{"Opt":1143},{"And":[[1142,1144],null]},{"Or":[1145]},{"And":[[1146,76],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,76],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,76],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,76],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"And":[[76,1170,76],null]},{"Or":[1171]},{"Token":73},{"And":[[1173],null]},{"Token":75},{"And":[[1175],null]},{"Or":[1174,1176]},{"And":[[76,1177,76],null]},{"Or":[1178]},{"ContextualToken":[45,"<<"]},{"And":[[1180],null]},{"ContextualToken":[47,">>"]},{"And":[[1182],null]},{"Or":[1181,1183]},{"And":[[76,1184,76],null]},{"Or":[1185]},{"ContextualToken":[49,"&&"]},{"Not":1187},{"Token":77},{"And":[[1188,1189],null]},{"Or":[1190]},{"And":[[76,1191,76],null]},{"Or":[1192]},{"Token":84},{"And":[[76,1194,76],null]},{"Or":[1195]},{"ContextualToken":[50,"||"]},{"Not":1197},{"Token":79},{"And":[[1198,1199],null]},{"Or":[1200]},{"And":[[76,1201,76],null]},{"Or":[1202]},{"And":[[76,132,76],null]},{"Or":[1204]},{"Token":54},{"And":[[1206],null]},{"Token":55},{"And":[[1208],null]},{"ContextualToken":[46,"<<="]},{"And":[[1210],null]},{"ContextualToken":[48,">>="]},{"And":[[1212],null]},{"Or":[1211,1213]},{"Not":1214},{"Token":41},{"And":[[1216],null]},{"Token":42},{"And":[[1218],null]},{"Or":[1217,1219]},{"And":[[1215,1220],null]},{"Token":57},{"And":[[1222],null]},{"Token":56},{"And":[[1224],null]},{"ContextualToken":[49,"&&"]},{"And":[[76,1226,76],null]},{"Or":[1227]},{"ContextualToken":[50,"||"]},{"And":[[76,1229,76],null]},{"Or":[1230]},{"And":[[76,140,76],null]},{"Or":[1232]},{"And":[[140,76],null]},{"Or":[1234]},{"And":[[76,139],null]},{"Or":[1236]},{"Token":63},{"Token":39},{"IsIn":0},{"And":[[1239,1240],null]},{"Or":[1241]},{"Not":1242},{"And":[[1243,77],null]},{"Or":[1244]},{"Not":1245},{"And":[[1238,1246],null]},{"Or":[1247]},{"Token":63},{"And":[[1249],null]},{"Token":64},{"And":[[1251],null]},{"Not":77},{"Not":1253},{"Token":39},{"IsIn":0},{"And":[[1255,1256],null]},{"Or":[1257]},{"Not":1258},{"And":[[139,1254,1259],null]},{"Token":53},{"And":[[1261],null]},{"Token":74},{"And":[[1263],null]},{"Token":76},{"And":[[1265],null]},{"Token":68},{"And":[[1267],null]},{"Token":70},{"And":[[1269],null]},{"Token":72},{"And":[[1271],null]},{"Token":78},{"And":[[1273],null]},{"Token":80},{"And":[[1275],null]},{"Token":85},{"And":[[1277],null]},{"ContextualToken":[48,">>="]},{"And":[[1279],null]},{"ContextualToken":[46,"<<="]},{"And":[[1281],null]},{"Or":[1262,1264,1266,1268,1270,1272,1274,1276,1278,1280,1282]},{"And":[[76,1283,76],null]},{"Or":[1284]},{"Token":65},{"And":[[1286,144],null]},{"Or":[1287]},{"Token":65},{"Token":82},{"And":[[1289,1290,144],null]},{"Or":[1291]},{"Call":[150,[[1,146]]]},{"Call":[154,[[5,1293]]]},{"And":[[1294],null]},{"Rep":142},{"And":[[1296],null]},{"Token":92},{"Token":53},{"And":[[1299,76],null]},{"Call":[150,[[1,146]]]},{"Call":[152,[[3,1301]]]},{"And":[[1302],null]},{"Or":[1300,1303]},{"Opt":1304},{"And":[[1298,1305],1]},{"Or":[1306]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1310},{"Rep":149},{"Call":[151,[[2,1312]]]},{"And":[[1308,1309,1311,1313],null]},{"Or":[1314]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1318},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1320,1321,1322],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1324,1325,1326],null]},{"Or":[1323,1327]},{"And":[[1316,1317,1319,1328],null]},{"Or":[1329]},{"Token":37},{"And":[[1331],null]},{"Token":38},{"And":[[1333],null]},{"Token":39},{"And":[[1335],null]},{"Token":40},{"And":[[1337],null]},{"Token":43},{"And":[[1339],null]},{"Token":44},{"And":[[1341],null]},{"Or":[1332,1334,1336,1338,1340,1342]},{"Not":1343},"Any",{"And":[[1344,1345],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1347,1348,1349],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1351,1352,1353],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1355,1356,1357],null]},{"Or":[1346,1350,1354,1358]},{"Var":1},"Eof",{"And":[[1361],null]},{"Token":61},{"And":[[1363],null]},{"Or":[1362,1364]},{"And":[[1360,1365],1]},{"Or":[1366]},{"Rep":1367},{"And":[[1368],null]},{"Token":39},{"Token":40},{"Var":2},{"Call":[155,[[6,1370],[7,1371],[8,1372]]]},{"And":[[1373],null]},{"Token":37},{"Token":38},{"Var":3},{"Call":[155,[[6,1375],[7,1376],[8,1377]]]},{"And":[[1378],null]},{"Token":41},{"Token":42},{"Var":4},{"Call":[155,[[6,1380],[7,1381],[8,1382]]]},{"And":[[1383],null]},{"Token":43},{"Token":44},{"Var":5},{"Call":[155,[[6,1385],[7,1386],[8,1387]]]},{"And":[[1388],null]},{"Var":6},{"Var":6},{"Var":7},{"Call":[156,[[9,1391],[10,1392]]]},{"Var":8},{"Layer":[1393,1394]},{"Var":7},{"And":[[1390,1395,1396],1]},{"Var":9},{"Var":9},{"Var":10},{"Call":[156,[[9,1399],[10,1400]]]},{"Var":10},{"And":[[1398,1401,1402],1]},{"Var":10},{"Not":1404},"Any",{"And":[[1405,1406],null]},{"Or":[1407]},{"And":[[1408],null]},{"Or":[1403,1409]},{"Rep":1410},{"And":[[1411],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 59d8a3fd553d61fe00ad6ce4a9d71db7902ccbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:54 +0000
Subject: [PATCH 34/36] fix: angle brackets balance around nested brackets

---
 lang/rust/syntax/src/rust.fall | 11 ++++++++++-
 lang/rust/syntax/src/rust.rs   |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index 5b5da2b..711263c 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1202,7 +1202,7 @@ rule comma_list(el) {
 
 rule block(p)     { <balanced_layer '{' '}' p> }
 rule in_parens(p) { <balanced_layer '(' ')' p> }
-rule in_angles(p) { <balanced_layer '<' '>' p> }
+rule in_angles(p) { '<' <commit> <layer balanced_angles p> '>' }
 rule in_bracks(p) { <balanced_layer '[' ']' p> }
 
 rule balanced_layer(bra, ket, contents) {
@@ -1218,6 +1218,15 @@ rule balanced(bra, ket) {
   }*
 }
 
+rule balanced_angles {
+  { '<' <commit> balanced_angles '>'
+  | '(' <balanced '(' ')'> ')'
+  | '[' <balanced '[' ']'> ']'
+  | '{' <balanced '{' '}'> '}'
+  | {<not '>'> <any>}
+  }*
+}
+
 // END HELPERS
 
 ast {
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 9307a22..0c54679 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":222,"replaceable":false}},{"Pub":{"ty":97,"body":229,"replaceable":false}},{"Pub":{"ty":98,"body":245,"replaceable":false}},{"Or":[247]},{"Pub":{"ty":99,"body":252,"replaceable":false}},{"Or":[258]},{"Pub":{"ty":100,"body":261,"replaceable":false}},{"Pub":{"ty":101,"body":267,"replaceable":false}},{"Pub":{"ty":102,"body":284,"replaceable":false}},{"Pub":{"ty":103,"body":303,"replaceable":false}},{"Pub":{"ty":104,"body":308,"replaceable":false}},{"Pub":{"ty":105,"body":311,"replaceable":false}},{"Pub":{"ty":106,"body":318,"replaceable":false}},{"Pub":{"ty":107,"body":331,"replaceable":false}},{"Pub":{"ty":108,"body":340,"replaceable":false}},{"Pub":{"ty":109,"body":353,"replaceable":false}},{"Pub":{"ty":110,"body":361,"replaceable":false}},{"Pub":{"ty":111,"body":373,"replaceable":false}},{"Or":[374,375,376,377]},{"Or":[379,381,383,385,387,389,391,393,398]},{"Pub":{"ty":112,"body":408,"replaceable":false}},{"Pub":{"ty":113,"body":422,"replaceable":false}},{"Pub":{"ty":114,"body":426,"replaceable":false}},{"Pub":{"ty":115,"body":430,"replaceable":false}},{"Or":[438]},{"Pub":{"ty":116,"body":445,"replaceable":false}},{"Pub":{"ty":117,"body":449,"replaceable":false}},{"Or":[469]},{"Pub":{"ty":118,"body":474,"replaceable":false}},{"Pub":{"ty":119,"body":494,"replaceable":false}},{"Pub":{"ty":120,"body":504,"replaceable":false}},{"Pub":{"ty":121,"body":519,"replaceable":false}},{"Or":[520]},{"Or":[522]},{"Or":[524]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":527,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":531,"replaceable":false}},{"Pub":{"ty":122,"body":536,"replaceable":false}},{"Pub":{"ty":123,"body":543,"replaceable":false}},{"Pub":{"ty":124,"body":557,"replaceable":false}},{"Pub":{"ty":125,"body":583,"replaceable":false}},{"Pub":{"ty":126,"body":588,"replaceable":false}},{"Pub":{"ty":127,"body":592,"replaceable":false}},{"Pub":{"ty":128,"body":598,"replaceable":false}},{"Pub":{"ty":128,"body":600,"replaceable":false}},{"Or":[601,602,603,604,605,606,607,608,609,610]},{"Pub":{"ty":129,"body":612,"replaceable":false}},{"Pub":{"ty":130,"body":614,"replaceable":false}},{"Pub":{"ty":131,"body":622,"replaceable":false}},{"Pub":{"ty":132,"body":625,"replaceable":false}},{"Pub":{"ty":133,"body":629,"replaceable":false}},{"Pub":{"ty":134,"body":635,"replaceable":true}},{"PubReplace":{"ty":135,"body":639}},{"Pub":{"ty":136,"body":642,"replaceable":false}},{"Pub":{"ty":137,"body":653,"replaceable":false}},{"Pub":{"ty":138,"body":660,"replaceable":false}},{"Pub":{"ty":100,"body":666,"replaceable":false}},{"Pub":{"ty":139,"body":669,"replaceable":false}},{"Or":[670,671,672,673,674,675,676]},{"Pub":{"ty":140,"body":679,"replaceable":false}},{"Pub":{"ty":141,"body":685,"replaceable":true}},{"PubReplace":{"ty":142,"body":697}},{"PubReplace":{"ty":143,"body":709}},{"Pub":{"ty":144,"body":716,"replaceable":false}},{"Pub":{"ty":145,"body":723,"replaceable":false}},{"Pub":{"ty":146,"body":725,"replaceable":false}},{"Pub":{"ty":147,"body":729,"replaceable":false}},{"Pub":{"ty":148,"body":735,"replaceable":true}},{"PubReplace":{"ty":149,"body":739}},{"Pub":{"ty":150,"body":744,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,138],"prefixes":[{"ty":184,"op":769,"priority":999},{"ty":185,"op":770,"priority":999},{"ty":186,"op":771,"priority":999},{"ty":187,"op":772,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":750,"priority":999,"has_rhs":false},{"ty":178,"op":114,"priority":999,"has_rhs":false},{"ty":180,"op":758,"priority":999,"has_rhs":false},{"ty":181,"op":760,"priority":999,"has_rhs":false},{"ty":182,"op":761,"priority":999,"has_rhs":false},{"ty":183,"op":764,"priority":12,"has_rhs":false},{"ty":188,"op":779,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":789,"priority":9,"has_rhs":true},{"ty":191,"op":794,"priority":8,"has_rhs":true},{"ty":192,"op":795,"priority":7,"has_rhs":true},{"ty":193,"op":800,"priority":6,"has_rhs":true},{"ty":194,"op":132,"priority":5,"has_rhs":true},{"ty":195,"op":801,"priority":4,"has_rhs":true},{"ty":196,"op":802,"priority":3,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":825,"priority":1,"has_rhs":true}]}},{"Or":[826,828,830,832,834,836,838,840,842,844,846,848,850,852,854,856,858,860,862,864,866,868,870,872,874,876]},{"Or":[891]},{"Or":[894]},{"Pub":{"ty":152,"body":905,"replaceable":false}},{"Pub":{"ty":153,"body":913,"replaceable":true}},{"PubReplace":{"ty":154,"body":926}},{"Pub":{"ty":155,"body":933,"replaceable":false}},{"Pub":{"ty":156,"body":937,"replaceable":false}},{"Pub":{"ty":157,"body":944,"replaceable":true}},{"PubReplace":{"ty":158,"body":949}},{"Pub":{"ty":159,"body":962,"replaceable":false}},{"Pub":{"ty":160,"body":973,"replaceable":false}},{"Or":[981]},{"Pub":{"ty":161,"body":985,"replaceable":false}},{"Pub":{"ty":162,"body":994,"replaceable":false}},{"Pub":{"ty":163,"body":1004,"replaceable":false}},{"Or":[1005,1006,1007,1008]},{"Or":[1010,1012,1013,1014]},{"Pub":{"ty":164,"body":1023,"replaceable":false}},{"Pub":{"ty":165,"body":1026,"replaceable":false}},{"Pub":{"ty":166,"body":1029,"replaceable":false}},{"Pub":{"ty":167,"body":1037,"replaceable":false}},{"Pub":{"ty":168,"body":1047,"replaceable":false}},{"Pub":{"ty":169,"body":1051,"replaceable":false}},{"Or":[1057]},{"Or":[1059]},{"Pub":{"ty":170,"body":1063,"replaceable":false}},{"Pub":{"ty":171,"body":1068,"replaceable":false}},{"Or":[1071]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1090,"replaceable":false}},{"Or":[1096]},{"Pub":{"ty":174,"body":1099,"replaceable":false}},{"Pub":{"ty":175,"body":1101,"replaceable":false}},{"Pub":{"ty":176,"body":1103,"replaceable":false}},{"Pub":{"ty":177,"body":1111,"replaceable":false}},{"Pub":{"ty":178,"body":1113,"replaceable":false}},{"Or":[1117]},{"Pub":{"ty":179,"body":1119,"replaceable":false}},{"Pub":{"ty":180,"body":1129,"replaceable":false}},{"Pub":{"ty":181,"body":1133,"replaceable":false}},{"Pub":{"ty":182,"body":1136,"replaceable":false}},{"Pub":{"ty":183,"body":1141,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1172,"replaceable":false}},{"Pub":{"ty":189,"body":1179,"replaceable":false}},{"Pub":{"ty":190,"body":1186,"replaceable":false}},{"Pub":{"ty":191,"body":1193,"replaceable":false}},{"Pub":{"ty":192,"body":1196,"replaceable":false}},{"Pub":{"ty":193,"body":1203,"replaceable":false}},{"Pub":{"ty":194,"body":1205,"replaceable":false}},{"Or":[1207,1209,1221,1223,1225]},{"Pub":{"ty":195,"body":1228,"replaceable":false}},{"Pub":{"ty":196,"body":1231,"replaceable":false}},{"Pub":{"ty":197,"body":1233,"replaceable":false}},{"Pub":{"ty":197,"body":1235,"replaceable":false}},{"Pub":{"ty":197,"body":1237,"replaceable":false}},{"Pub":{"ty":197,"body":1248,"replaceable":false}},{"Or":[1250,1252]},{"Or":[1260]},{"Pub":{"ty":198,"body":1285,"replaceable":false}},{"Pub":{"ty":199,"body":1288,"replaceable":false}},{"Pub":{"ty":200,"body":1292,"replaceable":false}},{"Or":[1295]},{"Or":[1297]},{"Pub":{"ty":201,"body":1307,"replaceable":false}},{"Pub":{"ty":202,"body":1315,"replaceable":false}},{"Pub":{"ty":203,"body":1330,"replaceable":false}},{"Pub":{"ty":204,"body":1359,"replaceable":false}},{"Or":[1369]},{"Or":[1374]},{"Or":[1379]},{"Or":[1384]},{"Or":[1389]},{"Or":[1397]},{"Or":[1412]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[1,6]]]},{"Call":[151,[[2,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"Opt":48},{"And":[[216,217],null]},{"Token":92},{"Opt":48},{"And":[[219,220],1]},{"Or":[218,221]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[223,224,225,226,227],2]},{"Or":[228]},{"Token":21},{"Opt":230},{"Token":35},{"Opt":232},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[241],null]},{"Or":[240,242]},{"And":[[231,233,234,235,236,237,11,238,239,243],4]},{"Or":[244]},{"Token":51},{"And":[[246,49],null]},{"Token":7},{"Token":90},{"Opt":249},{"And":[[248,250],null]},{"Or":[251]},{"Opt":14},{"Call":[150,[[1,12]]]},{"And":[[253,254],null]},{"Or":[255]},{"Call":[152,[[3,256]]]},{"And":[[257],null]},{"Token":59},{"And":[[64,259,49],1]},{"Or":[260]},{"Token":59},{"And":[[262,49],null]},{"Or":[263]},{"Opt":264},{"And":[[64,265],null]},{"Or":[266]},{"And":[[121],null]},{"Token":27},{"And":[[269],null]},{"Or":[268,270]},{"Opt":271},{"Token":18},{"Token":59},{"And":[[274,49],null]},{"Or":[275]},{"Opt":276},{"Token":61},{"And":[[278],null]},"Eof",{"And":[[280],null]},{"Or":[279,281]},{"And":[[272,273,277,282],2]},{"Or":[283]},{"Token":11},{"And":[[285],null]},{"ContextualToken":[4,"union"]},{"And":[[287],null]},{"Or":[286,288]},{"Token":92},{"Opt":31},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,292]]]},{"And":[[293],null]},{"Token":58},{"And":[[295],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,297]]]},{"Token":58},{"And":[[298,299],null]},{"Or":[294,296,300]},{"And":[[289,290,291,301],1]},{"Or":[302]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[304,305,306,49],2]},{"Or":[307]},{"Opt":36},{"And":[[309,49],null]},{"Or":[310]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[1,19]]]},{"Call":[151,[[2,315]]]},{"And":[[312,313,314,316],1]},{"Or":[317]},{"Token":92},{"Token":53},{"And":[[320,76],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,322]]]},{"And":[[323],null]},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,325]]]},{"And":[[326],null]},{"Or":[321,324,327]},{"Opt":328},{"And":[[319,329],1]},{"Or":[330]},{"Token":13},{"Token":92},{"Token":58},{"And":[[334],null]},{"Call":[151,[[2,1]]]},{"And":[[336],null]},{"Or":[335,337]},{"And":[[332,333,338],1]},{"Or":[339]},{"Token":35},{"Opt":341},{"Token":17},{"Opt":31},{"Token":23},{"And":[[345,49],null]},{"Or":[346]},{"Opt":347},{"And":[[49,348],null]},{"Or":[349]},{"Opt":37},{"And":[[342,343,344,350,351,23],2]},{"Or":[352]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,354,355,356,357,358,359,23],3]},{"Or":[360]},{"Opt":36},{"And":[[145,362],null]},{"Or":[363]},{"Inject":[364,24]},{"And":[[365],null]},{"And":[[28],null]},{"Or":[366,367]},{"WithSkip":[25,368]},{"Rep":369},{"Call":[151,[[2,370]]]},{"And":[[371],null]},{"Or":[372]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[378],null]},{"Token":8},{"And":[[380],null]},{"Token":20},{"And":[[382],null]},{"Token":21},{"And":[[384],null]},{"Token":22},{"And":[[386],null]},{"Token":35},{"And":[[388],null]},{"Token":65},{"And":[[390],null]},{"Token":7},{"And":[[392],null]},{"Token":92},{"Token":82},{"And":[[394,395],null]},{"Or":[396]},{"And":[[397],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[402,49],null]},{"Or":[403]},{"Opt":404},{"Token":58},{"And":[[399,400,401,405,406],1]},{"Or":[407]},{"Token":21},{"And":[[409],null]},{"Token":22},{"And":[[411],null]},{"Or":[410,412]},{"Token":92},{"Token":59},{"Token":53},{"And":[[416,76],null]},{"Or":[417]},{"Opt":418},{"Token":58},{"And":[[413,414,415,49,419,420],1]},{"Or":[421]},{"And":[[147],null]},{"Token":58},{"And":[[148,424],null]},{"Or":[423,425]},{"Rep":30},{"Call":[151,[[2,427]]]},{"And":[[10,428],null]},{"Or":[429]},{"Opt":36},{"And":[[145,431],null]},{"Or":[432]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[434,435]},{"Inject":[433,436]},{"And":[[437],null]},{"Call":[150,[[1,35]]]},{"Call":[150,[[1,32]]]},{"And":[[439,440],null]},{"Or":[441]},{"Call":[153,[[4,442]]]},{"And":[[443],null]},{"Or":[444]},{"Token":92},{"Opt":33},{"And":[[446,447],1]},{"Or":[448]},{"Token":59},{"Token":73},{"And":[[451],null]},"Eof",{"And":[[453],null]},{"Token":61},{"And":[[455],null]},{"Token":39},{"And":[[457],null]},{"Token":36},{"And":[[459],null]},{"Or":[456,458,460]},{"Not":461},{"Not":462},{"And":[[463],null]},{"Or":[452,454,464]},{"And":[[34,465],1]},{"Or":[466]},{"Rep":467},{"And":[[450,468],null]},{"Token":87},{"And":[[470],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[471,472,473]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[478],null]},"Eof",{"And":[[480],null]},{"Token":61},{"Not":482},{"Not":483},{"And":[[484],null]},{"Or":[479,481,485]},{"And":[[477,486],1]},{"Or":[487]},{"Rep":488},{"And":[[476,489],null]},{"Or":[490]},{"Opt":491},{"And":[[475,492],1]},{"Or":[493]},{"Token":10},{"Token":6},{"And":[[496],null]},{"Token":19},{"And":[[498],null]},{"Or":[497,499]},{"Call":[152,[[3,500]]]},{"Opt":501},{"And":[[495,502],null]},{"Or":[503]},{"Token":36},{"Token":61},{"And":[[506],null]},"Eof",{"And":[[508],null]},{"Token":39},{"Not":510},{"Not":511},{"And":[[512],null]},{"Or":[507,509,513]},{"And":[[49,33,514],null]},{"Or":[515]},{"Rep":516},{"And":[[505,517],1]},{"Or":[518]},{"And":[[41],null]},{"Enter":[2,41]},{"And":[[521],null]},{"Enter":[1,41]},{"And":[[523],null]},{"Token":60},{"And":[[525,45],null]},{"Or":[526]},{"Token":60},{"Opt":528},{"And":[[529,45],null]},{"Or":[530]},{"Token":60},{"And":[[532,45],null]},{"Or":[533]},{"And":[[41,534],null]},{"Or":[535]},{"Token":5},{"And":[[49,537,49],null]},{"Or":[538]},{"Call":[153,[[4,539]]]},{"Token":60},{"And":[[540,541,45],null]},{"Or":[542]},{"Token":92},{"And":[[544],null]},{"Token":18},{"And":[[546],null]},{"Token":19},{"And":[[548],null]},{"Or":[545,547,549]},{"And":[[46],null]},{"IsIn":2},{"And":[[552,47],null]},{"Or":[551,553]},{"Opt":554},{"And":[[550,555],null]},{"Or":[556]},{"IsIn":2},{"And":[[558],null]},{"IsIn":1},{"Token":60},{"And":[[560,561],null]},{"Or":[559,562]},{"Token":87},{"Call":[150,[[1,564]]]},{"Token":92},{"Token":53},{"And":[[566,567],null]},{"Or":[568]},{"Not":569},{"And":[[570,49],null]},{"Or":[571]},{"Call":[150,[[1,572]]]},{"Token":92},{"Token":53},{"And":[[574,575,49],null]},{"Or":[576]},{"Call":[150,[[1,577]]]},{"And":[[565,573,578],null]},{"Or":[579]},{"Call":[153,[[4,580]]]},{"And":[[563,581],null]},{"Or":[582]},{"Call":[150,[[1,49]]]},{"Call":[152,[[3,584]]]},{"Opt":9},{"And":[[585,586],null]},{"Or":[587]},{"Token":5},{"Token":92},{"And":[[589,590],null]},{"Or":[591]},{"Token":73},{"And":[[593,34],null]},{"Or":[594]},{"Rep":595},{"And":[[51,596],null]},{"Or":[597]},{"And":[[51],null]},{"Or":[599]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[611]},{"And":[[121,49],null]},{"Or":[613]},{"Token":67},{"Token":21},{"And":[[616],null]},{"Token":27},{"And":[[618],null]},{"Or":[617,619]},{"And":[[615,620,49],null]},{"Or":[621]},{"Token":81},{"And":[[623],null]},{"Or":[624]},{"Token":37},{"Token":38},{"And":[[626,627],null]},{"Or":[628]},{"Opt":58},{"And":[[49,630],null]},{"Or":[631]},{"Call":[152,[[3,632]]]},{"And":[[633],null]},{"Or":[634]},{"Token":61},{"Call":[150,[[1,49]]]},{"And":[[636,637],null]},{"Or":[638]},{"Token":82},{"And":[[640],null]},{"Or":[641]},{"Token":58},{"Call":[79,[[0,76]]]},{"Exit":[2,644]},{"And":[[643,645],null]},{"Or":[646]},{"Opt":647},{"And":[[49,648],null]},{"Or":[649]},{"Call":[154,[[5,650]]]},{"And":[[651],null]},{"Or":[652]},{"Opt":10},{"Token":8},{"Call":[150,[[1,62]]]},{"Call":[152,[[3,656]]]},{"Opt":9},{"And":[[654,655,657,658],2]},{"Or":[659]},{"Token":59},{"And":[[64,661],null]},{"Or":[662]},{"Opt":663},{"And":[[664,49],null]},{"Or":[665]},{"Token":23},{"And":[[667,31,49],1]},{"Or":[668]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[677],null]},{"Or":[678]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[680,681]},{"Opt":682},{"And":[[40,683],null]},{"Or":[684]},{"Call":[150,[[1,64]]]},{"Token":63},{"Token":61},{"Opt":688},{"And":[[687,689],null]},{"Or":[690]},{"Opt":691},{"And":[[686,692],null]},{"Or":[693]},{"Call":[152,[[3,694]]]},{"And":[[695],null]},{"Or":[696]},{"Call":[150,[[1,69]]]},{"Token":63},{"Token":61},{"Opt":700},{"And":[[699,701],null]},{"Or":[702]},{"Opt":703},{"And":[[698,704],null]},{"Or":[705]},{"Call":[151,[[2,706]]]},{"And":[[707],null]},{"Or":[708]},{"Token":59},{"Not":710},{"And":[[70,711],null]},{"Token":92},{"Token":59},{"And":[[713,714,64],2]},{"Or":[712,715]},{"Token":28},{"Opt":717},{"Token":27},{"Opt":719},{"Token":92},{"And":[[718,720,721],null]},{"Or":[722]},{"And":[[80],null]},{"Or":[724]},{"Token":37},{"Token":38},{"And":[[726,727],null]},{"Or":[728]},{"Opt":74},{"And":[[64,730],null]},{"Or":[731]},{"Call":[152,[[3,732]]]},{"And":[[733],null]},{"Or":[734]},{"Token":61},{"Call":[150,[[1,64]]]},{"And":[[736,737],null]},{"Or":[738]},{"Token":77},{"Token":27},{"Opt":741},{"And":[[740,742,64],null]},{"Or":[743]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":747},{"And":[[745,746,748,114],null]},{"Or":[749]},{"Token":62},{"Token":92},{"And":[[752],null]},{"Token":89},{"And":[[754],null]},{"Or":[753,755]},{"And":[[751,756],null]},{"Or":[757]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,759]]]},{"Token":83},{"Token":5},{"And":[[762,50],null]},{"Or":[763]},{"Token":77},{"Token":27},{"Opt":766},{"And":[[765,767],null]},{"Or":[768]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[773],null]},{"Token":69},{"And":[[775],null]},{"Token":71},{"And":[[777],null]},{"Or":[774,776,778]},{"Token":73},{"And":[[780],null]},{"Token":75},{"And":[[782],null]},{"Or":[781,783]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"ContextualToken":[49,"&&"]},{"Not":790},{"Token":77},{"And":[[791,792],null]},{"Or":[793]},{"Token":84},{"ContextualToken":[50,"||"]},{"Not":796},{"Token":79},{"And":[[797,798],null]},{"Or":[799]},{"ContextualToken":[49,"&&"]},{"ContextualToken":[50,"||"]},{"Token":53},{"And":[[803],null]},{"Token":74},{"And":[[805],null]},{"Token":76},{"And":[[807],null]},{"Token":68},{"And":[[809],null]},{"Token":70},{"And":[[811],null]},{"Token":72},{"And":[[813],null]},{"Token":78},{"And":[[815],null]},{"Token":80},{"And":[[817],null]},{"Token":85},{"And":[[819],null]},{"ContextualToken":[48,">>="]},{"And":[[821],null]},{"ContextualToken":[46,"<<="]},{"And":[[823],null]},{"Or":[804,806,808,810,812,814,816,818,820,822,824]},{"And":[[80],null]},{"Token":92},{"And":[[827],null]},{"Token":87},{"And":[[829],null]},{"Token":18},{"And":[[831],null]},{"Token":19},{"And":[[833],null]},{"Token":41},{"And":[[835],null]},{"Token":60},{"And":[[837],null]},{"Token":37},{"And":[[839],null]},{"Token":43},{"And":[[841],null]},{"Token":79},{"And":[[843],null]},{"Token":31},{"And":[[845],null]},{"Token":39},{"And":[[847],null]},{"Token":14},{"And":[[849],null]},{"Token":25},{"And":[[851],null]},{"Token":24},{"And":[[853],null]},{"Token":23},{"And":[[855],null]},{"Token":30},{"And":[[857],null]},{"Token":26},{"And":[[859],null]},{"Token":32},{"And":[[861],null]},{"Token":33},{"And":[[863],null]},{"Token":77},{"And":[[865],null]},{"Token":67},{"And":[[867],null]},{"Token":75},{"And":[[869],null]},{"Token":82},{"And":[[871],null]},{"Token":63},{"And":[[873],null]},{"Token":64},{"And":[[875],null]},{"And":[[92],null]},{"And":[[99],null]},{"And":[[100],null]},{"And":[[103],null]},{"And":[[104],null]},{"And":[[106],null]},{"And":[[110],null]},{"Or":[877,878,879,880,881,882,883]},{"Token":62},{"And":[[885],null]},{"Token":83},{"And":[[887],null]},{"Or":[886,888]},{"Not":889},{"And":[[884,890],null]},{"Var":0},{"Exit":[0,892]},{"And":[[893],null]},{"Token":89},{"And":[[895],null]},{"Token":90},{"And":[[897],null]},{"Token":91},{"And":[[899],null]},{"Token":86},{"And":[[901],null]},{"Token":88},{"And":[[903],null]},{"Or":[896,898,900,902,904]},{"Token":92},{"Token":82},{"And":[[906,907],null]},{"Or":[908]},{"Not":909},{"Opt":82},{"And":[[910,40,911],null]},{"Or":[912]},{"IsIn":0},{"Not":914},{"Call":[150,[[1,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[917,918],null]},{"Or":[919]},{"Opt":920},{"And":[[916,921],null]},{"Or":[922]},{"Call":[151,[[2,923]]]},{"And":[[915,924],null]},{"Or":[925]},{"Token":92},{"Token":59},{"And":[[928,76],null]},{"Or":[929]},{"Opt":930},{"And":[[927,931],1]},{"Or":[932]},{"Token":37},{"Token":38},{"And":[[934,935],null]},{"Or":[936]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[938,939],null]},{"Or":[940]},{"Call":[152,[[3,941]]]},{"And":[[942],null]},{"Or":[943]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[150,[[1,946]]]},{"And":[[945,947],null]},{"Or":[948]},{"Token":58},{"And":[[950,76],null]},{"Token":61},{"Call":[150,[[1,76]]]},{"And":[[952,953],null]},{"Or":[951,954]},{"Opt":955},{"And":[[76,956],null]},{"Or":[957]},{"Call":[79,[[0,958]]]},{"Call":[154,[[5,959]]]},{"And":[[960],null]},{"Or":[961]},{"Token":26},{"Opt":963},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[968,49,92],null]},{"And":[[76],null]},{"Or":[969,970]},{"And":[[964,965,966,967,971],null]},{"Or":[972]},{"Token":61},{"And":[[974],null]},{"Token":79},{"Not":976},{"Not":977},{"And":[[978],null]},{"Or":[975,979]},{"And":[[13,980],1]},{"Token":31},{"Opt":76},{"And":[[982,983],null]},{"Or":[984]},{"Token":33},{"And":[[986],null]},{"Token":32},{"And":[[988],null]},{"Or":[987,989]},{"Token":87},{"Opt":991},{"And":[[990,992],null]},{"Or":[993]},{"Token":35},{"Opt":995},{"WithSkip":[94,93]},{"Rep":997},{"Call":[151,[[2,998]]]},{"And":[[996,999],null]},{"Or":[1000]},{"Call":[79,[[0,1001]]]},{"And":[[1002],null]},{"Or":[1003]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1009],null]},{"Token":58},{"And":[[1011],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1017,76],1]},{"Or":[1018]},{"Opt":1019},{"Token":58},{"And":[[1015,64,1016,1020,1021],1]},{"Or":[1022]},{"Token":59},{"And":[[1024,49],null]},{"Or":[1025]},{"Token":58},{"And":[[1027],null]},{"Or":[1028]},{"And":[[78],null]},"Eof",{"And":[[1031],null]},{"Token":58},{"And":[[1033],null]},{"Or":[1032,1034]},{"And":[[76,1035],1]},{"Or":[1030,1036]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1040,1041]},{"And":[[1039,1042],null]},{"Or":[1043]},{"Opt":1044},{"And":[[1038,101,92,1045],1]},{"Or":[1046]},{"Opt":105},{"Token":25},{"And":[[1048,1049,101,92],2]},{"Or":[1050]},{"Token":9},{"Token":53},{"And":[[1052,64,1053],1]},{"Or":[1054]},{"Opt":1055},{"And":[[1056,102],1]},{"Enter":[0,76]},{"And":[[1058],null]},{"Opt":105},{"Token":24},{"And":[[1060,1061,92],2]},{"Or":[1062]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1064,1065,64,1066,102,92],2]},{"Or":[1067]},{"Token":87},{"Token":59},{"And":[[1069,1070],null]},{"Token":30},{"Rep":107},{"Call":[79,[[0,1073]]]},{"Call":[151,[[2,1074]]]},{"And":[[1072,102,1075],1]},{"Or":[1076]},{"Token":52},{"Token":61},{"Opt":1079},{"And":[[78,1080],null]},{"Token":61},{"And":[[1082],null]},"Eof",{"And":[[1084],null]},{"Or":[1083,1085]},{"And":[[76,1086],null]},{"Or":[1081,1087]},{"And":[[108,1078,1088],1]},{"Or":[1089]},{"Token":79},{"And":[[1091,64],null]},{"Or":[1092]},{"Rep":1093},{"Opt":109},{"And":[[64,1094,1095],null]},{"Token":14},{"And":[[1097,76],null]},{"Or":[1098]},{"And":[[147],null]},{"Or":[1100]},{"And":[[148],null]},{"Or":[1102]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1106},{"And":[[1104,1105,1107,114],null]},{"Or":[1108]},{"And":[[76,1109],null]},{"Or":[1110]},{"And":[[76,114],null]},{"Or":[1112]},{"Call":[150,[[1,115]]]},{"Call":[152,[[3,1114]]]},{"Call":[79,[[0,1115]]]},{"And":[[1116],null]},{"And":[[76],null]},{"Or":[1118]},{"Token":62},{"Token":92},{"And":[[1121],null]},{"Token":89},{"And":[[1123],null]},{"Or":[1122,1124]},{"And":[[1120,1125],null]},{"Or":[1126]},{"And":[[76,1127],null]},{"Or":[1128]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,1130]]]},{"And":[[76,1131],null]},{"Or":[1132]},{"Token":83},{"And":[[76,1134],null]},{"Or":[1135]},{"Token":5},{"And":[[1137,50],null]},{"Or":[1138]},{"And":[[76,1139],null]},{"Or":[1140]},{"Token":77},{"Token":27},{"Opt":1143},{"And":[[1142,1144],null]},{"Or":[1145]},{"And":[[1146,76],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,76],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,76],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,76],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"And":[[76,1170,76],null]},{"Or":[1171]},{"Token":73},{"And":[[1173],null]},{"Token":75},{"And":[[1175],null]},{"Or":[1174,1176]},{"And":[[76,1177,76],null]},{"Or":[1178]},{"ContextualToken":[45,"<<"]},{"And":[[1180],null]},{"ContextualToken":[47,">>"]},{"And":[[1182],null]},{"Or":[1181,1183]},{"And":[[76,1184,76],null]},{"Or":[1185]},{"ContextualToken":[49,"&&"]},{"Not":1187},{"Token":77},{"And":[[1188,1189],null]},{"Or":[1190]},{"And":[[76,1191,76],null]},{"Or":[1192]},{"Token":84},{"And":[[76,1194,76],null]},{"Or":[1195]},{"ContextualToken":[50,"||"]},{"Not":1197},{"Token":79},{"And":[[1198,1199],null]},{"Or":[1200]},{"And":[[76,1201,76],null]},{"Or":[1202]},{"And":[[76,132,76],null]},{"Or":[1204]},{"Token":54},{"And":[[1206],null]},{"Token":55},{"And":[[1208],null]},{"ContextualToken":[46,"<<="]},{"And":[[1210],null]},{"ContextualToken":[48,">>="]},{"And":[[1212],null]},{"Or":[1211,1213]},{"Not":1214},{"Token":41},{"And":[[1216],null]},{"Token":42},{"And":[[1218],null]},{"Or":[1217,1219]},{"And":[[1215,1220],null]},{"Token":57},{"And":[[1222],null]},{"Token":56},{"And":[[1224],null]},{"ContextualToken":[49,"&&"]},{"And":[[76,1226,76],null]},{"Or":[1227]},{"ContextualToken":[50,"||"]},{"And":[[76,1229,76],null]},{"Or":[1230]},{"And":[[76,140,76],null]},{"Or":[1232]},{"And":[[140,76],null]},{"Or":[1234]},{"And":[[76,139],null]},{"Or":[1236]},{"Token":63},{"Token":39},{"IsIn":0},{"And":[[1239,1240],null]},{"Or":[1241]},{"Not":1242},{"And":[[1243,77],null]},{"Or":[1244]},{"Not":1245},{"And":[[1238,1246],null]},{"Or":[1247]},{"Token":63},{"And":[[1249],null]},{"Token":64},{"And":[[1251],null]},{"Not":77},{"Not":1253},{"Token":39},{"IsIn":0},{"And":[[1255,1256],null]},{"Or":[1257]},{"Not":1258},{"And":[[139,1254,1259],null]},{"Token":53},{"And":[[1261],null]},{"Token":74},{"And":[[1263],null]},{"Token":76},{"And":[[1265],null]},{"Token":68},{"And":[[1267],null]},{"Token":70},{"And":[[1269],null]},{"Token":72},{"And":[[1271],null]},{"Token":78},{"And":[[1273],null]},{"Token":80},{"And":[[1275],null]},{"Token":85},{"And":[[1277],null]},{"ContextualToken":[48,">>="]},{"And":[[1279],null]},{"ContextualToken":[46,"<<="]},{"And":[[1281],null]},{"Or":[1262,1264,1266,1268,1270,1272,1274,1276,1278,1280,1282]},{"And":[[76,1283,76],null]},{"Or":[1284]},{"Token":65},{"And":[[1286,144],null]},{"Or":[1287]},{"Token":65},{"Token":82},{"And":[[1289,1290,144],null]},{"Or":[1291]},{"Call":[150,[[1,146]]]},{"Call":[154,[[5,1293]]]},{"And":[[1294],null]},{"Rep":142},{"And":[[1296],null]},{"Token":92},{"Token":53},{"And":[[1299,76],null]},{"Call":[150,[[1,146]]]},{"Call":[152,[[3,1301]]]},{"And":[[1302],null]},{"Or":[1300,1303]},{"Opt":1304},{"And":[[1298,1305],1]},{"Or":[1306]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1310},{"Rep":149},{"Call":[151,[[2,1312]]]},{"And":[[1308,1309,1311,1313],null]},{"Or":[1314]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1318},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1320,1321,1322],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1324,1325,1326],null]},{"Or":[1323,1327]},{"And":[[1316,1317,1319,1328],null]},{"Or":[1329]},{"Token":37},{"And":[[1331],null]},{"Token":38},{"And":[[1333],null]},{"Token":39},{"And":[[1335],null]},{"Token":40},{"And":[[1337],null]},{"Token":43},{"And":[[1339],null]},{"Token":44},{"And":[[1341],null]},{"Or":[1332,1334,1336,1338,1340,1342]},{"Not":1343},"Any",{"And":[[1344,1345],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1347,1348,1349],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1351,1352,1353],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1355,1356,1357],null]},{"Or":[1346,1350,1354,1358]},{"Var":1},"Eof",{"And":[[1361],null]},{"Token":61},{"And":[[1363],null]},{"Or":[1362,1364]},{"And":[[1360,1365],1]},{"Or":[1366]},{"Rep":1367},{"And":[[1368],null]},{"Token":39},{"Token":40},{"Var":2},{"Call":[155,[[6,1370],[7,1371],[8,1372]]]},{"And":[[1373],null]},{"Token":37},{"Token":38},{"Var":3},{"Call":[155,[[6,1375],[7,1376],[8,1377]]]},{"And":[[1378],null]},{"Token":41},{"Token":42},{"Var":4},{"Call":[155,[[6,1380],[7,1381],[8,1382]]]},{"And":[[1383],null]},{"Token":43},{"Token":44},{"Var":5},{"Call":[155,[[6,1385],[7,1386],[8,1387]]]},{"And":[[1388],null]},{"Var":6},{"Var":6},{"Var":7},{"Call":[156,[[9,1391],[10,1392]]]},{"Var":8},{"Layer":[1393,1394]},{"Var":7},{"And":[[1390,1395,1396],1]},{"Var":9},{"Var":9},{"Var":10},{"Call":[156,[[9,1399],[10,1400]]]},{"Var":10},{"And":[[1398,1401,1402],1]},{"Var":10},{"Not":1404},"Any",{"And":[[1405,1406],null]},{"Or":[1407]},{"And":[[1408],null]},{"Or":[1403,1409]},{"Rep":1410},{"And":[[1411],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":159,"replaceable":false}},{"Or":[162]},{"Or":[164,166,168,170,172,174,176,177]},{"Cached":194},{"Pub":{"ty":94,"body":210,"replaceable":false}},{"Pub":{"ty":95,"body":216,"replaceable":false}},{"Pub":{"ty":96,"body":223,"replaceable":false}},{"Pub":{"ty":97,"body":230,"replaceable":false}},{"Pub":{"ty":98,"body":246,"replaceable":false}},{"Or":[248]},{"Pub":{"ty":99,"body":253,"replaceable":false}},{"Or":[259]},{"Pub":{"ty":100,"body":262,"replaceable":false}},{"Pub":{"ty":101,"body":268,"replaceable":false}},{"Pub":{"ty":102,"body":285,"replaceable":false}},{"Pub":{"ty":103,"body":304,"replaceable":false}},{"Pub":{"ty":104,"body":309,"replaceable":false}},{"Pub":{"ty":105,"body":312,"replaceable":false}},{"Pub":{"ty":106,"body":319,"replaceable":false}},{"Pub":{"ty":107,"body":332,"replaceable":false}},{"Pub":{"ty":108,"body":341,"replaceable":false}},{"Pub":{"ty":109,"body":354,"replaceable":false}},{"Pub":{"ty":110,"body":362,"replaceable":false}},{"Pub":{"ty":111,"body":374,"replaceable":false}},{"Or":[375,376,377,378]},{"Or":[380,382,384,386,388,390,392,394,399]},{"Pub":{"ty":112,"body":409,"replaceable":false}},{"Pub":{"ty":113,"body":423,"replaceable":false}},{"Pub":{"ty":114,"body":427,"replaceable":false}},{"Pub":{"ty":115,"body":431,"replaceable":false}},{"Or":[439]},{"Pub":{"ty":116,"body":446,"replaceable":false}},{"Pub":{"ty":117,"body":450,"replaceable":false}},{"Or":[470]},{"Pub":{"ty":118,"body":475,"replaceable":false}},{"Pub":{"ty":119,"body":495,"replaceable":false}},{"Pub":{"ty":120,"body":505,"replaceable":false}},{"Pub":{"ty":121,"body":520,"replaceable":false}},{"Or":[521]},{"Or":[523]},{"Or":[525]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":528,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":532,"replaceable":false}},{"Pub":{"ty":122,"body":537,"replaceable":false}},{"Pub":{"ty":123,"body":544,"replaceable":false}},{"Pub":{"ty":124,"body":558,"replaceable":false}},{"Pub":{"ty":125,"body":584,"replaceable":false}},{"Pub":{"ty":126,"body":589,"replaceable":false}},{"Pub":{"ty":127,"body":593,"replaceable":false}},{"Pub":{"ty":128,"body":599,"replaceable":false}},{"Pub":{"ty":128,"body":601,"replaceable":false}},{"Or":[602,603,604,605,606,607,608,609,610,611]},{"Pub":{"ty":129,"body":613,"replaceable":false}},{"Pub":{"ty":130,"body":615,"replaceable":false}},{"Pub":{"ty":131,"body":623,"replaceable":false}},{"Pub":{"ty":132,"body":626,"replaceable":false}},{"Pub":{"ty":133,"body":630,"replaceable":false}},{"Pub":{"ty":134,"body":636,"replaceable":true}},{"PubReplace":{"ty":135,"body":640}},{"Pub":{"ty":136,"body":643,"replaceable":false}},{"Pub":{"ty":137,"body":654,"replaceable":false}},{"Pub":{"ty":138,"body":661,"replaceable":false}},{"Pub":{"ty":100,"body":667,"replaceable":false}},{"Pub":{"ty":139,"body":670,"replaceable":false}},{"Or":[671,672,673,674,675,676,677]},{"Pub":{"ty":140,"body":680,"replaceable":false}},{"Pub":{"ty":141,"body":686,"replaceable":true}},{"PubReplace":{"ty":142,"body":698}},{"PubReplace":{"ty":143,"body":710}},{"Pub":{"ty":144,"body":717,"replaceable":false}},{"Pub":{"ty":145,"body":724,"replaceable":false}},{"Pub":{"ty":146,"body":726,"replaceable":false}},{"Pub":{"ty":147,"body":730,"replaceable":false}},{"Pub":{"ty":148,"body":736,"replaceable":true}},{"PubReplace":{"ty":149,"body":740}},{"Pub":{"ty":150,"body":745,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,138],"prefixes":[{"ty":184,"op":770,"priority":999},{"ty":185,"op":771,"priority":999},{"ty":186,"op":772,"priority":999},{"ty":187,"op":773,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":751,"priority":999,"has_rhs":false},{"ty":178,"op":114,"priority":999,"has_rhs":false},{"ty":180,"op":759,"priority":999,"has_rhs":false},{"ty":181,"op":761,"priority":999,"has_rhs":false},{"ty":182,"op":762,"priority":999,"has_rhs":false},{"ty":183,"op":765,"priority":12,"has_rhs":false},{"ty":188,"op":780,"priority":11,"has_rhs":true},{"ty":189,"op":785,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":795,"priority":8,"has_rhs":true},{"ty":192,"op":796,"priority":7,"has_rhs":true},{"ty":193,"op":801,"priority":6,"has_rhs":true},{"ty":194,"op":132,"priority":5,"has_rhs":true},{"ty":195,"op":802,"priority":4,"has_rhs":true},{"ty":196,"op":803,"priority":3,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":826,"priority":1,"has_rhs":true}]}},{"Or":[827,829,831,833,835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877]},{"Or":[892]},{"Or":[895]},{"Pub":{"ty":152,"body":906,"replaceable":false}},{"Pub":{"ty":153,"body":914,"replaceable":true}},{"PubReplace":{"ty":154,"body":927}},{"Pub":{"ty":155,"body":934,"replaceable":false}},{"Pub":{"ty":156,"body":938,"replaceable":false}},{"Pub":{"ty":157,"body":945,"replaceable":true}},{"PubReplace":{"ty":158,"body":950}},{"Pub":{"ty":159,"body":963,"replaceable":false}},{"Pub":{"ty":160,"body":974,"replaceable":false}},{"Or":[982]},{"Pub":{"ty":161,"body":986,"replaceable":false}},{"Pub":{"ty":162,"body":995,"replaceable":false}},{"Pub":{"ty":163,"body":1005,"replaceable":false}},{"Or":[1006,1007,1008,1009]},{"Or":[1011,1013,1014,1015]},{"Pub":{"ty":164,"body":1024,"replaceable":false}},{"Pub":{"ty":165,"body":1027,"replaceable":false}},{"Pub":{"ty":166,"body":1030,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1078,"replaceable":false}},{"Pub":{"ty":173,"body":1091,"replaceable":false}},{"Or":[1097]},{"Pub":{"ty":174,"body":1100,"replaceable":false}},{"Pub":{"ty":175,"body":1102,"replaceable":false}},{"Pub":{"ty":176,"body":1104,"replaceable":false}},{"Pub":{"ty":177,"body":1112,"replaceable":false}},{"Pub":{"ty":178,"body":1114,"replaceable":false}},{"Or":[1118]},{"Pub":{"ty":179,"body":1120,"replaceable":false}},{"Pub":{"ty":180,"body":1130,"replaceable":false}},{"Pub":{"ty":181,"body":1134,"replaceable":false}},{"Pub":{"ty":182,"body":1137,"replaceable":false}},{"Pub":{"ty":183,"body":1142,"replaceable":false}},{"Pub":{"ty":184,"body":1149,"replaceable":false}},{"Or":[1155]},{"Pub":{"ty":185,"body":1158,"replaceable":false}},{"Pub":{"ty":186,"body":1161,"replaceable":false}},{"Pub":{"ty":187,"body":1164,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1180,"replaceable":false}},{"Pub":{"ty":190,"body":1187,"replaceable":false}},{"Pub":{"ty":191,"body":1194,"replaceable":false}},{"Pub":{"ty":192,"body":1197,"replaceable":false}},{"Pub":{"ty":193,"body":1204,"replaceable":false}},{"Pub":{"ty":194,"body":1206,"replaceable":false}},{"Or":[1208,1210,1222,1224,1226]},{"Pub":{"ty":195,"body":1229,"replaceable":false}},{"Pub":{"ty":196,"body":1232,"replaceable":false}},{"Pub":{"ty":197,"body":1234,"replaceable":false}},{"Pub":{"ty":197,"body":1236,"replaceable":false}},{"Pub":{"ty":197,"body":1238,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Or":[1251,1253]},{"Or":[1261]},{"Pub":{"ty":198,"body":1286,"replaceable":false}},{"Pub":{"ty":199,"body":1289,"replaceable":false}},{"Pub":{"ty":200,"body":1293,"replaceable":false}},{"Or":[1296]},{"Or":[1298]},{"Pub":{"ty":201,"body":1308,"replaceable":false}},{"Pub":{"ty":202,"body":1316,"replaceable":false}},{"Pub":{"ty":203,"body":1331,"replaceable":false}},{"Pub":{"ty":204,"body":1360,"replaceable":false}},{"Or":[1370]},{"Or":[1375]},{"Or":[1380]},{"Or":[1385]},{"Or":[1390]},{"Or":[1398]},{"Or":[1413]},{"Or":[1443]},{"And":[[1],null]},{"Or":[158]},{"WithSkip":[2,3]},{"Rep":160},{"And":[[161],null]},{"Token":11},{"And":[[163],null]},{"ContextualToken":[4,"union"]},{"And":[[165],null]},{"Token":16},{"And":[[167],null]},{"Token":12},{"And":[[169],null]},{"Token":13},{"And":[[171],null]},{"Token":17},{"And":[[173],null]},{"Token":29},{"And":[[175],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,178],null]},{"Or":[179]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[181,182,183,184,185,186,187,188,189]},{"Inject":[180,190]},{"And":[[191],null]},{"And":[[28],null]},{"Or":[192,193]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[197,5],null]},{"Or":[198]},{"Opt":199},{"And":[[200],null]},{"Or":[196,201]},{"And":[[38,202],null]},{"Token":60},{"Opt":204},{"And":[[205,5],null]},{"Or":[203,206]},{"Token":58},{"And":[[195,207,208],1]},{"Or":[209]},{"Token":67},{"And":[[211],null]},{"Call":[150,[[1,6]]]},{"Call":[151,[[2,213]]]},{"And":[[214],null]},{"Or":[212,215]},{"Token":18},{"Opt":48},{"And":[[217,218],null]},{"Token":92},{"Opt":48},{"And":[[220,221],1]},{"Or":[219,222]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[224,225,226,227,228],2]},{"Or":[229]},{"Token":21},{"Opt":231},{"Token":35},{"Opt":233},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[242],null]},{"Or":[241,243]},{"And":[[232,234,235,236,237,238,11,239,240,244],4]},{"Or":[245]},{"Token":51},{"And":[[247,49],null]},{"Token":7},{"Token":90},{"Opt":250},{"And":[[249,251],null]},{"Or":[252]},{"Opt":14},{"Call":[150,[[1,12]]]},{"And":[[254,255],null]},{"Or":[256]},{"Call":[152,[[3,257]]]},{"And":[[258],null]},{"Token":59},{"And":[[64,260,49],1]},{"Or":[261]},{"Token":59},{"And":[[263,49],null]},{"Or":[264]},{"Opt":265},{"And":[[64,266],null]},{"Or":[267]},{"And":[[121],null]},{"Token":27},{"And":[[270],null]},{"Or":[269,271]},{"Opt":272},{"Token":18},{"Token":59},{"And":[[275,49],null]},{"Or":[276]},{"Opt":277},{"Token":61},{"And":[[279],null]},"Eof",{"And":[[281],null]},{"Or":[280,282]},{"And":[[273,274,278,283],2]},{"Or":[284]},{"Token":11},{"And":[[286],null]},{"ContextualToken":[4,"union"]},{"And":[[288],null]},{"Or":[287,289]},{"Token":92},{"Opt":31},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,293]]]},{"And":[[294],null]},{"Token":58},{"And":[[296],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,298]]]},{"Token":58},{"And":[[299,300],null]},{"Or":[295,297,301]},{"And":[[290,291,292,302],1]},{"Or":[303]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[305,306,307,49],2]},{"Or":[308]},{"Opt":36},{"And":[[310,49],null]},{"Or":[311]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[1,19]]]},{"Call":[151,[[2,316]]]},{"And":[[313,314,315,317],1]},{"Or":[318]},{"Token":92},{"Token":53},{"And":[[321,76],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,323]]]},{"And":[[324],null]},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,326]]]},{"And":[[327],null]},{"Or":[322,325,328]},{"Opt":329},{"And":[[320,330],1]},{"Or":[331]},{"Token":13},{"Token":92},{"Token":58},{"And":[[335],null]},{"Call":[151,[[2,1]]]},{"And":[[337],null]},{"Or":[336,338]},{"And":[[333,334,339],1]},{"Or":[340]},{"Token":35},{"Opt":342},{"Token":17},{"Opt":31},{"Token":23},{"And":[[346,49],null]},{"Or":[347]},{"Opt":348},{"And":[[49,349],null]},{"Or":[350]},{"Opt":37},{"And":[[343,344,345,351,352,23],2]},{"Or":[353]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,355,356,357,358,359,360,23],3]},{"Or":[361]},{"Opt":36},{"And":[[145,363],null]},{"Or":[364]},{"Inject":[365,24]},{"And":[[366],null]},{"And":[[28],null]},{"Or":[367,368]},{"WithSkip":[25,369]},{"Rep":370},{"Call":[151,[[2,371]]]},{"And":[[372],null]},{"Or":[373]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[379],null]},{"Token":8},{"And":[[381],null]},{"Token":20},{"And":[[383],null]},{"Token":21},{"And":[[385],null]},{"Token":22},{"And":[[387],null]},{"Token":35},{"And":[[389],null]},{"Token":65},{"And":[[391],null]},{"Token":7},{"And":[[393],null]},{"Token":92},{"Token":82},{"And":[[395,396],null]},{"Or":[397]},{"And":[[398],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[403,49],null]},{"Or":[404]},{"Opt":405},{"Token":58},{"And":[[400,401,402,406,407],1]},{"Or":[408]},{"Token":21},{"And":[[410],null]},{"Token":22},{"And":[[412],null]},{"Or":[411,413]},{"Token":92},{"Token":59},{"Token":53},{"And":[[417,76],null]},{"Or":[418]},{"Opt":419},{"Token":58},{"And":[[414,415,416,49,420,421],1]},{"Or":[422]},{"And":[[147],null]},{"Token":58},{"And":[[148,425],null]},{"Or":[424,426]},{"Rep":30},{"Call":[151,[[2,428]]]},{"And":[[10,429],null]},{"Or":[430]},{"Opt":36},{"And":[[145,432],null]},{"Or":[433]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[435,436]},{"Inject":[434,437]},{"And":[[438],null]},{"Call":[150,[[1,35]]]},{"Call":[150,[[1,32]]]},{"And":[[440,441],null]},{"Or":[442]},{"Call":[153,[[4,443]]]},{"And":[[444],null]},{"Or":[445]},{"Token":92},{"Opt":33},{"And":[[447,448],1]},{"Or":[449]},{"Token":59},{"Token":73},{"And":[[452],null]},"Eof",{"And":[[454],null]},{"Token":61},{"And":[[456],null]},{"Token":39},{"And":[[458],null]},{"Token":36},{"And":[[460],null]},{"Or":[457,459,461]},{"Not":462},{"Not":463},{"And":[[464],null]},{"Or":[453,455,465]},{"And":[[34,466],1]},{"Or":[467]},{"Rep":468},{"And":[[451,469],null]},{"Token":87},{"And":[[471],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[472,473,474]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[479],null]},"Eof",{"And":[[481],null]},{"Token":61},{"Not":483},{"Not":484},{"And":[[485],null]},{"Or":[480,482,486]},{"And":[[478,487],1]},{"Or":[488]},{"Rep":489},{"And":[[477,490],null]},{"Or":[491]},{"Opt":492},{"And":[[476,493],1]},{"Or":[494]},{"Token":10},{"Token":6},{"And":[[497],null]},{"Token":19},{"And":[[499],null]},{"Or":[498,500]},{"Call":[152,[[3,501]]]},{"Opt":502},{"And":[[496,503],null]},{"Or":[504]},{"Token":36},{"Token":61},{"And":[[507],null]},"Eof",{"And":[[509],null]},{"Token":39},{"Not":511},{"Not":512},{"And":[[513],null]},{"Or":[508,510,514]},{"And":[[49,33,515],null]},{"Or":[516]},{"Rep":517},{"And":[[506,518],1]},{"Or":[519]},{"And":[[41],null]},{"Enter":[2,41]},{"And":[[522],null]},{"Enter":[1,41]},{"And":[[524],null]},{"Token":60},{"And":[[526,45],null]},{"Or":[527]},{"Token":60},{"Opt":529},{"And":[[530,45],null]},{"Or":[531]},{"Token":60},{"And":[[533,45],null]},{"Or":[534]},{"And":[[41,535],null]},{"Or":[536]},{"Token":5},{"And":[[49,538,49],null]},{"Or":[539]},{"Call":[153,[[4,540]]]},{"Token":60},{"And":[[541,542,45],null]},{"Or":[543]},{"Token":92},{"And":[[545],null]},{"Token":18},{"And":[[547],null]},{"Token":19},{"And":[[549],null]},{"Or":[546,548,550]},{"And":[[46],null]},{"IsIn":2},{"And":[[553,47],null]},{"Or":[552,554]},{"Opt":555},{"And":[[551,556],null]},{"Or":[557]},{"IsIn":2},{"And":[[559],null]},{"IsIn":1},{"Token":60},{"And":[[561,562],null]},{"Or":[560,563]},{"Token":87},{"Call":[150,[[1,565]]]},{"Token":92},{"Token":53},{"And":[[567,568],null]},{"Or":[569]},{"Not":570},{"And":[[571,49],null]},{"Or":[572]},{"Call":[150,[[1,573]]]},{"Token":92},{"Token":53},{"And":[[575,576,49],null]},{"Or":[577]},{"Call":[150,[[1,578]]]},{"And":[[566,574,579],null]},{"Or":[580]},{"Call":[153,[[4,581]]]},{"And":[[564,582],null]},{"Or":[583]},{"Call":[150,[[1,49]]]},{"Call":[152,[[3,585]]]},{"Opt":9},{"And":[[586,587],null]},{"Or":[588]},{"Token":5},{"Token":92},{"And":[[590,591],null]},{"Or":[592]},{"Token":73},{"And":[[594,34],null]},{"Or":[595]},{"Rep":596},{"And":[[51,597],null]},{"Or":[598]},{"And":[[51],null]},{"Or":[600]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[612]},{"And":[[121,49],null]},{"Or":[614]},{"Token":67},{"Token":21},{"And":[[617],null]},{"Token":27},{"And":[[619],null]},{"Or":[618,620]},{"And":[[616,621,49],null]},{"Or":[622]},{"Token":81},{"And":[[624],null]},{"Or":[625]},{"Token":37},{"Token":38},{"And":[[627,628],null]},{"Or":[629]},{"Opt":58},{"And":[[49,631],null]},{"Or":[632]},{"Call":[152,[[3,633]]]},{"And":[[634],null]},{"Or":[635]},{"Token":61},{"Call":[150,[[1,49]]]},{"And":[[637,638],null]},{"Or":[639]},{"Token":82},{"And":[[641],null]},{"Or":[642]},{"Token":58},{"Call":[79,[[0,76]]]},{"Exit":[2,645]},{"And":[[644,646],null]},{"Or":[647]},{"Opt":648},{"And":[[49,649],null]},{"Or":[650]},{"Call":[154,[[5,651]]]},{"And":[[652],null]},{"Or":[653]},{"Opt":10},{"Token":8},{"Call":[150,[[1,62]]]},{"Call":[152,[[3,657]]]},{"Opt":9},{"And":[[655,656,658,659],2]},{"Or":[660]},{"Token":59},{"And":[[64,662],null]},{"Or":[663]},{"Opt":664},{"And":[[665,49],null]},{"Or":[666]},{"Token":23},{"And":[[668,31,49],1]},{"Or":[669]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[678],null]},{"Or":[679]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[681,682]},{"Opt":683},{"And":[[40,684],null]},{"Or":[685]},{"Call":[150,[[1,64]]]},{"Token":63},{"Token":61},{"Opt":689},{"And":[[688,690],null]},{"Or":[691]},{"Opt":692},{"And":[[687,693],null]},{"Or":[694]},{"Call":[152,[[3,695]]]},{"And":[[696],null]},{"Or":[697]},{"Call":[150,[[1,69]]]},{"Token":63},{"Token":61},{"Opt":701},{"And":[[700,702],null]},{"Or":[703]},{"Opt":704},{"And":[[699,705],null]},{"Or":[706]},{"Call":[151,[[2,707]]]},{"And":[[708],null]},{"Or":[709]},{"Token":59},{"Not":711},{"And":[[70,712],null]},{"Token":92},{"Token":59},{"And":[[714,715,64],2]},{"Or":[713,716]},{"Token":28},{"Opt":718},{"Token":27},{"Opt":720},{"Token":92},{"And":[[719,721,722],null]},{"Or":[723]},{"And":[[80],null]},{"Or":[725]},{"Token":37},{"Token":38},{"And":[[727,728],null]},{"Or":[729]},{"Opt":74},{"And":[[64,731],null]},{"Or":[732]},{"Call":[152,[[3,733]]]},{"And":[[734],null]},{"Or":[735]},{"Token":61},{"Call":[150,[[1,64]]]},{"And":[[737,738],null]},{"Or":[739]},{"Token":77},{"Token":27},{"Opt":742},{"And":[[741,743,64],null]},{"Or":[744]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":748},{"And":[[746,747,749,114],null]},{"Or":[750]},{"Token":62},{"Token":92},{"And":[[753],null]},{"Token":89},{"And":[[755],null]},{"Or":[754,756]},{"And":[[752,757],null]},{"Or":[758]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,760]]]},{"Token":83},{"Token":5},{"And":[[763,50],null]},{"Or":[764]},{"Token":77},{"Token":27},{"Opt":767},{"And":[[766,768],null]},{"Or":[769]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[774],null]},{"Token":69},{"And":[[776],null]},{"Token":71},{"And":[[778],null]},{"Or":[775,777,779]},{"Token":73},{"And":[[781],null]},{"Token":75},{"And":[[783],null]},{"Or":[782,784]},{"ContextualToken":[45,"<<"]},{"And":[[786],null]},{"ContextualToken":[47,">>"]},{"And":[[788],null]},{"Or":[787,789]},{"ContextualToken":[49,"&&"]},{"Not":791},{"Token":77},{"And":[[792,793],null]},{"Or":[794]},{"Token":84},{"ContextualToken":[50,"||"]},{"Not":797},{"Token":79},{"And":[[798,799],null]},{"Or":[800]},{"ContextualToken":[49,"&&"]},{"ContextualToken":[50,"||"]},{"Token":53},{"And":[[804],null]},{"Token":74},{"And":[[806],null]},{"Token":76},{"And":[[808],null]},{"Token":68},{"And":[[810],null]},{"Token":70},{"And":[[812],null]},{"Token":72},{"And":[[814],null]},{"Token":78},{"And":[[816],null]},{"Token":80},{"And":[[818],null]},{"Token":85},{"And":[[820],null]},{"ContextualToken":[48,">>="]},{"And":[[822],null]},{"ContextualToken":[46,"<<="]},{"And":[[824],null]},{"Or":[805,807,809,811,813,815,817,819,821,823,825]},{"And":[[80],null]},{"Token":92},{"And":[[828],null]},{"Token":87},{"And":[[830],null]},{"Token":18},{"And":[[832],null]},{"Token":19},{"And":[[834],null]},{"Token":41},{"And":[[836],null]},{"Token":60},{"And":[[838],null]},{"Token":37},{"And":[[840],null]},{"Token":43},{"And":[[842],null]},{"Token":79},{"And":[[844],null]},{"Token":31},{"And":[[846],null]},{"Token":39},{"And":[[848],null]},{"Token":14},{"And":[[850],null]},{"Token":25},{"And":[[852],null]},{"Token":24},{"And":[[854],null]},{"Token":23},{"And":[[856],null]},{"Token":30},{"And":[[858],null]},{"Token":26},{"And":[[860],null]},{"Token":32},{"And":[[862],null]},{"Token":33},{"And":[[864],null]},{"Token":77},{"And":[[866],null]},{"Token":67},{"And":[[868],null]},{"Token":75},{"And":[[870],null]},{"Token":82},{"And":[[872],null]},{"Token":63},{"And":[[874],null]},{"Token":64},{"And":[[876],null]},{"And":[[92],null]},{"And":[[99],null]},{"And":[[100],null]},{"And":[[103],null]},{"And":[[104],null]},{"And":[[106],null]},{"And":[[110],null]},{"Or":[878,879,880,881,882,883,884]},{"Token":62},{"And":[[886],null]},{"Token":83},{"And":[[888],null]},{"Or":[887,889]},{"Not":890},{"And":[[885,891],null]},{"Var":0},{"Exit":[0,893]},{"And":[[894],null]},{"Token":89},{"And":[[896],null]},{"Token":90},{"And":[[898],null]},{"Token":91},{"And":[[900],null]},{"Token":86},{"And":[[902],null]},{"Token":88},{"And":[[904],null]},{"Or":[897,899,901,903,905]},{"Token":92},{"Token":82},{"And":[[907,908],null]},{"Or":[909]},{"Not":910},{"Opt":82},{"And":[[911,40,912],null]},{"Or":[913]},{"IsIn":0},{"Not":915},{"Call":[150,[[1,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[918,919],null]},{"Or":[920]},{"Opt":921},{"And":[[917,922],null]},{"Or":[923]},{"Call":[151,[[2,924]]]},{"And":[[916,925],null]},{"Or":[926]},{"Token":92},{"Token":59},{"And":[[929,76],null]},{"Or":[930]},{"Opt":931},{"And":[[928,932],1]},{"Or":[933]},{"Token":37},{"Token":38},{"And":[[935,936],null]},{"Or":[937]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[939,940],null]},{"Or":[941]},{"Call":[152,[[3,942]]]},{"And":[[943],null]},{"Or":[944]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[150,[[1,947]]]},{"And":[[946,948],null]},{"Or":[949]},{"Token":58},{"And":[[951,76],null]},{"Token":61},{"Call":[150,[[1,76]]]},{"And":[[953,954],null]},{"Or":[952,955]},{"Opt":956},{"And":[[76,957],null]},{"Or":[958]},{"Call":[79,[[0,959]]]},{"Call":[154,[[5,960]]]},{"And":[[961],null]},{"Or":[962]},{"Token":26},{"Opt":964},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[969,49,92],null]},{"And":[[76],null]},{"Or":[970,971]},{"And":[[965,966,967,968,972],null]},{"Or":[973]},{"Token":61},{"And":[[975],null]},{"Token":79},{"Not":977},{"Not":978},{"And":[[979],null]},{"Or":[976,980]},{"And":[[13,981],1]},{"Token":31},{"Opt":76},{"And":[[983,984],null]},{"Or":[985]},{"Token":33},{"And":[[987],null]},{"Token":32},{"And":[[989],null]},{"Or":[988,990]},{"Token":87},{"Opt":992},{"And":[[991,993],null]},{"Or":[994]},{"Token":35},{"Opt":996},{"WithSkip":[94,93]},{"Rep":998},{"Call":[151,[[2,999]]]},{"And":[[997,1000],null]},{"Or":[1001]},{"Call":[79,[[0,1002]]]},{"And":[[1003],null]},{"Or":[1004]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1010],null]},{"Token":58},{"And":[[1012],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1018,76],1]},{"Or":[1019]},{"Opt":1020},{"Token":58},{"And":[[1016,64,1017,1021,1022],1]},{"Or":[1023]},{"Token":59},{"And":[[1025,49],null]},{"Or":[1026]},{"Token":58},{"And":[[1028],null]},{"Or":[1029]},{"And":[[78],null]},"Eof",{"And":[[1032],null]},{"Token":58},{"And":[[1034],null]},{"Or":[1033,1035]},{"And":[[76,1036],1]},{"Or":[1031,1037]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,101,92,1046],1]},{"Or":[1047]},{"Opt":105},{"Token":25},{"And":[[1049,1050,101,92],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,64,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,102],1]},{"Enter":[0,76]},{"And":[[1059],null]},{"Opt":105},{"Token":24},{"And":[[1061,1062,92],2]},{"Or":[1063]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1065,1066,64,1067,102,92],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":107},{"Call":[79,[[0,1074]]]},{"Call":[151,[[2,1075]]]},{"And":[[1073,102,1076],1]},{"Or":[1077]},{"Token":52},{"Token":61},{"Opt":1080},{"And":[[78,1081],null]},{"Token":61},{"And":[[1083],null]},"Eof",{"And":[[1085],null]},{"Or":[1084,1086]},{"And":[[76,1087],null]},{"Or":[1082,1088]},{"And":[[108,1079,1089],1]},{"Or":[1090]},{"Token":79},{"And":[[1092,64],null]},{"Or":[1093]},{"Rep":1094},{"Opt":109},{"And":[[64,1095,1096],null]},{"Token":14},{"And":[[1098,76],null]},{"Or":[1099]},{"And":[[147],null]},{"Or":[1101]},{"And":[[148],null]},{"Or":[1103]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1107},{"And":[[1105,1106,1108,114],null]},{"Or":[1109]},{"And":[[76,1110],null]},{"Or":[1111]},{"And":[[76,114],null]},{"Or":[1113]},{"Call":[150,[[1,115]]]},{"Call":[152,[[3,1115]]]},{"Call":[79,[[0,1116]]]},{"And":[[1117],null]},{"And":[[76],null]},{"Or":[1119]},{"Token":62},{"Token":92},{"And":[[1122],null]},{"Token":89},{"And":[[1124],null]},{"Or":[1123,1125]},{"And":[[1121,1126],null]},{"Or":[1127]},{"And":[[76,1128],null]},{"Or":[1129]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,1131]]]},{"And":[[76,1132],null]},{"Or":[1133]},{"Token":83},{"And":[[76,1135],null]},{"Or":[1136]},{"Token":5},{"And":[[1138,50],null]},{"Or":[1139]},{"And":[[76,1140],null]},{"Or":[1141]},{"Token":77},{"Token":27},{"Opt":1144},{"And":[[1143,1145],null]},{"Or":[1146]},{"And":[[1147,76],null]},{"Or":[1148]},{"Token":77},{"Token":87},{"Opt":1151},{"Token":27},{"Opt":1153},{"And":[[1150,1152,1154],null]},{"Token":67},{"And":[[1156,76],null]},{"Or":[1157]},{"Token":75},{"And":[[1159,76],null]},{"Or":[1160]},{"Token":82},{"And":[[1162,76],null]},{"Or":[1163]},{"Token":67},{"And":[[1165],null]},{"Token":69},{"And":[[1167],null]},{"Token":71},{"And":[[1169],null]},{"Or":[1166,1168,1170]},{"And":[[76,1171,76],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"And":[[76,1178,76],null]},{"Or":[1179]},{"ContextualToken":[45,"<<"]},{"And":[[1181],null]},{"ContextualToken":[47,">>"]},{"And":[[1183],null]},{"Or":[1182,1184]},{"And":[[76,1185,76],null]},{"Or":[1186]},{"ContextualToken":[49,"&&"]},{"Not":1188},{"Token":77},{"And":[[1189,1190],null]},{"Or":[1191]},{"And":[[76,1192,76],null]},{"Or":[1193]},{"Token":84},{"And":[[76,1195,76],null]},{"Or":[1196]},{"ContextualToken":[50,"||"]},{"Not":1198},{"Token":79},{"And":[[1199,1200],null]},{"Or":[1201]},{"And":[[76,1202,76],null]},{"Or":[1203]},{"And":[[76,132,76],null]},{"Or":[1205]},{"Token":54},{"And":[[1207],null]},{"Token":55},{"And":[[1209],null]},{"ContextualToken":[46,"<<="]},{"And":[[1211],null]},{"ContextualToken":[48,">>="]},{"And":[[1213],null]},{"Or":[1212,1214]},{"Not":1215},{"Token":41},{"And":[[1217],null]},{"Token":42},{"And":[[1219],null]},{"Or":[1218,1220]},{"And":[[1216,1221],null]},{"Token":57},{"And":[[1223],null]},{"Token":56},{"And":[[1225],null]},{"ContextualToken":[49,"&&"]},{"And":[[76,1227,76],null]},{"Or":[1228]},{"ContextualToken":[50,"||"]},{"And":[[76,1230,76],null]},{"Or":[1231]},{"And":[[76,140,76],null]},{"Or":[1233]},{"And":[[140,76],null]},{"Or":[1235]},{"And":[[76,139],null]},{"Or":[1237]},{"Token":63},{"Token":39},{"IsIn":0},{"And":[[1240,1241],null]},{"Or":[1242]},{"Not":1243},{"And":[[1244,77],null]},{"Or":[1245]},{"Not":1246},{"And":[[1239,1247],null]},{"Or":[1248]},{"Token":63},{"And":[[1250],null]},{"Token":64},{"And":[[1252],null]},{"Not":77},{"Not":1254},{"Token":39},{"IsIn":0},{"And":[[1256,1257],null]},{"Or":[1258]},{"Not":1259},{"And":[[139,1255,1260],null]},{"Token":53},{"And":[[1262],null]},{"Token":74},{"And":[[1264],null]},{"Token":76},{"And":[[1266],null]},{"Token":68},{"And":[[1268],null]},{"Token":70},{"And":[[1270],null]},{"Token":72},{"And":[[1272],null]},{"Token":78},{"And":[[1274],null]},{"Token":80},{"And":[[1276],null]},{"Token":85},{"And":[[1278],null]},{"ContextualToken":[48,">>="]},{"And":[[1280],null]},{"ContextualToken":[46,"<<="]},{"And":[[1282],null]},{"Or":[1263,1265,1267,1269,1271,1273,1275,1277,1279,1281,1283]},{"And":[[76,1284,76],null]},{"Or":[1285]},{"Token":65},{"And":[[1287,144],null]},{"Or":[1288]},{"Token":65},{"Token":82},{"And":[[1290,1291,144],null]},{"Or":[1292]},{"Call":[150,[[1,146]]]},{"Call":[154,[[5,1294]]]},{"And":[[1295],null]},{"Rep":142},{"And":[[1297],null]},{"Token":92},{"Token":53},{"And":[[1300,76],null]},{"Call":[150,[[1,146]]]},{"Call":[152,[[3,1302]]]},{"And":[[1303],null]},{"Or":[1301,1304]},{"Opt":1305},{"And":[[1299,1306],1]},{"Or":[1307]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1311},{"Rep":149},{"Call":[151,[[2,1313]]]},{"And":[[1309,1310,1312,1314],null]},{"Or":[1315]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1319},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1321,1322,1323],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1325,1326,1327],null]},{"Or":[1324,1328]},{"And":[[1317,1318,1320,1329],null]},{"Or":[1330]},{"Token":37},{"And":[[1332],null]},{"Token":38},{"And":[[1334],null]},{"Token":39},{"And":[[1336],null]},{"Token":40},{"And":[[1338],null]},{"Token":43},{"And":[[1340],null]},{"Token":44},{"And":[[1342],null]},{"Or":[1333,1335,1337,1339,1341,1343]},{"Not":1344},"Any",{"And":[[1345,1346],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1348,1349,1350],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1352,1353,1354],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1356,1357,1358],null]},{"Or":[1347,1351,1355,1359]},{"Var":1},"Eof",{"And":[[1362],null]},{"Token":61},{"And":[[1364],null]},{"Or":[1363,1365]},{"And":[[1361,1366],1]},{"Or":[1367]},{"Rep":1368},{"And":[[1369],null]},{"Token":39},{"Token":40},{"Var":2},{"Call":[155,[[6,1371],[7,1372],[8,1373]]]},{"And":[[1374],null]},{"Token":37},{"Token":38},{"Var":3},{"Call":[155,[[6,1376],[7,1377],[8,1378]]]},{"And":[[1379],null]},{"Token":41},{"Var":4},{"Layer":[157,1382]},{"Token":42},{"And":[[1381,1383,1384],1]},{"Token":43},{"Token":44},{"Var":5},{"Call":[155,[[6,1386],[7,1387],[8,1388]]]},{"And":[[1389],null]},{"Var":6},{"Var":6},{"Var":7},{"Call":[156,[[9,1392],[10,1393]]]},{"Var":8},{"Layer":[1394,1395]},{"Var":7},{"And":[[1391,1396,1397],1]},{"Var":9},{"Var":9},{"Var":10},{"Call":[156,[[9,1400],[10,1401]]]},{"Var":10},{"And":[[1399,1402,1403],1]},{"Var":10},{"Not":1405},"Any",{"And":[[1406,1407],null]},{"Or":[1408]},{"And":[[1409],null]},{"Or":[1404,1410]},{"Rep":1411},{"And":[[1412],null]},{"Token":41},{"Token":42},{"And":[[1414,157,1415],1]},{"Token":37},{"Token":37},{"Token":38},{"Call":[156,[[9,1418],[10,1419]]]},{"Token":38},{"And":[[1417,1420,1421],null]},{"Token":43},{"Token":43},{"Token":44},{"Call":[156,[[9,1424],[10,1425]]]},{"Token":44},{"And":[[1423,1426,1427],null]},{"Token":39},{"Token":39},{"Token":40},{"Call":[156,[[9,1430],[10,1431]]]},{"Token":40},{"And":[[1429,1432,1433],null]},{"Token":42},{"Not":1435},"Any",{"And":[[1436,1437],null]},{"Or":[1438]},{"And":[[1439],null]},{"Or":[1416,1422,1428,1434,1440]},{"Rep":1441},{"And":[[1442],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From d14ec029443fadd3e88bb877b30db8c676ab341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:24 +0000
Subject: [PATCH 35/36] fix: bounds and where clauses end before a semicolon

---
 lang/rust/syntax/src/rust.fall | 4 ++--
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index 711263c..2889dd0 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -328,7 +328,7 @@ pub rule type_parameter {
 
 rule type_bounds {
   ':' {
-    type_bound <commit> {'+' | <eof> | <not <not {',' | '{' | 'where' }>>}
+    type_bound <commit> {'+' | <eof> | <not <not {',' | ';' | '{' | 'where' }>>}
   }*
 }
 
@@ -359,7 +359,7 @@ pub(super) struct Z;
 
 pub rule where_clause {
   'where' <commit>
-    {type_reference type_bounds {',' | <eof> | <not <not '{'>>}}*
+    {type_reference type_bounds {',' | <eof> | <not <not {';' | '{'}>>}}*
 }
 
 test r"
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 0c54679..7eb5cb2 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":159,"replaceable":false}},{"Or":[162]},{"Or":[164,166,168,170,172,174,176,177]},{"Cached":194},{"Pub":{"ty":94,"body":210,"replaceable":false}},{"Pub":{"ty":95,"body":216,"replaceable":false}},{"Pub":{"ty":96,"body":223,"replaceable":false}},{"Pub":{"ty":97,"body":230,"replaceable":false}},{"Pub":{"ty":98,"body":246,"replaceable":false}},{"Or":[248]},{"Pub":{"ty":99,"body":253,"replaceable":false}},{"Or":[259]},{"Pub":{"ty":100,"body":262,"replaceable":false}},{"Pub":{"ty":101,"body":268,"replaceable":false}},{"Pub":{"ty":102,"body":285,"replaceable":false}},{"Pub":{"ty":103,"body":304,"replaceable":false}},{"Pub":{"ty":104,"body":309,"replaceable":false}},{"Pub":{"ty":105,"body":312,"replaceable":false}},{"Pub":{"ty":106,"body":319,"replaceable":false}},{"Pub":{"ty":107,"body":332,"replaceable":false}},{"Pub":{"ty":108,"body":341,"replaceable":false}},{"Pub":{"ty":109,"body":354,"replaceable":false}},{"Pub":{"ty":110,"body":362,"replaceable":false}},{"Pub":{"ty":111,"body":374,"replaceable":false}},{"Or":[375,376,377,378]},{"Or":[380,382,384,386,388,390,392,394,399]},{"Pub":{"ty":112,"body":409,"replaceable":false}},{"Pub":{"ty":113,"body":423,"replaceable":false}},{"Pub":{"ty":114,"body":427,"replaceable":false}},{"Pub":{"ty":115,"body":431,"replaceable":false}},{"Or":[439]},{"Pub":{"ty":116,"body":446,"replaceable":false}},{"Pub":{"ty":117,"body":450,"replaceable":false}},{"Or":[470]},{"Pub":{"ty":118,"body":475,"replaceable":false}},{"Pub":{"ty":119,"body":495,"replaceable":false}},{"Pub":{"ty":120,"body":505,"replaceable":false}},{"Pub":{"ty":121,"body":520,"replaceable":false}},{"Or":[521]},{"Or":[523]},{"Or":[525]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":528,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":532,"replaceable":false}},{"Pub":{"ty":122,"body":537,"replaceable":false}},{"Pub":{"ty":123,"body":544,"replaceable":false}},{"Pub":{"ty":124,"body":558,"replaceable":false}},{"Pub":{"ty":125,"body":584,"replaceable":false}},{"Pub":{"ty":126,"body":589,"replaceable":false}},{"Pub":{"ty":127,"body":593,"replaceable":false}},{"Pub":{"ty":128,"body":599,"replaceable":false}},{"Pub":{"ty":128,"body":601,"replaceable":false}},{"Or":[602,603,604,605,606,607,608,609,610,611]},{"Pub":{"ty":129,"body":613,"replaceable":false}},{"Pub":{"ty":130,"body":615,"replaceable":false}},{"Pub":{"ty":131,"body":623,"replaceable":false}},{"Pub":{"ty":132,"body":626,"replaceable":false}},{"Pub":{"ty":133,"body":630,"replaceable":false}},{"Pub":{"ty":134,"body":636,"replaceable":true}},{"PubReplace":{"ty":135,"body":640}},{"Pub":{"ty":136,"body":643,"replaceable":false}},{"Pub":{"ty":137,"body":654,"replaceable":false}},{"Pub":{"ty":138,"body":661,"replaceable":false}},{"Pub":{"ty":100,"body":667,"replaceable":false}},{"Pub":{"ty":139,"body":670,"replaceable":false}},{"Or":[671,672,673,674,675,676,677]},{"Pub":{"ty":140,"body":680,"replaceable":false}},{"Pub":{"ty":141,"body":686,"replaceable":true}},{"PubReplace":{"ty":142,"body":698}},{"PubReplace":{"ty":143,"body":710}},{"Pub":{"ty":144,"body":717,"replaceable":false}},{"Pub":{"ty":145,"body":724,"replaceable":false}},{"Pub":{"ty":146,"body":726,"replaceable":false}},{"Pub":{"ty":147,"body":730,"replaceable":false}},{"Pub":{"ty":148,"body":736,"replaceable":true}},{"PubReplace":{"ty":149,"body":740}},{"Pub":{"ty":150,"body":745,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,138],"prefixes":[{"ty":184,"op":770,"priority":999},{"ty":185,"op":771,"priority":999},{"ty":186,"op":772,"priority":999},{"ty":187,"op":773,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":751,"priority":999,"has_rhs":false},{"ty":178,"op":114,"priority":999,"has_rhs":false},{"ty":180,"op":759,"priority":999,"has_rhs":false},{"ty":181,"op":761,"priority":999,"has_rhs":false},{"ty":182,"op":762,"priority":999,"has_rhs":false},{"ty":183,"op":765,"priority":12,"has_rhs":false},{"ty":188,"op":780,"priority":11,"has_rhs":true},{"ty":189,"op":785,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":795,"priority":8,"has_rhs":true},{"ty":192,"op":796,"priority":7,"has_rhs":true},{"ty":193,"op":801,"priority":6,"has_rhs":true},{"ty":194,"op":132,"priority":5,"has_rhs":true},{"ty":195,"op":802,"priority":4,"has_rhs":true},{"ty":196,"op":803,"priority":3,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":826,"priority":1,"has_rhs":true}]}},{"Or":[827,829,831,833,835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877]},{"Or":[892]},{"Or":[895]},{"Pub":{"ty":152,"body":906,"replaceable":false}},{"Pub":{"ty":153,"body":914,"replaceable":true}},{"PubReplace":{"ty":154,"body":927}},{"Pub":{"ty":155,"body":934,"replaceable":false}},{"Pub":{"ty":156,"body":938,"replaceable":false}},{"Pub":{"ty":157,"body":945,"replaceable":true}},{"PubReplace":{"ty":158,"body":950}},{"Pub":{"ty":159,"body":963,"replaceable":false}},{"Pub":{"ty":160,"body":974,"replaceable":false}},{"Or":[982]},{"Pub":{"ty":161,"body":986,"replaceable":false}},{"Pub":{"ty":162,"body":995,"replaceable":false}},{"Pub":{"ty":163,"body":1005,"replaceable":false}},{"Or":[1006,1007,1008,1009]},{"Or":[1011,1013,1014,1015]},{"Pub":{"ty":164,"body":1024,"replaceable":false}},{"Pub":{"ty":165,"body":1027,"replaceable":false}},{"Pub":{"ty":166,"body":1030,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1078,"replaceable":false}},{"Pub":{"ty":173,"body":1091,"replaceable":false}},{"Or":[1097]},{"Pub":{"ty":174,"body":1100,"replaceable":false}},{"Pub":{"ty":175,"body":1102,"replaceable":false}},{"Pub":{"ty":176,"body":1104,"replaceable":false}},{"Pub":{"ty":177,"body":1112,"replaceable":false}},{"Pub":{"ty":178,"body":1114,"replaceable":false}},{"Or":[1118]},{"Pub":{"ty":179,"body":1120,"replaceable":false}},{"Pub":{"ty":180,"body":1130,"replaceable":false}},{"Pub":{"ty":181,"body":1134,"replaceable":false}},{"Pub":{"ty":182,"body":1137,"replaceable":false}},{"Pub":{"ty":183,"body":1142,"replaceable":false}},{"Pub":{"ty":184,"body":1149,"replaceable":false}},{"Or":[1155]},{"Pub":{"ty":185,"body":1158,"replaceable":false}},{"Pub":{"ty":186,"body":1161,"replaceable":false}},{"Pub":{"ty":187,"body":1164,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1180,"replaceable":false}},{"Pub":{"ty":190,"body":1187,"replaceable":false}},{"Pub":{"ty":191,"body":1194,"replaceable":false}},{"Pub":{"ty":192,"body":1197,"replaceable":false}},{"Pub":{"ty":193,"body":1204,"replaceable":false}},{"Pub":{"ty":194,"body":1206,"replaceable":false}},{"Or":[1208,1210,1222,1224,1226]},{"Pub":{"ty":195,"body":1229,"replaceable":false}},{"Pub":{"ty":196,"body":1232,"replaceable":false}},{"Pub":{"ty":197,"body":1234,"replaceable":false}},{"Pub":{"ty":197,"body":1236,"replaceable":false}},{"Pub":{"ty":197,"body":1238,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Or":[1251,1253]},{"Or":[1261]},{"Pub":{"ty":198,"body":1286,"replaceable":false}},{"Pub":{"ty":199,"body":1289,"replaceable":false}},{"Pub":{"ty":200,"body":1293,"replaceable":false}},{"Or":[1296]},{"Or":[1298]},{"Pub":{"ty":201,"body":1308,"replaceable":false}},{"Pub":{"ty":202,"body":1316,"replaceable":false}},{"Pub":{"ty":203,"body":1331,"replaceable":false}},{"Pub":{"ty":204,"body":1360,"replaceable":false}},{"Or":[1370]},{"Or":[1375]},{"Or":[1380]},{"Or":[1385]},{"Or":[1390]},{"Or":[1398]},{"Or":[1413]},{"Or":[1443]},{"And":[[1],null]},{"Or":[158]},{"WithSkip":[2,3]},{"Rep":160},{"And":[[161],null]},{"Token":11},{"And":[[163],null]},{"ContextualToken":[4,"union"]},{"And":[[165],null]},{"Token":16},{"And":[[167],null]},{"Token":12},{"And":[[169],null]},{"Token":13},{"And":[[171],null]},{"Token":17},{"And":[[173],null]},{"Token":29},{"And":[[175],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,178],null]},{"Or":[179]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[181,182,183,184,185,186,187,188,189]},{"Inject":[180,190]},{"And":[[191],null]},{"And":[[28],null]},{"Or":[192,193]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[197,5],null]},{"Or":[198]},{"Opt":199},{"And":[[200],null]},{"Or":[196,201]},{"And":[[38,202],null]},{"Token":60},{"Opt":204},{"And":[[205,5],null]},{"Or":[203,206]},{"Token":58},{"And":[[195,207,208],1]},{"Or":[209]},{"Token":67},{"And":[[211],null]},{"Call":[150,[[1,6]]]},{"Call":[151,[[2,213]]]},{"And":[[214],null]},{"Or":[212,215]},{"Token":18},{"Opt":48},{"And":[[217,218],null]},{"Token":92},{"Opt":48},{"And":[[220,221],1]},{"Or":[219,222]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[224,225,226,227,228],2]},{"Or":[229]},{"Token":21},{"Opt":231},{"Token":35},{"Opt":233},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[242],null]},{"Or":[241,243]},{"And":[[232,234,235,236,237,238,11,239,240,244],4]},{"Or":[245]},{"Token":51},{"And":[[247,49],null]},{"Token":7},{"Token":90},{"Opt":250},{"And":[[249,251],null]},{"Or":[252]},{"Opt":14},{"Call":[150,[[1,12]]]},{"And":[[254,255],null]},{"Or":[256]},{"Call":[152,[[3,257]]]},{"And":[[258],null]},{"Token":59},{"And":[[64,260,49],1]},{"Or":[261]},{"Token":59},{"And":[[263,49],null]},{"Or":[264]},{"Opt":265},{"And":[[64,266],null]},{"Or":[267]},{"And":[[121],null]},{"Token":27},{"And":[[270],null]},{"Or":[269,271]},{"Opt":272},{"Token":18},{"Token":59},{"And":[[275,49],null]},{"Or":[276]},{"Opt":277},{"Token":61},{"And":[[279],null]},"Eof",{"And":[[281],null]},{"Or":[280,282]},{"And":[[273,274,278,283],2]},{"Or":[284]},{"Token":11},{"And":[[286],null]},{"ContextualToken":[4,"union"]},{"And":[[288],null]},{"Or":[287,289]},{"Token":92},{"Opt":31},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,293]]]},{"And":[[294],null]},{"Token":58},{"And":[[296],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,298]]]},{"Token":58},{"And":[[299,300],null]},{"Or":[295,297,301]},{"And":[[290,291,292,302],1]},{"Or":[303]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[305,306,307,49],2]},{"Or":[308]},{"Opt":36},{"And":[[310,49],null]},{"Or":[311]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[1,19]]]},{"Call":[151,[[2,316]]]},{"And":[[313,314,315,317],1]},{"Or":[318]},{"Token":92},{"Token":53},{"And":[[321,76],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,323]]]},{"And":[[324],null]},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,326]]]},{"And":[[327],null]},{"Or":[322,325,328]},{"Opt":329},{"And":[[320,330],1]},{"Or":[331]},{"Token":13},{"Token":92},{"Token":58},{"And":[[335],null]},{"Call":[151,[[2,1]]]},{"And":[[337],null]},{"Or":[336,338]},{"And":[[333,334,339],1]},{"Or":[340]},{"Token":35},{"Opt":342},{"Token":17},{"Opt":31},{"Token":23},{"And":[[346,49],null]},{"Or":[347]},{"Opt":348},{"And":[[49,349],null]},{"Or":[350]},{"Opt":37},{"And":[[343,344,345,351,352,23],2]},{"Or":[353]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,355,356,357,358,359,360,23],3]},{"Or":[361]},{"Opt":36},{"And":[[145,363],null]},{"Or":[364]},{"Inject":[365,24]},{"And":[[366],null]},{"And":[[28],null]},{"Or":[367,368]},{"WithSkip":[25,369]},{"Rep":370},{"Call":[151,[[2,371]]]},{"And":[[372],null]},{"Or":[373]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[379],null]},{"Token":8},{"And":[[381],null]},{"Token":20},{"And":[[383],null]},{"Token":21},{"And":[[385],null]},{"Token":22},{"And":[[387],null]},{"Token":35},{"And":[[389],null]},{"Token":65},{"And":[[391],null]},{"Token":7},{"And":[[393],null]},{"Token":92},{"Token":82},{"And":[[395,396],null]},{"Or":[397]},{"And":[[398],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[403,49],null]},{"Or":[404]},{"Opt":405},{"Token":58},{"And":[[400,401,402,406,407],1]},{"Or":[408]},{"Token":21},{"And":[[410],null]},{"Token":22},{"And":[[412],null]},{"Or":[411,413]},{"Token":92},{"Token":59},{"Token":53},{"And":[[417,76],null]},{"Or":[418]},{"Opt":419},{"Token":58},{"And":[[414,415,416,49,420,421],1]},{"Or":[422]},{"And":[[147],null]},{"Token":58},{"And":[[148,425],null]},{"Or":[424,426]},{"Rep":30},{"Call":[151,[[2,428]]]},{"And":[[10,429],null]},{"Or":[430]},{"Opt":36},{"And":[[145,432],null]},{"Or":[433]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[435,436]},{"Inject":[434,437]},{"And":[[438],null]},{"Call":[150,[[1,35]]]},{"Call":[150,[[1,32]]]},{"And":[[440,441],null]},{"Or":[442]},{"Call":[153,[[4,443]]]},{"And":[[444],null]},{"Or":[445]},{"Token":92},{"Opt":33},{"And":[[447,448],1]},{"Or":[449]},{"Token":59},{"Token":73},{"And":[[452],null]},"Eof",{"And":[[454],null]},{"Token":61},{"And":[[456],null]},{"Token":39},{"And":[[458],null]},{"Token":36},{"And":[[460],null]},{"Or":[457,459,461]},{"Not":462},{"Not":463},{"And":[[464],null]},{"Or":[453,455,465]},{"And":[[34,466],1]},{"Or":[467]},{"Rep":468},{"And":[[451,469],null]},{"Token":87},{"And":[[471],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[472,473,474]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[479],null]},"Eof",{"And":[[481],null]},{"Token":61},{"Not":483},{"Not":484},{"And":[[485],null]},{"Or":[480,482,486]},{"And":[[478,487],1]},{"Or":[488]},{"Rep":489},{"And":[[477,490],null]},{"Or":[491]},{"Opt":492},{"And":[[476,493],1]},{"Or":[494]},{"Token":10},{"Token":6},{"And":[[497],null]},{"Token":19},{"And":[[499],null]},{"Or":[498,500]},{"Call":[152,[[3,501]]]},{"Opt":502},{"And":[[496,503],null]},{"Or":[504]},{"Token":36},{"Token":61},{"And":[[507],null]},"Eof",{"And":[[509],null]},{"Token":39},{"Not":511},{"Not":512},{"And":[[513],null]},{"Or":[508,510,514]},{"And":[[49,33,515],null]},{"Or":[516]},{"Rep":517},{"And":[[506,518],1]},{"Or":[519]},{"And":[[41],null]},{"Enter":[2,41]},{"And":[[522],null]},{"Enter":[1,41]},{"And":[[524],null]},{"Token":60},{"And":[[526,45],null]},{"Or":[527]},{"Token":60},{"Opt":529},{"And":[[530,45],null]},{"Or":[531]},{"Token":60},{"And":[[533,45],null]},{"Or":[534]},{"And":[[41,535],null]},{"Or":[536]},{"Token":5},{"And":[[49,538,49],null]},{"Or":[539]},{"Call":[153,[[4,540]]]},{"Token":60},{"And":[[541,542,45],null]},{"Or":[543]},{"Token":92},{"And":[[545],null]},{"Token":18},{"And":[[547],null]},{"Token":19},{"And":[[549],null]},{"Or":[546,548,550]},{"And":[[46],null]},{"IsIn":2},{"And":[[553,47],null]},{"Or":[552,554]},{"Opt":555},{"And":[[551,556],null]},{"Or":[557]},{"IsIn":2},{"And":[[559],null]},{"IsIn":1},{"Token":60},{"And":[[561,562],null]},{"Or":[560,563]},{"Token":87},{"Call":[150,[[1,565]]]},{"Token":92},{"Token":53},{"And":[[567,568],null]},{"Or":[569]},{"Not":570},{"And":[[571,49],null]},{"Or":[572]},{"Call":[150,[[1,573]]]},{"Token":92},{"Token":53},{"And":[[575,576,49],null]},{"Or":[577]},{"Call":[150,[[1,578]]]},{"And":[[566,574,579],null]},{"Or":[580]},{"Call":[153,[[4,581]]]},{"And":[[564,582],null]},{"Or":[583]},{"Call":[150,[[1,49]]]},{"Call":[152,[[3,585]]]},{"Opt":9},{"And":[[586,587],null]},{"Or":[588]},{"Token":5},{"Token":92},{"And":[[590,591],null]},{"Or":[592]},{"Token":73},{"And":[[594,34],null]},{"Or":[595]},{"Rep":596},{"And":[[51,597],null]},{"Or":[598]},{"And":[[51],null]},{"Or":[600]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[612]},{"And":[[121,49],null]},{"Or":[614]},{"Token":67},{"Token":21},{"And":[[617],null]},{"Token":27},{"And":[[619],null]},{"Or":[618,620]},{"And":[[616,621,49],null]},{"Or":[622]},{"Token":81},{"And":[[624],null]},{"Or":[625]},{"Token":37},{"Token":38},{"And":[[627,628],null]},{"Or":[629]},{"Opt":58},{"And":[[49,631],null]},{"Or":[632]},{"Call":[152,[[3,633]]]},{"And":[[634],null]},{"Or":[635]},{"Token":61},{"Call":[150,[[1,49]]]},{"And":[[637,638],null]},{"Or":[639]},{"Token":82},{"And":[[641],null]},{"Or":[642]},{"Token":58},{"Call":[79,[[0,76]]]},{"Exit":[2,645]},{"And":[[644,646],null]},{"Or":[647]},{"Opt":648},{"And":[[49,649],null]},{"Or":[650]},{"Call":[154,[[5,651]]]},{"And":[[652],null]},{"Or":[653]},{"Opt":10},{"Token":8},{"Call":[150,[[1,62]]]},{"Call":[152,[[3,657]]]},{"Opt":9},{"And":[[655,656,658,659],2]},{"Or":[660]},{"Token":59},{"And":[[64,662],null]},{"Or":[663]},{"Opt":664},{"And":[[665,49],null]},{"Or":[666]},{"Token":23},{"And":[[668,31,49],1]},{"Or":[669]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[678],null]},{"Or":[679]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[681,682]},{"Opt":683},{"And":[[40,684],null]},{"Or":[685]},{"Call":[150,[[1,64]]]},{"Token":63},{"Token":61},{"Opt":689},{"And":[[688,690],null]},{"Or":[691]},{"Opt":692},{"And":[[687,693],null]},{"Or":[694]},{"Call":[152,[[3,695]]]},{"And":[[696],null]},{"Or":[697]},{"Call":[150,[[1,69]]]},{"Token":63},{"Token":61},{"Opt":701},{"And":[[700,702],null]},{"Or":[703]},{"Opt":704},{"And":[[699,705],null]},{"Or":[706]},{"Call":[151,[[2,707]]]},{"And":[[708],null]},{"Or":[709]},{"Token":59},{"Not":711},{"And":[[70,712],null]},{"Token":92},{"Token":59},{"And":[[714,715,64],2]},{"Or":[713,716]},{"Token":28},{"Opt":718},{"Token":27},{"Opt":720},{"Token":92},{"And":[[719,721,722],null]},{"Or":[723]},{"And":[[80],null]},{"Or":[725]},{"Token":37},{"Token":38},{"And":[[727,728],null]},{"Or":[729]},{"Opt":74},{"And":[[64,731],null]},{"Or":[732]},{"Call":[152,[[3,733]]]},{"And":[[734],null]},{"Or":[735]},{"Token":61},{"Call":[150,[[1,64]]]},{"And":[[737,738],null]},{"Or":[739]},{"Token":77},{"Token":27},{"Opt":742},{"And":[[741,743,64],null]},{"Or":[744]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":748},{"And":[[746,747,749,114],null]},{"Or":[750]},{"Token":62},{"Token":92},{"And":[[753],null]},{"Token":89},{"And":[[755],null]},{"Or":[754,756]},{"And":[[752,757],null]},{"Or":[758]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,760]]]},{"Token":83},{"Token":5},{"And":[[763,50],null]},{"Or":[764]},{"Token":77},{"Token":27},{"Opt":767},{"And":[[766,768],null]},{"Or":[769]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[774],null]},{"Token":69},{"And":[[776],null]},{"Token":71},{"And":[[778],null]},{"Or":[775,777,779]},{"Token":73},{"And":[[781],null]},{"Token":75},{"And":[[783],null]},{"Or":[782,784]},{"ContextualToken":[45,"<<"]},{"And":[[786],null]},{"ContextualToken":[47,">>"]},{"And":[[788],null]},{"Or":[787,789]},{"ContextualToken":[49,"&&"]},{"Not":791},{"Token":77},{"And":[[792,793],null]},{"Or":[794]},{"Token":84},{"ContextualToken":[50,"||"]},{"Not":797},{"Token":79},{"And":[[798,799],null]},{"Or":[800]},{"ContextualToken":[49,"&&"]},{"ContextualToken":[50,"||"]},{"Token":53},{"And":[[804],null]},{"Token":74},{"And":[[806],null]},{"Token":76},{"And":[[808],null]},{"Token":68},{"And":[[810],null]},{"Token":70},{"And":[[812],null]},{"Token":72},{"And":[[814],null]},{"Token":78},{"And":[[816],null]},{"Token":80},{"And":[[818],null]},{"Token":85},{"And":[[820],null]},{"ContextualToken":[48,">>="]},{"And":[[822],null]},{"ContextualToken":[46,"<<="]},{"And":[[824],null]},{"Or":[805,807,809,811,813,815,817,819,821,823,825]},{"And":[[80],null]},{"Token":92},{"And":[[828],null]},{"Token":87},{"And":[[830],null]},{"Token":18},{"And":[[832],null]},{"Token":19},{"And":[[834],null]},{"Token":41},{"And":[[836],null]},{"Token":60},{"And":[[838],null]},{"Token":37},{"And":[[840],null]},{"Token":43},{"And":[[842],null]},{"Token":79},{"And":[[844],null]},{"Token":31},{"And":[[846],null]},{"Token":39},{"And":[[848],null]},{"Token":14},{"And":[[850],null]},{"Token":25},{"And":[[852],null]},{"Token":24},{"And":[[854],null]},{"Token":23},{"And":[[856],null]},{"Token":30},{"And":[[858],null]},{"Token":26},{"And":[[860],null]},{"Token":32},{"And":[[862],null]},{"Token":33},{"And":[[864],null]},{"Token":77},{"And":[[866],null]},{"Token":67},{"And":[[868],null]},{"Token":75},{"And":[[870],null]},{"Token":82},{"And":[[872],null]},{"Token":63},{"And":[[874],null]},{"Token":64},{"And":[[876],null]},{"And":[[92],null]},{"And":[[99],null]},{"And":[[100],null]},{"And":[[103],null]},{"And":[[104],null]},{"And":[[106],null]},{"And":[[110],null]},{"Or":[878,879,880,881,882,883,884]},{"Token":62},{"And":[[886],null]},{"Token":83},{"And":[[888],null]},{"Or":[887,889]},{"Not":890},{"And":[[885,891],null]},{"Var":0},{"Exit":[0,893]},{"And":[[894],null]},{"Token":89},{"And":[[896],null]},{"Token":90},{"And":[[898],null]},{"Token":91},{"And":[[900],null]},{"Token":86},{"And":[[902],null]},{"Token":88},{"And":[[904],null]},{"Or":[897,899,901,903,905]},{"Token":92},{"Token":82},{"And":[[907,908],null]},{"Or":[909]},{"Not":910},{"Opt":82},{"And":[[911,40,912],null]},{"Or":[913]},{"IsIn":0},{"Not":915},{"Call":[150,[[1,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[918,919],null]},{"Or":[920]},{"Opt":921},{"And":[[917,922],null]},{"Or":[923]},{"Call":[151,[[2,924]]]},{"And":[[916,925],null]},{"Or":[926]},{"Token":92},{"Token":59},{"And":[[929,76],null]},{"Or":[930]},{"Opt":931},{"And":[[928,932],1]},{"Or":[933]},{"Token":37},{"Token":38},{"And":[[935,936],null]},{"Or":[937]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[939,940],null]},{"Or":[941]},{"Call":[152,[[3,942]]]},{"And":[[943],null]},{"Or":[944]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[150,[[1,947]]]},{"And":[[946,948],null]},{"Or":[949]},{"Token":58},{"And":[[951,76],null]},{"Token":61},{"Call":[150,[[1,76]]]},{"And":[[953,954],null]},{"Or":[952,955]},{"Opt":956},{"And":[[76,957],null]},{"Or":[958]},{"Call":[79,[[0,959]]]},{"Call":[154,[[5,960]]]},{"And":[[961],null]},{"Or":[962]},{"Token":26},{"Opt":964},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[969,49,92],null]},{"And":[[76],null]},{"Or":[970,971]},{"And":[[965,966,967,968,972],null]},{"Or":[973]},{"Token":61},{"And":[[975],null]},{"Token":79},{"Not":977},{"Not":978},{"And":[[979],null]},{"Or":[976,980]},{"And":[[13,981],1]},{"Token":31},{"Opt":76},{"And":[[983,984],null]},{"Or":[985]},{"Token":33},{"And":[[987],null]},{"Token":32},{"And":[[989],null]},{"Or":[988,990]},{"Token":87},{"Opt":992},{"And":[[991,993],null]},{"Or":[994]},{"Token":35},{"Opt":996},{"WithSkip":[94,93]},{"Rep":998},{"Call":[151,[[2,999]]]},{"And":[[997,1000],null]},{"Or":[1001]},{"Call":[79,[[0,1002]]]},{"And":[[1003],null]},{"Or":[1004]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1010],null]},{"Token":58},{"And":[[1012],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1018,76],1]},{"Or":[1019]},{"Opt":1020},{"Token":58},{"And":[[1016,64,1017,1021,1022],1]},{"Or":[1023]},{"Token":59},{"And":[[1025,49],null]},{"Or":[1026]},{"Token":58},{"And":[[1028],null]},{"Or":[1029]},{"And":[[78],null]},"Eof",{"And":[[1032],null]},{"Token":58},{"And":[[1034],null]},{"Or":[1033,1035]},{"And":[[76,1036],1]},{"Or":[1031,1037]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,101,92,1046],1]},{"Or":[1047]},{"Opt":105},{"Token":25},{"And":[[1049,1050,101,92],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,64,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,102],1]},{"Enter":[0,76]},{"And":[[1059],null]},{"Opt":105},{"Token":24},{"And":[[1061,1062,92],2]},{"Or":[1063]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1065,1066,64,1067,102,92],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":107},{"Call":[79,[[0,1074]]]},{"Call":[151,[[2,1075]]]},{"And":[[1073,102,1076],1]},{"Or":[1077]},{"Token":52},{"Token":61},{"Opt":1080},{"And":[[78,1081],null]},{"Token":61},{"And":[[1083],null]},"Eof",{"And":[[1085],null]},{"Or":[1084,1086]},{"And":[[76,1087],null]},{"Or":[1082,1088]},{"And":[[108,1079,1089],1]},{"Or":[1090]},{"Token":79},{"And":[[1092,64],null]},{"Or":[1093]},{"Rep":1094},{"Opt":109},{"And":[[64,1095,1096],null]},{"Token":14},{"And":[[1098,76],null]},{"Or":[1099]},{"And":[[147],null]},{"Or":[1101]},{"And":[[148],null]},{"Or":[1103]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1107},{"And":[[1105,1106,1108,114],null]},{"Or":[1109]},{"And":[[76,1110],null]},{"Or":[1111]},{"And":[[76,114],null]},{"Or":[1113]},{"Call":[150,[[1,115]]]},{"Call":[152,[[3,1115]]]},{"Call":[79,[[0,1116]]]},{"And":[[1117],null]},{"And":[[76],null]},{"Or":[1119]},{"Token":62},{"Token":92},{"And":[[1122],null]},{"Token":89},{"And":[[1124],null]},{"Or":[1123,1125]},{"And":[[1121,1126],null]},{"Or":[1127]},{"And":[[76,1128],null]},{"Or":[1129]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,1131]]]},{"And":[[76,1132],null]},{"Or":[1133]},{"Token":83},{"And":[[76,1135],null]},{"Or":[1136]},{"Token":5},{"And":[[1138,50],null]},{"Or":[1139]},{"And":[[76,1140],null]},{"Or":[1141]},{"Token":77},{"Token":27},{"Opt":1144},{"And":[[1143,1145],null]},{"Or":[1146]},{"And":[[1147,76],null]},{"Or":[1148]},{"Token":77},{"Token":87},{"Opt":1151},{"Token":27},{"Opt":1153},{"And":[[1150,1152,1154],null]},{"Token":67},{"And":[[1156,76],null]},{"Or":[1157]},{"Token":75},{"And":[[1159,76],null]},{"Or":[1160]},{"Token":82},{"And":[[1162,76],null]},{"Or":[1163]},{"Token":67},{"And":[[1165],null]},{"Token":69},{"And":[[1167],null]},{"Token":71},{"And":[[1169],null]},{"Or":[1166,1168,1170]},{"And":[[76,1171,76],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"And":[[76,1178,76],null]},{"Or":[1179]},{"ContextualToken":[45,"<<"]},{"And":[[1181],null]},{"ContextualToken":[47,">>"]},{"And":[[1183],null]},{"Or":[1182,1184]},{"And":[[76,1185,76],null]},{"Or":[1186]},{"ContextualToken":[49,"&&"]},{"Not":1188},{"Token":77},{"And":[[1189,1190],null]},{"Or":[1191]},{"And":[[76,1192,76],null]},{"Or":[1193]},{"Token":84},{"And":[[76,1195,76],null]},{"Or":[1196]},{"ContextualToken":[50,"||"]},{"Not":1198},{"Token":79},{"And":[[1199,1200],null]},{"Or":[1201]},{"And":[[76,1202,76],null]},{"Or":[1203]},{"And":[[76,132,76],null]},{"Or":[1205]},{"Token":54},{"And":[[1207],null]},{"Token":55},{"And":[[1209],null]},{"ContextualToken":[46,"<<="]},{"And":[[1211],null]},{"ContextualToken":[48,">>="]},{"And":[[1213],null]},{"Or":[1212,1214]},{"Not":1215},{"Token":41},{"And":[[1217],null]},{"Token":42},{"And":[[1219],null]},{"Or":[1218,1220]},{"And":[[1216,1221],null]},{"Token":57},{"And":[[1223],null]},{"Token":56},{"And":[[1225],null]},{"ContextualToken":[49,"&&"]},{"And":[[76,1227,76],null]},{"Or":[1228]},{"ContextualToken":[50,"||"]},{"And":[[76,1230,76],null]},{"Or":[1231]},{"And":[[76,140,76],null]},{"Or":[1233]},{"And":[[140,76],null]},{"Or":[1235]},{"And":[[76,139],null]},{"Or":[1237]},{"Token":63},{"Token":39},{"IsIn":0},{"And":[[1240,1241],null]},{"Or":[1242]},{"Not":1243},{"And":[[1244,77],null]},{"Or":[1245]},{"Not":1246},{"And":[[1239,1247],null]},{"Or":[1248]},{"Token":63},{"And":[[1250],null]},{"Token":64},{"And":[[1252],null]},{"Not":77},{"Not":1254},{"Token":39},{"IsIn":0},{"And":[[1256,1257],null]},{"Or":[1258]},{"Not":1259},{"And":[[139,1255,1260],null]},{"Token":53},{"And":[[1262],null]},{"Token":74},{"And":[[1264],null]},{"Token":76},{"And":[[1266],null]},{"Token":68},{"And":[[1268],null]},{"Token":70},{"And":[[1270],null]},{"Token":72},{"And":[[1272],null]},{"Token":78},{"And":[[1274],null]},{"Token":80},{"And":[[1276],null]},{"Token":85},{"And":[[1278],null]},{"ContextualToken":[48,">>="]},{"And":[[1280],null]},{"ContextualToken":[46,"<<="]},{"And":[[1282],null]},{"Or":[1263,1265,1267,1269,1271,1273,1275,1277,1279,1281,1283]},{"And":[[76,1284,76],null]},{"Or":[1285]},{"Token":65},{"And":[[1287,144],null]},{"Or":[1288]},{"Token":65},{"Token":82},{"And":[[1290,1291,144],null]},{"Or":[1292]},{"Call":[150,[[1,146]]]},{"Call":[154,[[5,1294]]]},{"And":[[1295],null]},{"Rep":142},{"And":[[1297],null]},{"Token":92},{"Token":53},{"And":[[1300,76],null]},{"Call":[150,[[1,146]]]},{"Call":[152,[[3,1302]]]},{"And":[[1303],null]},{"Or":[1301,1304]},{"Opt":1305},{"And":[[1299,1306],1]},{"Or":[1307]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1311},{"Rep":149},{"Call":[151,[[2,1313]]]},{"And":[[1309,1310,1312,1314],null]},{"Or":[1315]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1319},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1321,1322,1323],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1325,1326,1327],null]},{"Or":[1324,1328]},{"And":[[1317,1318,1320,1329],null]},{"Or":[1330]},{"Token":37},{"And":[[1332],null]},{"Token":38},{"And":[[1334],null]},{"Token":39},{"And":[[1336],null]},{"Token":40},{"And":[[1338],null]},{"Token":43},{"And":[[1340],null]},{"Token":44},{"And":[[1342],null]},{"Or":[1333,1335,1337,1339,1341,1343]},{"Not":1344},"Any",{"And":[[1345,1346],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1348,1349,1350],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1352,1353,1354],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1356,1357,1358],null]},{"Or":[1347,1351,1355,1359]},{"Var":1},"Eof",{"And":[[1362],null]},{"Token":61},{"And":[[1364],null]},{"Or":[1363,1365]},{"And":[[1361,1366],1]},{"Or":[1367]},{"Rep":1368},{"And":[[1369],null]},{"Token":39},{"Token":40},{"Var":2},{"Call":[155,[[6,1371],[7,1372],[8,1373]]]},{"And":[[1374],null]},{"Token":37},{"Token":38},{"Var":3},{"Call":[155,[[6,1376],[7,1377],[8,1378]]]},{"And":[[1379],null]},{"Token":41},{"Var":4},{"Layer":[157,1382]},{"Token":42},{"And":[[1381,1383,1384],1]},{"Token":43},{"Token":44},{"Var":5},{"Call":[155,[[6,1386],[7,1387],[8,1388]]]},{"And":[[1389],null]},{"Var":6},{"Var":6},{"Var":7},{"Call":[156,[[9,1392],[10,1393]]]},{"Var":8},{"Layer":[1394,1395]},{"Var":7},{"And":[[1391,1396,1397],1]},{"Var":9},{"Var":9},{"Var":10},{"Call":[156,[[9,1400],[10,1401]]]},{"Var":10},{"And":[[1399,1402,1403],1]},{"Var":10},{"Not":1405},"Any",{"And":[[1406,1407],null]},{"Or":[1408]},{"And":[[1409],null]},{"Or":[1404,1410]},{"Rep":1411},{"And":[[1412],null]},{"Token":41},{"Token":42},{"And":[[1414,157,1415],1]},{"Token":37},{"Token":37},{"Token":38},{"Call":[156,[[9,1418],[10,1419]]]},{"Token":38},{"And":[[1417,1420,1421],null]},{"Token":43},{"Token":43},{"Token":44},{"Call":[156,[[9,1424],[10,1425]]]},{"Token":44},{"And":[[1423,1426,1427],null]},{"Token":39},{"Token":39},{"Token":40},{"Call":[156,[[9,1430],[10,1431]]]},{"Token":40},{"And":[[1429,1432,1433],null]},{"Token":42},{"Not":1435},"Any",{"And":[[1436,1437],null]},{"Or":[1438]},{"And":[[1439],null]},{"Or":[1416,1422,1428,1434,1440]},{"Rep":1441},{"And":[[1442],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":159,"replaceable":false}},{"Or":[162]},{"Or":[164,166,168,170,172,174,176,177]},{"Cached":194},{"Pub":{"ty":94,"body":210,"replaceable":false}},{"Pub":{"ty":95,"body":216,"replaceable":false}},{"Pub":{"ty":96,"body":223,"replaceable":false}},{"Pub":{"ty":97,"body":230,"replaceable":false}},{"Pub":{"ty":98,"body":246,"replaceable":false}},{"Or":[248]},{"Pub":{"ty":99,"body":253,"replaceable":false}},{"Or":[259]},{"Pub":{"ty":100,"body":262,"replaceable":false}},{"Pub":{"ty":101,"body":268,"replaceable":false}},{"Pub":{"ty":102,"body":285,"replaceable":false}},{"Pub":{"ty":103,"body":304,"replaceable":false}},{"Pub":{"ty":104,"body":309,"replaceable":false}},{"Pub":{"ty":105,"body":312,"replaceable":false}},{"Pub":{"ty":106,"body":319,"replaceable":false}},{"Pub":{"ty":107,"body":332,"replaceable":false}},{"Pub":{"ty":108,"body":341,"replaceable":false}},{"Pub":{"ty":109,"body":354,"replaceable":false}},{"Pub":{"ty":110,"body":362,"replaceable":false}},{"Pub":{"ty":111,"body":374,"replaceable":false}},{"Or":[375,376,377,378]},{"Or":[380,382,384,386,388,390,392,394,399]},{"Pub":{"ty":112,"body":409,"replaceable":false}},{"Pub":{"ty":113,"body":423,"replaceable":false}},{"Pub":{"ty":114,"body":427,"replaceable":false}},{"Pub":{"ty":115,"body":431,"replaceable":false}},{"Or":[439]},{"Pub":{"ty":116,"body":446,"replaceable":false}},{"Pub":{"ty":117,"body":450,"replaceable":false}},{"Or":[472]},{"Pub":{"ty":118,"body":477,"replaceable":false}},{"Pub":{"ty":119,"body":497,"replaceable":false}},{"Pub":{"ty":120,"body":507,"replaceable":false}},{"Pub":{"ty":121,"body":526,"replaceable":false}},{"Or":[527]},{"Or":[529]},{"Or":[531]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":534,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":538,"replaceable":false}},{"Pub":{"ty":122,"body":543,"replaceable":false}},{"Pub":{"ty":123,"body":550,"replaceable":false}},{"Pub":{"ty":124,"body":564,"replaceable":false}},{"Pub":{"ty":125,"body":590,"replaceable":false}},{"Pub":{"ty":126,"body":595,"replaceable":false}},{"Pub":{"ty":127,"body":599,"replaceable":false}},{"Pub":{"ty":128,"body":605,"replaceable":false}},{"Pub":{"ty":128,"body":607,"replaceable":false}},{"Or":[608,609,610,611,612,613,614,615,616,617]},{"Pub":{"ty":129,"body":619,"replaceable":false}},{"Pub":{"ty":130,"body":621,"replaceable":false}},{"Pub":{"ty":131,"body":629,"replaceable":false}},{"Pub":{"ty":132,"body":632,"replaceable":false}},{"Pub":{"ty":133,"body":636,"replaceable":false}},{"Pub":{"ty":134,"body":642,"replaceable":true}},{"PubReplace":{"ty":135,"body":646}},{"Pub":{"ty":136,"body":649,"replaceable":false}},{"Pub":{"ty":137,"body":660,"replaceable":false}},{"Pub":{"ty":138,"body":667,"replaceable":false}},{"Pub":{"ty":100,"body":673,"replaceable":false}},{"Pub":{"ty":139,"body":676,"replaceable":false}},{"Or":[677,678,679,680,681,682,683]},{"Pub":{"ty":140,"body":686,"replaceable":false}},{"Pub":{"ty":141,"body":692,"replaceable":true}},{"PubReplace":{"ty":142,"body":704}},{"PubReplace":{"ty":143,"body":716}},{"Pub":{"ty":144,"body":723,"replaceable":false}},{"Pub":{"ty":145,"body":730,"replaceable":false}},{"Pub":{"ty":146,"body":732,"replaceable":false}},{"Pub":{"ty":147,"body":736,"replaceable":false}},{"Pub":{"ty":148,"body":742,"replaceable":true}},{"PubReplace":{"ty":149,"body":746}},{"Pub":{"ty":150,"body":751,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,138],"prefixes":[{"ty":184,"op":776,"priority":999},{"ty":185,"op":777,"priority":999},{"ty":186,"op":778,"priority":999},{"ty":187,"op":779,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":757,"priority":999,"has_rhs":false},{"ty":178,"op":114,"priority":999,"has_rhs":false},{"ty":180,"op":765,"priority":999,"has_rhs":false},{"ty":181,"op":767,"priority":999,"has_rhs":false},{"ty":182,"op":768,"priority":999,"has_rhs":false},{"ty":183,"op":771,"priority":12,"has_rhs":false},{"ty":188,"op":786,"priority":11,"has_rhs":true},{"ty":189,"op":791,"priority":10,"has_rhs":true},{"ty":190,"op":796,"priority":9,"has_rhs":true},{"ty":191,"op":801,"priority":8,"has_rhs":true},{"ty":192,"op":802,"priority":7,"has_rhs":true},{"ty":193,"op":807,"priority":6,"has_rhs":true},{"ty":194,"op":132,"priority":5,"has_rhs":true},{"ty":195,"op":808,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":832,"priority":1,"has_rhs":true}]}},{"Or":[833,835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883]},{"Or":[898]},{"Or":[901]},{"Pub":{"ty":152,"body":912,"replaceable":false}},{"Pub":{"ty":153,"body":920,"replaceable":true}},{"PubReplace":{"ty":154,"body":933}},{"Pub":{"ty":155,"body":940,"replaceable":false}},{"Pub":{"ty":156,"body":944,"replaceable":false}},{"Pub":{"ty":157,"body":951,"replaceable":true}},{"PubReplace":{"ty":158,"body":956}},{"Pub":{"ty":159,"body":969,"replaceable":false}},{"Pub":{"ty":160,"body":980,"replaceable":false}},{"Or":[988]},{"Pub":{"ty":161,"body":992,"replaceable":false}},{"Pub":{"ty":162,"body":1001,"replaceable":false}},{"Pub":{"ty":163,"body":1011,"replaceable":false}},{"Or":[1012,1013,1014,1015]},{"Or":[1017,1019,1020,1021]},{"Pub":{"ty":164,"body":1030,"replaceable":false}},{"Pub":{"ty":165,"body":1033,"replaceable":false}},{"Pub":{"ty":166,"body":1036,"replaceable":false}},{"Pub":{"ty":167,"body":1044,"replaceable":false}},{"Pub":{"ty":168,"body":1054,"replaceable":false}},{"Pub":{"ty":169,"body":1058,"replaceable":false}},{"Or":[1064]},{"Or":[1066]},{"Pub":{"ty":170,"body":1070,"replaceable":false}},{"Pub":{"ty":171,"body":1075,"replaceable":false}},{"Or":[1078]},{"Pub":{"ty":172,"body":1084,"replaceable":false}},{"Pub":{"ty":173,"body":1097,"replaceable":false}},{"Or":[1103]},{"Pub":{"ty":174,"body":1106,"replaceable":false}},{"Pub":{"ty":175,"body":1108,"replaceable":false}},{"Pub":{"ty":176,"body":1110,"replaceable":false}},{"Pub":{"ty":177,"body":1118,"replaceable":false}},{"Pub":{"ty":178,"body":1120,"replaceable":false}},{"Or":[1124]},{"Pub":{"ty":179,"body":1126,"replaceable":false}},{"Pub":{"ty":180,"body":1136,"replaceable":false}},{"Pub":{"ty":181,"body":1140,"replaceable":false}},{"Pub":{"ty":182,"body":1143,"replaceable":false}},{"Pub":{"ty":183,"body":1148,"replaceable":false}},{"Pub":{"ty":184,"body":1155,"replaceable":false}},{"Or":[1161]},{"Pub":{"ty":185,"body":1164,"replaceable":false}},{"Pub":{"ty":186,"body":1167,"replaceable":false}},{"Pub":{"ty":187,"body":1170,"replaceable":false}},{"Pub":{"ty":188,"body":1179,"replaceable":false}},{"Pub":{"ty":189,"body":1186,"replaceable":false}},{"Pub":{"ty":190,"body":1193,"replaceable":false}},{"Pub":{"ty":191,"body":1200,"replaceable":false}},{"Pub":{"ty":192,"body":1203,"replaceable":false}},{"Pub":{"ty":193,"body":1210,"replaceable":false}},{"Pub":{"ty":194,"body":1212,"replaceable":false}},{"Or":[1214,1216,1228,1230,1232]},{"Pub":{"ty":195,"body":1235,"replaceable":false}},{"Pub":{"ty":196,"body":1238,"replaceable":false}},{"Pub":{"ty":197,"body":1240,"replaceable":false}},{"Pub":{"ty":197,"body":1242,"replaceable":false}},{"Pub":{"ty":197,"body":1244,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Or":[1257,1259]},{"Or":[1267]},{"Pub":{"ty":198,"body":1292,"replaceable":false}},{"Pub":{"ty":199,"body":1295,"replaceable":false}},{"Pub":{"ty":200,"body":1299,"replaceable":false}},{"Or":[1302]},{"Or":[1304]},{"Pub":{"ty":201,"body":1314,"replaceable":false}},{"Pub":{"ty":202,"body":1322,"replaceable":false}},{"Pub":{"ty":203,"body":1337,"replaceable":false}},{"Pub":{"ty":204,"body":1366,"replaceable":false}},{"Or":[1376]},{"Or":[1381]},{"Or":[1386]},{"Or":[1391]},{"Or":[1396]},{"Or":[1404]},{"Or":[1419]},{"Or":[1449]},{"And":[[1],null]},{"Or":[158]},{"WithSkip":[2,3]},{"Rep":160},{"And":[[161],null]},{"Token":11},{"And":[[163],null]},{"ContextualToken":[4,"union"]},{"And":[[165],null]},{"Token":16},{"And":[[167],null]},{"Token":12},{"And":[[169],null]},{"Token":13},{"And":[[171],null]},{"Token":17},{"And":[[173],null]},{"Token":29},{"And":[[175],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,178],null]},{"Or":[179]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[181,182,183,184,185,186,187,188,189]},{"Inject":[180,190]},{"And":[[191],null]},{"And":[[28],null]},{"Or":[192,193]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[197,5],null]},{"Or":[198]},{"Opt":199},{"And":[[200],null]},{"Or":[196,201]},{"And":[[38,202],null]},{"Token":60},{"Opt":204},{"And":[[205,5],null]},{"Or":[203,206]},{"Token":58},{"And":[[195,207,208],1]},{"Or":[209]},{"Token":67},{"And":[[211],null]},{"Call":[150,[[1,6]]]},{"Call":[151,[[2,213]]]},{"And":[[214],null]},{"Or":[212,215]},{"Token":18},{"Opt":48},{"And":[[217,218],null]},{"Token":92},{"Opt":48},{"And":[[220,221],1]},{"Or":[219,222]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[224,225,226,227,228],2]},{"Or":[229]},{"Token":21},{"Opt":231},{"Token":35},{"Opt":233},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[242],null]},{"Or":[241,243]},{"And":[[232,234,235,236,237,238,11,239,240,244],4]},{"Or":[245]},{"Token":51},{"And":[[247,49],null]},{"Token":7},{"Token":90},{"Opt":250},{"And":[[249,251],null]},{"Or":[252]},{"Opt":14},{"Call":[150,[[1,12]]]},{"And":[[254,255],null]},{"Or":[256]},{"Call":[152,[[3,257]]]},{"And":[[258],null]},{"Token":59},{"And":[[64,260,49],1]},{"Or":[261]},{"Token":59},{"And":[[263,49],null]},{"Or":[264]},{"Opt":265},{"And":[[64,266],null]},{"Or":[267]},{"And":[[121],null]},{"Token":27},{"And":[[270],null]},{"Or":[269,271]},{"Opt":272},{"Token":18},{"Token":59},{"And":[[275,49],null]},{"Or":[276]},{"Opt":277},{"Token":61},{"And":[[279],null]},"Eof",{"And":[[281],null]},{"Or":[280,282]},{"And":[[273,274,278,283],2]},{"Or":[284]},{"Token":11},{"And":[[286],null]},{"ContextualToken":[4,"union"]},{"And":[[288],null]},{"Or":[287,289]},{"Token":92},{"Opt":31},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,293]]]},{"And":[[294],null]},{"Token":58},{"And":[[296],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,298]]]},{"Token":58},{"And":[[299,300],null]},{"Or":[295,297,301]},{"And":[[290,291,292,302],1]},{"Or":[303]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[305,306,307,49],2]},{"Or":[308]},{"Opt":36},{"And":[[310,49],null]},{"Or":[311]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[1,19]]]},{"Call":[151,[[2,316]]]},{"And":[[313,314,315,317],1]},{"Or":[318]},{"Token":92},{"Token":53},{"And":[[321,76],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,323]]]},{"And":[[324],null]},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,326]]]},{"And":[[327],null]},{"Or":[322,325,328]},{"Opt":329},{"And":[[320,330],1]},{"Or":[331]},{"Token":13},{"Token":92},{"Token":58},{"And":[[335],null]},{"Call":[151,[[2,1]]]},{"And":[[337],null]},{"Or":[336,338]},{"And":[[333,334,339],1]},{"Or":[340]},{"Token":35},{"Opt":342},{"Token":17},{"Opt":31},{"Token":23},{"And":[[346,49],null]},{"Or":[347]},{"Opt":348},{"And":[[49,349],null]},{"Or":[350]},{"Opt":37},{"And":[[343,344,345,351,352,23],2]},{"Or":[353]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,355,356,357,358,359,360,23],3]},{"Or":[361]},{"Opt":36},{"And":[[145,363],null]},{"Or":[364]},{"Inject":[365,24]},{"And":[[366],null]},{"And":[[28],null]},{"Or":[367,368]},{"WithSkip":[25,369]},{"Rep":370},{"Call":[151,[[2,371]]]},{"And":[[372],null]},{"Or":[373]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[379],null]},{"Token":8},{"And":[[381],null]},{"Token":20},{"And":[[383],null]},{"Token":21},{"And":[[385],null]},{"Token":22},{"And":[[387],null]},{"Token":35},{"And":[[389],null]},{"Token":65},{"And":[[391],null]},{"Token":7},{"And":[[393],null]},{"Token":92},{"Token":82},{"And":[[395,396],null]},{"Or":[397]},{"And":[[398],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[403,49],null]},{"Or":[404]},{"Opt":405},{"Token":58},{"And":[[400,401,402,406,407],1]},{"Or":[408]},{"Token":21},{"And":[[410],null]},{"Token":22},{"And":[[412],null]},{"Or":[411,413]},{"Token":92},{"Token":59},{"Token":53},{"And":[[417,76],null]},{"Or":[418]},{"Opt":419},{"Token":58},{"And":[[414,415,416,49,420,421],1]},{"Or":[422]},{"And":[[147],null]},{"Token":58},{"And":[[148,425],null]},{"Or":[424,426]},{"Rep":30},{"Call":[151,[[2,428]]]},{"And":[[10,429],null]},{"Or":[430]},{"Opt":36},{"And":[[145,432],null]},{"Or":[433]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[435,436]},{"Inject":[434,437]},{"And":[[438],null]},{"Call":[150,[[1,35]]]},{"Call":[150,[[1,32]]]},{"And":[[440,441],null]},{"Or":[442]},{"Call":[153,[[4,443]]]},{"And":[[444],null]},{"Or":[445]},{"Token":92},{"Opt":33},{"And":[[447,448],1]},{"Or":[449]},{"Token":59},{"Token":73},{"And":[[452],null]},"Eof",{"And":[[454],null]},{"Token":61},{"And":[[456],null]},{"Token":58},{"And":[[458],null]},{"Token":39},{"And":[[460],null]},{"Token":36},{"And":[[462],null]},{"Or":[457,459,461,463]},{"Not":464},{"Not":465},{"And":[[466],null]},{"Or":[453,455,467]},{"And":[[34,468],1]},{"Or":[469]},{"Rep":470},{"And":[[451,471],null]},{"Token":87},{"And":[[473],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[474,475,476]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[481],null]},"Eof",{"And":[[483],null]},{"Token":61},{"Not":485},{"Not":486},{"And":[[487],null]},{"Or":[482,484,488]},{"And":[[480,489],1]},{"Or":[490]},{"Rep":491},{"And":[[479,492],null]},{"Or":[493]},{"Opt":494},{"And":[[478,495],1]},{"Or":[496]},{"Token":10},{"Token":6},{"And":[[499],null]},{"Token":19},{"And":[[501],null]},{"Or":[500,502]},{"Call":[152,[[3,503]]]},{"Opt":504},{"And":[[498,505],null]},{"Or":[506]},{"Token":36},{"Token":61},{"And":[[509],null]},"Eof",{"And":[[511],null]},{"Token":58},{"And":[[513],null]},{"Token":39},{"And":[[515],null]},{"Or":[514,516]},{"Not":517},{"Not":518},{"And":[[519],null]},{"Or":[510,512,520]},{"And":[[49,33,521],null]},{"Or":[522]},{"Rep":523},{"And":[[508,524],1]},{"Or":[525]},{"And":[[41],null]},{"Enter":[2,41]},{"And":[[528],null]},{"Enter":[1,41]},{"And":[[530],null]},{"Token":60},{"And":[[532,45],null]},{"Or":[533]},{"Token":60},{"Opt":535},{"And":[[536,45],null]},{"Or":[537]},{"Token":60},{"And":[[539,45],null]},{"Or":[540]},{"And":[[41,541],null]},{"Or":[542]},{"Token":5},{"And":[[49,544,49],null]},{"Or":[545]},{"Call":[153,[[4,546]]]},{"Token":60},{"And":[[547,548,45],null]},{"Or":[549]},{"Token":92},{"And":[[551],null]},{"Token":18},{"And":[[553],null]},{"Token":19},{"And":[[555],null]},{"Or":[552,554,556]},{"And":[[46],null]},{"IsIn":2},{"And":[[559,47],null]},{"Or":[558,560]},{"Opt":561},{"And":[[557,562],null]},{"Or":[563]},{"IsIn":2},{"And":[[565],null]},{"IsIn":1},{"Token":60},{"And":[[567,568],null]},{"Or":[566,569]},{"Token":87},{"Call":[150,[[1,571]]]},{"Token":92},{"Token":53},{"And":[[573,574],null]},{"Or":[575]},{"Not":576},{"And":[[577,49],null]},{"Or":[578]},{"Call":[150,[[1,579]]]},{"Token":92},{"Token":53},{"And":[[581,582,49],null]},{"Or":[583]},{"Call":[150,[[1,584]]]},{"And":[[572,580,585],null]},{"Or":[586]},{"Call":[153,[[4,587]]]},{"And":[[570,588],null]},{"Or":[589]},{"Call":[150,[[1,49]]]},{"Call":[152,[[3,591]]]},{"Opt":9},{"And":[[592,593],null]},{"Or":[594]},{"Token":5},{"Token":92},{"And":[[596,597],null]},{"Or":[598]},{"Token":73},{"And":[[600,34],null]},{"Or":[601]},{"Rep":602},{"And":[[51,603],null]},{"Or":[604]},{"And":[[51],null]},{"Or":[606]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[618]},{"And":[[121,49],null]},{"Or":[620]},{"Token":67},{"Token":21},{"And":[[623],null]},{"Token":27},{"And":[[625],null]},{"Or":[624,626]},{"And":[[622,627,49],null]},{"Or":[628]},{"Token":81},{"And":[[630],null]},{"Or":[631]},{"Token":37},{"Token":38},{"And":[[633,634],null]},{"Or":[635]},{"Opt":58},{"And":[[49,637],null]},{"Or":[638]},{"Call":[152,[[3,639]]]},{"And":[[640],null]},{"Or":[641]},{"Token":61},{"Call":[150,[[1,49]]]},{"And":[[643,644],null]},{"Or":[645]},{"Token":82},{"And":[[647],null]},{"Or":[648]},{"Token":58},{"Call":[79,[[0,76]]]},{"Exit":[2,651]},{"And":[[650,652],null]},{"Or":[653]},{"Opt":654},{"And":[[49,655],null]},{"Or":[656]},{"Call":[154,[[5,657]]]},{"And":[[658],null]},{"Or":[659]},{"Opt":10},{"Token":8},{"Call":[150,[[1,62]]]},{"Call":[152,[[3,663]]]},{"Opt":9},{"And":[[661,662,664,665],2]},{"Or":[666]},{"Token":59},{"And":[[64,668],null]},{"Or":[669]},{"Opt":670},{"And":[[671,49],null]},{"Or":[672]},{"Token":23},{"And":[[674,31,49],1]},{"Or":[675]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[684],null]},{"Or":[685]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[687,688]},{"Opt":689},{"And":[[40,690],null]},{"Or":[691]},{"Call":[150,[[1,64]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[152,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Call":[150,[[1,69]]]},{"Token":63},{"Token":61},{"Opt":707},{"And":[[706,708],null]},{"Or":[709]},{"Opt":710},{"And":[[705,711],null]},{"Or":[712]},{"Call":[151,[[2,713]]]},{"And":[[714],null]},{"Or":[715]},{"Token":59},{"Not":717},{"And":[[70,718],null]},{"Token":92},{"Token":59},{"And":[[720,721,64],2]},{"Or":[719,722]},{"Token":28},{"Opt":724},{"Token":27},{"Opt":726},{"Token":92},{"And":[[725,727,728],null]},{"Or":[729]},{"And":[[80],null]},{"Or":[731]},{"Token":37},{"Token":38},{"And":[[733,734],null]},{"Or":[735]},{"Opt":74},{"And":[[64,737],null]},{"Or":[738]},{"Call":[152,[[3,739]]]},{"And":[[740],null]},{"Or":[741]},{"Token":61},{"Call":[150,[[1,64]]]},{"And":[[743,744],null]},{"Or":[745]},{"Token":77},{"Token":27},{"Opt":748},{"And":[[747,749,64],null]},{"Or":[750]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":754},{"And":[[752,753,755,114],null]},{"Or":[756]},{"Token":62},{"Token":92},{"And":[[759],null]},{"Token":89},{"And":[[761],null]},{"Or":[760,762]},{"And":[[758,763],null]},{"Or":[764]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,766]]]},{"Token":83},{"Token":5},{"And":[[769,50],null]},{"Or":[770]},{"Token":77},{"Token":27},{"Opt":773},{"And":[[772,774],null]},{"Or":[775]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[780],null]},{"Token":69},{"And":[[782],null]},{"Token":71},{"And":[[784],null]},{"Or":[781,783,785]},{"Token":73},{"And":[[787],null]},{"Token":75},{"And":[[789],null]},{"Or":[788,790]},{"ContextualToken":[45,"<<"]},{"And":[[792],null]},{"ContextualToken":[47,">>"]},{"And":[[794],null]},{"Or":[793,795]},{"ContextualToken":[49,"&&"]},{"Not":797},{"Token":77},{"And":[[798,799],null]},{"Or":[800]},{"Token":84},{"ContextualToken":[50,"||"]},{"Not":803},{"Token":79},{"And":[[804,805],null]},{"Or":[806]},{"ContextualToken":[49,"&&"]},{"ContextualToken":[50,"||"]},{"Token":53},{"And":[[810],null]},{"Token":74},{"And":[[812],null]},{"Token":76},{"And":[[814],null]},{"Token":68},{"And":[[816],null]},{"Token":70},{"And":[[818],null]},{"Token":72},{"And":[[820],null]},{"Token":78},{"And":[[822],null]},{"Token":80},{"And":[[824],null]},{"Token":85},{"And":[[826],null]},{"ContextualToken":[48,">>="]},{"And":[[828],null]},{"ContextualToken":[46,"<<="]},{"And":[[830],null]},{"Or":[811,813,815,817,819,821,823,825,827,829,831]},{"And":[[80],null]},{"Token":92},{"And":[[834],null]},{"Token":87},{"And":[[836],null]},{"Token":18},{"And":[[838],null]},{"Token":19},{"And":[[840],null]},{"Token":41},{"And":[[842],null]},{"Token":60},{"And":[[844],null]},{"Token":37},{"And":[[846],null]},{"Token":43},{"And":[[848],null]},{"Token":79},{"And":[[850],null]},{"Token":31},{"And":[[852],null]},{"Token":39},{"And":[[854],null]},{"Token":14},{"And":[[856],null]},{"Token":25},{"And":[[858],null]},{"Token":24},{"And":[[860],null]},{"Token":23},{"And":[[862],null]},{"Token":30},{"And":[[864],null]},{"Token":26},{"And":[[866],null]},{"Token":32},{"And":[[868],null]},{"Token":33},{"And":[[870],null]},{"Token":77},{"And":[[872],null]},{"Token":67},{"And":[[874],null]},{"Token":75},{"And":[[876],null]},{"Token":82},{"And":[[878],null]},{"Token":63},{"And":[[880],null]},{"Token":64},{"And":[[882],null]},{"And":[[92],null]},{"And":[[99],null]},{"And":[[100],null]},{"And":[[103],null]},{"And":[[104],null]},{"And":[[106],null]},{"And":[[110],null]},{"Or":[884,885,886,887,888,889,890]},{"Token":62},{"And":[[892],null]},{"Token":83},{"And":[[894],null]},{"Or":[893,895]},{"Not":896},{"And":[[891,897],null]},{"Var":0},{"Exit":[0,899]},{"And":[[900],null]},{"Token":89},{"And":[[902],null]},{"Token":90},{"And":[[904],null]},{"Token":91},{"And":[[906],null]},{"Token":86},{"And":[[908],null]},{"Token":88},{"And":[[910],null]},{"Or":[903,905,907,909,911]},{"Token":92},{"Token":82},{"And":[[913,914],null]},{"Or":[915]},{"Not":916},{"Opt":82},{"And":[[917,40,918],null]},{"Or":[919]},{"IsIn":0},{"Not":921},{"Call":[150,[[1,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[924,925],null]},{"Or":[926]},{"Opt":927},{"And":[[923,928],null]},{"Or":[929]},{"Call":[151,[[2,930]]]},{"And":[[922,931],null]},{"Or":[932]},{"Token":92},{"Token":59},{"And":[[935,76],null]},{"Or":[936]},{"Opt":937},{"And":[[934,938],1]},{"Or":[939]},{"Token":37},{"Token":38},{"And":[[941,942],null]},{"Or":[943]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[945,946],null]},{"Or":[947]},{"Call":[152,[[3,948]]]},{"And":[[949],null]},{"Or":[950]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[150,[[1,953]]]},{"And":[[952,954],null]},{"Or":[955]},{"Token":58},{"And":[[957,76],null]},{"Token":61},{"Call":[150,[[1,76]]]},{"And":[[959,960],null]},{"Or":[958,961]},{"Opt":962},{"And":[[76,963],null]},{"Or":[964]},{"Call":[79,[[0,965]]]},{"Call":[154,[[5,966]]]},{"And":[[967],null]},{"Or":[968]},{"Token":26},{"Opt":970},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[975,49,92],null]},{"And":[[76],null]},{"Or":[976,977]},{"And":[[971,972,973,974,978],null]},{"Or":[979]},{"Token":61},{"And":[[981],null]},{"Token":79},{"Not":983},{"Not":984},{"And":[[985],null]},{"Or":[982,986]},{"And":[[13,987],1]},{"Token":31},{"Opt":76},{"And":[[989,990],null]},{"Or":[991]},{"Token":33},{"And":[[993],null]},{"Token":32},{"And":[[995],null]},{"Or":[994,996]},{"Token":87},{"Opt":998},{"And":[[997,999],null]},{"Or":[1000]},{"Token":35},{"Opt":1002},{"WithSkip":[94,93]},{"Rep":1004},{"Call":[151,[[2,1005]]]},{"And":[[1003,1006],null]},{"Or":[1007]},{"Call":[79,[[0,1008]]]},{"And":[[1009],null]},{"Or":[1010]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1016],null]},{"Token":58},{"And":[[1018],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1024,76],1]},{"Or":[1025]},{"Opt":1026},{"Token":58},{"And":[[1022,64,1023,1027,1028],1]},{"Or":[1029]},{"Token":59},{"And":[[1031,49],null]},{"Or":[1032]},{"Token":58},{"And":[[1034],null]},{"Or":[1035]},{"And":[[78],null]},"Eof",{"And":[[1038],null]},{"Token":58},{"And":[[1040],null]},{"Or":[1039,1041]},{"And":[[76,1042],1]},{"Or":[1037,1043]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1047,1048]},{"And":[[1046,1049],null]},{"Or":[1050]},{"Opt":1051},{"And":[[1045,101,92,1052],1]},{"Or":[1053]},{"Opt":105},{"Token":25},{"And":[[1055,1056,101,92],2]},{"Or":[1057]},{"Token":9},{"Token":53},{"And":[[1059,64,1060],1]},{"Or":[1061]},{"Opt":1062},{"And":[[1063,102],1]},{"Enter":[0,76]},{"And":[[1065],null]},{"Opt":105},{"Token":24},{"And":[[1067,1068,92],2]},{"Or":[1069]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1071,1072,64,1073,102,92],2]},{"Or":[1074]},{"Token":87},{"Token":59},{"And":[[1076,1077],null]},{"Token":30},{"Rep":107},{"Call":[79,[[0,1080]]]},{"Call":[151,[[2,1081]]]},{"And":[[1079,102,1082],1]},{"Or":[1083]},{"Token":52},{"Token":61},{"Opt":1086},{"And":[[78,1087],null]},{"Token":61},{"And":[[1089],null]},"Eof",{"And":[[1091],null]},{"Or":[1090,1092]},{"And":[[76,1093],null]},{"Or":[1088,1094]},{"And":[[108,1085,1095],1]},{"Or":[1096]},{"Token":79},{"And":[[1098,64],null]},{"Or":[1099]},{"Rep":1100},{"Opt":109},{"And":[[64,1101,1102],null]},{"Token":14},{"And":[[1104,76],null]},{"Or":[1105]},{"And":[[147],null]},{"Or":[1107]},{"And":[[148],null]},{"Or":[1109]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1113},{"And":[[1111,1112,1114,114],null]},{"Or":[1115]},{"And":[[76,1116],null]},{"Or":[1117]},{"And":[[76,114],null]},{"Or":[1119]},{"Call":[150,[[1,115]]]},{"Call":[152,[[3,1121]]]},{"Call":[79,[[0,1122]]]},{"And":[[1123],null]},{"And":[[76],null]},{"Or":[1125]},{"Token":62},{"Token":92},{"And":[[1128],null]},{"Token":89},{"And":[[1130],null]},{"Or":[1129,1131]},{"And":[[1127,1132],null]},{"Or":[1133]},{"And":[[76,1134],null]},{"Or":[1135]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,1137]]]},{"And":[[76,1138],null]},{"Or":[1139]},{"Token":83},{"And":[[76,1141],null]},{"Or":[1142]},{"Token":5},{"And":[[1144,50],null]},{"Or":[1145]},{"And":[[76,1146],null]},{"Or":[1147]},{"Token":77},{"Token":27},{"Opt":1150},{"And":[[1149,1151],null]},{"Or":[1152]},{"And":[[1153,76],null]},{"Or":[1154]},{"Token":77},{"Token":87},{"Opt":1157},{"Token":27},{"Opt":1159},{"And":[[1156,1158,1160],null]},{"Token":67},{"And":[[1162,76],null]},{"Or":[1163]},{"Token":75},{"And":[[1165,76],null]},{"Or":[1166]},{"Token":82},{"And":[[1168,76],null]},{"Or":[1169]},{"Token":67},{"And":[[1171],null]},{"Token":69},{"And":[[1173],null]},{"Token":71},{"And":[[1175],null]},{"Or":[1172,1174,1176]},{"And":[[76,1177,76],null]},{"Or":[1178]},{"Token":73},{"And":[[1180],null]},{"Token":75},{"And":[[1182],null]},{"Or":[1181,1183]},{"And":[[76,1184,76],null]},{"Or":[1185]},{"ContextualToken":[45,"<<"]},{"And":[[1187],null]},{"ContextualToken":[47,">>"]},{"And":[[1189],null]},{"Or":[1188,1190]},{"And":[[76,1191,76],null]},{"Or":[1192]},{"ContextualToken":[49,"&&"]},{"Not":1194},{"Token":77},{"And":[[1195,1196],null]},{"Or":[1197]},{"And":[[76,1198,76],null]},{"Or":[1199]},{"Token":84},{"And":[[76,1201,76],null]},{"Or":[1202]},{"ContextualToken":[50,"||"]},{"Not":1204},{"Token":79},{"And":[[1205,1206],null]},{"Or":[1207]},{"And":[[76,1208,76],null]},{"Or":[1209]},{"And":[[76,132,76],null]},{"Or":[1211]},{"Token":54},{"And":[[1213],null]},{"Token":55},{"And":[[1215],null]},{"ContextualToken":[46,"<<="]},{"And":[[1217],null]},{"ContextualToken":[48,">>="]},{"And":[[1219],null]},{"Or":[1218,1220]},{"Not":1221},{"Token":41},{"And":[[1223],null]},{"Token":42},{"And":[[1225],null]},{"Or":[1224,1226]},{"And":[[1222,1227],null]},{"Token":57},{"And":[[1229],null]},{"Token":56},{"And":[[1231],null]},{"ContextualToken":[49,"&&"]},{"And":[[76,1233,76],null]},{"Or":[1234]},{"ContextualToken":[50,"||"]},{"And":[[76,1236,76],null]},{"Or":[1237]},{"And":[[76,140,76],null]},{"Or":[1239]},{"And":[[140,76],null]},{"Or":[1241]},{"And":[[76,139],null]},{"Or":[1243]},{"Token":63},{"Token":39},{"IsIn":0},{"And":[[1246,1247],null]},{"Or":[1248]},{"Not":1249},{"And":[[1250,77],null]},{"Or":[1251]},{"Not":1252},{"And":[[1245,1253],null]},{"Or":[1254]},{"Token":63},{"And":[[1256],null]},{"Token":64},{"And":[[1258],null]},{"Not":77},{"Not":1260},{"Token":39},{"IsIn":0},{"And":[[1262,1263],null]},{"Or":[1264]},{"Not":1265},{"And":[[139,1261,1266],null]},{"Token":53},{"And":[[1268],null]},{"Token":74},{"And":[[1270],null]},{"Token":76},{"And":[[1272],null]},{"Token":68},{"And":[[1274],null]},{"Token":70},{"And":[[1276],null]},{"Token":72},{"And":[[1278],null]},{"Token":78},{"And":[[1280],null]},{"Token":80},{"And":[[1282],null]},{"Token":85},{"And":[[1284],null]},{"ContextualToken":[48,">>="]},{"And":[[1286],null]},{"ContextualToken":[46,"<<="]},{"And":[[1288],null]},{"Or":[1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,1289]},{"And":[[76,1290,76],null]},{"Or":[1291]},{"Token":65},{"And":[[1293,144],null]},{"Or":[1294]},{"Token":65},{"Token":82},{"And":[[1296,1297,144],null]},{"Or":[1298]},{"Call":[150,[[1,146]]]},{"Call":[154,[[5,1300]]]},{"And":[[1301],null]},{"Rep":142},{"And":[[1303],null]},{"Token":92},{"Token":53},{"And":[[1306,76],null]},{"Call":[150,[[1,146]]]},{"Call":[152,[[3,1308]]]},{"And":[[1309],null]},{"Or":[1307,1310]},{"Opt":1311},{"And":[[1305,1312],1]},{"Or":[1313]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1317},{"Rep":149},{"Call":[151,[[2,1319]]]},{"And":[[1315,1316,1318,1320],null]},{"Or":[1321]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1325},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1327,1328,1329],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1331,1332,1333],null]},{"Or":[1330,1334]},{"And":[[1323,1324,1326,1335],null]},{"Or":[1336]},{"Token":37},{"And":[[1338],null]},{"Token":38},{"And":[[1340],null]},{"Token":39},{"And":[[1342],null]},{"Token":40},{"And":[[1344],null]},{"Token":43},{"And":[[1346],null]},{"Token":44},{"And":[[1348],null]},{"Or":[1339,1341,1343,1345,1347,1349]},{"Not":1350},"Any",{"And":[[1351,1352],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1354,1355,1356],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1358,1359,1360],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1362,1363,1364],null]},{"Or":[1353,1357,1361,1365]},{"Var":1},"Eof",{"And":[[1368],null]},{"Token":61},{"And":[[1370],null]},{"Or":[1369,1371]},{"And":[[1367,1372],1]},{"Or":[1373]},{"Rep":1374},{"And":[[1375],null]},{"Token":39},{"Token":40},{"Var":2},{"Call":[155,[[6,1377],[7,1378],[8,1379]]]},{"And":[[1380],null]},{"Token":37},{"Token":38},{"Var":3},{"Call":[155,[[6,1382],[7,1383],[8,1384]]]},{"And":[[1385],null]},{"Token":41},{"Var":4},{"Layer":[157,1388]},{"Token":42},{"And":[[1387,1389,1390],1]},{"Token":43},{"Token":44},{"Var":5},{"Call":[155,[[6,1392],[7,1393],[8,1394]]]},{"And":[[1395],null]},{"Var":6},{"Var":6},{"Var":7},{"Call":[156,[[9,1398],[10,1399]]]},{"Var":8},{"Layer":[1400,1401]},{"Var":7},{"And":[[1397,1402,1403],1]},{"Var":9},{"Var":9},{"Var":10},{"Call":[156,[[9,1406],[10,1407]]]},{"Var":10},{"And":[[1405,1408,1409],1]},{"Var":10},{"Not":1411},"Any",{"And":[[1412,1413],null]},{"Or":[1414]},{"And":[[1415],null]},{"Or":[1410,1416]},{"Rep":1417},{"And":[[1418],null]},{"Token":41},{"Token":42},{"And":[[1420,157,1421],1]},{"Token":37},{"Token":37},{"Token":38},{"Call":[156,[[9,1424],[10,1425]]]},{"Token":38},{"And":[[1423,1426,1427],null]},{"Token":43},{"Token":43},{"Token":44},{"Call":[156,[[9,1430],[10,1431]]]},{"Token":44},{"And":[[1429,1432,1433],null]},{"Token":39},{"Token":39},{"Token":40},{"Call":[156,[[9,1436],[10,1437]]]},{"Token":40},{"And":[[1435,1438,1439],null]},{"Token":42},{"Not":1441},"Any",{"And":[[1442,1443],null]},{"Or":[1444]},{"And":[[1445],null]},{"Or":[1422,1428,1434,1440,1446]},{"Rep":1447},{"And":[[1448],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 90e8915ae32502a5dcb23b3c6c7abee7405041e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:31 +0000
Subject: [PATCH 36/36] fix: a visibility does not take the parentheses of a
 type

---
 lang/rust/syntax/src/rust.fall | 2 +-
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index 2889dd0..bec2711 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -348,7 +348,7 @@ struct B<'a:, 'b: 'a + 'a, C: 'b + Clone + for<'de> De<'de> +, D:>();
 
 
 pub rule visibility {
-  'pub' <in_parens {'crate' | 'super'}>?
+  'pub' {'(' {'crate' | 'super'} ')'}?
 }
 
 test r"
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 7eb5cb2..99b4fa0 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":159,"replaceable":false}},{"Or":[162]},{"Or":[164,166,168,170,172,174,176,177]},{"Cached":194},{"Pub":{"ty":94,"body":210,"replaceable":false}},{"Pub":{"ty":95,"body":216,"replaceable":false}},{"Pub":{"ty":96,"body":223,"replaceable":false}},{"Pub":{"ty":97,"body":230,"replaceable":false}},{"Pub":{"ty":98,"body":246,"replaceable":false}},{"Or":[248]},{"Pub":{"ty":99,"body":253,"replaceable":false}},{"Or":[259]},{"Pub":{"ty":100,"body":262,"replaceable":false}},{"Pub":{"ty":101,"body":268,"replaceable":false}},{"Pub":{"ty":102,"body":285,"replaceable":false}},{"Pub":{"ty":103,"body":304,"replaceable":false}},{"Pub":{"ty":104,"body":309,"replaceable":false}},{"Pub":{"ty":105,"body":312,"replaceable":false}},{"Pub":{"ty":106,"body":319,"replaceable":false}},{"Pub":{"ty":107,"body":332,"replaceable":false}},{"Pub":{"ty":108,"body":341,"replaceable":false}},{"Pub":{"ty":109,"body":354,"replaceable":false}},{"Pub":{"ty":110,"body":362,"replaceable":false}},{"Pub":{"ty":111,"body":374,"replaceable":false}},{"Or":[375,376,377,378]},{"Or":[380,382,384,386,388,390,392,394,399]},{"Pub":{"ty":112,"body":409,"replaceable":false}},{"Pub":{"ty":113,"body":423,"replaceable":false}},{"Pub":{"ty":114,"body":427,"replaceable":false}},{"Pub":{"ty":115,"body":431,"replaceable":false}},{"Or":[439]},{"Pub":{"ty":116,"body":446,"replaceable":false}},{"Pub":{"ty":117,"body":450,"replaceable":false}},{"Or":[472]},{"Pub":{"ty":118,"body":477,"replaceable":false}},{"Pub":{"ty":119,"body":497,"replaceable":false}},{"Pub":{"ty":120,"body":507,"replaceable":false}},{"Pub":{"ty":121,"body":526,"replaceable":false}},{"Or":[527]},{"Or":[529]},{"Or":[531]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":534,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":538,"replaceable":false}},{"Pub":{"ty":122,"body":543,"replaceable":false}},{"Pub":{"ty":123,"body":550,"replaceable":false}},{"Pub":{"ty":124,"body":564,"replaceable":false}},{"Pub":{"ty":125,"body":590,"replaceable":false}},{"Pub":{"ty":126,"body":595,"replaceable":false}},{"Pub":{"ty":127,"body":599,"replaceable":false}},{"Pub":{"ty":128,"body":605,"replaceable":false}},{"Pub":{"ty":128,"body":607,"replaceable":false}},{"Or":[608,609,610,611,612,613,614,615,616,617]},{"Pub":{"ty":129,"body":619,"replaceable":false}},{"Pub":{"ty":130,"body":621,"replaceable":false}},{"Pub":{"ty":131,"body":629,"replaceable":false}},{"Pub":{"ty":132,"body":632,"replaceable":false}},{"Pub":{"ty":133,"body":636,"replaceable":false}},{"Pub":{"ty":134,"body":642,"replaceable":true}},{"PubReplace":{"ty":135,"body":646}},{"Pub":{"ty":136,"body":649,"replaceable":false}},{"Pub":{"ty":137,"body":660,"replaceable":false}},{"Pub":{"ty":138,"body":667,"replaceable":false}},{"Pub":{"ty":100,"body":673,"replaceable":false}},{"Pub":{"ty":139,"body":676,"replaceable":false}},{"Or":[677,678,679,680,681,682,683]},{"Pub":{"ty":140,"body":686,"replaceable":false}},{"Pub":{"ty":141,"body":692,"replaceable":true}},{"PubReplace":{"ty":142,"body":704}},{"PubReplace":{"ty":143,"body":716}},{"Pub":{"ty":144,"body":723,"replaceable":false}},{"Pub":{"ty":145,"body":730,"replaceable":false}},{"Pub":{"ty":146,"body":732,"replaceable":false}},{"Pub":{"ty":147,"body":736,"replaceable":false}},{"Pub":{"ty":148,"body":742,"replaceable":true}},{"PubReplace":{"ty":149,"body":746}},{"Pub":{"ty":150,"body":751,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,138],"prefixes":[{"ty":184,"op":776,"priority":999},{"ty":185,"op":777,"priority":999},{"ty":186,"op":778,"priority":999},{"ty":187,"op":779,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":757,"priority":999,"has_rhs":false},{"ty":178,"op":114,"priority":999,"has_rhs":false},{"ty":180,"op":765,"priority":999,"has_rhs":false},{"ty":181,"op":767,"priority":999,"has_rhs":false},{"ty":182,"op":768,"priority":999,"has_rhs":false},{"ty":183,"op":771,"priority":12,"has_rhs":false},{"ty":188,"op":786,"priority":11,"has_rhs":true},{"ty":189,"op":791,"priority":10,"has_rhs":true},{"ty":190,"op":796,"priority":9,"has_rhs":true},{"ty":191,"op":801,"priority":8,"has_rhs":true},{"ty":192,"op":802,"priority":7,"has_rhs":true},{"ty":193,"op":807,"priority":6,"has_rhs":true},{"ty":194,"op":132,"priority":5,"has_rhs":true},{"ty":195,"op":808,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":832,"priority":1,"has_rhs":true}]}},{"Or":[833,835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883]},{"Or":[898]},{"Or":[901]},{"Pub":{"ty":152,"body":912,"replaceable":false}},{"Pub":{"ty":153,"body":920,"replaceable":true}},{"PubReplace":{"ty":154,"body":933}},{"Pub":{"ty":155,"body":940,"replaceable":false}},{"Pub":{"ty":156,"body":944,"replaceable":false}},{"Pub":{"ty":157,"body":951,"replaceable":true}},{"PubReplace":{"ty":158,"body":956}},{"Pub":{"ty":159,"body":969,"replaceable":false}},{"Pub":{"ty":160,"body":980,"replaceable":false}},{"Or":[988]},{"Pub":{"ty":161,"body":992,"replaceable":false}},{"Pub":{"ty":162,"body":1001,"replaceable":false}},{"Pub":{"ty":163,"body":1011,"replaceable":false}},{"Or":[1012,1013,1014,1015]},{"Or":[1017,1019,1020,1021]},{"Pub":{"ty":164,"body":1030,"replaceable":false}},{"Pub":{"ty":165,"body":1033,"replaceable":false}},{"Pub":{"ty":166,"body":1036,"replaceable":false}},{"Pub":{"ty":167,"body":1044,"replaceable":false}},{"Pub":{"ty":168,"body":1054,"replaceable":false}},{"Pub":{"ty":169,"body":1058,"replaceable":false}},{"Or":[1064]},{"Or":[1066]},{"Pub":{"ty":170,"body":1070,"replaceable":false}},{"Pub":{"ty":171,"body":1075,"replaceable":false}},{"Or":[1078]},{"Pub":{"ty":172,"body":1084,"replaceable":false}},{"Pub":{"ty":173,"body":1097,"replaceable":false}},{"Or":[1103]},{"Pub":{"ty":174,"body":1106,"replaceable":false}},{"Pub":{"ty":175,"body":1108,"replaceable":false}},{"Pub":{"ty":176,"body":1110,"replaceable":false}},{"Pub":{"ty":177,"body":1118,"replaceable":false}},{"Pub":{"ty":178,"body":1120,"replaceable":false}},{"Or":[1124]},{"Pub":{"ty":179,"body":1126,"replaceable":false}},{"Pub":{"ty":180,"body":1136,"replaceable":false}},{"Pub":{"ty":181,"body":1140,"replaceable":false}},{"Pub":{"ty":182,"body":1143,"replaceable":false}},{"Pub":{"ty":183,"body":1148,"replaceable":false}},{"Pub":{"ty":184,"body":1155,"replaceable":false}},{"Or":[1161]},{"Pub":{"ty":185,"body":1164,"replaceable":false}},{"Pub":{"ty":186,"body":1167,"replaceable":false}},{"Pub":{"ty":187,"body":1170,"replaceable":false}},{"Pub":{"ty":188,"body":1179,"replaceable":false}},{"Pub":{"ty":189,"body":1186,"replaceable":false}},{"Pub":{"ty":190,"body":1193,"replaceable":false}},{"Pub":{"ty":191,"body":1200,"replaceable":false}},{"Pub":{"ty":192,"body":1203,"replaceable":false}},{"Pub":{"ty":193,"body":1210,"replaceable":false}},{"Pub":{"ty":194,"body":1212,"replaceable":false}},{"Or":[1214,1216,1228,1230,1232]},{"Pub":{"ty":195,"body":1235,"replaceable":false}},{"Pub":{"ty":196,"body":1238,"replaceable":false}},{"Pub":{"ty":197,"body":1240,"replaceable":false}},{"Pub":{"ty":197,"body":1242,"replaceable":false}},{"Pub":{"ty":197,"body":1244,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Or":[1257,1259]},{"Or":[1267]},{"Pub":{"ty":198,"body":1292,"replaceable":false}},{"Pub":{"ty":199,"body":1295,"replaceable":false}},{"Pub":{"ty":200,"body":1299,"replaceable":false}},{"Or":[1302]},{"Or":[1304]},{"Pub":{"ty":201,"body":1314,"replaceable":false}},{"Pub":{"ty":202,"body":1322,"replaceable":false}},{"Pub":{"ty":203,"body":1337,"replaceable":false}},{"Pub":{"ty":204,"body":1366,"replaceable":false}},{"Or":[1376]},{"Or":[1381]},{"Or":[1386]},{"Or":[1391]},{"Or":[1396]},{"Or":[1404]},{"Or":[1419]},{"Or":[1449]},{"And":[[1],null]},{"Or":[158]},{"WithSkip":[2,3]},{"Rep":160},{"And":[[161],null]},{"Token":11},{"And":[[163],null]},{"ContextualToken":[4,"union"]},{"And":[[165],null]},{"Token":16},{"And":[[167],null]},{"Token":12},{"And":[[169],null]},{"Token":13},{"And":[[171],null]},{"Token":17},{"And":[[173],null]},{"Token":29},{"And":[[175],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,178],null]},{"Or":[179]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[181,182,183,184,185,186,187,188,189]},{"Inject":[180,190]},{"And":[[191],null]},{"And":[[28],null]},{"Or":[192,193]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[197,5],null]},{"Or":[198]},{"Opt":199},{"And":[[200],null]},{"Or":[196,201]},{"And":[[38,202],null]},{"Token":60},{"Opt":204},{"And":[[205,5],null]},{"Or":[203,206]},{"Token":58},{"And":[[195,207,208],1]},{"Or":[209]},{"Token":67},{"And":[[211],null]},{"Call":[150,[[1,6]]]},{"Call":[151,[[2,213]]]},{"And":[[214],null]},{"Or":[212,215]},{"Token":18},{"Opt":48},{"And":[[217,218],null]},{"Token":92},{"Opt":48},{"And":[[220,221],1]},{"Or":[219,222]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[224,225,226,227,228],2]},{"Or":[229]},{"Token":21},{"Opt":231},{"Token":35},{"Opt":233},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[242],null]},{"Or":[241,243]},{"And":[[232,234,235,236,237,238,11,239,240,244],4]},{"Or":[245]},{"Token":51},{"And":[[247,49],null]},{"Token":7},{"Token":90},{"Opt":250},{"And":[[249,251],null]},{"Or":[252]},{"Opt":14},{"Call":[150,[[1,12]]]},{"And":[[254,255],null]},{"Or":[256]},{"Call":[152,[[3,257]]]},{"And":[[258],null]},{"Token":59},{"And":[[64,260,49],1]},{"Or":[261]},{"Token":59},{"And":[[263,49],null]},{"Or":[264]},{"Opt":265},{"And":[[64,266],null]},{"Or":[267]},{"And":[[121],null]},{"Token":27},{"And":[[270],null]},{"Or":[269,271]},{"Opt":272},{"Token":18},{"Token":59},{"And":[[275,49],null]},{"Or":[276]},{"Opt":277},{"Token":61},{"And":[[279],null]},"Eof",{"And":[[281],null]},{"Or":[280,282]},{"And":[[273,274,278,283],2]},{"Or":[284]},{"Token":11},{"And":[[286],null]},{"ContextualToken":[4,"union"]},{"And":[[288],null]},{"Or":[287,289]},{"Token":92},{"Opt":31},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,293]]]},{"And":[[294],null]},{"Token":58},{"And":[[296],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,298]]]},{"Token":58},{"And":[[299,300],null]},{"Or":[295,297,301]},{"And":[[290,291,292,302],1]},{"Or":[303]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[305,306,307,49],2]},{"Or":[308]},{"Opt":36},{"And":[[310,49],null]},{"Or":[311]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[1,19]]]},{"Call":[151,[[2,316]]]},{"And":[[313,314,315,317],1]},{"Or":[318]},{"Token":92},{"Token":53},{"And":[[321,76],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,323]]]},{"And":[[324],null]},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,326]]]},{"And":[[327],null]},{"Or":[322,325,328]},{"Opt":329},{"And":[[320,330],1]},{"Or":[331]},{"Token":13},{"Token":92},{"Token":58},{"And":[[335],null]},{"Call":[151,[[2,1]]]},{"And":[[337],null]},{"Or":[336,338]},{"And":[[333,334,339],1]},{"Or":[340]},{"Token":35},{"Opt":342},{"Token":17},{"Opt":31},{"Token":23},{"And":[[346,49],null]},{"Or":[347]},{"Opt":348},{"And":[[49,349],null]},{"Or":[350]},{"Opt":37},{"And":[[343,344,345,351,352,23],2]},{"Or":[353]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,355,356,357,358,359,360,23],3]},{"Or":[361]},{"Opt":36},{"And":[[145,363],null]},{"Or":[364]},{"Inject":[365,24]},{"And":[[366],null]},{"And":[[28],null]},{"Or":[367,368]},{"WithSkip":[25,369]},{"Rep":370},{"Call":[151,[[2,371]]]},{"And":[[372],null]},{"Or":[373]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[379],null]},{"Token":8},{"And":[[381],null]},{"Token":20},{"And":[[383],null]},{"Token":21},{"And":[[385],null]},{"Token":22},{"And":[[387],null]},{"Token":35},{"And":[[389],null]},{"Token":65},{"And":[[391],null]},{"Token":7},{"And":[[393],null]},{"Token":92},{"Token":82},{"And":[[395,396],null]},{"Or":[397]},{"And":[[398],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[403,49],null]},{"Or":[404]},{"Opt":405},{"Token":58},{"And":[[400,401,402,406,407],1]},{"Or":[408]},{"Token":21},{"And":[[410],null]},{"Token":22},{"And":[[412],null]},{"Or":[411,413]},{"Token":92},{"Token":59},{"Token":53},{"And":[[417,76],null]},{"Or":[418]},{"Opt":419},{"Token":58},{"And":[[414,415,416,49,420,421],1]},{"Or":[422]},{"And":[[147],null]},{"Token":58},{"And":[[148,425],null]},{"Or":[424,426]},{"Rep":30},{"Call":[151,[[2,428]]]},{"And":[[10,429],null]},{"Or":[430]},{"Opt":36},{"And":[[145,432],null]},{"Or":[433]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[435,436]},{"Inject":[434,437]},{"And":[[438],null]},{"Call":[150,[[1,35]]]},{"Call":[150,[[1,32]]]},{"And":[[440,441],null]},{"Or":[442]},{"Call":[153,[[4,443]]]},{"And":[[444],null]},{"Or":[445]},{"Token":92},{"Opt":33},{"And":[[447,448],1]},{"Or":[449]},{"Token":59},{"Token":73},{"And":[[452],null]},"Eof",{"And":[[454],null]},{"Token":61},{"And":[[456],null]},{"Token":58},{"And":[[458],null]},{"Token":39},{"And":[[460],null]},{"Token":36},{"And":[[462],null]},{"Or":[457,459,461,463]},{"Not":464},{"Not":465},{"And":[[466],null]},{"Or":[453,455,467]},{"And":[[34,468],1]},{"Or":[469]},{"Rep":470},{"And":[[451,471],null]},{"Token":87},{"And":[[473],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[474,475,476]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[481],null]},"Eof",{"And":[[483],null]},{"Token":61},{"Not":485},{"Not":486},{"And":[[487],null]},{"Or":[482,484,488]},{"And":[[480,489],1]},{"Or":[490]},{"Rep":491},{"And":[[479,492],null]},{"Or":[493]},{"Opt":494},{"And":[[478,495],1]},{"Or":[496]},{"Token":10},{"Token":6},{"And":[[499],null]},{"Token":19},{"And":[[501],null]},{"Or":[500,502]},{"Call":[152,[[3,503]]]},{"Opt":504},{"And":[[498,505],null]},{"Or":[506]},{"Token":36},{"Token":61},{"And":[[509],null]},"Eof",{"And":[[511],null]},{"Token":58},{"And":[[513],null]},{"Token":39},{"And":[[515],null]},{"Or":[514,516]},{"Not":517},{"Not":518},{"And":[[519],null]},{"Or":[510,512,520]},{"And":[[49,33,521],null]},{"Or":[522]},{"Rep":523},{"And":[[508,524],1]},{"Or":[525]},{"And":[[41],null]},{"Enter":[2,41]},{"And":[[528],null]},{"Enter":[1,41]},{"And":[[530],null]},{"Token":60},{"And":[[532,45],null]},{"Or":[533]},{"Token":60},{"Opt":535},{"And":[[536,45],null]},{"Or":[537]},{"Token":60},{"And":[[539,45],null]},{"Or":[540]},{"And":[[41,541],null]},{"Or":[542]},{"Token":5},{"And":[[49,544,49],null]},{"Or":[545]},{"Call":[153,[[4,546]]]},{"Token":60},{"And":[[547,548,45],null]},{"Or":[549]},{"Token":92},{"And":[[551],null]},{"Token":18},{"And":[[553],null]},{"Token":19},{"And":[[555],null]},{"Or":[552,554,556]},{"And":[[46],null]},{"IsIn":2},{"And":[[559,47],null]},{"Or":[558,560]},{"Opt":561},{"And":[[557,562],null]},{"Or":[563]},{"IsIn":2},{"And":[[565],null]},{"IsIn":1},{"Token":60},{"And":[[567,568],null]},{"Or":[566,569]},{"Token":87},{"Call":[150,[[1,571]]]},{"Token":92},{"Token":53},{"And":[[573,574],null]},{"Or":[575]},{"Not":576},{"And":[[577,49],null]},{"Or":[578]},{"Call":[150,[[1,579]]]},{"Token":92},{"Token":53},{"And":[[581,582,49],null]},{"Or":[583]},{"Call":[150,[[1,584]]]},{"And":[[572,580,585],null]},{"Or":[586]},{"Call":[153,[[4,587]]]},{"And":[[570,588],null]},{"Or":[589]},{"Call":[150,[[1,49]]]},{"Call":[152,[[3,591]]]},{"Opt":9},{"And":[[592,593],null]},{"Or":[594]},{"Token":5},{"Token":92},{"And":[[596,597],null]},{"Or":[598]},{"Token":73},{"And":[[600,34],null]},{"Or":[601]},{"Rep":602},{"And":[[51,603],null]},{"Or":[604]},{"And":[[51],null]},{"Or":[606]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[618]},{"And":[[121,49],null]},{"Or":[620]},{"Token":67},{"Token":21},{"And":[[623],null]},{"Token":27},{"And":[[625],null]},{"Or":[624,626]},{"And":[[622,627,49],null]},{"Or":[628]},{"Token":81},{"And":[[630],null]},{"Or":[631]},{"Token":37},{"Token":38},{"And":[[633,634],null]},{"Or":[635]},{"Opt":58},{"And":[[49,637],null]},{"Or":[638]},{"Call":[152,[[3,639]]]},{"And":[[640],null]},{"Or":[641]},{"Token":61},{"Call":[150,[[1,49]]]},{"And":[[643,644],null]},{"Or":[645]},{"Token":82},{"And":[[647],null]},{"Or":[648]},{"Token":58},{"Call":[79,[[0,76]]]},{"Exit":[2,651]},{"And":[[650,652],null]},{"Or":[653]},{"Opt":654},{"And":[[49,655],null]},{"Or":[656]},{"Call":[154,[[5,657]]]},{"And":[[658],null]},{"Or":[659]},{"Opt":10},{"Token":8},{"Call":[150,[[1,62]]]},{"Call":[152,[[3,663]]]},{"Opt":9},{"And":[[661,662,664,665],2]},{"Or":[666]},{"Token":59},{"And":[[64,668],null]},{"Or":[669]},{"Opt":670},{"And":[[671,49],null]},{"Or":[672]},{"Token":23},{"And":[[674,31,49],1]},{"Or":[675]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[684],null]},{"Or":[685]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[687,688]},{"Opt":689},{"And":[[40,690],null]},{"Or":[691]},{"Call":[150,[[1,64]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[152,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Call":[150,[[1,69]]]},{"Token":63},{"Token":61},{"Opt":707},{"And":[[706,708],null]},{"Or":[709]},{"Opt":710},{"And":[[705,711],null]},{"Or":[712]},{"Call":[151,[[2,713]]]},{"And":[[714],null]},{"Or":[715]},{"Token":59},{"Not":717},{"And":[[70,718],null]},{"Token":92},{"Token":59},{"And":[[720,721,64],2]},{"Or":[719,722]},{"Token":28},{"Opt":724},{"Token":27},{"Opt":726},{"Token":92},{"And":[[725,727,728],null]},{"Or":[729]},{"And":[[80],null]},{"Or":[731]},{"Token":37},{"Token":38},{"And":[[733,734],null]},{"Or":[735]},{"Opt":74},{"And":[[64,737],null]},{"Or":[738]},{"Call":[152,[[3,739]]]},{"And":[[740],null]},{"Or":[741]},{"Token":61},{"Call":[150,[[1,64]]]},{"And":[[743,744],null]},{"Or":[745]},{"Token":77},{"Token":27},{"Opt":748},{"And":[[747,749,64],null]},{"Or":[750]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":754},{"And":[[752,753,755,114],null]},{"Or":[756]},{"Token":62},{"Token":92},{"And":[[759],null]},{"Token":89},{"And":[[761],null]},{"Or":[760,762]},{"And":[[758,763],null]},{"Or":[764]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,766]]]},{"Token":83},{"Token":5},{"And":[[769,50],null]},{"Or":[770]},{"Token":77},{"Token":27},{"Opt":773},{"And":[[772,774],null]},{"Or":[775]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[780],null]},{"Token":69},{"And":[[782],null]},{"Token":71},{"And":[[784],null]},{"Or":[781,783,785]},{"Token":73},{"And":[[787],null]},{"Token":75},{"And":[[789],null]},{"Or":[788,790]},{"ContextualToken":[45,"<<"]},{"And":[[792],null]},{"ContextualToken":[47,">>"]},{"And":[[794],null]},{"Or":[793,795]},{"ContextualToken":[49,"&&"]},{"Not":797},{"Token":77},{"And":[[798,799],null]},{"Or":[800]},{"Token":84},{"ContextualToken":[50,"||"]},{"Not":803},{"Token":79},{"And":[[804,805],null]},{"Or":[806]},{"ContextualToken":[49,"&&"]},{"ContextualToken":[50,"||"]},{"Token":53},{"And":[[810],null]},{"Token":74},{"And":[[812],null]},{"Token":76},{"And":[[814],null]},{"Token":68},{"And":[[816],null]},{"Token":70},{"And":[[818],null]},{"Token":72},{"And":[[820],null]},{"Token":78},{"And":[[822],null]},{"Token":80},{"And":[[824],null]},{"Token":85},{"And":[[826],null]},{"ContextualToken":[48,">>="]},{"And":[[828],null]},{"ContextualToken":[46,"<<="]},{"And":[[830],null]},{"Or":[811,813,815,817,819,821,823,825,827,829,831]},{"And":[[80],null]},{"Token":92},{"And":[[834],null]},{"Token":87},{"And":[[836],null]},{"Token":18},{"And":[[838],null]},{"Token":19},{"And":[[840],null]},{"Token":41},{"And":[[842],null]},{"Token":60},{"And":[[844],null]},{"Token":37},{"And":[[846],null]},{"Token":43},{"And":[[848],null]},{"Token":79},{"And":[[850],null]},{"Token":31},{"And":[[852],null]},{"Token":39},{"And":[[854],null]},{"Token":14},{"And":[[856],null]},{"Token":25},{"And":[[858],null]},{"Token":24},{"And":[[860],null]},{"Token":23},{"And":[[862],null]},{"Token":30},{"And":[[864],null]},{"Token":26},{"And":[[866],null]},{"Token":32},{"And":[[868],null]},{"Token":33},{"And":[[870],null]},{"Token":77},{"And":[[872],null]},{"Token":67},{"And":[[874],null]},{"Token":75},{"And":[[876],null]},{"Token":82},{"And":[[878],null]},{"Token":63},{"And":[[880],null]},{"Token":64},{"And":[[882],null]},{"And":[[92],null]},{"And":[[99],null]},{"And":[[100],null]},{"And":[[103],null]},{"And":[[104],null]},{"And":[[106],null]},{"And":[[110],null]},{"Or":[884,885,886,887,888,889,890]},{"Token":62},{"And":[[892],null]},{"Token":83},{"And":[[894],null]},{"Or":[893,895]},{"Not":896},{"And":[[891,897],null]},{"Var":0},{"Exit":[0,899]},{"And":[[900],null]},{"Token":89},{"And":[[902],null]},{"Token":90},{"And":[[904],null]},{"Token":91},{"And":[[906],null]},{"Token":86},{"And":[[908],null]},{"Token":88},{"And":[[910],null]},{"Or":[903,905,907,909,911]},{"Token":92},{"Token":82},{"And":[[913,914],null]},{"Or":[915]},{"Not":916},{"Opt":82},{"And":[[917,40,918],null]},{"Or":[919]},{"IsIn":0},{"Not":921},{"Call":[150,[[1,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[924,925],null]},{"Or":[926]},{"Opt":927},{"And":[[923,928],null]},{"Or":[929]},{"Call":[151,[[2,930]]]},{"And":[[922,931],null]},{"Or":[932]},{"Token":92},{"Token":59},{"And":[[935,76],null]},{"Or":[936]},{"Opt":937},{"And":[[934,938],1]},{"Or":[939]},{"Token":37},{"Token":38},{"And":[[941,942],null]},{"Or":[943]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[945,946],null]},{"Or":[947]},{"Call":[152,[[3,948]]]},{"And":[[949],null]},{"Or":[950]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[150,[[1,953]]]},{"And":[[952,954],null]},{"Or":[955]},{"Token":58},{"And":[[957,76],null]},{"Token":61},{"Call":[150,[[1,76]]]},{"And":[[959,960],null]},{"Or":[958,961]},{"Opt":962},{"And":[[76,963],null]},{"Or":[964]},{"Call":[79,[[0,965]]]},{"Call":[154,[[5,966]]]},{"And":[[967],null]},{"Or":[968]},{"Token":26},{"Opt":970},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[975,49,92],null]},{"And":[[76],null]},{"Or":[976,977]},{"And":[[971,972,973,974,978],null]},{"Or":[979]},{"Token":61},{"And":[[981],null]},{"Token":79},{"Not":983},{"Not":984},{"And":[[985],null]},{"Or":[982,986]},{"And":[[13,987],1]},{"Token":31},{"Opt":76},{"And":[[989,990],null]},{"Or":[991]},{"Token":33},{"And":[[993],null]},{"Token":32},{"And":[[995],null]},{"Or":[994,996]},{"Token":87},{"Opt":998},{"And":[[997,999],null]},{"Or":[1000]},{"Token":35},{"Opt":1002},{"WithSkip":[94,93]},{"Rep":1004},{"Call":[151,[[2,1005]]]},{"And":[[1003,1006],null]},{"Or":[1007]},{"Call":[79,[[0,1008]]]},{"And":[[1009],null]},{"Or":[1010]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1016],null]},{"Token":58},{"And":[[1018],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1024,76],1]},{"Or":[1025]},{"Opt":1026},{"Token":58},{"And":[[1022,64,1023,1027,1028],1]},{"Or":[1029]},{"Token":59},{"And":[[1031,49],null]},{"Or":[1032]},{"Token":58},{"And":[[1034],null]},{"Or":[1035]},{"And":[[78],null]},"Eof",{"And":[[1038],null]},{"Token":58},{"And":[[1040],null]},{"Or":[1039,1041]},{"And":[[76,1042],1]},{"Or":[1037,1043]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1047,1048]},{"And":[[1046,1049],null]},{"Or":[1050]},{"Opt":1051},{"And":[[1045,101,92,1052],1]},{"Or":[1053]},{"Opt":105},{"Token":25},{"And":[[1055,1056,101,92],2]},{"Or":[1057]},{"Token":9},{"Token":53},{"And":[[1059,64,1060],1]},{"Or":[1061]},{"Opt":1062},{"And":[[1063,102],1]},{"Enter":[0,76]},{"And":[[1065],null]},{"Opt":105},{"Token":24},{"And":[[1067,1068,92],2]},{"Or":[1069]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1071,1072,64,1073,102,92],2]},{"Or":[1074]},{"Token":87},{"Token":59},{"And":[[1076,1077],null]},{"Token":30},{"Rep":107},{"Call":[79,[[0,1080]]]},{"Call":[151,[[2,1081]]]},{"And":[[1079,102,1082],1]},{"Or":[1083]},{"Token":52},{"Token":61},{"Opt":1086},{"And":[[78,1087],null]},{"Token":61},{"And":[[1089],null]},"Eof",{"And":[[1091],null]},{"Or":[1090,1092]},{"And":[[76,1093],null]},{"Or":[1088,1094]},{"And":[[108,1085,1095],1]},{"Or":[1096]},{"Token":79},{"And":[[1098,64],null]},{"Or":[1099]},{"Rep":1100},{"Opt":109},{"And":[[64,1101,1102],null]},{"Token":14},{"And":[[1104,76],null]},{"Or":[1105]},{"And":[[147],null]},{"Or":[1107]},{"And":[[148],null]},{"Or":[1109]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1113},{"And":[[1111,1112,1114,114],null]},{"Or":[1115]},{"And":[[76,1116],null]},{"Or":[1117]},{"And":[[76,114],null]},{"Or":[1119]},{"Call":[150,[[1,115]]]},{"Call":[152,[[3,1121]]]},{"Call":[79,[[0,1122]]]},{"And":[[1123],null]},{"And":[[76],null]},{"Or":[1125]},{"Token":62},{"Token":92},{"And":[[1128],null]},{"Token":89},{"And":[[1130],null]},{"Or":[1129,1131]},{"And":[[1127,1132],null]},{"Or":[1133]},{"And":[[76,1134],null]},{"Or":[1135]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,1137]]]},{"And":[[76,1138],null]},{"Or":[1139]},{"Token":83},{"And":[[76,1141],null]},{"Or":[1142]},{"Token":5},{"And":[[1144,50],null]},{"Or":[1145]},{"And":[[76,1146],null]},{"Or":[1147]},{"Token":77},{"Token":27},{"Opt":1150},{"And":[[1149,1151],null]},{"Or":[1152]},{"And":[[1153,76],null]},{"Or":[1154]},{"Token":77},{"Token":87},{"Opt":1157},{"Token":27},{"Opt":1159},{"And":[[1156,1158,1160],null]},{"Token":67},{"And":[[1162,76],null]},{"Or":[1163]},{"Token":75},{"And":[[1165,76],null]},{"Or":[1166]},{"Token":82},{"And":[[1168,76],null]},{"Or":[1169]},{"Token":67},{"And":[[1171],null]},{"Token":69},{"And":[[1173],null]},{"Token":71},{"And":[[1175],null]},{"Or":[1172,1174,1176]},{"And":[[76,1177,76],null]},{"Or":[1178]},{"Token":73},{"And":[[1180],null]},{"Token":75},{"And":[[1182],null]},{"Or":[1181,1183]},{"And":[[76,1184,76],null]},{"Or":[1185]},{"ContextualToken":[45,"<<"]},{"And":[[1187],null]},{"ContextualToken":[47,">>"]},{"And":[[1189],null]},{"Or":[1188,1190]},{"And":[[76,1191,76],null]},{"Or":[1192]},{"ContextualToken":[49,"&&"]},{"Not":1194},{"Token":77},{"And":[[1195,1196],null]},{"Or":[1197]},{"And":[[76,1198,76],null]},{"Or":[1199]},{"Token":84},{"And":[[76,1201,76],null]},{"Or":[1202]},{"ContextualToken":[50,"||"]},{"Not":1204},{"Token":79},{"And":[[1205,1206],null]},{"Or":[1207]},{"And":[[76,1208,76],null]},{"Or":[1209]},{"And":[[76,132,76],null]},{"Or":[1211]},{"Token":54},{"And":[[1213],null]},{"Token":55},{"And":[[1215],null]},{"ContextualToken":[46,"<<="]},{"And":[[1217],null]},{"ContextualToken":[48,">>="]},{"And":[[1219],null]},{"Or":[1218,1220]},{"Not":1221},{"Token":41},{"And":[[1223],null]},{"Token":42},{"And":[[1225],null]},{"Or":[1224,1226]},{"And":[[1222,1227],null]},{"Token":57},{"And":[[1229],null]},{"Token":56},{"And":[[1231],null]},{"ContextualToken":[49,"&&"]},{"And":[[76,1233,76],null]},{"Or":[1234]},{"ContextualToken":[50,"||"]},{"And":[[76,1236,76],null]},{"Or":[1237]},{"And":[[76,140,76],null]},{"Or":[1239]},{"And":[[140,76],null]},{"Or":[1241]},{"And":[[76,139],null]},{"Or":[1243]},{"Token":63},{"Token":39},{"IsIn":0},{"And":[[1246,1247],null]},{"Or":[1248]},{"Not":1249},{"And":[[1250,77],null]},{"Or":[1251]},{"Not":1252},{"And":[[1245,1253],null]},{"Or":[1254]},{"Token":63},{"And":[[1256],null]},{"Token":64},{"And":[[1258],null]},{"Not":77},{"Not":1260},{"Token":39},{"IsIn":0},{"And":[[1262,1263],null]},{"Or":[1264]},{"Not":1265},{"And":[[139,1261,1266],null]},{"Token":53},{"And":[[1268],null]},{"Token":74},{"And":[[1270],null]},{"Token":76},{"And":[[1272],null]},{"Token":68},{"And":[[1274],null]},{"Token":70},{"And":[[1276],null]},{"Token":72},{"And":[[1278],null]},{"Token":78},{"And":[[1280],null]},{"Token":80},{"And":[[1282],null]},{"Token":85},{"And":[[1284],null]},{"ContextualToken":[48,">>="]},{"And":[[1286],null]},{"ContextualToken":[46,"<<="]},{"And":[[1288],null]},{"Or":[1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,1289]},{"And":[[76,1290,76],null]},{"Or":[1291]},{"Token":65},{"And":[[1293,144],null]},{"Or":[1294]},{"Token":65},{"Token":82},{"And":[[1296,1297,144],null]},{"Or":[1298]},{"Call":[150,[[1,146]]]},{"Call":[154,[[5,1300]]]},{"And":[[1301],null]},{"Rep":142},{"And":[[1303],null]},{"Token":92},{"Token":53},{"And":[[1306,76],null]},{"Call":[150,[[1,146]]]},{"Call":[152,[[3,1308]]]},{"And":[[1309],null]},{"Or":[1307,1310]},{"Opt":1311},{"And":[[1305,1312],1]},{"Or":[1313]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1317},{"Rep":149},{"Call":[151,[[2,1319]]]},{"And":[[1315,1316,1318,1320],null]},{"Or":[1321]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1325},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1327,1328,1329],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1331,1332,1333],null]},{"Or":[1330,1334]},{"And":[[1323,1324,1326,1335],null]},{"Or":[1336]},{"Token":37},{"And":[[1338],null]},{"Token":38},{"And":[[1340],null]},{"Token":39},{"And":[[1342],null]},{"Token":40},{"And":[[1344],null]},{"Token":43},{"And":[[1346],null]},{"Token":44},{"And":[[1348],null]},{"Or":[1339,1341,1343,1345,1347,1349]},{"Not":1350},"Any",{"And":[[1351,1352],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1354,1355,1356],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1358,1359,1360],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1362,1363,1364],null]},{"Or":[1353,1357,1361,1365]},{"Var":1},"Eof",{"And":[[1368],null]},{"Token":61},{"And":[[1370],null]},{"Or":[1369,1371]},{"And":[[1367,1372],1]},{"Or":[1373]},{"Rep":1374},{"And":[[1375],null]},{"Token":39},{"Token":40},{"Var":2},{"Call":[155,[[6,1377],[7,1378],[8,1379]]]},{"And":[[1380],null]},{"Token":37},{"Token":38},{"Var":3},{"Call":[155,[[6,1382],[7,1383],[8,1384]]]},{"And":[[1385],null]},{"Token":41},{"Var":4},{"Layer":[157,1388]},{"Token":42},{"And":[[1387,1389,1390],1]},{"Token":43},{"Token":44},{"Var":5},{"Call":[155,[[6,1392],[7,1393],[8,1394]]]},{"And":[[1395],null]},{"Var":6},{"Var":6},{"Var":7},{"Call":[156,[[9,1398],[10,1399]]]},{"Var":8},{"Layer":[1400,1401]},{"Var":7},{"And":[[1397,1402,1403],1]},{"Var":9},{"Var":9},{"Var":10},{"Call":[156,[[9,1406],[10,1407]]]},{"Var":10},{"And":[[1405,1408,1409],1]},{"Var":10},{"Not":1411},"Any",{"And":[[1412,1413],null]},{"Or":[1414]},{"And":[[1415],null]},{"Or":[1410,1416]},{"Rep":1417},{"And":[[1418],null]},{"Token":41},{"Token":42},{"And":[[1420,157,1421],1]},{"Token":37},{"Token":37},{"Token":38},{"Call":[156,[[9,1424],[10,1425]]]},{"Token":38},{"And":[[1423,1426,1427],null]},{"Token":43},{"Token":43},{"Token":44},{"Call":[156,[[9,1430],[10,1431]]]},{"Token":44},{"And":[[1429,1432,1433],null]},{"Token":39},{"Token":39},{"Token":40},{"Call":[156,[[9,1436],[10,1437]]]},{"Token":40},{"And":[[1435,1438,1439],null]},{"Token":42},{"Not":1441},"Any",{"And":[[1442,1443],null]},{"Or":[1444]},{"And":[[1445],null]},{"Or":[1422,1428,1434,1440,1446]},{"Rep":1447},{"And":[[1448],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":159,"replaceable":false}},{"Or":[162]},{"Or":[164,166,168,170,172,174,176,177]},{"Cached":194},{"Pub":{"ty":94,"body":210,"replaceable":false}},{"Pub":{"ty":95,"body":216,"replaceable":false}},{"Pub":{"ty":96,"body":223,"replaceable":false}},{"Pub":{"ty":97,"body":230,"replaceable":false}},{"Pub":{"ty":98,"body":246,"replaceable":false}},{"Or":[248]},{"Pub":{"ty":99,"body":253,"replaceable":false}},{"Or":[259]},{"Pub":{"ty":100,"body":262,"replaceable":false}},{"Pub":{"ty":101,"body":268,"replaceable":false}},{"Pub":{"ty":102,"body":285,"replaceable":false}},{"Pub":{"ty":103,"body":304,"replaceable":false}},{"Pub":{"ty":104,"body":309,"replaceable":false}},{"Pub":{"ty":105,"body":312,"replaceable":false}},{"Pub":{"ty":106,"body":319,"replaceable":false}},{"Pub":{"ty":107,"body":332,"replaceable":false}},{"Pub":{"ty":108,"body":341,"replaceable":false}},{"Pub":{"ty":109,"body":354,"replaceable":false}},{"Pub":{"ty":110,"body":362,"replaceable":false}},{"Pub":{"ty":111,"body":374,"replaceable":false}},{"Or":[375,376,377,378]},{"Or":[380,382,384,386,388,390,392,394,399]},{"Pub":{"ty":112,"body":409,"replaceable":false}},{"Pub":{"ty":113,"body":423,"replaceable":false}},{"Pub":{"ty":114,"body":427,"replaceable":false}},{"Pub":{"ty":115,"body":431,"replaceable":false}},{"Or":[439]},{"Pub":{"ty":116,"body":446,"replaceable":false}},{"Pub":{"ty":117,"body":450,"replaceable":false}},{"Or":[472]},{"Pub":{"ty":118,"body":477,"replaceable":false}},{"Pub":{"ty":119,"body":497,"replaceable":false}},{"Pub":{"ty":120,"body":510,"replaceable":false}},{"Pub":{"ty":121,"body":529,"replaceable":false}},{"Or":[530]},{"Or":[532]},{"Or":[534]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":537,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":541,"replaceable":false}},{"Pub":{"ty":122,"body":546,"replaceable":false}},{"Pub":{"ty":123,"body":553,"replaceable":false}},{"Pub":{"ty":124,"body":567,"replaceable":false}},{"Pub":{"ty":125,"body":593,"replaceable":false}},{"Pub":{"ty":126,"body":598,"replaceable":false}},{"Pub":{"ty":127,"body":602,"replaceable":false}},{"Pub":{"ty":128,"body":608,"replaceable":false}},{"Pub":{"ty":128,"body":610,"replaceable":false}},{"Or":[611,612,613,614,615,616,617,618,619,620]},{"Pub":{"ty":129,"body":622,"replaceable":false}},{"Pub":{"ty":130,"body":624,"replaceable":false}},{"Pub":{"ty":131,"body":632,"replaceable":false}},{"Pub":{"ty":132,"body":635,"replaceable":false}},{"Pub":{"ty":133,"body":639,"replaceable":false}},{"Pub":{"ty":134,"body":645,"replaceable":true}},{"PubReplace":{"ty":135,"body":649}},{"Pub":{"ty":136,"body":652,"replaceable":false}},{"Pub":{"ty":137,"body":663,"replaceable":false}},{"Pub":{"ty":138,"body":670,"replaceable":false}},{"Pub":{"ty":100,"body":676,"replaceable":false}},{"Pub":{"ty":139,"body":679,"replaceable":false}},{"Or":[680,681,682,683,684,685,686]},{"Pub":{"ty":140,"body":689,"replaceable":false}},{"Pub":{"ty":141,"body":695,"replaceable":true}},{"PubReplace":{"ty":142,"body":707}},{"PubReplace":{"ty":143,"body":719}},{"Pub":{"ty":144,"body":726,"replaceable":false}},{"Pub":{"ty":145,"body":733,"replaceable":false}},{"Pub":{"ty":146,"body":735,"replaceable":false}},{"Pub":{"ty":147,"body":739,"replaceable":false}},{"Pub":{"ty":148,"body":745,"replaceable":true}},{"PubReplace":{"ty":149,"body":749}},{"Pub":{"ty":150,"body":754,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,138],"prefixes":[{"ty":184,"op":779,"priority":999},{"ty":185,"op":780,"priority":999},{"ty":186,"op":781,"priority":999},{"ty":187,"op":782,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":760,"priority":999,"has_rhs":false},{"ty":178,"op":114,"priority":999,"has_rhs":false},{"ty":180,"op":768,"priority":999,"has_rhs":false},{"ty":181,"op":770,"priority":999,"has_rhs":false},{"ty":182,"op":771,"priority":999,"has_rhs":false},{"ty":183,"op":774,"priority":12,"has_rhs":false},{"ty":188,"op":789,"priority":11,"has_rhs":true},{"ty":189,"op":794,"priority":10,"has_rhs":true},{"ty":190,"op":799,"priority":9,"has_rhs":true},{"ty":191,"op":804,"priority":8,"has_rhs":true},{"ty":192,"op":805,"priority":7,"has_rhs":true},{"ty":193,"op":810,"priority":6,"has_rhs":true},{"ty":194,"op":132,"priority":5,"has_rhs":true},{"ty":195,"op":811,"priority":4,"has_rhs":true},{"ty":196,"op":812,"priority":3,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":835,"priority":1,"has_rhs":true}]}},{"Or":[836,838,840,842,844,846,848,850,852,854,856,858,860,862,864,866,868,870,872,874,876,878,880,882,884,886]},{"Or":[901]},{"Or":[904]},{"Pub":{"ty":152,"body":915,"replaceable":false}},{"Pub":{"ty":153,"body":923,"replaceable":true}},{"PubReplace":{"ty":154,"body":936}},{"Pub":{"ty":155,"body":943,"replaceable":false}},{"Pub":{"ty":156,"body":947,"replaceable":false}},{"Pub":{"ty":157,"body":954,"replaceable":true}},{"PubReplace":{"ty":158,"body":959}},{"Pub":{"ty":159,"body":972,"replaceable":false}},{"Pub":{"ty":160,"body":983,"replaceable":false}},{"Or":[991]},{"Pub":{"ty":161,"body":995,"replaceable":false}},{"Pub":{"ty":162,"body":1004,"replaceable":false}},{"Pub":{"ty":163,"body":1014,"replaceable":false}},{"Or":[1015,1016,1017,1018]},{"Or":[1020,1022,1023,1024]},{"Pub":{"ty":164,"body":1033,"replaceable":false}},{"Pub":{"ty":165,"body":1036,"replaceable":false}},{"Pub":{"ty":166,"body":1039,"replaceable":false}},{"Pub":{"ty":167,"body":1047,"replaceable":false}},{"Pub":{"ty":168,"body":1057,"replaceable":false}},{"Pub":{"ty":169,"body":1061,"replaceable":false}},{"Or":[1067]},{"Or":[1069]},{"Pub":{"ty":170,"body":1073,"replaceable":false}},{"Pub":{"ty":171,"body":1078,"replaceable":false}},{"Or":[1081]},{"Pub":{"ty":172,"body":1087,"replaceable":false}},{"Pub":{"ty":173,"body":1100,"replaceable":false}},{"Or":[1106]},{"Pub":{"ty":174,"body":1109,"replaceable":false}},{"Pub":{"ty":175,"body":1111,"replaceable":false}},{"Pub":{"ty":176,"body":1113,"replaceable":false}},{"Pub":{"ty":177,"body":1121,"replaceable":false}},{"Pub":{"ty":178,"body":1123,"replaceable":false}},{"Or":[1127]},{"Pub":{"ty":179,"body":1129,"replaceable":false}},{"Pub":{"ty":180,"body":1139,"replaceable":false}},{"Pub":{"ty":181,"body":1143,"replaceable":false}},{"Pub":{"ty":182,"body":1146,"replaceable":false}},{"Pub":{"ty":183,"body":1151,"replaceable":false}},{"Pub":{"ty":184,"body":1158,"replaceable":false}},{"Or":[1164]},{"Pub":{"ty":185,"body":1167,"replaceable":false}},{"Pub":{"ty":186,"body":1170,"replaceable":false}},{"Pub":{"ty":187,"body":1173,"replaceable":false}},{"Pub":{"ty":188,"body":1182,"replaceable":false}},{"Pub":{"ty":189,"body":1189,"replaceable":false}},{"Pub":{"ty":190,"body":1196,"replaceable":false}},{"Pub":{"ty":191,"body":1203,"replaceable":false}},{"Pub":{"ty":192,"body":1206,"replaceable":false}},{"Pub":{"ty":193,"body":1213,"replaceable":false}},{"Pub":{"ty":194,"body":1215,"replaceable":false}},{"Or":[1217,1219,1231,1233,1235]},{"Pub":{"ty":195,"body":1238,"replaceable":false}},{"Pub":{"ty":196,"body":1241,"replaceable":false}},{"Pub":{"ty":197,"body":1243,"replaceable":false}},{"Pub":{"ty":197,"body":1245,"replaceable":false}},{"Pub":{"ty":197,"body":1247,"replaceable":false}},{"Pub":{"ty":197,"body":1258,"replaceable":false}},{"Or":[1260,1262]},{"Or":[1270]},{"Pub":{"ty":198,"body":1295,"replaceable":false}},{"Pub":{"ty":199,"body":1298,"replaceable":false}},{"Pub":{"ty":200,"body":1302,"replaceable":false}},{"Or":[1305]},{"Or":[1307]},{"Pub":{"ty":201,"body":1317,"replaceable":false}},{"Pub":{"ty":202,"body":1325,"replaceable":false}},{"Pub":{"ty":203,"body":1340,"replaceable":false}},{"Pub":{"ty":204,"body":1369,"replaceable":false}},{"Or":[1379]},{"Or":[1384]},{"Or":[1389]},{"Or":[1394]},{"Or":[1399]},{"Or":[1407]},{"Or":[1422]},{"Or":[1452]},{"And":[[1],null]},{"Or":[158]},{"WithSkip":[2,3]},{"Rep":160},{"And":[[161],null]},{"Token":11},{"And":[[163],null]},{"ContextualToken":[4,"union"]},{"And":[[165],null]},{"Token":16},{"And":[[167],null]},{"Token":12},{"And":[[169],null]},{"Token":13},{"And":[[171],null]},{"Token":17},{"And":[[173],null]},{"Token":29},{"And":[[175],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,178],null]},{"Or":[179]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[181,182,183,184,185,186,187,188,189]},{"Inject":[180,190]},{"And":[[191],null]},{"And":[[28],null]},{"Or":[192,193]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[197,5],null]},{"Or":[198]},{"Opt":199},{"And":[[200],null]},{"Or":[196,201]},{"And":[[38,202],null]},{"Token":60},{"Opt":204},{"And":[[205,5],null]},{"Or":[203,206]},{"Token":58},{"And":[[195,207,208],1]},{"Or":[209]},{"Token":67},{"And":[[211],null]},{"Call":[150,[[1,6]]]},{"Call":[151,[[2,213]]]},{"And":[[214],null]},{"Or":[212,215]},{"Token":18},{"Opt":48},{"And":[[217,218],null]},{"Token":92},{"Opt":48},{"And":[[220,221],1]},{"Or":[219,222]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[224,225,226,227,228],2]},{"Or":[229]},{"Token":21},{"Opt":231},{"Token":35},{"Opt":233},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[242],null]},{"Or":[241,243]},{"And":[[232,234,235,236,237,238,11,239,240,244],4]},{"Or":[245]},{"Token":51},{"And":[[247,49],null]},{"Token":7},{"Token":90},{"Opt":250},{"And":[[249,251],null]},{"Or":[252]},{"Opt":14},{"Call":[150,[[1,12]]]},{"And":[[254,255],null]},{"Or":[256]},{"Call":[152,[[3,257]]]},{"And":[[258],null]},{"Token":59},{"And":[[64,260,49],1]},{"Or":[261]},{"Token":59},{"And":[[263,49],null]},{"Or":[264]},{"Opt":265},{"And":[[64,266],null]},{"Or":[267]},{"And":[[121],null]},{"Token":27},{"And":[[270],null]},{"Or":[269,271]},{"Opt":272},{"Token":18},{"Token":59},{"And":[[275,49],null]},{"Or":[276]},{"Opt":277},{"Token":61},{"And":[[279],null]},"Eof",{"And":[[281],null]},{"Or":[280,282]},{"And":[[273,274,278,283],2]},{"Or":[284]},{"Token":11},{"And":[[286],null]},{"ContextualToken":[4,"union"]},{"And":[[288],null]},{"Or":[287,289]},{"Token":92},{"Opt":31},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,293]]]},{"And":[[294],null]},{"Token":58},{"And":[[296],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,298]]]},{"Token":58},{"And":[[299,300],null]},{"Or":[295,297,301]},{"And":[[290,291,292,302],1]},{"Or":[303]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[305,306,307,49],2]},{"Or":[308]},{"Opt":36},{"And":[[310,49],null]},{"Or":[311]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[1,19]]]},{"Call":[151,[[2,316]]]},{"And":[[313,314,315,317],1]},{"Or":[318]},{"Token":92},{"Token":53},{"And":[[321,76],null]},{"Call":[150,[[1,17]]]},{"Call":[152,[[3,323]]]},{"And":[[324],null]},{"Call":[150,[[1,16]]]},{"Call":[151,[[2,326]]]},{"And":[[327],null]},{"Or":[322,325,328]},{"Opt":329},{"And":[[320,330],1]},{"Or":[331]},{"Token":13},{"Token":92},{"Token":58},{"And":[[335],null]},{"Call":[151,[[2,1]]]},{"And":[[337],null]},{"Or":[336,338]},{"And":[[333,334,339],1]},{"Or":[340]},{"Token":35},{"Opt":342},{"Token":17},{"Opt":31},{"Token":23},{"And":[[346,49],null]},{"Or":[347]},{"Opt":348},{"And":[[49,349],null]},{"Or":[350]},{"Opt":37},{"And":[[343,344,345,351,352,23],2]},{"Or":[353]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,355,356,357,358,359,360,23],3]},{"Or":[361]},{"Opt":36},{"And":[[145,363],null]},{"Or":[364]},{"Inject":[365,24]},{"And":[[366],null]},{"And":[[28],null]},{"Or":[367,368]},{"WithSkip":[25,369]},{"Rep":370},{"Call":[151,[[2,371]]]},{"And":[[372],null]},{"Or":[373]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[379],null]},{"Token":8},{"And":[[381],null]},{"Token":20},{"And":[[383],null]},{"Token":21},{"And":[[385],null]},{"Token":22},{"And":[[387],null]},{"Token":35},{"And":[[389],null]},{"Token":65},{"And":[[391],null]},{"Token":7},{"And":[[393],null]},{"Token":92},{"Token":82},{"And":[[395,396],null]},{"Or":[397]},{"And":[[398],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[403,49],null]},{"Or":[404]},{"Opt":405},{"Token":58},{"And":[[400,401,402,406,407],1]},{"Or":[408]},{"Token":21},{"And":[[410],null]},{"Token":22},{"And":[[412],null]},{"Or":[411,413]},{"Token":92},{"Token":59},{"Token":53},{"And":[[417,76],null]},{"Or":[418]},{"Opt":419},{"Token":58},{"And":[[414,415,416,49,420,421],1]},{"Or":[422]},{"And":[[147],null]},{"Token":58},{"And":[[148,425],null]},{"Or":[424,426]},{"Rep":30},{"Call":[151,[[2,428]]]},{"And":[[10,429],null]},{"Or":[430]},{"Opt":36},{"And":[[145,432],null]},{"Or":[433]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[435,436]},{"Inject":[434,437]},{"And":[[438],null]},{"Call":[150,[[1,35]]]},{"Call":[150,[[1,32]]]},{"And":[[440,441],null]},{"Or":[442]},{"Call":[153,[[4,443]]]},{"And":[[444],null]},{"Or":[445]},{"Token":92},{"Opt":33},{"And":[[447,448],1]},{"Or":[449]},{"Token":59},{"Token":73},{"And":[[452],null]},"Eof",{"And":[[454],null]},{"Token":61},{"And":[[456],null]},{"Token":58},{"And":[[458],null]},{"Token":39},{"And":[[460],null]},{"Token":36},{"And":[[462],null]},{"Or":[457,459,461,463]},{"Not":464},{"Not":465},{"And":[[466],null]},{"Or":[453,455,467]},{"And":[[34,468],1]},{"Or":[469]},{"Rep":470},{"And":[[451,471],null]},{"Token":87},{"And":[[473],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[474,475,476]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[481],null]},"Eof",{"And":[[483],null]},{"Token":61},{"Not":485},{"Not":486},{"And":[[487],null]},{"Or":[482,484,488]},{"And":[[480,489],1]},{"Or":[490]},{"Rep":491},{"And":[[479,492],null]},{"Or":[493]},{"Opt":494},{"And":[[478,495],1]},{"Or":[496]},{"Token":10},{"Token":37},{"Token":6},{"And":[[500],null]},{"Token":19},{"And":[[502],null]},{"Or":[501,503]},{"Token":38},{"And":[[499,504,505],null]},{"Or":[506]},{"Opt":507},{"And":[[498,508],null]},{"Or":[509]},{"Token":36},{"Token":61},{"And":[[512],null]},"Eof",{"And":[[514],null]},{"Token":58},{"And":[[516],null]},{"Token":39},{"And":[[518],null]},{"Or":[517,519]},{"Not":520},{"Not":521},{"And":[[522],null]},{"Or":[513,515,523]},{"And":[[49,33,524],null]},{"Or":[525]},{"Rep":526},{"And":[[511,527],1]},{"Or":[528]},{"And":[[41],null]},{"Enter":[2,41]},{"And":[[531],null]},{"Enter":[1,41]},{"And":[[533],null]},{"Token":60},{"And":[[535,45],null]},{"Or":[536]},{"Token":60},{"Opt":538},{"And":[[539,45],null]},{"Or":[540]},{"Token":60},{"And":[[542,45],null]},{"Or":[543]},{"And":[[41,544],null]},{"Or":[545]},{"Token":5},{"And":[[49,547,49],null]},{"Or":[548]},{"Call":[153,[[4,549]]]},{"Token":60},{"And":[[550,551,45],null]},{"Or":[552]},{"Token":92},{"And":[[554],null]},{"Token":18},{"And":[[556],null]},{"Token":19},{"And":[[558],null]},{"Or":[555,557,559]},{"And":[[46],null]},{"IsIn":2},{"And":[[562,47],null]},{"Or":[561,563]},{"Opt":564},{"And":[[560,565],null]},{"Or":[566]},{"IsIn":2},{"And":[[568],null]},{"IsIn":1},{"Token":60},{"And":[[570,571],null]},{"Or":[569,572]},{"Token":87},{"Call":[150,[[1,574]]]},{"Token":92},{"Token":53},{"And":[[576,577],null]},{"Or":[578]},{"Not":579},{"And":[[580,49],null]},{"Or":[581]},{"Call":[150,[[1,582]]]},{"Token":92},{"Token":53},{"And":[[584,585,49],null]},{"Or":[586]},{"Call":[150,[[1,587]]]},{"And":[[575,583,588],null]},{"Or":[589]},{"Call":[153,[[4,590]]]},{"And":[[573,591],null]},{"Or":[592]},{"Call":[150,[[1,49]]]},{"Call":[152,[[3,594]]]},{"Opt":9},{"And":[[595,596],null]},{"Or":[597]},{"Token":5},{"Token":92},{"And":[[599,600],null]},{"Or":[601]},{"Token":73},{"And":[[603,34],null]},{"Or":[604]},{"Rep":605},{"And":[[51,606],null]},{"Or":[607]},{"And":[[51],null]},{"Or":[609]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[621]},{"And":[[121,49],null]},{"Or":[623]},{"Token":67},{"Token":21},{"And":[[626],null]},{"Token":27},{"And":[[628],null]},{"Or":[627,629]},{"And":[[625,630,49],null]},{"Or":[631]},{"Token":81},{"And":[[633],null]},{"Or":[634]},{"Token":37},{"Token":38},{"And":[[636,637],null]},{"Or":[638]},{"Opt":58},{"And":[[49,640],null]},{"Or":[641]},{"Call":[152,[[3,642]]]},{"And":[[643],null]},{"Or":[644]},{"Token":61},{"Call":[150,[[1,49]]]},{"And":[[646,647],null]},{"Or":[648]},{"Token":82},{"And":[[650],null]},{"Or":[651]},{"Token":58},{"Call":[79,[[0,76]]]},{"Exit":[2,654]},{"And":[[653,655],null]},{"Or":[656]},{"Opt":657},{"And":[[49,658],null]},{"Or":[659]},{"Call":[154,[[5,660]]]},{"And":[[661],null]},{"Or":[662]},{"Opt":10},{"Token":8},{"Call":[150,[[1,62]]]},{"Call":[152,[[3,666]]]},{"Opt":9},{"And":[[664,665,667,668],2]},{"Or":[669]},{"Token":59},{"And":[[64,671],null]},{"Or":[672]},{"Opt":673},{"And":[[674,49],null]},{"Or":[675]},{"Token":23},{"And":[[677,31,49],1]},{"Or":[678]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[687],null]},{"Or":[688]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[690,691]},{"Opt":692},{"And":[[40,693],null]},{"Or":[694]},{"Call":[150,[[1,64]]]},{"Token":63},{"Token":61},{"Opt":698},{"And":[[697,699],null]},{"Or":[700]},{"Opt":701},{"And":[[696,702],null]},{"Or":[703]},{"Call":[152,[[3,704]]]},{"And":[[705],null]},{"Or":[706]},{"Call":[150,[[1,69]]]},{"Token":63},{"Token":61},{"Opt":710},{"And":[[709,711],null]},{"Or":[712]},{"Opt":713},{"And":[[708,714],null]},{"Or":[715]},{"Call":[151,[[2,716]]]},{"And":[[717],null]},{"Or":[718]},{"Token":59},{"Not":720},{"And":[[70,721],null]},{"Token":92},{"Token":59},{"And":[[723,724,64],2]},{"Or":[722,725]},{"Token":28},{"Opt":727},{"Token":27},{"Opt":729},{"Token":92},{"And":[[728,730,731],null]},{"Or":[732]},{"And":[[80],null]},{"Or":[734]},{"Token":37},{"Token":38},{"And":[[736,737],null]},{"Or":[738]},{"Opt":74},{"And":[[64,740],null]},{"Or":[741]},{"Call":[152,[[3,742]]]},{"And":[[743],null]},{"Or":[744]},{"Token":61},{"Call":[150,[[1,64]]]},{"And":[[746,747],null]},{"Or":[748]},{"Token":77},{"Token":27},{"Opt":751},{"And":[[750,752,64],null]},{"Or":[753]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":757},{"And":[[755,756,758,114],null]},{"Or":[759]},{"Token":62},{"Token":92},{"And":[[762],null]},{"Token":89},{"And":[[764],null]},{"Or":[763,765]},{"And":[[761,766],null]},{"Or":[767]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,769]]]},{"Token":83},{"Token":5},{"And":[[772,50],null]},{"Or":[773]},{"Token":77},{"Token":27},{"Opt":776},{"And":[[775,777],null]},{"Or":[778]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[783],null]},{"Token":69},{"And":[[785],null]},{"Token":71},{"And":[[787],null]},{"Or":[784,786,788]},{"Token":73},{"And":[[790],null]},{"Token":75},{"And":[[792],null]},{"Or":[791,793]},{"ContextualToken":[45,"<<"]},{"And":[[795],null]},{"ContextualToken":[47,">>"]},{"And":[[797],null]},{"Or":[796,798]},{"ContextualToken":[49,"&&"]},{"Not":800},{"Token":77},{"And":[[801,802],null]},{"Or":[803]},{"Token":84},{"ContextualToken":[50,"||"]},{"Not":806},{"Token":79},{"And":[[807,808],null]},{"Or":[809]},{"ContextualToken":[49,"&&"]},{"ContextualToken":[50,"||"]},{"Token":53},{"And":[[813],null]},{"Token":74},{"And":[[815],null]},{"Token":76},{"And":[[817],null]},{"Token":68},{"And":[[819],null]},{"Token":70},{"And":[[821],null]},{"Token":72},{"And":[[823],null]},{"Token":78},{"And":[[825],null]},{"Token":80},{"And":[[827],null]},{"Token":85},{"And":[[829],null]},{"ContextualToken":[48,">>="]},{"And":[[831],null]},{"ContextualToken":[46,"<<="]},{"And":[[833],null]},{"Or":[814,816,818,820,822,824,826,828,830,832,834]},{"And":[[80],null]},{"Token":92},{"And":[[837],null]},{"Token":87},{"And":[[839],null]},{"Token":18},{"And":[[841],null]},{"Token":19},{"And":[[843],null]},{"Token":41},{"And":[[845],null]},{"Token":60},{"And":[[847],null]},{"Token":37},{"And":[[849],null]},{"Token":43},{"And":[[851],null]},{"Token":79},{"And":[[853],null]},{"Token":31},{"And":[[855],null]},{"Token":39},{"And":[[857],null]},{"Token":14},{"And":[[859],null]},{"Token":25},{"And":[[861],null]},{"Token":24},{"And":[[863],null]},{"Token":23},{"And":[[865],null]},{"Token":30},{"And":[[867],null]},{"Token":26},{"And":[[869],null]},{"Token":32},{"And":[[871],null]},{"Token":33},{"And":[[873],null]},{"Token":77},{"And":[[875],null]},{"Token":67},{"And":[[877],null]},{"Token":75},{"And":[[879],null]},{"Token":82},{"And":[[881],null]},{"Token":63},{"And":[[883],null]},{"Token":64},{"And":[[885],null]},{"And":[[92],null]},{"And":[[99],null]},{"And":[[100],null]},{"And":[[103],null]},{"And":[[104],null]},{"And":[[106],null]},{"And":[[110],null]},{"Or":[887,888,889,890,891,892,893]},{"Token":62},{"And":[[895],null]},{"Token":83},{"And":[[897],null]},{"Or":[896,898]},{"Not":899},{"And":[[894,900],null]},{"Var":0},{"Exit":[0,902]},{"And":[[903],null]},{"Token":89},{"And":[[905],null]},{"Token":90},{"And":[[907],null]},{"Token":91},{"And":[[909],null]},{"Token":86},{"And":[[911],null]},{"Token":88},{"And":[[913],null]},{"Or":[906,908,910,912,914]},{"Token":92},{"Token":82},{"And":[[916,917],null]},{"Or":[918]},{"Not":919},{"Opt":82},{"And":[[920,40,921],null]},{"Or":[922]},{"IsIn":0},{"Not":924},{"Call":[150,[[1,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[927,928],null]},{"Or":[929]},{"Opt":930},{"And":[[926,931],null]},{"Or":[932]},{"Call":[151,[[2,933]]]},{"And":[[925,934],null]},{"Or":[935]},{"Token":92},{"Token":59},{"And":[[938,76],null]},{"Or":[939]},{"Opt":940},{"And":[[937,941],1]},{"Or":[942]},{"Token":37},{"Token":38},{"And":[[944,945],null]},{"Or":[946]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[948,949],null]},{"Or":[950]},{"Call":[152,[[3,951]]]},{"And":[[952],null]},{"Or":[953]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[150,[[1,956]]]},{"And":[[955,957],null]},{"Or":[958]},{"Token":58},{"And":[[960,76],null]},{"Token":61},{"Call":[150,[[1,76]]]},{"And":[[962,963],null]},{"Or":[961,964]},{"Opt":965},{"And":[[76,966],null]},{"Or":[967]},{"Call":[79,[[0,968]]]},{"Call":[154,[[5,969]]]},{"And":[[970],null]},{"Or":[971]},{"Token":26},{"Opt":973},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[978,49,92],null]},{"And":[[76],null]},{"Or":[979,980]},{"And":[[974,975,976,977,981],null]},{"Or":[982]},{"Token":61},{"And":[[984],null]},{"Token":79},{"Not":986},{"Not":987},{"And":[[988],null]},{"Or":[985,989]},{"And":[[13,990],1]},{"Token":31},{"Opt":76},{"And":[[992,993],null]},{"Or":[994]},{"Token":33},{"And":[[996],null]},{"Token":32},{"And":[[998],null]},{"Or":[997,999]},{"Token":87},{"Opt":1001},{"And":[[1000,1002],null]},{"Or":[1003]},{"Token":35},{"Opt":1005},{"WithSkip":[94,93]},{"Rep":1007},{"Call":[151,[[2,1008]]]},{"And":[[1006,1009],null]},{"Or":[1010]},{"Call":[79,[[0,1011]]]},{"And":[[1012],null]},{"Or":[1013]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1019],null]},{"Token":58},{"And":[[1021],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1027,76],1]},{"Or":[1028]},{"Opt":1029},{"Token":58},{"And":[[1025,64,1026,1030,1031],1]},{"Or":[1032]},{"Token":59},{"And":[[1034,49],null]},{"Or":[1035]},{"Token":58},{"And":[[1037],null]},{"Or":[1038]},{"And":[[78],null]},"Eof",{"And":[[1041],null]},{"Token":58},{"And":[[1043],null]},{"Or":[1042,1044]},{"And":[[76,1045],1]},{"Or":[1040,1046]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1050,1051]},{"And":[[1049,1052],null]},{"Or":[1053]},{"Opt":1054},{"And":[[1048,101,92,1055],1]},{"Or":[1056]},{"Opt":105},{"Token":25},{"And":[[1058,1059,101,92],2]},{"Or":[1060]},{"Token":9},{"Token":53},{"And":[[1062,64,1063],1]},{"Or":[1064]},{"Opt":1065},{"And":[[1066,102],1]},{"Enter":[0,76]},{"And":[[1068],null]},{"Opt":105},{"Token":24},{"And":[[1070,1071,92],2]},{"Or":[1072]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1074,1075,64,1076,102,92],2]},{"Or":[1077]},{"Token":87},{"Token":59},{"And":[[1079,1080],null]},{"Token":30},{"Rep":107},{"Call":[79,[[0,1083]]]},{"Call":[151,[[2,1084]]]},{"And":[[1082,102,1085],1]},{"Or":[1086]},{"Token":52},{"Token":61},{"Opt":1089},{"And":[[78,1090],null]},{"Token":61},{"And":[[1092],null]},"Eof",{"And":[[1094],null]},{"Or":[1093,1095]},{"And":[[76,1096],null]},{"Or":[1091,1097]},{"And":[[108,1088,1098],1]},{"Or":[1099]},{"Token":79},{"And":[[1101,64],null]},{"Or":[1102]},{"Rep":1103},{"Opt":109},{"And":[[64,1104,1105],null]},{"Token":14},{"And":[[1107,76],null]},{"Or":[1108]},{"And":[[147],null]},{"Or":[1110]},{"And":[[148],null]},{"Or":[1112]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1116},{"And":[[1114,1115,1117,114],null]},{"Or":[1118]},{"And":[[76,1119],null]},{"Or":[1120]},{"And":[[76,114],null]},{"Or":[1122]},{"Call":[150,[[1,115]]]},{"Call":[152,[[3,1124]]]},{"Call":[79,[[0,1125]]]},{"And":[[1126],null]},{"And":[[76],null]},{"Or":[1128]},{"Token":62},{"Token":92},{"And":[[1131],null]},{"Token":89},{"And":[[1133],null]},{"Or":[1132,1134]},{"And":[[1130,1135],null]},{"Or":[1136]},{"And":[[76,1137],null]},{"Or":[1138]},{"Call":[79,[[0,76]]]},{"Call":[154,[[5,1140]]]},{"And":[[76,1141],null]},{"Or":[1142]},{"Token":83},{"And":[[76,1144],null]},{"Or":[1145]},{"Token":5},{"And":[[1147,50],null]},{"Or":[1148]},{"And":[[76,1149],null]},{"Or":[1150]},{"Token":77},{"Token":27},{"Opt":1153},{"And":[[1152,1154],null]},{"Or":[1155]},{"And":[[1156,76],null]},{"Or":[1157]},{"Token":77},{"Token":87},{"Opt":1160},{"Token":27},{"Opt":1162},{"And":[[1159,1161,1163],null]},{"Token":67},{"And":[[1165,76],null]},{"Or":[1166]},{"Token":75},{"And":[[1168,76],null]},{"Or":[1169]},{"Token":82},{"And":[[1171,76],null]},{"Or":[1172]},{"Token":67},{"And":[[1174],null]},{"Token":69},{"And":[[1176],null]},{"Token":71},{"And":[[1178],null]},{"Or":[1175,1177,1179]},{"And":[[76,1180,76],null]},{"Or":[1181]},{"Token":73},{"And":[[1183],null]},{"Token":75},{"And":[[1185],null]},{"Or":[1184,1186]},{"And":[[76,1187,76],null]},{"Or":[1188]},{"ContextualToken":[45,"<<"]},{"And":[[1190],null]},{"ContextualToken":[47,">>"]},{"And":[[1192],null]},{"Or":[1191,1193]},{"And":[[76,1194,76],null]},{"Or":[1195]},{"ContextualToken":[49,"&&"]},{"Not":1197},{"Token":77},{"And":[[1198,1199],null]},{"Or":[1200]},{"And":[[76,1201,76],null]},{"Or":[1202]},{"Token":84},{"And":[[76,1204,76],null]},{"Or":[1205]},{"ContextualToken":[50,"||"]},{"Not":1207},{"Token":79},{"And":[[1208,1209],null]},{"Or":[1210]},{"And":[[76,1211,76],null]},{"Or":[1212]},{"And":[[76,132,76],null]},{"Or":[1214]},{"Token":54},{"And":[[1216],null]},{"Token":55},{"And":[[1218],null]},{"ContextualToken":[46,"<<="]},{"And":[[1220],null]},{"ContextualToken":[48,">>="]},{"And":[[1222],null]},{"Or":[1221,1223]},{"Not":1224},{"Token":41},{"And":[[1226],null]},{"Token":42},{"And":[[1228],null]},{"Or":[1227,1229]},{"And":[[1225,1230],null]},{"Token":57},{"And":[[1232],null]},{"Token":56},{"And":[[1234],null]},{"ContextualToken":[49,"&&"]},{"And":[[76,1236,76],null]},{"Or":[1237]},{"ContextualToken":[50,"||"]},{"And":[[76,1239,76],null]},{"Or":[1240]},{"And":[[76,140,76],null]},{"Or":[1242]},{"And":[[140,76],null]},{"Or":[1244]},{"And":[[76,139],null]},{"Or":[1246]},{"Token":63},{"Token":39},{"IsIn":0},{"And":[[1249,1250],null]},{"Or":[1251]},{"Not":1252},{"And":[[1253,77],null]},{"Or":[1254]},{"Not":1255},{"And":[[1248,1256],null]},{"Or":[1257]},{"Token":63},{"And":[[1259],null]},{"Token":64},{"And":[[1261],null]},{"Not":77},{"Not":1263},{"Token":39},{"IsIn":0},{"And":[[1265,1266],null]},{"Or":[1267]},{"Not":1268},{"And":[[139,1264,1269],null]},{"Token":53},{"And":[[1271],null]},{"Token":74},{"And":[[1273],null]},{"Token":76},{"And":[[1275],null]},{"Token":68},{"And":[[1277],null]},{"Token":70},{"And":[[1279],null]},{"Token":72},{"And":[[1281],null]},{"Token":78},{"And":[[1283],null]},{"Token":80},{"And":[[1285],null]},{"Token":85},{"And":[[1287],null]},{"ContextualToken":[48,">>="]},{"And":[[1289],null]},{"ContextualToken":[46,"<<="]},{"And":[[1291],null]},{"Or":[1272,1274,1276,1278,1280,1282,1284,1286,1288,1290,1292]},{"And":[[76,1293,76],null]},{"Or":[1294]},{"Token":65},{"And":[[1296,144],null]},{"Or":[1297]},{"Token":65},{"Token":82},{"And":[[1299,1300,144],null]},{"Or":[1301]},{"Call":[150,[[1,146]]]},{"Call":[154,[[5,1303]]]},{"And":[[1304],null]},{"Rep":142},{"And":[[1306],null]},{"Token":92},{"Token":53},{"And":[[1309,76],null]},{"Call":[150,[[1,146]]]},{"Call":[152,[[3,1311]]]},{"And":[[1312],null]},{"Or":[1310,1313]},{"Opt":1314},{"And":[[1308,1315],1]},{"Or":[1316]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1320},{"Rep":149},{"Call":[151,[[2,1322]]]},{"And":[[1318,1319,1321,1323],null]},{"Or":[1324]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1328},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1330,1331,1332],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1334,1335,1336],null]},{"Or":[1333,1337]},{"And":[[1326,1327,1329,1338],null]},{"Or":[1339]},{"Token":37},{"And":[[1341],null]},{"Token":38},{"And":[[1343],null]},{"Token":39},{"And":[[1345],null]},{"Token":40},{"And":[[1347],null]},{"Token":43},{"And":[[1349],null]},{"Token":44},{"And":[[1351],null]},{"Or":[1342,1344,1346,1348,1350,1352]},{"Not":1353},"Any",{"And":[[1354,1355],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1357,1358,1359],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1361,1362,1363],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1365,1366,1367],null]},{"Or":[1356,1360,1364,1368]},{"Var":1},"Eof",{"And":[[1371],null]},{"Token":61},{"And":[[1373],null]},{"Or":[1372,1374]},{"And":[[1370,1375],1]},{"Or":[1376]},{"Rep":1377},{"And":[[1378],null]},{"Token":39},{"Token":40},{"Var":2},{"Call":[155,[[6,1380],[7,1381],[8,1382]]]},{"And":[[1383],null]},{"Token":37},{"Token":38},{"Var":3},{"Call":[155,[[6,1385],[7,1386],[8,1387]]]},{"And":[[1388],null]},{"Token":41},{"Var":4},{"Layer":[157,1391]},{"Token":42},{"And":[[1390,1392,1393],1]},{"Token":43},{"Token":44},{"Var":5},{"Call":[155,[[6,1395],[7,1396],[8,1397]]]},{"And":[[1398],null]},{"Var":6},{"Var":6},{"Var":7},{"Call":[156,[[9,1401],[10,1402]]]},{"Var":8},{"Layer":[1403,1404]},{"Var":7},{"And":[[1400,1405,1406],1]},{"Var":9},{"Var":9},{"Var":10},{"Call":[156,[[9,1409],[10,1410]]]},{"Var":10},{"And":[[1408,1411,1412],1]},{"Var":10},{"Not":1414},"Any",{"And":[[1415,1416],null]},{"Or":[1417]},{"And":[[1418],null]},{"Or":[1413,1419]},{"Rep":1420},{"And":[[1421],null]},{"Token":41},{"Token":42},{"And":[[1423,157,1424],1]},{"Token":37},{"Token":37},{"Token":38},{"Call":[156,[[9,1427],[10,1428]]]},{"Token":38},{"And":[[1426,1429,1430],null]},{"Token":43},{"Token":43},{"Token":44},{"Call":[156,[[9,1433],[10,1434]]]},{"Token":44},{"And":[[1432,1435,1436],null]},{"Token":39},{"Token":39},{"Token":40},{"Call":[156,[[9,1439],[10,1440]]]},{"Token":40},{"And":[[1438,1441,1442],null]},{"Token":42},{"Not":1444},"Any",{"And":[[1445,1446],null]},{"Or":[1447]},{"And":[[1448],null]},{"Or":[1425,1431,1437,1443,1449]},{"Rep":1450},{"And":[[1451],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0

