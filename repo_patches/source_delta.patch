From 2ef6a57e14b67930178e53f8e75e18afcce142fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 1/3] fix: an empty section ends at the blank line it starts
 with

---
 src/parsers/lines.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/lines.rs b/src/parsers/lines.rs
index bc20a83..076bfff 100644
--- a/src/parsers/lines.rs
+++ b/src/parsers/lines.rs
@@ -84,6 +84,10 @@ impl Region for Section {
         // section at end of input. presumably not repeat forever. (why does
         // this not always hang forever if you try to use `sections`?)
         let source = context.source();
+        if source[start..].starts_with('\n') {
+            // an empty section, ending at a blank line
+            return Ok((start, start + 1));
+        }
         match source[start..].find("\n\n") {
             // ending at a blank line
             Some(index) => Ok((start + index + 1, start + index + 2)),
-- 
2.43.0


From 9cc6dcc975d6562da9879a74324d916fcc15db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 2/3] fix: digit_bin reports that it expected a binary digit

---
 src/parsers/chars.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/chars.rs b/src/parsers/chars.rs
index f2b50ef..7bd9d75 100644
--- a/src/parsers/chars.rs
+++ b/src/parsers/chars.rs
@@ -130,7 +130,7 @@ pub const digit: MapParser<CharParser, fn(char) -> usize> = MapParser {
 #[allow(non_upper_case_globals)]
 pub const digit_bin: MapParser<CharParser, fn(char) -> usize> = MapParser {
     inner: CharParser {
-        noun: "hexadecimal digit",
+        noun: "binary digit",
         predicate: |c| c.is_digit(2),
     },
     mapper: |c| c.to_digit(2).unwrap() as usize,
-- 
2.43.0


From 96f370c4c1e2f28aaacc37662851f1e5707cbdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 3/3] fix: repetition of a pattern that can match the empty
 string terminates

---
 src/parsers/repeat.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/parsers/repeat.rs b/src/parsers/repeat.rs
index 236d1c9..3f28610 100644
--- a/src/parsers/repeat.rs
+++ b/src/parsers/repeat.rs
@@ -100,6 +100,24 @@ where
         }
     }
 
+    /// True if the last repetition (pattern and separator) matched without
+    /// consuming anything, and no more matches are needed. It could be repeated
+    /// like that forever.
+    ///
+    /// Precondition: Pattern is next.
+    fn is_stuck(&self) -> bool {
+        let n = self.pattern_iters.len();
+        if n == 0 || n < self.params.min {
+            return false;
+        }
+        let last_start = if n == 1 {
+            self.start
+        } else {
+            self.sep_iters[n - 2].match_end()
+        };
+        self.end() == last_start
+    }
+
     /// Precondition: Either there are no iters or we just successfully
     /// backtracked the foremost iter.
     ///
@@ -113,6 +131,9 @@ where
             assert_eq!(self.sep_iters.len(), self.num_matches() / 2);
 
             if self.is_pattern_next() {
+                if self.is_stuck() {
+                    return Err(Reported);
+                }
                 let start = self.end();
                 let iter = self.params.pattern.parse_iter(context, start)?;
                 self.pattern_iters.push(iter);
-- 
2.43.0

