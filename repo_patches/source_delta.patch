From b2b26fff5e260b6929b65839cfbaebb6687a15eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 1/9] fix: end the GB11 emoji sequence at anything but Extend*
 ZWJ

break_graphemes kept ExtPict context across SpacingMark and across a ZWJ
that another mark follows, so <ExtPict SpacingMark ZWJ ExtPict> was one
cluster.
---
 src/unicode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/unicode.rs b/src/unicode.rs
index ec8f089..a4edd76 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -793,6 +793,11 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             // Prepare for GB11
             if curr_ch.1.ext_pict() {
                 in_ext_pict = true;
+            } else if curr_ch.1.gcb() != Gcb::EX
+                && !(curr_ch.1.gcb() == Gcb::ZWJ && next_ch.1.ext_pict())
+            {
+                // Anything but Extend* ZWJ ends the emoji sequence.
+                in_ext_pict = false;
             }
             // Prepare for GB12, GB13
             if curr_ch.1.gcb() == Gcb::RI {
-- 
2.43.0


From dfbd21ee2aa56f0164354c4753362ef151e96ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 2/9] fix: end the GB9c conjunct at anything but Extend and
 Linker

break_graphemes kept the conjunct context across SpacingMark and
non-conjoining marks, and kept the linker across a consonant, so
<Consonant SpacingMark Linker Consonant> and
<Consonant Linker Consonant Extend Consonant> were one cluster.
---
 src/unicode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/unicode.rs b/src/unicode.rs
index a4edd76..9b91f39 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -806,6 +806,13 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             // Prepare for GB9c
             if curr_ch.1.incb() == Incb::Consonant {
                 in_indic = true;
+                // A linker joins the next consonant only.
+                indic_linker = false;
+            }
+            if curr_ch.1.incb() == Incb::None {
+                // Anything but [Extend Linker]* ends the conjunct.
+                in_indic = false;
+                indic_linker = false;
             }
             if in_indic == true && curr_ch.1.incb() == Incb::Linker {
                 indic_linker = true;
-- 
2.43.0


From 07827c381da293fd1f4949bd2f15c3c0458d64f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 3/9] fix: long names of the general categories Pc and Pi

---
 src/unicode/ucd/property_names.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unicode/ucd/property_names.rs b/src/unicode/ucd/property_names.rs
index c30b796..862eb80 100644
--- a/src/unicode/ucd/property_names.rs
+++ b/src/unicode/ucd/property_names.rs
@@ -80,7 +80,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "No",
         },
         Gc::Pc => PropertyName {
-            full: "Ctor_Punctuation",
+            full: "Connector_Punctuation",
             abbr: "Pc",
         },
         Gc::Pd => PropertyName {
@@ -96,7 +96,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "Pf",
         },
         Gc::Pi => PropertyName {
-            full: "Il_Punctuation",
+            full: "Initial_Punctuation",
             abbr: "Pi",
         },
         Gc::Po => PropertyName {
-- 
2.43.0


From 22cd7ec893c833f1eb6bf8926caff93087186743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 4/9] fix: long name of the canonical combining class 133

---
 src/unicode/ucd/property_names.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unicode/ucd/property_names.rs b/src/unicode/ucd/property_names.rs
index 862eb80..977c749 100644
--- a/src/unicode/ucd/property_names.rs
+++ b/src/unicode/ucd/property_names.rs
@@ -512,7 +512,7 @@ pub(crate) fn ccc_name(prop: Ccc) -> PropertyName {
             abbr: "CCC132",
         },
         Ccc::CCC133 => PropertyName {
-            full: "RESERVED",
+            full: "CCC133",
             abbr: "CCC133",
         },
         Ccc::ATBL => PropertyName {
-- 
2.43.0


From 0807c517c71cf807347e6e466447c6b67cf53d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 5/9] fix: answer comp_ex of a surrogate instead of panicking

---
 src/unicode/normalization.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/unicode/normalization.rs b/src/unicode/normalization.rs
index f902adf..14fffde 100644
--- a/src/unicode/normalization.rs
+++ b/src/unicode/normalization.rs
@@ -116,7 +116,11 @@ pub(crate) fn singleton_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
     // Default value (the code point itself) is not singletons.
     let mut self_char = String::new();
-    self_char.push(std::char::from_u32(code_point.to_u32()).unwrap());
+    match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => self_char.push(ch),
+        // Surrogates have no decomposition.
+        None => return false,
+    }
     if code_point.dm() == self_char {
         return false;
     }
@@ -135,9 +139,11 @@ pub(crate) fn singleton_decomposition(cp: u32) -> bool {
 //          a starter decomposition.
 pub(crate) fn non_starter_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
-    let decomposed = canonical_decomposition(
-        vec![std::char::from_u32(code_point.to_u32()).unwrap()]
-    );
+    let decomposed = match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => canonical_decomposition(vec![ch]),
+        // Surrogates have no decomposition.
+        None => return false,
+    };
     if decomposed.len() > 1 && !starter(decomposed[0] as u32) {
         return true;
     }
-- 
2.43.0


From d280721905a24e365586ca7e46a2f92e3fba4ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:24 +0000
Subject: [PATCH 6/9] fix: let iterations over one code point range not disturb
 one another

---
 tools/ucd-tool/ucd/collections/code_point_range.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/tools/ucd-tool/ucd/collections/code_point_range.py b/tools/ucd-tool/ucd/collections/code_point_range.py
index c1d2cb9..bf4bae9 100644
--- a/tools/ucd-tool/ucd/collections/code_point_range.py
+++ b/tools/ucd-tool/ucd/collections/code_point_range.py
@@ -27,15 +27,7 @@ class CodePointRange:
         return self.start <= cp <= self.end
 
     def __iter__(self):
-        self._iter_i = self.start - 1
-        return self
-
-    def __next__(self):
-        if self._iter_i < self.end:
-            self._iter_i += 1
-            return self._iter_i
-        else:
-            raise StopIteration
+        return iter(range(self.start, self.end + 1))
 
     def __repr__(self):
         return '{:04X}..{:04X}'.format(self.start, self.end)
-- 
2.43.0


From f59d5bbeb1e1a2e308fb411d40e1666de60c0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 7/9] fix: skip blank lines of .env in gen-json-data.py

---
 tools/ucd-tool/gen-json-data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/ucd-tool/gen-json-data.py b/tools/ucd-tool/gen-json-data.py
index 2f163f1..18f1b62 100755
--- a/tools/ucd-tool/gen-json-data.py
+++ b/tools/ucd-tool/gen-json-data.py
@@ -103,7 +103,7 @@ def load_env(path):
         f = open(path, 'r')
         lines = f.readlines()
         for line in lines:
-            if line.startswith('#'):
+            if line.startswith('#') or line.strip() == '':
                 continue
             (k, v) = line.split('=')
             os.environ[k] = v.strip()
-- 
2.43.0


From 8b12bf324fa3597961b6bc32cac20dd6927b8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 8/9] fix: allow '=' in the values of .env in gen-json-data.py

---
 tools/ucd-tool/gen-json-data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/ucd-tool/gen-json-data.py b/tools/ucd-tool/gen-json-data.py
index 18f1b62..b0d1c7f 100755
--- a/tools/ucd-tool/gen-json-data.py
+++ b/tools/ucd-tool/gen-json-data.py
@@ -105,7 +105,7 @@ def load_env(path):
         for line in lines:
             if line.startswith('#') or line.strip() == '':
                 continue
-            (k, v) = line.split('=')
+            (k, v) = line.split('=', 1)
             os.environ[k] = v.strip()
         f.close()
     except FileNotFoundError:
-- 
2.43.0


From 2c6fd47ef43897456294f1b86b30708b90295dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 9/9] fix: quote the path of ucd-json in the shell commands of
 gen-json-data.py

---
 tools/ucd-tool/gen-json-data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/ucd-tool/gen-json-data.py b/tools/ucd-tool/gen-json-data.py
index b0d1c7f..9983d91 100755
--- a/tools/ucd-tool/gen-json-data.py
+++ b/tools/ucd-tool/gen-json-data.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 import os
 import json
+import shlex
 
 from ucd.unicode import UNICODE_VERSION_MAJOR, UNICODE_VERSION_MINOR, UNICODE_VERSION_UPDATE
 
@@ -117,7 +118,7 @@ if __name__ == '__main__':
     if ucd_json_dir is None:
         print('UCD_JSON_DIR is not set.')
         exit(1)
-    ucd_json = os.path.join(ucd_json_dir, 'ucd-json')
+    ucd_json = shlex.quote(os.path.join(ucd_json_dir, 'ucd-json'))
 
     os.system(f'mkdir -p {UNICODE_DATA_DIR}')
     os.system(f'mkdir -p {UNICODE_DATA_DIR}/emoji')
-- 
2.43.0

