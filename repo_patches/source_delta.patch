From fe5f59fbd9389abb8f54b8db9e928c9e3c1ef617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 01/66] fix: mask command flags when the encoder looks at
 neighbouring stitches

---
 pyembroidery/EmbEncoder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 90ae252..37c4127 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -379,7 +379,7 @@ class Transcoder:
         source = self.source_pattern.stitches
         for pos in range(self.position, len(source)):
             stitch = source[pos]
-            flags = stitch[2]
+            flags = stitch[2] & COMMAND_MASK
             if flags == STITCH:
                 return True
             elif flags == NEEDLE_AT:
@@ -429,7 +429,7 @@ class Transcoder:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position - 1]
                 )
-                flags = b[2]
+                flags = b[2] & COMMAND_MASK
                 if (
                     flags == STITCH
                     or flags == NEEDLE_AT
@@ -448,7 +448,7 @@ class Transcoder:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position + 1]
                 )
-                flags = b[2]
+                flags = b[2] & COMMAND_MASK
                 if (
                     flags == STITCH
                     or flags == NEEDLE_AT
-- 
2.43.0


From cd7ed4b226c7428899992b72efb9a571be0ad68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 02/66] fix: TIE_OFF as first command must not lock onto the
 last stitch

---
 pyembroidery/EmbEncoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 37c4127..14ecf42 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -425,6 +425,8 @@ class Transcoder:
 
     def tie_off(self):
         if self.tie_off_contingency == CONTINGENCY_TIE_OFF_THREE_SMALL:
+            if self.position == 0:
+                return  # nothing precedes the first command.
             try:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position - 1]
-- 
2.43.0


From a006b8a1973e5df5c62e73618d4f28c7da3266a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 03/66] fix: CONTINGENCY_SEQUIN_REMOVE must not leave a stitch
 for the removed sequin

---
 pyembroidery/EmbEncoder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 14ecf42..b6b7e4a 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -269,6 +269,11 @@ class Transcoder:
             elif flags == SEQUIN_MODE:
                 self.toggle_sequins()
             elif flags == SEQUIN_EJECT:
+                if self.sequin_contingency == CONTINGENCY_SEQUIN_REMOVE:
+                    # The sequin is removed, but it still counts as sewing for the change sequence.
+                    if self.order_index == -1:
+                        self.next_change_sequence()
+                    continue
                 if self.state_trimmed:
                     self.declare_not_trimmed()
                     self.jump_to_within_stitchrange(x, y)
@@ -553,9 +558,6 @@ class Transcoder:
         sequin eject, the contingency for long stitch is always sew to.
         This shouldn't be exceptionally rare."""
         contingency = self.sequin_contingency
-        if contingency == CONTINGENCY_SEQUIN_REMOVE:
-            # Do not update the needle position or declare untrimmed.
-            return
         x0 = self.needle_x
         y0 = self.needle_y
         max_length = self.max_stitch
-- 
2.43.0


From 07a21ba921f2d6507d50172bdeebc5afd2792aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 04/66] fix: copy.deepcopy of a pattern raised TypeError

---
 pyembroidery/EmbPattern.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 7b4e7e0..ccb2b3b 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1,4 +1,5 @@
 import os
+from copy import deepcopy
 
 import pyembroidery.A10oReader as A10oReader
 import pyembroidery.A100Reader as A100Reader
@@ -145,8 +146,14 @@ class EmbPattern:
     def __copy__(self):
         return self.copy()
 
-    def __deepcopy__(self):
-        return self.copy()
+    def __deepcopy__(self, memo):
+        emb_pattern = EmbPattern()
+        emb_pattern.stitches = deepcopy(self.stitches, memo)
+        emb_pattern.threadlist = deepcopy(self.threadlist, memo)
+        emb_pattern.extras = deepcopy(self.extras, memo)
+        emb_pattern._previousX = self._previousX
+        emb_pattern._previousY = self._previousY
+        return emb_pattern
 
     def __iadd__(self, other):
         if isinstance(other, EmbPattern):
-- 
2.43.0


From 7e93945dad37540f635e86a4a23c9c2b2b2703a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 05/66] fix: copies and merges of a pattern shared its stitch
 rows, so editing one changed the other

---
 pyembroidery/EmbPattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index ccb2b3b..81e29d3 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -88,7 +88,7 @@ class EmbPattern:
         if len_args >= 1:
             arg0 = args[0]
             if isinstance(arg0, EmbPattern):
-                self.stitches = arg0.stitches[:]
+                self.stitches = [stitch[:] for stitch in arg0.stitches]
                 self.threadlist = arg0.threadlist[:]
                 self.extras.update(arg0.extras)
                 self._previousX = arg0._previousX
@@ -213,7 +213,7 @@ class EmbPattern:
 
     def copy(self):
         emb_pattern = EmbPattern()
-        emb_pattern.stitches = self.stitches[:]
+        emb_pattern.stitches = [stitch[:] for stitch in self.stitches]
         emb_pattern.threadlist = self.threadlist[:]
         emb_pattern.extras.update(self.extras)
         emb_pattern._previousX = self._previousX
@@ -648,7 +648,7 @@ class EmbPattern:
                 self.threadlist.extend(pattern.threadlist)
                 self.color_change()
         join_position = len(self.stitches)
-        self.stitches.extend(pattern.stitches)
+        self.stitches.extend([stitch[:] for stitch in pattern.stitches])
 
         for i in range(join_position, len(self.stitches)):
             data = self.stitches[i][2] & COMMAND_MASK
-- 
2.43.0


From 66ac675371dde8afcb27876c98295d4134fb94ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 06/66] fix: pattern += [] replaced the pattern by None

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 81e29d3..09f4c48 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -169,7 +169,7 @@ class EmbPattern:
             self.add_command(other)
         elif isinstance(other, list) or isinstance(other, tuple):  # tuple or list
             if len(other) == 0:
-                return
+                return self
             v = other[0]
             if isinstance(v, list) or isinstance(
                 v, tuple
-- 
2.43.0


From fac6f721ce4aaf99a6f755ad104deb48d8a2155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 07/66] fix: adding a pattern to an empty pattern raised
 IndexError

---
 pyembroidery/EmbPattern.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 09f4c48..93c0d9a 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -622,7 +622,7 @@ class EmbPattern:
         """
         if isinstance(pattern, str):
             pattern = EmbPattern(pattern)
-        if self.stitches[-1][2] == END:
+        if len(self.stitches) > 0 and self.stitches[-1][2] & COMMAND_MASK == END:
             self.stitches = self.stitches[:-1]  # Remove END, if exists
         if dx is not None or dy is not None:
             if dx is None:
@@ -642,7 +642,9 @@ class EmbPattern:
         self.fix_color_count()
 
         if len(pattern.threadlist) > 0:
-            if pattern.threadlist[0] == self.threadlist[-1]:
+            if len(self.threadlist) == 0:
+                self.threadlist.extend(pattern.threadlist)
+            elif pattern.threadlist[0] == self.threadlist[-1]:
                 self.threadlist.extend(pattern.threadlist[1:])
             else:
                 self.threadlist.extend(pattern.threadlist)
-- 
2.43.0


From 1c45e9a83a440d361fe219fd4185d1b4a931c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 08/66] fix: add_pattern ignored the scale when only sy was
 given

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 93c0d9a..3979b6a 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -630,7 +630,7 @@ class EmbPattern:
             if dy is None:
                 dy = 0
             self.add_command(MATRIX_TRANSLATE, dx, dy)
-        if sx is not None or sx is not None:
+        if sx is not None or sy is not None:
             if sx is None:
                 sx = sy
             if sy is None:
-- 
2.43.0


From f50e5a3bbaad86759297339b44b61cbb71699769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 09/66] fix: matrix @= other replaced the matrix by None

---
 pyembroidery/EmbMatrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/EmbMatrix.py b/pyembroidery/EmbMatrix.py
index a8c69ab..363768d 100644
--- a/pyembroidery/EmbMatrix.py
+++ b/pyembroidery/EmbMatrix.py
@@ -22,6 +22,7 @@ class EmbMatrix:
 
     def __imatmul__(self, other):
         self.m = EmbMatrix.matrix_multiply(self.m, other.m)
+        return self
 
     def __str__(self):
         return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % self.m
-- 
2.43.0


From ba93eac8603e74a9bef54b2cc9491987cac013c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 10/66] fix: str() of a matrix failed after any operation on it

---
 pyembroidery/EmbMatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbMatrix.py b/pyembroidery/EmbMatrix.py
index 363768d..dbcfa17 100644
--- a/pyembroidery/EmbMatrix.py
+++ b/pyembroidery/EmbMatrix.py
@@ -25,7 +25,7 @@ class EmbMatrix:
         return self
 
     def __str__(self):
-        return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % self.m
+        return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % tuple(self.m)
 
     def get_matrix(self):
         return self.m
-- 
2.43.0


From e8ac03ac9584b7c7a3c4cad1aa7295e2e9f26185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 11/66] fix: reading by file name ignored the alternate
 extensions of a format

---
 pyembroidery/EmbPattern.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 3979b6a..1c00507 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1212,7 +1212,7 @@ class EmbPattern:
             {
                 "description": "Pfaff Embroidery Format",
                 "extension": "spx",
-                "extensions": ("spx"),
+                "extensions": ("spx",),
                 "mimetype": "application/x-spx",
                 "category": "embroidery",
                 "reader": SpxReader,
@@ -1396,7 +1396,7 @@ class EmbPattern:
             {
                 "description": "gcode Format, Text File",
                 "extension": "gcode",
-                "extensions": ("gcode", "g-code", "ngc", "nc", ".g"),
+                "extensions": ("gcode", "g-code", "ngc", "nc", "g"),
                 "mimetype": "text/plain",
                 "category": "embroidery",
                 "reader": GcodeReader,
@@ -1563,7 +1563,10 @@ class EmbPattern:
         extension = EmbPattern.get_extension_by_filename(filename)
         extension = extension.lower()
         for file_type in EmbPattern.supported_formats():
-            if file_type["extension"] != extension:
+            if (
+                file_type["extension"] != extension
+                and extension not in file_type["extensions"]
+            ):
                 continue
             reader = file_type.get("reader", None)
             return EmbPattern.read_embroidery(reader, filename, settings, pattern)
-- 
2.43.0


From 15eaea6e0ad3b7ee9ca1c39543eb0a6c7f514bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 12/66] fix: sequin contingency commands could not be read back
 from CSV and JSON

---
 pyembroidery/EmbFunctions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyembroidery/EmbFunctions.py b/pyembroidery/EmbFunctions.py
index f535b4e..9485c38 100644
--- a/pyembroidery/EmbFunctions.py
+++ b/pyembroidery/EmbFunctions.py
@@ -81,6 +81,10 @@ def get_command_dictionary():
         "CONTINGENCY_LONG_STITCH_NONE": CONTINGENCY_LONG_STITCH_NONE,
         "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE": CONTINGENCY_LONG_STITCH_JUMP_NEEDLE,
         "CONTINGENCY_LONG_STITCH_SEW_TO": CONTINGENCY_LONG_STITCH_SEW_TO,
+        "CONTINGENCY_SEQUIN_UTILIZE": CONTINGENCY_SEQUIN_UTILIZE,
+        "CONTINGENCY_SEQUIN_JUMP": CONTINGENCY_SEQUIN_JUMP,
+        "CONTINGENCY_SEQUIN_STITCH": CONTINGENCY_SEQUIN_STITCH,
+        "CONTINGENCY_SEQUIN_REMOVE": CONTINGENCY_SEQUIN_REMOVE,
     }
 
 
@@ -124,4 +128,8 @@ def get_common_name_dictionary():
         CONTINGENCY_LONG_STITCH_NONE: "CONTINGENCY_LONG_STITCH_NONE",
         CONTINGENCY_LONG_STITCH_JUMP_NEEDLE: "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE",
         CONTINGENCY_LONG_STITCH_SEW_TO: "CONTINGENCY_LONG_STITCH_SEW_TO",
+        CONTINGENCY_SEQUIN_UTILIZE: "CONTINGENCY_SEQUIN_UTILIZE",
+        CONTINGENCY_SEQUIN_JUMP: "CONTINGENCY_SEQUIN_JUMP",
+        CONTINGENCY_SEQUIN_STITCH: "CONTINGENCY_SEQUIN_STITCH",
+        CONTINGENCY_SEQUIN_REMOVE: "CONTINGENCY_SEQUIN_REMOVE",
     }
-- 
2.43.0


From d8591a0080db4483d8f35f07e82bfeb0dfc0d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 13/66] fix: NO_COMMAND was written to CSV and JSON as UNKNOWN,
 which their readers reject

---
 pyembroidery/CsvWriter.py  | 2 ++
 pyembroidery/JsonWriter.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index 05e0d23..022f2ff 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -115,6 +115,8 @@ def write_threads(pattern, f):
 
 
 def decoded_name(names, data):
+    if data == NO_COMMAND:
+        return names[NO_COMMAND]
     command = decode_embroidery_command(data)
     try:
         name = names[command[0]]
diff --git a/pyembroidery/JsonWriter.py b/pyembroidery/JsonWriter.py
index 80529da..b181403 100644
--- a/pyembroidery/JsonWriter.py
+++ b/pyembroidery/JsonWriter.py
@@ -5,6 +5,8 @@ WRITE_FILE_IN_TEXT_MODE = True
 
 
 def decoded_name(names, data):
+    if data == NO_COMMAND:
+        return names[NO_COMMAND]
     command = decode_embroidery_command(data)
     try:
         name = names[command[0]]
-- 
2.43.0


From bdf52add4d202d871e352185d1b39113af8305c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 14/66] fix: quotes inside CSV values were not escaped

---
 pyembroidery/CsvWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index 022f2ff..ed8003f 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -14,7 +14,7 @@ def csv(f, values):
     for v in values:
         if len(string) > 0:
             string += ","
-        string += '"%s"' % v
+        string += '"%s"' % str(v).replace('"', '""')
     write_string_utf8(f, string + "\n")
 
 
-- 
2.43.0


From 417c414524f6444f6d4b4fc3c03f539e82692b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 15/66] fix: unset thread details came back from CSV as the
 text None

---
 pyembroidery/CsvReader.py | 20 +++++---------------
 pyembroidery/CsvWriter.py |  2 ++
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/pyembroidery/CsvReader.py b/pyembroidery/CsvReader.py
index 4cf33d3..d33e6f4 100644
--- a/pyembroidery/CsvReader.py
+++ b/pyembroidery/CsvReader.py
@@ -52,24 +52,14 @@ def read(f, out, settings=None):
                     thread_add["rgb"] = row[2]
                 except IndexError:
                     pass
-                try:
+                if len(row) > 3 and row[3] != "":
                     thread_add["name"] = row[3]
-                except IndexError:
-                    pass
-                try:
+                if len(row) > 4 and row[4] != "":
                     thread_add["brand"] = row[4]
-                except IndexError:
-                    pass
-                try:
+                if len(row) > 5 and row[5] != "":
                     thread_add["catalog"] = row[5]
-                except IndexError:
-                    pass
-                try:
+                if len(row) > 6 and row[6] != "":
                     thread_add["details"] = row[6]
-                except IndexError:
-                    pass
-                try:
+                if len(row) > 7 and row[7] != "":
                     thread_add["weight"] = row[7]
-                except IndexError:
-                    pass
             out.add_thread(thread_add)
diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index ed8003f..b1dbe1a 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -14,6 +14,8 @@ def csv(f, values):
     for v in values:
         if len(string) > 0:
             string += ","
+        if v is None:
+            v = ""  # unset thread details.
         string += '"%s"' % str(v).replace('"', '""')
     write_string_utf8(f, string + "\n")
 
-- 
2.43.0


From 45ce22091673d3616b670e5ab1be89e04e0336b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 16/66] fix: thread details and weight from a CSV file or a
 thread dict were dropped

---
 pyembroidery/EmbThread.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index 995789d..48daa02 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -251,6 +251,14 @@ class EmbThread:
                 self.catalog_number = thread["id"]
             if "catalog" in thread:
                 self.catalog_number = thread["catalog"]
+            if "catalog_number" in thread:
+                self.catalog_number = thread["catalog_number"]
+            if "details" in thread:
+                self.details = thread["details"]
+            if "chart" in thread:
+                self.chart = thread["chart"]
+            if "weight" in thread:
+                self.weight = thread["weight"]
         else:
             try:
                 if isinstance(thread, basestring):
-- 
2.43.0


From 2cf8829702b9b46d1b757317fb67c1f8359f23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 17/66] fix: the chart of a thread was lost in CSV files

---
 pyembroidery/CsvReader.py | 2 ++
 pyembroidery/CsvWriter.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyembroidery/CsvReader.py b/pyembroidery/CsvReader.py
index d33e6f4..baa1b2f 100644
--- a/pyembroidery/CsvReader.py
+++ b/pyembroidery/CsvReader.py
@@ -62,4 +62,6 @@ def read(f, out, settings=None):
                     thread_add["details"] = row[6]
                 if len(row) > 7 and row[7] != "":
                     thread_add["weight"] = row[7]
+                if len(row) > 8 and row[8] != "":
+                    thread_add["chart"] = row[8]
             out.add_thread(thread_add)
diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index b1dbe1a..1c801aa 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -97,6 +97,7 @@ def write_threads(pattern, f):
                 "[CATALOG_NUMBER]",
                 "[DETAILS]",
                 "[WEIGHT]",
+                "[CHART]",
             ),
         )
         for i, thread in enumerate(pattern.threadlist):
@@ -111,6 +112,7 @@ def write_threads(pattern, f):
                     thread.catalog_number,
                     thread.details,
                     thread.weight,
+                    thread.chart,
                 ),
             )
         write_string_utf8(f, "\n")
-- 
2.43.0


From 7db2502f43c6b037bba2ae13a858f607e1e7ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 18/66] fix: DST extended header threads with commas or without
 description and catalog number

---
 pyembroidery/DstReader.py | 12 +++++++++++-
 pyembroidery/DstWriter.py |  6 +++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/DstReader.py b/pyembroidery/DstReader.py
index 31bca02..3bd56e7 100644
--- a/pyembroidery/DstReader.py
+++ b/pyembroidery/DstReader.py
@@ -40,8 +40,18 @@ def process_header_info(out, prefix, value):
     elif prefix == "CP":
         out.metadata("copyright", value)
     elif prefix == "TC":
+        # A description may itself contain commas.
         values = [x.strip() for x in value.split(",")]
-        out.add_thread({"hex": values[0], "description": values[1], "catalog": values[2]})
+        thread = {"hex": values[0]}
+        if len(values) == 2:
+            thread["description"] = values[1]
+        elif len(values) > 2:
+            thread["description"] = value.split(",", 1)[1].rsplit(",", 1)[0].strip()
+            thread["catalog"] = values[-1]
+        for key in ("description", "catalog"):
+            if thread.get(key) in ("", "None"):
+                del thread[key]  # unset
+        out.add_thread(thread)
     else:
         out.metadata(prefix, value)
 
diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 0084404..24e125d 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -156,7 +156,11 @@ def write(pattern, f, settings=None):
                 write_string_utf8(
                     f,
                     "TC:%s,%s,%s\r"
-                    % (thread.hex_color(), thread.description, thread.catalog_number),
+                    % (
+                        thread.hex_color(),
+                        thread.description or "",
+                        thread.catalog_number or "",
+                    ),
                 )
     f.write(b"\x1a")
     for i in range(f.tell(), DSTHEADERSIZE):
-- 
2.43.0


From 1615a81062e6643b356eb5156ac71b5ed0dff6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 19/66] fix: DST header fields beyond 512 bytes shifted the
 stitch data

---
 pyembroidery/DstWriter.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 24e125d..8c20e76 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -104,6 +104,12 @@ def encode_record(x, y, flags):
     return bytes(bytearray([b0, b1, b2]))
 
 
+def write_optional_field(f, field):
+    """Writes a header field, unless it does not fit into the fixed size header."""
+    if f.tell() + len(field.encode("utf8")) < DSTHEADERSIZE:
+        write_string_utf8(f, field)
+
+
 def write(pattern, f, settings=None):
     extended_header = False
     trim_at = 3
@@ -118,6 +124,8 @@ def write(pattern, f, settings=None):
     bounds = pattern.bounds()
 
     name = pattern.get_metadata("name", "Untitled")
+    # The header has a fixed size, an overlong name must leave room for the other fields.
+    name = str(name).encode("utf8")[:256].decode("utf8", "ignore")
 
     write_string_utf8(f, "LA:%-16s\r" % name)
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
@@ -147,13 +155,13 @@ def write(pattern, f, settings=None):
     if extended_header:
         author = pattern.get_metadata("author")
         if author is not None:
-            write_string_utf8(f, "AU:%s\r" % author)
+            write_optional_field(f, "AU:%s\r" % author)
         meta_copyright = pattern.get_metadata("copyright")
         if meta_copyright is not None:
-            write_string_utf8(f, "CP:%s\r" % meta_copyright)
+            write_optional_field(f, "CP:%s\r" % meta_copyright)
         if len(pattern.threadlist) > 0:
             for thread in pattern.threadlist:
-                write_string_utf8(
+                write_optional_field(
                     f,
                     "TC:%s,%s,%s\r"
                     % (
-- 
2.43.0


From 6cc1f8896cf501676b703c8106f53c3de28070f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 20/66] fix: SLOW and FAST wrote spurious stitches to DST and
 truncated GCODE

---
 pyembroidery/DstWriter.py   | 1 +
 pyembroidery/GcodeWriter.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 8c20e76..c7b12a7 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -4,6 +4,7 @@ from .WriteHelper import write_string_utf8
 SEQUIN_CONTINGENCY = CONTINGENCY_SEQUIN_UTILIZE
 FULL_JUMP = False
 ROUND = True
+WRITES_SPEEDS = False
 MAX_JUMP_DISTANCE = 121
 MAX_STITCH_DISTANCE = 121
 
diff --git a/pyembroidery/GcodeWriter.py b/pyembroidery/GcodeWriter.py
index b049aac..d2cfefc 100644
--- a/pyembroidery/GcodeWriter.py
+++ b/pyembroidery/GcodeWriter.py
@@ -2,6 +2,7 @@ from .EmbFunctions import *
 from .WriteHelper import write_string_utf8
 
 SEQUIN_CONTINGENCY = CONTINGENCY_SEQUIN_STITCH
+WRITES_SPEEDS = False
 SCALE = (-1, -1)  # This performs a default X,Y flip.
 
 
-- 
2.43.0


From ec3b32dca39771a568eb7e470b3d2e54438097f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 21/66] fix: SLOW and FAST before the same U01 stitch turned it
 into a trim

---
 pyembroidery/U01Writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/U01Writer.py b/pyembroidery/U01Writer.py
index cb8a57f..c8f5e08 100644
--- a/pyembroidery/U01Writer.py
+++ b/pyembroidery/U01Writer.py
@@ -43,9 +43,11 @@ def write(pattern, f, settings=None):
         yy += dy
         if data == SLOW:
             trigger_slow = True
+            trigger_fast = False
             continue
         if data == FAST:
             trigger_fast = True
+            trigger_slow = False
             continue
         cmd = 0x80
         if dy >= 0:
@@ -62,7 +64,7 @@ def write(pattern, f, settings=None):
                 trigger_slow = False
                 cmd |= 0x04
             f.write(bytes(bytearray([cmd, delta_y, delta_x])))
-        elif data == JUMP:  # If you did both FAST, SLOW, and JUMP, you'd get a trim.
+        elif data == JUMP:
             if trigger_fast:
                 trigger_fast = False
                 cmd |= 0x02
-- 
2.43.0


From 7373d7102d9208d638def36a233ca4e61ed81c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 22/66] fix: XXX stitches of exactly 124 units were written as
 long stitches that read as jumps

---
 pyembroidery/XxxWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index 913a533..c27e423 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -82,7 +82,7 @@ def write_xxx_stitches(pattern, f):
         if data == END:
             break
         if data == STITCH:
-            if -124 < dx < 124 and -124 < dy < 124:
+            if -124 <= dx <= 124 and -124 <= dy <= 124:
                 write_int_8(f, dx)
                 write_int_8(f, -dy)
                 continue
-- 
2.43.0


From d732fd1b2a75fcecd3d6e9bb1d28cdbfb347a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 23/66] fix: VP3 centre and block positions were truncated,
 shifting every stitch

---
 pyembroidery/Vp3Reader.py |  2 +-
 pyembroidery/Vp3Writer.py | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyembroidery/Vp3Reader.py b/pyembroidery/Vp3Reader.py
index 3f973f6..9c39924 100644
--- a/pyembroidery/Vp3Reader.py
+++ b/pyembroidery/Vp3Reader.py
@@ -76,7 +76,7 @@ def vp3_read_colorblock(f, out, center_x, center_y):
     start_position_y = -(signed32(read_int_32be(f)) / 100)
     abs_x = start_position_x + center_x
     abs_y = start_position_y + center_y
-    if abs_x != 0 and abs_y != 0:
+    if abs_x != 0 or abs_y != 0 or out._previousX != 0 or out._previousY != 0:
         out.move_abs(abs_x, abs_y)
     thread = vp3_read_thread(f)
     out.add_thread(thread)
diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 43e62fd..dfdc0f3 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -123,20 +123,20 @@ def write_design_block(f, extends, colorblocks):
     center_x = extends[2] - half_width
     center_y = extends[3] - half_height
 
-    write_int_32be(f, int(center_x) * 100)  # initial x
-    write_int_32be(f, int(center_y) * -100)  # initial y
+    write_int_32be(f, int(round(center_x * 100)))  # initial x
+    write_int_32be(f, int(round(center_y * -100)))  # initial y
     write_int_8(f, 0)
     write_int_8(f, 0)
     write_int_8(f, 0)
 
     # extends 2
-    write_int_32be(f, int(half_width) * -100)
-    write_int_32be(f, int(half_width) * 100)
-    write_int_32be(f, int(half_height) * -100)
-    write_int_32be(f, int(half_height) * 100)
+    write_int_32be(f, int(round(half_width * -100)))
+    write_int_32be(f, int(round(half_width * 100)))
+    write_int_32be(f, int(round(half_height * -100)))
+    write_int_32be(f, int(round(half_height * 100)))
 
-    write_int_32be(f, int(width) * 100)
-    write_int_32be(f, int(height) * 100)
+    write_int_32be(f, int(round(width * 100)))
+    write_int_32be(f, int(round(height * 100)))
     vp3_write_string_16(f, "")  # This is notes and settings string.
 
     f.write(b"\x64\x64")  # write_int_16be(f, 25700)
@@ -181,16 +181,16 @@ def write_vp3_colorblock(f, first, center_x, center_y, stitches, thread):
         last_pos_y = 0
     start_position_from_center_x = first_pos_x - center_x
     start_position_from_center_y = -(first_pos_y - center_y)
-    write_int_32be(f, int(start_position_from_center_x) * 100)
-    write_int_32be(f, int(start_position_from_center_y) * 100)
+    write_int_32be(f, int(round(start_position_from_center_x * 100)))
+    write_int_32be(f, int(round(start_position_from_center_y * 100)))
 
     vp3_write_thread(f, thread)
 
     block_shift_x = last_pos_x - first_pos_x
     block_shift_y = -(last_pos_y - first_pos_y)
 
-    write_int_32be(f, int(block_shift_x) * 100)
-    write_int_32be(f, int(block_shift_y) * 100)
+    write_int_32be(f, int(round(block_shift_x * 100)))
+    write_int_32be(f, int(round(block_shift_y * 100)))
 
     write_stitches_block(f, stitches, first_pos_x, first_pos_y)
 
-- 
2.43.0


From 967d80c76d1cf80e9409acc0d5197c16b1543261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 24/66] fix: VP3 string lengths must count UTF-8 bytes

---
 pyembroidery/Vp3Writer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index dfdc0f3..46e70f8 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -18,9 +18,7 @@ MAX_STITCH_DISTANCE = 255
 
 
 def vp3_write_string_8(stream, string):
-    write_int_16be(stream, len(string))
-    write_string_utf8(stream, string)
-    # vp3_write_length_and_bytes(stream, bytestring)
+    vp3_write_length_and_bytes(stream, string.encode("utf8"))
 
 
 def vp3_write_string_16(stream, string):
-- 
2.43.0


From 586f27904a7f74bbe587f99ecf29bd4ad006f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 25/66] fix: string lengths in PEC, PES and INF must count
 UTF-8 bytes

---
 pyembroidery/InfWriter.py | 8 +++++---
 pyembroidery/PecWriter.py | 5 +++--
 pyembroidery/PesWriter.py | 8 ++++----
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyembroidery/InfWriter.py b/pyembroidery/InfWriter.py
index b5ebf49..b315408 100644
--- a/pyembroidery/InfWriter.py
+++ b/pyembroidery/InfWriter.py
@@ -1,4 +1,4 @@
-from .WriteHelper import write_int_8, write_int_16be, write_int_32be, write_string_utf8
+from .WriteHelper import write_int_8, write_int_16be, write_int_32be
 
 ENCODE = False
 
@@ -25,6 +25,8 @@ def write(pattern, f, settings=None):
         chart = thread.chart
         if chart is None:
             chart = "Unknown"
+        details = details.encode("utf8")
+        chart = chart.encode("utf8")
         write_int_16be(
             f, 11 + len(details) + len(chart)
         )  # 2 + 2 + 1 + 1 + 1 + 2 + d + 1 + c + 1 = 11 + d + c
@@ -34,8 +36,8 @@ def write(pattern, f, settings=None):
         write_int_8(f, thread.get_green())
         write_int_8(f, thread.get_blue())
         write_int_16be(f, index)  # needle number
-        write_string_utf8(f, details)
+        f.write(details)
         write_int_8(f, 0)
-        write_string_utf8(f, chart)
+        f.write(chart)
         write_int_8(f, 0)
     patch_byte_offset(f, placeholder)
diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index 3feae2b..1be9f10 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -6,7 +6,6 @@ from .WriteHelper import (
     write_int_8,
     write_int_16le,
     write_int_24le,
-    write_string_utf8,
 )
 
 SEQUIN_CONTINGENCY = CONTINGENCY_SEQUIN_JUMP
@@ -45,7 +44,9 @@ def write_pec(pattern, f, threadlist=None):
 
 def write_pec_header(pattern, f, threadlist):
     name = pattern.get_metadata("name", "Untitled")
-    write_string_utf8(f, "LA:%-16s\r" % name[:8])
+    # The label is a fixed size field: 16 bytes, of which the name takes at most 8.
+    label = name[:8].encode("utf8")[:8].decode("utf8", "ignore").encode("utf8")
+    f.write(b"LA:" + label.ljust(16) + b"\r")
     f.write(b"\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\xFF\x00")
     write_int_8(f, int(PEC_ICON_WIDTH / 8))  # PEC BYTE STRIDE
     write_int_8(f, int(PEC_ICON_HEIGHT))  # PEC ICON HEIGHT
diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index 7a48c58..e150a68 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -219,10 +219,10 @@ def write_pes_string_8(f, string):
     if string is None:
         write_int_8(f, 0)
         return
-    if len(string) > 255:
-        string = string[:255]
-    write_int_8(f, len(string))
-    write_string_utf8(f, string)
+    # The length counts bytes, and must fit in one.
+    data = string.encode("utf8")[:255].decode("utf8", "ignore").encode("utf8")
+    write_int_8(f, len(data))
+    f.write(data)
 
 
 def write_pes_string_16(f, string):
-- 
2.43.0


From 1d14994b99d2391ee0e8cc8f3a94e7df449b37a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 26/66] fix: overlong TBF header fields shifted the threads and
 stitches

---
 pyembroidery/TbfWriter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index bf47301..213e82c 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -20,7 +20,9 @@ def write(pattern, f, settings=None):
     write_string_utf8(f, "3.00")
     for i in range(f.tell(), 0x80):
         f.write(b"\x20")  # space
-    write_string_utf8(f, "LA:%-16s\r" % name)
+    # The header fields are at fixed offsets, the name takes at most 16 bytes.
+    name = str(name).encode("utf8")[:16].decode("utf8", "ignore").encode("utf8")
+    f.write(b"LA:" + name.ljust(16) + b"\r")
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
     write_string_utf8(f, "CO:%3d\r" % pattern.count_needle_sets())
 
@@ -45,7 +47,8 @@ def write(pattern, f, settings=None):
 
     # TP is unknown.
     tp = pattern.get_metadata("tp", "EG/")
-    write_string_utf8(f, "TP:%-32s\r" % tp)
+    tp = str(tp).encode("utf8")[:32].decode("utf8", "ignore").encode("utf8")
+    f.write(b"TP:" + tp.ljust(32) + b"\r")
 
     # JC is unknown.
     jc = "3"
@@ -69,6 +72,8 @@ def write(pattern, f, settings=None):
     write_string_utf8(f, "DA:")
     if len(pattern.threadlist) > 0:
         for thread in pattern.threadlist:
+            if f.tell() + 5 > 0x5FE:
+                break  # No room left in the fixed size header.
             write_int_8(f, 0x45)
             write_int_8(f, thread.get_red())
             write_int_8(f, thread.get_green())
-- 
2.43.0


From 320e21400e0c2c9faa21f5cddf9e9724f6121195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 27/66] fix: JEF files with more colour changes than colours
 raised IndexError

---
 pyembroidery/JefReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/JefReader.py b/pyembroidery/JefReader.py
index dd884d5..260d557 100644
--- a/pyembroidery/JefReader.py
+++ b/pyembroidery/JefReader.py
@@ -24,7 +24,7 @@ def read_jef_stitches(f, out, settings=None):
             continue
         if ctrl == 0x01:
             # PATCH: None means stop since it was color #0
-            if out.threadlist[color_index] is None:
+            if color_index < len(out.threadlist) and out.threadlist[color_index] is None:
                 out.stop(0, 0)
                 del out.threadlist[color_index]
             else:
-- 
2.43.0


From 6b85d19a21e99e21f3b7f0934257b45f81c6eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 28/66] fix: writing JEF raised IndexError for empty patterns
 and trailing colour changes

---
 pyembroidery/JefWriter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/JefWriter.py b/pyembroidery/JefWriter.py
index 0fdace4..5d830c7 100644
--- a/pyembroidery/JefWriter.py
+++ b/pyembroidery/JefWriter.py
@@ -1,6 +1,7 @@
 import datetime
 
 from .EmbConstant import *
+from .EmbThread import EmbThread
 from .EmbThreadJef import get_thread_set
 from .WriteHelper import write_int_8, write_int_32le, write_string_utf8
 
@@ -44,7 +45,10 @@ def write(pattern, f, settings=None):
         flags = stitch[2] & COMMAND_MASK
         if flags == COLOR_CHANGE or index_in_threadlist == 0:
             # If color change *or* initial color unset.
-            thread = pattern.threadlist[index_in_threadlist]
+            if index_in_threadlist < len(pattern.threadlist):
+                thread = pattern.threadlist[index_in_threadlist]
+            else:
+                thread = EmbThread()  # A color block without stitches needs no thread.
             index_in_threadlist += 1
             color_count += 1
             index_of_jefthread = thread.find_nearest_color_index(jef_threads)
-- 
2.43.0


From ef94f2b6b0a7979e97b232c55e8cedcf2d4dac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:05 +0000
Subject: [PATCH 29/66] fix: writing without encoding modified the pattern of
 the caller

---
 pyembroidery/EmbPattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 1c00507..e7fe82f 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1642,6 +1642,9 @@ class EmbPattern:
                 except AttributeError:
                     pass
             pattern = pattern.get_normalized_pattern(settings)
+        else:
+            # Some writers process the pattern, the pattern of the caller must stay as it is.
+            pattern = pattern.copy()
 
         if EmbPattern.is_str(stream):
             text_mode = False
-- 
2.43.0


From bbed2dc1351344c1bcbc89aaac0359296a257d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 30/66] fix: interpolate_trims deleted stops and other commands
 between two jumps

---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index e7fe82f..4c52ed6 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -776,6 +776,8 @@ class EmbPattern:
             elif command == COLOR_CHANGE or command == NEEDLE_SET or command == TRIM:
                 trimmed = True
                 jumping = False
+            elif command != JUMP:
+                jumping = False
             if command == JUMP:
                 if not jumping:
                     jump_dx = 0
-- 
2.43.0


From 9a640ba1900143d1ccd03d8f2220f6c5f127eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 31/66] fix: interpolate_duplicate_color_as_stop mixed up the
 threads after two changes in a row

---
 pyembroidery/EmbPattern.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 4c52ed6..b8963cb 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -663,29 +663,26 @@ class EmbPattern:
     def interpolate_duplicate_color_as_stop(self):
         """Processes a pattern replacing any duplicate colors in the threadlist as a stop."""
         thread_index = 0
-        init_color = True
-        last_change = None
         for position, stitch in enumerate(self.stitches):
             data = stitch[2] & COMMAND_MASK
             if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
-                if init_color:
-                    try:
-                        if (
-                            last_change is not None
-                            and thread_index != 0
-                            and self.threadlist[thread_index - 1]
-                            == self.threadlist[thread_index]
-                        ):
-                            del self.threadlist[thread_index]
-                            self.stitches[last_change][2] = STOP
-                        else:
-                            thread_index += 1
-                    except IndexError:  # Non-existent threads cannot double
-                        return
-                    init_color = False
+                if thread_index == 0:
+                    thread_index = 1
             elif data == COLOR_CHANGE or data == COLOR_BREAK or data == NEEDLE_SET:
-                init_color = True
-                last_change = position
+                if thread_index == 0:
+                    continue  # Nothing was sewn yet.
+                try:
+                    # Every change moves on to the next thread, whether or not it sews.
+                    if (
+                        self.threadlist[thread_index - 1]
+                        == self.threadlist[thread_index]
+                    ):
+                        del self.threadlist[thread_index]
+                        self.stitches[position][2] = STOP
+                    else:
+                        thread_index += 1
+                except IndexError:  # Non-existent threads cannot double
+                    return
 
     def interpolate_stop_as_duplicate_color(self, thread_change_command=COLOR_CHANGE):
         """Processes a pattern replacing any stop as a duplicate color, and color_change
-- 
2.43.0


From 94cbf844cdd6a8d688dd5f3516e3d7db31dbce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 32/66] fix: G01 without both axes and comments mentioning
 Thread raised errors in GCODE

---
 pyembroidery/GcodeReader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 9c20dc1..64487e3 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -72,12 +72,12 @@ def read(f, out, settings=None):
     for gc in parse(f):
         if "comment" in gc:
             comment = gc["comment"]
-            if "Thread" in comment:
-                split = comment.split(" ")
+            split = comment.split(" ")
+            if comment.startswith("Thread") and len(split) > 1:
                 out.add_thread(split[1])
 
         if "g" in gc:
-            if "x" in gc and "y" in gc and gc["g"] == 0.0 or gc["g"] == 1.0:
+            if "x" in gc and "y" in gc and (gc["g"] == 0.0 or gc["g"] == 1.0):
                 if absolute_mode:
                     out.stitch_abs(gc["x"] * scale * flip_x, gc["y"] * scale * flip_y)
                 else:
-- 
2.43.0


From 5803fed71b147a107afd40cf1df45edb6fb69049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 33/66] fix: TXT repeated the colour of the first thread for
 every block

---
 pyembroidery/TxtWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/TxtWriter.py b/pyembroidery/TxtWriter.py
index 362b907..a627277 100644
--- a/pyembroidery/TxtWriter.py
+++ b/pyembroidery/TxtWriter.py
@@ -46,6 +46,7 @@ def write_normal(pattern, f):
         yy = stitch[1]
         flags = stitch[2] & COMMAND_MASK
         if (flags & COMMAND_MASK) == COLOR_CHANGE:
+            color_index += 1
             color = pattern.get_thread_or_filler(color_index).color
         named_command = names[(flags & COMMAND_MASK)]
         txt_line = "%.1f,%.1f color:%i command:%s flags:%i\n" % (
-- 
2.43.0


From e9bd1e573158977a0451ce6cb424ba15e5dd43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 34/66] fix: parentheses and newlines in metadata broke out of
 GCODE comments

---
 pyembroidery/GcodeWriter.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/GcodeWriter.py b/pyembroidery/GcodeWriter.py
index d2cfefc..122b22a 100644
--- a/pyembroidery/GcodeWriter.py
+++ b/pyembroidery/GcodeWriter.py
@@ -6,6 +6,12 @@ WRITES_SPEEDS = False
 SCALE = (-1, -1)  # This performs a default X,Y flip.
 
 
+def comment_text(text):
+    """Text inside of a comment, must not end the comment."""
+    text = str(text).replace("(", "[").replace(")", "]")
+    return text.replace("\r", " ").replace("\n", " ")
+
+
 def write_data(pattern, f):
     bounds = [float(e) / 10.0 for e in pattern.bounds()]  # convert to mm.
     width = bounds[2] - bounds[0]
@@ -46,10 +52,10 @@ def write_metadata(pattern, f):
         for the_key, the_value in pattern.extras.items():
             try:
                 if isinstance(the_value, basestring):
-                    write_string_utf8(f, "(%s: %s)\n" % (the_key, the_value))
+                    write_string_utf8(f, "(%s: %s)\n" % (comment_text(the_key), comment_text(the_value)))
             except NameError:
                 if isinstance(the_value, str):
-                    write_string_utf8(f, "(%s: %s)\n" % (the_key, the_value))
+                    write_string_utf8(f, "(%s: %s)\n" % (comment_text(the_key), comment_text(the_value)))
 
 
 def write_threads(pattern, f):
@@ -61,9 +67,9 @@ def write_threads(pattern, f):
                 % (
                     i,
                     thread.hex_color(),
-                    thread.description,
-                    thread.brand,
-                    thread.catalog_number,
+                    comment_text(thread.description),
+                    comment_text(thread.brand),
+                    comment_text(thread.catalog_number),
                 ),
             )
 
-- 
2.43.0


From 8cd056f3ecef0ab0c406ddceefd24b132207ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 35/66] fix: TXT mimic raised KeyError for SLOW and FAST

---
 pyembroidery/TxtWriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/TxtWriter.py b/pyembroidery/TxtWriter.py
index a627277..f7e1c83 100644
--- a/pyembroidery/TxtWriter.py
+++ b/pyembroidery/TxtWriter.py
@@ -27,7 +27,9 @@ def write_mimic(pattern, f):
         flags = stitch[2]
         if (flags & COMMAND_MASK) == COLOR_CHANGE:
             color += 1
-        flags = emb_mod_convert[(flags & COMMAND_MASK)]
+        flags = emb_mod_convert.get(flags & COMMAND_MASK)
+        if flags is None:
+            continue  # There is no such command in this format.
         txt_line = "%.1f,%.1f color:%i flags:%s\n" % (
             xx / 10.0,
             yy / 10.0,
-- 
2.43.0


From fa33c8f45200340bdbca18bf038bded70c5896de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 36/66] fix: PMV wrote fewer points than it declared and lost
 long jumps

---
 pyembroidery/PmvWriter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/PmvWriter.py b/pyembroidery/PmvWriter.py
index 1c4fbb3..362e737 100644
--- a/pyembroidery/PmvWriter.py
+++ b/pyembroidery/PmvWriter.py
@@ -2,6 +2,7 @@ from .EmbConstant import *
 from .WriteHelper import write_int_8, write_int_16le, write_string_utf8
 
 MAX_STITCH_DISTANCE = 70
+MAX_JUMP_DISTANCE = 70
 MAX_PERMITTED_STITCHES = 100
 
 
@@ -12,7 +13,7 @@ def write(pattern, f, settings=None):
     min_y = +200000000
     point_count = 0
     for stitch in pattern.stitches:
-        data = stitch[2]
+        data = stitch[2] & COMMAND_MASK
         x = stitch[0]
         y = -stitch[1]
         if data == STITCH or data == JUMP:
@@ -47,14 +48,13 @@ def write(pattern, f, settings=None):
 
     write_int_16le(f, point_count)
     write_int_16le(f, point_count * 2)
-    point_index = -1
+    point_index = 0
     max_x = -200000000
     min_x = +200000000
     max_y = -200000000
     min_y = +200000000
     xx = 0
     for stitch in pattern.stitches:
-        point_index += 1
         if point_index >= point_count:
             break
         data = stitch[2] & COMMAND_MASK
@@ -64,9 +64,10 @@ def write(pattern, f, settings=None):
         y -= center_y
         y *= scale_y
         y = int(round(y))
-        x = int(round(x - xx))
-        xx += x
         if data == STITCH or data == JUMP:
+            x = int(round(x - xx))
+            xx += x
+            point_index += 1
             if xx > max_x:
                 max_x = xx
             if xx < min_x:
-- 
2.43.0


From f77b6b2c4c2e27a4a6cfebadf35f521b4fd76c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 37/66] fix: needle changes in Barudan DAT files raised
 AttributeError

---
 pyembroidery/DatReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/DatReader.py b/pyembroidery/DatReader.py
index 4494278..1ed8e88 100644
--- a/pyembroidery/DatReader.py
+++ b/pyembroidery/DatReader.py
@@ -74,7 +74,7 @@ def read_barudan_dat(f, out):
         if 0x09 <= command <= 0x17:
             # C01 - C14
             needle = command - 0x08
-            out.needle_out(needle)
+            out.needle_change(needle)
             if dx != 0 or dy != 0:
                 out.move(dx, dy)
             continue
-- 
2.43.0


From c85d2212cfe51f17237e4af87515b14260d92330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 38/66] fix: PNG guides raised IndexError on small designs

---
 pyembroidery/PngWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index 17795db..0b0aaa2 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -458,6 +458,8 @@ class PngBuffer:
                     else:
                         gx = x + cx + 2
                         gy = y + cy + 2
+                    if not (0 <= gx < self.width and 0 <= gy < self.height):
+                        continue  # The image is too small for this text.
                     pos = (self.width * gy) + gx
                     idx = pos * 4
                     a2 = (9.0 - v) / 9.0
-- 
2.43.0


From 9c5c071194e70c4b465b870002a6f17e950ab655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 39/66] fix: writing a design of jumps only to PES version 6
 raised TypeError

---
 pyembroidery/PesWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index e150a68..b0a3625 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -362,6 +362,8 @@ def write_pes_embsewseg_segments(f, pattern, chart, left, bottom, cx, cy):
         color_code = segs[1]
         flag = segs[2]
 
+        if color_code is None:
+            color_code = 0  # Nothing is sewn, so there are no colors to choose from.
         if previous_color_code != color_code:
             colorlog.append([section, color_code])
             previous_color_code = color_code
-- 
2.43.0


From 1c47ed73f5318e25f9558be206165a74dfc18c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:49 +0000
Subject: [PATCH 40/66] fix: thick PNG lines at one edge of the image drew on
 the opposite edge

---
 pyembroidery/PngWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index 0b0aaa2..8cbf7ef 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -333,6 +333,8 @@ class PngBuffer:
         try:
             x += 1
             y += 1
+            if not (0 <= x < self.width and 0 <= y < self.height):
+                return  # Thick lines reach over the edge of the image.
             pos = (self.width * y) + x
             idx = pos * 4
             background_a = self.buf[idx + 3]
-- 
2.43.0


From db3f7940dcb1c0d0df697a62df7476df3909fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 41/66] fix: get_pattern_merge_jumps dropped every jump
 sequence after the first

---
 pyembroidery/EmbPattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index b8963cb..13437ba 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -859,6 +859,7 @@ class EmbPattern:
                 new_pattern.add_command(STITCH_BREAK)
                 stitch_break = True
                 continue
+            stitch_break = False
             new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
         new_pattern.threadlist.extend(self.threadlist)
         new_pattern.extras.update(self.extras)
-- 
2.43.0


From 244963569713e4b78b520acbb56073c426ce6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 42/66] fix: adding a pattern to itself also copied the
 commands that join the two

---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 13437ba..ce19270 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -622,6 +622,8 @@ class EmbPattern:
         """
         if isinstance(pattern, str):
             pattern = EmbPattern(pattern)
+        if pattern is self:
+            pattern = self.copy()  # The pattern to add must not change while adding.
         if len(self.stitches) > 0 and self.stitches[-1][2] & COMMAND_MASK == END:
             self.stitches = self.stitches[:-1]  # Remove END, if exists
         if dx is not None or dy is not None:
-- 
2.43.0


From 950c1f6565dbd5d4e4dd403832baf141c172d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 43/66] fix: interpolate_frame_eject deleted sequins between
 the jumps

---
 pyembroidery/EmbPattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index ce19270..51a5070 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -719,6 +719,7 @@ class EmbPattern:
                 data == STITCH
                 or data == SEW_TO
                 or data == NEEDLE_AT
+                or data == SEQUIN_EJECT
                 or data == COLOR_CHANGE
                 or data == COLOR_BREAK
                 or data == NEEDLE_SET
-- 
2.43.0


From 51380ec25c5eaae8ed0a87b4fa94b080b92615f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:09 +0000
Subject: [PATCH 44/66] fix: VP3 writer lost the way of jumps that end at a
 speed command

---
 pyembroidery/Vp3Writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 46e70f8..dc26646 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -246,6 +246,8 @@ def write_stitches_block(f, stitches, first_pos_x, first_pos_y):
             continue
         elif flags == STOP:
             continue
+        elif flags == SLOW or flags == FAST:
+            continue
         elif flags == JUMP:
             # VP3 has no jump commands. These are skipped.
             # It moves to the relevant location without needing to block the needlebar.
-- 
2.43.0


From 98e260d98866126accf1a45a616be03559428742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:56 +0000
Subject: [PATCH 45/66] fix: sequins kept by the design shifted the stitches of
 formats without sequins

---
 pyembroidery/ExpWriter.py   | 2 +-
 pyembroidery/GcodeWriter.py | 4 ++--
 pyembroidery/JefWriter.py   | 4 ++--
 pyembroidery/PecWriter.py   | 2 +-
 pyembroidery/TbfWriter.py   | 2 +-
 pyembroidery/U01Writer.py   | 2 +-
 pyembroidery/XxxWriter.py   | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyembroidery/ExpWriter.py b/pyembroidery/ExpWriter.py
index 27dcf59..2a99280 100644
--- a/pyembroidery/ExpWriter.py
+++ b/pyembroidery/ExpWriter.py
@@ -24,7 +24,7 @@ def write(pattern, f, settings=None):
             delta_x = dx & 0xFF
             delta_y = -dy & 0xFF
             f.write(bytes(bytearray([delta_x, delta_y])))
-        elif data == JUMP:
+        elif data == JUMP or data == SEQUIN_EJECT:  # No sequins in this format, they are jumps.
             delta_x = dx & 0xFF
             delta_y = -dy & 0xFF
             f.write(b"\x80\x04")
diff --git a/pyembroidery/GcodeWriter.py b/pyembroidery/GcodeWriter.py
index 122b22a..a5ebc8d 100644
--- a/pyembroidery/GcodeWriter.py
+++ b/pyembroidery/GcodeWriter.py
@@ -88,11 +88,11 @@ def write(pattern, f, settings=None):
         y = float(stitch[1]) / 10.0
         cmd = decode_embroidery_command(stitch[2])
         command = cmd[0]
-        if command == STITCH:
+        if command == STITCH or command == SEQUIN_EJECT:  # No sequins here, they are stitches.
             write_string_utf8(f, "G00 X%.3f Y%.3f\nG00 Z%.1f\n" % (x, y, z))
             z += increment_value
             continue
-        elif command == JUMP:
+        elif command == JUMP or command == SEQUIN_MODE:
             continue
         elif command == TRIM:
             continue
diff --git a/pyembroidery/JefWriter.py b/pyembroidery/JefWriter.py
index 5d830c7..11f3a88 100644
--- a/pyembroidery/JefWriter.py
+++ b/pyembroidery/JefWriter.py
@@ -85,7 +85,7 @@ def write(pattern, f, settings=None):
         data = stitch[2] & COMMAND_MASK
         if data == STITCH:
             point_count += 1
-        elif data == JUMP:
+        elif data == JUMP or data == SEQUIN_EJECT:
             point_count += 2
         elif data == TRIM:
             if trims:
@@ -163,7 +163,7 @@ def write(pattern, f, settings=None):
             if trims:  # command trim.
                 f.write(b"\x80\x02\x00\x00" * command_count_max)
             continue
-        elif data == JUMP:
+        elif data == JUMP or data == SEQUIN_EJECT:  # No sequins in this format, they are jumps.
             f.write(b"\x80\x02")
             write_int_8(f, dx)
             write_int_8(f, -dy)
diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index 1be9f10..f187722 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -162,7 +162,7 @@ def pec_encode(pattern, f):
                     write_stitch(f, 0, 0)
                 jumping = False
             write_stitch(f, dx, dy)
-        elif data == JUMP:
+        elif data == JUMP or data == SEQUIN_EJECT:  # No sequins in this format, they are jumps.
             jumping = True
             if init:
                 write_jump(f, dx, dy)
diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index 213e82c..b69fef0 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -107,7 +107,7 @@ def write(pattern, f, settings=None):
         if data == STITCH:
             cmd = 0x80
             f.write(bytes(bytearray([dx & 0xFF, -dy & 0xFF, cmd])))
-        elif data == JUMP:
+        elif data == JUMP or data == SEQUIN_EJECT:  # No sequins in this format, they are jumps.
             cmd = 0x90
             f.write(bytes(bytearray([dx & 0xFF, -dy & 0xFF, cmd])))
         elif data == STOP:
diff --git a/pyembroidery/U01Writer.py b/pyembroidery/U01Writer.py
index c8f5e08..62f2372 100644
--- a/pyembroidery/U01Writer.py
+++ b/pyembroidery/U01Writer.py
@@ -64,7 +64,7 @@ def write(pattern, f, settings=None):
                 trigger_slow = False
                 cmd |= 0x04
             f.write(bytes(bytearray([cmd, delta_y, delta_x])))
-        elif data == JUMP:
+        elif data == JUMP or data == SEQUIN_EJECT:  # No sequins in this format, they are jumps.
             if trigger_fast:
                 trigger_fast = False
                 cmd |= 0x02
diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index c27e423..8365e2b 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -97,7 +97,7 @@ def write_xxx_stitches(pattern, f):
             write_int_8(f, dx)
             write_int_8(f, -dy)
             continue
-        if data == JUMP:
+        if data == JUMP or data == SEQUIN_EJECT:  # No sequins in this format, they are jumps.
             write_int_8(f, 0x7F)
             write_int_8(f, 0x01)
             write_int_8(f, dx)
-- 
2.43.0


From b11fb0bc436d199de267ae9be04093e90f01bbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 46/66] fix: JEF colors and stops were off by one when the
 design starts with a color change

---
 pyembroidery/JefWriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/JefWriter.py b/pyembroidery/JefWriter.py
index 11f3a88..4b341af 100644
--- a/pyembroidery/JefWriter.py
+++ b/pyembroidery/JefWriter.py
@@ -43,7 +43,10 @@ def write(pattern, f, settings=None):
     for stitch in pattern.stitches:
         # Iterate all stitches.
         flags = stitch[2] & COMMAND_MASK
-        if flags == COLOR_CHANGE or index_in_threadlist == 0:
+        colors = 1 if flags == COLOR_CHANGE else 0
+        if index_in_threadlist == 0:
+            colors += 1  # The initial color is unset, the design may start with a color change.
+        for i in range(colors):
             # If color change *or* initial color unset.
             if index_in_threadlist < len(pattern.threadlist):
                 thread = pattern.threadlist[index_in_threadlist]
-- 
2.43.0


From f39ee249aac38f56e35001ccdbed93e2931f40f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:59 +0000
Subject: [PATCH 47/66] fix: stops shifted the colors of XXX and extended DST
 files

---
 pyembroidery/DstWriter.py | 3 +++
 pyembroidery/XxxWriter.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index c7b12a7..0a21fe5 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -121,6 +121,9 @@ def write(pattern, f, settings=None):
         version = settings.get("version", "default")
         if version == "extended":
             extended_header = True
+        if extended_header:
+            # The format has one code for stop and color change, each takes a color.
+            pattern.interpolate_stop_as_duplicate_color()
         trim_at = settings.get("trim_at", trim_at)
     bounds = pattern.bounds()
 
diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index 8365e2b..66e2452 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -124,6 +124,8 @@ def write_xxx_colors(pattern, f):
 
 
 def write(pattern, f, settings=None):
+    # The format has one code for stop and color change, each takes a color.
+    pattern.interpolate_stop_as_duplicate_color()
     write_xxx_header_b(pattern, f)
     place_holder_for_end_of_stitches = f.tell()
     write_int_32le(f, 0x00000000)
-- 
2.43.0


From fd971afa537496296698c14665c2b3c3f456ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:04 +0000
Subject: [PATCH 48/66] fix: text files were read in the encoding of the locale
 and with changed line ends

---
 pyembroidery/EmbPattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 51a5070..9a3c215 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1,3 +1,4 @@
+import io
 import os
 from copy import deepcopy
 
@@ -1491,7 +1492,7 @@ class EmbPattern:
             except AttributeError:
                 pass
             if text_mode:
-                with open(f, "r") as stream:
+                with io.open(f, "r", encoding="utf-8", newline="") as stream:
                     reader.read(stream, pattern, settings)
             else:
                 with open(f, "rb") as stream:
-- 
2.43.0


From 76cd394bca5440fd451fc8f2ff56821e82b539c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:26 +0000
Subject: [PATCH 49/66] fix: color changes in a row shifted the colors of the
 PES sections

---
 pyembroidery/PesWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index b0a3625..1fa7356 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -331,8 +331,8 @@ def get_as_segments_blocks(pattern, chart, adjust_x, adjust_y):
             block.append([last_pos[0] - adjust_x, last_pos[1] - adjust_y])
             flag = 1
         elif command == COLOR_CHANGE:
-            current_thread = pattern.get_thread_or_filler(color_index)
-            color_index += 1
+            color_index += len(command_block)  # Changes in a row have threads too.
+            current_thread = pattern.get_thread_or_filler(color_index - 1)
             color_code = current_thread.find_nearest_color_index(chart)
             flag = 1
             continue
-- 
2.43.0


From 6a0066a20e3cb3cf0bcbf6c5793f82ff1e51ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 50/66] fix: a thread field too long for the DST header shifted
 the colors after it

---
 pyembroidery/DstWriter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 0a21fe5..4d84f4f 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -107,8 +107,10 @@ def encode_record(x, y, flags):
 
 def write_optional_field(f, field):
     """Writes a header field, unless it does not fit into the fixed size header."""
-    if f.tell() + len(field.encode("utf8")) < DSTHEADERSIZE:
-        write_string_utf8(f, field)
+    if f.tell() + len(field.encode("utf8")) >= DSTHEADERSIZE:
+        return False
+    write_string_utf8(f, field)
+    return True
 
 
 def write(pattern, f, settings=None):
@@ -165,7 +167,7 @@ def write(pattern, f, settings=None):
             write_optional_field(f, "CP:%s\r" % meta_copyright)
         if len(pattern.threadlist) > 0:
             for thread in pattern.threadlist:
-                write_optional_field(
+                if not write_optional_field(
                     f,
                     "TC:%s,%s,%s\r"
                     % (
@@ -173,7 +175,8 @@ def write(pattern, f, settings=None):
                         thread.description or "",
                         thread.catalog_number or "",
                     ),
-                )
+                ):
+                    break  # The colors are in order, none may be left out between.
     f.write(b"\x1a")
     for i in range(f.tell(), DSTHEADERSIZE):
         f.write(b"\x20")  # space
-- 
2.43.0


From d0b0d9e3a3f45ce3e7f73902cae8d3938e28a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 51/66] fix: compress wrote the size of a block in the wrong
 byte order and no further blocks

---
 pyembroidery/EmbCompress.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index cddfc91..aa36f9f 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -4,11 +4,16 @@ def expand(data, uncompressed_size=None):
 
 
 def compress(data):
-    size = len(data)
-    return (
-        bytearray([(size >> 0) & 0xFF, (size >> 8) & 0xFF, 0x02, 0xA0, 0x01, 0xFE])
-        + data
-    )
+    # Blocks of at most 65535 elements, the count of each is read high byte first.
+    compressed = bytearray()
+    for i in range(0, len(data), 0xFFFF):
+        block = data[i : i + 0xFFFF]
+        size = len(block)
+        compressed += bytearray(
+            [(size >> 8) & 0xFF, (size >> 0) & 0xFF, 0x02, 0xA0, 0x01, 0xFE]
+        )
+        compressed += block
+    return compressed
 
 
 class Huffman:
-- 
2.43.0


From 3895635333e3118d8ca8799f4fc7bf7fdc50f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:04 +0000
Subject: [PATCH 52/66] fix: decompressing ran past the requested size

---
 pyembroidery/EmbCompress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index aa36f9f..e5bbb7a 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -183,7 +183,7 @@ class EmbCompress:
         self.block_elements = -1
         bits_total = len(input_data) * 8
         while bits_total > self.bit_position and (
-            uncompressed_size is None or len(output_data) <= uncompressed_size
+            uncompressed_size is None or len(output_data) < uncompressed_size
         ):
             character = self.get_token()
             if character <= 255:  # literal.
-- 
2.43.0


From 9832cb4bf5f01c7955073508d6d86240537a7fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:35 +0000
Subject: [PATCH 53/66] fix: zero bit elements at the very end of a compressed
 block were dropped

---
 pyembroidery/EmbCompress.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index e5bbb7a..c223498 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -177,12 +177,22 @@ class EmbCompress:
         v = (1 << v) + self.pop(v)
         return v
 
+    def has_more(self, bits_total):
+        """The elements of a block with a single character take no bits, they may remain after the last bit."""
+        if bits_total > self.bit_position:
+            return True
+        return (
+            bits_total == self.bit_position
+            and self.block_elements > 0
+            and self.character_huffman.table is None
+        )
+
     def decompress(self, input_data, uncompressed_size=None):
         self.input_data = input_data
         output_data = []
         self.block_elements = -1
         bits_total = len(input_data) * 8
-        while bits_total > self.bit_position and (
+        while self.has_more(bits_total) and (
             uncompressed_size is None or len(output_data) < uncompressed_size
         ):
             character = self.get_token()
-- 
2.43.0


From 32be48c17b2371ea98f4aa039b0aeb0b58d6d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 54/66] fix: lower case GCODE words were not read

---
 pyembroidery/GcodeReader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 64487e3..57feab2 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -45,14 +45,13 @@ def parse(f):
 
         if ord_A <= b <= ord_Z:
             b = b - ord_A + ord_a
-            byte = chr(b)
         is_letter = ord_a <= b <= ord_z
         if (is_letter or is_end) and len(code) != 0:
             command_map[code] = float(value)
             code = ""
             value = ""
         if is_letter:
-            code += str(byte)
+            code += chr(b)
             continue
         elif is_end:
             if len(command_map) == 0:
-- 
2.43.0


From a76b6250cd3f9cd1e2bb5ea8290cffd0ba332f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 55/66] fix: a JPX color change with a displacement along one
 axis dropped it

---
 pyembroidery/JpxReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/JpxReader.py b/pyembroidery/JpxReader.py
index 86e1d42..dec6405 100644
--- a/pyembroidery/JpxReader.py
+++ b/pyembroidery/JpxReader.py
@@ -22,7 +22,7 @@ def read_jpx_stitches(f, out):
             continue
         if ctrl == 0x01:  # Colorchange
             out.color_change()
-            if x != 0 and y != 0:
+            if x != 0 or y != 0:
                 out.move(x, y)
             continue
         if ctrl == 0x10:
-- 
2.43.0


From 1fe0d402f56d754842fa4006cac43202e6e9da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 56/66] fix: negative JEF color indexes selected an unrelated
 color

---
 pyembroidery/JefReader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/JefReader.py b/pyembroidery/JefReader.py
index 260d557..e161458 100644
--- a/pyembroidery/JefReader.py
+++ b/pyembroidery/JefReader.py
@@ -60,7 +60,9 @@ def read(f, out, settings=None):
     f.seek(88, 1)
 
     for i in range(0, count_colors):
-        index = abs(read_int_32le(f))
+        index = read_int_32le(f)
+        if index > 0x7FFFFFFF:  # The value is signed.
+            index = 0x100000000 - index
         if index == 0:
             # Patch: If we have color 0. Go ahead and set that to None.
             out.threadlist.append(None)
-- 
2.43.0


From cffc3ed7b5be3f4886dbd4da454b7699cc2b22a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 57/66] fix: compressed data that ends within an element gave
 an element that is not in it

---
 pyembroidery/EmbCompress.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index c223498..e334767 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -196,6 +196,8 @@ class EmbCompress:
             uncompressed_size is None or len(output_data) < uncompressed_size
         ):
             character = self.get_token()
+            if self.bit_position > bits_total:
+                break  # The data ended within this element.
             if character <= 255:  # literal.
                 output_data.append(character)
             elif character == 510:
@@ -203,6 +205,8 @@ class EmbCompress:
             else:
                 length = character - 253  # Min length is 3. 256-253=3.
                 back = self.get_position() + 1
+                if self.bit_position > bits_total:
+                    break  # The data ended within this element.
                 position = len(output_data) - back
                 if back > length:
                     # Entire lookback is already within output data.
-- 
2.43.0


From 0992ce94b5d0de57ea0a5a10361419e66b50f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 58/66] fix: Huffman tables of damaged files could take
 gigabytes

---
 pyembroidery/EmbCompress.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index e334767..e07c1dd 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -26,13 +26,16 @@ class Huffman:
     def build_table(self):
         """Build an index huffman table based on the lengths. lowest index value wins in a tie."""
         self.table_width = max(self.lengths)
+        if self.table_width > 16:
+            raise ValueError("Huffman codes have at most 16 bits.")
         self.table = []
         size = 1 << self.table_width
+        full_size = size
         for bit_length in range(1, self.table_width + 1):
             size /= 2.0
             for len_index in range(0, len(self.lengths)):
                 length = self.lengths[len_index]
-                if length == bit_length:
+                if length == bit_length and len(self.table) < full_size:
                     self.table += [len_index] * int(size)
 
     def lookup(self, byte_lookup):
-- 
2.43.0


From 05396f2b4b8de7a4fe97c28508f98076d5e82cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 59/66] fix: generic templates number colours and blocks from
 zero and join only between them

---
 pyembroidery/GenericWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index 22686c1..5944374 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -319,7 +319,7 @@ class GenericWriter:
             self.document_established = True
             self.document_index += 1
             self.document_opening = True
-            self.color_index = 0
+            self.color_index = -1
 
             self.format_dictionary.update(
                 {
@@ -340,7 +340,7 @@ class GenericWriter:
             self.color_opening = True
 
             self.thread = self.pattern.get_thread_or_filler(self.thread_index)
-            self.block_index = 0
+            self.block_index = -1
             self.color_index += 1
             self.format_dictionary.update(
                 {
-- 
2.43.0


From 30ea6874f1630de314e437893eb53961061271e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 60/66] fix: generic templates close what is open where the
 pattern has no end

---
 pyembroidery/GenericWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index 5944374..b1a2bb9 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -571,4 +571,5 @@ class GenericWriter:
         self.close_block()
         self.close_color()
         self.close_document()
+        self.write_closes()
         self.close_pattern()
-- 
2.43.0


From 241d70c306dfb92f460b770a88772cf576c3acbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 61/66] fix: generic templates of the first and last stitch of
 a block are used

---
 pyembroidery/GenericWriter.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index b1a2bb9..4242a35 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -116,6 +116,7 @@ class GenericWriter:
         self.color_closing = False
         self.document_closing = False
 
+        self.block_stitched = False
         self.block_opening = False
         self.color_opening = False
         self.document_opening = False
@@ -162,6 +163,10 @@ class GenericWriter:
             return self.sequin
 
         # STITCH
+        if cmd == STITCH and self.stitch_first is not None and self.is_first_stitch():
+            return self.stitch_first
+        if cmd == STITCH and self.stitch_last is not None and self.is_last_stitch():
+            return self.stitch_last
         if cmd == STITCH and self.stitch is not None:
             return self.stitch
 
@@ -200,6 +205,23 @@ class GenericWriter:
         # GENERIC SEGMENT
         return self.segment
 
+    def is_first_stitch(self):
+        """Whether the current stitch is the first stitch of its block."""
+        return not self.block_established or not self.block_stitched
+
+    def is_last_stitch(self):
+        """Whether the current stitch is the last stitch of its block."""
+        closing = {TRIM: self.trim, COLOR_CHANGE: self.color_change, END: self.end}
+        for i in range(self.command_index + 1, len(self.pattern.stitches)):
+            cmd = self.pattern.stitches[i][2] & COMMAND_MASK
+            if cmd == STITCH:
+                return False
+            if cmd not in closing:
+                continue
+            if closing[cmd] is not None or self.segment is not None:
+                return True  # Commands without a segment do not close the block.
+        return True
+
     def set_document_statistics(self):
         pattern = self.pattern
         self.format_dictionary.update(pattern.extras)
@@ -359,6 +381,7 @@ class GenericWriter:
             self.block_established = True
             self.block_index += 1
             self.block_opening = True
+            self.block_stitched = False
             self.format_dictionary.update(
                 {
                     "document_index": self.document_index,
@@ -473,6 +496,7 @@ class GenericWriter:
                     self.open_document()
                     self.open_color()
                     self.open_block()
+                    self.block_stitched = True
 
                 # TRIM
                 if self.cmd == TRIM:
-- 
2.43.0


From 239360315d2ca8c2e2ca16fb99264858b67428ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:47 +0000
Subject: [PATCH 62/66] fix: shade steep lines of a PNG along their length

---
 pyembroidery/PngWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index 8cbf7ef..3688aa1 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -430,6 +430,7 @@ class PngBuffer:
                 y0 += step_y
                 fraction += dx
                 self.line_for_point(x0, y0, True, ody, i)
+                i += 1
 
     def line_for_point(self, x, y, dy, max_pos, index):
         w = self.line_width
-- 
2.43.0


From 41c09359ab0bb68c5de3286a17633ab5a473f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 63/66] fix: append_translation translates by the given amount,
 wherever the pen is

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 9a3c215..146957b 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -888,7 +888,7 @@ class EmbPattern:
         """Appends translation to the pattern.
         All commands will be translated by the given amount,
         including absolute location commands."""
-        self.add_stitch_relative(MATRIX_TRANSLATE, x, y)
+        self.add_command(MATRIX_TRANSLATE, x, y)
 
     @staticmethod
     def supported_formats():
-- 
2.43.0


From bf3893c34fb7256de9f4bcb86801e460eb9ac04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 64/66] fix: reading into a pattern appends what is read and
 leaves what was there

---
 pyembroidery/EmbPattern.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 146957b..a452dce 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1484,6 +1484,18 @@ class EmbPattern:
             return None
         if pattern is None:
             pattern = EmbPattern()
+        elif len(pattern.stitches) != 0 or len(pattern.threadlist) != 0:
+            # Some readers process what they read, what the pattern already has must stay as it is.
+            addition = EmbPattern()
+            addition._previousX = pattern._previousX
+            addition._previousY = pattern._previousY
+            EmbPattern.read_embroidery(reader, f, settings, addition)
+            pattern.stitches.extend(addition.stitches)
+            pattern.threadlist.extend(addition.threadlist)
+            pattern.extras.update(addition.extras)
+            pattern._previousX = addition._previousX
+            pattern._previousY = addition._previousY
+            return pattern
 
         if EmbPattern.is_str(f):
             text_mode = False
-- 
2.43.0


From 80a9682d355057468a99b91d26b9b4deb4fe8b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:20 +0000
Subject: [PATCH 65/66] fix: PEC colour icons left out stitches whose command
 word carries numbers

---
 pyembroidery/PecWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index f187722..ddf55e4 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -106,7 +106,7 @@ def write_pec_graphics(pattern, f, extends):
     f.write(bytes(bytearray(blank)))
 
     for block in pattern.get_as_colorblocks():
-        stitches = [s for s in block[0] if s[2] == STITCH]
+        stitches = [s for s in block[0] if s[2] & COMMAND_MASK == STITCH]
         blank = get_blank()  # [ 0 ] * 6 * 38
         draw_scaled(extends, stitches, blank, 6)
         f.write(bytes(bytearray(blank)))
-- 
2.43.0


From 3d92c6b42a751597492a934f4756960e2b1a1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:20 +0000
Subject: [PATCH 66/66] fix: get_pattern_interpolate_trim did not merge jumps
 whose command word carries numbers

---
 pyembroidery/EmbPattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index a452dce..fa3f4f3 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -828,13 +828,13 @@ class EmbPattern:
                 trimmed = False
             elif command == COLOR_CHANGE or command == NEEDLE_SET or command == TRIM:
                 trimmed = True
-            if trimmed or stitch[2] != JUMP:
+            if trimmed or command != JUMP:
                 new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
                 continue
             while i < ie and command == JUMP:
                 i += 1
                 stitch = self.stitches[i]
-                command = stitch[2]
+                command = stitch[2] & COMMAND_MASK
                 count += 1
             if command != JUMP:
                 i -= 1
-- 
2.43.0

