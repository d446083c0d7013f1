From 95c600ecaf1dee3c3d6dee2f348c1ae8bc9bf6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 01/33] fix: restore the field size limit when consistency
 detection raises

---
 clevercsv/consistency.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/clevercsv/consistency.py b/clevercsv/consistency.py
index a7454f3..89917cd 100644
--- a/clevercsv/consistency.py
+++ b/clevercsv/consistency.py
@@ -118,15 +118,16 @@ class ConsistencyDetector:
         # the best parsing result)
         old_limit = field_size_limit(len(data) + 1)
 
-        scores = self.compute_consistency_scores(data, dialects)
-        best_dialects = ConsistencyDetector.get_best_dialects(scores)
-        result: Optional[SimpleDialect] = None
-        if len(best_dialects) == 1:
-            result = best_dialects[0]
-        else:
-            result = tie_breaker(data, best_dialects)
-
-        field_size_limit(old_limit)
+        try:
+            scores = self.compute_consistency_scores(data, dialects)
+            best_dialects = ConsistencyDetector.get_best_dialects(scores)
+            result: Optional[SimpleDialect] = None
+            if len(best_dialects) == 1:
+                result = best_dialects[0]
+            else:
+                result = tie_breaker(data, best_dialects)
+        finally:
+            field_size_limit(old_limit)
         return result
 
     def compute_consistency_scores(
-- 
2.43.0


From 3f3e46b9e8b043a36b45ab24c78701f43df2b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 02/33] fix: make pairwise tie reduction independent of hash
 order

---
 clevercsv/break_ties.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index 490adfd..b6894f9 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -80,21 +80,21 @@ def reduce_pairwise(
             equal_dialects.append((a, b))
 
     # Try to break the ties in these pairs
-    new_dialects = set()
+    new_dialects = []
     visited = set()
     for A, B in equal_dialects:
         ans = break_ties_two(data, A, B)
-        if ans is not None:
-            new_dialects.add(ans)
+        if ans is not None and ans not in new_dialects:
+            new_dialects.append(ans)
         visited.add(A)
         visited.add(B)
 
     # and add the dialects that we didn't visit
     for d in dialects:
         if d not in visited:
-            new_dialects.add(d)
+            new_dialects.append(d)
 
-    return list(new_dialects)
+    return new_dialects
 
 
 def _dialects_only_differ_in_field(
-- 
2.43.0


From 6443e2d65907cbee7da00f9535e749527d2516cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 03/33] fix: type detection no longer raises on extreme JSON
 cells

---
 clevercsv/detect_type.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index e0635f3..4e06b7e 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -202,7 +202,9 @@ class TypeDetector:
             return False
         try:
             _ = json.loads(cell)
-        except json.JSONDecodeError:
+        except (ValueError, RecursionError):
+            # ValueError includes JSONDecodeError and is also raised for
+            # integers that are too long to convert
             return False
         return True
 
-- 
2.43.0


From 35a3f15b78829a7d34a0ba43372a84c198765144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 04/33] fix: detection method 'normal' uses normal forms
 exclusively

---
 clevercsv/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index 1574110..0dd7dba 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -116,7 +116,7 @@ class Detector:
             dialect = detect_dialect_normal(
                 sample, delimiters=delimiters, verbose=verbose
             )
-            if dialect is not None:
+            if dialect is not None or method == DetectionMethod.NORMAL:
                 self.method_ = DetectionMethod.NORMAL
                 return dialect
 
-- 
2.43.0


From fdd412eaa5ab97e2b7cc79c14567d0b0b8f3a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 05/33] fix: header detection keeps carriage-return line ends
 intact

---
 clevercsv/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index 0dd7dba..db2b8f2 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -147,7 +147,7 @@ class Detector:
         if dialect is None:
             raise NoDetectionResult
 
-        rdr = reader(StringIO(sample), dialect)
+        rdr = reader(StringIO(sample, newline=""), dialect)
 
         header = next(rdr)  # assume first row is header
 
-- 
2.43.0


From 7ec892c4861f64fe30788d32f2596134c23690ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 06/33] fix: format parameters of a reader no longer modify the
 caller's dialect

---
 clevercsv/read.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 90ce386..eba973a 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -49,7 +49,13 @@ class reader:
         elif isinstance(dialect, csv.Dialect):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
-            sd = dialect
+            # copy, so that format parameters don't change the caller's dialect
+            sd = SimpleDialect(
+                dialect.delimiter,
+                dialect.quotechar,
+                dialect.escapechar,
+                strict=dialect.strict,
+            )
         else:
             raise ValueError("Unknown dialect type: %r" % dialect)
         for key, value in fmtparams.items():
-- 
2.43.0


From dc20c2569b4e1083bfcd138a8c6fa9e86c9a67c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 07/33] fix: iterating a reader again continues instead of
 starting over

---
 clevercsv/read.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index eba973a..f2ef8ac 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -65,14 +65,15 @@ class reader:
         return sd
 
     def __iter__(self) -> Iterator[List[str]]:
-        self.parser_gen = Parser(
-            self.csvfile,
-            delimiter=self._dialect.delimiter,
-            quotechar=self._dialect.quotechar,
-            escapechar=self._dialect.escapechar,
-            field_limit=field_size_limit(),
-            strict=self._dialect.strict,
-        )
+        if self.parser_gen is None:
+            self.parser_gen = Parser(
+                self.csvfile,
+                delimiter=self._dialect.delimiter,
+                quotechar=self._dialect.quotechar,
+                escapechar=self._dialect.escapechar,
+                field_limit=field_size_limit(),
+                strict=self._dialect.strict,
+            )
         return self
 
     def __next__(self) -> List[str]:
-- 
2.43.0


From 224e9b85e6cba63f4a5f6f1acd91a7997b7454a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 08/33] fix: converting to and from csv dialects keeps the
 strict setting

---
 clevercsv/dialect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 9d909d9..aeee184 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -100,7 +100,9 @@ class SimpleDialect:
         delimiter = "" if d.delimiter is None else d.delimiter
         quotechar = "" if d.quoting == csv.QUOTE_NONE else d.quotechar
         escapechar = "" if d.escapechar is None else d.escapechar
-        return cls(delimiter, quotechar, escapechar, strict=d.strict)
+        # csv.Dialect classes don't necessarily define strict
+        strict = bool(getattr(d, "strict", False))
+        return cls(delimiter, quotechar, escapechar, strict=strict)
 
     def to_csv_dialect(self) -> csv.Dialect:
         class dialect(csv.Dialect):
@@ -116,6 +118,7 @@ class SimpleDialect:
             # TODO: We need to set this because it can't be None anymore in
             # recent versions of Python
             lineterminator = "\n"
+            strict = self.strict
 
         return dialect()
 
-- 
2.43.0


From a322349a867f39ef4e4308e4780fe30533ae1c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 09/33] fix: accept csv dialect classes and instances in reader
 and writer

---
 clevercsv/read.py  | 6 +++++-
 clevercsv/write.py | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index f2ef8ac..70a0858 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -16,6 +16,8 @@ from typing import Iterator
 from typing import List
 from typing import Optional
 
+import _csv
+
 from . import field_size_limit
 from ._types import _DialectLike
 from .cparser import Error as ParserError
@@ -46,7 +48,9 @@ class reader:
     ) -> SimpleDialect:
         if isinstance(dialect, str):
             sd = SimpleDialect.from_csv_dialect(csv.get_dialect(dialect))
-        elif isinstance(dialect, csv.Dialect):
+        elif isinstance(dialect, (csv.Dialect, _csv.Dialect)) or (
+            isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
+        ):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
             # copy, so that format parameters don't change the caller's dialect
diff --git a/clevercsv/write.py b/clevercsv/write.py
index 91c72ec..9820a43 100644
--- a/clevercsv/write.py
+++ b/clevercsv/write.py
@@ -57,12 +57,12 @@ class writer:
         d: _DialectLike = ""
         if isinstance(dialect, str):
             d = _csv.get_dialect(dialect)
-        elif isinstance(dialect, _csv.Dialect):
+        elif isinstance(dialect, (csv.Dialect, _csv.Dialect)) or (
+            isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
+        ):
             d = dialect
         elif isinstance(dialect, SimpleDialect):
             d = dialect.to_csv_dialect()
-        elif dialect in [csv.excel, csv.excel_tab, csv.unix_dialect]:
-            d = dialect
         else:
             raise ValueError(f"Unknown dialect type: {dialect}")
 
-- 
2.43.0


From 755533e75c98205ec0ad199ff33b2680d3fcc9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 10/33] fix: unknown dialect names raise the package's Error

---
 clevercsv/read.py  | 6 +++++-
 clevercsv/write.py | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 70a0858..e9f9d03 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -47,7 +47,11 @@ class reader:
         self, dialect: _DialectLike, **fmtparams: Any
     ) -> SimpleDialect:
         if isinstance(dialect, str):
-            sd = SimpleDialect.from_csv_dialect(csv.get_dialect(dialect))
+            try:
+                csv_dialect = csv.get_dialect(dialect)
+            except csv.Error as e:
+                raise Error(str(e))
+            sd = SimpleDialect.from_csv_dialect(csv_dialect)
         elif isinstance(dialect, (csv.Dialect, _csv.Dialect)) or (
             isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
         ):
diff --git a/clevercsv/write.py b/clevercsv/write.py
index 9820a43..b719cbb 100644
--- a/clevercsv/write.py
+++ b/clevercsv/write.py
@@ -56,7 +56,10 @@ class writer:
     ) -> type[_csv.Dialect]:
         d: _DialectLike = ""
         if isinstance(dialect, str):
-            d = _csv.get_dialect(dialect)
+            try:
+                d = _csv.get_dialect(dialect)
+            except csv.Error as e:
+                raise Error(str(e))
         elif isinstance(dialect, (csv.Dialect, _csv.Dialect)) or (
             isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
         ):
-- 
2.43.0


From 30d3b441c3c3325d804067be892b69f9723787e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 11/33] fix: export write_dicts as documented

---
 clevercsv/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clevercsv/__init__.py b/clevercsv/__init__.py
index 63aa4f6..c3a90d7 100644
--- a/clevercsv/__init__.py
+++ b/clevercsv/__init__.py
@@ -22,6 +22,7 @@ from .wrappers import read_dicts
 from .wrappers import read_table
 from .wrappers import stream_dicts
 from .wrappers import stream_table
+from .wrappers import write_dicts
 from .wrappers import write_table
 from .write import writer
 
@@ -47,6 +48,7 @@ __all__ = [
     "read_table",
     "stream_dicts",
     "stream_table",
+    "write_dicts",
     "write_table",
     "writer",
 ]
-- 
2.43.0


From 244c3f99ec1bac004240d6cca5df5911685fdd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 12/33] fix: write_table creates no file when an iterable has
 no rows

---
 clevercsv/wrappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 18dc6d7..cea90fb 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -453,6 +453,9 @@ def write_table(
     if len(set(map(len, list_table))) > 1:
         raise ValueError("Table doesn't have constant row length.")
 
+    if not list_table:
+        return
+
     with open(filename, "w", newline="", encoding=encoding) as fp:
         w = writer(fp, dialect=dialect)
         w.writerows(list_table)
-- 
2.43.0


From 9517c1d48aeeb701f4d7bf6d4586c756a6b1efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 13/33] fix: write_table refuses to transpose a table with
 unequal rows

---
 clevercsv/wrappers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index cea90fb..73c6f62 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -445,14 +445,14 @@ def write_table(
     if not table:
         return
 
-    if transpose:
-        list_table = list(map(list, zip(*table)))
-    else:
-        list_table = list(map(list, table))
+    list_table = list(map(list, table))
 
     if len(set(map(len, list_table))) > 1:
         raise ValueError("Table doesn't have constant row length.")
 
+    if transpose:
+        list_table = list(map(list, zip(*list_table)))
+
     if not list_table:
         return
 
-- 
2.43.0


From a680db63fb775f39d20dbf786db424ae4a2eb5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 14/33] fix: standardize --transpose keeps all cells of rows of
 unequal length

---
 clevercsv/console/commands/standardize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index f25c9e4..6093c39 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import io
+import itertools
 import os
 import shutil
 import sys
@@ -207,7 +208,7 @@ class StandardizeCommand(Command):
         with open(path, "r", newline="", encoding=encoding) as fp:
             read = reader(fp, dialect=dialect)
             rows = list(read)
-        rows = list(map(list, zip(*rows)))
+        rows = list(map(list, itertools.zip_longest(*rows, fillvalue="")))
         write = writer(stream, dialect="excel")
         for row in rows:
             write.writerow(row)
-- 
2.43.0


From a1b98cb2a5b18b3db0e2c308c2ed8dcdf83ceec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 15/33] fix: in-place standardization removes its temporary
 file on errors

---
 clevercsv/console/commands/standardize.py | 25 ++++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 6093c39..0dd2c68 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -254,18 +254,23 @@ class StandardizeCommand(Command):
 
         """
         tmpfd, tmpfname = tempfile.mkstemp(prefix="clevercsv_", suffix=".csv")
-        tmpid = os.fdopen(tmpfd, "w", newline="", encoding=target_encoding)
-        self._write_to_stream(path, tmpid, dialect, encoding)
-        tmpid.close()
+        os.close(tmpfd)
+        try:
+            with open(
+                tmpfname, "w", newline="", encoding=target_encoding
+            ) as tmpid:
+                self._write_to_stream(path, tmpid, dialect, encoding)
 
-        previous_sha1 = sha1sum(path)
-        new_sha1 = sha1sum(tmpfname)
-        if previous_sha1 == new_sha1:
-            os.unlink(tmpfname)
-            return 0
+            previous_sha1 = sha1sum(path)
+            new_sha1 = sha1sum(tmpfname)
+            if previous_sha1 == new_sha1:
+                return 0
 
-        shutil.move(tmpfname, path)
-        return 2
+            shutil.move(tmpfname, path)
+            return 2
+        finally:
+            if os.path.exists(tmpfname):
+                os.unlink(tmpfname)
 
     def _to_stdout(
         self, path: StrPath, dialect: SimpleDialect, encoding: Optional[str]
-- 
2.43.0


From 298046b503aeb319d1e0ad28aae3efea2c5041ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 16/33] fix: generated code embeds file name, encoding and
 dialect as literals

---
 clevercsv/console/commands/_utils.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 20c1861..38cc607 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -1,5 +1,7 @@
 # -*- coding: utf-8 -*-
 
+import json
+
 from typing import Any
 from typing import List
 from typing import Optional
@@ -20,6 +22,13 @@ def parse_int(val: Any, name: str) -> Optional[int]:
         )
 
 
+def string_literal(value: str) -> str:
+    """Format a string as a Python literal with double quotes"""
+    # Lone surrogates can't be encoded, so these are escaped as well.
+    literal = json.dumps(value, ensure_ascii=False)
+    return literal.encode("utf-8", "backslashreplace").decode("utf-8")
+
+
 def generate_code(
     filename: str,
     dialect: SimpleDialect,
@@ -27,9 +36,10 @@ def generate_code(
     use_pandas: bool = False,
 ) -> List[str]:
     assert dialect.quotechar is not None
-    d = '"\\t"' if dialect.delimiter == "\t" else f'"{dialect.delimiter}"'
-    q = '"%s"' % (dialect.quotechar.replace('"', '\\"'))
-    e = repr(f"{dialect.escapechar}").replace("'", '"')
+    path = string_literal(filename)
+    d = string_literal(f"{dialect.delimiter}")
+    q = string_literal(dialect.quotechar)
+    e = string_literal(f"{dialect.escapechar}")
     base = [
         "",
         f"# Code generated with CleverCSV version {__version__}",
@@ -40,16 +50,16 @@ def generate_code(
         return [
             *base,
             "",
-            f'df = clevercsv.read_dataframe("{filename}", delimiter={d}, '
+            f'df = clevercsv.read_dataframe({path}, delimiter={d}, '
             f"quotechar={q}, escapechar={e})",
             "",
         ]
 
-    enc = "None" if encoding is None else f'"{encoding}"'
+    enc = "None" if encoding is None else string_literal(encoding)
     lines = [
         *base,
         "",
-        f'with open("{filename}", "r", newline="", encoding={enc}) as fp:',
+        f'with open({path}, "r", newline="", encoding={enc}) as fp:',
         "    reader = clevercsv.reader(fp, "
         + f"delimiter={d}, quotechar={q}, escapechar={e})",
         "    rows = list(reader)",
-- 
2.43.0


From 9bb3bc7f0208f677321d87dea3964988720f7f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 17/33] fix: keep the last record when the data ends in an
 escape character

---
 src/cparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index 242ba6d..8bcc2fc 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -465,7 +465,7 @@ static PyObject *Parser_iternext(ParserObj *self)
 		if (lineobj == NULL) {
 			/* End of input OR exception */
 			if (!PyErr_Occurred() && (self->field_len != 0 ||
-						self->state == IN_QUOTED_FIELD)) {
+						self->state != START_RECORD)) {
 				if (self->strict) {
 					PyErr_SetString(_cparserstate_global->error_obj,
 							"unexpected end of data");
-- 
2.43.0


From c377ca16de4f1f2f2f6bb19807f3ffacca6d415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 18/33] fix: strict mode accepts quoted cells that are properly
 closed

---
 src/cparser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index 8bcc2fc..349bd9f 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -364,7 +364,9 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 				if (v == self->quotechar) {
 					self->doublequote = 1;
 					self->state = QUOTE_IN_QUOTED_FIELD;
-				} else if (self->strict) {
+				} else if (self->strict && v != '\0' &&
+						v != '\r' && v != '\n' &&
+						v != self->delimiter) {
 					PyErr_Format(_cparserstate_global->error_obj,
 							"'%c' expected after '%c'",
 							self->delimiter,
-- 
2.43.0


From 7bab4b84e5f86a606b50b20e63fe3bc0bf44e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 19/33] fix: handle allocation failure when stripping quotes

---
 src/cparser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index 349bd9f..abf9081 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -161,7 +161,9 @@ static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
 	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
 	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
-	PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
+	if (new != NULL && PyUnicode_CopyCharacters(new, 0, str, strip_front,
+				how_many) < 0)
+		Py_CLEAR(new);
 	Py_DECREF(str);
 	return new;
 }
-- 
2.43.0


From aeb2711123fd2352aaed6839d585f2e3b952d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 20/33] fix: release the arguments of Parser when the input is
 not iterable

---
 src/cparser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index abf9081..b531924 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -681,8 +681,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	if (self->input_iter == NULL) {
 		PyErr_SetString(PyExc_TypeError,
 				"argument 1 must be an iterator");
-		Py_DECREF(self);
-		return NULL;
+		goto err;
 	}
 
 	PyObject_GC_Track(self);
-- 
2.43.0


From 648e4e4b799506f21f31f239998d8a940f85f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 21/33] fix: keep doubled quote symbols in an unterminated
 quoted block

---
 src/abstraction.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abstraction.c b/src/abstraction.c
index 6034f4e..4479ad4 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -225,6 +225,7 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 		}
 		if (i + 1 < len && t == 'Q') {
 			i++;
+			new_S[i] = (char)t;
 		} else {
 			quote_idx_r[quote_idx] = i;
 			quote_idx++;
-- 
2.43.0


From 347dc9969c9bf8151c7e61b9f8c068b884d2c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 22/33] fix: module initialization releases the module on
 failure

---
 src/abstraction.c |  4 +++-
 src/cparser.c     | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/abstraction.c b/src/abstraction.c
index 4479ad4..98b43f7 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -306,7 +306,9 @@ PyMODINIT_FUNC PyInit_cabstraction(void)
 		return NULL;
 
 	if (PyModule_AddStringConstant(module, "__version__",
-				MODULE_VERSION) == -1)
+				MODULE_VERSION) == -1) {
+		Py_DECREF(module);
 		return NULL;
+	}
 	return module;
 }
diff --git a/src/cparser.c b/src/cparser.c
index b531924..7f4e7c2 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -743,15 +743,23 @@ PyMODINIT_FUNC PyInit_cparser(void)
 
 	/* Add version to the module. */
 	if (PyModule_AddStringConstant(module, "__version__",
-				MODULE_VERSION) == -1)
+				MODULE_VERSION) == -1) {
+		Py_DECREF(module);
 		return NULL;
-
+	}
 
 	/* Add the CSV exception object to the module. */
 	_cparserstate(module)->error_obj = PyErr_NewException("clevercsv.cparser.Error", NULL, NULL);
-	if (_cparserstate(module)->error_obj == NULL)
+	if (_cparserstate(module)->error_obj == NULL) {
+		Py_DECREF(module);
 		return NULL;
+	}
 	Py_INCREF(_cparserstate(module)->error_obj);
-	PyModule_AddObject(module, "Error", _cparserstate(module)->error_obj);
+	if (PyModule_AddObject(module, "Error",
+				_cparserstate(module)->error_obj) < 0) {
+		Py_DECREF(_cparserstate(module)->error_obj);
+		Py_DECREF(module);
+		return NULL;
+	}
 	return module;
 }
-- 
2.43.0


From a9250e7da2102173862a3ccc006dd678404d5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 23/33] fix: abstraction functions refuse arguments that are
 not strings

---
 src/abstraction.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abstraction.c b/src/abstraction.c
index 98b43f7..f252a57 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -60,7 +60,7 @@ PyObject *base_abstraction(PyObject *self,  PyObject *args)
 		 *quotechar_obj = NULL,
 		 *escapechar_obj = NULL;
 
-	if (!PyArg_ParseTuple(args, "OOOO", &S, &delimiter_obj, &quotechar_obj,
+	if (!PyArg_ParseTuple(args, "UOOO", &S, &delimiter_obj, &quotechar_obj,
 				&escapechar_obj)) {
 		return NULL;
 	}
@@ -153,7 +153,7 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 
 	// retrieve the string from the function arguments
 	PyObject *S = NULL;
-	if (!PyArg_ParseTuple(args, "O", &S)) {
+	if (!PyArg_ParseTuple(args, "U", &S)) {
 		return NULL;
 	}
 
-- 
2.43.0


From 6688163fb98825460bc3d37f86bc96fd53f87ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 24/33] fix: escaped line end does not keep the record open

---
 src/cparser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cparser.c b/src/cparser.c
index 7f4e7c2..9c835e5 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -334,6 +334,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 		case AFTER_ESCAPED_CRNL:
 			if (u == '\0')
 				break;
+			self->state = IN_FIELD;
 			/* fallthru */
 		case IN_FIELD:
 			if (u == '\r' || u == '\n' || u == '\0') {
-- 
2.43.0


From 260f15f923b16260901ef53b95ab0ad7a33d8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 25/33] fix: an unterminated quoted cell loses only its opening
 quote

---
 src/cparser.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 9c835e5..1d06497 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -199,18 +199,17 @@ static int parse_save_field(ParserObj *self, int trailing)
 		return -1;
 	}
 
-	// strip quotes if quoted string
-	if (_quotecond(field, self->field_len, self->quotechar)) {
-		field = _strstrip(field, 1, 1);
+	// strip partial quotes if trailing at end of file
+	if (trailing && _strstartswith(field, self->quotechar)) {
+		field = _strstrip(field, 1, 0);
 		if (field == NULL) {
 			return -1;
 		}
 		is_quoted = 1;
 	}
-
-	// strip partial quotes if trailing at end of file
-	if (trailing && _strstartswith(field, self->quotechar)) {
-		field = _strstrip(field, 1, 0);
+	// strip quotes if quoted string
+	else if (_quotecond(field, self->field_len, self->quotechar)) {
+		field = _strstrip(field, 1, 1);
 		if (field == NULL) {
 			return -1;
 		}
@@ -475,7 +474,7 @@ static PyObject *Parser_iternext(ParserObj *self)
 					PyErr_SetString(_cparserstate_global->error_obj,
 							"unexpected end of data");
 					goto err;
-				} else if (parse_save_field(self, 1) >= 0) {
+				} else if (parse_save_field(self, self->state == IN_QUOTED_FIELD) >= 0) {
 					break;
 				} else {
 					goto err;
-- 
2.43.0


From beec032438d585efe9527a7f0dcff71f0ebe898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 26/33] fix: DictWriter accepts extrasaction in any case but
 ignored extra fields unless it was lower case

---
 clevercsv/dict_read_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/dict_read_write.py b/clevercsv/dict_read_write.py
index fd0f665..073d970 100644
--- a/clevercsv/dict_read_write.py
+++ b/clevercsv/dict_read_write.py
@@ -131,7 +131,7 @@ class DictWriter(Generic[_T]):
             raise ValueError(
                 "extrasaction (%s) must be 'raise' or 'ignore'" % extrasaction
             )
-        self.extrasaction = extrasaction
+        self.extrasaction = extrasaction.lower()
         self.writer = writer(f, dialect, *args, **kwds)
 
     def writeheader(self) -> Any:
-- 
2.43.0


From 72ff1ff33b0ddb5234bcf39ce73d70710ce263bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 27/33] fix: code for data frames keeps the encoding given by
 the user

---
 clevercsv/console/commands/_utils.py  | 6 ++++--
 clevercsv/console/commands/code.py    | 2 ++
 clevercsv/console/commands/explore.py | 2 ++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 38cc607..cc34cac 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -46,16 +46,18 @@ def generate_code(
         "",
         "import clevercsv",
     ]
+    enc = "None" if encoding is None else string_literal(encoding)
     if use_pandas:
+        # Without an encoding, read_dataframe detects it.
+        enc_arg = "" if encoding is None else f", encoding={enc}"
         return [
             *base,
             "",
             f'df = clevercsv.read_dataframe({path}, delimiter={d}, '
-            f"quotechar={q}, escapechar={e})",
+            f"quotechar={q}, escapechar={e}{enc_arg})",
             "",
         ]
 
-    enc = "None" if encoding is None else string_literal(encoding)
     lines = [
         *base,
         "",
diff --git a/clevercsv/console/commands/code.py b/clevercsv/console/commands/code.py
index de88d12..dca388c 100644
--- a/clevercsv/console/commands/code.py
+++ b/clevercsv/console/commands/code.py
@@ -71,6 +71,8 @@ class CodeCommand(Command):
             print("Error: dialect detection failed.", file=sys.stderr)
             return 1
 
+        if self.args.pandas:
+            encoding = self.args.encoding
         code_lines = generate_code(
             filename, dialect, encoding, use_pandas=self.args.pandas
         )
diff --git a/clevercsv/console/commands/explore.py b/clevercsv/console/commands/explore.py
index 3634f02..3a45000 100644
--- a/clevercsv/console/commands/explore.py
+++ b/clevercsv/console/commands/explore.py
@@ -76,6 +76,8 @@ class ExploreCommand(Command):
             print("Error: dialect detection failed.", file=sys.stderr)
             return 1
 
+        if self.args.pandas:
+            encoding = self.args.encoding
         code_lines = generate_code(
             filename, dialect, encoding, use_pandas=self.args.pandas
         )
-- 
2.43.0


From 3abb1a211dff55beec21e3613b637b2251429696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 28/33] fix: require the minimum version of pandas that the
 package declares

---
 clevercsv/_optional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/_optional.py b/clevercsv/_optional.py
index 824342c..ff6c505 100644
--- a/clevercsv/_optional.py
+++ b/clevercsv/_optional.py
@@ -32,7 +32,7 @@ class OptionalDependency(NamedTuple):
 # update this when changing pyproject.toml
 OPTIONAL_DEPENDENCIES: List[OptionalDependency] = [
     OptionalDependency("tabview", "tabview", "1.4"),
-    OptionalDependency("pandas", "pandas", "0.24.1"),
+    OptionalDependency("pandas", "pandas", "1.0.0"),
     OptionalDependency("cchardet", "faust-cchardet", "2.1.18"),
     OptionalDependency("wilderness", "wilderness", "0.1.5"),
 ]
-- 
2.43.0


From 1c829325628ae83d8737997377aa5dadd0e4e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 29/33] fix: viewing an empty file transposed does not fail

---
 clevercsv/console/commands/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/view.py b/clevercsv/console/commands/view.py
index 60ae57c..9805819 100644
--- a/clevercsv/console/commands/view.py
+++ b/clevercsv/console/commands/view.py
@@ -81,7 +81,7 @@ class ViewCommand(Command):
             return 1
 
         if self.args.transpose:
-            max_row_length = max(map(len, rows))
+            max_row_length = max(map(len, rows), default=0)
             fixed_rows: List[Sequence[Optional[str]]] = []
             for row in rows:
                 if len(row) == max_row_length:
-- 
2.43.0


From 8740679fe31837196d5ac8ca9d6dcb1fdd99b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 30/33] fix: keep an empty last cell when splitting a row for
 normal forms

---
 clevercsv/normal_form.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index aff21fa..167a431 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -225,8 +225,7 @@ def split_row(row: str, dialect: SimpleDialect) -> List[str]:
             current_cell += c
         else:
             current_cell += c
-    if current_cell:
-        cells.append(current_cell)
+    cells.append(current_cell)
     return cells
 
 
-- 
2.43.0


From 669593d957c5846b4010b3cafe3f39f2026cb638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 31/33] fix: iterator that advances its own parser no longer
 crashes the interpreter

---
 src/cparser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cparser.c b/src/cparser.c
index 1d06497..a698c49 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -466,6 +466,14 @@ static PyObject *Parser_iternext(ParserObj *self)
 		return NULL;
 	do {
 		lineobj = PyIter_Next(self->input_iter);
+		if (self->fields == NULL) {
+			/* the iterator used this parser and took the record */
+			Py_XDECREF(lineobj);
+			if (!PyErr_Occurred())
+				PyErr_SetString(_cparserstate_global->error_obj,
+						"iterator has already advanced the parser");
+			return NULL;
+		}
 		if (lineobj == NULL) {
 			/* End of input OR exception */
 			if (!PyErr_Occurred() && (self->field_len != 0 ||
-- 
2.43.0


From a1727b6f7b445c40278e1989f87e34e328cb1fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 32/33] fix: NUL character in the data is no longer taken for
 an absent delimiter, quote or escape character

---
 src/abstraction.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/abstraction.c b/src/abstraction.c
index f252a57..3357bd5 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -15,13 +15,16 @@
 
 #include "Python.h"
 
+/* stands for an absent character, equal to no character of a string */
+#define NO_CHAR ((Py_UCS4) 0x110000)
+
 static int _set_char(const char *name, Py_UCS4 *target, PyObject *src, Py_UCS4 dflt)
 {
 	if (src == NULL) {
 		*target = dflt;
 		return 0;
 	}
-	*target = '\0';
+	*target = NO_CHAR;
 	if (src != Py_None) {
 		Py_ssize_t len;
 		if (!PyUnicode_Check(src)) {
@@ -67,9 +70,9 @@ PyObject *base_abstraction(PyObject *self,  PyObject *args)
 
 	if (_set_char("delimiter", &delimiter, delimiter_obj, ',') < 0)
 		return NULL;
-	if (_set_char("quotechar", &quotechar, quotechar_obj, 0) < 0)
+	if (_set_char("quotechar", &quotechar, quotechar_obj, NO_CHAR) < 0)
 		return NULL;
-	if (_set_char("escapechar", &escapechar, escapechar_obj, 0) < 0)
+	if (_set_char("escapechar", &escapechar, escapechar_obj, NO_CHAR) < 0)
 		return NULL;
 
 	if (PyUnicode_READY(S) == -1) {
-- 
2.43.0


From ecc161e0a8ad429bb36be25f268c5e584deec78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 33/33] fix: remove the page of the module clevercsv.method,
 which does not exist

---
 docs/source/clevercsv.rst | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/docs/source/clevercsv.rst b/docs/source/clevercsv.rst
index 0247c13..b33abe0 100644
--- a/docs/source/clevercsv.rst
+++ b/docs/source/clevercsv.rst
@@ -100,14 +100,6 @@ clevercsv.exceptions module
    :show-inheritance:
    :undoc-members:
 
-clevercsv.method module
------------------------
-
-.. automodule:: clevercsv.method
-   :members:
-   :show-inheritance:
-   :undoc-members:
-
 clevercsv.normal\_form module
 -----------------------------
 
-- 
2.43.0

