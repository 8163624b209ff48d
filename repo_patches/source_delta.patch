From ab9e8906374bf820c22fc6fd9ddb218413310c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 01/76] fix: lassoing encased xl-refs crashed on an unexpected
 'xl-ref' field

---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index 18a4017..ffd3c3e 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -477,7 +477,7 @@ def parse_xlref(xlref):
         else:
             if m:
                 res = _parse_xlref(m.group(2))
-                res["xl-ref"] = xlref
+                res["xl_ref"] = xlref
             else:
                 raise ex
 
-- 
2.43.0


From 8ab04bdf7ac251da0f017a0b6541f945fdb3613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 02/76] fix: overlay the opts of the xl-ref filters on the
 base-opts, not replace them

---
 pandalone/xleash/_lasso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index fc3a5d8..8f06a55 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -156,6 +156,8 @@ class Ranger(object):
         try:
             parsed_fields = _parse.parse_xlref(xlref)
             filled_fields = dtz.valfilter(lambda v: v is not None, parsed_fields)
+            if "opts" in filled_fields:
+                filled_fields["opts"] = init_lasso.opts.new_child(filled_fields["opts"])
             init_lasso = init_lasso._replace(**filled_fields)
         except SyntaxError:
             raise
-- 
2.43.0


From 3b6926d4b890c33a813d9bf930bef57bb37c1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 03/76] fix: SimpleSheetsFactory did not return the
 sibling-sheet fetched

---
 pandalone/xleash/io/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 632e534..3e44d22 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -78,7 +78,7 @@ class SimpleSheetsFactory(object):
             if sheet_id is None:
                 sheet = base_sheet
             else:
-                base_sheet.open_sibling_sheet(sheet_id)
+                sheet = base_sheet.open_sibling_sheet(sheet_id)
         else:
             url = utils.path2url(wb_url)
             sheet = self._open_sheet(url, sheet_id)
-- 
2.43.0


From fc78acf9702a680616e79bbc535aae70af6c37cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 04/76] fix: set_jsonpointer() with an empty pointer raises
 RefResolutionError as documented

---
 pandalone/pandata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ec3975c..aaddd56 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1266,6 +1266,8 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
     """
 
     parts = list(iter_jsonpointer_parts(jsonpointer))
+    if not parts:
+        raise RefResolutionError("Cannot set the whole document with an empty jsonpointer!")
 
     # Will scream if used on 1st iteration.
     #
-- 
2.43.0


From d385b665740b64b8012bfb06a91bce054ea21543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 05/76] fix: auto-defaults do not share the schema's mutable
 default values with models

---
 pandalone/pandata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index aaddd56..7f61015 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -19,6 +19,7 @@ import numbers
 import pickle
 import re
 from collections import namedtuple
+from copy import deepcopy
 from json.decoder import JSONDecoder
 from json.encoder import JSONEncoder
 from typing import Union
@@ -290,7 +291,7 @@ def _rule_auto_defaults_properties(
                 and _is_null(None, instance[property])
             )
         ):
-            instance[property] = subschema["default"]
+            instance[property] = deepcopy(subschema["default"])
         elif (
             first_defined(subschema.get("autoRemoveNull"), auto_remove_nulls)
             and not _is_null_in_type(subschema.get("type"))
-- 
2.43.0


From eb32b02916773448c2decacd6e55430422a7b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 06/76] fix: JSONCodec corrupted pickles with newline bytes

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 7f61015..43b507c 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1431,7 +1431,7 @@ class JSONCodec:
     class Encoder(JSONEncoder):
         def encode(self, o):
             pickle_bytes = pickle.dumps(o)
-            pickle_str = binascii.b2a_qp(pickle_bytes).decode(encoding="utf8")
+            pickle_str = binascii.b2a_qp(pickle_bytes, istext=False).decode(encoding="utf8")
             o = {JSONCodec._obj: pickle_str, JSONCodec._ver_key: JSONCodec._ver}
             return JSONEncoder.encode(self, o)
 
-- 
2.43.0


From 8cd867fc22dd79fceb651f35af4e766fc1addddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 07/76] fix: prefix (not suffix) long paths with UNC, and only
 on Windows

---
 pandalone/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 40f5252..13e1ab6 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -182,8 +182,8 @@ def urlpath2path(url):
     p = ur.url2pathname(url)
     if _is_dir_regex.search(url) and p[-1] != os.sep:
         p = p + osp.sep
-    if len(p) > 200:
-        p += _unc_prefix
+    if os.name == "nt" and len(p) > 200 and not p.startswith(_unc_prefix):
+        p = _unc_prefix + p
     return p
 
 
-- 
2.43.0


From ce693f830f84597488f8ab5adfc4a902214db41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 08/76] fix: make_unique_filename() ignored its filegen
 argument

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 13e1ab6..bded2c1 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -255,7 +255,7 @@ def generate_filenames(filename):
 
 
 def make_unique_filename(fname, filegen=generate_filenames):
-    fname_genor = generate_filenames(fname)
+    fname_genor = filegen(fname)
     fname = next(fname_genor)
     while os.path.exists(fname):
         fname = next(fname_genor)
-- 
2.43.0


From e64e0cae4e7747414e365b89fb52b97154f25308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 09/76] fix: redim filter stringized numbers & dates of
 mixed-type tables

---
 pandalone/xleash/_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 904bc6a..c3839b8 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -158,7 +158,7 @@ def _redim(values, new_ndim):
     if new_ndim is None:
         return values
 
-    values = np.asarray(values)
+    values = np.asarray(values, dtype=object)  # Preserve cell-types when mixed.
     try:
         new_ndim, transpose = new_ndim
         if transpose:
-- 
2.43.0


From e6ed29b68e2a65b69de370d909eb5160eb6ae6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 10/76] fix: redim filter crashed when dropping non-leading
 trivial dimensions

---
 pandalone/xleash/_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index c3839b8..8efbe81 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -112,8 +112,7 @@ def _downdim(values, new_ndim):
     elif offset == trivial_ndims:
         values = values.squeeze()
     else:
-        for _, indx in zip(range(offset), trivial_indxs):
-            values = values.squeeze(indx)
+        values = values.squeeze(tuple(trivial_indxs[:offset]))
 
     return values
 
-- 
2.43.0


From 46151a9cd23705e8417b05f276967d13b4b125fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 11/76] fix: verbose help of failed filters crashed for
 undocumented filters and on Python-3.11+

---
 pandalone/xleash/_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 8f06a55..2b4dc4f 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -31,8 +31,8 @@ log = logging.getLogger(__name__)
 
 
 def _build_call_help(name, func, desc):
-    sig = func and inspect.formatargspec(*inspect.getfullargspec(func))
-    desc = textwrap.indent(textwrap.dedent(desc), "    ")
+    sig = func and inspect.signature(func)
+    desc = textwrap.indent(textwrap.dedent(desc or ""), "    ")
     return "\n\nFilter: %s%s:\n%s" % (name, sig, desc)
 
 
-- 
2.43.0


From 4217993c45c3a8ce2508c2ee5474bc6bf6c599f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 12/76] fix: respect the 1904 date-system of workbooks

---
 pandalone/xleash/io/_xlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index df8548a..ceff3b4 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -139,7 +139,7 @@ def _open_sheet_by_name_or_index(xlrd_book, wb_id, sheet_id):
                 raise xl_ex from None
             else:
                 xl_sh = xlrd_book.sheet_by_index(sheet_id)
-    return XlrdSheet(xl_sh, wb_id)
+    return XlrdSheet(xl_sh, wb_id, epoch1904=bool(xlrd_book.datemode))
 
 
 class XlrdSheet(ABCSheet):
-- 
2.43.0


From 603d7db6c554a520c11ea1a35c4e0f831f1ba47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 13/76] fix: building a Pandel side-effected its submodels and
 defaulted over base values

---
 pandalone/pandata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 43b507c..9bb4d23 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -941,13 +941,14 @@ class Pandel(object):
         "Step-1"
         for (mdl, path_ops) in self._submodel_tuples:
             schema = self._get_json_schema(is_prevalidation=True)
-            for err in self._validate_json_model(schema, mdl):
+            # Validate a clone, because any auto-defaults modify it.
+            for err in self._validate_json_model(schema, deepcopy(mdl)):
                 yield err
 
     def _merge(self):
         "Step-2"
         for (mdl, path_ops) in self._submodel_tuples:
-            self.model = self._clone_and_merge_submodels(self.model, mdl)
+            self.model = self._clone_and_merge_submodels(self.model, deepcopy(mdl))
         if False:
             yield  # Just mark method as generator.
 
-- 
2.43.0


From e901f291f732012da30acebd850ac3ca69f15e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 14/76] fix: Pandel.get() returned always None

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 9bb4d23..cc177b1 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1043,7 +1043,7 @@ class Pandel(object):
         return self.model
 
     def get(self, path, **kws):
-        resolve_jsonpointer(self.model, path, **kws)
+        return resolve_jsonpointer(self.model, path, **kws)
 
 
 def escape_jsonpointer_part(part):
-- 
2.43.0


From 61488bdb005415e735b3ee09a85fdc53a7c5a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 15/76] fix: resolve_path() ignored empty root documents and
 failed on pandas ones

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index cc177b1..65042e9 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1233,7 +1233,7 @@ def resolve_path(doc, path, default=_scream, root=None):
 
     def resolve_root(d, p):
         if not p:
-            return root or doc
+            return doc if root is None else root
         raise ValueError()
 
     part_resolvers = [
-- 
2.43.0


From 487ec76ce37f421ee3db1a672ff1414306920541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 16/76] fix: obj2bool() failed on any truthy non-string

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index bded2c1..004e978 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -81,7 +81,7 @@ def obj2bool(v):
         >>> obj2bool(None) == obj2bool('') == obj2bool(0) == False
         True
     """
-    return bool(v) and str2bool(v)
+    return str2bool(v) if isinstance(v, str) else bool(v)
 
 
 def is_travis():  # pragma: no cover
-- 
2.43.0


From cd3bbb05d284d64809ec7ec9fa8a2954876726f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 17/76] fix: base-cell of recursive refs in list-values stuck
 on the top-left cell when pandas installed

---
 pandalone/xleash/_filter.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 8efbe81..89c9ebe 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -284,15 +284,16 @@ def run_filter_elementwise(
             try:
                 import pandas as pd
             except ImportError:
-                if cdepth == 0:
-                    row += i
-                elif cdepth == 1:
-                    col += +i
-            else:
-                if isinstance(elval, pd.DataFrame):
-                    col += i
-                elif isinstance(elval, pd.Series):
-                    row += i
+                pd = None
+
+            if pd and isinstance(elval, pd.DataFrame):
+                col += i
+            elif pd and isinstance(elval, pd.Series):
+                row += i
+            elif cdepth == 0:
+                row += i
+            elif cdepth == 1:
+                col += i
 
             return row, col
 
-- 
2.43.0


From 0faaf899f29ea09c691c35d55e0a234587d04554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 18/76] fix: encased xl-refs with a filter were rejected as
 having invalid JSON

---
 pandalone/xleash/_parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index ffd3c3e..3b53e2a 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -469,7 +469,8 @@ def parse_xlref(xlref):
     """
     try:
         res = _parse_xlref(xlref)
-    except SyntaxError as ex:
+    except (SyntaxError, ValueError) as ex:
+        # A closing delimiter following a filter makes it an invalid JSON.
         try:
             m = _encase_regex.match(xlref)
         except SyntaxError:
-- 
2.43.0


From c5082c936ea9168b8f5fb696946d2cac9846682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 19/76] fix: coords2Cell() crashed on 3-letter columns

---
 pandalone/xleash/_capture.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index 190ed8a..da700d2 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -22,14 +22,6 @@ from ._parse import Cell
 
 log = logging.getLogger(__name__)
 
-try:
-    from xlrd import colname as xl_colname
-
-    # TODO: Try different backends providing `colname` function.
-except ImportError:
-    log.warning("One of `xlrd`, `...` libraries is needed, will crash later!")
-
-
 CHECK_CELLTYPE = False
 """When `True`, most coord-functions accept any 2-tuples."""
 
@@ -50,6 +42,27 @@ _primitive_dir_vectors = {
 }
 
 
+def _num2col(col):
+    """
+    Converts zero-based column-numbers to Excel A1 columns, the inverse of :func:`_col2num()`.
+
+    Examples::
+
+        >>> _num2col(3)
+        'D'
+        >>> _num2col(727)
+        'AAZ'
+
+    """
+    letters = ""
+    col += 1
+    while col > 0:
+        col, idx = divmod(col - 1, 26)
+        letters = ascii_uppercase[idx] + letters
+
+    return letters
+
+
 def coords2Cell(row, col):
     """Make *A1* :class:`Cell` from *resolved* coords, with rudimentary error-checking.
 
@@ -74,7 +87,7 @@ def coords2Cell(row, col):
         row = str(row + 1)
     if col not in _special_coord_symbols:
         assert col >= 0, "negative col!"
-        col = xl_colname(col)
+        col = _num2col(col)
     return Cell(row=row, col=col)
 
 
-- 
2.43.0


From f2d3f963809f3d93fa18f6916463fa317d7a79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:40 +0000
Subject: [PATCH 20/76] fix: lax keyword of sub-filters was respected only for
 their first element

---
 pandalone/xleash/_lasso.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 2b4dc4f..4e03bb4 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -113,6 +113,7 @@ class Ranger(object):
         lasso = self._relasso(lasso, func_name)
 
         verbose = lasso.opts.get("verbose", False)
+        kwds = dict(kwds)  # The call-spec may be invoked again.
         lax = kwds.pop("lax", lasso.opts.get("lax", False))
         func, func_desc = "", ""
         try:
-- 
2.43.0


From a1c865cd53ab2142c6809c6e5fdb48803972beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:45 +0000
Subject: [PATCH 21/76] fix: verbose help of failed filters crashed for
 builtins without signature

---
 pandalone/xleash/_lasso.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 4e03bb4..490216a 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -31,7 +31,10 @@ log = logging.getLogger(__name__)
 
 
 def _build_call_help(name, func, desc):
-    sig = func and inspect.signature(func)
+    try:
+        sig = func and inspect.signature(func)
+    except (TypeError, ValueError):
+        sig = "(...)"  # Not a callable, or a builtin without a signature.
     desc = textwrap.indent(textwrap.dedent(desc or ""), "    ")
     return "\n\nFilter: %s%s:\n%s" % (name, sig, desc)
 
-- 
2.43.0


From ae4141e492c0f0eda9fc857f13ee0fb2ce3abd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:02 +0000
Subject: [PATCH 22/76] fix: a lax filter returning no lasso replaced the lasso
 with what it returned

---
 pandalone/xleash/_lasso.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 490216a..2ebcfb3 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -122,11 +122,12 @@ class Ranger(object):
         try:
             func_rec = self.available_filters[func_name]
             func, func_desc = parse_avail_func_rec(**func_rec)
-            lasso = func(self, lasso, *args, **kwds)
-            assert isinstance(lasso, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
+            res = func(self, lasso, *args, **kwds)
+            assert isinstance(res, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
                 func_name,
-                lasso,
+                res,
             )
+            lasso = res
         except Exception as ex:
             if verbose:
                 func_desc = _build_call_help(func_name, func, func_desc)
-- 
2.43.0


From f8a095a9fab43dd6bd2af9688e780777e21d76d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:45 +0000
Subject: [PATCH 23/76] fix: re-referencing a path-step with an empty name lost
 its children and tags

---
 pandalone/mappings.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index ddfe008..993c5fb 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1056,7 +1056,7 @@ class Pstep(str):
         attrs = None
         if pname is None:
             pname = ""
-        if maps:
+        if maps or isinstance(maps, Pstep):
             if isinstance(maps, (list, tuple, Pmod)):
                 if isinstance(maps, (list, tuple)):
                     maps = pmods_from_tuples(maps)
@@ -1096,7 +1096,8 @@ class Pstep(str):
                         pmod._alias = alias
                     else:
                         self._pmod = Pmod(_alias=alias)
-        csteps[ckey] = child = Pstep(ckey, existing_cstep or self._pmod, alias)
+        maps = self._pmod if existing_cstep is None else existing_cstep
+        csteps[ckey] = child = Pstep(ckey, maps, alias)
 
         return child
 
@@ -1108,7 +1109,8 @@ class Pstep(str):
                 raise
             csteps = self._csteps
             child = csteps and csteps.get(attr, None)
-            return child or self.__make_cstep(attr)
+            # Note that psteps may be empty strings.
+            return self.__make_cstep(attr) if child is None else child
 
     def __setattr__(self, attr, value):
         if attr.startswith("_"):
-- 
2.43.0


From 5be3f9e9a61d6a296a87f82b125f7345e0edfe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:55 +0000
Subject: [PATCH 24/76] fix: renaming a path-step by assignment overwrote the
 mapping of its parent for all sharing it

---
 pandalone/mappings.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 993c5fb..5d60715 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1088,14 +1088,6 @@ class Pstep(str):
         else:
             if existing_cstep is None:
                 existing_cstep = csteps.get(ckey, None)
-                # Update my mappings for `b` when ``self.b = "foo"``.
-                #
-                if alias is not None:
-                    pmod = self._pmod
-                    if pmod:
-                        pmod._alias = alias
-                    else:
-                        self._pmod = Pmod(_alias=alias)
         maps = self._pmod if existing_cstep is None else existing_cstep
         csteps[ckey] = child = Pstep(ckey, maps, alias)
 
-- 
2.43.0


From 49de6abc0304861fe723ff3825082d374faf81e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:07 +0000
Subject: [PATCH 25/76] fix: merging submodels split into items any texts above
 sequences, and bytes

---
 pandalone/pandata.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 65042e9..3fd285d 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -908,20 +908,25 @@ class Pandel(object):
                     val = b_val
                 a[key] = val
 
-        elif (isinstance(a, cabc.Sequence) and not isinstance(a, str)) or (
-            isinstance(b, cabc.Sequence) and not isinstance(b, str)
+        elif (isinstance(a, cabc.Sequence) and not isinstance(a, (str, bytes))) or (
+            isinstance(b, cabc.Sequence) and not isinstance(b, (str, bytes))
         ):
             if b is not None:
                 val = b
             else:
                 val = a
 
-            l = list()
-            for (i, item) in enumerate(val):
-                l.append(
-                    self._clone_and_merge_submodels(item, None, "%s[%i]" % (path, i))
-                )
-            a = l
+            if isinstance(val, (str, bytes)) or not isinstance(val, cabc.Sequence):
+                a = val  # A scalar overwrites the sequence.
+            else:
+                l = list()
+                for (i, item) in enumerate(val):
+                    l.append(
+                        self._clone_and_merge_submodels(
+                            item, None, "%s[%i]" % (path, i)
+                        )
+                    )
+                a = l
 
         elif a is None and b is None:
             raise ValidationError("Cannot merge Nones at path(%s)!" % path)
-- 
2.43.0


From 6fac5da808cae050946685a71345d40250680edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:11 +0000
Subject: [PATCH 26/76] fix: enum & const rules screamed for pandas & numpy
 instances, and enums took booleans as 0/1

---
 pandalone/pandata.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 3fd285d..6d28cbb 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -304,17 +304,38 @@ def _rule_auto_defaults_properties(
         yield error
 
 
+def _equals_plain(instance, value):
+    """Compare any pandas/numpy `instance` with a plain json `value` (booleans do not equal 0, 1)."""
+    if isinstance(value, dict):
+        return (
+            _is_object(None, instance)
+            and set(instance.keys()) == set(value)
+            and all(_equals_plain(instance[k], v) for k, v in value.items())
+        )
+    if isinstance(value, (list, tuple)):
+        return (
+            _is_array(None, instance)
+            and len(instance) == len(value)
+            and all(map(_equals_plain, instance, value))
+        )
+    if _is_object(None, instance) or _is_array(None, instance):
+        return False
+    if _is_bool(None, instance) != _is_bool(None, value):
+        return False
+    return instance == value
+
+
 def rule_enum(validator, enums, instance, schema):
     """Overridden to evade pandas-equals after Julian/jsonschema#575 fixed bool != 0,1 (v3.0.2)."""
-    unbool = jsonschema._utils.unbool
-    if instance is 0 or instance is 1:
-        unbooled = unbool(instance)
-        if all(unbooled != unbool(each) for each in enums):
-            yield ValidationError("%r is not one of %r" % (instance, enums))
-    elif instance not in enums:
+    if not any(_equals_plain(instance, each) for each in enums):
         yield ValidationError("%r is not one of %r" % (instance, enums))
 
 
+def _rule_const(validator, const, instance, schema):
+    if not _equals_plain(instance, const):
+        yield ValidationError("%r was expected" % (const,))
+
+
 def PandelVisitor(
     schema,
     resolver=None,
@@ -460,6 +481,8 @@ def PandelVisitor(
         rules["propertyNames"] = _rule_propertyNames
     if hasattr(jsonschema._utils, "unbool"):
         rules["enum"] = rule_enum  # fix pandas after jsonschema-3.0.2
+    if "const" in validator.VALIDATORS:
+        rules["const"] = _rule_const
 
     ValidatorClass = jsonschema.validators.extend(
         validator,
-- 
2.43.0


From 6e9c1d8ce075430bed344b258805c9733e06e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 27/76] fix: auto-defaults crashed on boolean sub-schemas
 (draft-6+)

---
 pandalone/pandata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 6d28cbb..e792888 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -278,6 +278,8 @@ def _rule_auto_defaults_properties(
         return
 
     for property, subschema in properties.items():
+        if isinstance(subschema, bool):
+            continue  # boolean-schemas (from draft-6) have no defaults.
         prop_given = property in instance
         if "default" in subschema and (
             (
-- 
2.43.0


From 9eedf5c2dd1204cb1c1e84775d1b67080a1112f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 28/76] fix: checking 1x1 tables for null screamed

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index e792888..5d2e6d5 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -179,7 +179,7 @@ def _is_null(checker, instance):
     #  see https://github.com/numpy/numpy/issues/9583
     #
     try:
-        return instance.size == 1 and np.isnan(instance).all()
+        return instance.size == 1 and np.isnan(np.asarray(instance)).all()
     except Exception:
         pass
 
-- 
2.43.0


From a66b43354cff8969bca9b93b852114058c35d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:23 +0000
Subject: [PATCH 29/76] fix: auto-default switches in schemas were ignored when
 all those of the validator were off

---
 pandalone/pandata.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 5d2e6d5..a6f02ee 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -470,15 +470,17 @@ def PandelVisitor(
     validator = jsonschema.validators.validator_for(schema)
     props_rule = validator.VALIDATORS["properties"]
 
-    rules = {"additionalProperties": _rule_additionalProperties}
-    if any((auto_default, auto_default_nulls, auto_remove_nulls)):
-        rules["properties"] = fnt.partial(
+    rules = {
+        "additionalProperties": _rule_additionalProperties,
+        # Always needed, schemas may enable auto-defaults by themselves.
+        "properties": fnt.partial(
             _rule_auto_defaults_properties,
             original_props_rule=props_rule,
             auto_default=auto_default,
             auto_default_nulls=auto_default_nulls,
             auto_remove_nulls=auto_remove_nulls,
-        )
+        ),
+    }
     if "propertyNames" in validator.VALIDATORS:
         rules["propertyNames"] = _rule_propertyNames
     if hasattr(jsonschema._utils, "unbool"):
-- 
2.43.0


From 01b0351580f3d7c76ddff114807d0112238ffaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 30/76] fix: only the numpy's own NaN object was null, any
 other python NaN was not

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index a6f02ee..ef5ed09 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -172,7 +172,7 @@ def _is_integer(checker, instance):
 
 
 def _is_null(checker, instance):
-    if instance is None or instance is float("nan") or instance is np.nan:
+    if instance is None or (isinstance(instance, float) and instance != instance):
         return True
 
     ## Handle np.arrays's future "bool" behavior.
-- 
2.43.0


From 9d40c3af36ebbaa3f7cf6b79cec65d10401640f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:32 +0000
Subject: [PATCH 31/76] fix: json.dump() (into files) ignored the JSONCodec
 pickling and failed

---
 pandalone/pandata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ef5ed09..b1e3fa5 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1463,10 +1463,13 @@ class JSONCodec:
 
     class Encoder(JSONEncoder):
         def encode(self, o):
+            return "".join(self.iterencode(o, _one_shot=True))
+
+        def iterencode(self, o, _one_shot=False):
             pickle_bytes = pickle.dumps(o)
             pickle_str = binascii.b2a_qp(pickle_bytes, istext=False).decode(encoding="utf8")
             o = {JSONCodec._obj: pickle_str, JSONCodec._ver_key: JSONCodec._ver}
-            return JSONEncoder.encode(self, o)
+            return JSONEncoder.iterencode(self, o, _one_shot)
 
     class Decoder(JSONDecoder):
         def decode(self, s):
-- 
2.43.0


From 12fd4049763f886c0eabfd1cc68d11417e76ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:37 +0000
Subject: [PATCH 32/76] fix: units in <> were refused if containing ')', and
 text after them was accepted

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index b1e3fa5..7d44a3e 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -45,7 +45,7 @@ _value_with_units_regex = re.compile(
                                             \]
                                             |
                                             <              # units enclosed in <>
-                                                [^)]*
+                                                [^>]*
                                             >
                                         )?                  # end parenthesized-units
                                         \s*$""",
-- 
2.43.0


From 20f779cf22560cc16e26126c1fba51fe60ef12b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:05 +0000
Subject: [PATCH 33/76] fix: ensure_file_ext() matched partial extensions,
 missed dotless & multi-dot ones and regex alternatives

---
 pandalone/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 004e978..f84acf9 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -313,13 +313,17 @@ def ensure_file_ext(fname, ext, *exts, is_regex=False):
     """
     _, file_ext = os.path.splitext(fname)
 
-    if is_regex:
+    def dotted(e):
+        return "." + e if e and e[0] != "." else e
+
+    # Not `file_ext`, to support multi-dot extensions, e.g. '.tar.gz'.
+    name = os.path.basename(fname).lstrip(".").lower()
+    plain_exts = (ext,) if is_regex else (ext,) + exts
+    ends_with_ext = any(name.endswith(dotted(e).lower()) for e in plain_exts)
+    if is_regex and not ends_with_ext:
         ends_with_ext = any(
-            re.match(e + "$", file_ext, re.IGNORECASE) for e in (re.escape(ext),) + exts
+            re.match("(?:%s)$" % e, file_ext, re.IGNORECASE) for e in exts
         )
-    else:
-        file_ext = file_ext.lower()
-        ends_with_ext = any(file_ext.endswith(e.lower()) for e in (ext,) + exts)
 
     if not ends_with_ext:
         if fname[-1] == ".":
-- 
2.43.0


From 482c982eae842c28b5138ce12e02b30b5c6bc452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:54 +0000
Subject: [PATCH 34/76] fix: ensure_dir_exists() ignored files created in the
 meantime and dangling links

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index f84acf9..ecbd3d2 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -349,7 +349,7 @@ def ensure_dir_exists(path, mode=0o755):
         try:
             os.makedirs(path, mode=mode)
         except OSError as e:
-            if e.errno != errno.EEXIST:
+            if e.errno != errno.EEXIST or not os.path.isdir(path):
                 raise
     elif not os.path.isdir(path):
         raise IOError("%r exists but is not a directory" % path)
-- 
2.43.0


From 652b95b9ffbba613825c0370f4e2984e1f0e7ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 35/76] fix: multiple trailing slashes were not preserved as a
 (single) last one

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index ecbd3d2..9b3bb81 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -130,7 +130,7 @@ def first_line(doc):
 
 
 _file_drive_regex = re.compile(r"^([a-z]):(/)?(.*)$", re.I)
-_is_dir_regex = re.compile(r"[^/\\][/\\]$")
+_is_dir_regex = re.compile(r"[^/\\][/\\]+$")
 _unc_prefix = "\\\\?\\"
 
 
-- 
2.43.0


From 2cb2569ab0da5c116ffd526b278c6db5ae97f7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 36/76] fix: path2url() suffixed remote urls without any path
 with '/.'

---
 pandalone/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 9b3bb81..e25e66a 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -239,7 +239,8 @@ def path2url(path, expandvars=False, expanduser=False):
         p = parts.path
         if parts.scheme == "file" and expanduser:
             p = osp.expanduser(p)
-        p = normpath(p).replace("\\", "/")
+        if p:
+            p = normpath(p).replace("\\", "/")
         path = up.urlunsplit(parts._replace(path=p))
 
     return path
-- 
2.43.0


From 9aeae4160e57f44e914e11125a272dfe374b98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:08 +0000
Subject: [PATCH 37/76] fix: path2url() never expanded the user's home, the
 path was made absolute before

---
 pandalone/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index e25e66a..1a915ca 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -210,6 +210,9 @@ def path2url(path, expandvars=False, expanduser=False):
     if path:
         if expandvars:
             path = osp.expandvars(path)
+        if expanduser:
+            # Before becoming absolute; remote URLs never start with '~'.
+            path = osp.expanduser(path)
 
         # Trim UNCs, urljoin() makes nonsense, path2urlpath() just fails.
         if path.startswith(_unc_prefix):
@@ -233,12 +236,8 @@ def path2url(path, expandvars=False, expanduser=False):
             baseurl = up.urljoin("file:", cwd)
             path = up.urljoin(baseurl, path)
 
-        # Expand vars, conditionally on remote or local URL.
-        #
         parts = up.urlsplit(path)
         p = parts.path
-        if parts.scheme == "file" and expanduser:
-            p = osp.expanduser(p)
         if p:
             p = normpath(p).replace("\\", "/")
         path = up.urlunsplit(parts._replace(path=p))
-- 
2.43.0


From 9fbee66f74357b8b3cfe22bada0fc90b45a23f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:26 +0000
Subject: [PATCH 38/76] fix: py_where() searched for '<prog>com' instead of
 '<prog>.com'

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 1a915ca..b1563e6 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -357,7 +357,7 @@ def ensure_dir_exists(path, mode=0o755):
 
 def py_where(program, path=None):
     # From: http://stackoverflow.com/a/377028/548792
-    winprog_exts = (".bat", "com", ".exe")
+    winprog_exts = (".bat", ".com", ".exe")
 
     def is_exec(fpath):
         return (
-- 
2.43.0


From c11681694f3601b3361317bdf25febeacda391be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:52 +0000
Subject: [PATCH 39/76] fix: merge base-opts given with the default ones, as
 documented

make_default_Ranger()/lasso() replaced all default opts with those given.
---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 2ebcfb3..c4875a3 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -315,7 +315,7 @@ def make_default_Ranger(sheets_factory=None, base_opts=None, available_filters=N
     """
     return Ranger(
         sheets_factory or backend.SheetsFactory(),
-        base_opts or get_default_opts(),
+        get_default_opts(base_opts),
         available_filters,
     )
 
-- 
2.43.0


From 027caa1bf869566f143904ddce2b0a7e7bbb7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:11 +0000
Subject: [PATCH 40/76] fix: read the content of remote workbooks before
 opening them

XlrdBackend passed the http-response instead of its bytes to xlrd.
---
 pandalone/xleash/io/_xlrd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index ceff3b4..18bd5ab 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -235,7 +235,7 @@ class XlrdBackend(ABCBackend):
         return book.sheet_names()
 
     def _open_book(self, url):
-        parts = filename = urlparse(url)
+        parts = urlparse(url)
         ropts = parts.params or {}
         if "logfile" not in ropts:
             ropts["logfile"] = utils.LoggerWriter(log, logging.DEBUG)
@@ -247,8 +247,8 @@ class XlrdBackend(ABCBackend):
             ropts.pop("on_demand", None)
             http_opts = ropts.get("http_opts", {})
             with request.urlopen(url, **http_opts) as response:
-                log.info("Opening book(%r)...", filename)
-                book = xlrd.open_workbook(filename, file_contents=response, **ropts)
+                log.info("Opening book(%r)...", url)
+                book = xlrd.open_workbook(url, file_contents=response.read(), **ropts)
 
         return book
 
-- 
2.43.0


From b22cfbb2303b823885b1b11dc6fb1e1721cc3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:35 +0000
Subject: [PATCH 41/76] fix: import the pandas internals from their current
 names

With pandas >= 1.0 the `df` & `sr` filters were never installed, because
`_fill_mi_header` & `_pop_header_name` have been renamed;
`_range2cols` (str `usecols`) was not imported at all.
---
 pandalone/xleash/_pandas_filters.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 3cd4caa..e9edeef 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -21,10 +21,22 @@ from pandas.io import parsers as pdparsers
 from . import installed_filters
 
 try:
-    from pandas.io.excel._util import _fill_mi_header, _pop_header_name
+    # pandas >= 1.0.0 (Jan 2020)
+    from pandas.io.excel._util import (
+        fill_mi_header as _fill_mi_header,
+        pop_header_name as _pop_header_name,
+        _range2cols,
+    )
 except ImportError:
-    # pandas < 0.25.0 (before summer 2019)
-    from pandas.io.excel import _fill_mi_header, _pop_header_name
+    try:
+        from pandas.io.excel._util import (
+            _fill_mi_header,
+            _pop_header_name,
+            _range2cols,
+        )
+    except ImportError:
+        # pandas < 0.25.0 (before summer 2019)
+        from pandas.io.excel import _fill_mi_header, _pop_header_name, _range2cols
 
 
 try:
-- 
2.43.0


From 588aef0a6d139ce6984993b923cdf03bd1797997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:35 +0000
Subject: [PATCH 42/76] fix: pass the keep_default_na arg of the df-filter to
 pandas

---
 pandalone/xleash/_pandas_filters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index e9edeef..faec613 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -220,6 +220,7 @@ def _df_filter(
             skiprows=skiprows,
             nrows=nrows,
             na_values=na_values,
+            keep_default_na=keep_default_na,
             parse_dates=parse_dates,
             thousands=thousands,
             comment=comment,
-- 
2.43.0


From ae1ec45b24d7143061713427f8b56d33fb459c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:35 +0000
Subject: [PATCH 43/76] fix: honour the nrows arg of the df-filter

---
 pandalone/xleash/_pandas_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index faec613..dacd699 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -230,7 +230,7 @@ def _df_filter(
             **kwds
         )
 
-        output = parser.read()
+        output = parser.read(nrows)
 
         if not squeeze or isinstance(output, pd.DataFrame):
             if header_names:
-- 
2.43.0


From b9444d0032888d8f2db615033c1c2db956e65190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:35 +0000
Subject: [PATCH 44/76] fix: let df-filter build multi-indexes from header-less
 tables

---
 pandalone/xleash/_pandas_filters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index dacd699..7b4a751 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -183,7 +183,9 @@ def _df_filter(
 
     if is_list_like(index_col):
         # forward fill values for MultiIndex index
-        if not is_list_like(header):
+        if header is None:
+            offset = 0
+        elif not is_list_like(header):
             offset = 1 + header
         else:
             offset = 1 + max(header)
-- 
2.43.0


From d065c8c419deb9a6fd45ff8e46b832ebb7696a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:35 +0000
Subject: [PATCH 45/76] fix: df-filter returned a bare frame, not a lasso, for
 empty captures

---
 pandalone/xleash/_pandas_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 7b4a751..93f7c16 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -154,7 +154,7 @@ def _df_filter(
         raise NotImplementedError("Cannot implement args: %s" % invalid_args)
 
     if not data:
-        return pd.DataFrame()
+        return lasso._replace(values=pd.DataFrame())
 
     usecols = _maybe_convert_usecols(usecols)
 
-- 
2.43.0


From 7a112286fd493d40f1e9352a95fe244bb4a5d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:35 +0000
Subject: [PATCH 46/76] fix: honour the squeeze arg of the df-filter with
 pandas >= 2.0

---
 pandalone/xleash/_pandas_filters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 93f7c16..0e60cf0 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -234,6 +234,10 @@ def _df_filter(
 
         output = parser.read(nrows)
 
+        if squeeze and isinstance(output, pd.DataFrame) and output.shape[1] == 1:
+            # Arg not supported by the parser since pandas-2.0.
+            output = output.squeeze("columns")
+
         if not squeeze or isinstance(output, pd.DataFrame):
             if header_names:
                 output.columns = output.columns.set_names(header_names)
-- 
2.43.0


From 0a16cca309f1bc50a4be835a6091ea082b29368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:47 +0000
Subject: [PATCH 47/76] fix: let df-filter keep the blank cells of
 single-column tables

---
 pandalone/xleash/_pandas_filters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 0e60cf0..7f96310 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -207,6 +207,9 @@ def _df_filter(
     # Pandaas expect '' instead of `None`!
     data = [["" if c is None else c for c in r] for r in data]
 
+    # GH 39808 : rows of empty cells are data.
+    kwds.setdefault("skip_blank_lines", False)
+
     # GH 12292 : error when read one empty column from excel file
     try:
         parser = pdparsers.TextParser(
-- 
2.43.0


From e3c03d8f584aa39b0a023ab3c6ef4162746d23f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:00 +0000
Subject: [PATCH 48/76] fix: df-filter failed on tables with multi-headers but
 no index starting with blanks

---
 pandalone/xleash/_pandas_filters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 7f96310..c6c0f65 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -202,7 +202,9 @@ def _df_filter(
                     else:
                         last = data[row][col]
 
-    has_index_names = is_list_like(header) and len(header) > 1
+    has_index_names = (
+        is_list_like(header) and len(header) > 1 and index_col is not None
+    )
 
     # Pandaas expect '' instead of `None`!
     data = [["" if c is None else c for c in r] for r in data]
-- 
2.43.0


From 619fbebb4a1e79d5ff7d3d94b5d56f819421eec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 49/76] fix: df-filter filled blank index-cells with the name
 of the index

---
 pandalone/xleash/_pandas_filters.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index c6c0f65..d7b295b 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -181,6 +181,10 @@ def _df_filter(
                 header_name, data[row] = _pop_header_name(data[row], index_col)
                 header_names.append(header_name)
 
+    has_index_names = (
+        is_list_like(header) and len(header) > 1 and index_col is not None
+    )
+
     if is_list_like(index_col):
         # forward fill values for MultiIndex index
         if header is None:
@@ -190,6 +194,12 @@ def _df_filter(
         else:
             offset = 1 + max(header)
 
+        # Do not fill from the row with the names of the index, if there.
+        if has_index_names and offset < len(data):
+            rest = [c for i, c in enumerate(data[offset]) if i not in index_col]
+            if all(c == "" or c is None for c in rest):
+                offset += 1
+
         # Check if we have an empty dataset
         # before trying to collect data.
         if offset < len(data):
@@ -202,10 +212,6 @@ def _df_filter(
                     else:
                         last = data[row][col]
 
-    has_index_names = (
-        is_list_like(header) and len(header) > 1 and index_col is not None
-    )
-
     # Pandaas expect '' instead of `None`!
     data = [["" if c is None else c for c in r] for r in data]
 
-- 
2.43.0


From 4a44e8fe8ffd47459c38420c0f5eeff86c97cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 50/76] fix: pstep_from_df() with rows without a name crashed

---
 pandalone/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 5d60715..7c9c2e0 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1320,7 +1320,7 @@ def pstep_from_df(columns_df, name_col="names"):
                 /B        bar        []
                 ========  =========  ===================
     """
-    p = pmods_from_tuples(zip(columns_df.index, columns_df[name_col])).step()
+    p = pmods_from_tuples(list(zip(columns_df.index, columns_df[name_col]))).step()
     cdf = columns_df.drop(name_col, axis=1, errors="ignore")
     attributes = cdf.columns
     for rows in cdf.itertuples():
-- 
2.43.0


From ec3db38324175a96ed0f0e78b8acc927103929b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 51/76] fix: pstep_from_df() ignored names and attributes of
 nested paths

---
 pandalone/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 7c9c2e0..5d99ad3 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1325,7 +1325,7 @@ def pstep_from_df(columns_df, name_col="names"):
     attributes = cdf.columns
     for rows in cdf.itertuples():
         path, *attr_values = rows
-        cstep = getattr(p, path[1:])
+        cstep = ft.reduce(getattr, path.split("/")[1:], p)
         for attr, aval in zip(attributes, attr_values):
             setattr(cstep, "_%s" % attr, aval)
 
-- 
2.43.0


From e018f3e814b3b6d28b3d1d762845b08832fe9184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:57 +0000
Subject: [PATCH 52/76] fix: --pandalone option of xlsutils found no VBA files

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 2358ab7..c3b2244 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -267,7 +267,7 @@ def main(*argv):
         if argv[1] == "--pandalone":
             mydir = os.path.dirname(__file__)
             argv = list(argv)
-            argv[1] = os.path.join(mydir, "*.vba")
+            argv[1] = os.path.join(mydir, "excel", "*.vba")
         elif argv[1].startswith("--"):
             exit(
                 "Unknown option(%s)! \n%s"
-- 
2.43.0


From 9cc9c734462a1959eb9d057df90b8684ea308d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:57 +0000
Subject: [PATCH 53/76] fix: removing many VBA modules by name skipped some of
 them

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index c3b2244..2795bcb 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -119,7 +119,7 @@ def _remove_vba_modules(xl_vbcs, *mod_names_to_del):
 
     # Comparisons are case-insensitive.
     if mod_names_to_del:
-        mod_names_to_del = map(str.lower, mod_names_to_del)
+        mod_names_to_del = [n.lower() for n in mod_names_to_del]
 
     # Gather all workbook vba-modules.
     xl_mods = [xl_vbc for xl_vbc in xl_vbcs if xl_vbc.Type == XL_TYPE_MODULE]
-- 
2.43.0


From 52d96ac427b323481e5fc8dd3c136e3d5a909804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:27 +0000
Subject: [PATCH 54/76] fix: build_all_jsonpaths() did not escape names of
 properties

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 7d44a3e..dd9624b 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1382,7 +1382,7 @@ def build_all_jsonpaths(schema):
         props = schema.get("properties")
         if props:
             for p, obj in props.items():
-                _visit(obj, path + "/" + p, paths)
+                _visit(obj, path + "/" + escape_jsonpointer_part(p), paths)
         else:
             paths.append(path)
 
-- 
2.43.0


From 2da9a594741bf0e1cabec27fa17e794fda731175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:31 +0000
Subject: [PATCH 55/76] fix: accept whole floats as integers, as drafts 6+ of
 json-schema do

---
 pandalone/pandata.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index dd9624b..2201327 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -470,6 +470,15 @@ def PandelVisitor(
     validator = jsonschema.validators.validator_for(schema)
     props_rule = validator.VALIDATORS["properties"]
 
+    def is_integer(checker, instance):
+        # Since draft-6, floats without fractional part are integers, too.
+        if isinstance(instance, np.floating):
+            instance = float(instance)
+        return _is_integer(checker, instance) or validator.TYPE_CHECKER.is_type(
+            instance, "integer"
+        )
+
+
     rules = {
         "additionalProperties": _rule_additionalProperties,
         # Always needed, schemas may enable auto-defaults by themselves.
@@ -494,7 +503,7 @@ def PandelVisitor(
             {
                 "array": _is_array,
                 "object": _is_object,
-                "integer": _is_integer,
+                "integer": is_integer,
                 "boolean": _is_bool,
                 "null": _is_null,
             }
-- 
2.43.0


From 5314b8986b1600ed9a366e4cbf49384617f1b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:31 +0000
Subject: [PATCH 56/76] fix: list also the json-paths of boolean sub-schemas

---
 pandalone/pandata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 2201327..875abd5 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1382,6 +1382,8 @@ def build_all_jsonpaths(schema):
     forks = ["oneOf", "anyOf", "allOf"]
 
     def _visit(schema, path, paths):
+        if isinstance(schema, bool):
+            schema = {}  # Boolean-schemas (from draft-6) have no properties.
         for f in forks:
             objlist = schema.get(f)
             if objlist:
-- 
2.43.0


From 5eced13e981b8f86a27379f4a0981a05d604fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:31 +0000
Subject: [PATCH 57/76] fix: renamed steps do not share their schema with the
 ones they replaced

---
 pandalone/mappings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 5d99ad3..7434bb3 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -883,6 +883,8 @@ def _clone_attrs(obj):
     ctags = attrs["_tags"]
     if ctags:
         attrs["_tags"] = attrs["_tags"].copy()
+    if "_schema" in attrs:
+        attrs["_schema"] = copy(attrs["_schema"])
     return attrs
 
 
-- 
2.43.0


From aba42bbf2dc74217632972b908fc1ab52372e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:31 +0000
Subject: [PATCH 58/76] fix: open http-workbooks with params in their urls

---
 pandalone/xleash/io/_xlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index 18bd5ab..66f0ed8 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -236,7 +236,7 @@ class XlrdBackend(ABCBackend):
 
     def _open_book(self, url):
         parts = urlparse(url)
-        ropts = parts.params or {}
+        ropts = {}  # No options in url-params, those belong to the server.
         if "logfile" not in ropts:
             ropts["logfile"] = utils.LoggerWriter(log, logging.DEBUG)
         if parts.scheme == "file":
-- 
2.43.0


From b770a1f84056cbdc43f56aa1d79e24b265e7115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:09 +0000
Subject: [PATCH 59/76] fix: characters folding to, or being digits like, those
 of coordinates are not xl-refs

---
 pandalone/xleash/_parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index 3b53e2a..aa9fec9 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -148,11 +148,11 @@ _regular_xlref_regex = re.compile(
     (?:                                                      # 1st-edge
         (?:
             (?:
-                (?P<st_col>[A-Z]+|[_^])                      # A1-col
-                (?P<st_row>[123456789]\d*|[_^])              # A1-row
+                (?P<st_col>(?a:[A-Z]+)|[_^])                 # A1-col
+                (?P<st_row>[123456789][0-9]*|[_^])           # A1-row
             ) | (?:
-                R(?P<st_row2>-?[123456789]\d*|[_^.])         # RC-row
-                C(?P<st_col2>-?[123456789]\d*|[_^.])         # RC-col
+                R(?P<st_row2>-?[123456789][0-9]*|[_^.])      # RC-row
+                C(?P<st_col2>-?[123456789][0-9]*|[_^.])      # RC-col
             )
         )
         (?:\(
@@ -165,11 +165,11 @@ _regular_xlref_regex = re.compile(
         (?:                                                  # 2nd-edge
             (?:                                              # target
                 (?:
-                    (?P<nd_col>[A-Z]+|[_^.])                 # A1-col
-                    (?P<nd_row>[123456789]\d*|[_^.])         # A1-row
+                    (?P<nd_col>(?a:[A-Z]+)|[_^.])            # A1-col
+                    (?P<nd_row>[123456789][0-9]*|[_^.])      # A1-row
                 ) | (?:
-                    R(?P<nd_row2>-?[123456789]\d*|[_^.])     # RC-row
-                    C(?P<nd_col2>-?[123456789]\d*|[_^.])     # RC-col
+                    R(?P<nd_row2>-?[123456789][0-9]*|[_^.])  # RC-row
+                    C(?P<nd_col2>-?[123456789][0-9]*|[_^.])  # RC-col
                 )
             )
             (?:\(
-- 
2.43.0


From 7dd1798f31601a6c830e9a47df72added5047b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:37 +0000
Subject: [PATCH 60/76] fix: the properties counted for a dataframe are its
 columns, not its rows

---
 pandalone/pandata.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 875abd5..226a865 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -245,6 +245,17 @@ def _rule_propertyNames(validator, propertyNames, instance, schema):
             yield error
 
 
+def _rule_minProperties(validator, mP, instance, schema):
+    ## Count `keys()`, because the length of a dataframe is that of its rows.
+    if validator.is_type(instance, "object") and len(instance.keys()) < mP:
+        yield ValidationError("%r does not have enough properties" % (instance,))
+
+
+def _rule_maxProperties(validator, mP, instance, schema):
+    if validator.is_type(instance, "object") and len(instance.keys()) > mP:
+        yield ValidationError("%r has too many properties" % (instance,))
+
+
 def _is_null_in_type(typ):
     if not typ:
         return False
@@ -492,6 +503,9 @@ def PandelVisitor(
     }
     if "propertyNames" in validator.VALIDATORS:
         rules["propertyNames"] = _rule_propertyNames
+    if "minProperties" in validator.VALIDATORS:
+        rules["minProperties"] = _rule_minProperties
+        rules["maxProperties"] = _rule_maxProperties
     if hasattr(jsonschema._utils, "unbool"):
         rules["enum"] = rule_enum  # fix pandas after jsonschema-3.0.2
     if "const" in validator.VALIDATORS:
-- 
2.43.0


From 3b40ed1b8d6261af18238d34cd1ad66d22249b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:23 +0000
Subject: [PATCH 61/76] fix: numpy and pandas items are compared for uniqueness
 like plain ones, instead of failing

---
 pandalone/pandata.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 226a865..31daa9e 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -338,6 +338,26 @@ def _equals_plain(instance, value):
     return instance == value
 
 
+def _to_plain(instance):
+    """Pandas and numpy items do not compare with ``==`` like plain ones."""
+    if isinstance(instance, (np.ndarray, np.generic)):
+        instance = instance.tolist()
+    if isinstance(instance, pd.DataFrame):
+        return {k: _to_plain(v.values) for k, v in instance.items()}
+    if _is_object(None, instance):
+        return {k: _to_plain(v) for k, v in instance.items()}
+    if _is_array(None, instance):
+        return [_to_plain(i) for i in instance]
+    return instance
+
+
+def _rule_uniqueItems(validator, uI, instance, schema, original_rule):
+    if uI and validator.is_type(instance, "array"):
+        plain = [_to_plain(i) for i in instance]
+        for _ in original_rule(validator, uI, plain, schema):
+            yield ValidationError("%r has non-unique elements" % (instance,))
+
+
 def rule_enum(validator, enums, instance, schema):
     """Overridden to evade pandas-equals after Julian/jsonschema#575 fixed bool != 0,1 (v3.0.2)."""
     if not any(_equals_plain(instance, each) for each in enums):
@@ -500,6 +520,9 @@ def PandelVisitor(
             auto_default_nulls=auto_default_nulls,
             auto_remove_nulls=auto_remove_nulls,
         ),
+        "uniqueItems": fnt.partial(
+            _rule_uniqueItems, original_rule=validator.VALIDATORS["uniqueItems"]
+        ),
     }
     if "propertyNames" in validator.VALIDATORS:
         rules["propertyNames"] = _rule_propertyNames
-- 
2.43.0


From 240c60733e44033feab3e164f010c1d9e20f0284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:32 +0000
Subject: [PATCH 62/76] fix: components whose paths start from the root have
 inputs and outputs, too

---
 pandalone/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/components.py b/pandalone/components.py
index b001d32..203a71c 100644
--- a/pandalone/components.py
+++ b/pandalone/components.py
@@ -197,7 +197,7 @@ class FuncComponent(Component):
         self._cfunc(self, *args, **kws)
 
     def _fetch_all_paths(self, pstep):
-        return pstep._paths() if pstep else []
+        return [] if pstep is None else pstep._paths()
 
     def pinp(self, path=None):
         """The suggested :class:`Pstep` for cfunc to use to access inputs."""
-- 
2.43.0


From a5d8ed2a747e1e4cdddefbbede9630a6efec5c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:04 +0000
Subject: [PATCH 63/76] fix: absolute paths resolve from the root also for
 documents with an empty key

---
 pandalone/pandata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 31daa9e..c5d3d74 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1320,7 +1320,10 @@ def resolve_path(doc, path, default=_scream, root=None):
         lambda d, p: getattr(d, p),
         resolve_root,
     ]
-    for part in iter_jsonpointer_parts_relaxed(path):
+    for i, part in enumerate(iter_jsonpointer_parts_relaxed(path)):
+        if i == 0 and not part:  # Absolute, even if `doc` has an empty key.
+            doc = resolve_root(doc, part)
+            continue
         start_i = 0 if isinstance(doc, cabc.Sequence) else 1
         for resolver in part_resolvers[start_i:]:
             try:
-- 
2.43.0


From 5fd0555dda6e57f43d95b46281cd197346507631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:11 +0000
Subject: [PATCH 64/76] fix: failing to resolve a lone edge raised TypeError
 while building the message of the ValueError

---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index c4875a3..3d9abc2 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -42,7 +42,7 @@ def _build_call_help(name, func, desc):
 def _Lasso_to_edges_str(lasso):
     st = lasso.st_edge if lasso.st_edge else ""
     nd = lasso.nd_edge if lasso.nd_edge else ""
-    s = st if st and not nd else "%s:%s" % (st, nd)
+    s = str(st) if st and not nd else "%s:%s" % (st, nd)
     exp = ":%s" % lasso.exp_moves.upper() if lasso.exp_moves else ""
     return s + exp
 
-- 
2.43.0


From 2b44e2760e4997628ff6fb4f427776ce50c9c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:57 +0000
Subject: [PATCH 65/76] fix: rows and columns counted back past the start of a
 sheet wrapped around to other cells, instead of failing

---
 pandalone/xleash/_capture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index da700d2..1b6d890 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -283,6 +283,8 @@ def _resolve_coord(cname, cfunc, coord, up_coord, dn_coord, base_coords=None):
             # Resolve negatives as from the end.
             if rcoord < 0:
                 rcoord = dn_coord + rcoord + 1
+                if rcoord < 0:  # Negatives are valid, but other, indices.
+                    raise ValueError("Coord lies before the start of the sheet!")
 
         return rcoord
     except Exception as ex:
-- 
2.43.0


From 2a550296463ea04c44d897f53bd5c2626cb18240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:52 +0000
Subject: [PATCH 66/76] fix: submodel branches of different kinds failed
 merging or were mixed up, instead of the upper one prevailing

---
 pandalone/pandata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index c5d3d74..3ab1487 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -953,6 +953,12 @@ class Pandel(object):
     def _clone_and_merge_submodels(self, a, b, path=""):
         """' Recursively merge b into a, cloning both. """
 
+        if b is not None and (
+            isinstance(a, cabc.Mapping) != isinstance(b, cabc.Mapping)
+            or (isinstance(a, NDFrame) and isinstance(b, NDFrame) and a.ndim != b.ndim)
+        ):
+            a = None  # Nothing to merge, the other kind is overridden as a whole.
+
         if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
             a = pd.DataFrame() if a is None else pd.DataFrame(a)
             b = pd.DataFrame() if b is None else pd.DataFrame(b)
-- 
2.43.0


From 3167aed4e62663039c3a633816403f74a9486bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:10 +0000
Subject: [PATCH 67/76] fix: merging tables lost the rows that only the upper
 one has

---
 pandalone/pandata.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 3ab1487..4b9ab2f 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -963,8 +963,13 @@ class Pandel(object):
             a = pd.DataFrame() if a is None else pd.DataFrame(a)
             b = pd.DataFrame() if b is None else pd.DataFrame(b)
 
-            a.update(b)  # , 'outer') NOT IMPL YET
-            extra_b_items = list(set(b.columns) - set(a.columns))
+            # An outer `update()`, which is NOT IMPL YET
+            extra_b_rows = ~b.index.isin(a.index)
+            if len(a.columns) and extra_b_rows.any():
+                common_items = [c for c in b.columns if c in a.columns]
+                a = pd.concat([a, b.loc[extra_b_rows, common_items]])
+            a.update(b)
+            extra_b_items = [c for c in b.columns if c not in a.columns]
             a[extra_b_items] = b[extra_b_items]
 
         elif isinstance(a, pd.Series) or isinstance(b, pd.Series):
-- 
2.43.0


From f3b4d8279a1347aafd628002454c5348dfb4918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:07 +0000
Subject: [PATCH 68/76] fix: element-wise filters mixed up the elements of
 Series and DataFrames with repeated labels

---
 pandalone/xleash/_filter.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 89c9ebe..3367de1 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -328,11 +328,21 @@ def run_filter_elementwise(
 
         return elval
 
+    def set_item(elval, i, k, v):
+        if hasattr(elval, "isetitem"):  # Labels of pandas may not be unique.
+            elval.isetitem(i, v)
+        elif hasattr(elval, "iat"):
+            elval.iat[i] = v
+        else:
+            elval[k] = v
+
     def dive_indexed(elval, cdepth, base_coords):
         if cdepth != depth:
             dived = False
             try:
                 items = elval.items()
+                if hasattr(elval, "isetitem"):
+                    items = [(k, v.copy()) for k, v in items]
             except:
                 pass  # Just to avoid chained ex.
             else:
@@ -340,7 +350,7 @@ def run_filter_elementwise(
                     # Dict is not ordered, so cannot locate `base_coords`!
                     if is_included(elval, k, cdepth):
                         nbc = upd_base_coords(elval, cdepth, base_coords, i)
-                        elval[k] = dive_indexed(v, cdepth + 1, nbc)
+                        set_item(elval, i, k, dive_indexed(v, cdepth + 1, nbc))
                 dived = True
             if not dived:
                 elval = dive_list(elval, cdepth, base_coords)
-- 
2.43.0


From c65350af2116bee9f68f870de4080ca29c39c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:01 +0000
Subject: [PATCH 69/76] fix: setting by a json-pointer with a negative index
 out of bounds appended to the list, instead of failing

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 4b9ab2f..80911fa 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1383,7 +1383,7 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
                         % (part, jsonpointer, i)
                     )
                 else:
-                    if part > doclen:
+                    if not -doclen <= part <= doclen:
                         raise RefResolutionError(
                             "Index(%s) out of bounds(%i) of (%r)[%i]"
                             % (part, doclen, jsonpointer, i)
-- 
2.43.0


From 5ca2394964da139c45f5e1986ca138ea3db060c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:27 +0000
Subject: [PATCH 70/76] fix: a sheet failing to close left itself served, and
 the other sheets of the factory open

---
 pandalone/xleash/io/backend.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 3e44d22..37251bd 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -183,18 +183,24 @@ class SheetsFactory(SimpleSheetsFactory):
     def _close_sheet(self, key):
         sheet = self._cache_get(key)
         if sheet:
-            sheet._close()
             for sh_dict in self._cached_sheets.values():
                 for sh_id, sh in list(sh_dict.items()):
                     if sh is sheet:
                         del sh_dict[sh_id]
+            sheet._close()
 
     def close(self):
         """Closes all contained sheets and empties cache."""
-        for sh_dict in self._cached_sheets.values():
+        cached_sheets, self._cached_sheets = self._cached_sheets, {}
+        error = None
+        for sh_dict in cached_sheets.values():
             for sh in sh_dict.values():
-                sh._close_all()
-        self._cached_sheets = {}
+                try:
+                    sh._close_all()
+                except Exception as ex:
+                    error = error or ex
+        if error:
+            raise error
 
     def add_sheet(self, sheet, wb_ids=None, sh_ids=None):
         """
-- 
2.43.0


From c075c089dfa2c086be2d20f8e489adadeb44ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:38 +0000
Subject: [PATCH 71/76] fix: the order of errors for additional properties
 changed from run to run

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 80911fa..c6dd1fc 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -210,7 +210,7 @@ def _rule_additionalProperties(validator, aP, instance, schema):
     if not validator.is_type(instance, "object"):
         return
 
-    extras = set(_find_additional_properties(instance, schema))
+    extras = list(dict.fromkeys(_find_additional_properties(instance, schema)))
 
     if validator.is_type(aP, "object"):
         for extra in extras:
-- 
2.43.0


From 2071cc2ee267f8f1a59906fb9b89c1a43f42de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:38 +0000
Subject: [PATCH 72/76] fix: the message for unsupported df-filter arguments
 changed from run to run

---
 pandalone/xleash/_pandas_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index d7b295b..562145b 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -151,7 +151,7 @@ def _df_filter(
         set("skip_footer chunksize date_parser converted".split()) & kwds.keys()
     )
     if bool(invalid_args):
-        raise NotImplementedError("Cannot implement args: %s" % invalid_args)
+        raise NotImplementedError("Cannot implement args: %s" % sorted(invalid_args))
 
     if not data:
         return lasso._replace(values=pd.DataFrame())
-- 
2.43.0


From 4199fdb1d594a32d0c903b7e36f5570d9d9dfefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:15 +0000
Subject: [PATCH 73/76] fix: pointers to number-like text labels of series
 resolved to items by position

---
 pandalone/pandata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index c6dd1fc..a484be9 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1265,7 +1265,9 @@ def resolve_jsonpointer(doc, jsonpointer, default=_scream):
     :author: Julian Berman, ankostis
     """
     for part in iter_jsonpointer_parts(jsonpointer):
-        if isinstance(doc, cabc.Sequence):
+        if isinstance(doc, cabc.Sequence) and not (
+            isinstance(doc, pd.Series) and part in doc.index
+        ):
             # Array indexes should be turned into integers
             try:
                 part = int(part)
-- 
2.43.0


From 67a452d83c08d985fe72f719c1538abaf3447b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:24 +0000
Subject: [PATCH 74/76] fix: release commits told only a part of the new
 version, if its first component changed (1.9-->0.0)

---
 bin/bumpver.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/bin/bumpver.py b/bin/bumpver.py
index edaba27..e52634a 100755
--- a/bin/bumpver.py
+++ b/bin/bumpver.py
@@ -86,11 +86,8 @@ def format_syscmd(cmd):
 def strip_ver2_commonprefix(ver1, ver2):
     cprefix = osp.commonprefix([ver1, ver2])
     if cprefix:
-        striplen = cprefix.rfind(".")
-        if striplen > 0:
-            striplen += 1
-        else:
-            striplen = len(cprefix)
+        # Only whole components, or `1.9-->10.0` would become `1.9-->0.0`.
+        striplen = cprefix.rfind(".") + 1
         ver2 = ver2[striplen:]
 
     return ver2
-- 
2.43.0


From 3097ebcab51d5daa08ff81e2cb4094ac724c2b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:24 +0000
Subject: [PATCH 75/76] fix: bumping the version converted the line endings of
 files

---
 bin/bumpver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/bumpver.py b/bin/bumpver.py
index e52634a..4eaa907 100755
--- a/bin/bumpver.py
+++ b/bin/bumpver.py
@@ -39,7 +39,7 @@ class CmdException(Exception):
 
 @fnt.lru_cache()
 def read_txtfile(fpath):
-    with open(fpath, "rt", encoding="utf-8") as fp:
+    with open(fpath, "rt", encoding="utf-8", newline="") as fp:
         return fp.read()
 
 
@@ -176,7 +176,7 @@ def bumpver(new_ver, dry_run=False, force=False, tag_after_commit=None):
             new_txt, fpath, replacements = repl
 
             if not dry_run:
-                with open(fpath, "wt", encoding="utf-8") as fp:
+                with open(fpath, "wt", encoding="utf-8", newline="") as fp:
                     fp.write(new_txt)
 
             yield "%s: " % fpath
-- 
2.43.0


From 47e96f690b487ce356fcdd9b7bc88c647ee2598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:17 +0000
Subject: [PATCH 76/76] fix: lists with nulls could not override others when
 merging submodels

---
 pandalone/pandata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index a484be9..953bc83 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1005,11 +1005,11 @@ class Pandel(object):
             else:
                 l = list()
                 for (i, item) in enumerate(val):
-                    l.append(
-                        self._clone_and_merge_submodels(
+                    if item is not None:  # Nulls are valid items.
+                        item = self._clone_and_merge_submodels(
                             item, None, "%s[%i]" % (path, i)
                         )
-                    )
+                    l.append(item)
                 a = l
 
         elif a is None and b is None:
-- 
2.43.0

