From 258571a8de64b66357579982e73d2639875ef66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:23 +0000
Subject: [PATCH 01/25] fix: keep item keys and paths consistent for negative
 and out-of-range array indices

JSON.insert, __setitem__ and __delitem__ (and with them pop) accept the index
range of a MutableSequence, but derived the keys of the items from the index
as given.
---
 jschon/json.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/jschon/json.py b/jschon/json.py
index 56ea542..3decdb7 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -189,6 +189,12 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
         if self.parent is not None:
             self.parent._invalidate_value()
 
+    def _renumber_items(self) -> None:
+        for i, item in enumerate(self.data):
+            if item.key != str(i):
+                item.key = str(i)
+                item._invalidate_path()
+
     def dumpf(self, path: Union[str, PathLike]) -> None:
         """Serialize the instance data to a JSON file.
 
@@ -238,6 +244,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array':
+            index = range(len(self.data))[index]
         self.data[index] = self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
@@ -254,9 +262,7 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
         del self.data[index]
         self._invalidate_value()
         if self.type == 'array':
-            for item in self.data[index:]:
-                item.key = str(int(item.key) - 1)
-                item._invalidate_path()
+            self._renumber_items()
 
     def insert(self, index: int, obj: Union[JSON, JSONCompatible]) -> None:
         """Insert `obj` before `index`.
@@ -270,9 +276,7 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
             **self.itemkwargs,
         ))
         self._invalidate_value()
-        for item in self.data[index + 1:]:
-            item.key = str(int(item.key) + 1)
-            item._invalidate_path()
+        self._renumber_items()
 
     def __eq__(self, other: Union[JSON, JSONCompatible]) -> bool:
         """Return `self == other`."""
-- 
2.43.0


From 5833d5ff1076bd720c7a4081e733f3861725be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 02/25] fix: require RFC 6901 array indices when a JSON pointer
 is evaluated on a JSON array

The index syntax was only checked for plain sequences; on JSON arrays '/-1'
referenced the last item, and '/-' and '/foo' raised ValueError.
---
 jschon/jsonpointer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index 0104b4e..48409f3 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -207,9 +207,9 @@ class JSONPointer(Sequence[str]):
                         not isjson and isinstance(value, Mapping):
                     return resolve(value[key], keys)
 
-                if isjson and value.type == "array" or \
-                        not isjson and isinstance(value, Sequence) and \
-                        not isinstance(value, str) and \
+                if (isjson and value.type == "array" or
+                    not isjson and isinstance(value, Sequence) and
+                    not isinstance(value, str)) and \
                         JSONPointer._array_index_re.fullmatch(key):
                     return resolve(value[int(key)], keys)
 
-- 
2.43.0


From b0263c238eee851c6cf32a7ba9703428e0f69242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 03/25] fix: read and write JSON files as UTF-8 whatever the
 locale

---
 jschon/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/utils.py b/jschon/utils.py
index adff27b..b1b3ea6 100644
--- a/jschon/utils.py
+++ b/jschon/utils.py
@@ -34,7 +34,7 @@ def tuplify(value: Any) -> Tuple:
 
 def json_dumpf(obj: Any, path: Union[str, PathLike]) -> None:
     """Serialize a JSON-compatible Python object to a JSON file."""
-    with open(path, 'w') as f:
+    with open(path, 'w', encoding='utf-8') as f:
         json.dump(obj, f, ensure_ascii=False, allow_nan=False, default=_serialize_custom_obj)
 
 
@@ -45,7 +45,7 @@ def json_dumps(obj: Any) -> str:
 
 def json_loadf(path: Union[str, PathLike]) -> Any:
     """Deserialize a JSON file, returning a JSON-compatible Python object."""
-    with open(path) as f:
+    with open(path, encoding='utf-8') as f:
         return json.load(f, parse_constant=_parse_invalid_const)
 
 
-- 
2.43.0


From 579719b27ada9ca090128ca01dcf6ab373dd8e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 04/25] fix: reject invalid array indices and scalar parents in
 JSON Patch with JSONPatchError

Indices such as '01', '+1' or '1_0' were accepted, and a target inside a
string, number, boolean or null raised AttributeError or AssertionError.
---
 jschon/json.py      | 2 ++
 jschon/jsonpatch.py | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/jschon/json.py b/jschon/json.py
index 3decdb7..d81bb59 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -360,6 +360,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         if target_parent.type == 'array':
             try:
+                if target_key != '-' and not JSONPointer._array_index_re.fullmatch(target_key):
+                    raise ValueError
                 if target_key == '-' or int(target_key) == len(target_parent):
                     target_index = len(target_parent)
                 elif 0 <= int(target_key) < len(target_parent):
diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 783cba8..5d07b53 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -205,8 +205,10 @@ class Node:
         except JSONPointerError as e:
             raise JSONPatchError(f'Expecting an array or object at {path[:-1]}') from e
 
-        if isinstance(parent, Sequence):
+        if isinstance(parent, Sequence) and not isinstance(parent, str):
             try:
+                if key != '-' and not JSONPointer._array_index_re.fullmatch(key):
+                    raise ValueError
                 if key == '-' or int(key) == len(parent):
                     self.type = NodeType.ARRAY_ITEM_NEW
                     self.index = len(parent)
@@ -224,7 +226,7 @@ class Node:
             self.index = key
 
         else:
-            assert False
+            raise JSONPatchError(f'Expecting an array or object at {path[:-1]}')
 
 
 def add(
-- 
2.43.0


From cbc7d93cf7397c11593dd2889a368cb4fba39d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:43 +0000
Subject: [PATCH 05/25] fix: reject a JSON Patch move into a child of the moved
 location (RFC 6902, section 4.4)

---
 jschon/jsonpatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 5d07b53..4572dac 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -293,6 +293,9 @@ def move(
         from_: JSONPointer,
 ) -> JSONCompatible:
     """Move the value at `from_` in `document` to `path`."""
+    if from_ < path:
+        raise JSONPatchError(f'Cannot move from {from_} into itself at {path}')
+
     try:
         value = from_.evaluate(document)
     except JSONPointerError as e:
-- 
2.43.0


From ad73f36493c235e01d986be7af8254eb904d488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:58 +0000
Subject: [PATCH 06/25] fix: refuse invalid parts of a relative JSON pointer as
 malformed, as documented

---
 jschon/jsonpointer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index 48409f3..a01e225 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -319,6 +319,9 @@ class RelativeJSONPointer:
             self.path = JSONPointer(ref) if ref != '#' else None
 
         else:
+            if up < 0 or not (isinstance(ref, JSONPointer) or ref == '#'):
+                raise cls.malformed_exc(f"up={up!r}, ref={ref!r}: not a valid relative JSON pointer")
+
             self.up = up
             self.over = over
             self.path = ref if isinstance(ref, JSONPointer) else None
-- 
2.43.0


From 98a31eb0cda78a45029031b804fa7db9276a9e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:31 +0000
Subject: [PATCH 07/25] fix: report an array index too long for int() as a
 failed JSON pointer reference

---
 jschon/jsonpointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index a01e225..ec4235c 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -213,7 +213,7 @@ class JSONPointer(Sequence[str]):
                         JSONPointer._array_index_re.fullmatch(key):
                     return resolve(value[int(key)], keys)
 
-            except (KeyError, IndexError):
+            except (KeyError, IndexError, ValueError):
                 pass
 
             raise self.reference_exc(f"Path '{self}' not found in document")
-- 
2.43.0


From 4cfdf27b6bfa34e0b3da02776101a30af7c677b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 08/25] fix: evaluate the integer type for numbers beyond the
 range of floats

int() raised OverflowError for an instance such as 1e999
---
 jschon/vocabulary/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 70b8e28..ecffa5d 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -38,7 +38,7 @@ class TypeKeyword(Keyword):
         if instance.type in types:
             valid = True
         elif instance.type == "number" and "integer" in types:
-            valid = instance.data == int(instance.data)
+            valid = instance.data % 1 == 0
         else:
             valid = False
 
-- 
2.43.0


From 49e1e029e030378f93ccb57c1b734410d2bc3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 09/25] fix: multipleOf rejected multiples beyond 28 digits

The decimal context's precision limits the quotient of a remainder operation
to 28 digits; fractions are exact.
---
 jschon/vocabulary/validation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index ecffa5d..a7cbab2 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -1,5 +1,5 @@
 import re
-from decimal import Decimal, InvalidOperation
+from fractions import Fraction
 
 from jschon.json import JSON
 from jschon.jsonschema import JSONSchema, Result
@@ -69,10 +69,10 @@ class MultipleOfKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         try:
-            if Decimal(f'{instance.data}') % Decimal(f'{self.json.data}') != 0:
+            if Fraction(f'{instance.data}') % Fraction(f'{self.json.data}') != 0:
                 result.fail(f"The value must be a multiple of {self.json}")
-        except InvalidOperation:
-            result.fail(f"Invalid operation: {instance} % {self.json}")
+        except (ValueError, ZeroDivisionError):
+            result.fail(f"Invalid operation: {instance.data} % {self.json.data}")
 
 
 class MaximumKeyword(Keyword):
-- 
2.43.0


From 09e36b977c263975356533f6ef93456d4b57971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 10/25] fix: "items": true evaluates all items in draft 2019-09

Without the annotation, unevaluatedItems took every item for unevaluated.
---
 jschon/vocabulary/legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index b6ef3c3..8981a9e 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -63,6 +63,8 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
 
         elif isinstance(self.json.data, bool):
             self.json.evaluate(instance, result)
+            if result.passed:
+                result.annotate(True)
 
         elif isinstance(self.json, JSONSchema):
             for index, item in enumerate(instance):
-- 
2.43.0


From 3cbdcb2aafc827824673ddef2b6dc3b6d4200e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 11/25] fix: keep a non-schema value of an applicator keyword
 as plain JSON

The abstract SubschemaMixin.jsonify was called for values that no mixin
accepts, so that e.g. {"not": 5} raised NotImplementedError instead of
failing validation against the metaschema.
---
 jschon/vocabulary/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 98d346b..bc207c7 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -140,7 +140,7 @@ class Keyword:
 
     def __init__(self, parentschema: JSONSchema, value: JSONCompatible):
         for base_cls in inspect.getmro(self.__class__):
-            if issubclass(base_cls, SubschemaMixin):
+            if issubclass(base_cls, SubschemaMixin) and base_cls is not SubschemaMixin:
                 if (kwjson := base_cls.jsonify(parentschema, self.key, value)) is not None:
                     break
         else:
-- 
2.43.0


From 5b1f49f024b98b30d8c4c7454a037e3ba82da34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 12/25] fix: annotations of a failed subschema survived in
 "not" and "contains"

unevaluatedProperties and unevaluatedItems took what the failed subschema
of a passing "not" had annotated for evaluated, and the output listed the
annotations of items that do not match "contains".
---
 jschon/jsonschema.py            | 16 ++++++++++++++++
 jschon/vocabulary/applicator.py |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 894d5df..fa53144 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -466,6 +466,22 @@ class Result:
         self._valid = True
         self.error = None
 
+    def drop_annotations(self, schema: JSONSchema, instance: JSON) -> None:
+        """Drop the annotations produced within this node by the evaluation
+        of `instance` against `schema`.
+
+        This should be called by a keyword that passes although the
+        evaluation of its subschema has failed.
+        """
+        def drop(node: Result) -> None:
+            node.annotation = None
+            for child in node.children.values():
+                drop(child)
+
+        for key in schema.keywords:
+            if (node := self.children.get((key, instance.path))) is not None:
+                drop(node)
+
     def noassert(self) -> None:
         """Indicate that evaluation passes regardless of validity."""
         self._assert = False
diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index b128109..f15271b 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -84,6 +84,7 @@ class NotKeyword(Keyword, Subschema):
             result.fail('The instance must not be valid against the subschema')
         else:
             result.pass_()
+            result.drop_annotations(self.json, instance)
 
 
 class IfKeyword(Keyword, Subschema):
@@ -256,6 +257,7 @@ class ContainsKeyword(Keyword, Subschema):
                 annotation += [index]
             else:
                 result.pass_()
+                result.drop_annotations(self.json, item)
 
         result.annotate(annotation)
         if not annotation:
-- 
2.43.0


From 407feeeeae15ec626044f05433eaccabd10fc3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 13/25] fix: draft 2019-09 "items" let one invalid item affect
 the items after it

The shared result was not reset to passed, so that unevaluatedProperties and
unevaluatedItems in later items ignored all annotations and reported errors
for valid items.
---
 jschon/vocabulary/legacy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index 8981a9e..8e5bffa 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -67,10 +67,16 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
                 result.annotate(True)
 
         elif isinstance(self.json, JSONSchema):
+            error = []
             for index, item in enumerate(instance):
-                self.json.evaluate(item, result)
+                if not self.json.evaluate(item, result).passed:
+                    error += [index]
+                    # reset to passed for the next iteration
+                    result.pass_()
 
-            if result.passed:
+            if error:
+                result.fail(error)
+            else:
                 result.annotate(True)
 
         elif self.json.type == "array":
-- 
2.43.0


From 6ccbed2c5c1db6871cfa0b049f45fc1d8622e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 14/25] fix: "$dynamicRef" to a boolean schema raised TypeError

---
 jschon/vocabulary/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index bd222e0..3a20d06 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -139,7 +139,8 @@ class DynamicRefKeyword(Keyword):
         self.refschema = self.parentschema.catalog.get_schema(
             uri, metaschema_uri=self.parentschema.metaschema_uri, cacheid=self.parentschema.cacheid
         )
-        if (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
+        if self.refschema.type == "object" and \
+                (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
             self.dynamic = True
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-- 
2.43.0


From b144c4fa8dabe1ee5c2c3bd93919e4d163f1daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 15/25] fix: annotation filtering of the basic output left out
 errors

---
 jschon/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/output.py b/jschon/output.py
index 7f828c5..2268328 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -48,7 +48,7 @@ def basic(result: Result, annotations: Iterable[str] = None) -> JSONCompatible:
     def visit(node: Result):
         if node.valid is valid:
             if (
-                    (annotations is None or node.key in annotations) and
+                    (not valid or annotations is None or node.key in annotations) and
                     (msgval := getattr(node, msgkey)) is not None
             ):
                 yield {
-- 
2.43.0


From 0d35b808a4f63f86508f41e545eeb35b04c29ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 16/25] fix: hierarchical output left out everything below a
 reference

---
 jschon/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/output.py b/jschon/output.py
index 2268328..98cdb20 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -129,7 +129,7 @@ def verbose(result: Result) -> JSONCompatible:
 @output_formatter('hierarchical')
 def hierarchical(result: Result) -> JSONCompatible:
     def visit(node: Result):
-        if isinstance(node.schema_node, JSONSchema):
+        if node._refschema is not None or isinstance(node.schema_node, JSONSchema):
             output = {
                 "valid": (valid := node.valid),
                 "evaluationPath": str(node.path),
-- 
2.43.0


From 2bbcac9395d859caac3ca3f017d6013fcdf9c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 17/25] fix: invalid metaschema without "$schema" raised
 KeyError

---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 3d6cf5e..0f4cd4d 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -233,7 +233,7 @@ class Catalog:
         if not metaschema.validate().valid:
             raise CatalogError(
                 "The metaschema is invalid against its own metaschema "
-                f'"{metaschema_doc["$schema"]}"'
+                f'"{metaschema.metaschema_uri}"'
             )
         return metaschema
 
-- 
2.43.0


From c8b5348478e75fb81db02ac900ce15c47f3d8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 18/25] fix: an invalid metaschema was found in the cache when
 looked up again

---
 jschon/catalog/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 0f4cd4d..8198f9b 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -231,6 +231,7 @@ class Catalog:
             uri=uri,
         )
         if not metaschema.validate().valid:
+            self.del_schema(metaschema.uri, cacheid=metaschema.cacheid)
             raise CatalogError(
                 "The metaschema is invalid against its own metaschema "
                 f'"{metaschema.metaschema_uri}"'
-- 
2.43.0


From 2b1e6eff7a0d7a4373b5c15fe8d5949d97c34afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 19/25] fix: get_schema failed with TypeError for a document
 that is no schema, and returned half-built schemas from the cache

---
 jschon/catalog/__init__.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 8198f9b..b8e43a3 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -5,7 +5,7 @@ import uuid
 from contextlib import contextmanager
 from importlib import import_module
 from os import PathLike
-from typing import Any, ContextManager, Dict, Hashable, Set, Union
+from typing import Any, ContextManager, Dict, Hashable, Mapping, Set, Union
 
 from jschon.exc import CatalogError, JSONPointerError, URIError
 from jschon.json import JSONCompatible
@@ -344,13 +344,19 @@ class Catalog:
 
         if schema is None:
             doc = self.load_json(base_uri)
-            schema = JSONSchema(
-                doc,
-                catalog=self,
-                cacheid=cacheid,
-                uri=base_uri,
-                metaschema_uri=metaschema_uri,
-            )
+            if not isinstance(doc, (bool, Mapping)):
+                raise CatalogError(f"The object referenced by {base_uri} is not a JSON Schema")
+            try:
+                schema = JSONSchema(
+                    doc,
+                    catalog=self,
+                    cacheid=cacheid,
+                    uri=base_uri,
+                    metaschema_uri=metaschema_uri,
+                )
+            except Exception:
+                self.del_schema(base_uri, cacheid=cacheid)
+                raise
             try:
                 return self._schema_cache[cacheid][uri]
             except KeyError:
-- 
2.43.0


From 7601da685593ab328abf2abd9b0bda81eb504599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 20/25] fix: LocalSource read files outside its base directory

---
 jschon/catalog/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index b8e43a3..275debb 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -37,6 +37,10 @@ class LocalSource(Source):
         self.base_dir = base_dir
 
     def __call__(self, relative_path: str) -> JSONCompatible:
+        path = pathlib.PurePath(relative_path)
+        if path.is_absolute() or '..' in path.parts:
+            raise CatalogError(f'{relative_path!r} is not a path within {str(self.base_dir)!r}')
+
         filepath = pathlib.Path(self.base_dir) / relative_path
         if self.suffix:
             filepath = str(filepath)
-- 
2.43.0


From 8af29146d99665a0716c5e8957c0a2eb8db5cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 21/25] fix: unknown keywords whose name cannot be part of a
 class name raised errors

---
 jschon/vocabulary/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index bc207c7..c7ed00d 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -100,7 +100,7 @@ class Metaschema(JSONSchema):
             return self.kwclasses[key]
         except KeyError:
             unknown_class = type(
-                f'UnknownKeyword{key[0].upper() + key[1:]}',
+                'UnknownKeyword',
                 (_UnknownKeyword,),
                 dict(key=key),
             )
-- 
2.43.0


From a82caf4bfd4150b7062958c784f9110e08be891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 22/25] fix: equal URIs had different hashes

---
 jschon/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index 7c46f46..ae7b0eb 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -26,7 +26,7 @@ class URI:
         return len(str(self))
 
     def __hash__(self) -> int:
-        return hash(self._uriref)
+        return hash(self._uriref.normalize())
 
     def __eq__(self, other) -> bool:
         if isinstance(other, URI):
-- 
2.43.0


From 5c3a7098dcf0364c3010e96ade1c3d487e0b63c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 23/25] fix: an unusable base URI raised an undocumented error
 from the URI library

---
 jschon/uri.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index ae7b0eb..e43786c 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -62,9 +62,15 @@ class URI:
         return self.copy(fragment=False).is_absolute()
 
     def resolve(self, base_uri: URI) -> URI:
-        """Produce a new URI by resolving self against the given base URI."""
+        """Produce a new URI by resolving self against the given base URI.
+
+        :raise URIError: if `base_uri` cannot serve as a base
+        """
         uri = object.__new__(URI)
-        uri._uriref = self._uriref.resolve_with(base_uri._uriref)
+        try:
+            uri._uriref = self._uriref.resolve_with(base_uri._uriref)
+        except rfc3986.exceptions.ResolutionError as e:
+            raise URIError(f"'{base_uri}' is not an absolute URI") from e
         return uri
 
     def copy(
-- 
2.43.0


From 496b16ec56816a4b066dc4e2cb07706deb2bef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 24/25] fix: an unknown version no longer replaces a catalog by
 an empty one

---
 jschon/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jschon/__init__.py b/jschon/__init__.py
index 2dec870..f6fee15 100644
--- a/jschon/__init__.py
+++ b/jschon/__init__.py
@@ -35,19 +35,18 @@ def create_catalog(*versions: str, name: str = 'catalog') -> Catalog:
     """
     from .catalog import _2019_09, _2020_12, _next
 
-    catalog = Catalog(name=name)
-
     version_initializers = {
         '2019-09': _2019_09.initialize,
         '2020-12': _2020_12.initialize,
         'next': _next.initialize,
     }
     try:
-        for version in versions:
-            version_init = version_initializers[version]
-            version_init(catalog)
-
+        initializers = [version_initializers[version] for version in versions]
     except KeyError as e:
         raise ValueError(f'Unrecognized version {e.args[0]!r}')
 
+    catalog = Catalog(name=name)
+    for version_init in initializers:
+        version_init(catalog)
+
     return catalog
-- 
2.43.0


From f5a398b43af252fd6ecd8f4d29febb2878d4e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 25/25] fix: $dynamicRef counts the outermost entry of a
 resource that is entered again

---
 jschon/vocabulary/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index 3a20d06..9e56bd1 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -148,11 +148,13 @@ class DynamicRefKeyword(Keyword):
 
         if self.dynamic:
             target = result
-            checked_uris = set()
+            prev_base_uri = None
 
             while target is not None:
-                if (base_uri := target.schema.base_uri) is not None and base_uri not in checked_uris:
-                    checked_uris |= {base_uri}
+                # skip only consecutive nodes of a resource: one that has been left
+                # may be entered again, and it is its outermost entry that counts
+                if (base_uri := target.schema.base_uri) is not None and base_uri != prev_base_uri:
+                    prev_base_uri = base_uri
                     target_uri = URI(f"#{self.fragment}").resolve(base_uri)
                     try:
                         found_schema = self.parentschema.catalog.get_schema(
-- 
2.43.0

