From cc4e03880e6d46e5e5b48ee87c82c023cba42870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 01/38] fix: apply RFC 6901 array index syntax when evaluating
 a pointer against JSON arrays

---
 jschon/jsonpointer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index 0104b4e..8a4bfac 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -207,13 +207,13 @@ class JSONPointer(Sequence[str]):
                         not isjson and isinstance(value, Mapping):
                     return resolve(value[key], keys)
 
-                if isjson and value.type == "array" or \
-                        not isjson and isinstance(value, Sequence) and \
-                        not isinstance(value, str) and \
+                if (isjson and value.type == "array" or
+                    not isjson and isinstance(value, Sequence) and
+                    not isinstance(value, str)) and \
                         JSONPointer._array_index_re.fullmatch(key):
                     return resolve(value[int(key)], keys)
 
-            except (KeyError, IndexError):
+            except (KeyError, IndexError, ValueError):
                 pass
 
             raise self.reference_exc(f"Path '{self}' not found in document")
-- 
2.43.0


From ff9273ccda95faa8220b2d2d21d91ad81fd4eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 02/38] fix: keep JSON array item keys correct for negative and
 out-of-range indices

---
 jschon/json.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index 56ea542..b2d1e1f 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -238,6 +238,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array':
+            index = range(len(self.data))[index]
         self.data[index] = self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
@@ -251,6 +253,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array':
+            index = range(len(self.data))[index]
         del self.data[index]
         self._invalidate_value()
         if self.type == 'array':
@@ -263,6 +267,7 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON type ``array``.
         """
+        index, _, _ = slice(index, None).indices(len(self.data))
         self.data.insert(index, self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
-- 
2.43.0


From bb0f2d1acb50a43eac6814368bb8729dd7a140e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 03/38] fix: make JSON.clear work on objects

---
 jschon/json.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index b2d1e1f..8f491d3 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -279,6 +279,16 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
             item.key = str(int(item.key) + 1)
             item._invalidate_path()
 
+    def clear(self) -> None:
+        """Remove all items.
+
+        Supported for JSON types ``array`` and ``object``.
+        """
+        if self.type == 'object':
+            MutableMapping.clear(self)
+        else:
+            MutableSequence.clear(self)
+
     def __eq__(self, other: Union[JSON, JSONCompatible]) -> bool:
         """Return `self == other`."""
         if not isinstance(other, JSON):
-- 
2.43.0


From a078c7600fb43721a91448fba95209a4b1163433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 04/38] fix: apply RFC 6901 array index syntax in JSON Patch
 operations

---
 jschon/json.py      | 2 ++
 jschon/jsonpatch.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index 8f491d3..085dac5 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -371,6 +371,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         if target_parent.type == 'array':
             try:
+                if target_key != '-' and not JSONPointer._array_index_re.fullmatch(target_key):
+                    raise ValueError
                 if target_key == '-' or int(target_key) == len(target_parent):
                     target_index = len(target_parent)
                 elif 0 <= int(target_key) < len(target_parent):
diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 783cba8..55e1d2f 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -207,6 +207,8 @@ class Node:
 
         if isinstance(parent, Sequence):
             try:
+                if key != '-' and not JSONPointer._array_index_re.fullmatch(key):
+                    raise ValueError
                 if key == '-' or int(key) == len(parent):
                     self.type = NodeType.ARRAY_ITEM_NEW
                     self.index = len(parent)
-- 
2.43.0


From d66002c62ed1654557236fba9d9c826d79827708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 05/38] fix: raise JSONPatchError when a patch target's parent
 is not an array or object

---
 jschon/jsonpatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 55e1d2f..5d07b53 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -205,7 +205,7 @@ class Node:
         except JSONPointerError as e:
             raise JSONPatchError(f'Expecting an array or object at {path[:-1]}') from e
 
-        if isinstance(parent, Sequence):
+        if isinstance(parent, Sequence) and not isinstance(parent, str):
             try:
                 if key != '-' and not JSONPointer._array_index_re.fullmatch(key):
                     raise ValueError
@@ -226,7 +226,7 @@ class Node:
             self.index = key
 
         else:
-            assert False
+            raise JSONPatchError(f'Expecting an array or object at {path[:-1]}')
 
 
 def add(
-- 
2.43.0


From ea71c37256dc793f0b744ae6be8bb24e5d046965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 06/38] fix: reject a JSON Patch move of a value into its own
 descendant

---
 jschon/jsonpatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 5d07b53..d5744aa 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -293,6 +293,9 @@ def move(
         from_: JSONPointer,
 ) -> JSONCompatible:
     """Move the value at `from_` in `document` to `path`."""
+    if from_ < path:
+        raise JSONPatchError(f'Cannot move {from_} into its own descendant {path}')
+
     try:
         value = from_.evaluate(document)
     except JSONPointerError as e:
-- 
2.43.0


From 04422fc1af25197e1475b51ffe7914034e1ed004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 07/38] fix: evaluate multipleOf exactly for quotients beyond
 decimal context precision

---
 jschon/vocabulary/validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 70b8e28..2f06dc6 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -1,5 +1,5 @@
 import re
-from decimal import Decimal, InvalidOperation
+from fractions import Fraction
 
 from jschon.json import JSON
 from jschon.jsonschema import JSONSchema, Result
@@ -69,9 +69,9 @@ class MultipleOfKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         try:
-            if Decimal(f'{instance.data}') % Decimal(f'{self.json.data}') != 0:
+            if Fraction(f'{instance.data}') % Fraction(f'{self.json.data}') != 0:
                 result.fail(f"The value must be a multiple of {self.json}")
-        except InvalidOperation:
+        except (ValueError, ZeroDivisionError):
             result.fail(f"Invalid operation: {instance} % {self.json}")
 
 
-- 
2.43.0


From bc665c626563779fce3dcb6674fcf7bcc8e7b189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 08/38] fix: do not raise OverflowError when checking an
 infinite number for type integer

---
 jschon/vocabulary/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 2f06dc6..4c7e02d 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -38,7 +38,7 @@ class TypeKeyword(Keyword):
         if instance.type in types:
             valid = True
         elif instance.type == "number" and "integer" in types:
-            valid = instance.data == int(instance.data)
+            valid = isinstance(instance.data, int) or instance.data.is_integer()
         else:
             valid = False
 
-- 
2.43.0


From 354af605e6f183431f9e41ecf1f47a03b14f7c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 09/38] fix: accept any string as the name of an unknown
 keyword

---
 jschon/vocabulary/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 98d346b..57e41c8 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -100,7 +100,7 @@ class Metaschema(JSONSchema):
             return self.kwclasses[key]
         except KeyError:
             unknown_class = type(
-                f'UnknownKeyword{key[0].upper() + key[1:]}',
+                f'UnknownKeyword{ascii(key[:1].upper() + key[1:])[1:-1]}',
                 (_UnknownKeyword,),
                 dict(key=key),
             )
-- 
2.43.0


From d7fe911eaac5aa552943fbf0c461843ce6f81289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 10/38] fix: allow $dynamicRef to reference a boolean schema

---
 jschon/vocabulary/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index bd222e0..340214e 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -139,7 +139,9 @@ class DynamicRefKeyword(Keyword):
         self.refschema = self.parentschema.catalog.get_schema(
             uri, metaschema_uri=self.parentschema.metaschema_uri, cacheid=self.parentschema.cacheid
         )
-        if (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
+        if self.refschema.type == "object" and \
+                (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and \
+                dynamic_anchor.data == self.fragment:
             self.dynamic = True
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-- 
2.43.0


From f6fa4440c835fc8e80d09d5cef6f9763ee03967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 11/38] fix: make URI hash consistent with URI equality

---
 jschon/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index 7c46f46..ae7b0eb 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -26,7 +26,7 @@ class URI:
         return len(str(self))
 
     def __hash__(self) -> int:
-        return hash(self._uriref)
+        return hash(self._uriref.normalize())
 
     def __eq__(self, other) -> bool:
         if isinstance(other, URI):
-- 
2.43.0


From 086bb2df9e38d84f42ba244d8f9a2743128c1f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 12/38] fix: read and write JSON files as UTF-8 regardless of
 locale

---
 jschon/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/utils.py b/jschon/utils.py
index adff27b..b1b3ea6 100644
--- a/jschon/utils.py
+++ b/jschon/utils.py
@@ -34,7 +34,7 @@ def tuplify(value: Any) -> Tuple:
 
 def json_dumpf(obj: Any, path: Union[str, PathLike]) -> None:
     """Serialize a JSON-compatible Python object to a JSON file."""
-    with open(path, 'w') as f:
+    with open(path, 'w', encoding='utf-8') as f:
         json.dump(obj, f, ensure_ascii=False, allow_nan=False, default=_serialize_custom_obj)
 
 
@@ -45,7 +45,7 @@ def json_dumps(obj: Any) -> str:
 
 def json_loadf(path: Union[str, PathLike]) -> Any:
     """Deserialize a JSON file, returning a JSON-compatible Python object."""
-    with open(path) as f:
+    with open(path, encoding='utf-8') as f:
         return json.load(f, parse_constant=_parse_invalid_const)
 
 
-- 
2.43.0


From 426339740f5a6c17bbac9faf39faba3824a51b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 13/38] fix: drop an empty $id fragment from the schema URI so
 that references resolve

---
 jschon/vocabulary/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index 340214e..51b2e1a 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -76,7 +76,8 @@ class IdKeyword(Keyword):
             else:
                 raise JSONSchemaError(f'No base URI against which to resolve the "$id" value "{value}"')
 
-        parentschema.uri = uri
+        # an empty fragment is allowed, but is not part of the schema's URI
+        parentschema.uri = uri.copy(fragment=False)
 
 
 class RefKeyword(Keyword):
-- 
2.43.0


From af295b098e7e44090e314d142f16158e84cbcda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 14/38] fix: produce an items annotation for a boolean 2019-09
 items subschema

---
 jschon/vocabulary/legacy.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index b6ef3c3..aaf922e 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -61,9 +61,6 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
         if len(instance) == 0:
             return
 
-        elif isinstance(self.json.data, bool):
-            self.json.evaluate(instance, result)
-
         elif isinstance(self.json, JSONSchema):
             for index, item in enumerate(instance):
                 self.json.evaluate(item, result)
-- 
2.43.0


From 687fbb3349177e3ab9f8b4385b3a298d70f0fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 15/38] fix: do not let a LocalSource path escape its base
 directory via leading slashes

---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 3d6cf5e..cd85c06 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -37,7 +37,7 @@ class LocalSource(Source):
         self.base_dir = base_dir
 
     def __call__(self, relative_path: str) -> JSONCompatible:
-        filepath = pathlib.Path(self.base_dir) / relative_path
+        filepath = pathlib.Path(self.base_dir) / relative_path.lstrip('/')
         if self.suffix:
             filepath = str(filepath)
             filepath += self.suffix
-- 
2.43.0


From 741ec56b3e4ad6d1b29940fa3e06532768a572bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 16/38] fix: drop annotations from the failing subschema of
 "not"

---
 jschon/jsonschema.py            | 11 +++++++++++
 jschon/vocabulary/applicator.py |  1 +
 2 files changed, 12 insertions(+)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 894d5df..fc25bbd 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -466,6 +466,17 @@ class Result:
         self._valid = True
         self.error = None
 
+    def drop_passed(self, instance: JSON) -> None:
+        """Drop the subresults that passed for `instance`.
+
+        To be called by a keyword when it reverses the failure of its
+        subschema for `instance`, so that annotations produced within
+        the failing subschema are not retained.
+        """
+        for key, child in list(self.children.items()):
+            if child._valid and child.instance.path == instance.path:
+                del self.children[key]
+
     def noassert(self) -> None:
         """Indicate that evaluation passes regardless of validity."""
         self._assert = False
diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index b128109..df01864 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -83,6 +83,7 @@ class NotKeyword(Keyword, Subschema):
         if result.passed:
             result.fail('The instance must not be valid against the subschema')
         else:
+            result.drop_passed(instance)
             result.pass_()
 
 
-- 
2.43.0


From 25955d61b169675037dc25c62520c7f5352b17eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 17/38] fix: drop annotations from items that do not match
 "contains"

---
 jschon/vocabulary/applicator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index df01864..0af4a90 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -256,6 +256,7 @@ class ContainsKeyword(Keyword, Subschema):
             if self.json.evaluate(item, result).passed:
                 annotation += [index]
             else:
+                result.drop_passed(item)
                 result.pass_()
 
         result.annotate(annotation)
-- 
2.43.0


From df4ca087a5f9d5dc05925e3fa6aa88a195976f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 18/38] fix: do not leave partially constructed or invalid
 schemas in the catalog cache

---
 jschon/catalog/__init__.py | 26 ++++++++++++++++++++++++++
 jschon/jsonschema.py       | 19 +++++++++++++++++--
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index cd85c06..4f29462 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import pathlib
 import uuid
 from contextlib import contextmanager
+from functools import wraps
 from importlib import import_module
 from os import PathLike
 from typing import Any, ContextManager, Dict, Hashable, Set, Union
@@ -67,6 +68,15 @@ class RemoteSource(Source):
         return json_loadr(url)
 
 
+def _rollback_metaschemas(method):
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        with self._rollback('__meta__'):
+            return method(self, *args, **kwargs)
+
+    return wrapper
+
+
 class Catalog:
     """The :class:`Catalog` acts as a schema cache, enabling schemas and
     subschemas to be indexed, re-used, and cross-referenced by URI."""
@@ -188,6 +198,7 @@ class Catalog:
         except KeyError:
             raise CatalogError(f"Unrecognized vocabulary URI '{uri}'")
 
+    @_rollback_metaschemas
     def create_metaschema(
             self,
             uri: URI,
@@ -367,6 +378,21 @@ class Catalog:
 
         return schema
 
+    @contextmanager
+    def _rollback(self, cacheid: Hashable) -> ContextManager[None]:
+        """Context manager that restores a schema cache to its prior state
+        if an error occurs, so that schemas whose construction failed do
+        not remain in the cache."""
+        snapshot = dict(self._schema_cache[cacheid]) if cacheid in self._schema_cache else None
+        try:
+            yield
+        except Exception:
+            if snapshot is None:
+                self._schema_cache.pop(cacheid, None)
+            else:
+                self._schema_cache[cacheid] = snapshot
+            raise
+
     @contextmanager
     def cache(self, cacheid: Hashable = None) -> ContextManager[Hashable]:
         """Context manager for a schema cache.
diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index fc25bbd..a070305 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -1,8 +1,8 @@
 from __future__ import annotations
 
 from collections import deque
-from contextlib import contextmanager
-from functools import cached_property
+from contextlib import contextmanager, nullcontext
+from functools import cached_property, wraps
 from typing import Any, ContextManager, Dict, Hashable, Iterator, Mapping, Optional, TYPE_CHECKING, Tuple, Type, Union
 from uuid import uuid4
 
@@ -21,9 +21,24 @@ __all__ = [
 ]
 
 
+def _rollback_schemas(init):
+    @wraps(init)
+    def wrapper(self, value, *, catalog='catalog', cacheid='default', parent=None, **kwargs):
+        from jschon.catalog import Catalog
+
+        if not isinstance(catalog, Catalog):
+            catalog = Catalog.get_catalog(catalog)
+
+        with catalog._rollback(cacheid) if parent is None else nullcontext():
+            init(self, value, catalog=catalog, cacheid=cacheid, parent=parent, **kwargs)
+
+    return wrapper
+
+
 class JSONSchema(JSON):
     """JSON schema document model."""
 
+    @_rollback_schemas
     def __init__(
             self,
             value: Union[bool, Mapping[str, JSONCompatible]],
-- 
2.43.0


From accdc43688bc7a327c91f8e2b19087fee78a37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 19/38] fix: leave a JSON node intact when replacing its whole
 value fails

---
 jschon/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/json.py b/jschon/json.py
index 085dac5..f841903 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -134,18 +134,18 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
             self.data = value
 
         elif isinstance(value, Sequence):
-            self.type = "array"
             self.data = [
                 self.itemclass(v, parent=self, key=str(i), **self.itemkwargs)
                 for i, v in enumerate(value)
             ]
+            self.type = "array"
 
         elif isinstance(value, Mapping):
-            self.type = "object"
             self.data = {
                 k: self.itemclass(v, parent=self, key=k, **self.itemkwargs)
                 for k, v in value.items()
             }
+            self.type = "object"
 
         else:
             raise TypeError(f"{value=} is not JSON-compatible")
-- 
2.43.0


From 3ddb1a356b55508467f6708939feb551788cbdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:29 +0000
Subject: [PATCH 20/38] fix: resolve same-scheme URI references strictly per
 RFC 3986 section 5.2.2

---
 jschon/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index ae7b0eb..0b0f05b 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -64,7 +64,7 @@ class URI:
     def resolve(self, base_uri: URI) -> URI:
         """Produce a new URI by resolving self against the given base URI."""
         uri = object.__new__(URI)
-        uri._uriref = self._uriref.resolve_with(base_uri._uriref)
+        uri._uriref = self._uriref.resolve_with(base_uri._uriref, strict=True)
         return uri
 
     def copy(
-- 
2.43.0


From 71eb8e964ab65dd3a759b3b7a3c4e53b4294d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 21/38] fix: keep LocalSource within its base directory for an
 empty relative path with a suffix

---
 jschon/catalog/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 4f29462..5658699 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -38,10 +38,11 @@ class LocalSource(Source):
         self.base_dir = base_dir
 
     def __call__(self, relative_path: str) -> JSONCompatible:
-        filepath = pathlib.Path(self.base_dir) / relative_path.lstrip('/')
+        filename = relative_path.lstrip('/')
         if self.suffix:
-            filepath = str(filepath)
-            filepath += self.suffix
+            filename += self.suffix
+
+        filepath = pathlib.Path(self.base_dir) / filename
 
         try:
             return json_loadf(filepath)
-- 
2.43.0


From 9a5ec57b902248d9391ef0ad0e93eb93111208fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 22/38] fix: evaluate each item independently in 2019-09 items
 with a single subschema

---
 jschon/vocabulary/legacy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index aaf922e..c01d184 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -62,10 +62,16 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
             return
 
         elif isinstance(self.json, JSONSchema):
+            error = []
             for index, item in enumerate(instance):
-                self.json.evaluate(item, result)
+                if not self.json.evaluate(item, result).passed:
+                    error += [index]
+                    # reset to passed for the next iteration
+                    result.pass_()
 
-            if result.passed:
+            if error:
+                result.fail(error)
+            else:
                 result.annotate(True)
 
         elif self.json.type == "array":
-- 
2.43.0


From a4894a8dccce3210fb94a249350197f3c9955be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:22 +0000
Subject: [PATCH 23/38] fix: treat an enabled format without a registered
 validator as annotation only

---
 jschon/vocabulary/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/format.py b/jschon/vocabulary/format.py
index 2921183..1dca2b4 100644
--- a/jschon/vocabulary/format.py
+++ b/jschon/vocabulary/format.py
@@ -17,7 +17,7 @@ class FormatKeyword(Keyword):
     def __init__(self, parentschema: JSONSchema, value: str):
         super().__init__(parentschema, value)
         if parentschema.catalog.is_format_enabled(value):
-            self.validator, self.validates_types = _format_validators[value]
+            self.validator, self.validates_types = _format_validators.get(value, (None, ()))
         else:
             self.validator = None
 
-- 
2.43.0


From 2b8a2c809041996b8fd79925eba8202443284e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:22 +0000
Subject: [PATCH 24/38] fix: pass a plain JSON-compatible value to format
 validators

---
 jschon/vocabulary/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/format.py b/jschon/vocabulary/format.py
index 1dca2b4..9b1edc6 100644
--- a/jschon/vocabulary/format.py
+++ b/jschon/vocabulary/format.py
@@ -25,7 +25,7 @@ class FormatKeyword(Keyword):
         result.annotate(self.json.value)
         if self.validator and instance.type in self.validates_types:
             try:
-                self.validator(instance.data)
+                self.validator(instance.value)
             except ValueError as e:
                 result.fail(f'The instance is invalid against the "{self.json.data}" format: {e}')
         else:
-- 
2.43.0


From 8ef42d10488ca635f081e928bafa73b511d15b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:09 +0000
Subject: [PATCH 25/38] fix: leave no partially constructed schemas in the
 cache when construction is interrupted

---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 5658699..cfe7b14 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -387,7 +387,7 @@ class Catalog:
         snapshot = dict(self._schema_cache[cacheid]) if cacheid in self._schema_cache else None
         try:
             yield
-        except Exception:
+        except BaseException:
             if snapshot is None:
                 self._schema_cache.pop(cacheid, None)
             else:
-- 
2.43.0


From 9f4a4c72cf601a1de0bd696a18b32071acb81469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 26/38] fix: resolve dynamic references without consulting the
 catalog during evaluation

---
 jschon/jsonschema.py      |  4 ++++
 jschon/vocabulary/core.py | 17 ++++-------------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index a070305..af134dc 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -86,6 +86,10 @@ class JSONSchema(JSON):
         """A dictionary of the schema's :class:`~jschon.vocabulary.Keyword`
         objects, indexed by keyword name."""
 
+        self.dynamic_anchors: Dict[str, JSONSchema] = {}
+        """A dictionary of the subschemas having a ``"$dynamicAnchor"`` within
+        the resource of which this schema is the root, indexed by anchor name."""
+
         # do not call super().__init__
         # all inherited attributes are initialized here:
 
diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index 51b2e1a..371df27 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -150,21 +150,11 @@ class DynamicRefKeyword(Keyword):
 
         if self.dynamic:
             target = result
-            checked_uris = set()
 
             while target is not None:
-                if (base_uri := target.schema.base_uri) is not None and base_uri not in checked_uris:
-                    checked_uris |= {base_uri}
-                    target_uri = URI(f"#{self.fragment}").resolve(base_uri)
-                    try:
-                        found_schema = self.parentschema.catalog.get_schema(
-                            target_uri, cacheid=self.parentschema.cacheid
-                        )
-                        if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \
-                                dynamic_anchor.data == self.fragment:
-                            refschema = found_schema
-                    except CatalogError:
-                        pass
+                dynamic_anchors = target.schema.resource_rootschema.dynamic_anchors
+                if (found_schema := dynamic_anchors.get(self.fragment)) is not None:
+                    refschema = found_schema
 
                 target = target.parent
 
@@ -185,6 +175,7 @@ class DynamicAnchorKeyword(Keyword):
             raise JSONSchemaError(f'No base URI for "$dynamicAnchor" value "{value}"')
 
         parentschema.catalog.add_schema(uri, parentschema, cacheid=parentschema.cacheid)
+        parentschema.resource_rootschema.dynamic_anchors[value] = parentschema
 
 
 class DefsKeyword(Keyword, ObjectOfSubschemas):
-- 
2.43.0


From de67859bc87f7ea21119ea3ea99014f8422e9307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:21 +0000
Subject: [PATCH 27/38] fix: find the root schema of a resource that is still
 under construction

---
 jschon/jsonschema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index af134dc..c4da6cd 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -260,7 +260,7 @@ class JSONSchema(JSON):
         if '$id' in self.keywords:
             return self
         ancestor = self
-        while ancestor.parentschema:
+        while ancestor.parentschema is not None:
             ancestor = ancestor.parentschema
             if '$id' in ancestor.keywords:
                 return ancestor
@@ -275,7 +275,7 @@ class JSONSchema(JSON):
         this method returns `self`.
         """
         ancestor = self
-        while ancestor.parentschema:
+        while ancestor.parentschema is not None:
             ancestor = ancestor.parentschema
         return ancestor
 
-- 
2.43.0


From 6d6a455288f142d11cf7d2393c9cc508402505d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 28/38] fix: disregard annotations of unrecognized keywords in
 evaluation

---
 jschon/jsonschema.py            | 23 +++++++++++++++++++++--
 jschon/vocabulary/applicator.py | 16 ++++++++--------
 jschon/vocabulary/legacy.py     | 14 +++++++-------
 jschon/vocabulary/validation.py |  4 ++--
 4 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index c4da6cd..f1897ab 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -545,13 +545,32 @@ class Result:
     def collect_annotations(self, instance: JSON = None, key: str = None) -> Iterator[JSONCompatible]:
         """Return an iterator over annotations produced in this subtree,
         optionally filtered by instance and/or keyword."""
+        for node in self._annotated_nodes(instance, key):
+            yield node.annotation
+
+    def collect_recognized_annotations(self, instance: JSON, key: str) -> Iterator[JSONCompatible]:
+        """Return an iterator over annotations produced in this subtree for
+        `instance` by the keyword `key`, excluding those from schemas whose
+        metaschema does not recognize the keyword."""
+        for node in self._annotated_nodes(instance, key):
+            if node.recognized:
+                yield node.annotation
+
+    def _annotated_nodes(self, instance: JSON = None, key: str = None) -> Iterator[Result]:
         if self._valid and not self._discard:
             if self.annotation is not None and \
                     (key is None or key == self.key) and \
                     (instance is None or instance.path == self.instance.path):
-                yield self.annotation
+                yield self
             for child in self.children.values():
-                yield from child.collect_annotations(instance, key)
+                yield from child._annotated_nodes(instance, key)
+
+    @property
+    def recognized(self) -> bool:
+        """Return False if the result is that of a keyword that is not
+        recognized by the metaschema of its schema, True otherwise."""
+        from jschon.vocabulary import _UnknownKeyword
+        return not isinstance(self.schema.keywords.get(self.key), _UnknownKeyword)
 
     def collect_errors(self, instance: JSON = None, key: str = None) -> Iterator[JSONCompatible]:
         """Return an iterator over errors produced in this subtree,
diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index 0af4a90..53fa7af 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -208,25 +208,25 @@ class UnevaluatedItemsKeyword(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         last_evaluated_item = -1
-        for prefix_items_annotation in result.parent.collect_annotations(instance, "prefixItems"):
+        for prefix_items_annotation in result.parent.collect_recognized_annotations(instance, "prefixItems"):
             if prefix_items_annotation is True:
                 result.discard()
                 return
             if prefix_items_annotation > last_evaluated_item:
                 last_evaluated_item = prefix_items_annotation
 
-        for items_annotation in result.parent.collect_annotations(instance, "items"):
+        for items_annotation in result.parent.collect_recognized_annotations(instance, "items"):
             if items_annotation is True:
                 result.discard()
                 return
 
-        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems"):
+        for unevaluated_items_annotation in result.parent.collect_recognized_annotations(instance, "unevaluatedItems"):
             if unevaluated_items_annotation is True:
                 result.discard()
                 return
 
         contains_indices = set()
-        for contains_annotation in result.parent.collect_annotations(instance, "contains"):
+        for contains_annotation in result.parent.collect_recognized_annotations(instance, "contains"):
             contains_indices |= set(contains_annotation)
 
         annotation = None
@@ -366,13 +366,13 @@ class UnevaluatedPropertiesKeyword(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         evaluated_names = set()
-        for properties_annotation in result.parent.collect_annotations(instance, "properties"):
+        for properties_annotation in result.parent.collect_recognized_annotations(instance, "properties"):
             evaluated_names |= set(properties_annotation)
-        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties"):
+        for pattern_properties_annotation in result.parent.collect_recognized_annotations(instance, "patternProperties"):
             evaluated_names |= set(pattern_properties_annotation)
-        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties"):
+        for additional_properties_annotation in result.parent.collect_recognized_annotations(instance, "additionalProperties"):
             evaluated_names |= set(additional_properties_annotation)
-        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties"):
+        for unevaluated_properties_annotation in result.parent.collect_recognized_annotations(instance, "unevaluatedProperties"):
             evaluated_names |= set(unevaluated_properties_annotation)
 
         annotation = []
diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index c01d184..e15f375 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -134,19 +134,19 @@ class UnevaluatedItemsKeyword_2019_09(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         last_evaluated_item = -1
-        for items_annotation in result.parent.collect_annotations(instance, "items"):
+        for items_annotation in result.parent.collect_recognized_annotations(instance, "items"):
             if items_annotation is True:
                 result.discard()
                 return
             if type(items_annotation) is int and items_annotation > last_evaluated_item:
                 last_evaluated_item = items_annotation
 
-        for additional_items_annotation in result.parent.collect_annotations(instance, "additionalItems"):
+        for additional_items_annotation in result.parent.collect_recognized_annotations(instance, "additionalItems"):
             if additional_items_annotation is True:
                 result.discard()
                 return
 
-        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems"):
+        for unevaluated_items_annotation in result.parent.collect_recognized_annotations(instance, "unevaluatedItems"):
             if unevaluated_items_annotation is True:
                 result.discard()
                 return
@@ -188,13 +188,13 @@ class UnevaluatedPropertiesKeyword_2019_09(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         evaluated_names = set()
-        for properties_annotation in result.parent.collect_annotations(instance, "properties"):
+        for properties_annotation in result.parent.collect_recognized_annotations(instance, "properties"):
             evaluated_names |= set(properties_annotation)
-        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties"):
+        for pattern_properties_annotation in result.parent.collect_recognized_annotations(instance, "patternProperties"):
             evaluated_names |= set(pattern_properties_annotation)
-        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties"):
+        for additional_properties_annotation in result.parent.collect_recognized_annotations(instance, "additionalProperties"):
             evaluated_names |= set(additional_properties_annotation)
-        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties"):
+        for unevaluated_properties_annotation in result.parent.collect_recognized_annotations(instance, "unevaluatedProperties"):
             evaluated_names |= set(unevaluated_properties_annotation)
 
         annotation = []
diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 4c7e02d..ac8de8d 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -183,7 +183,7 @@ class MaxContainsKeyword(Keyword):
     depends_on = "contains",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if contains := result.sibling(instance, "contains"):
+        if (contains := result.sibling(instance, "contains")) and contains.recognized:
             if contains.annotation is not None and len(contains.annotation) > self.json:
                 result.fail('The array has too many elements matching the '
                             f'"contains" subschema (maximum {self.json})')
@@ -195,7 +195,7 @@ class MinContainsKeyword(Keyword):
     depends_on = "contains", "maxContains",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if contains := result.sibling(instance, "contains"):
+        if (contains := result.sibling(instance, "contains")) and contains.recognized:
             contains_count = len(contains.annotation) \
                 if contains.annotation is not None \
                 else 0
-- 
2.43.0


From fb88ff3b40cd16685aaef49ab7b0c8f9d7f20a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 29/38] fix: honour dynamic and recursive anchors only where
 the metaschema recognizes them

---
 jschon/vocabulary/core.py   |  5 ++---
 jschon/vocabulary/legacy.py | 12 +++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index 371df27..bcc8e0c 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -140,9 +140,8 @@ class DynamicRefKeyword(Keyword):
         self.refschema = self.parentschema.catalog.get_schema(
             uri, metaschema_uri=self.parentschema.metaschema_uri, cacheid=self.parentschema.cacheid
         )
-        if self.refschema.type == "object" and \
-                (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and \
-                dynamic_anchor.data == self.fragment:
+        dynamic_anchor = self.refschema.keywords.get("$dynamicAnchor")
+        if isinstance(dynamic_anchor, DynamicAnchorKeyword) and dynamic_anchor.json.data == self.fragment:
             self.dynamic = True
 
     def evaluate(self, instance: JSON, result: Result) -> None:
diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index e15f375..f7e97d1 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -33,13 +33,10 @@ class RecursiveRefKeyword_2019_09(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         refschema = self.refschema
-        if (recursive_anchor := refschema.get("$recursiveAnchor")) and \
-                recursive_anchor.data is True:
-
+        if self._has_recursive_anchor(refschema):
             target = result
             while target is not None:
-                if (base_anchor := target.schema.get("$recursiveAnchor")) and \
-                        base_anchor.data is True:
+                if self._has_recursive_anchor(target.schema):
                     refschema = target.schema
 
                 target = target.parent
@@ -47,6 +44,11 @@ class RecursiveRefKeyword_2019_09(Keyword):
         refschema.evaluate(instance, result)
         result.refschema(refschema)
 
+    @staticmethod
+    def _has_recursive_anchor(schema: JSONSchema) -> bool:
+        recursive_anchor = schema.keywords.get("$recursiveAnchor")
+        return isinstance(recursive_anchor, RecursiveAnchorKeyword_2019_09) and recursive_anchor.json.data is True
+
 
 class RecursiveAnchorKeyword_2019_09(Keyword):
     key = "$recursiveAnchor"
-- 
2.43.0


From 17e1eb8c5aad477cc7170c7524a907c281c6e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 30/38] fix: a keyword value that suits none of its subschema
 mixins falls back to plain JSON

---
 jschon/vocabulary/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 57e41c8..c365344 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -140,7 +140,7 @@ class Keyword:
 
     def __init__(self, parentschema: JSONSchema, value: JSONCompatible):
         for base_cls in inspect.getmro(self.__class__):
-            if issubclass(base_cls, SubschemaMixin):
+            if issubclass(base_cls, SubschemaMixin) and base_cls is not SubschemaMixin:
                 if (kwjson := base_cls.jsonify(parentschema, self.key, value)) is not None:
                     break
         else:
-- 
2.43.0


From 53f1f512e5fa155707e6166cbd663e76196ee185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 31/38] fix: evaluating numbers too large for a float or for a
 string does not raise

---
 jschon/vocabulary/validation.py | 36 +++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index ac8de8d..e7d55fd 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -69,10 +69,16 @@ class MultipleOfKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         try:
-            if Fraction(f'{instance.data}') % Fraction(f'{self.json.data}') != 0:
-                result.fail(f"The value must be a multiple of {self.json}")
+            if self._fraction(instance.data) % self._fraction(self.json.data) != 0:
+                result.fail(f"The value must be a multiple of {self.json.data}")
         except (ValueError, ZeroDivisionError):
-            result.fail(f"Invalid operation: {instance} % {self.json}")
+            result.fail(f"Invalid operation: {instance.data} % {self.json.data}")
+
+    @staticmethod
+    def _fraction(value):
+        # floats are taken by their decimal representation; integers may
+        # exceed the interpreter's limit on conversion to a string
+        return Fraction(value) if isinstance(value, int) else Fraction(f'{value}')
 
 
 class MaximumKeyword(Keyword):
@@ -81,7 +87,7 @@ class MaximumKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if instance > self.json:
-            result.fail(f"The value may not be greater than {self.json}")
+            result.fail(f"The value may not be greater than {self.json.data}")
 
 
 class ExclusiveMaximumKeyword(Keyword):
@@ -90,7 +96,7 @@ class ExclusiveMaximumKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if instance >= self.json:
-            result.fail(f"The value must be less than {self.json}")
+            result.fail(f"The value must be less than {self.json.data}")
 
 
 class MinimumKeyword(Keyword):
@@ -99,7 +105,7 @@ class MinimumKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if instance < self.json:
-            result.fail(f"The value may not be less than {self.json}")
+            result.fail(f"The value may not be less than {self.json.data}")
 
 
 class ExclusiveMinimumKeyword(Keyword):
@@ -108,7 +114,7 @@ class ExclusiveMinimumKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if instance <= self.json:
-            result.fail(f"The value must be greater than {self.json}")
+            result.fail(f"The value must be greater than {self.json.data}")
 
 
 class MaxLengthKeyword(Keyword):
@@ -117,7 +123,7 @@ class MaxLengthKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) > self.json:
-            result.fail(f"The text is too long (maximum {self.json} characters)")
+            result.fail(f"The text is too long (maximum {self.json.data} characters)")
 
 
 class MinLengthKeyword(Keyword):
@@ -126,7 +132,7 @@ class MinLengthKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) < self.json:
-            result.fail(f"The text is too short (minimum {self.json} characters)")
+            result.fail(f"The text is too short (minimum {self.json.data} characters)")
 
 
 class PatternKeyword(Keyword):
@@ -148,7 +154,7 @@ class MaxItemsKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) > self.json:
-            result.fail(f"The array has too many elements (maximum {self.json})")
+            result.fail(f"The array has too many elements (maximum {self.json.data})")
 
 
 class MinItemsKeyword(Keyword):
@@ -157,7 +163,7 @@ class MinItemsKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) < self.json:
-            result.fail(f"The array has too few elements (minimum {self.json})")
+            result.fail(f"The array has too few elements (minimum {self.json.data})")
 
 
 class UniqueItemsKeyword(Keyword):
@@ -186,7 +192,7 @@ class MaxContainsKeyword(Keyword):
         if (contains := result.sibling(instance, "contains")) and contains.recognized:
             if contains.annotation is not None and len(contains.annotation) > self.json:
                 result.fail('The array has too many elements matching the '
-                            f'"contains" subschema (maximum {self.json})')
+                            f'"contains" subschema (maximum {self.json.data})')
 
 
 class MinContainsKeyword(Keyword):
@@ -209,7 +215,7 @@ class MinContainsKeyword(Keyword):
 
             if not valid:
                 result.fail('The array has too few elements matching the '
-                            f'"contains" subschema (minimum {self.json})')
+                            f'"contains" subschema (minimum {self.json.data})')
 
 
 class MaxPropertiesKeyword(Keyword):
@@ -218,7 +224,7 @@ class MaxPropertiesKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) > self.json:
-            result.fail(f"The object has too many properties (maximum {self.json})")
+            result.fail(f"The object has too many properties (maximum {self.json.data})")
 
 
 class MinPropertiesKeyword(Keyword):
@@ -227,7 +233,7 @@ class MinPropertiesKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) < self.json:
-            result.fail(f"The object has too few properties (minimum {self.json})")
+            result.fail(f"The object has too few properties (minimum {self.json.data})")
 
 
 class RequiredKeyword(Keyword):
-- 
2.43.0


From 78b92cea405114108c3e131e992e321a70bc56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 32/38] fix: unpaired surrogates in strings and keys do not
 raise UnicodeEncodeError

---
 jschon/jsonpointer.py | 9 +++++++--
 jschon/uri.py         | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index 8a4bfac..879c3dd 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -230,7 +230,12 @@ class JSONPointer(Sequence[str]):
 
         :param value: a percent-encoded URI fragment
         """
-        return JSONPointer(urllib.parse.unquote(value))
+        try:
+            pointer = urllib.parse.unquote(value, errors='surrogatepass')
+        except UnicodeError:
+            pointer = urllib.parse.unquote(value)
+
+        return JSONPointer(pointer)
 
     def uri_fragment(self) -> str:
         """Return a percent-encoded URI fragment representation of `self`.
@@ -252,7 +257,7 @@ class JSONPointer(Sequence[str]):
         # sub-delims    = "!" / "$" / "&" / "'" / "(" / ")"
         #               / "*" / "+" / "," / ";" / "="
 
-        return urllib.parse.quote(str(self), safe="/!$&'()*+,;=")
+        return urllib.parse.quote(str(self), safe="/!$&'()*+,;=", errors='surrogatepass')
 
     @staticmethod
     def escape(key: str) -> str:
diff --git a/jschon/uri.py b/jschon/uri.py
index 0b0f05b..ea21e08 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -14,7 +14,10 @@ __all__ = [
 
 class URI:
     def __init__(self, value: str) -> None:
-        self._uriref = rfc3986.uri_reference(value)
+        try:
+            self._uriref = rfc3986.uri_reference(value)
+        except UnicodeEncodeError as e:
+            raise URIError(f"{value!r} is not a valid URI") from e
 
     def __str__(self) -> str:
         return self._uriref.unsplit()
-- 
2.43.0


From 0e35e8afea3e6d48ca06967d037b8ed0697d2319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 33/38] fix: a reference to a document that is not a schema
 raises CatalogError

---
 jschon/catalog/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index cfe7b14..70e51de 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -6,7 +6,7 @@ from contextlib import contextmanager
 from functools import wraps
 from importlib import import_module
 from os import PathLike
-from typing import Any, ContextManager, Dict, Hashable, Set, Union
+from typing import Any, ContextManager, Dict, Hashable, Mapping, Set, Union
 
 from jschon.exc import CatalogError, JSONPointerError, URIError
 from jschon.json import JSONCompatible
@@ -355,6 +355,9 @@ class Catalog:
 
         if schema is None:
             doc = self.load_json(base_uri)
+            if not isinstance(doc, (bool, Mapping)):
+                raise CatalogError(f"The object referenced by {base_uri} is not a JSON Schema")
+
             schema = JSONSchema(
                 doc,
                 catalog=self,
-- 
2.43.0


From 8bdbc13622304486fb88ba48a53f669936b63fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 34/38] fix: resolving against an invalid base URI raises
 URIError

---
 jschon/uri.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index ea21e08..60d1fe1 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -65,9 +65,15 @@ class URI:
         return self.copy(fragment=False).is_absolute()
 
     def resolve(self, base_uri: URI) -> URI:
-        """Produce a new URI by resolving self against the given base URI."""
+        """Produce a new URI by resolving self against the given base URI.
+
+        :raise URIError: if the base URI is not valid or does not contain a scheme
+        """
         uri = object.__new__(URI)
-        uri._uriref = self._uriref.resolve_with(base_uri._uriref, strict=True)
+        try:
+            uri._uriref = self._uriref.resolve_with(base_uri._uriref, strict=True)
+        except rfc3986.exceptions.ResolutionError as e:
+            raise URIError(f"'{self}' cannot be resolved against '{base_uri}'") from e
         return uri
 
     def copy(
-- 
2.43.0


From d409e0cdf120f04092b867fb580d3ac461f75b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 35/38] fix: a metaschema document that is not an object raises
 CatalogError

---
 jschon/catalog/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 70e51de..6cd0f9b 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -225,6 +225,9 @@ class Catalog:
         :raise CatalogError: if the metaschema is not valid
         """
         metaschema_doc = self.load_json(uri)
+        if not isinstance(metaschema_doc, Mapping):
+            raise CatalogError(f"The document at {uri} is not a metaschema")
+
         default_core_vocabulary = (
             self.get_vocabulary(default_core_vocabulary_uri)
             if default_core_vocabulary_uri
-- 
2.43.0


From 40c63ff8e9988d5b9c55cf1b8e185f8a993a0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 36/38] fix: the failure of a multipleOf operation does not
 convert a large instance to a string

---
 jschon/vocabulary/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index e7d55fd..bdb1de4 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -72,7 +72,7 @@ class MultipleOfKeyword(Keyword):
             if self._fraction(instance.data) % self._fraction(self.json.data) != 0:
                 result.fail(f"The value must be a multiple of {self.json.data}")
         except (ValueError, ZeroDivisionError):
-            result.fail(f"Invalid operation: {instance.data} % {self.json.data}")
+            result.fail(f"Invalid operation: the value % {self.json.data}")
 
     @staticmethod
     def _fraction(value):
-- 
2.43.0


From 1770656e1da8aa42478bf136c080c9f2bb9c0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 37/38] fix: keywords do not take the results of unrecognized
 sibling keywords

---
 jschon/vocabulary/annotation.py |  2 +-
 jschon/vocabulary/applicator.py | 10 +++++-----
 jschon/vocabulary/legacy.py     |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/jschon/vocabulary/annotation.py b/jschon/vocabulary/annotation.py
index 761542a..e196bd2 100644
--- a/jschon/vocabulary/annotation.py
+++ b/jschon/vocabulary/annotation.py
@@ -67,7 +67,7 @@ class ContentSchemaKeyword(_AnnotationKeyword):
     depends_on = "contentMediaType",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if result.sibling(instance, "contentMediaType"):
+        if (media_type := result.sibling(instance, "contentMediaType")) and media_type.recognized:
             super().evaluate(instance, result)
         else:
             result.discard()
diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index 53fa7af..5a9c0ea 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -100,7 +100,7 @@ class ThenKeyword(Keyword, Subschema):
     depends_on = "if",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if (if_ := result.sibling(instance, "if")) and if_.valid:
+        if (if_ := result.sibling(instance, "if")) and if_.recognized and if_.valid:
             self.json.evaluate(instance, result)
         else:
             result.discard()
@@ -111,7 +111,7 @@ class ElseKeyword(Keyword, Subschema):
     depends_on = "if",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if (if_ := result.sibling(instance, "if")) and not if_.valid:
+        if (if_ := result.sibling(instance, "if")) and if_.recognized and not if_.valid:
             self.json.evaluate(instance, result)
         else:
             result.discard()
@@ -167,7 +167,7 @@ class ItemsKeyword(Keyword, Subschema):
     depends_on = "prefixItems",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if prefix_items := result.sibling(instance, "prefixItems"):
+        if (prefix_items := result.sibling(instance, "prefixItems")) and prefix_items.recognized:
             start_index = len(prefix_items.schema_node)
         else:
             start_index = 0
@@ -316,12 +316,12 @@ class AdditionalPropertiesKeyword(Keyword, Subschema):
     depends_on = "properties", "patternProperties",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if properties := result.sibling(instance, "properties"):
+        if (properties := result.sibling(instance, "properties")) and properties.recognized:
             known_property_names = properties.schema_node.keys()
         else:
             known_property_names = ()
 
-        if pattern_properties := result.sibling(instance, "patternProperties"):
+        if (pattern_properties := result.sibling(instance, "patternProperties")) and pattern_properties.recognized:
             known_property_patterns = pattern_properties.schema_node.keys()
         else:
             known_property_patterns = ()
diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index f7e97d1..95fcd95 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -97,7 +97,7 @@ class AdditionalItemsKeyword_2019_09(Keyword, Subschema):
     depends_on = "items",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if (items := result.sibling(instance, "items")) and type(items.annotation) is int:
+        if (items := result.sibling(instance, "items")) and items.recognized and type(items.annotation) is int:
             annotation = None
             error = []
             for index, item in enumerate(instance[(start := items.annotation + 1):], start):
-- 
2.43.0


From e4f0c10356c148b6599fd01deac60c7f2305f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 38/38] fix: errors of numeric keywords can name integers of
 any size

---
 jschon/vocabulary/validation.py | 37 ++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index bdb1de4..6b20003 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -30,6 +30,15 @@ __all__ = [
 ]
 
 
+def _numeral(value):
+    # integers may exceed the interpreter's limit on conversion to a
+    # decimal string
+    try:
+        return str(value)
+    except ValueError:
+        return hex(value)
+
+
 class TypeKeyword(Keyword):
     key = "type"
 
@@ -70,9 +79,9 @@ class MultipleOfKeyword(Keyword):
     def evaluate(self, instance: JSON, result: Result) -> None:
         try:
             if self._fraction(instance.data) % self._fraction(self.json.data) != 0:
-                result.fail(f"The value must be a multiple of {self.json.data}")
+                result.fail(f"The value must be a multiple of {_numeral(self.json.data)}")
         except (ValueError, ZeroDivisionError):
-            result.fail(f"Invalid operation: the value % {self.json.data}")
+            result.fail(f"Invalid operation: the value % {_numeral(self.json.data)}")
 
     @staticmethod
     def _fraction(value):
@@ -87,7 +96,7 @@ class MaximumKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if instance > self.json:
-            result.fail(f"The value may not be greater than {self.json.data}")
+            result.fail(f"The value may not be greater than {_numeral(self.json.data)}")
 
 
 class ExclusiveMaximumKeyword(Keyword):
@@ -96,7 +105,7 @@ class ExclusiveMaximumKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if instance >= self.json:
-            result.fail(f"The value must be less than {self.json.data}")
+            result.fail(f"The value must be less than {_numeral(self.json.data)}")
 
 
 class MinimumKeyword(Keyword):
@@ -105,7 +114,7 @@ class MinimumKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if instance < self.json:
-            result.fail(f"The value may not be less than {self.json.data}")
+            result.fail(f"The value may not be less than {_numeral(self.json.data)}")
 
 
 class ExclusiveMinimumKeyword(Keyword):
@@ -114,7 +123,7 @@ class ExclusiveMinimumKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if instance <= self.json:
-            result.fail(f"The value must be greater than {self.json.data}")
+            result.fail(f"The value must be greater than {_numeral(self.json.data)}")
 
 
 class MaxLengthKeyword(Keyword):
@@ -123,7 +132,7 @@ class MaxLengthKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) > self.json:
-            result.fail(f"The text is too long (maximum {self.json.data} characters)")
+            result.fail(f"The text is too long (maximum {_numeral(self.json.data)} characters)")
 
 
 class MinLengthKeyword(Keyword):
@@ -132,7 +141,7 @@ class MinLengthKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) < self.json:
-            result.fail(f"The text is too short (minimum {self.json.data} characters)")
+            result.fail(f"The text is too short (minimum {_numeral(self.json.data)} characters)")
 
 
 class PatternKeyword(Keyword):
@@ -154,7 +163,7 @@ class MaxItemsKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) > self.json:
-            result.fail(f"The array has too many elements (maximum {self.json.data})")
+            result.fail(f"The array has too many elements (maximum {_numeral(self.json.data)})")
 
 
 class MinItemsKeyword(Keyword):
@@ -163,7 +172,7 @@ class MinItemsKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) < self.json:
-            result.fail(f"The array has too few elements (minimum {self.json.data})")
+            result.fail(f"The array has too few elements (minimum {_numeral(self.json.data)})")
 
 
 class UniqueItemsKeyword(Keyword):
@@ -192,7 +201,7 @@ class MaxContainsKeyword(Keyword):
         if (contains := result.sibling(instance, "contains")) and contains.recognized:
             if contains.annotation is not None and len(contains.annotation) > self.json:
                 result.fail('The array has too many elements matching the '
-                            f'"contains" subschema (maximum {self.json.data})')
+                            f'"contains" subschema (maximum {_numeral(self.json.data)})')
 
 
 class MinContainsKeyword(Keyword):
@@ -215,7 +224,7 @@ class MinContainsKeyword(Keyword):
 
             if not valid:
                 result.fail('The array has too few elements matching the '
-                            f'"contains" subschema (minimum {self.json.data})')
+                            f'"contains" subschema (minimum {_numeral(self.json.data)})')
 
 
 class MaxPropertiesKeyword(Keyword):
@@ -224,7 +233,7 @@ class MaxPropertiesKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) > self.json:
-            result.fail(f"The object has too many properties (maximum {self.json.data})")
+            result.fail(f"The object has too many properties (maximum {_numeral(self.json.data)})")
 
 
 class MinPropertiesKeyword(Keyword):
@@ -233,7 +242,7 @@ class MinPropertiesKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         if len(instance) < self.json:
-            result.fail(f"The object has too few properties (minimum {self.json.data})")
+            result.fail(f"The object has too few properties (minimum {_numeral(self.json.data)})")
 
 
 class RequiredKeyword(Keyword):
-- 
2.43.0

