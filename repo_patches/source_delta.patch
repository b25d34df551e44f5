From 55e9e497c060db8c23c8287b15e7e44af3b49a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 01/33] fix: read named tuple members by property name and let
 optional members be absent

---
 strong_typing/deserializer.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 16a0d69..a39c0b7 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -698,14 +698,22 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
     "De-serializes a named tuple from a JSON `object`."
 
     def build(self, context: Optional[ModuleType]) -> None:
-        property_parsers: list[FieldDeserializer] = [
-            RequiredFieldDeserializer(
-                field_name,
-                field_name,
-                self.get_deserializer(field_type, context),
-            )
-            for field_name, field_type in get_resolved_hints(self.class_type).items()
-        ]
+        property_parsers: list[FieldDeserializer] = []
+        for field_name, field_type in get_resolved_hints(self.class_type).items():
+            property_name = python_field_to_json_property(field_name, field_type)
+
+            if is_type_optional(field_type):
+                required_type: type = unwrap_optional_type(field_type)
+                field_parser: FieldDeserializer = OptionalFieldDeserializer(
+                    property_name, field_name, self.get_deserializer(required_type, context)
+                )
+            else:
+                field_parser = RequiredFieldDeserializer(
+                    property_name, field_name, self.get_deserializer(field_type, context)
+                )
+
+            property_parsers.append(field_parser)
+
         super().assign(property_parsers)
 
     def create(self, **field_values: Any) -> NamedTuple:
-- 
2.43.0


From 1b9e20459914663fdcf7f0b90a15f8180b8f8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:30 +0000
Subject: [PATCH 02/33] fix: try next union member when a member type rejects
 data with a value error

---
 strong_typing/deserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index a39c0b7..fa44953 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -416,10 +416,12 @@ class UnionDeserializer(RecursiveDeserializer):
             # iterate over potential types of discriminated union
             try:
                 return member_parser.parse(data)
-            except (JsonKeyError, JsonTypeError):
+            except (JsonKeyError, JsonTypeError, JsonValueError, ValueError):
                 # indicates a required field is missing from JSON dict
                 # -OR-
                 # the data cannot be cast to the expected type, i.e. we don't have the type that we are looking for
+                # -OR-
+                # the data has a value that is invalid for the expected type (e.g. an ill-formed UUID or timestamp)
                 continue
 
         type_names = ", ".join(python_type_to_str(member_type) for member_type in self.member_types)
-- 
2.43.0


From 5247d8e93f76ed7938e77e9d1c86f8ef480c0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 03/33] fix: key de-serializer cache by type and options, and
 discard engines whose construction failed

---
 strong_typing/deserializer.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index fa44953..05eb201 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -835,17 +835,19 @@ def create_deserializer(
 
     if options is None:
         options = DeserializerOptions()
+    else:
+        options = dataclasses.replace(options)  # unaffected if caller changes options later
 
     return _get_deserializer(typ, context, options)
 
 
-_CACHE: dict[tuple[str, str], Deserializer] = {}
+_CACHE: dict[tuple[Any, ...], tuple[TypeLike, Deserializer]] = {}
 
 
 def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: DeserializerOptions) -> Deserializer:
     "Creates or re-uses a de-serializer engine to parse an object obtained from a JSON string."
 
-    cache_key = None
+    cache_key: Optional[tuple[Any, ...]] = None
 
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
@@ -853,32 +855,40 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
 
         if isinstance(typ, str):
             if hasattr(context, typ):
-                cache_key = (context.__name__, typ)
+                cache_key = (context, typ, options.skip_unassigned)
         elif isinstance(typ, typing.ForwardRef):
             if hasattr(context, typ.__forward_arg__):
-                cache_key = (context.__name__, typ.__forward_arg__)
+                cache_key = (context, typ.__forward_arg__, options.skip_unassigned)
 
         typ = evaluate_type(typ, context)
 
     typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
 
     if isinstance(typ, type) and typing.get_origin(typ) is None:
-        cache_key = (typ.__module__, typ.__name__)
+        cache_key = (typ, options.skip_unassigned)
 
     if cache_key is not None:
-        deserializer = _CACHE.get(cache_key)
-        if deserializer is None:
+        cache_type, deserializer = _CACHE.get(cache_key, (None, None))
+        if deserializer is None or cache_type is not typ:
             deserializer = _create_deserializer(typ, options)
 
             # store de-serializer immediately in cache to avoid stack overflow for recursive types
-            _CACHE[cache_key] = deserializer
+            _CACHE.pop(cache_key, None)
+            _CACHE[cache_key] = (typ, deserializer)
 
             if isinstance(typ, type):
                 # use type's own module as context for evaluating member types
                 context = sys.modules[typ.__module__]
 
             # create any de-serializers this de-serializer is depending on
-            deserializer.build(context)
+            try:
+                deserializer.build(context)
+            except BaseException:
+                # discard incomplete de-serializer and all others that may refer to it
+                keys = list(_CACHE)
+                for key in keys[keys.index(cache_key) :]:
+                    del _CACHE[key]
+                raise
     else:
         # special forms are not always hashable, create a new de-serializer every time
         deserializer = _create_deserializer(typ, options)
-- 
2.43.0


From 2b087fb8d80a42e410fa1be116291c08cab8f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 04/33] fix: look up union tags by JSON property name and
 reject tag values that are not scalars

---
 strong_typing/deserializer.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 05eb201..8ee257d 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -30,7 +30,6 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
-    get_class_property,
     get_resolved_hints,
     is_dataclass_instance,
     is_dataclass_type,
@@ -428,12 +427,22 @@ class UnionDeserializer(RecursiveDeserializer):
         raise JsonKeyError(f"type `Union[{type_names}]` could not be instantiated from: {data}")
 
 
+def get_literal_property_types(typ: type) -> dict[str, TypeLike]:
+    "Maps the name of each JSON property that corresponds to a class member of a literal type to its type."
+
+    resolved_hints = get_resolved_hints(typ)
+    property_types = ((name, resolved_hints[name]) for name, _ in get_class_properties(typ))
+    return {
+        python_field_to_json_property(field_name, field_type): field_type
+        for field_name, field_type in property_types
+        if is_type_literal(field_type)
+    }
+
+
 def get_literal_properties(typ: type) -> set[str]:
-    "Returns the names of all properties in a class that are of a literal type."
+    "Returns the names of all JSON properties of a class that are of a literal type."
 
-    return set(
-        property_name for property_name, property_type in get_class_properties(typ) if is_type_literal(property_type)
-    )
+    return set(get_literal_property_types(typ))
 
 
 def get_discriminating_properties(types: tuple[type, ...]) -> set[str]:
@@ -465,7 +474,7 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
         self.member_parsers = {}
         for member_type in self.member_types:
             for property_name in self.disambiguating_properties:
-                literal_type = get_class_property(member_type, property_name)
+                literal_type = get_literal_property_types(member_type).get(property_name)
                 if not literal_type:
                     continue
 
@@ -495,7 +504,10 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
             if disambiguating_value is None:
                 continue
 
-            member_parser = self.member_parsers.get((property_name, disambiguating_value))
+            if isinstance(disambiguating_value, (list, dict)):  # value is not hashable
+                member_parser = None
+            else:
+                member_parser = self.member_parsers.get((property_name, disambiguating_value))
             if member_parser is None:
                 raise JsonTypeError(
                     f"disambiguating property value is invalid for tagged union type `{self.union_type}`: {data}"
-- 
2.43.0


From d3dcca44c94aa7d0269336774d3e744cad571ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 05/33] fix: write keys of untyped dictionaries as strings,
 deciding for each key if it is an enumeration

---
 strong_typing/serializer.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 8b14156..02bec42 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -176,11 +176,9 @@ class UntypedListSerializer(Serializer[list]):
 
 class UntypedDictSerializer(Serializer[dict]):
     def generate(self, obj: dict) -> dict[str, JsonType]:
-        if obj and isinstance(next(iter(obj.keys())), enum.Enum):
-            iterator = ((key.value, object_to_json(value)) for key, value in obj.items())
-        else:
-            iterator = ((str(key), object_to_json(value)) for key, value in obj.items())
-        return dict(iterator)
+        return {
+            str(key.value if isinstance(key, enum.Enum) else key): object_to_json(value) for key, value in obj.items()
+        }
 
 
 class UntypedSetSerializer(Serializer[set]):
-- 
2.43.0


From dc12fcf9afecc5613f01b01b59119be088a570d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 06/33] fix: support writing classes whose members refer to the
 class itself through a container

---
 strong_typing/serializer.py | 38 ++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 02bec42..895a439 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -10,7 +10,6 @@ import abc
 import base64
 import datetime
 import enum
-import functools
 import inspect
 import ipaddress
 import sys
@@ -41,6 +40,13 @@ T = TypeVar("T")
 
 
 class Serializer(abc.ABC, Generic[T]):
+    def build(self, context: Optional[ModuleType]) -> None:
+        """
+        Creates auxiliary serializers for class members, which may refer back to the class itself.
+
+        :param context: A module context for evaluating types specified as a string.
+        """
+
     @abc.abstractmethod
     def generate(self, data: T) -> JsonType: ...
 
@@ -285,16 +291,20 @@ class FieldSerializer(Generic[T]):
 
 
 class TypedClassSerializer(Serializer[T]):
+    class_type: type[T]
     property_generators: list[FieldSerializer]
 
     def __init__(self, class_type: type[T], context: Optional[ModuleType]) -> None:
+        self.class_type = class_type
+
+    def build(self, context: Optional[ModuleType]) -> None:
         self.property_generators = [
             FieldSerializer(
                 field_name,
                 python_field_to_json_property(field_name, field_type),
                 _get_serializer(field_type, context),
             )
-            for field_name, field_type in get_class_properties(class_type)
+            for field_name, field_type in get_class_properties(self.class_type)
         ]
 
     def generate(self, obj: T) -> dict[str, JsonType]:
@@ -418,10 +428,28 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
         return _create_serializer(typ, context)
 
 
-@functools.lru_cache(maxsize=None)
+_CACHE: dict[type, Serializer] = {}
+
+
 def _fetch_serializer(typ: type) -> Serializer:
-    context = sys.modules[typ.__module__]
-    return _create_serializer(typ, context)
+    serializer = _CACHE.get(typ)
+    if serializer is None:
+        context = sys.modules[typ.__module__]
+        serializer = _create_serializer(typ, context)
+
+        # store serializer immediately in cache to avoid stack overflow for recursive types
+        _CACHE[typ] = serializer
+
+        try:
+            serializer.build(context)
+        except BaseException:
+            # discard incomplete serializer and all others that may refer to it
+            keys = list(_CACHE)
+            for key in keys[keys.index(typ) :]:
+                del _CACHE[key]
+            raise
+
+    return serializer
 
 
 def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
-- 
2.43.0


From 82459089e402fcdc70a80bc3c04b4b327e62deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:06 +0000
Subject: [PATCH 07/33] fix: honor property aliases and annotated forward
 references when writing postponed annotations

---
 strong_typing/serializer.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 895a439..393a766 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -298,14 +298,19 @@ class TypedClassSerializer(Serializer[T]):
         self.class_type = class_type
 
     def build(self, context: Optional[ModuleType]) -> None:
-        self.property_generators = [
-            FieldSerializer(
-                field_name,
-                python_field_to_json_property(field_name, field_type),
-                _get_serializer(field_type, context),
+        self.property_generators = []
+        for field_name, field_type in get_class_properties(self.class_type):
+            if isinstance(field_type, str) and context is not None:
+                # annotation evaluation is postponed
+                field_type = evaluate_type(field_type, context)
+
+            self.property_generators.append(
+                FieldSerializer(
+                    field_name,
+                    python_field_to_json_property(field_name, field_type),
+                    _get_serializer(field_type, context),
+                )
             )
-            for field_name, field_type in get_class_properties(self.class_type)
-        ]
 
     def generate(self, obj: T) -> dict[str, JsonType]:
         object_dict: dict[str, JsonType] = {}
@@ -516,7 +521,7 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return LiteralSerializer(typing.get_args(typ), context)
 
     if is_type_annotated(typ):
-        return create_serializer(unwrap_annotated_type(typ))
+        return _get_serializer(unwrap_annotated_type(typ), context)
 
     # check if object has custom serialization method
     convert_func = getattr(typ, "to_json", None)
-- 
2.43.0


From 4d4707b9a6c85af2f432f0b31e85d748865c6a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 08/33] fix: keep dependencies of types returned by the
 dependency function, and accept iterators when sorting types

---
 strong_typing/topological.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 3bb93c7..55526d6 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -65,6 +65,7 @@ def type_topological_sort(
     :returns: The list of types in topological order.
     """
 
+    types = list(types)
     if not all(isinstance(typ, type) for typ in types):
         raise TypeError("expected a list of types")
 
@@ -75,10 +76,10 @@ def type_topological_sort(
     if dependency_fn:
         new_types: set[type] = set()
         for source_type, references in graph.items():
-            dependent_types = dependency_fn(source_type)
+            dependent_types = list(dependency_fn(source_type))
             references.update(dependent_types)
             new_types.update(dependent_types)
         for new_type in new_types:
-            graph[new_type] = set()
+            graph.setdefault(new_type, set())
 
     return topological_sort(graph)
-- 
2.43.0


From 62db0a5dac8f97f29123aa1b67195a4b0d883888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 09/33] fix: take tuple length and unions written as X | Y into
 account in run-time instance checks

---
 strong_typing/inspection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 27e4508..49a9593 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -860,7 +860,7 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
         set_obj: set = obj
         return all(is_generic_instance(item, set_member_type) for item in set_obj)
     elif origin_type is tuple:
-        if not isinstance(obj, tuple):
+        if not isinstance(obj, tuple) or len(obj) != len(typing.get_args(typ)):
             return False
         return all(
             is_generic_instance(item, tuple_item_type)
@@ -869,7 +869,7 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
                 (item for item in obj),
             )
         )
-    elif origin_type is Union:
+    elif _is_union_like(typ):
         return any(is_generic_instance(obj, member_type) for member_type in typing.get_args(typ))
     elif isinstance(typ, type):
         return isinstance(obj, typ)
@@ -943,6 +943,8 @@ class RecursiveChecker:
         elif origin_type is tuple:
             if not isinstance(obj, tuple):
                 raise TypeError(f"expected `tuple` but got: {obj}")
+            if len(obj) != len(typing.get_args(typ)):
+                raise TypeError(f"expected `tuple` of length {len(typing.get_args(typ))} but got: {obj}")
             return all(
                 self.check(tuple_item_type, item)
                 for tuple_item_type, item in zip(
@@ -950,7 +952,7 @@ class RecursiveChecker:
                     (item for item in obj),
                 )
             )
-        elif origin_type is Union:
+        elif _is_union_like(typ):
             return self.pred(typ, obj)  # type: ignore[arg-type]
 
         if not inspect.isclass(typ):
-- 
2.43.0


From 7761057fd23329f55e560aae8dad29da83a121d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:17 +0000
Subject: [PATCH 10/33] fix: use the JSON property name of members that clash
 with a keyword in schemas

---
 strong_typing/schema.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 81f8930..082ac25 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -19,12 +19,11 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import Alias, IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
-    get_annotation,
     get_class_properties,
     is_type_enum,
     is_type_like,
@@ -33,6 +32,7 @@ from .inspection import (
     unwrap_optional_type,
     unwrap_union_types,
 )
+from .mapping import python_field_to_json_property
 from .name import python_type_to_name
 from .serialization import object_to_json
 
@@ -432,12 +432,8 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
-            # rename property if an alias name is specified
-            alias = get_annotation(property_type, Alias)
-            if alias:
-                output_name = alias.name
-            else:
-                output_name = property_name
+            # use the same property name as when the property is read or written
+            output_name = python_field_to_json_property(property_name, property_type)
 
             if is_type_optional(property_type):
                 optional_type: type = unwrap_optional_type(property_type)
-- 
2.43.0


From a974d1b0d1086b616b92cb22df4692019bc8b4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:23 +0000
Subject: [PATCH 11/33] fix: generate string schema for IP addresses

---
 strong_typing/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 082ac25..943497e 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -10,6 +10,7 @@ import decimal
 import enum
 import functools
 import inspect
+import ipaddress
 import json
 import typing
 import uuid
@@ -260,6 +261,12 @@ class JsonSchemaGenerator:
         elif typ is uuid.UUID:
             # f81d4fae-7dec-11d0-a765-00a0c91e6bf6
             return {"type": "string", "format": "uuid"}
+        elif typ is ipaddress.IPv4Address:
+            # 192.0.2.1
+            return {"type": "string", "format": "ipv4"}
+        elif typ is ipaddress.IPv6Address:
+            # 2001:db8::1
+            return {"type": "string", "format": "ipv6"}
         elif typ is Any:
             return {
                 "oneOf": [
-- 
2.43.0


From 7101db85c3a0d5c79f5de8b26cdb1740f635199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:29 +0000
Subject: [PATCH 12/33] fix: generate enumeration schema for literals with
 several values

---
 strong_typing/schema.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 943497e..ca9f27c 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -423,9 +423,17 @@ class JsonSchemaGenerator:
                 "prefixItems": [self.type_to_schema(member_type) for member_type in args],
             }
         elif origin_type is Literal:
-            (literal_value,) = typing.get_args(typ)  # unpack value of literal type
-            schema = self.type_to_schema(type(literal_value))
-            schema["const"] = literal_value
+            literal_values = typing.get_args(typ)
+            literal_types = list(dict.fromkeys(type(value) for value in literal_values))
+            if len(literal_types) != 1:
+                raise ValueError(
+                    f"literals must have a consistent value type but several types found: {literal_types}"
+                )
+            schema = self.type_to_schema(literal_types[0])
+            if len(literal_values) == 1:
+                schema["const"] = literal_values[0]
+            else:
+                schema["enum"] = list(literal_values)
             return schema
         elif origin_type is type:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
-- 
2.43.0


From 6ffcc000f2ea50c072c14a2a282680d69c29d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:35 +0000
Subject: [PATCH 13/33] fix: generate schema for optional types that are not
 class members

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index ca9f27c..4b344a0 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -375,7 +375,7 @@ class JsonSchemaGenerator:
                     enum_schema.update(docstring_to_schema(typ))
                 return enum_schema
 
-        if is_type_union(typ):
+        if is_type_union(typ) or is_type_optional(typ):
             return {"oneOf": [self.type_to_schema(union_type) for union_type in unwrap_union_types(typ)]}
 
         origin_type = typing.get_origin(typ)
-- 
2.43.0


From bc9c43d6a94a9a84e48ed33e498ef8f854e36d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:03 +0000
Subject: [PATCH 14/33] fix: leave internal root node out of sorted types

---
 strong_typing/topological.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 55526d6..4908653 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -6,7 +6,7 @@ Type-safe data interchange for Python data classes.
 
 from typing import Callable, Iterable, Optional, TypeVar
 
-from .inspection import TypeCollector
+from .inspection import _ROOT, TypeCollector
 
 T = TypeVar("T")
 
@@ -71,7 +71,7 @@ def type_topological_sort(
 
     collector = TypeCollector()
     collector.traverse_all(types)
-    graph = collector.graph
+    graph = {typ: references for typ, references in collector.graph.items() if typ is not _ROOT}
 
     if dependency_fn:
         new_types: set[type] = set()
-- 
2.43.0


From cff6f39e27aa2b71000cc9a29102c517dd8ebbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 15/33] fix: write and read negative durations, and reject
 trailing newline and out-of-range durations with JsonValueError

---
 strong_typing/deserializer.py | 18 +++++++++++-------
 strong_typing/serializer.py   |  3 +++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 8ee257d..dc98100 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -197,14 +197,14 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
             raise JsonTypeError(f"`timedelta` type expects JSON `string` data but instead received: {data}")
 
         pattern = re.compile(
-            r"^P"  # starts with 'P'
+            r"^(?P<sign>-)?P"  # starts with 'P' (with a minus sign for negative durations)
             r"(?:(?P<weeks>\d+)W)?"  # optional weeks
             r"(?:(?P<days>\d+)D)?"  # optional days
             r"(?:T"  # start of time part
             r"(?:(?P<hours>\d+)H)?"  # optional hours
             r"(?:(?P<minutes>\d+)M)?"  # optional minutes
             r"(?:(?P<seconds>\d+)(?:\.(?P<fractional>\d{1,9}))?S)?"  # optional seconds (integer and fractional part)
-            r")?$",  # end of time part
+            r")?\Z",  # end of time part
             flags=re.ASCII,
         )
 
@@ -230,11 +230,15 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
         if nanoseconds % 1000 != 0:  # timedelta type supports microsecond precision only
             raise JsonValueError(f"`timedelta` type supports microsecond precision only but received: {data}")
 
-        return datetime.timedelta(
-            days=7 * weeks + days,
-            seconds=3600 * hours + 60 * minutes + seconds,
-            microseconds=nanoseconds // 1000,
-        )
+        sign = -1 if parts["sign"] else 1
+        try:
+            return datetime.timedelta(
+                days=sign * (7 * weeks + days),
+                seconds=sign * (3600 * hours + 60 * minutes + seconds),
+                microseconds=sign * (nanoseconds // 1000),
+            )
+        except OverflowError as ex:
+            raise JsonValueError(f"`timedelta` type cannot represent a duration as long as: {data}") from ex
 
 
 class UUIDDeserializer(Deserializer[uuid.UUID]):
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 393a766..b301e02 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -108,6 +108,9 @@ class TimeSerializer(Serializer[datetime.time]):
 
 class TimeDeltaSerializer(Serializer[datetime.timedelta]):
     def generate(self, obj: datetime.timedelta) -> str:
+        if obj.days < 0:
+            return f"-{self.generate(-obj)}"
+
         if obj.days != 0:
             day_component = f"{obj.days}D"
         else:
-- 
2.43.0


From 179612c5b16b4ef6b2b30d6a99ee529ca1c116e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:45 +0000
Subject: [PATCH 16/33] fix: reject integers too large for a float with
 JsonValueError

---
 strong_typing/deserializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index dc98100..ff0e5e8 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -127,7 +127,10 @@ class FloatDeserializer(Deserializer[float]):
     def parse(self, data: JsonType) -> float:
         if not isinstance(data, float) and not isinstance(data, int):
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
-        return float(data)
+        try:
+            return float(data)
+        except OverflowError as ex:
+            raise JsonValueError(f"`float` type cannot represent a number as large as: {data}") from ex
 
 
 class StringDeserializer(Deserializer[str]):
-- 
2.43.0


From 2f47901365c8e1154b0f13d6f7bbb8e933905016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:52 +0000
Subject: [PATCH 17/33] fix: escape enumeration values in property name
 patterns

---
 strong_typing/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 4b344a0..9b827c2 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -12,6 +12,7 @@ import functools
 import inspect
 import ipaddress
 import json
+import re
 import typing
 import uuid
 from copy import deepcopy
@@ -393,7 +394,7 @@ class JsonSchemaGenerator:
                 enum_values = [str(e.value) for e in key_type]
                 if len(enum_values) > OBJECT_ENUM_EXPANSION_LIMIT:
                     dict_schema = {
-                        "propertyNames": {"pattern": "^(" + "|".join(enum_values) + ")$"},
+                        "propertyNames": {"pattern": "^(" + "|".join(re.escape(value) for value in enum_values) + ")$"},
                         "additionalProperties": value_schema,
                     }
                 else:
-- 
2.43.0


From 87fc6bf93a160b0ccfbbd1cc0cff670732d8ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:57 +0000
Subject: [PATCH 18/33] fix: represent integer ranges that exceed 64 bits with
 an unrestricted integer type

---
 strong_typing/classdef.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index e129a41..0f2baec 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -134,8 +134,10 @@ def integer_range_to_type(min_value: float, max_value: float) -> type:
         return int16
     elif min_value >= -(2**31) and max_value < 2**31:
         return int32
-    else:
+    elif min_value >= -(2**63) and max_value < 2**63:
         return int64
+    else:
+        return int
 
 
 def enum_safe_name(name: str) -> str:
-- 
2.43.0


From 9321cbd6a1355098803dfe39edb2b73e77acea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:05 +0000
Subject: [PATCH 19/33] fix: keep enumeration values whose member names clash

---
 strong_typing/classdef.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 0f2baec..fc09718 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -296,10 +296,16 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
             string_type = ipaddress.IPv6Address
 
         elif node.enum is not None:
+            enum_values: dict[str, str] = {}
+            for value in node.enum:
+                safe_name = enum_safe_name(value)
+                while safe_name in enum_values:  # distinct values may map to the same name
+                    safe_name = f"{safe_name}_v"
+                enum_values[safe_name] = value
             string_type = enum_values_to_type(
                 module,
                 context,
-                {enum_safe_name(e): e for e in node.enum},
+                enum_values,
                 title=node.title,
                 description=node.description,
             )
-- 
2.43.0


From 194454bef0a9b03ff860c097a85b774e27e71950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:11 +0000
Subject: [PATCH 20/33] fix: print empty tuple type as a valid type expression

---
 strong_typing/name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index c52d34c..b53eb52 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -152,7 +152,7 @@ class TypeFormatter:
             else:
                 origin_name = origin.__name__
 
-            args = ", ".join(self.python_type_to_str(t) for t in data_type_args)
+            args = ", ".join(self.python_type_to_str(t) for t in data_type_args) or "()"
             return f"{origin_name}[{args}]"
 
         if not isinstance(data_type, type):
-- 
2.43.0


From d1e3b0e9c36a4ae1c919c0ae0d9a9c102c2dfc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:16 +0000
Subject: [PATCH 21/33] fix: keep object properties without members when
 flattening a schema

---
 strong_typing/classdef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index fc09718..6826aaf 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -405,7 +405,7 @@ class SchemaFlattener:
         target_reqs: list[str] = []
 
         for name, prop in source_props.items():
-            if not isinstance(prop, JsonSchemaObject):
+            if not isinstance(prop, JsonSchemaObject) or prop.properties is None:
                 target_props[name] = prop
                 if name in source_reqs:
                     target_reqs.append(name)
-- 
2.43.0


From a9dba12e1927bc9f2485c655d620052349a340ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:21 +0000
Subject: [PATCH 22/33] fix: read classes that have a member called self

---
 strong_typing/deserializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index ff0e5e8..e557611 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -704,7 +704,7 @@ class ClassDeserializer(RecursiveDeserializer[T]):
 
         return self.create(**field_values)
 
-    def create(self, **field_values: Any) -> T:
+    def create(self, /, **field_values: Any) -> T:
         "Instantiates an object with a collection of property values."
 
         obj: T = create_object(self.class_type)
@@ -737,7 +737,7 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
 
         super().assign(property_parsers)
 
-    def create(self, **field_values: Any) -> NamedTuple:
+    def create(self, /, **field_values: Any) -> NamedTuple:
         return typing.cast(NamedTuple, self.class_type(**field_values))
 
 
@@ -787,7 +787,7 @@ class DataclassDeserializer(ClassDeserializer[T]):
 class FrozenDataclassDeserializer(DataclassDeserializer[T]):
     "De-serializes a frozen data class from a JSON `object`."
 
-    def create(self, **field_values: Any) -> T:
+    def create(self, /, **field_values: Any) -> T:
         "Instantiates an object with a collection of property values."
 
         # create object instance without calling `__init__`
-- 
2.43.0


From ddf9eec953aabdeaf4f7b4f275f486117d90cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:13 +0000
Subject: [PATCH 23/33] fix: accept None as a type argument of built-in generic
 types

---
 strong_typing/deserializer.py | 3 +++
 strong_typing/schema.py       | 2 +-
 strong_typing/serializer.py   | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index e557611..6dc04c9 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -868,6 +868,9 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
 
     cache_key: Optional[tuple[Any, ...]] = None
 
+    if typ is None:
+        typ = type(None)  # e.g. `list[None]`, built-in generic types retain `None` as a type argument
+
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 9b827c2..138900a 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -233,7 +233,7 @@ class JsonSchemaGenerator:
         :returns: The schema for a simple type, or `None`.
         """
 
-        if typ is type(None):
+        if typ is None or typ is type(None):
             return {"type": "null"}
         elif typ is bool:
             return {"type": "boolean"}
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index b301e02..0147786 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -423,6 +423,9 @@ def create_serializer(typ: TypeLike, context: Optional[ModuleType] = None) -> Se
 
 
 def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
+    if typ is None:
+        typ = type(None)  # e.g. `list[None]`, built-in generic types retain `None` as a type argument
+
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
-- 
2.43.0


From fce3b75201b698b4e1485ff91e4275f725b4c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:03 +0000
Subject: [PATCH 24/33] fix: print annotations in their order when a
 fixed-width type has extra annotations

---
 strong_typing/name.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index b53eb52..10729dd 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -188,7 +188,6 @@ class TypeFormatter:
             arg = typing.get_args(data_type)[0]
 
             # check for auxiliary types with user-defined annotations
-            metaset = set(metatuple)
             for auxiliary_type, auxiliary_name in _auxiliary_types.items():
                 auxiliary_arg = typing.get_args(auxiliary_type)[0]
                 if arg is not auxiliary_arg:
@@ -198,9 +197,10 @@ class TypeFormatter:
                 if auxiliary_metatuple is None:
                     continue
 
-                if metaset.issuperset(auxiliary_metatuple):
+                extra_metatuple = metatuple[len(auxiliary_metatuple) :]
+                if extra_metatuple and auxiliary_metatuple == metatuple[: len(auxiliary_metatuple)]:
                     # type is an auxiliary type with extra annotations
-                    auxiliary_args = ", ".join(repr(m) for m in metatuple if m not in auxiliary_metatuple)
+                    auxiliary_args = ", ".join(repr(m) for m in extra_metatuple)
                     return f"Annotated[{auxiliary_name}, {auxiliary_args}]"
 
             # type is an annotated type
-- 
2.43.0


From 1a7b1fe9bb3cc1ea34792e6c8ada089cbfe95b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:11 +0000
Subject: [PATCH 25/33] fix: create valid member names for empty and reserved
 enumeration values

---
 strong_typing/classdef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 6826aaf..0904153 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -144,7 +144,7 @@ def enum_safe_name(name: str) -> str:
     name = re.sub(r"\W", "_", name)
     is_dunder = name.startswith("__")
     is_sunder = name.startswith("_") and name.endswith("_")
-    if is_dunder or is_sunder:  # provide an alternative for dunder and sunder names
+    if is_dunder or is_sunder or name in ("", "mro"):  # provide an alternative for reserved names
         name = f"v{name}"
     return name
 
-- 
2.43.0


From ff8f029d5906a7b9698539b49845e25fcdbdac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 26/33] fix: let schema definitions refer to each other in any
 order

---
 strong_typing/classdef.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 0904153..92f3199 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -208,7 +208,11 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
             raise ValueError(f"invalid reference: {node.ref}")
 
         type_name = match_obj.group(1)
-        return TypeDef(getattr(module, type_name), dataclasses.MISSING)
+        if hasattr(module, type_name):
+            return TypeDef(getattr(module, type_name), dataclasses.MISSING)
+        else:
+            # definition that has yet to be created, or refers to itself
+            return TypeDef(typing.ForwardRef(type_name, module=module.__name__), dataclasses.MISSING)
 
     elif isinstance(node, JsonSchemaBoolean):
         if node.const is not None:
-- 
2.43.0


From 4b3093e3353cfe5d3456688498d8db38d0eb7d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:24 +0000
Subject: [PATCH 27/33] fix: accept schema definitions that do not stand for a
 class

---
 strong_typing/classdef.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 92f3199..22e00ae 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -182,7 +182,6 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
             if type_def.default is not dataclasses.MISSING:
                 raise TypeError("disallowed: `default` for top-level type definitions")
 
-            type_def.type.__module__ = module.__name__
             setattr(module, type_name, type_def.type)
 
     return node_to_typedef(module, class_name, top_node).type
-- 
2.43.0


From 12a01d48920c038bd67df51b21e585c683d4f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:11 +0000
Subject: [PATCH 28/33] fix: define registered types that are only mentioned by
 forward references in schemas

---
 strong_typing/schema.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 138900a..b62a02f 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -25,6 +25,7 @@ from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxili
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
+    evaluate_member_type,
     enum_value_types,
     get_class_properties,
     is_type_enum,
@@ -169,6 +170,12 @@ class TypeCatalog:
         else:
             return self._by_type[data_type]
 
+    def find(self, identifier: str) -> Optional[TypeLike]:
+        "Returns the type registered with the given name."
+
+        entry = self._by_name.get(identifier)
+        return next((data_type for data_type, e in self._by_type.items() if e is entry), None)
+
     def __repr__(self) -> str:
         return f"{type(self).__name__}({repr(self._by_name)})"
 
@@ -340,6 +347,9 @@ class JsonSchemaGenerator:
                     self.types_used[identifier] = true_type
                 except NameError:
                     identifier = id_from_ref(typ)
+                    registered_type = type_catalog.find(identifier)
+                    if registered_type is not None:
+                        self.types_used.setdefault(identifier, registered_type)
 
                 return {"$ref": f"{self.options.definitions_path}{identifier}"}
 
@@ -448,6 +458,10 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
+            if isinstance(property_type, str):
+                # annotation evaluation is postponed
+                property_type = evaluate_member_type(property_type, typ)
+
             # use the same property name as when the property is read or written
             output_name = python_field_to_json_property(property_name, property_type)
 
-- 
2.43.0


From 0337f89926bac40e7dee67dde7cff8d54b6539c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:45 +0000
Subject: [PATCH 29/33] fix: define registered types referenced by forward
 reference in unions and optional types

---
 strong_typing/schema.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index b62a02f..f7d6932 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -314,6 +314,8 @@ class JsonSchemaGenerator:
         if not force_expand and data_type in type_catalog:
             # user-defined type
             identifier = type_catalog.get(data_type).identifier
+            if isinstance(data_type, typing.ForwardRef):
+                data_type = type_catalog.find(identifier)
             self.types_used.setdefault(identifier, data_type)
             return {"$ref": f"{self.options.definitions_path}{identifier}"}
 
-- 
2.43.0


From fe7e761acd462f97f04c863d9bb1bc8035d2ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 30/33] fix: accept None as a type argument when collecting
 dependent types

---
 strong_typing/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 49a9593..4317c01 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -646,7 +646,7 @@ class TypeCollector:
         :returns: Types referenced by the given type or special form.
         """
 
-        if typ is type(None) or typ is Any:
+        if typ is None or typ is type(None) or typ is Any:
             return
 
         origin = typing.get_origin(typ)
-- 
2.43.0


From 52166b808967f3f6d30a83c511b6378a95cfd303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 31/33] fix: from_json of named tuples and enumerations was
 ignored when reading

---
 strong_typing/deserializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 6dc04c9..7a79aa0 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -995,17 +995,17 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
         else:
             raise TypeError(f"unable to de-serialize unrecognized type: {typ}")
 
+    # check if object has custom serialization method
+    convert_func = getattr(typ, "from_json", None)
+    if callable(convert_func):
+        return CustomDeserializer(convert_func)
+
     if issubclass(typ, enum.Enum):
         return EnumDeserializer(typ)
 
     if is_named_tuple_type(typ):
         return NamedTupleDeserializer(typ, options)
 
-    # check if object has custom serialization method
-    convert_func = getattr(typ, "from_json", None)
-    if callable(convert_func):
-        return CustomDeserializer(convert_func)
-
     if is_dataclass_type(typ):
         dataclass_params = getattr(typ, "__dataclass_params__", None)
         if dataclass_params is not None and dataclass_params.frozen:
-- 
2.43.0


From f32da226b85f13b42ddad65e7c3139a1c35a22d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:12 +0000
Subject: [PATCH 32/33] fix: check_recursive skipped IP addresses and decimals,
 and refused annotated and literal members

---
 strong_typing/inspection.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 4317c01..ef4bc5d 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -8,11 +8,13 @@ Type-safe data interchange for Python data classes.
 
 import dataclasses
 import datetime
+import decimal
 import enum
 import importlib
 import importlib.machinery
 import importlib.util
 import inspect
+import ipaddress
 import re
 import sys
 import types
@@ -904,9 +906,13 @@ class RecursiveChecker:
         :returns: True if all member properties pass the filter predicate.
         """
 
+        if is_type_annotated(typ):
+            return self.check(unwrap_annotated_type(typ), obj)
+
         # check for well-known types
         if (
-            typ is type(None)
+            typ is Any
+            or typ is type(None)
             or typ is bool
             or typ is int
             or typ is float
@@ -916,7 +922,10 @@ class RecursiveChecker:
             or typ is datetime.date
             or typ is datetime.time
             or typ is datetime.timedelta
+            or typ is decimal.Decimal
             or typ is uuid.UUID
+            or typ is ipaddress.IPv4Address
+            or typ is ipaddress.IPv6Address
         ):
             return self.pred(typing.cast(type, typ), obj)
 
@@ -952,7 +961,7 @@ class RecursiveChecker:
                     (item for item in obj),
                 )
             )
-        elif _is_union_like(typ):
+        elif _is_union_like(typ) or is_type_literal(typ):
             return self.pred(typ, obj)  # type: ignore[arg-type]
 
         if not inspect.isclass(typ):
-- 
2.43.0


From 3fc87d67cfe8f756652aae7a699a8e3d0aff9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:01 +0000
Subject: [PATCH 33/33] fix: string enumeration value that looks private to its
 class was lost

---
 strong_typing/classdef.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 22e00ae..cb29eec 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -140,11 +140,12 @@ def integer_range_to_type(min_value: float, max_value: float) -> type:
         return int
 
 
-def enum_safe_name(name: str) -> str:
+def enum_safe_name(name: str, class_name: str) -> str:
     name = re.sub(r"\W", "_", name)
     is_dunder = name.startswith("__")
     is_sunder = name.startswith("_") and name.endswith("_")
-    if is_dunder or is_sunder or name in ("", "mro"):  # provide an alternative for reserved names
+    is_private = name.startswith(f"_{class_name}__")  # looks like a name mangled for the class
+    if is_dunder or is_sunder or is_private or name in ("", "mro"):  # provide an alternative for reserved names
         name = f"v{name}"
     return name
 
@@ -301,7 +302,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
         elif node.enum is not None:
             enum_values: dict[str, str] = {}
             for value in node.enum:
-                safe_name = enum_safe_name(value)
+                safe_name = enum_safe_name(value, context)
                 while safe_name in enum_values:  # distinct values may map to the same name
                     safe_name = f"{safe_name}_v"
                 enum_values[safe_name] = value
-- 
2.43.0

