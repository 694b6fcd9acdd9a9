From 89f168d4a8c3f2090713396f7d0876c3e8de0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 01/54] fix: reject a single trailing byte when loading a
 struct in exact mode

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 64bdb03..fbf7be0 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -551,9 +551,9 @@ class Struct(HasStruct):
         loaded_data = cls.from_stream(stream, context, init_kwargs)
 
         here = stream.tell()
-        if exact and (here < len(data) - 1):
+        if exact and (here < len(data)):
             raise errors.ExtraneousDataError(
-                f"Read {here + 1} bytes, but there are {len(data)} in the input data.",
+                f"Read {here} bytes, but there are {len(data)} in the input data.",
                 offset=stream.tell(),
             )
         return loaded_data
-- 
2.43.0


From 2c09c2788b60b60b9e22a38201cc6de3f3d3ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 02/54] fix: don't lose timestamp precision by converting
 through floats

---
 binobj/fields/numeric.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 45a4eb5..aae3da2 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import datetime
+import fractions
 import struct
 import sys
 import warnings
@@ -394,7 +395,7 @@ class Timestamp(Field[datetime.datetime]):
     .. seealso:: :class:`.Timestamp32`, :class:`.Timestamp64`
     """
 
-    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 1e3, "us": 1e6, "ns": 1e9}
+    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
 
     def __init__(
         self,
@@ -428,11 +429,13 @@ class Timestamp(Field[datetime.datetime]):
         value = helpers.read_int(
             stream, self.get_expected_size(loaded_fields), self.signed, self.endian
         )
-        if not self.tz_aware:
-            return datetime.datetime.fromtimestamp(value / self._units)
-        return datetime.datetime.fromtimestamp(
-            value / self._units, datetime.timezone.utc
-        )
+        # Floats can't represent present-day timestamps to the microsecond, so only the
+        # whole seconds go through fromtimestamp().
+        seconds, fraction = divmod(value, self._units)
+        microsecond = fraction * 10**6 // self._units
+        timezone = datetime.timezone.utc if self.tz_aware else None
+        loaded = datetime.datetime.fromtimestamp(seconds, timezone)
+        return loaded.replace(microsecond=microsecond)
 
     @override
     def _do_dump(
@@ -457,7 +460,14 @@ class Timestamp(Field[datetime.datetime]):
                 stacklevel=2,
             )
 
-        timestamp = int(data.timestamp() * self._units)
+        # Floats can't represent present-day timestamps to the microsecond, so only the
+        # whole seconds go through timestamp().
+        since_epoch = datetime.timedelta(
+            seconds=data.replace(microsecond=0).timestamp(),
+            microseconds=data.microsecond,
+        )
+        microseconds = since_epoch // datetime.timedelta(microseconds=1)
+        timestamp = int(fractions.Fraction(microseconds * self._units, 10**6))
         try:
             helpers.write_int(
                 stream,
-- 
2.43.0


From 9994d7eb5073ae545efeb9fdee2b342f8dd989b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 03/54] fix: report too-large floats as a serialization error

---
 binobj/fields/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index aae3da2..4fef6ea 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -111,7 +111,7 @@ class Float(Field[float]):
     ) -> None:
         try:
             serialized = struct.pack(self.format_string, data)
-        except struct.error as exc:
+        except (struct.error, OverflowError) as exc:
             raise errors.SerializationError(message=str(exc), field=self) from exc
         stream.write(serialized)
 
-- 
2.43.0


From 53047ade1725ac376e4f93c60adc6d94c21e23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 04/54] fix: apply null, const and validators of a union's
 field when loading

---
 binobj/fields/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 61954ee..7b3b290 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -492,7 +492,7 @@ class Union(Field[Any]):
     ) -> Any:
         loader = self.load_decider(stream, self.choices, context, loaded_fields)
         if isinstance(loader, Field):
-            return loader._do_load(stream, context, loaded_fields)  # noqa: SLF001
+            return loader.from_stream(stream, context, loaded_fields)
         if isinstance(loader, type) and issubclass(loader, Struct):
             return loader.from_stream(stream, context)
         raise TypeError(
-- 
2.43.0


From 6abc7c1c60d744e4065f0eec7c3798318c542823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:33 +0000
Subject: [PATCH 05/54] fix: use the factory's value when dumping a struct

---
 binobj/fields/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 07f7fc7..1c394fa 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -440,11 +440,11 @@ class Field(Generic[T]):
         if self.name in all_values:
             # The value is already set in the struct so we don't need to do anything.
             value_to_dump = all_values[self.name]
-        elif self._default is not UNDEFINED:
+        elif (default := self.default) is not UNDEFINED:
             # The value is *not* set in the struct. Either this field must have a
             # default value, or it must be a computed field. Check for default values
             # here.
-            value_to_dump = self.default
+            value_to_dump = default
         elif self._compute_fn is not None:
             # This is a computed field.
             value_to_dump = self._compute_fn(self, all_values)
-- 
2.43.0


From e99825b430716874ea380e386b0ab804e338953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 06/54] fix: dump the values given for fields marked with
 discard

---
 binobj/structures.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index fbf7be0..3d0c3e0 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -277,31 +277,44 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 
 @overload
-def recursive_to_dicts(item: Struct) -> dict[str, Any]: ...
+def recursive_to_dicts(
+    item: Struct, keep_discardable: bool = False
+) -> dict[str, Any]: ...
 
 
 @overload
-def recursive_to_dicts(item: Mapping[K, V]) -> dict[K, V]: ...
+def recursive_to_dicts(
+    item: Mapping[K, V], keep_discardable: bool = False
+) -> dict[K, V]: ...
 
 
 @overload
-def recursive_to_dicts(item: Sequence[T]) -> list[T]: ...
+def recursive_to_dicts(
+    item: Sequence[T], keep_discardable: bool = False
+) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object) -> Any:
+def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
 
     :param item:
         Anything. If it's an unsupported type it'll get returned as is.
+    :param bool keep_discardable:
+        If True, don't exclude fields marked with ``discard=True`` from the result.
     """
     if isinstance(item, Struct):
-        return item.to_dict()
+        return item.to_dict(keep_discardable)
     if isinstance(item, Mapping):
-        return {recursive_to_dicts(k): recursive_to_dicts(v) for k, v in item.items()}
+        return {
+            recursive_to_dicts(k, keep_discardable): recursive_to_dicts(
+                v, keep_discardable
+            )
+            for k, v in item.items()
+        }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v) for v in item]
+        return [recursive_to_dicts(v, keep_discardable) for v in item]
     return item
 
 
@@ -376,8 +389,9 @@ class Struct(HasStruct):
 
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
-        # fields expecting a dictionary.
-        all_fields = self.to_dict()
+        # fields expecting a dictionary. Fields with `discard` set are only dropped from
+        # what's loaded, so values given for them must be dumped like any other.
+        all_fields = self.to_dict(keep_discardable=True)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -439,7 +453,7 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct)
+        return recursive_to_dicts(dct, keep_discardable)
 
     def _to_dict_whatever_possible(self) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
-- 
2.43.0


From 40ed7df06449cc772930bf949d7a229db95b3abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 07/54] fix: don't pass the not-present marker to field
 validators

---
 binobj/structures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 3d0c3e0..0d09bf3 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -363,6 +363,10 @@ class Struct(HasStruct):
             f_obj = self.__binobj_struct__.components[f_name]
             value = self[f_name]
 
+            if value is fields.NOT_PRESENT:
+                # There's no value to validate.
+                continue
+
             # First, invoke the validators defined on the field object.
             for instance_validator in f_obj.validators:
                 instance_validator(value)
-- 
2.43.0


From f48343badd86e32f3688bd490c3da22b222fe9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 08/54] fix: decide the presence of fields with the caller's
 context when dumping

---
 binobj/structures.py | 53 +++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 0d09bf3..7db2cd7 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -278,23 +278,25 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 @overload
 def recursive_to_dicts(
-    item: Struct, keep_discardable: bool = False
+    item: Struct, keep_discardable: bool = False, context: object = None
 ) -> dict[str, Any]: ...
 
 
 @overload
 def recursive_to_dicts(
-    item: Mapping[K, V], keep_discardable: bool = False
+    item: Mapping[K, V], keep_discardable: bool = False, context: object = None
 ) -> dict[K, V]: ...
 
 
 @overload
 def recursive_to_dicts(
-    item: Sequence[T], keep_discardable: bool = False
+    item: Sequence[T], keep_discardable: bool = False, context: object = None
 ) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
+def recursive_to_dicts(
+    item: object, keep_discardable: bool = False, context: object = None
+) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
@@ -303,18 +305,20 @@ def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
         Anything. If it's an unsupported type it'll get returned as is.
     :param bool keep_discardable:
         If True, don't exclude fields marked with ``discard=True`` from the result.
+    :param context:
+        The context object given to the caller, for the fields' ``present`` callables.
     """
     if isinstance(item, Struct):
-        return item.to_dict(keep_discardable)
+        return item.to_dict(keep_discardable, context)
     if isinstance(item, Mapping):
         return {
-            recursive_to_dicts(k, keep_discardable): recursive_to_dicts(
-                v, keep_discardable
+            recursive_to_dicts(k, keep_discardable, context): recursive_to_dicts(
+                v, keep_discardable, context
             )
             for k, v in item.items()
         }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v, keep_discardable) for v in item]
+        return [recursive_to_dicts(v, keep_discardable, context) for v in item]
     return item
 
 
@@ -352,16 +356,25 @@ class Struct(HasStruct):
 
         self.__values__ = values
 
-    def validate_contents(self) -> None:
+    def validate_contents(self, context: object = None) -> None:
         """Validate the stored values in this struct.
 
+        :param context:
+            The context object passed to :meth:`to_stream`, for deciding which fields
+            without a value are present.
+
         :raise ~binobj.errors.ValidationError: Validation failed.
 
         .. versionadded:: 0.4.0
         """
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
-            value = self[f_name]
+            if f_name in self.__values__:
+                value = self.__values__[f_name]
+            else:
+                value = f_obj.compute_value_for_dump(
+                    typing.cast(StrDict, self), context
+                )
 
             if value is fields.NOT_PRESENT:
                 # There's no value to validate.
@@ -389,13 +402,13 @@ class Struct(HasStruct):
             Additional data to pass to this method. Subclasses must ignore anything they
             don't recognize.
         """
-        self.validate_contents()
+        self.validate_contents(context)
 
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
         # fields expecting a dictionary. Fields with `discard` set are only dropped from
         # what's loaded, so values given for them must be dumped like any other.
-        all_fields = self.to_dict(keep_discardable=True)
+        all_fields = self.to_dict(keep_discardable=True, context=context)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -416,7 +429,9 @@ class Struct(HasStruct):
         self.to_stream(stream, context)
         return stream.getvalue()
 
-    def to_dict(self, keep_discardable: bool = False) -> dict[str, Any]:
+    def to_dict(
+        self, keep_discardable: bool = False, context: object = None
+    ) -> dict[str, Any]:
         """Convert this struct into an ordered dictionary.
 
         The primary use for this method is converting a loaded :class:`Struct` into
@@ -425,6 +440,8 @@ class Struct(HasStruct):
 
         :param bool keep_discardable:
             If True, don't exclude fields marked with ``discard=True`` from the result.
+        :param context:
+            The context object to pass to the fields' ``present`` callables.
 
         :rtype: Dict[str, Any]
 
@@ -443,10 +460,10 @@ class Struct(HasStruct):
         .. versionchanged:: 0.6.1
             The ``keep_discardable`` argument was added.
         """
-        dct = self._to_dict_whatever_possible()
+        dct = self._to_dict_whatever_possible(context)
         dct.update(
             {
-                field.name: field.compute_value_for_dump(dct)
+                field.name: field.compute_value_for_dump(dct, context)
                 for field in self.__binobj_struct__.components.values()
                 if field.name not in dct
             }
@@ -457,9 +474,9 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct, keep_discardable)
+        return recursive_to_dicts(dct, keep_discardable, context)
 
-    def _to_dict_whatever_possible(self) -> dict[str, Any]:
+    def _to_dict_whatever_possible(self, context: object = None) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
 
         We use this to get values for all computed fields as well as any fields that
@@ -472,7 +489,7 @@ class Struct(HasStruct):
         for field in self.__binobj_struct__.components.values():
             try:
                 dct[field.name] = field.compute_value_for_dump(
-                    typing.cast(StrDict, self)
+                    typing.cast(StrDict, self), context
                 )
             except (errors.SerializationError, errors.UndefinedSizeError):  # noqa: PERF203
                 pass
-- 
2.43.0


From ba6e4e8bb0e1e6bcab275b414cd89b5812c1b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 09/54] fix: read sized null-terminated strings as exactly that
 many bytes

---
 binobj/fields/stringlike.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 36ef36c..c4ebb87 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -159,13 +159,12 @@ class StringZ(String):
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> str:
-        max_bytes: Optional[int]
-        try:
-            max_bytes = self.get_expected_size(loaded_fields)
-        except errors.UndefinedSizeError:
-            max_bytes = None
+        if self.size is not None:
+            # The field always takes up this many bytes, including whatever padding is
+            # behind the terminating null.
+            stream = io.BytesIO(self._read_exact_size(stream, loaded_fields))
 
-        iterator = helpers.iter_bytes(stream, max_bytes)
+        iterator = helpers.iter_bytes(stream)
         reader = codecs.iterdecode(iterator, self.encoding)
         result = io.StringIO()
 
-- 
2.43.0


From 79ccbbd7141e524a67bafdce5f43364049af1cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:50 +0000
Subject: [PATCH 10/54] fix: report an unterminated string at the end of the
 data as unexpected EOF

---
 binobj/fields/stringlike.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index c4ebb87..736dcfa 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -164,18 +164,23 @@ class StringZ(String):
             # behind the terminating null.
             stream = io.BytesIO(self._read_exact_size(stream, loaded_fields))
 
-        iterator = helpers.iter_bytes(stream)
-        reader = codecs.iterdecode(iterator, self.encoding)
+        offset = stream.tell()
+        decoder = codecs.getincrementaldecoder(self.encoding)()
         result = io.StringIO()
 
-        for char in reader:
+        for byte in helpers.iter_bytes(stream):
+            char = decoder.decode(byte)
             if char == "\0":
                 return result.getvalue()
             result.write(char)
 
         # If we get out here then we hit EOF before getting to the null terminator.
+        if self.size is None:
+            raise errors.UnexpectedEOFError(
+                field=self, size=stream.tell() - offset + 1, offset=offset
+            )
         raise errors.DeserializationError(
-            "Hit EOF before finding the trailing null.", field=self
+            "Hit the end of the field before finding the trailing null.", field=self
         )
 
     @override
-- 
2.43.0


From 3f505ad77181a97074611e6f69577184549dd93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 11/54] fix: don't report the size of default values as the
 size of a struct

---
 binobj/structures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 7db2cd7..1f8baba 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -191,10 +191,14 @@ class StructMetadata:
 
         .. versionadded:: 0.12.0
         """
+        field_objects = self.components.values()
         if field_values is None:
+            # A field that isn't of fixed size may have a default value, but that says
+            # nothing about the size of the other values it can take.
+            if not all(f.has_fixed_size for f in field_objects):
+                return None
             field_values = {}
 
-        field_objects = self.components.values()
         try:
             return sum(f.get_expected_size(field_values) for f in field_objects)
         except (errors.UndefinedSizeError, errors.MissingRequiredValueError):
-- 
2.43.0


From f4319a07caca25fd1d9ce40761fc8cacf04629b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 12/54] fix: don't treat fields that can be absent as having a
 static size

---
 binobj/fields/base.py       | 16 +++++++++++++++-
 binobj/fields/containers.py |  2 +-
 binobj/pep526.py            |  2 +-
 binobj/structures.py        |  4 ++--
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 1c394fa..59fd410 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -71,6 +71,11 @@ NOT_PRESENT = _NotPresent.token
 T = TypeVar("T")
 
 
+def _always_present(*_args: object) -> bool:
+    """The default for a field's ``present`` argument."""
+    return True
+
+
 class Field(Generic[T]):
     r"""The base class for all struct fields.
 
@@ -275,7 +280,7 @@ class Field(Generic[T]):
         null_value: Union[bytes, _Default, _Undefined, T] = UNDEFINED,
         size: Union[int, str, Field[int], None] = None,
         validate: Union[FieldValidator, Iterable[FieldValidator]] = (),
-        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = (lambda *_: True),
+        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = _always_present,
         not_present_value: Union[T, None, _NotPresent] = NOT_PRESENT,
     ):
         self.const = const
@@ -338,6 +343,15 @@ class Field(Generic[T]):
         """
         return isinstance(self.size, int)
 
+    @property
+    def has_static_size(self) -> bool:
+        """Does this field take up :attr:`size` bytes in every serialized struct?
+
+        Unlike :attr:`has_fixed_size` this takes into account that a field using the
+        ``present`` argument can be missing.
+        """
+        return self.has_fixed_size and self.present is _always_present
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 7b3b290..86cf425 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -114,7 +114,7 @@ class Array(Field[list[Optional[T]]]):
         else:
             raise TypeError("`count` must be an integer, string, or a `Field`.")
 
-        if isinstance(self.count, int) and component.has_fixed_size:
+        if isinstance(self.count, int) and component.has_static_size:
             self._size = self.count * typing.cast(int, component.size)
 
     def get_final_element_count(self, field_values: StrDict) -> Optional[int]:
diff --git a/binobj/pep526.py b/binobj/pep526.py
index 48b76f5..c8c4710 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -257,7 +257,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             raise errors.FieldRedefinedError(struct=class_object.__name__, field=name)
 
         field_instance.bind_to_container(meta, name, field_index, byte_offset)
-        if byte_offset is not None and field_instance.has_fixed_size:
+        if byte_offset is not None and field_instance.has_static_size:
             byte_offset += typing.cast(int, field_instance.size)
         else:
             byte_offset = None
diff --git a/binobj/structures.py b/binobj/structures.py
index 1f8baba..8fff086 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -195,7 +195,7 @@ class StructMetadata:
         if field_values is None:
             # A field that isn't of fixed size may have a default value, but that says
             # nothing about the size of the other values it can take.
-            if not all(f.has_fixed_size for f in field_objects):
+            if not all(f.has_static_size for f in field_objects):
                 return None
             field_values = {}
 
@@ -249,7 +249,7 @@ def collect_assigned_fields(
             raise errors.FieldRedefinedError(struct=class_metadata.name, field=item)
 
         item.bind_to_container(class_metadata, item_name, field_index, byte_offset)
-        if byte_offset is not None and item.has_fixed_size:
+        if byte_offset is not None and item.has_static_size:
             byte_offset += typing.cast(int, item.size)
         else:
             byte_offset = None
-- 
2.43.0


From 90c7846fced91f379ff5a3e0b1a8128a04de1963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 13/54] fix: don't treat fields with a null of another length
 as having a static size

---
 binobj/fields/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 59fd410..c665f69 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -348,8 +348,11 @@ class Field(Generic[T]):
         """Does this field take up :attr:`size` bytes in every serialized struct?
 
         Unlike :attr:`has_fixed_size` this takes into account that a field using the
-        ``present`` argument can be missing.
+        ``present`` argument can be missing, and that ``null_value`` can be a byte string
+        of another length.
         """
+        if isinstance(self.null_value, bytes) and len(self.null_value) != self.size:
+            return False
         return self.has_fixed_size and self.present is _always_present
 
     def bind_to_container(
-- 
2.43.0


From 5aaeb747ceef439d7a6c31dfeec4d2ecfb9259f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 14/54] fix: len() of structs with absent fields or fields
 depending on others

---
 binobj/structures.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 8fff086..ef10c25 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -802,14 +802,22 @@ class Struct(HasStruct):
         current_fields = self._to_dict_whatever_possible()
 
         for field in self.__binobj_struct__.components.values():
-            if field.has_fixed_size:
+            value = current_fields.get(field.name, fields.UNDEFINED)
+            if value is fields.NOT_PRESENT:
+                continue
+            if value is None and isinstance(field.null_value, bytes):
+                size += len(field.null_value)
+            elif field.has_fixed_size:
                 size += typing.cast(int, field.size)
             else:
                 try:
                     size += field.get_expected_size(current_fields)
                 except errors.Error:
-                    field_value = field.compute_value_for_dump(current_fields)
-                    size += len(field.to_bytes(field_value))
+                    field_value = recursive_to_dicts(
+                        field.compute_value_for_dump(current_fields),
+                        keep_discardable=True,
+                    )
+                    size += len(field.to_bytes(field_value, all_fields=current_fields))
 
         return size
 
-- 
2.43.0


From eaa4b526373ca1f07a2f775874e48559055b25fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 15/54] fix: get_field() of fields at a fixed offset that
 depend on other fields

---
 binobj/fields/base.py       |  7 +++++++
 binobj/fields/containers.py | 16 ++++++++++++++++
 binobj/structures.py        |  6 +++---
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index c665f69..e0d88c6 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -355,6 +355,13 @@ class Field(Generic[T]):
             return False
         return self.has_fixed_size and self.present is _always_present
 
+    @property
+    def is_self_contained(self) -> bool:
+        """Can this field be loaded without having loaded the fields before it?"""
+        return self.present is _always_present and not isinstance(
+            self.size, (str, Field)
+        )
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 86cf425..42df97a 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -117,6 +117,16 @@ class Array(Field[list[Optional[T]]]):
         if isinstance(self.count, int) and component.has_static_size:
             self._size = self.count * typing.cast(int, component.size)
 
+    @property
+    @override
+    def is_self_contained(self) -> bool:
+        return (
+            super().is_self_contained
+            and self.component.is_self_contained
+            and not isinstance(self.count, (str, Field))
+            and self.halt_check is Array.should_halt
+        )
+
     def get_final_element_count(self, field_values: StrDict) -> Optional[int]:
         """Calculate the number of elements in the array based on other fields' values.
 
@@ -467,6 +477,12 @@ class Union(Field[Any]):
         self.load_decider = load_decider
         self.dump_decider = dump_decider
 
+    @property
+    @override
+    def is_self_contained(self) -> bool:
+        # The deciders can look at any of the fields before this one.
+        return False
+
     @override
     def _do_dump(
         self, stream: BinaryIO, data: Any, context: object, all_fields: StrDict
diff --git a/binobj/structures.py b/binobj/structures.py
index ef10c25..7138a20 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -699,8 +699,8 @@ class Struct(HasStruct):
         original_offset = stream.tell()
 
         # If the field is at a fixed offset from the beginning of the struct, then we
-        # can read and return it directly.
-        if field.offset is not None:
+        # can read and return it directly unless it refers to other fields.
+        if field.offset is not None and field.is_self_contained:
             try:
                 stream.seek(original_offset + field.offset)
                 return field.from_stream(stream, context, {})
@@ -708,7 +708,7 @@ class Struct(HasStruct):
                 stream.seek(original_offset)
 
         # If we get here then the field is *not* at a fixed offset from the beginning of
-        # the struct, and we have to read everything up to it. This can unfortunately
+        # the struct (or needs the others), and we have to read everything up to it. This can unfortunately
         # result in validation errors if there is data before the desired field that's
         # invalid.
         try:
-- 
2.43.0


From 1ae2d49ca46953fa175e9a8dcd42470d3b944145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 16/54] fix: keep discarded fields available during partial
 loads and to get_field()

---
 binobj/structures.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 7138a20..e6cc8fe 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -636,6 +636,18 @@ class Struct(HasStruct):
                 f"{cls.__name__} doesn't have a field named {last_field!r}."
             )
 
+        result = cls._partial_load_values(stream, last_field, context)
+        for field in cls.__binobj_struct__.components.values():
+            if field.discard:
+                result.pop(field.name, None)
+
+        return cls(**result)
+
+    @classmethod
+    def _partial_load_values(
+        cls, stream: BinaryIO, last_field: Optional[str], context: object
+    ) -> MutableStrDict:
+        """Load the values for :meth:`partial_load`, including the ones to discard."""
         result: MutableStrDict = {}
 
         for field in cls.__binobj_struct__.components.values():
@@ -654,13 +666,12 @@ class Struct(HasStruct):
                 stream.seek(offset)
                 break
 
-            if not field.discard:
-                result[field.name] = value
+            result[field.name] = value
 
             if field.name == last_field:
                 break
 
-        return cls(**result)
+        return result
 
     @classmethod
     def get_field(cls, stream: BinaryIO, name: str, context: object = None) -> Any:
@@ -712,7 +723,7 @@ class Struct(HasStruct):
         # result in validation errors if there is data before the desired field that's
         # invalid.
         try:
-            loaded_data = cls.partial_load(stream, name, context)
+            loaded_data = cls._partial_load_values(stream, name, context)
         finally:
             stream.seek(original_offset)
         return loaded_data[name]
-- 
2.43.0


From 645f99e6e47e050404a6723c13fe0f02830bbaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 17/54] fix: partial dumps with computed, absent or dependent
 fields

---
 binobj/structures.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index e6cc8fe..2f5df4a 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -747,21 +747,21 @@ class Struct(HasStruct):
             Any object containing extra information to pass to the fields'
             :meth:`~binobj.fields.base.Field.from_stream` methods.
         """
-        data = self.__values__
+        all_fields = self._to_dict_whatever_possible(context)
 
         for field in self.__binobj_struct__.components.values():
-            value = data.get(field.name, field.default)
-            if value is fields.UNDEFINED:
+            if field.name not in all_fields:
                 # Field is missing from the dump data. If the caller wants us to dump
                 # only the fields that're defined, we can bail out now.
                 if last_field is None:
                     return
-                if field.required:
-                    # Caller wants us to dump up to and including ``last_field`` so we
-                    # need to crash.
-                    raise errors.MissingRequiredValueError(field=field)
+                # Caller wants us to dump up to and including ``last_field`` so we need
+                # to crash.
+                raise errors.MissingRequiredValueError(field=field)
 
-            field.to_stream(stream, value, context)
+            value = recursive_to_dicts(all_fields[field.name], True, context)
+            if value is not fields.NOT_PRESENT:
+                field.to_stream(stream, value, context, all_fields)
             if field.name == last_field:
                 return
 
-- 
2.43.0


From 8e3e70260a23d8cad846b59d6506de31af6a5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 18/54] fix: validator methods in structs declared with
 annotations

---
 binobj/pep526.py     | 1 +
 binobj/structures.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index c8c4710..07bd261 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -263,6 +263,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             byte_offset = None
 
         meta.components[name] = field_instance
+        meta.field_validators.setdefault(name, [])
         field_index += 1
         n_fields_found += 1
 
diff --git a/binobj/structures.py b/binobj/structures.py
index 2f5df4a..873766a 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -266,6 +266,8 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
     .. versionadded:: 0.9.0
     """
+    annotations = namespace.get("__annotations__", {})
+
     for item in namespace.values():
         if not isinstance(item, decorators.ValidatorMethodWrapper):
             continue
@@ -273,6 +275,9 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
         if item.field_names:
             # Attach this validator to each named field.
             for field_name in item.field_names:
+                if field_name in annotations:
+                    # The field doesn't exist yet, the dataclass decorator creates it.
+                    metadata.field_validators.setdefault(field_name, [])
                 metadata.field_validators[field_name].append(item)
         else:
             # Validator doesn't define any fields, must be a validator for the entire
-- 
2.43.0


From 13b71643981ab3316f08eb4247006cfdf61c7500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 19/54] fix: inheriting from structs declared with annotations

---
 binobj/pep526.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 07bd261..f01d2ed 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -221,12 +221,18 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     if meta.num_own_fields > 0:
         raise errors.MixedDeclarationsError(struct=class_object)
 
-    field_index = 0
+    # Fields inherited from another struct come first.
+    field_index = len(meta.components)
     n_fields_found = 0
-    byte_offset = meta.size_bytes
+    byte_offset = meta.get_size()
+    own_annotations = vars(class_object).get("__annotations__", {})
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
 
     for name, raw_annotation in all_annotations.items():
+        if name in meta.components and name not in own_annotations:
+            # Declared by the superclass, not here.
+            continue
+
         flattened_annotations = flatten_annotations(raw_annotation)
 
         info_list = [
-- 
2.43.0


From 73f947451782fb05ba7bc5f9aa21de6bb989d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 20/54] fix: apply a struct's default encoding to its string
 fields

---
 binobj/fields/stringlike.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 736dcfa..327db24 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -13,6 +13,7 @@ from typing_extensions import override
 from binobj import errors
 from binobj import helpers
 from binobj.fields.base import Field
+from binobj.fields.base import UNDEFINED
 
 
 if TYPE_CHECKING:  # pragma: no cover
@@ -77,6 +78,8 @@ class String(Field[str]):
     .. _ISO 8859-1: https://en.wikipedia.org/wiki/ISO/IEC_8859-1
     """
 
+    __overrideable_attributes__ = ("encoding",)
+
     def __init__(
         self,
         *,
@@ -98,6 +101,14 @@ class String(Field[str]):
         self.pad_byte = pad_byte
         super().__init__(**kwargs)
 
+    @override
+    def bind_to_container(self, *args: Any, **kwargs: Any) -> None:
+        super().bind_to_container(*args, **kwargs)
+
+        if self.const is not UNDEFINED and "size" not in self.__explicit_init_args__:
+            # The encoding may have changed, and the size of the constant with it.
+            self._size = self._size_for_value(self.const)
+
     @override
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
-- 
2.43.0


From 38ad46f8562869efed459315ccc72f78dbde28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 21/54] fix: apply a struct's default endianness to floats and
 timestamps

---
 binobj/fields/numeric.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 4fef6ea..f93095f 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -70,6 +70,8 @@ class Float(Field[float]):
     .. _format character: https://docs.python.org/3/library/struct.html#format-characters
     """
 
+    __overrideable_attributes__ = ("endian",)
+
     def __init__(
         self,
         *,
@@ -89,6 +91,14 @@ class Float(Field[float]):
                 f"`endian` must be 'big' or 'little', got {endian!r}.", field=self
             )
 
+    @override
+    def bind_to_container(self, *args: Any, **kwargs: Any) -> None:
+        super().bind_to_container(*args, **kwargs)
+
+        # The byte order may have changed.
+        byte_order = ">" if self.endian == "big" else "<"
+        self.format_string = byte_order + self.format_string[-1]
+
     @override
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
@@ -395,6 +405,8 @@ class Timestamp(Field[datetime.datetime]):
     .. seealso:: :class:`.Timestamp32`, :class:`.Timestamp64`
     """
 
+    __overrideable_attributes__ = ("endian",)
+
     _RESOLUTION_UNITS: Final = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
 
     def __init__(
-- 
2.43.0


From e100c2c9e6b6bafcd9328434f9b74a72fcd1eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 22/54] fix: report the offset at which a truncated UUID starts

---
 binobj/fields/stringlike.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 327db24..c535741 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -261,11 +261,10 @@ class UUID4(Field[uuid.UUID]):
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> Optional[uuid.UUID]:
+        offset = stream.tell()
         raw_data = stream.read(self.size)
         if len(raw_data) < self.size:
-            raise errors.UnexpectedEOFError(
-                field=self, size=self.size, offset=stream.tell()
-            )
+            raise errors.UnexpectedEOFError(field=self, size=self.size, offset=offset)
 
         if self.stored_as is UUIDFormat.BINARY_VARIANT_1:
             return uuid.UUID(bytes=raw_data)
-- 
2.43.0


From d39468fd1745d83478d5bcba707103bae1d2843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 23/54] fix: refuse to dump null-terminated strings containing
 nulls

---
 binobj/fields/stringlike.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index c535741..6d8aab6 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -198,6 +198,12 @@ class StringZ(String):
     def _do_dump(
         self, stream: BinaryIO, data: str, context: object, all_fields: StrDict
     ) -> None:
+        if "\0" in data:
+            raise errors.UnserializableValueError(
+                field=self,
+                value=data,
+                reason="A null-terminated string can't contain nulls.",
+            )
         stream.write((data + "\0").encode(self.encoding))
 
     def _size_for_value(self, value: str) -> int:
-- 
2.43.0


From e7faa1fa0d975410cc78c8cec4c4264da21d9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 24/54] fix: refuse to load fields whose size is given as a
 negative number

---
 binobj/fields/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index e0d88c6..5d42d5c 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -1012,6 +1012,13 @@ class Field(Generic[T]):
 
         offset = stream.tell()
         n_bytes = self.get_expected_size(loaded_fields)
+        if n_bytes < 0:
+            # stream.read() would take this as a request to read everything there is.
+            raise errors.DeserializationError(
+                f"The size of the field can't be negative: {n_bytes}",
+                field=self,
+                offset=offset,
+            )
 
         data_read = stream.read(n_bytes)
         if len(data_read) < n_bytes:
-- 
2.43.0


From 4caf95e599a3cac4d11e832ac4741492e0a2bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 25/54] fix: convert loaded structs to dicts without their
 discarded fields

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 873766a..d937faf 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -474,14 +474,14 @@ class Struct(HasStruct):
             {
                 field.name: field.compute_value_for_dump(dct, context)
                 for field in self.__binobj_struct__.components.values()
-                if field.name not in dct
+                if field.name not in dct and (keep_discardable or not field.discard)
             }
         )
 
         if not keep_discardable:
             for field in self.__binobj_struct__.components.values():
                 if field.discard:
-                    del dct[field.name]
+                    dct.pop(field.name, None)
 
         return recursive_to_dicts(dct, keep_discardable, context)
 
-- 
2.43.0


From d4d10ab3a5f57ad8475e6c2a69697dfced402c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 26/54] fix: compare structs that aren't fully assigned

---
 binobj/structures.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index d937faf..6059c99 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -849,14 +849,14 @@ class Struct(HasStruct):
             )
             return all(v is fields.UNDEFINED for v in self.__values__.values())
 
-        # Compare only defined values by using __iter__ to get the keys that are
-        # defined.
-        self_values = recursive_to_dicts({n: self[n] for n in list(self)})
-
         if not isinstance(other, (Struct, Mapping)):
             return False
 
-        other_values = recursive_to_dicts({n: other[n] for n in list(other)})
+        # Compare only defined values by using __iter__ to get the keys that are
+        # defined. Don't use list() for that, it'd ask for the serialized size of the
+        # struct, which only a fully assigned one has.
+        self_values = recursive_to_dicts({n: self[n] for n in self})
+        other_values = recursive_to_dicts({n: other[n] for n in other})
         return other_values == self_values
 
     def __bytes__(self) -> bytes:
-- 
2.43.0


From c4e9cd38336ee427f7cfba656ef1f2b0afa1d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 27/54] fix: find the terminating null when it's decoded along
 with other characters

---
 binobj/fields/stringlike.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 6d8aab6..4426fe5 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -180,10 +180,13 @@ class StringZ(String):
         result = io.StringIO()
 
         for byte in helpers.iter_bytes(stream):
-            char = decoder.decode(byte)
-            if char == "\0":
+            # A decoder that was waiting for the rest of an escape sequence can return
+            # more than one character at once.
+            chars = decoder.decode(byte)
+            if chars.endswith("\0"):
+                result.write(chars[:-1])
                 return result.getvalue()
-            result.write(char)
+            result.write(chars)
 
         # If we get out here then we hit EOF before getting to the null terminator.
         if self.size is None:
-- 
2.43.0


From 2a5a7dd4d14e0da66da8ff0ff808e335b4ed094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 28/54] fix: encode LEB128 integers in as few bytes as possible

---
 binobj/varints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binobj/varints.py b/binobj/varints.py
index b8d06c6..6dfb1ed 100644
--- a/binobj/varints.py
+++ b/binobj/varints.py
@@ -214,9 +214,11 @@ def encode_integer_leb128(value: int) -> bytes:
 
     # Calculate the number of bits in the integer and round up to the nearest multiple
     # of 7. We need to add 1 bit because bit_length() only returns the number of bits
-    # required to encode the magnitude, but not the sign.
+    # required to encode the magnitude, but not the sign. For a negative number the
+    # inverse is used because two's complement reaches one further down than up, e.g.
+    # -64 fits into 7 bits while 64 doesn't.
 
-    n_bits = value.bit_length() + 1
+    n_bits = (value if value > 0 else ~value).bit_length() + 1
     if n_bits % 7:
         n_bits += 7 - (n_bits % 7)
 
-- 
2.43.0


From e7b890f1a7639f340377d2b0ae9b4d4618048b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 29/54] fix: dump the null value of sized fields in the size of
 the field

---
 binobj/fields/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 5d42d5c..c435928 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -973,7 +973,15 @@ class Field(Generic[T]):
                 context=None,
                 all_fields=all_fields,
             )
-            return buf.getvalue()
+            null_repr = buf.getvalue()
+            if self.size is not None:
+                # Just as for any other value dumped.
+                expected_size = self.get_expected_size(all_fields)
+                if len(null_repr) > expected_size:
+                    raise errors.ValueSizeError(field=self, value=null_repr)
+                if len(null_repr) < expected_size:
+                    return self._add_padding(null_repr, expected_size)
+            return null_repr
 
         # User wants us to use all null bytes for the default null value.
         try:
-- 
2.43.0


From 570af5554fe76d8ba98142d0b0f188fd2e48e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 30/54] fix: compute fields from the factory values that are
 dumped

---
 binobj/structures.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 6059c99..5e5508d 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -493,12 +493,13 @@ class Struct(HasStruct):
         fields). This allows us to resolve forward references.
         """
         dct = {}
+        instance = self._with_factory_values()
 
         # Try dumping all the fields we can first.
         for field in self.__binobj_struct__.components.values():
             try:
                 dct[field.name] = field.compute_value_for_dump(
-                    typing.cast(StrDict, self), context
+                    typing.cast(StrDict, instance), context
                 )
             except (errors.SerializationError, errors.UndefinedSizeError):  # noqa: PERF203
                 pass
@@ -513,7 +514,28 @@ class Struct(HasStruct):
                     stacklevel=2,
                 )
 
-        return dict(collections.ChainMap(dct, MutableStructMappingProxy(self)))
+        return dict(collections.ChainMap(dct, MutableStructMappingProxy(instance)))
+
+    def _with_factory_values(self) -> Self:
+        """Get this struct with values for the unassigned fields that have a factory.
+
+        A factory isn't required to return the same value every time it's called. This
+        way fields computed from the value don't see any other than the one dumped.
+
+        :return: A copy, or this struct itself if there's nothing to assign.
+        """
+        new_values = {
+            name: field.factory()
+            for name, field in self.__binobj_struct__.components.items()
+            if field.factory is not None
+            and self.__values__.get(name, fields.UNDEFINED) is fields.UNDEFINED
+        }
+        if not new_values:
+            return self
+
+        instance = copy.copy(self)
+        instance.__values__ = {**self.__values__, **new_values}
+        return instance
 
     @classmethod
     def from_stream(
-- 
2.43.0


From 93cd79af9cd9f4d217f02ebaacf696343776e1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 31/54] fix: dump a Struct instance through a stand-alone Union

A Union used on its own, or given its elements by an iterator, refused the very
Struct instances it loads.
---
 binobj/fields/containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 42df97a..1da3579 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -491,6 +491,9 @@ class Union(Field[Any]):
         if isinstance(dumper, Field):
             dumper.to_stream(stream, data, context, all_fields)
         elif issubclass(dumper, Struct):
+            if isinstance(data, Struct):
+                # `Struct.to_dict()` does this for structs directly in a list.
+                data = data.to_dict(keep_discardable=True, context=context)
             if not isinstance(data, Mapping):
                 raise TypeError(
                     f"Cannot dump a non-Mapping-like object as a {dumper!r}: {data!r}",
-- 
2.43.0


From 75bbdac1a5265041ce4fc023f9cc15c3529783c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 32/54] fix: don't report a failing stream as an unserializable
 integer

---
 binobj/fields/numeric.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index f93095f..caf9338 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -216,11 +216,12 @@ class Integer(Field[int]):
         if dump_size is None:
             raise errors.UndefinedSizeError(field=self)
         try:
-            helpers.write_int(stream, data, dump_size, self.signed, self.endian)
+            serialized = data.to_bytes(dump_size, self.endian, signed=self.signed)
         except (ValueError, OverflowError) as err:
             raise errors.UnserializableValueError(
                 field=self, value=data, reason=str(err)
             ) from None
+        stream.write(serialized)
 
 
 class VariableLengthInteger(Integer):
@@ -481,18 +482,15 @@ class Timestamp(Field[datetime.datetime]):
         microseconds = since_epoch // datetime.timedelta(microseconds=1)
         timestamp = int(fractions.Fraction(microseconds * self._units, 10**6))
         try:
-            helpers.write_int(
-                stream,
-                timestamp,
-                self.get_expected_size(all_fields),
-                self.signed,
-                self.endian,
+            serialized = timestamp.to_bytes(
+                self.get_expected_size(all_fields), self.endian, signed=self.signed
             )
         except (ValueError, OverflowError) as err:
             # https://en.wikipedia.org/wiki/Year_2038_problem
             raise errors.UnserializableValueError(
                 field=self, value=data, reason=str(err)
             ) from None
+        stream.write(serialized)
 
 
 class Timestamp32(Timestamp):
-- 
2.43.0


From 9747d2d1542d0f4b7b32d0c93db7b10d15762344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 33/54] fix: name the field when its declaration is refused

---
 binobj/fields/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index c435928..213564a 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -267,6 +267,8 @@ class Field(Generic[T]):
         """
         instance = super().__new__(cls)
         instance.__explicit_init_args__ = frozenset(kwargs.keys())
+        # An error in the rest of the arguments refers to the field by its name.
+        instance.name = typing.cast(str, kwargs.get("name"))
         return instance
 
     def __init__(  # noqa: PLR0913
-- 
2.43.0


From 11da108cc83990fe66904f01090ed53620dbd7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 34/54] fix: make the struct of an UnexpectedValueError usable

---
 binobj/structures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 5e5508d..f6a5bf2 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -359,12 +359,13 @@ class Struct(HasStruct):
     """
 
     def __init__(self, **values: object):
+        # The error below refers to this struct, so it must be usable by then.
+        self.__values__ = values
+
         extra_keys = set(values.keys() - self.__binobj_struct__.components.keys())
         if extra_keys:
             raise errors.UnexpectedValueError(struct=self, name=extra_keys)
 
-        self.__values__ = values
-
     def validate_contents(self, context: object = None) -> None:
         """Validate the stored values in this struct.
 
-- 
2.43.0


From 2931ba6d46e1cc496d9614d004b338eadec70d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 35/54] fix: name the struct in a MultipleInheritanceError

---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index f6a5bf2..a1c2c2b 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -119,7 +119,7 @@ class StructMetadata:
         ]
 
         if len(struct_bases) > 1:
-            raise errors.MultipleInheritanceError(struct=cls.__name__)
+            raise errors.MultipleInheritanceError(struct=struct_class.__name__)
 
         metadata = cls(name=struct_class.__name__)
         namespace = vars(struct_class)
-- 
2.43.0


From 1783d0b8c3771c75ed598693c50632dc5a497973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 36/54] fix: fields annotated with `X | None` were silently
 left out of the struct

---
 binobj/pep526.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index f01d2ed..13245c7 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -35,6 +35,7 @@ Here are a few examples of how you can declare your fields::
 from __future__ import annotations
 
 import dataclasses
+import types
 import typing
 import warnings
 from typing import Any
@@ -60,6 +61,9 @@ __all__ = ["dataclass"]
 
 TStruct = TypeVar("TStruct", bound=Struct)
 
+# `X | Y` has a type of its own from Python 3.10 on.
+_UNION_TYPES = (Union, getattr(types, "UnionType", Union))
+
 
 def flatten_annotations(annotation: Any) -> list[Any]:
     """Convert an annotation that *might* be a :class:`typing.Annotated` into a list.
@@ -111,10 +115,10 @@ class AnnotationInfo:
         type_args = typing.get_args(annotation)
         nullable = type(None) in type_args
 
-        # Handle Optional[T] which gets rendered as Union[T, type(None)].
+        # Handle Optional[T] which gets rendered as Union[T, type(None)], and `T | None`.
         # We have to compare types directly with `is` because the type annotations don't
         # support isinstance() and issubclass().
-        if typing.get_origin(type_class) is Union:
+        if typing.get_origin(type_class) in _UNION_TYPES:
             # Filter out None from the type arguments.
             type_args = tuple(t for t in type_args if t is not type(None))
 
-- 
2.43.0


From 4079080accb0c7d43a82018b055d780dbd5d3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 37/54] fix: an array that runs to the end of the data looped
 forever on elements of no size

---
 binobj/fields/containers.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 1da3579..06e0272 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -325,10 +325,21 @@ class Array(Field[list[Optional[T]]]):
         :rtype: list
         """
         result: list[Optional[T]] = []
+        # Only reading elements gets us to the end of the stream.
+        until_eof = self.count is None and self.halt_check is Array.should_halt
+
         while not self.halt_check(self, stream, result, context, loaded_fields):
+            offset = stream.tell() if until_eof else None
             component = self.component.from_stream(stream, context, loaded_fields)
             if component is NOT_PRESENT:
                 continue
+            if until_eof and stream.tell() == offset:
+                raise errors.DeserializationError(
+                    "An array that extends to the end of the data has an element that"
+                    " takes up no space, so it would never end.",
+                    field=self,
+                    offset=offset,
+                )
             result.append(component)
 
         return result
-- 
2.43.0


From 1ef264f389e778f41642d6a805eb7f40046abcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 38/54] fix: a nullable field of negative size was loaded as
 null and dumped as nothing

---
 binobj/fields/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 213564a..64b77ef 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -987,7 +987,7 @@ class Field(Generic[T]):
 
         # User wants us to use all null bytes for the default null value.
         try:
-            return b"\0" * self.get_expected_size(all_fields)
+            size = self.get_expected_size(all_fields)
         except errors.UndefinedSizeError:
             raise errors.UnserializableValueError(
                 reason=f"Can't guess appropriate serialization of `None` for {self}"
@@ -996,6 +996,13 @@ class Field(Generic[T]):
                 value=None,
             ) from None
 
+        if size < 0:
+            # The field giving the size has an invalid value.
+            raise errors.UnserializableValueError(
+                reason=f"{self} can't be {size} bytes long.", field=self, value=None
+            )
+        return b"\0" * size
+
     def _read_exact_size(
         self, stream: BinaryIO, loaded_fields: Optional[StrDict] = None
     ) -> bytes:
-- 
2.43.0


From d0612768245a39d8d00bdeb393e17a6a1eba30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 39/54] fix: __objclass__ of a field named its last subclass,
 and wasn't set at all for annotated fields

---
 binobj/pep526.py     | 1 +
 binobj/structures.py | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 13245c7..46832f3 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -285,6 +285,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
         #
         # If we don't do this `MyStruct.foo` will be `123`, not a Field object.
         setattr(class_object, name, field_instance)
+        field_instance.__objclass__ = class_object
 
     if n_fields_found == 0:
         raise errors.NoDefinedFieldsError(struct=class_object)
diff --git a/binobj/structures.py b/binobj/structures.py
index a1c2c2b..20f184b 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -894,9 +894,10 @@ class Struct(HasStruct):
         setattr(cls, STRUCT_META_NAME, meta)
 
         # Set __objclass__ on all fields to aid type introspection. The `inspect` module
-        # uses this as an aid.
-        for field in meta.components.values():
-            field.__objclass__ = cls
+        # uses this as an aid. Inherited fields still belong to the class defining them.
+        for field in vars(cls).values():
+            if isinstance(field, fields.Field):
+                field.__objclass__ = cls
 
         super().__init_subclass__()
 
-- 
2.43.0


From 6db7af252713a1149298e97c8f88ca21bd056385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 40/54] fix: the length of a mapping proxy was the size of the
 struct in bytes, not its number of items

---
 binobj/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 20f184b..b4b935d 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -933,7 +933,8 @@ class StructMappingProxy(Mapping[str, Any]):
         yield from iter(self.struct)
 
     def __len__(self) -> int:
-        return len(self.struct)
+        # The length of a struct is its size in bytes, not the number of items.
+        return sum(1 for _ in self.struct)
 
 
 @dc.dataclass
-- 
2.43.0


From 72814d7d4bf6fed602cadf634345d5ddabbff691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 41/54] fix: get(), setdefault(), pop() and `in` of a mapping
 proxy crashed for fields without a value

---
 binobj/structures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index b4b935d..f39f2fb 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -927,7 +927,11 @@ class StructMappingProxy(Mapping[str, Any]):
     """The underlying :class:`Struct` that all accesses are forwarded to."""
 
     def __getitem__(self, field: str) -> Any:
-        return self.struct[field]
+        try:
+            return self.struct[field]
+        except errors.MissingRequiredValueError:
+            # What mappings are expected to throw, see e.g. get() and setdefault().
+            raise KeyError(field) from None
 
     def __iter__(self) -> Iterator[str]:
         yield from iter(self.struct)
-- 
2.43.0


From a102d12e6164d4d76c810f0322942a28398c90fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 42/54] fix: a mapping proxy wasn't equal to a mapping with the
 same items

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index f39f2fb..7f5cca7 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -916,7 +916,7 @@ def is_struct(thing: object) -> TypeGuard[HasStruct]:
     return hasattr(thing, STRUCT_META_NAME)
 
 
-@dc.dataclass
+@dc.dataclass(eq=False)
 class StructMappingProxy(Mapping[str, Any]):
     """An immutable wrapper that makes a :class:`Struct` work like a :class:`dict`.
 
@@ -941,7 +941,7 @@ class StructMappingProxy(Mapping[str, Any]):
         return sum(1 for _ in self.struct)
 
 
-@dc.dataclass
+@dc.dataclass(eq=False)
 class MutableStructMappingProxy(StructMappingProxy, MutableMapping[str, Any]):
     """A mutable wrapper that makes a :class:`Struct` work like a :class:`dict`.
 
-- 
2.43.0


From 5a636b8ad5fe25401b6a8533f90618ef271d3b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 43/54] fix: export the mapping proxies from the package, as
 documented

---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 7f5cca7..755e5f5 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -34,7 +34,7 @@ from binobj.typedefs import StrDict
 from binobj.typedefs import StructValidator
 
 
-__all__ = ["Struct", "is_struct"]
+__all__ = ["MutableStructMappingProxy", "Struct", "StructMappingProxy", "is_struct"]
 
 
 T = TypeVar("T")
-- 
2.43.0


From e173719dea478dcd0bc68af7c694008b243d5aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 44/54] fix: exact mode accepted leftover data in buffers of
 items larger than a byte

---
 binobj/structures.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 755e5f5..80aa964 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -618,10 +618,12 @@ class Struct(HasStruct):
         loaded_data = cls.from_stream(stream, context, init_kwargs)
 
         here = stream.tell()
-        if exact and (here < len(data)):
+        # This isn't len(data) if the items of `data` are larger than one byte.
+        data_size = stream.seek(0, io.SEEK_END)
+        if exact and (here < data_size):
             raise errors.ExtraneousDataError(
-                f"Read {here} bytes, but there are {len(data)} in the input data.",
-                offset=stream.tell(),
+                f"Read {here} bytes, but there are {data_size} in the input data.",
+                offset=here,
             )
         return loaded_data
 
-- 
2.43.0


From 5366ed7340a2c862d47aa13e346b7ee5d22a5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 45/54] fix: assigning to a field of a copied struct changed
 the original

---
 binobj/structures.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 80aa964..8169647 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -884,6 +884,13 @@ class Struct(HasStruct):
         other_values = recursive_to_dicts({n: other[n] for n in other})
         return other_values == self_values
 
+    def __copy__(self) -> Self:
+        # The default implementation would share the values with the copy.
+        instance = type(self).__new__(type(self))
+        instance.__dict__.update(self.__dict__)
+        instance.__values__ = self.__values__.copy()
+        return instance
+
     def __bytes__(self) -> bytes:
         return self.to_bytes()
 
-- 
2.43.0


From cf4ced547afdd949a05fc640770a9455d0db51c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 46/54] fix: the size of a struct for given values counted
 absent fields, and nulls as if they had a value

---
 binobj/structures.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 8169647..da9b864 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -197,12 +197,32 @@ class StructMetadata:
             # nothing about the size of the other values it can take.
             if not all(f.has_static_size for f in field_objects):
                 return None
-            field_values = {}
+            return sum(typing.cast(int, f.size) for f in field_objects)
 
-        try:
-            return sum(f.get_expected_size(field_values) for f in field_objects)
-        except (errors.UndefinedSizeError, errors.MissingRequiredValueError):
-            return None
+        size = 0
+        for field in field_objects:
+            if field.has_static_size:
+                size += typing.cast(int, field.size)
+                continue
+
+            try:
+                value = field.compute_value_for_dump(field_values)
+                known_values = collections.ChainMap({field.name: value}, field_values)
+            except errors.MissingRequiredValueError:
+                if isinstance(field.null_value, bytes):
+                    # It depends on whether it's null.
+                    return None
+                value = fields.UNDEFINED
+                known_values = field_values
+
+            if value is None and isinstance(field.null_value, bytes):
+                size += len(field.null_value)
+            elif value is not fields.NOT_PRESENT:
+                try:
+                    size += field.get_expected_size(known_values)
+                except (errors.UndefinedSizeError, errors.MissingRequiredValueError):
+                    return None
+        return size
 
 
 def collect_assigned_fields(
-- 
2.43.0


From 8a4a0d9dc5f4fd5323abc49a1810d44b84577402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 47/54] fix: defaults and Optional[] of nested structs declared
 by annotation were ignored

---
 binobj/pep526.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 46832f3..ee58b35 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -157,15 +157,17 @@ class AnnotationInfo:
         """Convert a type annotation to a Field object if it represents one."""
         if isinstance(self.type_class, type):
             # We got a class object. Could be a struct or field, ignore everything else.
+            kw: dict[str, Any]
+            kw = {"null_value": fields.DEFAULT} if self.nullable else {}
+
             if issubclass(self.type_class, Struct):
                 # A Struct class is shorthand for Nested(Struct).
-                return fields.Nested(self.type_class)
+                return fields.Nested(
+                    self.type_class, name=self.name, default=self.default_value, **kw
+                )
             if issubclass(self.type_class, fields.Field):
                 # This is a Field class. Initialize it with only the arguments we're
                 # certain of. This gives us a Field instance.
-                kw: dict[str, Any]
-                kw = {"null_value": fields.DEFAULT} if self.nullable else {}
-
                 return self.type_class(name=self.name, default=self.default_value, **kw)
 
             # Else: Not a struct or field class -- ignore
-- 
2.43.0


From 189c5c8a36e855d6284db8859b8505a26ba91c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 48/54] fix: defaults and Optional[] of field instances used as
 annotations were ignored

---
 binobj/pep526.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index ee58b35..0e30fcd 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -177,7 +177,15 @@ class AnnotationInfo:
             # Not an instance of Field -- ignore
             return None
 
-        # Else: The annotation is a field instance.
+        # Else: The annotation is a field instance. What it's been given says nothing about
+        # the default value assigned in the class body and `Optional`.
+        if callable(self.default_value):
+            self.type_class.factory = self.default_value
+        elif self.default_value is not fields.UNDEFINED:
+            self.type_class.factory = None
+            self.type_class._default = self.default_value
+        if self.nullable and not self.type_class.allow_null:
+            self.type_class.null_value = fields.DEFAULT
         return self.type_class
 
 
-- 
2.43.0


From e375d8e58b2f1b3f5ad1c2c6adf7a9ed97ab4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 49/54] fix: computed fields saw UNDEFINED instead of the value
 of a field whose factory has none to give

---
 binobj/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index da9b864..309c459 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -546,10 +546,11 @@ class Struct(HasStruct):
         :return: A copy, or this struct itself if there's nothing to assign.
         """
         new_values = {
-            name: field.factory()
+            name: value
             for name, field in self.__binobj_struct__.components.items()
             if field.factory is not None
             and self.__values__.get(name, fields.UNDEFINED) is fields.UNDEFINED
+            and (value := field.factory()) is not fields.UNDEFINED
         }
         if not new_values:
             return self
-- 
2.43.0


From db500fc7f69c52292886822426aae116d6cc2144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 50/54] fix: structs with a field named 'self' couldn't be
 constructed or loaded

---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 309c459..13901fc 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -378,7 +378,7 @@ class Struct(HasStruct):
         The ``__objclass__`` attribute is set on all fields.
     """
 
-    def __init__(self, **values: object):
+    def __init__(self, /, **values: object):
         # The error below refers to this struct, so it must be usable by then.
         self.__values__ = values
 
-- 
2.43.0


From c52f1c72ec5184cfe91b164231541ad442278860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 51/54] fix: a struct-level byte order made variable-length
 integers report a byte order they don't have

---
 binobj/fields/numeric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index caf9338..d96f01e 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -234,6 +234,9 @@ class VariableLengthInteger(Integer):
         there's no restriction on the size.
     """
 
+    # The byte order and sign are properties of the format and not configurable.
+    __overrideable_attributes__ = ()
+
     def __init__(
         self,
         *,
-- 
2.43.0


From 4feea593ad48a99957e467f9156d6b31f0fc6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 52/54] fix: get_field() misread what follows a constant
 variable-length integer in a longer encoding

---
 binobj/fields/numeric.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index d96f01e..fc6dde9 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -261,6 +261,13 @@ class VariableLengthInteger(Integer):
         self._decode_integer_fn = encoding_info.decode
         super().__init__(endian=format_endianness, signed=format_signedness, **kwargs)
 
+    @property
+    @override
+    def has_static_size(self) -> bool:
+        # A constant's size is known, but other encodings of it, longer than the one it's
+        # dumped with, are accepted on load.
+        return False
+
     @override
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
-- 
2.43.0


From 4b2fcfdc42ee744aac5bfe97871d832313a7f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 53/54] fix: constants of field types that can't work out sizes
 crashed with AttributeError

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 64b77ef..f73af78 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -587,7 +587,7 @@ class Field(Generic[T]):
         """
         # Since this is called in the constructor we need to check to see if _size has
         # been assigned to yet.
-        if self.has_fixed_size and hasattr(self, "_size"):
+        if hasattr(self, "_size") and self.has_fixed_size:
             return typing.cast(int, self._size)
         return None
 
-- 
2.43.0


From 3858293cf1a741bbb5d1e7fd212a3e85ce1e851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:29 +0000
Subject: [PATCH 54/54] fix: don't compute the values of fields that are absent

---
 binobj/fields/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index f73af78..503fdf2 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -463,7 +463,14 @@ class Field(Generic[T]):
               Before, if a field had a value explicitly set, it would be included in the
               output even if present() would've returned False.
         """
-        if self.name in all_values:
+        is_set = self.name in all_values
+        if (is_set and all_values[self.name] is NOT_PRESENT) or not self.present(
+            all_values, context, None
+        ):
+            # Don't compute a value: what it depends on can be missing as well.
+            return NOT_PRESENT
+
+        if is_set:
             # The value is already set in the struct so we don't need to do anything.
             value_to_dump = all_values[self.name]
         elif (default := self.default) is not UNDEFINED:
@@ -478,8 +485,6 @@ class Field(Generic[T]):
             # We were unable to find a value for this field.
             value_to_dump = UNDEFINED
 
-        if value_to_dump is NOT_PRESENT or not self.present(all_values, context, None):
-            return NOT_PRESENT
         if value_to_dump is UNDEFINED:
             # No default value and this isn't a computed field either.
             raise errors.MissingRequiredValueError(field=self)
-- 
2.43.0

