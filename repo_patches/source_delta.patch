From 9d06d6da1a36d07e4fa717fb7b0b9396cbbd5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 01/45] fix: read and write a String wrapper object's value as
 a tagged string, as V8 does

---
 src/v8serialize/decode.py | 10 +++++++++-
 src/v8serialize/encode.py |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 03abaa3..4c83b73 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -349,6 +349,14 @@ class ReadableTagStream:
             self.throw("Utf8String is not valid UTF-8 data", cause=e)
         return value
 
+    def _read_tagged_string(self) -> str:
+        tag = self.read_tag(tag=JS_STRING_TAGS)
+        if tag is SerializationTag.kOneByteString:
+            return self.read_string_onebyte()
+        if tag is SerializationTag.kTwoByteString:
+            return self.read_string_twobyte()
+        return self.read_string_utf8()
+
     def read_bigint(self, *, tag: bool = False) -> int:
         if tag:
             self.read_tag(tag=SerializationTag.kBigInt)
@@ -396,7 +404,7 @@ class ReadableTagStream:
                 self.read_bigint(tag=False), tag=SerializationTag.kBigIntObject
             )
         elif tag is SerializationTag.kStringObject:
-            result = JSPrimitiveObject(self.read_string_utf8(tag=False))
+            result = JSPrimitiveObject(self._read_tagged_string())
         else:
             raise AssertionError(f"Unreachable: {tag}")
         return self.objects.record_reference(result), result
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 99d8331..d58ee48 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -366,7 +366,7 @@ class WritableTagStream:
         self.write_tag(tag)
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
-            self.write_string_utf8(value, tag=None)
+            self.write_string_utf8(value)
         elif (
             tag is SerializationTag.kTrueObject or tag is SerializationTag.kFalseObject
         ):
-- 
2.43.0


From a2015276b27320a38b912a63f3611926a0663c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 02/45] fix: report an unknown error tag at the end of the data
 as a decode error

---
 src/v8serialize/decode.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 4c83b73..f583ae6 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -425,10 +425,7 @@ class ReadableTagStream:
         code = self.read_varint()
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
-        self.throw(
-            f"Expected an error tag but found {self.data[self.pos]} "
-            f"(not a valid error tag)"
-        )
+        self.throw(f"Expected an error tag but found {code} (not a valid error tag)")
 
     @overload
     def read_js_error(
-- 
2.43.0


From fac45915d79256f81ccc6d2ac4a6b2969b5a22bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 03/45] fix: check a resizable buffer's length against the data
 that follows both length fields

---
 src/v8serialize/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index f583ae6..07e90ff 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -741,11 +741,11 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kResizableArrayBuffer)
         byte_length = self.read_uint32()
-        if self.pos + byte_length >= len(self.data):
+        max_byte_length = self.read_uint32()
+        if self.pos + byte_length > len(self.data):
             self.throw(
                 f"ArrayBuffer byte length exceeds available data: {byte_length=}"
             )
-        max_byte_length = self.read_uint32()
         if max_byte_length < byte_length:
             self.throw(
                 f"ResizableArrayBuffer max byte length is less than current "
-- 
2.43.0


From 37d50481aa51e1988fab3dfc4327911ee3ee1176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 04/45] fix: give regular expressions an object ID when
 writing, as readers do

---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index d58ee48..b187c54 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -386,6 +386,7 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
+        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here, but just UTF-8 seems fine
         self.write_string_utf8(regexp.source)
@@ -942,7 +943,9 @@ class TagWriter(EncodeStepObject):
     def serialize_python_regexp(
         self, value: re.Pattern[AnyStr], /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        ctx.stream.write_js_regexp(JSRegExp.from_python_pattern(value))
+        ctx.stream.write_js_regexp(
+            JSRegExp.from_python_pattern(value), identity=value
+        )
 
     @encode.register(JSErrorData)
     def serialize_js_error(
-- 
2.43.0


From 69659494aa748f61a5042ee807b9337f7f84eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 05/45] fix: give errors without a cause an object ID when
 writing, as readers do

---
 src/v8serialize/encode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index b187c54..3c70fd2 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -421,6 +421,8 @@ class WritableTagStream:
                     "cause without CircularErrorCause enabled",
                 ):
                     ctx.encode_object(cause)
+        else:
+            self.objects.record_reference(identity)
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-- 
2.43.0


From 7813532e2a48d5ac47d934f22f9d8df8cccd1e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 06/45] fix: give shared and transferred array buffers an
 object ID when reading, as writers do

---
 src/v8serialize/decode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 07e90ff..e4459d9 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -771,7 +771,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kSharedArrayBuffer)
         index = self.read_uint32()
-        return shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        result = shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        self.objects.record_reference(result)
+        return result
 
     def _read_js_array_buffer_transfer(
         self,
@@ -782,7 +784,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferTransfer)
         transfer_id = self.read_uint32()
-        return array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        result = array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        self.objects.record_reference(result)
+        return result
 
     def read_js_array_buffer_view(
         self,
-- 
2.43.0


From 706f4cf1bd07ee543d8d3f3b6bd062cf12f625ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 07/45] fix: give host objects an object ID when reading and
 writing, as V8 does

---
 src/v8serialize/_references.py |  5 ++++-
 src/v8serialize/decode.py      | 19 +++++++++++++++----
 src/v8serialize/encode.py      |  1 +
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/v8serialize/_references.py b/src/v8serialize/_references.py
index 63caeb2..27d0583 100644
--- a/src/v8serialize/_references.py
+++ b/src/v8serialize/_references.py
@@ -86,7 +86,10 @@ class SerializedObjectLog:
 
     def get_object(self, serialized_id: SerializedId) -> object:
         try:
-            return self._object_by_serialized_id[serialized_id]
+            value = self._object_by_serialized_id[serialized_id]
+            if isinstance(value, ForwardReference):
+                return value.get_value()  # throw if not yet set
+            return value
         except IndexError:
             raise SerializedIdOutOfRangeV8SerializeError(
                 "Serialized ID has not been recorded in the log",
diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index e4459d9..ad4d2f0 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -39,7 +39,12 @@ from v8serialize._pycompat.typing import (
     get_buffer,
     is_readable_binary,
 )
-from v8serialize._references import SerializedId, SerializedObjectLog
+from v8serialize._references import (
+    ForwardReference,
+    ForwardReferenceError,
+    SerializedId,
+    SerializedObjectLog,
+)
 from v8serialize._values import AnyJSError as AnyJSError
 from v8serialize._values import ArrayBufferConstructor as ArrayBufferConstructor
 from v8serialize._values import (
@@ -677,7 +682,7 @@ class ReadableTagStream:
 
         try:
             return serialized_id, self.objects.get_object(serialized_id)
-        except V8SerializeError as e:
+        except (V8SerializeError, ForwardReferenceError) as e:
             self.throw(
                 "ObjectReference contains serialized ID which has not been "
                 "deserialized",
@@ -827,9 +832,15 @@ class ReadableTagStream:
     ) -> T:
         if tag:
             self.read_tag(SerializationTag.kHostObject)
+        # V8 allocates the object's ID before it reads the host object's data
+        forward_reference = ForwardReference[T]()
+        self.objects.record_reference(forward_reference)
         if isinstance(deserializer, HostObjectDeserializerObj):
-            return deserializer.deserialize_host_object(stream=self)
-        return deserializer(stream=self)
+            result = deserializer.deserialize_host_object(stream=self)
+        else:
+            result = deserializer(stream=self)
+        forward_reference.set_value(result)
+        return result
 
     def read_v8_shared_object_reference(
         self, tag: bool = False
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 3c70fd2..beed6e6 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -690,6 +690,7 @@ class WritableTagStream:
     def write_host_object(
         self, value: T, *, serializer: HostObjectSerializer[T]
     ) -> None:
+        self.objects.record_reference(value)
         self.write_tag(SerializationTag.kHostObject)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
-- 
2.43.0


From e618ed7d5a49f91e0bbecfbdead0d409a6a5b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 08/45] fix: keep sorted keys of sparse arrays known when few
 elements remain

---
 src/v8serialize/jstypes/jsarrayproperties.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index fccee7a..286db81 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -526,17 +526,16 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
                 # Creating a hole invalidates the sorted keys, but if it's the
                 # last value we can update the sorted keys in place in O(1).
 
-                # TODO: ensure we set an empty sorted_keys when
-                #   appending/inserting from empty list
                 sorted_keys = self._sorted_keys
-                assert sorted_keys is not None if len(items) <= 1 else True
-
                 if sorted_keys is None:
+                    # As elsewhere, 0 or 1 elements are always known to be sorted
+                    if len(items) <= 1:
+                        self._sorted_keys = list(items)
                     return
                 if i == sorted_keys[-1]:
                     sorted_keys.pop()
                 else:
-                    self._sorted_keys = None
+                    self._sorted_keys = list(items) if len(items) <= 1 else None
                 return
             items[i] = cast(T, value)
         else:
@@ -546,8 +545,6 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             # When filling a hole after the last existing element we can update
             # sorted_keys in place in O(1).
             sorted_keys = self._sorted_keys
-            # TODO: ensure we set an empty sorted_keys when appending/inserting
-            #   from empty list
             assert sorted_keys is not None if len(items) <= 1 else True
             if sorted_keys is not None and i > (
                 -1 if len(sorted_keys) == 0 else sorted_keys[-1]
@@ -592,7 +589,7 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         if value is not JSHole:
             items[i] = value
 
-        if self._sorted_keys is None and len(items) <= 1:
+        if len(items) <= 1:
             self._sorted_keys = list(items)
         else:
             self._sorted_keys = None
-- 
2.43.0


From c3a18d27f32784f6b4bbd9490769ed015717ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 09/45] fix: treat the index equal to the length as missing in
 array elements views

---
 src/v8serialize/jstypes/jsarrayproperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 286db81..f761ec2 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -657,7 +657,7 @@ class ArrayPropertiesElementsView(ElementsView[T], Mapping[int, T]):
         self.order = order
 
     def __getitem__(self, key: int, /) -> T:
-        if not (0 <= key <= len(self._array_properties)):
+        if not (0 <= key < len(self._array_properties)):
             raise KeyError(key)
         value = self._array_properties[key]
         if value is not JSHole:
-- 
2.43.0


From 74306cb94e6591862ac22c61596dff19447608bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 10/45] fix: append a hole to a sparse array as a dense array
 does

---
 src/v8serialize/jstypes/jsarrayproperties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index f761ec2..1723a07 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -595,13 +595,14 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def append(self, value: T | JSHoleType) -> None:
-        if value is JSHole:
-            return
         i = self._max_index + 1
         if i >= MAX_ARRAY_LENGTH:
             raise IndexError(
                 f"Cannot extend array beyond max length: {MAX_ARRAY_LENGTH}"
             )
+        if value is JSHole:
+            self._max_index = i
+            return
 
         items = self._items
         sorted_keys = self._sorted_keys
-- 
2.43.0


From f1949467fa50be2d51a06ccc9d79a5bdca521cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 11/45] fix: keep trailing holes of a sparse array created from
 an unsized iterable

---
 src/v8serialize/jstypes/jsarrayproperties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 1723a07..f35feda 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -403,8 +403,9 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         if values is not None:
             if length is not None:  # Enforce type signature
                 raise ValueError("length cannot be used with values argument")
-            if supports_sized(values):
-                length = len(values)
+            if not supports_sized(values):
+                values = list(values)
+            length = len(values)
             entries = (
                 (i, v)
                 for i, v in enumerate(cast(Iterable[T], values))
-- 
2.43.0


From 8781a29223616302b1228cf370506f51446bfbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 12/45] fix: allow inserting at the end of a sparse array as in
 a dense array

---
 src/v8serialize/jstypes/jsarrayproperties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index f35feda..1097a14 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -578,7 +578,8 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def insert(self, i: int, value: T | JSHoleType, /) -> None:
-        i = self._normalise_index(i)
+        # Like list, inserting beyond the end appends
+        i = len(self) if i >= len(self) else self._normalise_index(i)
         if len(self) >= MAX_ARRAY_LENGTH:
             raise IndexError("Cannot insert, array is already at max allowed length")
 
-- 
2.43.0


From e652a64d1ba5e00ffcd904b52f94b597a431e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 13/45] fix: do not merge equal values that serialize
 differently, such as 0.0 and -0.0

---
 src/v8serialize/encode.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index beed6e6..607c559 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import math
 import re
 import struct
 from collections import abc
@@ -795,6 +796,30 @@ See Also
 """
 
 
+def _is_interchangeable(a: object, b: object) -> bool:
+    """Whether equal values also serialize equally, unlike 0.0 & -0.0 or 1 & True."""
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, float):
+        return math.copysign(1, a) == math.copysign(1, cast(float, b))
+    if isinstance(a, tuple):
+        return all(map(_is_interchangeable, a, cast("tuple[object, ...]", b)))
+    if isinstance(a, frozenset):
+        values = {v: v for v in cast("frozenset[object]", b)}
+        return all(_is_interchangeable(v, values[v]) for v in a)
+    if isinstance(a, JSPrimitiveObject):
+        return _is_interchangeable(a.value, cast(JSPrimitiveObject, b).value)
+    if isinstance(a, datetime):
+        return a.fold == cast(datetime, b).fold
+    if isinstance(a, JSArrayBufferView):
+        view = cast(JSArrayBufferView, b)
+        return a.item_offset == view.item_offset and bool(
+            a.item_length == view.item_length
+            and a.backing_buffer == view.backing_buffer
+        )
+    return True
+
+
 @dataclass(init=False, **slots_if310())
 class DefaultEncodeContext(EncodeContext):
     encode_steps: Sequence[EncodeStep]
@@ -845,7 +870,9 @@ class DefaultEncodeContext(EncodeContext):
     def deduplicate(self, value: T) -> T:
         if getattr(value, "__hash__", None) is not None:
             try:
-                return self._memoized(value)  # type: ignore[no-any-return]
+                seen = self._memoized(value)
+                if seen is value or _is_interchangeable(seen, value):
+                    return seen  # type: ignore[no-any-return]
             except Exception:  # when an object nested in value is not hashable
                 pass
         return value
-- 
2.43.0


From dc3a76230d7526c4122a11ce44e336793648cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 14/45] fix: apply same-value-zero to integers too large for a
 float

---
 src/v8serialize/jstypes/_equality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_equality.py b/src/v8serialize/jstypes/_equality.py
index c1e188b..4f513f2 100644
--- a/src/v8serialize/jstypes/_equality.py
+++ b/src/v8serialize/jstypes/_equality.py
@@ -81,7 +81,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
         # bools are equal to 0 and 1 by default
         return (bool, value)  # type: ignore[return-value]
     elif isinstance(value, (int, float)):
-        if isnan(value):
+        if isinstance(value, float) and isnan(value):
             # Represent nan as a value equal to itself.
             return _nankey  # type: ignore[return-value]
         return value  # type: ignore[return-value]
-- 
2.43.0


From 33d3632e59968079d0df21ae7b93167092ec3181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 15/45] fix: report the first V8 version of an encoder without
 optional features

---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 607c559..3a01544 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -1215,7 +1215,10 @@ class Encoder:
     @property
     def first_v8_version(self) -> Version | UnreleasedVersion:
         """The earliest version of V8 that can read data produced by this Encoder."""
-        return max(f.first_v8_version for f in self.features)
+        return max(
+            (f.first_v8_version for f in self.features),
+            default=SerializationFeature.MaxCompatibility.first_v8_version,
+        )
 
     def encode(self, value: object) -> bytearray:
         """
-- 
2.43.0


From 856b4d325bd0a23eb12ee52c791042ce23607656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 16/45] fix: reject constants as object keys when writing

---
 src/v8serialize/encode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 3a01544..24956a9 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -239,8 +239,12 @@ class WritableTagStream:
         self.write_varint(_encode_zigzag(n))
 
     def write_constant(self, constant: ConstantTags) -> None:
-        with self.constrain_tags(JS_CONSTANT_TAGS):
-            self.write_tag(constant)
+        if constant not in JS_CONSTANT_TAGS:
+            raise EncodeV8SerializeError(
+                f"Attempted to write tag {constant.name} as a constant. "
+                f"Allowed tags are {JS_CONSTANT_TAGS}"
+            )
+        self.write_tag(constant)
 
     def write_header(self) -> None:
         """Write the V8 serialization stream header."""
-- 
2.43.0


From 08e15fcb5576871b85bc3286816be584dbb310b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 17/45] fix: do not accept wrapper objects where the format has
 object keys or strings

---
 src/v8serialize/constants.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/v8serialize/constants.py b/src/v8serialize/constants.py
index d6a12cd..24f45b9 100644
--- a/src/v8serialize/constants.py
+++ b/src/v8serialize/constants.py
@@ -672,11 +672,9 @@ ObjectKeyTag = Literal[
     SerializationTag.kInt32,
     SerializationTag.kDouble,
     SerializationTag.kUint32,
-    SerializationTag.kNumberObject,
     SerializationTag.kOneByteString,
     SerializationTag.kTwoByteString,
     SerializationTag.kUtf8String,
-    SerializationTag.kStringObject,
 ]
 
 JS_OBJECT_KEY_TAGS: Final = TagConstraint[ObjectKeyTag](
@@ -686,11 +684,9 @@ JS_OBJECT_KEY_TAGS: Final = TagConstraint[ObjectKeyTag](
             SerializationTag.kInt32,
             SerializationTag.kDouble,
             SerializationTag.kUint32,
-            SerializationTag.kNumberObject,
             SerializationTag.kOneByteString,
             SerializationTag.kTwoByteString,
             SerializationTag.kUtf8String,
-            SerializationTag.kStringObject,
         }
     ),
 )
@@ -786,7 +782,6 @@ StringTag = Literal[
     SerializationTag.kUtf8String,
     SerializationTag.kOneByteString,
     SerializationTag.kTwoByteString,
-    SerializationTag.kStringObject,
 ]
 
 JS_STRING_TAGS = TagConstraint[StringTag](
@@ -796,7 +791,6 @@ JS_STRING_TAGS = TagConstraint[StringTag](
             SerializationTag.kUtf8String,
             SerializationTag.kOneByteString,
             SerializationTag.kTwoByteString,
-            SerializationTag.kStringObject,
         }
     ),
 )
-- 
2.43.0


From 26b6f66a77ae5786666f2fdfc093c423383b0183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 18/45] fix: only treat recursive values as equal when they are
 compared with each other

---
 src/v8serialize/_recursive_eq.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/v8serialize/_recursive_eq.py b/src/v8serialize/_recursive_eq.py
index 82bbcaf..42dd0b4 100644
--- a/src/v8serialize/_recursive_eq.py
+++ b/src/v8serialize/_recursive_eq.py
@@ -4,7 +4,8 @@ from _thread import get_ident
 from functools import wraps
 from typing import Final, TypeVar
 
-_RUNNING_EQ_KEYS: Final[set[tuple[int, int]]] = set()
+# The objects with __eq__ running, and the object each is being compared with
+_RUNNING_EQ_KEYS: Final[dict[tuple[int, int], tuple[int, int]]] = {}
 
 _T = TypeVar("_T")
 
@@ -49,23 +50,24 @@ def recursive_eq(cls: type[_T]) -> type[_T]:
         # If either side already has __eq__ running in the call stack, we must
         # stop recursing, otherwise we'll infinitely loop.
         if self_running or other_running:
-            # If both sides were already seen, we might be equal (caller decides)
-            # If only one side was running, we can't be equal, as there's a
-            # different structure referencing this point.
-            return self_running and other_running
+            # If both sides were already seen together, we might be equal (caller
+            # decides). If only one side was running, or they were running but not
+            # compared with each other, we can't be equal, as there's a different
+            # structure referencing this point.
+            return _RUNNING_EQ_KEYS.get(self_key) == other_key
 
         # Register these objects as running so that we won't descend into them
         # if they are referenced again.
-        _RUNNING_EQ_KEYS.add(self_key)
-        _RUNNING_EQ_KEYS.add(other_key)
+        _RUNNING_EQ_KEYS[self_key] = other_key
+        _RUNNING_EQ_KEYS[other_key] = self_key
 
         # Allow the type to do its own equality check as normal, descending into
         # children if required.
         try:
             eq = wrapped_eq(self, other)
         finally:
-            _RUNNING_EQ_KEYS.remove(self_key)
-            _RUNNING_EQ_KEYS.remove(other_key)
+            del _RUNNING_EQ_KEYS[self_key]
+            del _RUNNING_EQ_KEYS[other_key]
         return eq
 
     cls.__eq__ = decorator  # type: ignore[method-assign]
-- 
2.43.0


From 05c20a07c00b43f87f94a99e8539c3f51bff924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 19/45] fix: expose all bytes of an array buffer over data with
 multi-byte items

---
 src/v8serialize/jstypes/jsbuffers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 16c2fcc..440cd17 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import functools
 import struct
 from abc import ABC, abstractmethod
-from collections.abc import Sized
 from contextlib import AbstractContextManager, contextmanager
 from dataclasses import dataclass, field
 from enum import Enum
@@ -161,8 +160,9 @@ Reference/Global_Objects/ArrayBuffer
             byte_length = byte_length or 0
             data = b"\x00" * byte_length if readonly else bytearray(byte_length)
 
-        assert isinstance(data, Sized)
-        max_byte_length = len(data) if max_byte_length is None else max_byte_length
+        with memoryview(data) as data_view:
+            byte_length = data_view.nbytes
+        max_byte_length = byte_length if max_byte_length is None else max_byte_length
 
         if resizable:
             if not isinstance(data, bytearray):
@@ -177,10 +177,10 @@ Reference/Global_Objects/ArrayBuffer
                 isinstance(data, memoryview) and data.readonly
             )
 
-        if len(data) > max_byte_length:
+        if byte_length > max_byte_length:
             raise ByteLengthJSArrayBufferError(
                 "max_byte_length cannot be less than initial byte_length",
-                byte_length=len(data),
+                byte_length=byte_length,
                 max_byte_length=max_byte_length,
             )
 
-- 
2.43.0


From b126bc885e931b9e94acb9d00aa5fc919a5ec236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 20/45] fix: write errors named URIError as URIErrors

---
 src/v8serialize/constants.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/constants.py b/src/v8serialize/constants.py
index 24f45b9..757c9a7 100644
--- a/src/v8serialize/constants.py
+++ b/src/v8serialize/constants.py
@@ -420,6 +420,8 @@ class JSErrorName(StrEnum):
             The `JSErrorName` enum member equal to `error_name`, or
             `JSErrorName.Error` if none match.
         """
+        if error_name == "URIError":  # as JavaScript spells it
+            return JSErrorName.UriError
         return (
             JSErrorName(error_name) if error_name in JSErrorName else JSErrorName.Error
         )
-- 
2.43.0


From 1591af9372bdd09b6d08c00f3d338d9b251d390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 21/45] fix: report invalid RegExp flags as a decode error

---
 src/v8serialize/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index ad4d2f0..6fb7f60 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -422,7 +422,10 @@ class ReadableTagStream:
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
         flags = JSRegExpFlag(self.read_varint())
-        result = JSRegExp(source, flags)
+        try:
+            result = JSRegExp(source, flags)
+        except ValueError as e:
+            self.throw(f"RegExp has invalid flags: {flags!r}", cause=e)
         return self.objects.record_reference(result), result
 
     def read_error_tag(self) -> SerializationErrorTag:
-- 
2.43.0


From 72f32a062356681b82c4c941ad3e836158142207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 22/45] fix: report dates that datetime cannot represent as a
 decode error

---
 src/v8serialize/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 6fb7f60..9c2260b 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -531,7 +531,10 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
-        result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        try:
+            result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        except (ValueError, OverflowError, OSError) as e:
+            self.throw(f"Date is not representable as a datetime: {epoch_ms}", cause=e)
         return ReferencedObject(self.objects.record_reference(result), result)
 
     def read_jsmap(
-- 
2.43.0


From a9e55b754109e6d3a13adcf50450e3b1930fedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 23/45] fix: report views that do not fit their array buffer as
 a decode error

---
 src/v8serialize/decode.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 9c2260b..32bd744 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -86,6 +86,7 @@ from v8serialize.jstypes._v8 import V8SharedObjectReference, V8SharedValueId
 from v8serialize.jstypes.jsarray import JSArray
 from v8serialize.jstypes.jsbuffers import (
     JSArrayBuffer,
+    JSArrayBufferError,
     JSArrayBufferTransfer,
     JSDataView,
     JSSharedArrayBuffer,
@@ -822,14 +823,19 @@ class ReadableTagStream:
         if self.version >= 14:  # flags field was added in v14
             flags = ArrayBufferViewFlags(self.read_varint())
 
-        result = array_buffer_view(
-            buffer=backing_buffer,
-            format=ArrayBufferViewTag(raw_view_tag),
-            byte_offset=byte_offset,
-            byte_length=(
-                None if ArrayBufferViewFlags.IsLengthTracking in flags else byte_length
-            ),
-        )
+        try:
+            result = array_buffer_view(
+                buffer=backing_buffer,
+                format=ArrayBufferViewTag(raw_view_tag),
+                byte_offset=byte_offset,
+                byte_length=(
+                    None
+                    if ArrayBufferViewFlags.IsLengthTracking in flags
+                    else byte_length
+                ),
+            )
+        except JSArrayBufferError as e:
+            self.throw(f"ArrayBufferView is not valid: {e.message}", cause=e)
         self.objects.record_reference(result)
         return result
 
-- 
2.43.0


From ebdb93f086ae94779cae41ba2be650e74776b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 24/45] fix: report array lengths that JavaScript arrays cannot
 have as a decode error

---
 src/v8serialize/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 32bd744..542c410 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -634,7 +634,7 @@ class ReadableTagStream:
             self.read_tag(SerializationTag.kBeginDenseJSArray)
         self.objects.record_reference(identity)
         current_array_el_count = 0
-        expected_array_el_count = self.read_varint()
+        expected_array_el_count = self.read_uint32()
 
         for i in range(expected_array_el_count):
             yield i, ctx.decode_object()
@@ -661,7 +661,7 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kBeginSparseJSArray)
         self.objects.record_reference(identity)
-        expected_array_length = self.read_varint()
+        expected_array_length = self.read_uint32()
 
         def read_items() -> Generator[tuple[int | float | str, object], None, int]:
             actual_properties_count = yield from self._read_js_object_properties(
-- 
2.43.0


From d129391294614244e8bd92410b88e8f061389d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 25/45] fix: accept property names that are very long sequences
 of digits

---
 src/v8serialize/jstypes/_normalise_property_key.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_normalise_property_key.py b/src/v8serialize/jstypes/_normalise_property_key.py
index f471247..dabfe65 100644
--- a/src/v8serialize/jstypes/_normalise_property_key.py
+++ b/src/v8serialize/jstypes/_normalise_property_key.py
@@ -15,7 +15,10 @@ def canonical_numeric_index_string(value: str) -> int | None:
     """
     # isdecimal includes non-ascii decimal numbers.
     if value.isdecimal() and value.isascii():
-        int_value = int(value)
+        try:
+            int_value = int(value)
+        except ValueError:  # beyond sys.get_int_max_str_digits()
+            return None
         # numbers with unnecessary leading zeros are not canonical
         return None if value[0] == "0" and value != "0" else int_value
     return None
-- 
2.43.0


From 8efdf5561a7cf084a1fe95b00731b60a3083e794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 26/45] fix: do not flag views as resizable when their buffer
 is not written as resizable

---
 src/v8serialize/encode.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 24956a9..b17da9f 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -685,10 +685,12 @@ class WritableTagStream:
         self.write_uint32(buffer_view.byte_length or 0, tag=None)
 
         flags = ArrayBufferViewFlags(0)
-        if buffer_view.is_backing_buffer_resizable:
-            flags |= ArrayBufferViewFlags.IsBufferResizable
-        if buffer_view.is_length_tracking:
-            flags |= ArrayBufferViewFlags.IsLengthTracking
+        # Resizable buffers are written as regular buffers without this feature
+        if SerializationFeature.ResizableArrayBuffers in self.features:
+            if buffer_view.is_backing_buffer_resizable:
+                flags |= ArrayBufferViewFlags.IsBufferResizable
+            if buffer_view.is_length_tracking:
+                flags |= ArrayBufferViewFlags.IsLengthTracking
 
         self.write_varint(flags)
 
-- 
2.43.0


From 335ea618212a167f6a03551a469202a6f3cdcbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 27/45] fix: do not flag views of bytearrays as resizable, as
 bytearrays are written with a fixed length

---
 src/v8serialize/encode.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index b17da9f..1996751 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -8,7 +8,7 @@ import struct
 from collections import abc
 from collections.abc import Collection, Iterable, Mapping, Sequence
 from contextlib import AbstractContextManager
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from datetime import datetime
 from functools import lru_cache, partial
 from types import TracebackType
@@ -1125,6 +1125,13 @@ class TagWriter(EncodeStepObject):
                 )
                 raise e
         ctx.encode_object(value.backing_buffer)
+        if isinstance(value.backing_buffer, bytearray):
+            # bytearrays are written as fixed-length ArrayBuffers
+            with memoryview(value.backing_buffer) as data:
+                ctx.stream.write_js_array_buffer_view(
+                    replace(value, backing_buffer=data), identity=value
+                )
+            return
         ctx.stream.write_js_array_buffer_view(value)
 
 
-- 
2.43.0


From a8a2b4b690573dbe6ec11b7e83f9b581f4812639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 28/45] fix: keep the range of views of shared and transferred
 array buffers when writing

---
 src/v8serialize/jstypes/jsbuffers.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 440cd17..6314dbe 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -516,15 +516,27 @@ the itemsize when the view does not have an explicit byte_length"""
         The offset is 0 when the buffer is out-of-range, or the number of bytes
         given by `item_offset * view_format.itemsize`.
         """
-        if not self.is_in_range:
+        if not self.is_in_range and not self.__is_backing_buffer_inaccessible:
             return 0
         return self.item_offset * self.data_format.byte_length
 
     @property
     def byte_length(self) -> int:
-        """The number of bytes accessible through this view."""
+        """The number of bytes accessible through this view.
+
+        Or the number of bytes the view has in JavaScript, if the backing_buffer
+        is not accessible from Python.
+        """
+        if self.item_length is not None and self.__is_backing_buffer_inaccessible:
+            return self.item_length * self.data_format.byte_length
         return self.__get_buffer_as_memoryview()[1].nbytes
 
+    @property
+    def __is_backing_buffer_inaccessible(self) -> bool:
+        return isinstance(
+            self.backing_buffer, (JSSharedArrayBuffer, JSArrayBufferTransfer)
+        )
+
     @property
     def is_length_tracking(self) -> bool:
         """Whether this view changes length to match a resizable `.backing_buffer`."""
-- 
2.43.0


From b6390fcad3293ba22f3e34aaec378bbd15e72ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 29/45] fix: treat negative serialized IDs as out of range

---
 src/v8serialize/_references.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/_references.py b/src/v8serialize/_references.py
index 27d0583..4033f99 100644
--- a/src/v8serialize/_references.py
+++ b/src/v8serialize/_references.py
@@ -86,6 +86,8 @@ class SerializedObjectLog:
 
     def get_object(self, serialized_id: SerializedId) -> object:
         try:
+            if serialized_id < 0:
+                raise IndexError(serialized_id)
             value = self._object_by_serialized_id[serialized_id]
             if isinstance(value, ForwardReference):
                 return value.get_value()  # throw if not yet set
-- 
2.43.0


From 7619f60c7043ea386e173f6acae6950dfc02b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 30/45] fix: refuse shared and transferred array buffer IDs
 that V8 and the reader cannot read

---
 src/v8serialize/encode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 1996751..368c6a8 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -654,7 +654,7 @@ class WritableTagStream:
             raise ValueError(f"buffer_id cannot be negative: {buffer.buffer_id=}")
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kSharedArrayBuffer)
-        self.write_varint(buffer.buffer_id)
+        self.write_uint32(buffer.buffer_id, tag=None)
 
     def _write_js_array_buffer_transfer(
         self, buffer: AnyArrayBufferTransfer, *, identity: object | None = None
@@ -663,7 +663,7 @@ class WritableTagStream:
             raise ValueError(f"transfer_id cannot be negative: {buffer.transfer_id=}")
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferTransfer)
-        self.write_varint(buffer.transfer_id)
+        self.write_uint32(buffer.transfer_id, tag=None)
 
     def write_js_array_buffer_view(
         self, buffer_view: AnyArrayBufferView, *, identity: object | None = None
-- 
2.43.0


From 76ade3a0e08b6014d3d0fc97d5ac31a78166e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 31/45] fix: read the bytes of memoryviews and arrays with
 items other than unsigned bytes

---
 src/v8serialize/_pycompat/typing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/_pycompat/typing.py b/src/v8serialize/_pycompat/typing.py
index 2b6126c..12f3f46 100644
--- a/src/v8serialize/_pycompat/typing.py
+++ b/src/v8serialize/_pycompat/typing.py
@@ -57,7 +57,11 @@ Can also be any [`BufferSequence`](`v8serialize.BufferSequence`).
 
 def is_readable_binary(buffer: Buffer) -> TypeGuard[ReadableBinary]:
     """Return True if a binary value can be read without wrapping in a `memoryview`."""
-    return isinstance(buffer, (bytes, bytearray, memoryview, array, Sequence))
+    if isinstance(buffer, (memoryview, array)):
+        # Other item formats do not provide the value of individual bytes
+        with memoryview(buffer) as view:
+            return view.format == "B" and view.ndim == 1
+    return isinstance(buffer, (bytes, bytearray, Sequence))
 
 
 def get_buffer(
-- 
2.43.0


From 12b604bb5b5d65a68f594bcdb7b4f2b2039e51d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 32/45] fix: write a value's tag before giving it an object ID,
 so that a refused value takes none

---
 src/v8serialize/encode.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 368c6a8..d766a2e 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -365,10 +365,10 @@ class WritableTagStream:
     def write_js_primitive_object(
         self, obj: JSPrimitiveObject, *, identity: object | None = None
     ) -> None:
-        self.objects.record_reference(obj if identity is None else identity)
         tag = obj.tag
         value = obj.value
         self.write_tag(tag)
+        self.objects.record_reference(obj if identity is None else identity)
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
             self.write_string_utf8(value)
@@ -391,8 +391,8 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
-        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
+        self.objects.record_reference(regexp if identity is None else identity)
         # We can write any of the string formats here, but just UTF-8 seems fine
         self.write_string_utf8(regexp.source)
         self.write_varint(regexp.flags.canonical)
@@ -432,8 +432,8 @@ class WritableTagStream:
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
         epoch_ms = value.timestamp() * 1000
-        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
+        self.objects.record_reference(value if identity is None else identity)
         self.write_double(epoch_ms, tag=None)
 
     def write_jsmap(
@@ -443,8 +443,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSMap)
+        self.objects.record_reference(items if identity is None else identity)
         count = 0
         for key, value in items:
             ctx.encode_object(key)
@@ -460,8 +460,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(values if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSSet)
+        self.objects.record_reference(values if identity is None else identity)
         count = 0
         for value in values:
             ctx.encode_object(value)
@@ -476,8 +476,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSObject)
+        self.objects.record_reference(items if identity is None else identity)
         self._write_js_object_properties(items, ctx)
 
     def _write_js_object_properties(
@@ -531,8 +531,8 @@ class WritableTagStream:
                     "array and properties are provided"
                 )
             identity = array
-        self.objects.record_reference(identity)
         self.write_tag(SerializationTag.kBeginDenseJSArray)
+        self.objects.record_reference(identity)
         array_length = len(array)
         self.write_varint(array_length)
         array_el_count = 0
@@ -564,8 +564,8 @@ class WritableTagStream:
             raise ValueError(
                 f"length must be >= 0 and <= ${MAX_ARRAY_LENGTH_REPR}: {length=}"
             )
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginSparseJSArray)
+        self.objects.record_reference(items if identity is None else identity)
         self.write_varint(length)
         self._write_js_object_properties(
             items, ctx, end_tag=SerializationTag.kEndSparseJSArray
@@ -625,8 +625,8 @@ class WritableTagStream:
             not buffer.resizable
             or SerializationFeature.ResizableArrayBuffers not in self.features
         )
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBuffer)
+        self.objects.record_reference(buffer if identity is None else identity)
         with memoryview(buffer.data) as buffer_data:
             self.write_uint32(len(buffer_data), tag=None)
             self.data.extend(buffer_data)
@@ -641,8 +641,8 @@ class WritableTagStream:
                     f"max_byte_length must be >= len(data): "
                     f"{buffer.max_byte_length=}, {len(buffer_data)=}"
                 )
-            self.objects.record_reference(buffer if identity is None else identity)
             self.write_tag(SerializationTag.kResizableArrayBuffer)
+            self.objects.record_reference(buffer if identity is None else identity)
             self.write_uint32(len(buffer_data), tag=None)
             self.write_uint32(buffer.max_byte_length, tag=None)
             self.data.extend(buffer_data)
@@ -652,8 +652,8 @@ class WritableTagStream:
     ) -> None:
         if buffer.buffer_id < 0:
             raise ValueError(f"buffer_id cannot be negative: {buffer.buffer_id=}")
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kSharedArrayBuffer)
+        self.objects.record_reference(buffer if identity is None else identity)
         self.write_uint32(buffer.buffer_id, tag=None)
 
     def _write_js_array_buffer_transfer(
@@ -661,8 +661,8 @@ class WritableTagStream:
     ) -> None:
         if buffer.transfer_id < 0:
             raise ValueError(f"transfer_id cannot be negative: {buffer.transfer_id=}")
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferTransfer)
+        self.objects.record_reference(buffer if identity is None else identity)
         self.write_uint32(buffer.transfer_id, tag=None)
 
     def write_js_array_buffer_view(
@@ -677,8 +677,8 @@ class WritableTagStream:
                 "SerializationFeature is not enabled.",
                 feature_required=SerializationFeature.Float16Array,
             )
-        self.objects.record_reference(buffer_view if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferView)
+        self.objects.record_reference(buffer_view if identity is None else identity)
         self.write_varint(buffer_view.view_tag.value)
         self.write_uint32(buffer_view.byte_offset, tag=None)
         # 0 / None when flags.IsBufferResizable
@@ -697,8 +697,8 @@ class WritableTagStream:
     def write_host_object(
         self, value: T, *, serializer: HostObjectSerializer[T]
     ) -> None:
-        self.objects.record_reference(value)
         self.write_tag(SerializationTag.kHostObject)
+        self.objects.record_reference(value)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
         else:
@@ -707,8 +707,8 @@ class WritableTagStream:
     def write_v8_shared_object_reference(
         self, value: V8SharedObjectReference, *, identity: object | None = None
     ) -> None:
-        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kSharedObject)
+        self.objects.record_reference(value if identity is None else identity)
         self.write_uint32(value.shared_value_id, tag=None)
 
 
-- 
2.43.0


From 15f833b0923696589582e5502ccf9fa296228603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 33/45] fix: write dates as the exact number of milliseconds

timestamp() * 1000 is rounded twice, so that a datetime of 1.001 s became
1000.9999999999999 ms, which JavaScript truncates to 1000.
---
 src/v8serialize/encode.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index d766a2e..a1d3704 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -9,7 +9,7 @@ from collections import abc
 from collections.abc import Collection, Iterable, Mapping, Sequence
 from contextlib import AbstractContextManager
 from dataclasses import dataclass, field, replace
-from datetime import datetime
+from datetime import datetime, timedelta, timezone
 from functools import lru_cache, partial
 from types import TracebackType
 from typing import (
@@ -17,6 +17,7 @@ from typing import (
     AbstractSet,
     Any,
     AnyStr,
+    Final,
     Literal,
     Protocol,
     TypeVar,
@@ -84,6 +85,9 @@ T = TypeVar("T")
 T_con = TypeVar("T_con", contravariant=True)
 
 
+_EPOCH: Final = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
+
 @dataclass(init=False)
 class EncodeV8SerializeError(V8SerializeError, ValueError):
     pass
@@ -431,7 +435,13 @@ class WritableTagStream:
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-        epoch_ms = value.timestamp() * 1000
+        if value.utcoffset() is None:
+            value_utc = value.astimezone(timezone.utc)
+        else:
+            value_utc = value
+        # timestamp() * 1000 would be rounded twice, so be off by 1ms once JavaScript
+        # drops the fraction.
+        epoch_ms = (value_utc - _EPOCH) / timedelta(milliseconds=1)
         self.write_tag(SerializationTag.kDate)
         self.objects.record_reference(value if identity is None else identity)
         self.write_double(epoch_ms, tag=None)
-- 
2.43.0


From 5456dc8d78ffd3076f363994c23430f2c7572938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 34/45] fix: read dates without losing microseconds in the
 conversion to seconds

fromtimestamp(ms / 1000) is off by a microsecond for whole milliseconds
after the year 2242.
---
 src/v8serialize/decode.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 542c410..a420f61 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -8,7 +8,7 @@ import struct
 import sys
 from collections.abc import Iterable, Mapping, MutableMapping, MutableSet, Sequence
 from dataclasses import dataclass, field
-from datetime import datetime, tzinfo
+from datetime import datetime, timedelta, timezone, tzinfo
 from functools import partial
 from types import MappingProxyType
 from typing import (
@@ -129,6 +129,9 @@ def _decode_zigzag(n: int) -> int:
     return n // 2
 
 
+_EPOCH: Final = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
+
 class ArrayReadResult(NamedTuple):
     """The data being deserialized from a dense or sparse array."""
 
@@ -533,7 +536,15 @@ class ReadableTagStream:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
         try:
-            result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+            # fromtimestamp() takes seconds, which have no exact float representation
+            result = _EPOCH + timedelta(milliseconds=epoch_ms)
+            if tz is None:
+                seconds = (result - _EPOCH) // timedelta(seconds=1)
+                result = datetime.fromtimestamp(seconds).replace(
+                    microsecond=result.microsecond
+                )
+            else:
+                result = result.astimezone(tz)
         except (ValueError, OverflowError, OSError) as e:
             self.throw(f"Date is not representable as a datetime: {epoch_ms}", cause=e)
         return ReferencedObject(self.objects.record_reference(result), result)
-- 
2.43.0


From c626e76789fcefe84a8de726aa608b115d1db415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 35/45] fix: let jsset_type be Python's set

---
 src/v8serialize/decode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index a420f61..d0480bb 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -1300,9 +1300,9 @@ class TagReader(DecodeStepObject):
     ) -> AbstractSet[object]:
         assert tag == SerializationTag.kBeginJSSet
         set = self.jsset_type()
-        # MutableSet's types expect AbstractSet for RHS of |= but implementations
-        # accept any iterable in practice.
-        set |= ctx.stream.read_jsset(ctx, identity=set)  # type: ignore[arg-type]
+        # Not |= because Python's own set only allows other sets as its RHS.
+        for element in ctx.stream.read_jsset(ctx, identity=set):
+            set.add(element)
         return set
 
     def deserialize_js_object(
-- 
2.43.0


From 6bed24b4e4a52063d7ba794f6427684b5c5f275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 36/45] fix: write int subclasses without iterating over ranges
 of ints

---
 src/v8serialize/encode.py                    | 4 ++++
 src/v8serialize/jstypes/jsprimitiveobject.py | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index a1d3704..3913eb3 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -344,6 +344,7 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kInt32] | None = SerializationTag.kInt32,
     ) -> None:
+        value = int(value)
         if value not in INT32_RANGE:
             raise ValueError(
                 f"Python int is too large to represent as Int32: value must be "
@@ -358,6 +359,7 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kUint32] | None = SerializationTag.kUint32,
     ) -> None:
+        value = int(value)
         if value not in UINT32_RANGE:
             raise ValueError(
                 f"Python int is too large to represent as Uint32: value must be "
@@ -922,6 +924,8 @@ class TagWriter(EncodeStepObject):
     def serialize_int(
         self, value: int, /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
+        # range only checks for exact ints without iterating over its values
+        value = int(value)
         if value in UINT32_RANGE:
             ctx.stream.write_uint32(value)
         elif value in INT32_RANGE:
diff --git a/src/v8serialize/jstypes/jsprimitiveobject.py b/src/v8serialize/jstypes/jsprimitiveobject.py
index 17ef3d2..e067eac 100644
--- a/src/v8serialize/jstypes/jsprimitiveobject.py
+++ b/src/v8serialize/jstypes/jsprimitiveobject.py
@@ -70,7 +70,8 @@ class JSPrimitiveObject(Generic[T], metaclass=ABCMeta):
         elif isinstance(value, float):
             expected_tag = SerializationTag.kNumberObject
         elif isinstance(value, int):
-            if value in FLOAT64_SAFE_INT_RANGE:
+            # range only checks for exact ints without iterating over its values
+            if int(value) in FLOAT64_SAFE_INT_RANGE:
                 expected_tag = SerializationTag.kNumberObject
                 expected_tag2 = SerializationTag.kBigIntObject
             else:
-- 
2.43.0


From 7bc0ef2ec43c28185689f7fc1c5608385c5a0d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 37/45] fix: do not fail to repr objects when fillvalue is
 empty

---
 src/v8serialize/jstypes/_repr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 2186e28..658c8ec 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -176,7 +176,7 @@ class JSRepr(RecursiveReprMixin, Repr):
                 return f"{type_name}({kwargs_repr})"
 
             array_repr = self._join(array_pieces, level)
-            sep = "" if kwargs_repr[0].isspace() else " "
+            sep = "" if kwargs_repr[:1].isspace() else " "
             return f"{type_name}({{{array_repr}}},{sep}{kwargs_repr})"
 
         prop_pieces: list[str] = array_pieces
@@ -235,7 +235,7 @@ class JSRepr(RecursiveReprMixin, Repr):
                 return f"JSArray({kwargs_repr})"
 
             array_repr = self._join(array_pieces, level)
-            sep = "" if kwargs_repr[0].isspace() else " "
+            sep = "" if kwargs_repr[:1].isspace() else " "
             return f"JSArray([{array_repr}],{sep}{kwargs_repr})"
 
         prop_pieces: list[str] = []
-- 
2.43.0


From 62990c75c21092aff54c970b3f9e037348f3f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 38/45] fix: repr subclasses of JS types by their content

---
 src/v8serialize/jstypes/_repr.py | 65 +++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 658c8ec..395aba9 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -7,7 +7,15 @@ from collections.abc import Collection, Iterable
 from contextlib import contextmanager
 from itertools import islice
 from reprlib import Repr
-from typing import TYPE_CHECKING, Any, ContextManager, Final, Generator, overload
+from typing import (
+    TYPE_CHECKING,
+    Any,
+    ContextManager,
+    Final,
+    Generator,
+    cast,
+    overload,
+)
 
 from v8serialize.constants import JSErrorName
 from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties
@@ -124,6 +132,17 @@ class JSRepr(RecursiveReprMixin, Repr):
             def _join(self, pieces: Iterable[str], level: int) -> str:
                 return ", ".join(pieces)
 
+    def repr_instance(self, x: object, level: int) -> str:
+        # Repr only selects methods using the exact name of a type, and the
+        # __repr__() that subclasses of JS types inherit uses this Repr.
+        for t in type(x).__mro__:
+            if "__repr__" in vars(t):
+                repr_type = getattr(self, f"repr_{t.__name__}", None)
+                if repr_type and t.__module__.startswith("v8serialize.jstypes."):
+                    return cast(str, repr_type(x, level))
+                break
+        return super().repr_instance(x, level)
+
     # We need to maintain insertion order in the repr because that's a defined
     # behaviour of JavaScript objects. The default repr behaviour is to sort
     # dict keys, so we can't reuse dict's repr for args to JSObject/JSArray.
@@ -134,9 +153,9 @@ class JSRepr(RecursiveReprMixin, Repr):
         self,
         obj: JSObject,
         level: int,
-        type_name: str = "JSObject",
         maxprops: int | None = None,
     ) -> str:
+        type_name = type(obj).__name__
         if len(obj) == 0:
             return f"{type_name}()"
 
@@ -192,11 +211,12 @@ class JSRepr(RecursiveReprMixin, Repr):
         return f"{type_name}({{{props_repr}}})"
 
     def repr_JSArray(self, obj: JSArray, level: int) -> str:
+        type_name = type(obj).__name__
         if len(obj) == 0:
-            return "JSArray()"
+            return f"{type_name}()"
 
         if level <= 0:
-            return f"JSArray({self.fillvalue})"
+            return f"{type_name}({self.fillvalue})"
 
         maxprops = self.maxjsarray
         repr1 = self.repr1
@@ -204,9 +224,7 @@ class JSRepr(RecursiveReprMixin, Repr):
         if isinstance(obj.array, SparseArrayProperties):
             # If the array is sparse it's best to represent it as a dict of
             # index entries, and this is the same as the JSObject repr.
-            return self.__repr_JSObject(
-                obj, level, type_name="JSArray", maxprops=maxprops
-            )
+            return self.__repr_JSObject(obj, level, maxprops=maxprops)
 
         array_pieces: list[str] = []
         if len(obj.array) > 0:
@@ -231,12 +249,12 @@ class JSRepr(RecursiveReprMixin, Repr):
 
             if not array_pieces:
                 if _contains_single_piece(kwarg_pieces):
-                    return f"JSArray({kwarg_pieces[0]})"
-                return f"JSArray({kwargs_repr})"
+                    return f"{type_name}({kwarg_pieces[0]})"
+                return f"{type_name}({kwargs_repr})"
 
             array_repr = self._join(array_pieces, level)
             sep = "" if kwargs_repr[:1].isspace() else " "
-            return f"JSArray([{array_repr}],{sep}{kwargs_repr})"
+            return f"{type_name}([{array_repr}],{sep}{kwargs_repr})"
 
         prop_pieces: list[str] = []
         if obj.properties:
@@ -255,30 +273,31 @@ class JSRepr(RecursiveReprMixin, Repr):
         # and pass the props as a **{} kwargs to bypass identifier restrictions.
         if not array_pieces:
             if _contains_single_piece(prop_pieces):
-                return f"JSArray({{{prop_pieces[0]}}})"
-            return f"JSArray({{{props_repr}}})"
+                return f"{type_name}({{{prop_pieces[0]}}})"
+            return f"{type_name}({{{props_repr}}})"
 
         array_repr = self._join(array_pieces, level)
         if prop_pieces:
-            return f"JSArray([{array_repr}], **{{{props_repr}}})"
-        return f"JSArray([{array_repr}])"
+            return f"{type_name}([{array_repr}], **{{{props_repr}}})"
+        return f"{type_name}([{array_repr}])"
 
     def repr_JSMap(self, obj: JSMap, level: int) -> str:
         # same as repr_dict() but without sorting entries and "JSMap()" not {}
+        type_name = type(obj).__name__
         n = len(obj)
         if n == 0:
-            return "JSMap()"
+            return f"{type_name}()"
         if level <= 0:
-            return "JSMap([" + self.fillvalue + "])"
+            return f"{type_name}([{self.fillvalue}])"
         newlevel = level - 1
         repr1 = self.repr1
 
         # Use dict to initialise the entries in the repr if possible, as it
         # results in an easier to read repr.
         if _is_dict_equivalent_jsmap(obj, maxdict=self.maxdict):
-            jsmap_repr, entry_repr = "JSMap({%s})", "%s: %s"
+            jsmap_repr, entry_repr = "%s({%s})", "%s: %s"
         else:
-            jsmap_repr, entry_repr = "JSMap([%s])", "(%s, %s)"
+            jsmap_repr, entry_repr = "%s([%s])", "(%s, %s)"
 
         pieces = []
         for key in islice(obj, self.maxdict):
@@ -288,12 +307,13 @@ class JSRepr(RecursiveReprMixin, Repr):
         if n > self.maxdict:
             pieces.append(self.fillvalue)
         s = self._join(pieces, level)
-        return jsmap_repr % (s,)
+        return jsmap_repr % (type_name, s)
 
     def repr_JSSet(self, obj: JSSet, level: int) -> str:
+        type_name = type(obj).__name__
         if not obj:
-            return "JSSet()"
-        return self._repr_iterable(obj, level, "JSSet([", "])", self.maxset)
+            return f"{type_name}()"
+        return self._repr_iterable(obj, level, f"{type_name}([", "])", self.maxset)
 
     def repr_JSError(self, obj: JSError, level: int) -> str:
         args = [
@@ -314,7 +334,8 @@ class JSRepr(RecursiveReprMixin, Repr):
                 else f"cause={self.repr1(obj.cause, level - 1)}"
             ),
         ]
-        return f"JSError({self._join((arg for arg in args if arg), level)})"
+        joined_args = self._join((arg for arg in args if arg), level)
+        return f"{type(obj).__name__}({joined_args})"
 
     def repr_JSArrayBuffer(self, obj: JSArrayBuffer, level: int) -> str:
         obj_data = obj._data
-- 
2.43.0


From 22c5f159e336a4e449ceff1c123cb1687e1c41b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 39/45] fix: Show the readonly argument of views in their repr

---
 src/v8serialize/jstypes/jsbuffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 6314dbe..7d886af 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -648,7 +648,7 @@ the itemsize when the view does not have an explicit byte_length"""
             f"{self.backing_buffer!r}",
             None if self.item_offset == 0 else f"item_offset={self.item_offset!r}",
             None if self.item_length is None else f"item_length={self.item_length!r}",
-            None if self.readonly is None else f"readonly={self.item_length!r}",
+            None if self.readonly is None else f"readonly={self.readonly!r}",
         ]
         args = ", ".join(a for a in arg_pieces if a)
         return f"{type(self).__name__}({args})"
-- 
2.43.0


From 10f812aab23d1c13996dce2e971637a427709c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 40/45] fix: Don't show property names as keyword arguments
 Python can't parse

---
 src/v8serialize/jstypes/_repr.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 395aba9..5383ced 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -6,6 +6,7 @@ from _thread import get_ident
 from collections.abc import Collection, Iterable
 from contextlib import contextmanager
 from itertools import islice
+from keyword import iskeyword
 from reprlib import Repr
 from typing import (
     TYPE_CHECKING,
@@ -16,6 +17,7 @@ from typing import (
     cast,
     overload,
 )
+from unicodedata import normalize
 
 from v8serialize.constants import JSErrorName
 from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties
@@ -176,7 +178,7 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= obj.array.elements_used
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() for k in obj.properties
+            _is_kwarg_name(k) for k in obj.properties
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
@@ -234,7 +236,7 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= len(obj.array)
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() for k in obj.properties
+            _is_kwarg_name(k) for k in obj.properties
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
@@ -421,6 +423,16 @@ class JSRepr(RecursiveReprMixin, Repr):
         return f"{repr_[:-1]}…{repr_[-1:]}"
 
 
+def _is_kwarg_name(name: str) -> bool:
+    """Whether the name can be used as a keyword argument without changing it."""
+    return (
+        name.isidentifier()
+        and not iskeyword(name)
+        and name != "__debug__"  # Python does not allow assigning it
+        and normalize("NFKC", name) == name
+    )
+
+
 def _contains_single_piece(pieces: list[str]) -> bool:
     if len(pieces) != 1:
         return False
-- 
2.43.0


From 198bd15fc409ef8ee8dd6b42950701dfefb66bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 41/45] fix: Show that a full resizable JSArrayBuffer is
 resizable in its repr

---
 src/v8serialize/jstypes/_repr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 5383ced..0bcc7ef 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -345,7 +345,9 @@ class JSRepr(RecursiveReprMixin, Repr):
         obj_data_repr: str
         try:
             with memoryview(obj_data) as mv:
-                needs_max_byte_length = mv.nbytes != obj.max_byte_length
+                needs_max_byte_length = (
+                    obj.resizable or mv.nbytes != obj.max_byte_length
+                )
                 needs_readonly = mv.readonly
                 # bytearray() can be repr'd as bytes because the constructor
                 # copies bytes to a bytearray by default.
-- 
2.43.0


From 2556724e75810e2a79ee29584313b8ec14c97f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 42/45] fix: Write the buffer of views over array.array and
 other buffer types

---
 src/v8serialize/encode.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 3913eb3..95ad866 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -1138,10 +1138,19 @@ class TagWriter(EncodeStepObject):
                     f"{SerializationFeature.Float16Array!r} is not enabled.",
                 )
                 raise e
-        ctx.encode_object(value.backing_buffer)
-        if isinstance(value.backing_buffer, bytearray):
+        backing_buffer = value.backing_buffer
+        if isinstance(
+            backing_buffer, (BaseJSArrayBuffer, bytes, bytearray, memoryview)
+        ):
+            ctx.encode_object(backing_buffer)
+        else:
+            # On its own a buffer of another type (e.g. array.array) can be
+            # handled as another kind of value, but a view must follow a buffer.
+            with memoryview(backing_buffer) as data:
+                ctx.encode_object(data)
+        if isinstance(backing_buffer, bytearray):
             # bytearrays are written as fixed-length ArrayBuffers
-            with memoryview(value.backing_buffer) as data:
+            with memoryview(backing_buffer) as data:
                 ctx.stream.write_js_array_buffer_view(
                     replace(value, backing_buffer=data), identity=value
                 )
-- 
2.43.0


From 817e0f6efd84a6ae43f4b95be6b47f6215bc61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 43/45] fix: write nothing when
 WritableTagStream.write_double() is given an int too large for a double

---
 src/v8serialize/encode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 95ad866..4530bff 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -261,8 +261,9 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kDouble] | None = SerializationTag.kDouble,
     ) -> None:
+        encoded = struct.pack("<d", value)
         self.write_tag(tag)
-        self.data.extend(struct.pack("<d", value))
+        self.data.extend(encoded)
 
     def write_string_onebyte(
         self,
-- 
2.43.0


From a578a75af4ecae3c7d1051a255e70cf56720f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:44 +0000
Subject: [PATCH 44/45] fix: only treat views of inaccessible buffers as equal
 when they are views of the same region

---
 src/v8serialize/jstypes/jsbuffers.py | 39 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 7d886af..e47863d 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -623,25 +623,32 @@ the itemsize when the view does not have an explicit byte_length"""
             return True
         if isinstance(value, JSArrayBufferView):
             value = cast("JSArrayBufferView[AnyArrayBufferData, AnyBufferT]", value)
-            try:
-                with (
-                    self.get_buffer(readonly=True) as self_data,
-                    value.get_buffer(readonly=True) as value_data,
-                ):
-                    return self_data == value_data
-            except NotImplementedError:
-                pass
+            if (
+                self.__is_backing_buffer_inaccessible
+                or value.__is_backing_buffer_inaccessible
+            ):
+                # The contents aren't known, only the region they're in
+                return (
+                    type(self) is type(value)
+                    and self.backing_buffer == value.backing_buffer
+                    and self.byte_offset == value.byte_offset
+                    and self.byte_length == value.byte_length
+                )
+            with (
+                self.get_buffer(readonly=True) as self_data,
+                value.get_buffer(readonly=True) as value_data,
+            ):
+                return self_data == value_data
         return NotImplemented
 
     def __hash__(self) -> int:
-        try:
-            with self.get_buffer_as_memoryview(readonly=True) as data:
-                # data may not be hashable, depending on backing buffer
-                return hash(data)
-        except NotImplementedError as e:
-            raise TypeError(
-                f"cannot hash {type(self).__name__} with inaccessible buffer"
-            ) from e
+        if self.__is_backing_buffer_inaccessible:
+            return hash(
+                (type(self), self.backing_buffer, self.byte_offset, self.byte_length)
+            )
+        with self.get_buffer_as_memoryview(readonly=True) as data:
+            # data may not be hashable, depending on backing buffer
+            return hash(data)
 
     def __repr__(self) -> str:
         arg_pieces = [
-- 
2.43.0


From b0180467fec904e5d4d45215b80ab1849d67dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:44 +0000
Subject: [PATCH 45/45] fix: give equal views equal hashes, whatever their
 format

---
 src/v8serialize/jstypes/jsbuffers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index e47863d..798033d 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -647,8 +647,13 @@ the itemsize when the view does not have an explicit byte_length"""
                 (type(self), self.backing_buffer, self.byte_offset, self.byte_length)
             )
         with self.get_buffer_as_memoryview(readonly=True) as data:
-            # data may not be hashable, depending on backing buffer
-            return hash(data)
+            hash(data)  # data may not be hashable, depending on backing buffer
+        # Views with different formats are equal when their elements are equal, so
+        # the hash must depend on the elements, rather than on their bytes.
+        with self.get_buffer(readonly=True) as buffer:
+            items = buffer.buffer if isinstance(buffer, DataViewBuffer) else buffer
+            # The hash of a NaN depends on its identity (and it's equal to nothing)
+            return hash(tuple(None if v != v else v for v in items))
 
     def __repr__(self) -> str:
         arg_pieces = [
-- 
2.43.0

