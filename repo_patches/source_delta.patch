From 825e8ea23955a9cbe175fe20ea3ac0bc7c7cc716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 01/34] fix: record an object reference when writing RegExp

V8 (and read_js_regexp) allocate an object ID for every RegExp, so not
recording one when writing made every later ObjectReference in the data
point at the wrong object.
---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 99d8331..180867d 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -386,6 +386,7 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
+        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here, but just UTF-8 seems fine
         self.write_string_utf8(regexp.source)
@@ -942,7 +943,9 @@ class TagWriter(EncodeStepObject):
     def serialize_python_regexp(
         self, value: re.Pattern[AnyStr], /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        ctx.stream.write_js_regexp(JSRegExp.from_python_pattern(value))
+        ctx.stream.write_js_regexp(
+            JSRegExp.from_python_pattern(value), identity=value
+        )
 
     @encode.register(JSErrorData)
     def serialize_js_error(
-- 
2.43.0


From 4637f090dd1d99a77660dbcf397a5037fb1df7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:25 +0000
Subject: [PATCH 02/34] fix: record an object reference when writing Errors
 without a cause

V8 (and read_js_error) allocate an object ID for every Error, not just those
with a cause, so later ObjectReferences pointed at the wrong object.
---
 src/v8serialize/encode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 180867d..c22d21d 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -421,6 +421,8 @@ class WritableTagStream:
                     "cause without CircularErrorCause enabled",
                 ):
                     ctx.encode_object(cause)
+        else:
+            self.objects.record_reference(identity)
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-- 
2.43.0


From e946a9bb5251eb94811bfee7dae80b745baf11dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:25 +0000
Subject: [PATCH 03/34] fix: record object references for shared and
 transferred ArrayBuffers

The writer (and V8) allocate an object ID for these buffers, but they were not
recorded when reading, so ObjectReferences to them, or to later objects,
resolved to the wrong object or failed.
---
 src/v8serialize/decode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 03abaa3..9e4a910 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -766,7 +766,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kSharedArrayBuffer)
         index = self.read_uint32()
-        return shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        result = shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        self.objects.record_reference(result)
+        return result
 
     def _read_js_array_buffer_transfer(
         self,
@@ -777,7 +779,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferTransfer)
         transfer_id = self.read_uint32()
-        return array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        result = array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        self.objects.record_reference(result)
+        return result
 
     def read_js_array_buffer_view(
         self,
-- 
2.43.0


From f420eac82bea65359a26ba364426538f2cbeb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:25 +0000
Subject: [PATCH 04/34] fix: record object references for HostObjects

V8 allocates an object ID for host objects when reading and writing them.
Not doing so made ObjectReferences following a host object (for example, a
Node.js Buffer) resolve to the wrong object.
---
 src/v8serialize/decode.py | 7 +++++--
 src/v8serialize/encode.py | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 9e4a910..fdfafae 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -823,8 +823,11 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kHostObject)
         if isinstance(deserializer, HostObjectDeserializerObj):
-            return deserializer.deserialize_host_object(stream=self)
-        return deserializer(stream=self)
+            result = deserializer.deserialize_host_object(stream=self)
+        else:
+            result = deserializer(stream=self)
+        self.objects.record_reference(result)
+        return result
 
     def read_v8_shared_object_reference(
         self, tag: bool = False
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index c22d21d..8c07149 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -690,6 +690,7 @@ class WritableTagStream:
     def write_host_object(
         self, value: T, *, serializer: HostObjectSerializer[T]
     ) -> None:
+        self.objects.record_reference(value)
         self.write_tag(SerializationTag.kHostObject)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
-- 
2.43.0


From bb938ca0005c84b52175627ce4d4ad025e8e1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 05/34] fix: check resizable ArrayBuffer bounds after reading
 its max length

The available data was checked before max_byte_length was read, so buffers
truncated by up to the size of the max_byte_length varint were silently
decoded with missing bytes, leaving the stream beyond the end of its data.
---
 src/v8serialize/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index fdfafae..82bc95f 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -736,11 +736,11 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kResizableArrayBuffer)
         byte_length = self.read_uint32()
-        if self.pos + byte_length >= len(self.data):
+        max_byte_length = self.read_uint32()
+        if self.pos + byte_length > len(self.data):
             self.throw(
                 f"ArrayBuffer byte length exceeds available data: {byte_length=}"
             )
-        max_byte_length = self.read_uint32()
         if max_byte_length < byte_length:
             self.throw(
                 f"ResizableArrayBuffer max byte length is less than current "
-- 
2.43.0


From 7be9abb30b91c8f9cb96a445b3532f4827967776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 06/34] fix: don't read past the end of the data to report an
 invalid error tag

An unknown error tag in the final byte raised IndexError rather than
DecodeV8SerializeError (and otherwise the byte after the tag was reported).
---
 src/v8serialize/decode.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 82bc95f..73bf2b4 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -418,8 +418,7 @@ class ReadableTagStream:
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
         self.throw(
-            f"Expected an error tag but found {self.data[self.pos]} "
-            f"(not a valid error tag)"
+            f"Expected an error tag but found {code} (not a valid error tag)"
         )
 
     @overload
-- 
2.43.0


From ddffee21db0f7150dca92410cec75a09275f892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 07/34] fix: raise KeyError for the index after the end of an
 elements() view

array.elements()[len(array)] raised IndexError, so .get() and in failed.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index fccee7a..d0d2330 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -660,7 +660,7 @@ class ArrayPropertiesElementsView(ElementsView[T], Mapping[int, T]):
         self.order = order
 
     def __getitem__(self, key: int, /) -> T:
-        if not (0 <= key <= len(self._array_properties)):
+        if not (0 <= key < len(self._array_properties)):
             raise KeyError(key)
         value = self._array_properties[key]
         if value is not JSHole:
-- 
2.43.0


From 551eafc6745493052b5ec4e488b7a8d0a1e2cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 08/34] fix: allow ints too large for float in
 same_value_zero()

isnan() converts its argument to float, so bigints >= 2**1024 could not be
used as JSMap keys or JSSet members (or be decoded as such).
---
 src/v8serialize/jstypes/_equality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_equality.py b/src/v8serialize/jstypes/_equality.py
index c1e188b..4f513f2 100644
--- a/src/v8serialize/jstypes/_equality.py
+++ b/src/v8serialize/jstypes/_equality.py
@@ -81,7 +81,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
         # bools are equal to 0 and 1 by default
         return (bool, value)  # type: ignore[return-value]
     elif isinstance(value, (int, float)):
-        if isnan(value):
+        if isinstance(value, float) and isnan(value):
             # Represent nan as a value equal to itself.
             return _nankey  # type: ignore[return-value]
         return value  # type: ignore[return-value]
-- 
2.43.0


From 06fc471b4898c41a19fbda66acbed3c491f383bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 09/34] fix: grow sparse arrays when appending JSHole

SparseArrayProperties.append(JSHole) did nothing, whereas on
DenseArrayProperties it increases the length, so the same operations produced
arrays of different lengths depending on the storage in use.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index d0d2330..718b936 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -598,13 +598,14 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def append(self, value: T | JSHoleType) -> None:
-        if value is JSHole:
-            return
         i = self._max_index + 1
         if i >= MAX_ARRAY_LENGTH:
             raise IndexError(
                 f"Cannot extend array beyond max length: {MAX_ARRAY_LENGTH}"
             )
+        if value is JSHole:
+            self._max_index = i
+            return
 
         items = self._items
         sorted_keys = self._sorted_keys
-- 
2.43.0


From 593356a3cbaac389d57d9180a074d9062e0c4109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 10/34] fix: support very long digit strings as property keys

int() raises ValueError for strings longer than 4300 digits, so objects with
such keys could not be created or decoded.
---
 src/v8serialize/jstypes/_normalise_property_key.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8serialize/jstypes/_normalise_property_key.py b/src/v8serialize/jstypes/_normalise_property_key.py
index f471247..d2dbb7f 100644
--- a/src/v8serialize/jstypes/_normalise_property_key.py
+++ b/src/v8serialize/jstypes/_normalise_property_key.py
@@ -53,6 +53,10 @@ def normalise_property_key(key: str | int | float) -> str | int:
     This reflects the behaviour defined in: https://tc39.es/ecma262/#integer-index
     """
     if isinstance(key, str):
+        # Strings with more digits than the max cannot be indexes. (Also, int()
+        # raises ValueError if asked to parse very long strings.)
+        if len(key) > len(str(MAX_ARRAY_LENGTH)):
+            return key
         int_value = canonical_numeric_index_string(key)
         if int_value is None:
             return key
-- 
2.43.0


From 7d751101031672944e55fcd4de19f627ecbed9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 11/34] fix: raise DecodeV8SerializeError for Dates datetime
 cannot represent

NaN (an Invalid Date in JavaScript) and far past/future timestamps raised bare
ValueError, OverflowError or OSError from datetime.fromtimestamp().
---
 src/v8serialize/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 73bf2b4..2c7188c 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -517,7 +517,10 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
-        result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        try:
+            result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        except (ValueError, OverflowError, OSError) as e:
+            self.throw("Date cannot be represented as a datetime", cause=e)
         return ReferencedObject(self.objects.record_reference(result), result)
 
     def read_jsmap(
-- 
2.43.0


From 7b6c985683a30f0f3a2427b484b997f64a0e6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 12/34] fix: raise DecodeV8SerializeError for RegExp with
 conflicting flags

Data containing a RegExp with both u and v flags raised a bare ValueError.
---
 src/v8serialize/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 2c7188c..1d269b2 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -409,7 +409,10 @@ class ReadableTagStream:
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
         flags = JSRegExpFlag(self.read_varint())
-        result = JSRegExp(source, flags)
+        try:
+            result = JSRegExp(source, flags)
+        except ValueError as e:
+            self.throw("RegExp is not valid", cause=e)
         return self.objects.record_reference(result), result
 
     def read_error_tag(self) -> SerializationErrorTag:
-- 
2.43.0


From 49c87349f0f61a34fa944c147d8b1a8cbad97b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 13/34] fix: don't bypass the object key tag constraint when
 writing constants

write_constant() replaced, then removed, the constraint established by
_write_js_object_properties(), allowing constants such as null to be written
as object keys, producing data that cannot be decoded.
---
 src/v8serialize/encode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 8c07149..0019cb3 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -238,8 +238,11 @@ class WritableTagStream:
         self.write_varint(_encode_zigzag(n))
 
     def write_constant(self, constant: ConstantTags) -> None:
-        with self.constrain_tags(JS_CONSTANT_TAGS):
-            self.write_tag(constant)
+        if constant not in JS_CONSTANT_TAGS:
+            raise EncodeV8SerializeError(
+                f"Attempted to write a tag that is not a constant: {constant!r}"
+            )
+        self.write_tag(constant)
 
     def write_header(self) -> None:
         """Write the V8 serialization stream header."""
-- 
2.43.0


From 7ba50d8e44b94406c4b66d8b90f61210bf44dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 14/34] fix: don't replace values with equal values that aren't
 referenced

deduplicate() returns the first of several equal values, so -0.0 was written
as 0.0 when 0.0 occurred earlier in the serialized value.
---
 src/v8serialize/encode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 0019cb3..585da0b 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -1119,9 +1119,9 @@ def serialize_object_references(
 
     [encode step]: `v8serialize.encode.EncodeStep`
     """
-    value = ctx.deduplicate(value)
-    if value in ctx.stream.objects:
-        ctx.stream.write_object_reference(obj=value)
+    original = ctx.deduplicate(value)
+    if original in ctx.stream.objects:
+        ctx.stream.write_object_reference(obj=original)
     else:
         next(value)
 
-- 
2.43.0


From 1aa4e1857043544a76cd525ad7a849c1a29fa552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 15/34] fix: limit the size of varint fields when decoding

All varint fields in the format are (at most) 32-bit, but they were read with
no upper limit. Integers with more than 4300 digits cannot be formatted in
error messages, so data with overlong varints raised a bare ValueError instead
of DecodeV8SerializeError.
---
 src/v8serialize/decode.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 1d269b2..24eafc8 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -298,7 +298,7 @@ class ReadableTagStream:
         @return the header's version number.
         """
         self.read_tag(SerializationTag.kVersion)
-        version = self.read_varint()
+        version = self.read_varint(max_bits=32)
         # v13 was first released in 2017.
         if version > kLatestVersion or version < 13:
             self.throw(f"Unsupported version {version}")
@@ -317,7 +317,7 @@ class ReadableTagStream:
         """Decode a OneByteString, which is latin1-encoded text."""
         if tag:
             self.read_tag(tag=SerializationTag.kOneByteString)
-        length = self.read_varint()
+        length = self.read_varint(max_bits=32)
         self.ensure_capacity(length)
         # Decoding latin1 can't fail/throw — just 1 byte/char.
         # We use codecs.decode because not all ReadableBinary types have a
@@ -329,7 +329,7 @@ class ReadableTagStream:
         """Decode a TwoByteString, which is UTF-16-encoded text."""
         if tag:
             self.read_tag(SerializationTag.kTwoByteString)
-        length = self.read_varint()
+        length = self.read_varint(max_bits=32)
         try:
             value = codecs.decode(self.read_bytes(length), "utf-16-le")
         except UnicodeDecodeError as e:
@@ -341,7 +341,7 @@ class ReadableTagStream:
         """Decode a Utf8String, which is UTF8-encoded text."""
         if tag:
             self.read_tag(tag=SerializationTag.kUtf8String)
-        length = self.read_varint()
+        length = self.read_varint(max_bits=32)
         try:
             value = codecs.decode(self.read_bytes(length), "utf-8")
         except UnicodeDecodeError as e:
@@ -352,7 +352,7 @@ class ReadableTagStream:
     def read_bigint(self, *, tag: bool = False) -> int:
         if tag:
             self.read_tag(tag=SerializationTag.kBigInt)
-        bitfield = self.read_varint()
+        bitfield = self.read_varint(max_bits=32)
         is_negative = bitfield & 1
         byte_count = (bitfield >> 1) & 0b111111111111111111111111111111
         value = int.from_bytes(self.read_bytes(byte_count), byteorder="little")
@@ -408,7 +408,7 @@ class ReadableTagStream:
             self.read_tag(tag=SerializationTag.kRegExp)
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
-        flags = JSRegExpFlag(self.read_varint())
+        flags = JSRegExpFlag(self.read_varint(max_bits=32))
         try:
             result = JSRegExp(source, flags)
         except ValueError as e:
@@ -417,7 +417,7 @@ class ReadableTagStream:
 
     def read_error_tag(self) -> SerializationErrorTag:
         self.ensure_capacity(1)
-        code = self.read_varint()
+        code = self.read_varint(max_bits=32)
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
         self.throw(
@@ -537,7 +537,7 @@ class ReadableTagStream:
         while (next_tag := self.read_tag()) != SerializationTag.kEndJSMap:
             yield ctx.decode_object(tag=next_tag), ctx.decode_object()
             actual_count += 2
-        expected_count = self.read_varint()
+        expected_count = self.read_varint(max_bits=32)
 
         if expected_count != actual_count:
             self.throw(
@@ -558,7 +558,7 @@ class ReadableTagStream:
             yield ctx.decode_object(tag=next_tag)
             actual_count += 1
 
-        expected_count = self.read_varint()
+        expected_count = self.read_varint(max_bits=32)
         if expected_count != actual_count:
             self.throw(
                 f"Expected count does not match actual count after reading "
@@ -605,7 +605,7 @@ class ReadableTagStream:
                     f"{JS_OBJECT_KEY_TAGS}"
                 )
 
-        expected_count = self.read_varint()
+        expected_count = self.read_varint(max_bits=32)
         if expected_count != actual_count:
             self.throw(
                 f"Expected properties count does not match actual count after reading "
@@ -622,7 +622,7 @@ class ReadableTagStream:
             self.read_tag(SerializationTag.kBeginDenseJSArray)
         self.objects.record_reference(identity)
         current_array_el_count = 0
-        expected_array_el_count = self.read_varint()
+        expected_array_el_count = self.read_varint(max_bits=32)
 
         for i in range(expected_array_el_count):
             yield i, ctx.decode_object()
@@ -633,7 +633,7 @@ class ReadableTagStream:
             end_tag=SerializationTag.kEndDenseJSArray,
             enclosing_name="DenseJSArray",
         )
-        final_array_el_count = self.read_varint()
+        final_array_el_count = self.read_varint(max_bits=32)
 
         if expected_array_el_count != final_array_el_count:
             self.throw(
@@ -649,7 +649,7 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kBeginSparseJSArray)
         self.objects.record_reference(identity)
-        expected_array_length = self.read_varint()
+        expected_array_length = self.read_varint(max_bits=32)
 
         def read_items() -> Generator[tuple[int | float | str, object], None, int]:
             actual_properties_count = yield from self._read_js_object_properties(
@@ -657,7 +657,7 @@ class ReadableTagStream:
                 end_tag=SerializationTag.kEndSparseJSArray,
                 enclosing_name="SparseJSArray",
             )
-            final_array_length = self.read_varint()
+            final_array_length = self.read_varint(max_bits=32)
             if expected_array_length != final_array_length:
                 self.throw(
                     "Expected array length does not match the final length "
@@ -673,7 +673,7 @@ class ReadableTagStream:
     ) -> tuple[SerializedId, object]:
         if tag:
             self.read_tag(SerializationTag.kObjectReference)
-        serialized_id = SerializedId(self.read_varint())
+        serialized_id = SerializedId(self.read_varint(max_bits=32))
 
         try:
             return serialized_id, self.objects.get_object(serialized_id)
@@ -797,7 +797,7 @@ class ReadableTagStream:
     ) -> ViewT:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferView)
-        raw_view_tag = self.read_varint()
+        raw_view_tag = self.read_varint(max_bits=32)
         if raw_view_tag not in ArrayBufferViewTag:
             self.throw(
                 f"ArrayBufferView view type {hex(raw_view_tag)} is not a known type"
@@ -809,7 +809,7 @@ class ReadableTagStream:
         byte_length = self.read_uint32()
         flags = ArrayBufferViewFlags(0)
         if self.version >= 14:  # flags field was added in v14
-            flags = ArrayBufferViewFlags(self.read_varint())
+            flags = ArrayBufferViewFlags(self.read_varint(max_bits=32))
 
         result = array_buffer_view(
             buffer=backing_buffer,
-- 
2.43.0


From ebb73f713169dcb463978d3eb8eaf67b2cb136b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 16/34] fix: tag the string in serialized String objects

---
 src/v8serialize/decode.py | 13 ++++++++++++-
 src/v8serialize/encode.py |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 24eafc8..19ea4ea 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -349,6 +349,17 @@ class ReadableTagStream:
             self.throw("Utf8String is not valid UTF-8 data", cause=e)
         return value
 
+    def _read_string(self) -> str:
+        """Decode a string in the encoding specified by its tag."""
+        tag = self.read_tag(tag=JS_STRING_TAGS)
+        if tag is SerializationTag.kOneByteString:
+            return self.read_string_onebyte()
+        elif tag is SerializationTag.kTwoByteString:
+            return self.read_string_twobyte()
+        elif tag is SerializationTag.kUtf8String:
+            return self.read_string_utf8()
+        self.throw(f"Expected a primitive string but found {tag.name}")
+
     def read_bigint(self, *, tag: bool = False) -> int:
         if tag:
             self.read_tag(tag=SerializationTag.kBigInt)
@@ -396,7 +407,7 @@ class ReadableTagStream:
                 self.read_bigint(tag=False), tag=SerializationTag.kBigIntObject
             )
         elif tag is SerializationTag.kStringObject:
-            result = JSPrimitiveObject(self.read_string_utf8(tag=False))
+            result = JSPrimitiveObject(self._read_string())
         else:
             raise AssertionError(f"Unreachable: {tag}")
         return self.objects.record_reference(result), result
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 585da0b..e0ee5b1 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -369,7 +369,7 @@ class WritableTagStream:
         self.write_tag(tag)
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
-            self.write_string_utf8(value, tag=None)
+            self.write_string_utf8(value)
         elif (
             tag is SerializationTag.kTrueObject or tag is SerializationTag.kFalseObject
         ):
-- 
2.43.0


From 9a1f45ac8f3db5def348b06bda325e5174eb23cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 17/34] fix: don't flag views as resizable when buffers are
 written fixed-length

Resizable ArrayBuffers are written as fixed-length ArrayBuffers when the
ResizableArrayBuffers feature is not enabled, but views of them still had
their IsBufferResizable and IsLengthTracking flags set. V8 refuses to read a
view whose flags contradict its buffer.
---
 src/v8serialize/encode.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index e0ee5b1..8c5c8cf 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -683,10 +683,13 @@ class WritableTagStream:
         self.write_uint32(buffer_view.byte_length or 0, tag=None)
 
         flags = ArrayBufferViewFlags(0)
-        if buffer_view.is_backing_buffer_resizable:
-            flags |= ArrayBufferViewFlags.IsBufferResizable
-        if buffer_view.is_length_tracking:
-            flags |= ArrayBufferViewFlags.IsLengthTracking
+        # The flags must agree with how the buffer itself was written. Buffers are
+        # always written with a fixed length when this feature is not enabled.
+        if SerializationFeature.ResizableArrayBuffers in self.features:
+            if buffer_view.is_backing_buffer_resizable:
+                flags |= ArrayBufferViewFlags.IsBufferResizable
+            if buffer_view.is_length_tracking:
+                flags |= ArrayBufferViewFlags.IsLengthTracking
 
         self.write_varint(flags)
 
-- 
2.43.0


From 44a49fa4965f799122b04cf35aa4398e27549e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 18/34] fix: write views of bytearrays as fixed-length views

bytearrays are written as fixed-length ArrayBuffers, but views of them were
written with their IsBufferResizable and IsLengthTracking flags set. V8
refuses to read a view whose flags contradict its buffer.
---
 src/v8serialize/encode.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 8c5c8cf..9bc8119 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -7,7 +7,7 @@ import struct
 from collections import abc
 from collections.abc import Collection, Iterable, Mapping, Sequence
 from contextlib import AbstractContextManager
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from datetime import datetime
 from functools import lru_cache, partial
 from types import TracebackType
@@ -1098,7 +1098,14 @@ class TagWriter(EncodeStepObject):
                 )
                 raise e
         ctx.encode_object(value.backing_buffer)
-        ctx.stream.write_js_array_buffer_view(value)
+        if isinstance(value.backing_buffer, bytearray):
+            # bytearrays are written as fixed-length ArrayBuffers
+            with memoryview(value.backing_buffer) as data:
+                ctx.stream.write_js_array_buffer_view(
+                    replace(value, backing_buffer=data), identity=value
+                )
+        else:
+            ctx.stream.write_js_array_buffer_view(value)
 
 
 def serialize_object_references(
-- 
2.43.0


From 1a40fa08b541c9423abd4d04109945d0d93ef4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 19/34] fix: report first_v8_version of Encoders without
 optional features

Encoder().first_v8_version raised ValueError as iterating an empty
SerializationFeature yields no features.
---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 9bc8119..f910423 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -1201,7 +1201,10 @@ class Encoder:
     @property
     def first_v8_version(self) -> Version | UnreleasedVersion:
         """The earliest version of V8 that can read data produced by this Encoder."""
-        return max(f.first_v8_version for f in self.features)
+        return max(
+            (f.first_v8_version for f in self.features),
+            default=SerializationFeature.MaxCompatibility.first_v8_version,
+        )
 
     def encode(self, value: object) -> bytearray:
         """
-- 
2.43.0


From 027e38ac4041c262533f488fb536510d25752e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 20/34] fix: don't write RegExp UnicodeSets flag without
 RegExpUnicodeSets enabled

The RegExpUnicodeSets feature was never checked, so RegExps with the
UnicodeSets (v) flag were written for V8 versions that cannot read them.
---
 src/v8serialize/encode.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index f910423..96d161e 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -51,6 +51,7 @@ from v8serialize.constants import (
     ArrayBufferViewTag,
     ConstantTags,
     JSErrorName,
+    JSRegExpFlag,
     SerializationErrorTag,
     SerializationFeature,
     SerializationTag,
@@ -389,6 +390,15 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
+        if (
+            SerializationFeature.RegExpUnicodeSets not in self.features
+            and JSRegExpFlag.UnicodeSets in regexp.flags
+        ):
+            raise FeatureNotEnabledEncodeV8SerializeError(
+                "Cannot write RegExp with the UnicodeSets flag when the "
+                "RegExpUnicodeSets SerializationFeature is not enabled.",
+                feature_required=SerializationFeature.RegExpUnicodeSets,
+            )
         self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here, but just UTF-8 seems fine
-- 
2.43.0


From 72c6f4c91e394c64715a04bce6f011f312111228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 21/34] fix: don't allow wrapper objects as object keys

V8 only accepts primitive strings and numbers as object keys. It fails to
deserialize objects with Number or String wrapper objects as keys.
---
 src/v8serialize/constants.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/v8serialize/constants.py b/src/v8serialize/constants.py
index d6a12cd..a834dbf 100644
--- a/src/v8serialize/constants.py
+++ b/src/v8serialize/constants.py
@@ -672,11 +672,9 @@ ObjectKeyTag = Literal[
     SerializationTag.kInt32,
     SerializationTag.kDouble,
     SerializationTag.kUint32,
-    SerializationTag.kNumberObject,
     SerializationTag.kOneByteString,
     SerializationTag.kTwoByteString,
     SerializationTag.kUtf8String,
-    SerializationTag.kStringObject,
 ]
 
 JS_OBJECT_KEY_TAGS: Final = TagConstraint[ObjectKeyTag](
@@ -686,11 +684,9 @@ JS_OBJECT_KEY_TAGS: Final = TagConstraint[ObjectKeyTag](
             SerializationTag.kInt32,
             SerializationTag.kDouble,
             SerializationTag.kUint32,
-            SerializationTag.kNumberObject,
             SerializationTag.kOneByteString,
             SerializationTag.kTwoByteString,
             SerializationTag.kUtf8String,
-            SerializationTag.kStringObject,
         }
     ),
 )
-- 
2.43.0


From 92d229d236854f73bdbd6c471f2dede83a173397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 22/34] fix: do not merge equal values that are encoded
 differently

1, 1.0 and True are equal, as are 0.0 and -0.0. Immutable values containing
them were merged by the encoder, so dumps([(1,), (True,)]) decoded to
[[1], [1]].
---
 src/v8serialize/encode.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 96d161e..902e8d4 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -2,10 +2,11 @@
 
 from __future__ import annotations
 
+import math
 import re
 import struct
 from collections import abc
-from collections.abc import Collection, Iterable, Mapping, Sequence
+from collections.abc import Collection, Hashable, Iterable, Mapping, Sequence
 from contextlib import AbstractContextManager
 from dataclasses import dataclass, field, replace
 from datetime import datetime
@@ -811,6 +812,23 @@ See Also
 """
 
 
+def _deduplicate_key(value: object) -> Hashable:
+    """Get a key that differs for values that are equal, but encode differently.
+
+    For example, `1`, `1.0` and `True` are equal, as are `0.0` and `-0.0`, so
+    immutable collections containing them are equal too.
+    """
+    if isinstance(value, tuple):
+        return type(value), tuple(_deduplicate_key(v) for v in value)
+    if isinstance(value, frozenset):
+        return type(value), frozenset(_deduplicate_key(v) for v in value)
+    if isinstance(value, JSPrimitiveObject):
+        return type(value), _deduplicate_key(value.value)
+    if isinstance(value, float):
+        return type(value), value, math.copysign(1, value)
+    return type(value), cast(Hashable, value)
+
+
 @dataclass(init=False, **slots_if310())
 class DefaultEncodeContext(EncodeContext):
     encode_steps: Sequence[EncodeStep]
@@ -831,7 +849,7 @@ class DefaultEncodeContext(EncodeContext):
         self.stream = WritableTagStream() if stream is None else stream
 
         self._memoized = lru_cache(maxsize=deduplicate_max_size, typed=True)(
-            lambda x: x
+            lambda x, key: x
         )
 
     def __encode_object_with_step(self, value: object, *, i: int) -> None:
@@ -861,7 +879,9 @@ class DefaultEncodeContext(EncodeContext):
     def deduplicate(self, value: T) -> T:
         if getattr(value, "__hash__", None) is not None:
             try:
-                return self._memoized(value)  # type: ignore[no-any-return]
+                return self._memoized(  # type: ignore[no-any-return]
+                    value, _deduplicate_key(value)
+                )
             except Exception:  # when an object nested in value is not hashable
                 pass
         return value
-- 
2.43.0


From 168a13e16193e8f1311d792b7664e310e11a9fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 23/34] fix: allow setting elements of sparse arrays to JSHole
 when few elements remain

---
 src/v8serialize/jstypes/jsarrayproperties.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 718b936..7554d08 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -525,12 +525,7 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
 
                 # Creating a hole invalidates the sorted keys, but if it's the
                 # last value we can update the sorted keys in place in O(1).
-
-                # TODO: ensure we set an empty sorted_keys when
-                #   appending/inserting from empty list
                 sorted_keys = self._sorted_keys
-                assert sorted_keys is not None if len(items) <= 1 else True
-
                 if sorted_keys is None:
                     return
                 if i == sorted_keys[-1]:
@@ -546,9 +541,6 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             # When filling a hole after the last existing element we can update
             # sorted_keys in place in O(1).
             sorted_keys = self._sorted_keys
-            # TODO: ensure we set an empty sorted_keys when appending/inserting
-            #   from empty list
-            assert sorted_keys is not None if len(items) <= 1 else True
             if sorted_keys is not None and i > (
                 -1 if len(sorted_keys) == 0 else sorted_keys[-1]
             ):
-- 
2.43.0


From 9871b3372be3125a42b778ec865108419fa5081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 24/34] fix: keep trailing holes when creating sparse arrays
 from an iterator

---
 src/v8serialize/jstypes/jsarrayproperties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 7554d08..4286660 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -403,8 +403,9 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         if values is not None:
             if length is not None:  # Enforce type signature
                 raise ValueError("length cannot be used with values argument")
-            if supports_sized(values):
-                length = len(values)
+            if not supports_sized(values):
+                values = list(values)
+            length = len(values)
             entries = (
                 (i, v)
                 for i, v in enumerate(cast(Iterable[T], values))
-- 
2.43.0


From 2a8aa82d20c7126607e49128669399d9bd5df197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 25/34] fix: allow inserting at the end of sparse arrays

---
 src/v8serialize/jstypes/jsarrayproperties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 4286660..8de9a1f 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -573,7 +573,8 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def insert(self, i: int, value: T | JSHoleType, /) -> None:
-        i = self._normalise_index(i)
+        # As with list, inserting at or beyond the end appends
+        i = len(self) if i >= len(self) else self._normalise_index(i)
         if len(self) >= MAX_ARRAY_LENGTH:
             raise IndexError("Cannot insert, array is already at max allowed length")
 
-- 
2.43.0


From c2a27bd79d24988919861ae3283cb268159712b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 26/34] fix: accept instances of str subclasses as object keys

---
 src/v8serialize/jstypes/jsobject.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/jstypes/jsobject.py b/src/v8serialize/jstypes/jsobject.py
index fef44f8..d2eb3be 100644
--- a/src/v8serialize/jstypes/jsobject.py
+++ b/src/v8serialize/jstypes/jsobject.py
@@ -143,7 +143,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __getitem__(self, key: str | int, /) -> T:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             properties = self._properties
             if k in properties:
                 return properties[k]
@@ -159,7 +159,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __setitem__(self, key: str | int | float, value: T, /) -> None:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             if value is JSHole:
                 self._properties.pop(k, None)
             else:
@@ -192,7 +192,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __delitem__(self, key: str | int, /) -> None:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             if k in self._properties:
                 del self._properties[k]
                 return
-- 
2.43.0


From b90add53f7bdb3eff4079351b85380417f3f4273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 27/34] fix: accept an entry named init in JSMap's keyword
 arguments

---
 src/v8serialize/jstypes/jsmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8serialize/jstypes/jsmap.py b/src/v8serialize/jstypes/jsmap.py
index 8348460..aeb4754 100644
--- a/src/v8serialize/jstypes/jsmap.py
+++ b/src/v8serialize/jstypes/jsmap.py
@@ -178,6 +178,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
     def __init__(  # type: ignore[misc]  # mypy doesn't like all the overloads
         self,
         init: SupportsKeysAndGetItem[KT, VT] | Iterable[tuple[KT, VT]] | None = None,
+        /,
         **kwargs: VT,
     ) -> None:
         self.__dict = {}
-- 
2.43.0


From 970986a0409d1a59f5adba57cdd9e19b690c6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 28/34] fix: count the bytes, not the items, of a buffer
 wrapped by JSArrayBuffer

With copy_data=False (or a non-byte memoryview) max_byte_length was set to the
number of items of the wrapped buffer, so reading it back lost all bytes past
that count.
---
 src/v8serialize/jstypes/jsbuffers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 16c2fcc..a870e70 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import functools
 import struct
 from abc import ABC, abstractmethod
-from collections.abc import Sized
 from contextlib import AbstractContextManager, contextmanager
 from dataclasses import dataclass, field
 from enum import Enum
@@ -161,8 +160,11 @@ Reference/Global_Objects/ArrayBuffer
             byte_length = byte_length or 0
             data = b"\x00" * byte_length if readonly else bytearray(byte_length)
 
-        assert isinstance(data, Sized)
-        max_byte_length = len(data) if max_byte_length is None else max_byte_length
+        # len() of a buffer counts its items, which can be wider than a byte.
+        data_byte_length = get_buffer(data).nbytes
+        max_byte_length = (
+            data_byte_length if max_byte_length is None else max_byte_length
+        )
 
         if resizable:
             if not isinstance(data, bytearray):
@@ -177,10 +179,10 @@ Reference/Global_Objects/ArrayBuffer
                 isinstance(data, memoryview) and data.readonly
             )
 
-        if len(data) > max_byte_length:
+        if data_byte_length > max_byte_length:
             raise ByteLengthJSArrayBufferError(
                 "max_byte_length cannot be less than initial byte_length",
-                byte_length=len(data),
+                byte_length=data_byte_length,
                 max_byte_length=max_byte_length,
             )
 
-- 
2.43.0


From 73d43246b345ad0b96a0240f111cd33f3325121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:01 +0000
Subject: [PATCH 29/34] fix: represent instances of subclasses of JS types
 instead of showing them as cyclic

---
 src/v8serialize/jstypes/_repr.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 2186e28..eb7067c 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -7,7 +7,7 @@ from collections.abc import Collection, Iterable
 from contextlib import contextmanager
 from itertools import islice
 from reprlib import Repr
-from typing import TYPE_CHECKING, Any, ContextManager, Final, Generator, overload
+from typing import TYPE_CHECKING, Any, ContextManager, Final, Generator, cast, overload
 
 from v8serialize.constants import JSErrorName
 from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties
@@ -124,6 +124,21 @@ class JSRepr(RecursiveReprMixin, Repr):
             def _join(self, pieces: Iterable[str], level: int) -> str:
                 return ", ".join(pieces)
 
+    def repr_instance(self, x: Any, level: int) -> str:
+        # Repr selects methods using the exact name of the object's type, so
+        # subclasses of our types don't get the method of the type they inherit
+        # __repr__() from. Calling their __repr__() would result in js_repr()
+        # being called recursively for the same object.
+        for cls in type(x).__mro__:
+            repr_method = getattr(self, f"repr_{cls.__name__}", None)
+            if (
+                repr_method is not None
+                and cls.__module__.startswith("v8serialize.")
+                and cls.__repr__ is type(x).__repr__
+            ):
+                return cast(str, repr_method(x, level))
+        return super().repr_instance(x, level)
+
     # We need to maintain insertion order in the repr because that's a defined
     # behaviour of JavaScript objects. The default repr behaviour is to sort
     # dict keys, so we can't reuse dict's repr for args to JSObject/JSArray.
-- 
2.43.0


From 1846e8c848d3539c0cab04a2dd67bf5ee5dbb377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 30/34] fix: report RegExps that re.compile() refuses with
 ValueError or OverflowError as JSRegExpV8SerializeError

---
 src/v8serialize/jstypes/jsregexp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsregexp.py b/src/v8serialize/jstypes/jsregexp.py
index d83941f..cdc8ede 100644
--- a/src/v8serialize/jstypes/jsregexp.py
+++ b/src/v8serialize/jstypes/jsregexp.py
@@ -101,7 +101,13 @@ JavaScript/Reference/Global_Objects/RegExp
         # so some patterns still don't work.
         try:
             return compile(self.source, self.flags.as_python_flags())
-        except (JSRegExpV8SerializeError, re.error) as e:
+        except (
+            JSRegExpV8SerializeError,
+            re.error,
+            # Incompatible flags, and repeat counts that are too large
+            ValueError,
+            OverflowError,
+        ) as e:
             if throw:
                 raise JSRegExpV8SerializeError(
                     f"JSRegExp is not a valid Python re.Pattern: {e}"
-- 
2.43.0


From 42032069fcf8e4ae57fd512181b906e747230c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 31/34] fix: report bytes patterns that are not UTF-8 as
 JSRegExpV8SerializeError

---
 src/v8serialize/jstypes/jsregexp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsregexp.py b/src/v8serialize/jstypes/jsregexp.py
index cdc8ede..ac000ea 100644
--- a/src/v8serialize/jstypes/jsregexp.py
+++ b/src/v8serialize/jstypes/jsregexp.py
@@ -69,7 +69,14 @@ JavaScript/Reference/Global_Objects/RegExp
         no equivalent JavaScript flag.
         """
         if isinstance(pattern.pattern, bytes):
-            source = pattern.pattern.decode()
+            try:
+                source = pattern.pattern.decode()
+            except UnicodeDecodeError as e:
+                if throw:
+                    raise JSRegExpV8SerializeError(
+                        f"Python re.Pattern source is not valid UTF-8: {e}"
+                    ) from e
+                return None
         else:
             source = pattern.pattern
         try:
-- 
2.43.0


From 13f85693cfdcefd051e485fd980ff9021c46350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 32/34] fix: give equal buffer views equal hashes

---
 src/v8serialize/jstypes/jsbuffers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index a870e70..394f79e 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -627,7 +627,14 @@ the itemsize when the view does not have an explicit byte_length"""
         try:
             with self.get_buffer_as_memoryview(readonly=True) as data:
                 # data may not be hashable, depending on backing buffer
-                return hash(data)
+                hash(data)
+            # Views are equal when their items are equal, and equal items can
+            # have different bytes (e.g. 1 in 8 and 16 bits, or 0.0 and -0.0),
+            # so the hash has to be of the items. (NaN hashes by its identity.)
+            with self.get_buffer(readonly=True) as buffer:
+                items = buffer.buffer if isinstance(buffer, DataViewBuffer) else buffer
+                items = cast("memoryview", items)
+                return hash(tuple(x if x == x else None for x in items))
         except NotImplementedError as e:
             raise TypeError(
                 f"cannot hash {type(self).__name__} with inaccessible buffer"
-- 
2.43.0


From f496b04321cd2362ea08613682aa6037cb566f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:26 +0000
Subject: [PATCH 33/34] fix: don't sort and copy all elements when a sparse
 array grows

Growing a SparseArrayProperties by one element sorted its keys and deleted or
copied elements, so decoding an array from n increasing sparse indexes (or
creating one) took quadratic time.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 8de9a1f..6120b9d 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -450,6 +450,10 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
     def resize(self, length: int) -> None:
         if length < 0 or length > MAX_ARRAY_LENGTH:
             raise ValueError(f"length must be >= 0 and < {MAX_ARRAY_LENGTH_REPR}")
+        if length > self._max_index:
+            # growing only adds holes at the end, no elements are affected
+            self._max_index = length - 1
+            return
         items = self._items
         sorted_keys = self._get_sorted_keys()
 
-- 
2.43.0


From 29fc84f1a081612ca8f143da22691f8371528b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 34/34] fix: allow sets to be decoded as built-in sets

TagReader's jsset_type can be any function returning an empty mutable set, but
returning a set failed with a TypeError as set.__ior__() only accepts sets.
---
 src/v8serialize/decode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 19ea4ea..21d39d0 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -1280,9 +1280,9 @@ class TagReader(DecodeStepObject):
     ) -> AbstractSet[object]:
         assert tag == SerializationTag.kBeginJSSet
         set = self.jsset_type()
-        # MutableSet's types expect AbstractSet for RHS of |= but implementations
-        # accept any iterable in practice.
-        set |= ctx.stream.read_jsset(ctx, identity=set)  # type: ignore[arg-type]
+        # Not |=, because built-in sets don't accept iterables other than sets
+        for element in ctx.stream.read_jsset(ctx, identity=set):
+            set.add(element)
         return set
 
     def deserialize_js_object(
-- 
2.43.0

