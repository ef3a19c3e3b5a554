From bea158015c78459b11ef101f6bba698521f71dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:00 +0000
Subject: [PATCH 01/47] fix: keep significant zeros when serializing a duration
 that is a multiple of 10 seconds

---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 37d6c7a..4b9af19 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -561,7 +561,7 @@ def _serialize_duration(
         minutes_str = f"{minutes}M" if minutes else ""
         seconds_str = f"{seconds:.7f}" if (seconds or (not hours_str and not minutes_str)) else ""
         if seconds_str:
-            seconds_str = seconds_str.rstrip(".0").zfill(1) + "S"
+            seconds_str = seconds_str.rstrip("0").rstrip(".") + "S"
 
         time_str = f"T{hours_str}{minutes_str}{seconds_str}"
 
-- 
2.43.0


From c7a2d891965e3cf35e75c845334344f8bc336cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:00 +0000
Subject: [PATCH 02/47] fix: zero pad the year of a serialized datetime to 4
 digits

---
 src/psrpcore/types/_serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 4b9af19..e14ef26 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -518,7 +518,8 @@ def _serialize_datetime(
         utc_offset = value.strftime("%z")
         timezone = f"{utc_offset[:3]}:{utc_offset[3:]}"
 
-    dt_str = value.strftime(f"%Y-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
+    # strftime does not zero pad the year on all platforms.
+    dt_str = f"{value.year:04}" + value.strftime(f"-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
 
     return dt_str
 
-- 
2.43.0


From 2b1711c6af500f9aecbd6aa1523b63ab92d6cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:00 +0000
Subject: [PATCH 03/47] fix: escape all surrogate code units and XML
 noncharacters in serialized strings

---
 src/psrpcore/types/_serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index e14ef26..fb62c7c 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -70,8 +70,9 @@ log = logging.getLogger(__name__)
 # Finds _x in a case insensitive way which we need to escape first as '_x' is the escape code.
 _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 
-# Finds C0, C1, and surrogate pairs in a unicode string for us to encode according to the PSRP rules.
-_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uD8FF\uDC00-\uDFFF\U00010000-\U0010FFFF]")
+# Finds C0, C1, surrogates, and the noncharacters XML does not allow in a unicode string for us to encode according to
+# the PSRP rules.
+_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]")
 
 # To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
 # with the actual UTF-16 byte value and then decode that.
-- 
2.43.0


From caaab37d7214ff26375a327eae169c40f95dca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:29 +0000
Subject: [PATCH 04/47] fix: do not decode escapes that straddle two characters
 when deserializing strings

---
 src/psrpcore/types/_serializer.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index fb62c7c..0ac4da1 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -74,9 +74,8 @@ _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 # the PSRP rules.
 _STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]")
 
-# To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
-# with the actual UTF-16 byte value and then decode that.
-_STRING_DESERIAL_FIND = re.compile(rb"\x00_\x00x((?:\x00[a-fA-F0-9]){4})\x00_")
+# Finds each escaped UTF-16 code unit.
+_STRING_DESERIAL_FIND = re.compile("_x([a-fA-F0-9]{4})_")
 
 # Python datetime only supports up to microsecond precision but .NET can go to 100 nanoseconds. To support this level
 # of precision we need to extract the fractional seconds part of a datetime ourselves and compute the value.
@@ -468,23 +467,11 @@ def _deserialize_string(
 
     # test '_xD83C_'
 
-    def rplcr(matchobj: typing.Any) -> bytes:
-        # The matched object is the UTF-16 byte representation of the UTF-8 hex string value. We need to decode the
-        # byte str to unicode and then unhexlify that hex string to get the actual bytes of the _x****_ value, e.g.
-        # group(0) == b'\x00_\x00x\x000\x000\x000\x00A\x00_'
-        # group(1) == b'\x000\x000\x000\x00A'
-        # unicode (from utf-16-be) == '000A'
-        # returns b'\x00\x0A'
-        match_hex = matchobj.group(1)
-        hex_string = match_hex.decode("utf-16-be")
-        return binascii.unhexlify(hex_string)
-
-    # Need to ensure we start with a unicode representation of the string so that we can get the actual UTF-16 bytes
-    # value from that string.
-    b_value = value.encode("utf-16-be")
-    b_escaped = re.sub(_STRING_DESERIAL_FIND, rplcr, b_value)
-
-    return b_escaped.decode("utf-16-be", errors="surrogatepass")
+    value = re.sub(_STRING_DESERIAL_FIND, lambda m: chr(int(m.group(1), 16)), value)
+
+    # Each escaped value is a UTF-16 code unit, going through UTF-16 combines the surrogate pairs into the actual
+    # character they represent.
+    return value.encode("utf-16-be", errors="surrogatepass").decode("utf-16-be", errors="surrogatepass")
 
 
 def _serialize_datetime(
-- 
2.43.0


From 197e603019708d58c8c35d5f14217f6c14c63aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:29 +0000
Subject: [PATCH 05/47] fix: escape the ToString value like any other string

---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 0ac4da1..c657915 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -929,7 +929,7 @@ class _Serializer:
                 to_string = ps_object.to_string
 
             if to_string:
-                ElementTree.SubElement(element, "ToString").text = to_string
+                ElementTree.SubElement(element, "ToString").text = _serialize_string(to_string)
 
             if is_complex and no_props and not isinstance(value, PSObject):
                 # If this was a complex object but no properties were defined we consider this a normal Python
-- 
2.43.0


From 0dc5bab4d65dda2f332dd8e10b9d391226eb48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:29 +0000
Subject: [PATCH 06/47] fix: serialize ints below the Int32 minimum as an Int64

---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index c657915..0af1aed 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -727,7 +727,7 @@ class _Serializer:
             if isinstance(value, PSObject):
                 ps_type = type(value)
             elif isinstance(value, int):
-                ps_type = PSInt64 if value > PSInt.MaxValue else PSInt
+                ps_type = PSInt if PSInt.MinValue <= value <= PSInt.MaxValue else PSInt64
             elif isinstance(value, float):
                 ps_type = PSSingle
             else:
-- 
2.43.0


From f5079443775cbe60795dca7e122a467a4010a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:29 +0000
Subject: [PATCH 07/47] fix: do not drain a queue when serializing it

---
 src/psrpcore/types/_serializer.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 0af1aed..61764bd 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 
 import base64
 import binascii
+import copy
 import datetime
 import decimal
 import enum
@@ -898,13 +899,18 @@ class _Serializer:
         elif isinstance(value, (PSQueueBase, queue.Queue)):
             que_element = ElementTree.SubElement(element, self._type_to_element[PSQueue])
 
-            while True:
-                try:
-                    que_entry = self.serialize(value.get(block=False))
-                except queue.Empty:
-                    break
-                else:
-                    que_element.append(que_entry)
+            # Work off a copy of the entries so that the caller's queue is not drained.
+            entries = copy.copy(value.queue)
+            try:
+                while True:
+                    try:
+                        que_entry = self.serialize(value.get(block=False))
+                    except queue.Empty:
+                        break
+                    else:
+                        que_element.append(que_entry)
+            finally:
+                value.queue = entries
 
         elif isinstance(value, (PSDictBase, dict)):
             dct_element = ElementTree.SubElement(element, self._type_to_element[PSDict])
-- 
2.43.0


From 2ba9f075236acb9a7f73182a7f411e2751041411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:29 +0000
Subject: [PATCH 08/47] fix: only reference a type name list that is the same
 as the object being serialized

---
 src/psrpcore/types/_serializer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 61764bd..a4bee43 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -646,7 +646,7 @@ class _Serializer:
         self._obj_ref: weakref.WeakKeyDictionary = weakref.WeakKeyDictionary()
         self._obj_ref_enum: typing.Dict[int, int] = {}
         self._obj_ref_id = 0
-        self._tn_ref_list: typing.List[str] = []
+        self._tn_ref_list: typing.List[typing.List[str]] = []
 
         # Used for deserialization
         self._obj_ref_map: typing.Dict[str, typing.Any] = {}
@@ -851,17 +851,16 @@ class _Serializer:
 
         # Do not add the type names for extended primitive object unless it's an enum
         if ps_object.type_names and (is_enum or not is_extended_primitive):
-            type_names = ps_object.type_names
-            main_type = type_names[0]
-            is_ref = main_type in self._tn_ref_list
+            type_names = list(ps_object.type_names)
+            is_ref = type_names in self._tn_ref_list
 
             if is_ref:
-                ref_id = self._tn_ref_list.index(main_type)
+                ref_id = self._tn_ref_list.index(type_names)
                 ElementTree.SubElement(element, "TNRef", RefId=str(ref_id))
 
             else:
-                self._tn_ref_list.append(main_type)
-                ref_id = self._tn_ref_list.index(main_type)
+                self._tn_ref_list.append(type_names)
+                ref_id = self._tn_ref_list.index(type_names)
 
                 tn = ElementTree.SubElement(element, "TN", RefId=str(ref_id))
                 for type_name in type_names:
-- 
2.43.0


From 6b67dbf4e186ae9cc91aeeab3356cf0df7259ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:29 +0000
Subject: [PATCH 09/47] fix: track object references by identity when
 serializing

---
 src/psrpcore/types/_serializer.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index a4bee43..d7a48fe 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -15,7 +15,6 @@ import queue
 import re
 import typing
 import uuid
-import weakref
 from xml.etree import ElementTree
 
 from psrpcore.types._base import (
@@ -643,8 +642,7 @@ class _Serializer:
         self._kwargs = kwargs
 
         # Used for serialization to determine fi an object is already serialized or not.
-        self._obj_ref: weakref.WeakKeyDictionary = weakref.WeakKeyDictionary()
-        self._obj_ref_enum: typing.Dict[int, int] = {}
+        self._obj_ref: typing.Dict[int, typing.Tuple[int, typing.Any]] = {}
         self._obj_ref_id = 0
         self._tn_ref_list: typing.List[typing.List[str]] = []
 
@@ -1175,15 +1173,12 @@ class _Serializer:
         """Determine the object reference id for serialization."""
         next_ref_id = self._obj_ref_id
 
-        try:
-            ref_id = self._obj_ref.setdefault(value, next_ref_id)
-        except TypeError as e:
-            # Some objects cannot have a weakref, try id() only when dealing with known workable types.
-            if isinstance(value, enum.Enum):
-                ref_id = self._obj_ref_enum.setdefault(id(value), next_ref_id)
-
-            else:
-                ref_id = next_ref_id
+        if isinstance(value, (list, dict)):
+            # Each occurrence of these containers is always serialized in full.
+            ref_id = next_ref_id
+        else:
+            # Objects are tracked by identity and not equality, the value is stored to ensure the id is not reused.
+            ref_id, _ = self._obj_ref.setdefault(id(value), (next_ref_id, value))
 
         existing_ref = True
         if next_ref_id == ref_id:
-- 
2.43.0


From 672083c3517ce77bfb50de4fc0698c19943e5b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:31 +0000
Subject: [PATCH 10/47] fix: serialize Decimal and NaN values in the form .NET
 can parse

---
 src/psrpcore/types/_serializer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index d7a48fe..009e799 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -738,7 +738,12 @@ class _Serializer:
                 xml_value = int(xml_value)
 
             element = ElementTree.Element(self._type_to_element[ps_type])
-            element.text = str(xml_value).upper()  # upper() needed for the Double and Single types.
+            if isinstance(xml_value, decimal.Decimal):
+                element.text = format(xml_value, "f")  # .NET Decimals do not support the exponent notation.
+            elif xml_value != xml_value:
+                element.text = "NaN"
+            else:
+                element.text = str(xml_value).upper()  # upper() needed for the Double and Single types.
 
         # Naive strings
         elif isinstance(
-- 
2.43.0


From de975cd81c1b7ec90745a689720f1a6b380902b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:31 +0000
Subject: [PATCH 11/47] fix: deserialize progress records with empty strings

---
 src/psrpcore/types/_serializer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 009e799..0567293 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -430,15 +430,17 @@ def _deserialize_progress_record(
         ("SD", "StatusDescription", str),
     ]:
         element_value = value.find(element_key)
-        if element_value is None or not element_value.text:
+        if element_value is None or (prop_type != str and not element_value.text):
             continue
 
+        # Empty strings are `<AV />` which means element_value.text is None.
+        element_text = element_value.text or ""
         prop_value: typing.Union[int, str, ProgressRecordType]
         if prop_type == int:
-            prop_value = int(element_value.text)
+            prop_value = int(element_text)
 
         else:
-            prop_value = _deserialize_string(element_value.text)
+            prop_value = _deserialize_string(element_text)
 
         if prop_type == ProgressRecordType:
             prop_value = ProgressRecordType[str(prop_value)]
-- 
2.43.0


From 9df4e3b42111ab1a83f1846a3c6c086718324225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:31 +0000
Subject: [PATCH 12/47] fix: do not grow the list of valid types on every
 PSDuration operation

---
 src/psrpcore/types/_primitive.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 34bbeeb..9b95b9d 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -52,8 +52,7 @@ def _ensure_types_and_self(
 
     def decorator(func: typing.Callable) -> typing.Callable:
         def wrapped(self: PSObject, other: object) -> typing.Any:
-            types_to_check.append(type(self))
-            if not isinstance(other, tuple(types_to_check)):
+            if not isinstance(other, (*types_to_check, type(self))):
                 return NotImplemented
 
             return func(self, other)
-- 
2.43.0


From 5e5d2fd1a40397a17367d6ef3e02931cefdf56a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:31 +0000
Subject: [PATCH 13/47] fix: validate the range of an integer type created from
 an enum

---
 src/psrpcore/types/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 9b95b9d..ecf8453 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -123,7 +123,7 @@ class PSIntegerBase(PSObject, int):
 
         if cls != type(num):
             # If the value is not the exact instance recreate it from an actual int.
-            return super().__new__(cls, int(num))
+            num = super().__new__(cls, int(num))
 
         int_num = int(num)
 
-- 
2.43.0


From f1111c315bf1780fd55732a5dc85759355f25e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:31 +0000
Subject: [PATCH 14/47] fix: preserve the nanosecond when creating a PSDateTime
 from another PSDateTime

---
 src/psrpcore/types/_primitive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index ecf8453..6127570 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -337,12 +337,13 @@ class PSDateTime(PSObject, datetime.datetime):
         self.nanosecond = getattr(self, "nanosecond", None) or 0
 
     def __new__(cls, *args: typing.Any, **kwargs: typing.Any) -> "PSDateTime":
-        nanosecond = 0
-        if "nanosecond" in kwargs:
-            nanosecond = kwargs.pop("nanosecond")
+        nanosecond = kwargs.pop("nanosecond", None)
 
         if args and isinstance(args[0], datetime.datetime):
             dt = args[0]
+            if nanosecond is None:
+                nanosecond = getattr(dt, "nanosecond", None)
+
             instance = super().__new__(
                 cls,
                 dt.year,
@@ -359,7 +360,7 @@ class PSDateTime(PSObject, datetime.datetime):
         else:
             instance = super().__new__(cls, *args, **kwargs)
 
-        instance.nanosecond = nanosecond
+        instance.nanosecond = nanosecond or 0
         return instance
 
     def __repr__(self) -> str:
-- 
2.43.0


From 48645e512211c8dd638a34633b7f32089936bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:31 +0000
Subject: [PATCH 15/47] fix: make PSDuration and PSVersion hashable so they can
 be used as a dict key

---
 src/psrpcore/types/_primitive.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 6127570..01522d9 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -537,6 +537,9 @@ class PSDuration(PSObject, datetime.timedelta):
     ) -> bool:
         return _timedelta_total_nanoseconds(self) == _timedelta_total_nanoseconds(other)
 
+    # Defining __eq__ removes the inherited hash, any equal durations will have the same timedelta hash.
+    __hash__ = datetime.timedelta.__hash__
+
     @_ensure_types_and_self(datetime.timedelta)
     def __ne__(
         self,
@@ -1065,6 +1068,9 @@ class PSVersion(PSObject):
 
         return self._cmp(other, operator.eq, "==")
 
+    def __hash__(self) -> int:
+        return hash(str(self))
+
     def __ge__(
         self,
         other: typing.Union["PSVersion", str],
-- 
2.43.0


From d67fc853eb3e8b61993d7aee5fd8c8e6210e551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 16/47] fix: send a None pipeline input as PipelineInput and
 not PipelineOutput

---
 src/psrpcore/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 0a453aa..e48b762 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -376,7 +376,7 @@ class RunspacePool(typing.Generic[T1]):
         """
         if message is None:
             b_data = b""
-            message_type = PSRPMessageType.PipelineOutput
+            message_type = message_type or PSRPMessageType.PipelineOutput
 
         elif isinstance(message, EndOfPipelineInput):
             b_data = b""  # Special edge case for this particular message type
@@ -445,7 +445,9 @@ class RunspacePool(typing.Generic[T1]):
             # Special edge case for EndOfPipelineInput which has no data.
             ps_object = EndOfPipelineInput()
 
-        elif message.message_type == PSRPMessageType.PipelineOutput and data == b"":
+        elif (
+            message.message_type in [PSRPMessageType.PipelineInput, PSRPMessageType.PipelineOutput] and data == b""
+        ):
             ps_object = None
 
         else:
-- 
2.43.0


From f1b8dc00b8a09405b843015f14c797c6019953af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 17/47] fix: do not mix stream types in the same payload

---
 src/psrpcore/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index e48b762..6c68f92 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -260,8 +260,8 @@ class RunspacePool(typing.Generic[T1]):
                 stream_type = message.stream_type
                 pipeline_id = message.pipeline_id
 
-            # We can only combine fragments if they are for the same target.
-            if pipeline_id != message.pipeline_id:
+            # We can only combine fragments if they are for the same target and stream.
+            if pipeline_id != message.pipeline_id or stream_type != message.stream_type:
                 break
 
             if amount is None:
-- 
2.43.0


From f0c0a28e69dbb0aaf266fb8cea204ea85ea284f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 18/47] fix: wait for the whole fragment before processing
 received data

---
 src/psrpcore/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 6c68f92..a8c6f7d 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -315,7 +315,11 @@ class RunspacePool(typing.Generic[T1]):
                 data buffer or `None` if not enough data has been received.
         """
         # First unpacks the raw receive buffer into messages.
-        while self._receive_buffer:
+        while len(self._receive_buffer) >= 21:
+            fragment_length = int.from_bytes(self._receive_buffer[17:21], byteorder="big")
+            if len(self._receive_buffer) < 21 + fragment_length:
+                break  # The remaining data of this fragment has not been received yet.
+
             fragment = unpack_fragment(self._receive_buffer)
             log.debug(
                 "Unpacked fragment - OID: %s, FID: %s, Start: %s, End: %s, Length: %s",
-- 
2.43.0


From 1622b3a7993abb10256b93469e6753a920543cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 19/47] fix: emit the CLIXML header with the first data and not
 the first call

---
 src/psrpcore/_clixml_shell.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/psrpcore/_clixml_shell.py b/src/psrpcore/_clixml_shell.py
index 5580245..5441a78 100644
--- a/src/psrpcore/_clixml_shell.py
+++ b/src/psrpcore/_clixml_shell.py
@@ -318,15 +318,12 @@ class ClixmlShell:
         Returns:
             str: The string to write to stdout.
         """
-        if self._written_marker:
-            prefix = "\n"
-        else:
-            prefix = "#< CLIXML\n"
-            self._written_marker = True
+        prefix = "\n" if self._written_marker else "#< CLIXML\n"
 
         stdout = ""
         if self._stdout:
             stdout = f"{prefix}{serialize_clixml(self._stdout, self._cipher)}"
+            self._written_marker = True
             self._stdout = []
 
         return stdout
-- 
2.43.0


From d26f6394640ef1d56896afcdabe271600dd57866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 20/47] fix: refuse a connection for a different Runspace Pool
 before applying it

---
 src/psrpcore/_server.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index fca9014..be13d3b 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -318,6 +318,9 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         self,
         event: ConnectRunspacePoolEvent,
     ) -> None:
+        if self.runspace_pool_id != event.runspace_pool_id:
+            raise PSRPCoreError("Incoming connection is targeted towards a different Runspace Pool")
+
         # FIXME: Verify this behaviour when the props aren't set or when invalid ones are
         self._max_runspaces = event.max_runspaces or self.max_runspaces
         self._min_runspaces = event.min_runspaces or self.min_runspaces
@@ -418,13 +421,13 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         self,
         event: SessionCapabilityEvent,
     ) -> None:
-        super()._process_SessionCapability(event)
+        connecting = self.state == RunspacePoolState.Connecting
+        if connecting and self.runspace_pool_id != event.runspace_pool_id:
+            raise PSRPCoreError("Incoming connection is targeted towards a different Runspace Pool")
 
-        if self.state == RunspacePoolState.Connecting:
-            if self.runspace_pool_id != event.runspace_pool_id:
-                raise PSRPCoreError("Incoming connection is targeted towards a different Runspace Pool")
+        super()._process_SessionCapability(event)
 
-        else:
+        if not connecting:
             self.prepare_message(self.our_capability)
             self.runspace_pool_id = event.runspace_pool_id
 
-- 
2.43.0


From dfaeacd8cd63cf438fabf9397496624e7c83002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:37 +0000
Subject: [PATCH 21/47] fix: allow the session key to be requested from a newly
 connected client

---
 src/psrpcore/_server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index be13d3b..618a127 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -115,6 +115,8 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         # TODO: Verify there are no incoming fragments/messages not processed.
         self._ci_count = 1
         self._fragment_count = 1
+        # A new client does not have the session key of the previous client, it needs to be able to be requested again.
+        self._key_requested = False
         self._change_state(RunspacePoolState.Connecting)
 
     def send_event(
-- 
2.43.0


From 24db7a85673273f823e349be58e8053e8246f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 22/47] fix: leave the session unchanged when a message cannot
 be serialized

---
 src/psrpcore/_client.py | 37 +++++++++++++++++++++++--------------
 src/psrpcore/_server.py |  8 +++++---
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 1c29340..d4589fd 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -124,19 +124,26 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
             raise InvalidRunspacePoolState("open a Runspace Pool", self.state, [RunspacePoolState.BeforeOpen])
 
         host = self.host or HostInfo()
-        self._change_state(RunspacePoolState.Opening)
 
         self.prepare_message(self.our_capability)
-        self.prepare_message(
-            InitRunspacePool(
-                MinRunspaces=self._min_runspaces,
-                MaxRunspaces=self._max_runspaces,
-                PSThreadOptions=self.thread_options,
-                ApartmentState=self.apartment_state,
-                HostInfo=host,
-                ApplicationArguments=self.application_arguments,
+        try:
+            self.prepare_message(
+                InitRunspacePool(
+                    MinRunspaces=self._min_runspaces,
+                    MaxRunspaces=self._max_runspaces,
+                    PSThreadOptions=self.thread_options,
+                    ApartmentState=self.apartment_state,
+                    HostInfo=host,
+                    ApplicationArguments=self.application_arguments,
+                )
             )
-        )
+        except BaseException:
+            # The arguments cannot be serialized, do not leave half of the open messages in the queue.
+            self._send_buffer.pop()
+            self._fragment_count -= 1
+            raise
+
+        self._change_state(RunspacePoolState.Opening)
 
     def connect(self) -> None:
         """Connects to the Runspace Pool.
@@ -277,9 +284,10 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
             self._max_runspaces = value
             return None
 
-        ci = self._ci_counter
-        self._ci_handlers[ci] = functools.partial(self._set_runspaces_handler, "max", value)
+        ci = self._ci_count
         self.prepare_message(SetMaxRunspaces(MaxRunspaces=value, ci=ci))
+        self._ci_count += 1
+        self._ci_handlers[ci] = functools.partial(self._set_runspaces_handler, "max", value)
 
         return ci
 
@@ -304,9 +312,10 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
             self._min_runspaces = value
             return None
 
-        ci = self._ci_counter
-        self._ci_handlers[ci] = functools.partial(self._set_runspaces_handler, "min", value)
+        ci = self._ci_count
         self.prepare_message(SetMinRunspaces(MinRunspaces=value, ci=ci))
+        self._ci_count += 1
+        self._ci_handlers[ci] = functools.partial(self._set_runspaces_handler, "min", value)
 
         return ci
 
diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index 618a127..ab3d34d 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -209,7 +209,7 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         if self.state != RunspacePoolState.Opened:
             raise InvalidRunspacePoolState("create host call", self.state, [RunspacePoolState.Opened])
 
-        ci = -100 if method.is_void() else self._ci_counter
+        ci = -100 if method.is_void() else self._ci_count
 
         call_type = PipelineHostCall if pipeline_id else RunspacePoolHostCall
         call = call_type(
@@ -218,6 +218,8 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
             mp=parameters if parameters is not None else [],
         )
         self.prepare_message(call, pipeline_id=pipeline_id, stream_type=StreamType.prompt_response)
+        if ci != -100:
+            self._ci_count += 1
 
         return ci
 
@@ -301,8 +303,6 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         error: typing.Optional[ErrorRecord] = None,
         emit: bool = True,
     ) -> None:
-        super()._change_state(state, error)
-
         # (Dis)connection states aren't sent to the client
         if emit and state not in [
             RunspacePoolState.Disconnected,
@@ -316,6 +316,8 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
                 state_kwargs["ExceptionAsErrorRecord"] = error
             self.prepare_message(RunspacePoolStateMsg(**state_kwargs))
 
+        super()._change_state(state, error)
+
     def _process_ConnectRunspacePool(
         self,
         event: ConnectRunspacePoolEvent,
-- 
2.43.0


From 059e6b5b323af6f4da2e43d4d831d4eb2c4b5000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 23/47] fix: keep the nanoseconds when a duration or datetime
 is the right hand operand

---
 src/psrpcore/types/_primitive.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 01522d9..834de5b 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -406,6 +406,9 @@ class PSDateTime(PSObject, datetime.datetime):
 
         return new_date
 
+    # timedelta + PSDateTime would otherwise use the datetime implementation which drops the nanoseconds.
+    __radd__ = __add__
+
     def __sub__(  # type: ignore[override] # cannot seem to document NotImplemented as a return type
         self,
         other: typing.Union[datetime.datetime, datetime.timedelta],
@@ -417,6 +420,15 @@ class PSDateTime(PSObject, datetime.datetime):
         nanosecond_diff = self.nanosecond - getattr(other, "nanosecond", 0)
         return duration + PSDuration(nanoseconds=nanosecond_diff)
 
+    def __rsub__(
+        self,
+        other: datetime.datetime,
+    ) -> "PSDuration":
+        if not isinstance(other, datetime.datetime):
+            return NotImplemented
+
+        return -(self - other)  # type: ignore[return-value, operator] # A datetime always results in a PSDuration
+
     @classmethod
     def strptime(
         cls,
@@ -509,6 +521,9 @@ class PSDuration(PSObject, datetime.timedelta):
         new_nano = _timedelta_total_nanoseconds(self) + _timedelta_total_nanoseconds(other)
         return PSDuration(nanoseconds=new_nano)
 
+    # timedelta + PSDuration would otherwise use the timedelta implementation which drops the nanoseconds.
+    __radd__ = __add__
+
     @_ensure_types_and_self(datetime.timedelta)
     def __sub__(
         self,
-- 
2.43.0


From 3f3fec2153c9756861932546ea6ed34c838f1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:20 +0000
Subject: [PATCH 24/47] fix: deserialize the properties and elements of an
 object in document order

The serializer writes Props and MS before the elements of a container but the deserializer
read them last. An object, or type name list, that was first written in a property and then
referenced by an element of the same container could not be resolved and raised a KeyError.
---
 src/psrpcore/types/_serializer.py | 60 +++++++++++++++++--------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 0567293..e16f124 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1067,17 +1067,11 @@ class _Serializer:
         elif issubclass(rehydrated_value, (PSEnumBase, PSFlagBase)):
             original_type_names = rehydrated_value.PSObject.type_names
 
-        props: typing.Dict[str, typing.Optional[ElementTree.Element]] = {
-            "adapted_properties": None,
-            "extended_properties": None,
-        }
+        content: typing.List[ElementTree.Element] = []
         to_string = None
         for obj_entry in element:
-            if obj_entry.tag == "Props":
-                props["adapted_properties"] = obj_entry
-
-            elif obj_entry.tag == "MS":
-                props["extended_properties"] = obj_entry
+            if obj_entry.tag in ["Props", "MS"]:
+                content.append(obj_entry)
 
             elif obj_entry.tag == "ToString":
                 to_string = self.deserialize(obj_entry)
@@ -1088,24 +1082,13 @@ class _Serializer:
                     dict_type = type(value)
 
                 value = self._update_value_ref(dict_type(), ref_id)
-
-                for dict_entry in obj_entry:
-                    dict_key = dict_entry.find('*/[@N="Key"]')
-                    dict_value = dict_entry.find('*/[@N="Value"]')
-                    if dict_key is None:
-                        raise ValueError("Failed to find dict Key attribute")
-
-                    if dict_value is None:
-                        raise ValueError("Failed to find dict Value attribute")
-
-                    value[self.deserialize(dict_key)] = self.deserialize(dict_value)
+                content.append(obj_entry)
 
             elif obj_entry.tag == self._type_to_element[PSQueue]:
                 if not isinstance(value, PSQueueBase):
                     value = self._update_value_ref(PSQueue(), ref_id)
 
-                for queue_entry in obj_entry:
-                    value.put(self.deserialize(queue_entry))
+                content.append(obj_entry)
 
             elif obj_entry.tag in [
                 self._type_to_element[PSIEnumerable],
@@ -1127,8 +1110,7 @@ class _Serializer:
                     list_type = type(value)
 
                 value = self._update_value_ref(list_type(), ref_id)
-                for list_entry in obj_entry:
-                    value.append(self.deserialize(list_entry))
+                content.append(obj_entry)
 
             elif obj_entry.tag not in ["TN", "TNRef"]:
                 # Extended primitive types and enums store the value as a sub element of the Obj.
@@ -1152,19 +1134,43 @@ class _Serializer:
             if original_type_names:
                 value.PSObject.type_names = original_type_names
 
-            for prop_group_name, prop_xml in props.items():
-                if prop_xml is None:
+        # The properties and elements are deserialized in the order they were written as each one can refer to an object
+        # or type names that were defined in the ones before it.
+        for obj_entry in content:
+            if obj_entry.tag in ["Props", "MS"]:
+                if not isinstance(value, PSObject):
                     continue
 
                 # add_note_property only sets to extended properties. We just use the actual prop list as the scratch
                 # object's extended properties. Anything modified/added will reflect in our actual object property.
+                prop_group_name = "adapted_properties" if obj_entry.tag == "Props" else "extended_properties"
                 scratch_obj = PSCustomObject()
                 scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
-                for obj_property in prop_xml:
+                for obj_property in obj_entry:
                     prop_name = _deserialize_string(obj_property.attrib["N"])
                     prop_value = self.deserialize(obj_property)
                     add_note_property(scratch_obj, prop_name, prop_value, force=True)
 
+            elif obj_entry.tag == self._type_to_element[PSDict]:
+                for dict_entry in obj_entry:
+                    dict_key = dict_entry.find('*/[@N="Key"]')
+                    dict_value = dict_entry.find('*/[@N="Value"]')
+                    if dict_key is None:
+                        raise ValueError("Failed to find dict Key attribute")
+
+                    if dict_value is None:
+                        raise ValueError("Failed to find dict Value attribute")
+
+                    value[self.deserialize(dict_key)] = self.deserialize(dict_value)
+
+            elif obj_entry.tag == self._type_to_element[PSQueue]:
+                for queue_entry in obj_entry:
+                    value.put(self.deserialize(queue_entry))
+
+            else:
+                for list_entry in obj_entry:
+                    value.append(self.deserialize(list_entry))
+
         # Final override that allows classes to transform the raw CLIXML deserialized object to something more human
         # friendly.
         from_override = getattr(type(value), "FromPSObjectForRemoting", None)
-- 
2.43.0


From 20b485d91a1b1b17747cc8be49e9f7c0f61f2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:00 +0000
Subject: [PATCH 25/47] fix: do not store what a CLIXML document says about an
 enum on the shared member

---
 src/psrpcore/types/_serializer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index e16f124..32e558f 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1126,10 +1126,13 @@ class _Serializer:
 
                     value = self._update_value_ref(new_value, ref_id)
 
-        if to_string is not None:
+        # An enum member is shared by the whole process, what this CLIXML says about it must not be stored on it.
+        is_shared = isinstance(value, (PSEnumBase, PSFlagBase))
+
+        if to_string is not None and not is_shared:
             value.PSObject.to_string = to_string
 
-        if isinstance(value, PSObject):
+        if isinstance(value, PSObject) and not is_shared:
             # Ensure the object's type names are what was in the CLIXML
             if original_type_names:
                 value.PSObject.type_names = original_type_names
@@ -1145,7 +1148,9 @@ class _Serializer:
                 # object's extended properties. Anything modified/added will reflect in our actual object property.
                 prop_group_name = "adapted_properties" if obj_entry.tag == "Props" else "extended_properties"
                 scratch_obj = PSCustomObject()
-                scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
+                if not is_shared:
+                    scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
+
                 for obj_property in obj_entry:
                     prop_name = _deserialize_string(obj_property.attrib["N"])
                     prop_value = self.deserialize(obj_property)
-- 
2.43.0


From 614d75790af24fb2d263c4276d2b03b428ffb930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:21 +0000
Subject: [PATCH 26/47] fix: refuse a bool as the number of available runspaces

---
 src/psrpcore/_server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index ab3d34d..95c9e0c 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -278,7 +278,9 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         ):
             raise PSRPCoreError(f"Response for this event expects a bool not {type(response).__name__}")
 
-        if isinstance(event, GetAvailableRunspacesEvent) and not isinstance(response, int):
+        if isinstance(event, GetAvailableRunspacesEvent) and (
+            not isinstance(response, int) or isinstance(response, bool)
+        ):
             raise PSRPCoreError(f"Response for this event expects an int not {type(response).__name__}")
 
         del self._ci_events[ci]
-- 
2.43.0


From acfda2b9ee07e6acdc683035094abe1aa4f91c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:41 +0000
Subject: [PATCH 27/47] fix: leave the pool unchanged when a received message
 is incomplete

---
 src/psrpcore/_client.py |  6 ++++--
 src/psrpcore/_server.py | 22 +++++++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index d4589fd..0a9a26a 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -407,8 +407,10 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
         self,
         event: RunspacePoolInitDataEvent,
     ) -> None:
-        self._min_runspaces = event.min_runspaces
-        self._max_runspaces = event.max_runspaces
+        # Both are read before either is set, the pool is left unchanged if one is missing.
+        min_runspaces, max_runspaces = event.min_runspaces, event.max_runspaces
+        self._min_runspaces = min_runspaces
+        self._max_runspaces = max_runspaces
 
     def _process_RunspacePoolState(
         self,
diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index 95c9e0c..cbfdc7c 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -376,12 +376,20 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         self,
         event: InitRunspacePoolEvent,
     ) -> None:
-        self.apartment_state = event.apartment_state
-        self.application_arguments = event.application_arguments
-        self.host = event.host_info
-        self.thread_options = event.ps_thread_options
-        self._max_runspaces = event.max_runspaces
-        self._min_runspaces = event.min_runspaces
+        # Everything is read before anything is set, the pool is left unchanged if something is missing.
+        apartment_state = event.apartment_state
+        application_arguments = event.application_arguments
+        host = event.host_info
+        thread_options = event.ps_thread_options
+        max_runspaces = event.max_runspaces
+        min_runspaces = event.min_runspaces
+
+        self.apartment_state = apartment_state
+        self.application_arguments = application_arguments
+        self.host = host
+        self.thread_options = thread_options
+        self._max_runspaces = max_runspaces
+        self._min_runspaces = min_runspaces
 
         self.prepare_message(ApplicationPrivateData(ApplicationPrivateData=self.application_private_data))
         self._change_state(RunspacePoolState.Opened)
@@ -402,13 +410,13 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         self,
         event: PublicKeyEvent,
     ) -> None:
-        self._key_requested = True
         encrypted_session_key = encrypt_session_key(event.key, self._session_key)
 
         msg = EncryptedSessionKey(
             EncryptedSessionKey=base64.b64encode(encrypted_session_key).decode(),
         )
         self.prepare_message(msg)
+        self._key_requested = True
 
     def _process_ResetRunspaceState(
         self,
-- 
2.43.0


From d4dc41ac977598e865ac5e3727f2aae4f4fe28de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:50 +0000
Subject: [PATCH 28/47] fix: use the STA apartment state that was asked for
 when creating a pipeline

---
 src/psrpcore/_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 0a9a26a..cf3304c 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -566,7 +566,7 @@ class ClientPowerShell(_ClientPipeline):
         super().__init__(runspace_pool=runspace_pool, pipeline_id=pipeline_id)
         self.metadata: PowerShell = PowerShell(
             add_to_history=add_to_history,
-            apartment_state=apartment_state or runspace_pool.apartment_state,
+            apartment_state=runspace_pool.apartment_state if apartment_state is None else apartment_state,
             history=history,
             host=host,
             is_nested=is_nested,
-- 
2.43.0


From 9dddb05c23750621a3a17a4f29b62cfaadc69055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:30 +0000
Subject: [PATCH 29/47] fix: set the declared property of a PSCustomObject
 subclass instead of adding a duplicate

---
 src/psrpcore/types/_complex.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index b34a45e..754627c 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -81,7 +81,14 @@ class PSCustomObject(PSObject):
                 self.PSObject.type_names.insert(0, prop_value)
 
             else:
-                self.PSObject.extended_properties.append(PSNoteProperty(prop_name, value=prop_value))
+                # A class that inherits this type can declare the property already, set that one instead of adding
+                # a second property with the same name.
+                for prop in self.PSObject.extended_properties:
+                    if prop.name == prop_name:
+                        prop.set_value(prop_value, self)
+                        break
+                else:
+                    self.PSObject.extended_properties.append(PSNoteProperty(prop_name, value=prop_value))
 
 
 @PSType(["System.ConsoleColor"])
-- 
2.43.0


From 99b8ca32ea7bff37d28e3dadc2420a3574dd7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:22 +0000
Subject: [PATCH 30/47] fix: reference an object with its own remoting format
 when it occurs again

---
 src/psrpcore/types/_serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 32e558f..9f246f2 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -670,7 +670,9 @@ class _Serializer:
 
         # If the value type has a ToPSObjectForRemoting class method we use that to build our true PSObject that will
         # be serialized.
+        remoting_source = None
         if hasattr(value_type, "ToPSObjectForRemoting") and not isinstance(value, PSSecureString):
+            remoting_source = value
             value = value_type.ToPSObjectForRemoting(value, **self._kwargs)
 
             if ps_object and hasattr(value, "PSObject"):
@@ -820,7 +822,8 @@ class _Serializer:
         if element is not None and not is_extended_primitive and not is_enum:
             return element
 
-        ref_id, use_ref = self._get_ref_id(value)
+        # An object built by ToPSObjectForRemoting is a new one each time, track the object it was built from.
+        ref_id, use_ref = self._get_ref_id(value if remoting_source is None else remoting_source)
         if use_ref:
             return ElementTree.Element("Ref", RefId=str(ref_id))
 
-- 
2.43.0


From 1f49d5e947b04051897a0b5ef2d1a9f75c678ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:59 +0000
Subject: [PATCH 31/47] fix: encrypt a secure string received from another peer
 for the session it is sent in

---
 src/psrpcore/types/_primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 834de5b..dc63c03 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -1251,10 +1251,10 @@ class PSSecureString(PSObject):
         cipher: PSCryptoProvider,
         **kwargs: typing.Any,
     ) -> PSObject:
-        if not instance._encrypted:
-            # The value was provided by the user without a cipher. Use the one passed in by the serializer to encrypt
-            # the value and return that for serialization.
-            return cls(cipher.encrypt(instance._value), cipher)
+        if instance._cipher is not cipher:
+            # The value was provided by the user without a cipher or is encrypted for another peer. Use the cipher
+            # passed in by the serializer to encrypt the value and return that for serialization.
+            return cls(cipher.encrypt(instance.decrypt()), cipher)
 
         else:
             return instance
-- 
2.43.0


From 81eaa0cd31d3f42c51bf42dd3139fb4fb2447048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 32/47] fix: read CLIXML that has no or several Objs elements
 with values

---
 src/psrpcore/types/_serializer.py | 37 +++++++++++++++++--------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 9f246f2..cbcbc1a 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -77,6 +77,9 @@ _STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFF
 # Finds each escaped UTF-16 code unit.
 _STRING_DESERIAL_FIND = re.compile("_x([a-fA-F0-9]{4})_")
 
+# Finds the start of each Objs root element in a CLIXML string.
+_CLIXML_ROOT_PATTERN = re.compile(r"<Objs\b[^>]*?(/?)>")
+
 # Python datetime only supports up to microsecond precision but .NET can go to 100 nanoseconds. To support this level
 # of precision we need to extract the fractional seconds part of a datetime ourselves and compute the value.
 _DATETIME_FRACTION_PATTERN = re.compile(r"\.(\d+)(.*)")
@@ -174,34 +177,34 @@ def deserialize_clixml(
         list[typing.Any]: The list of Python objects that were created from the
         CLIXML string. Each entry will be a tuple if ``preserve_streams=True``.
     """
-    serializer = _Serializer(cipher)
-
     # Strip out the CLIXML header if it is present
     if clixml.startswith("#< CLIXML"):
         clixml = clixml[9:].lstrip("\r\n")
 
     # ElementTree will process the xmlns value and apply it to each element
     # breaking our parser. It is easier to just strip it from the root Objs
-    # element.
-    objs_header_end_idx = clixml.find(">")
-    clixml = "<Objs" + clixml[objs_header_end_idx:]
+    # elements. There is more than one when the data was written in parts.
+    clixml = _CLIXML_ROOT_PATTERN.sub(r"<Objs\1>", clixml)
 
-    raw_clixml = ElementTree.fromstring(clixml)
     values = []
-    for raw in raw_clixml:
-        v = serializer.deserialize(raw)
+    for raw_clixml in ElementTree.fromstring(f"<Clixml>{clixml}</Clixml>"):
+        # The reference ids are unique for each Objs element.
+        serializer = _Serializer(cipher)
 
-        if preserve_streams:
-            stream_type = ClixmlStream.OUTPUT
-            if stream_attr := raw.attrib.get("S", None):
-                try:
-                    stream_type = ClixmlStream(stream_attr.lower())
-                except ValueError:
-                    pass
+        for raw in raw_clixml:
+            v = serializer.deserialize(raw)
+
+            if preserve_streams:
+                stream_type = ClixmlStream.OUTPUT
+                if stream_attr := raw.attrib.get("S", None):
+                    try:
+                        stream_type = ClixmlStream(stream_attr.lower())
+                    except ValueError:
+                        pass
 
-            v = (v, stream_type)
+                v = (v, stream_type)
 
-        values.append(v)
+            values.append(v)
 
     return values
 
-- 
2.43.0


From 1ae55b9bc13c12071899be255e520a04b0e48c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 33/47] fix: keep the float result of an integer raised to a
 negative power

---
 src/psrpcore/types/_primitive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index dc63c03..7d9c911 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -188,9 +188,10 @@ class PSIntegerBase(PSObject, int):
     def __pos__(self) -> "PSIntegerBase":
         return type(self)(super().__pos__())
 
-    def __pow__(self, *args: typing.Any, **kwargs: typing.Any) -> "PSIntegerBase":  # type: ignore[override]
+    def __pow__(self, *args: typing.Any, **kwargs: typing.Any) -> typing.Any:
         val = super().__pow__(*args, **kwargs)
-        return type(self)(val)
+        # A negative exponent results in a float which must not be truncated to an integer.
+        return type(self)(val) if isinstance(val, int) else val
 
     def __rshift__(self, n: int) -> "PSIntegerBase":
         return type(self)(super().__rshift__(n))
-- 
2.43.0


From fb1c1bfeaf59da35829d036fbf95fd474d08c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 34/47] fix: reject a version string with a trailing newline or
 non-ASCII digits

---
 src/psrpcore/types/_primitive.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 7d9c911..ff07934 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -29,16 +29,16 @@ from psrpcore.types._base import PSCryptoProvider, PSObject, PSType
 _VERSION_PATTERN = re.compile(
     r"""
 ^
-(?P<major>0|[1-9]\d*)               # The major version, can only have a leading 0 if that's the only value.
+(?P<major>0|[1-9][0-9]*)               # The major version, can only have a leading 0 if that's the only value.
 \.
-(?P<minor>0|[1-9]\d*)               # The minor version.
+(?P<minor>0|[1-9][0-9]*)               # The minor version.
 (?:
-    \.(?P<build>0|[1-9]\d*)         # The optional build version.
+    \.(?P<build>0|[1-9][0-9]*)         # The optional build version.
     (?:
-        \.(?P<revision>0|[1-9]\d*)  # The optional revision version.
+        \.(?P<revision>0|[1-9][0-9]*)  # The optional revision version.
     )?
 )?                                  # The 3rd and 4th versions are optional, we just require major.minor.
-$
+\Z
 """,
     re.VERBOSE,
 )
-- 
2.43.0


From 70938e752aa9c2a8dd032eec4a0765a3116e7ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 35/47] fix: let a PSType subclass redeclare a property of its
 parent

---
 src/psrpcore/types/_base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_base.py b/src/psrpcore/types/_base.py
index 87d8df7..9b8a4e5 100644
--- a/src/psrpcore/types/_base.py
+++ b/src/psrpcore/types/_base.py
@@ -780,8 +780,13 @@ class PSType:
 
         if not self.skip_inheritance:
             self.type_names.extend(cls.PSObject.type_names)
-            self.adapted_properties.extend(cls.PSObject.adapted_properties)
-            self.extended_properties.extend(cls.PSObject.extended_properties)
+            # A property redeclared by the subclass replaces the one of its parent.
+            for props, inherited in (
+                (self.adapted_properties, cls.PSObject.adapted_properties),
+                (self.extended_properties, cls.PSObject.extended_properties),
+            ):
+                names = {p.name for p in props}
+                props.extend(p for p in inherited if p.name not in names)
 
         cls.PSObject = PSObjectMeta(self.type_names, self.adapted_properties, self.extended_properties)
 
-- 
2.43.0


From 69d1017500b96e478f1d750234ab260f9b75bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 36/47] fix: answer a session key request that is processed
 while the pool is disconnected

---
 src/psrpcore/_client.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index cf3304c..125023c 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -189,6 +189,10 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
         if self.state != RunspacePoolState.Opened:
             raise InvalidRunspacePoolState("start session key exchange", self.state, [RunspacePoolState.Opened])
 
+        self._send_public_key()
+
+    def _send_public_key(self) -> None:
+        """Queue the public key the server encrypts the session key with."""
         self._exchange_key, public_key = create_keypair()
         b64_public_key = base64.b64encode(public_key).decode()
 
@@ -386,7 +390,12 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
         self,
         event: PublicKeyRequestEvent,
     ) -> None:
-        self.exchange_key()
+        disconnected = self.state in (RunspacePoolState.Disconnecting, RunspacePoolState.Disconnected)
+        if disconnected and not self._key_requested:
+            # The server does not ask again so the answer must be ready for when the pool is reconnected.
+            self._send_public_key()
+        else:
+            self.exchange_key()
 
     def _process_RunspaceAvailability(
         self,
-- 
2.43.0


From 19ef4d101176210165cdc7088f05097b13cda2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:36 +0000
Subject: [PATCH 37/47] fix: decrypting a secure string shares its properties
 with the text

---
 src/psrpcore/types/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index ff07934..1df01de 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -1236,7 +1236,7 @@ class PSSecureString(PSObject):
             raw = self._value
 
         dec_str = PSString(raw)
-        dec_str.PSObject = self.PSObject
+        self.PSObject.set_instance(dec_str)
         return dec_str
 
     def __repr__(self) -> str:
-- 
2.43.0


From 5800803b9f91521fcb2adfbc240caea413964fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:43 +0000
Subject: [PATCH 38/47] fix: each pool has a protocol version object of its own

---
 src/psrpcore/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index a8c6f7d..f4cc9ba 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -115,7 +115,7 @@ class RunspacePool(typing.Generic[T1]):
         self.runspace_pool_id = runspace_pool_id
         self.our_capability = SessionCapability(
             PSVersion=ps_version or PSVersion("2.0"),
-            protocolversion=protocol_version or ProtocolVersion.Pwsh5.value,
+            protocolversion=protocol_version or PSVersion(str(ProtocolVersion.Pwsh5.value)),
             SerializationVersion=serialization_version or PSVersion("1.1.0.1"),
         )
         self.their_capability: typing.Optional[SessionCapability] = None
-- 
2.43.0


From c2ba1a1a4c563dacff1f05bcb014efa53a0c532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 39/47] fix: discard the fragments of a message that is invalid

---
 src/psrpcore/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index f4cc9ba..a122992 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -331,20 +331,22 @@ class RunspacePool(typing.Generic[T1]):
             )
             self._receive_buffer = self._receive_buffer[21 + len(fragment.data) :]
 
-            buffer = self._incoming_fragments.setdefault(fragment.object_id, [])
+            buffer = self._incoming_fragments.get(fragment.object_id, [])
             if fragment.fragment_id != len(buffer):
                 raise PSRPCoreError(
                     f"Expecting fragment with a fragment id of {len(buffer)} not {fragment.fragment_id}"
                 )
             buffer.append(fragment.data)
+            self._incoming_fragments[fragment.object_id] = buffer
 
             if fragment.end:
+                # Removed first, the fragments are of no use either if the message turns out to be invalid.
+                del self._incoming_fragments[fragment.object_id]
                 raw_message = unpack_message(bytearray(b"".join(buffer)))
                 message = PSRPMessage(
                     raw_message.message_type, raw_message.data, raw_message.rpid, raw_message.pid, fragment.object_id
                 )
                 self._incoming_messages[fragment.object_id] = message
-                del self._incoming_fragments[fragment.object_id]
 
         for object_id in list(self._incoming_messages.keys()):
             message = self._incoming_messages[object_id]
-- 
2.43.0


From b80e539dc8aeb615e2ef1ef19d41fd210041d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 40/47] fix: describe an error record whose exception has no
 message

---
 src/psrpcore/types/_complex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index 754627c..935951a 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -815,7 +815,8 @@ class ErrorRecord(PSObject):
             return self.ErrorDetails.Message
 
         else:
-            return self.Exception.Message
+            # The message is optional, the string must be valid without it.
+            return getattr(self.Exception, "Message", None) or ""
 
     @classmethod
     def FromPSObjectForRemoting(
-- 
2.43.0


From 12cd9e32c09c0d33227ed9cf3fb5eb650049124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 41/47] fix: describe objects that contain themselves

---
 src/psrpcore/types/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psrpcore/types/_base.py b/src/psrpcore/types/_base.py
index 9b8a4e5..f1dc6fd 100644
--- a/src/psrpcore/types/_base.py
+++ b/src/psrpcore/types/_base.py
@@ -16,6 +16,7 @@ like `-is`, `Add-Member` and so on.
 import abc
 import enum
 import inspect
+import reprlib
 import types
 import typing
 
@@ -723,6 +724,7 @@ class PSObject:
         else:
             return super().__str__()
 
+    @reprlib.recursive_repr()
     def __repr__(self) -> str:
         prop_entries = {p.name: p for p in self.PSObject.adapted_properties}
         prop_entries.update({p.name: p for p in self.PSObject.extended_properties})
-- 
2.43.0


From 108513d8d6db0c7f6d70b1f7275f368f94062b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 42/47] fix: get the text of a script extent that has missing
 positions

---
 src/psrpcore/types/_complex.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index 935951a..6ab4a3a 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -495,16 +495,18 @@ class ScriptExtent(PSObject):
 
     @property
     def _text(self) -> PSString:
-        if self.EndColumnNumber < 1:
+        # None of the values are mandatory.
+        start_line, start_column = self._start.Line or "", self.StartColumnNumber or 0
+        end_line, end_column = self._end.Line or "", self.EndColumnNumber or 0
+
+        if end_column < 1:
             val = ""
 
         elif self.StartLineNumber == self.EndLineNumber:
-            val = self._start.Line[max(self.StartColumnNumber - 1, 0) : self.EndColumnNumber]
+            val = start_line[max(start_column, 1) - 1 : end_column]
 
         else:
-            start = self._start.Line[self.StartColumnNumber :]
-            end = self._end.Line[self.EndColumnNumber :]
-            val = f"{start}...{end}"
+            val = f"{start_line[start_column:]}...{end_line[end_column:]}"
 
         return PSString(val)
 
-- 
2.43.0


From 865f4e94e3bb96b79261a53a9f7f8a2a7e57cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:29 +0000
Subject: [PATCH 43/47] fix: a damaged message no longer changes the type names
 of an enum

The value inside of an element can be an enum member, which shares its
type names with its class. Naming the type of the outer element on it
changed what every later value of that enum was written as.
---
 src/psrpcore/types/_serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index cbcbc1a..e0c13a4 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1126,8 +1126,9 @@ class _Serializer:
                     value = self._update_value_ref(rehydrated_value(new_value), ref_id)
 
                 else:
-                    # If the TypeRegister returned any types, set them on the new object name.
-                    if value.PSTypeNames:
+                    # If the TypeRegister returned any types, set them on the new object name. An enum member shares them
+                    # with its class.
+                    if value.PSTypeNames and not isinstance(new_value, (PSEnumBase, PSFlagBase)):
                         new_value.PSObject.type_names = value.PSTypeNames
 
                     value = self._update_value_ref(new_value, ref_id)
-- 
2.43.0


From 10051af5ec5326761aa0a122c204e110c28c6e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:29 +0000
Subject: [PATCH 44/47] fix: an item of a byte array is its value

Indexing a PSByteArray with a number gave as many zero bytes as the value of the byte.
---
 src/psrpcore/types/_primitive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 1df01de..4b27254 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -880,14 +880,15 @@ class PSByteArray(PSObject, bytes):
     def __getitem__(  # type: ignore[override]  # The __mro__ is confusing mypy
         self,
         item: typing.Union[str, int, slice],
-    ) -> "PSByteArray":
+    ) -> typing.Union["PSByteArray", int]:
         # Allows slicing alongside getting extended properties which preserves the underlying type.
         if isinstance(item, str):
             return super().__getitem__(item)
 
-        else:
-            # String indexing, need to preserve the type.
-            return type(self)(bytes.__getitem__(self, item))
+        value = bytes.__getitem__(self, item)
+
+        # A single element is the int value of that byte, only a slice needs to preserve the type.
+        return type(self)(value) if isinstance(item, slice) else value
 
     def __repr__(self) -> str:
         return bytes.__repr__(self)
-- 
2.43.0


From a3a0e2851321cbea5cde929f0240f50701645168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:39 +0000
Subject: [PATCH 45/47] fix: a date-time with other parts or in another time
 zone is complete

PSDateTime.replace() returned an object without nanoseconds and with the
properties of the class, str() of it failed; astimezone() lost the nanoseconds.
---
 src/psrpcore/types/_primitive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 4b27254..21c7be3 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -438,6 +438,13 @@ class PSDateTime(PSObject, datetime.datetime):
     ) -> "PSDateTime":
         return cls(super().strptime(date_string, format))
 
+    def replace(self, *args: typing.Any, **kwargs: typing.Any) -> "PSDateTime":  # type: ignore[override]
+        # datetime creates its result without calling __new__, build a complete object that keeps the nanoseconds.
+        return type(self)(super().replace(*args, **kwargs), nanosecond=self.nanosecond)
+
+    def astimezone(self, tz: typing.Optional[datetime.tzinfo] = None) -> "PSDateTime":
+        return type(self)(super().astimezone(tz), nanosecond=self.nanosecond)
+
 
 @PSType(["System.TimeSpan", "System.ValueType"], tag="TS")
 class PSDuration(PSObject, datetime.timedelta):
-- 
2.43.0


From 50b19afb8532ab6cb17cc7ac43b8cf383aee6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 46/47] fix: leave integer arithmetic with other types to the
 other type

PSInt(1) + 1.5 raised a TypeError about NotImplementedType, as the result of
int's operator was converted without looking at it.
---
 src/psrpcore/types/_primitive.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 21c7be3..104c79f 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -151,39 +151,46 @@ class PSIntegerBase(PSObject, int):
         # Use the PSObject.to_string in case this was a deserialized enum
         return self.PSObject._to_string if self.PSObject._to_string is not None else int.__str__(self)
 
+    def _from_result(self, value: typing.Any) -> typing.Any:
+        # An operand that int does not know is left to the type of that operand, e.g. a float.
+        return value if value is NotImplemented else type(self)(value)
+
     def __abs__(self) -> "PSIntegerBase":
         return type(self)(super().__abs__())
 
     def __and__(self, n: int) -> "PSIntegerBase":
-        return type(self)(super().__and__(n))
+        return self._from_result(super().__and__(n))
 
     def __add__(self, x: int) -> "PSIntegerBase":
-        return type(self)(super().__add__(x))
+        return self._from_result(super().__add__(x))
 
     def __divmod__(self, x: int) -> typing.Tuple["PSIntegerBase", int]:
-        quotient, remainder = super().__divmod__(x)
+        result = super().__divmod__(x)
+        if result is NotImplemented:
+            return NotImplemented
+        quotient, remainder = result
         return type(self)(quotient), remainder
 
     def __floordiv__(self, x: int) -> "PSIntegerBase":
-        return type(self)(super().__floordiv__(x))
+        return self._from_result(super().__floordiv__(x))
 
     def __invert__(self) -> "PSIntegerBase":
         return type(self)(super().__invert__())
 
     def __lshift__(self, n: int) -> "PSIntegerBase":
-        return type(self)(super().__lshift__(n))
+        return self._from_result(super().__lshift__(n))
 
     def __mod__(self, x: int) -> "PSIntegerBase":
-        return type(self)(super().__mod__(x))
+        return self._from_result(super().__mod__(x))
 
     def __mul__(self, x: int) -> "PSIntegerBase":
-        return type(self)(super().__mul__(x))
+        return self._from_result(super().__mul__(x))
 
     def __neg__(self) -> "PSIntegerBase":
         return type(self)(super().__neg__())
 
     def __or__(self, n: int) -> "PSIntegerBase":
-        return type(self)(super().__or__(n))
+        return self._from_result(super().__or__(n))
 
     def __pos__(self) -> "PSIntegerBase":
         return type(self)(super().__pos__())
@@ -194,13 +201,13 @@ class PSIntegerBase(PSObject, int):
         return type(self)(val) if isinstance(val, int) else val
 
     def __rshift__(self, n: int) -> "PSIntegerBase":
-        return type(self)(super().__rshift__(n))
+        return self._from_result(super().__rshift__(n))
 
     def __sub__(self, x: int) -> "PSIntegerBase":
-        return type(self)(super().__sub__(x))
+        return self._from_result(super().__sub__(x))
 
     def __xor__(self, n: int) -> "PSIntegerBase":
-        return type(self)(super().__xor__(n))
+        return self._from_result(super().__xor__(n))
 
 
 class PSStringBase(PSObject, str):
-- 
2.43.0


From 04ad9038ae65e04eeac1ab839fa49a7ddd3f8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:41 +0000
Subject: [PATCH 47/47] fix: a missing key of a dictionary that is no text is a
 KeyError

PSDict({1: 'a'})[2] raised a TypeError about the name of an attribute.
---
 src/psrpcore/types/_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psrpcore/types/_collection.py b/src/psrpcore/types/_collection.py
index c68bfe6..595f2f1 100644
--- a/src/psrpcore/types/_collection.py
+++ b/src/psrpcore/types/_collection.py
@@ -45,6 +45,8 @@ class PSDictBase(PSObject, dict):
         try:
             return dict.__getitem__(self, item)
         except KeyError:
+            if not isinstance(item, str):
+                raise  # Only a string can be the name of a property.
             return super().__getitem__(item)
 
     def __setitem__(self, key: typing.Any, value: typing.Any) -> None:
-- 
2.43.0

