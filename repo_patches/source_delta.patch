From deb727281d15464aa08313cab07785cc8a5912a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 01/18] fix: convert NaN to null when NaN is not allowed

NaN never compares equal to itself, so float()/double() let it through and
--convert-nan-to-null aborted half way through writing the JSON file.
---
 palworld_save_tools/archive.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 0a5dc3b..b079326 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -331,21 +331,17 @@ class FArchiveReader:
 
     def float(self) -> Optional[_float]:
         val = FArchiveReader.unpack_float(self.data.read(4))[0]
-        if self.allow_nan:
+        if self.allow_nan or math.isfinite(val):
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
-            return None
-        return val
+        return None
 
     unpack_double = struct.Struct("d").unpack
 
     def double(self) -> Optional[_float]:
         val = FArchiveReader.unpack_double(self.data.read(8))[0]
-        if self.allow_nan:
+        if self.allow_nan or math.isfinite(val):
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
-            return None
-        return val
+        return None
 
     unpack_byte = struct.Struct("B").unpack
 
-- 
2.43.0


From 9cf60f7c9c9224556d137752080c4a28a4721d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 02/18] fix: keep raw bytes of base camp modules that were not
 fully parsed

The unread remainder was dropped with only a warning, so it was missing from
the re-encoded save.
---
 palworld_save_tools/rawdata/base_camp_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index 023ca4f..bc072ca 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -89,7 +89,8 @@ def decode_bytes(
         return {"values": b_bytes}
 
     if not reader.eof():
-        print(f"Warning: EOF not reached for {module_type}")
+        print(f"Warning: EOF not reached for {module_type}, keeping raw data")
+        return {"values": b_bytes}
 
     return data
 
-- 
2.43.0


From 32abf5b6dd1c88eb370005c92b708f95b462ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 03/18] fix: encode work entries that were kept as raw bytes

decode falls back to raw bytes for unknown work types and unknown transform
types, but encode could not write either of them back.
---
 palworld_save_tools/rawdata/work.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 5915f05..b15ca22 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -177,6 +177,9 @@ def encode(
 
 
 def encode_bytes(p: dict[str, Any], work_type: str) -> bytes:
+    # Unknown work types are kept as raw bytes
+    if "values" in p:
+        return bytes(p["values"])
     writer = FArchiveWriter()
 
     # Handle base serialization
@@ -248,7 +251,7 @@ def encode_bytes(p: dict[str, Any], work_type: str) -> bytes:
         print(
             f"Unknown EPalWorkTransformType, please report this: {transform_type}: {work_type}"
         )
-        writer.write(p["transform"]["raw_data"])
+        writer.write(bytes(p["transform"]["raw_data"]))
 
     encoded_bytes = writer.bytes()
     return encoded_bytes
-- 
2.43.0


From 883d68762c715fb291170e0388349a96c6c3d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 04/18] fix: reject truncated strings and guids

A read past the end of the data returned a shortened string or guid instead of
failing, so a truncated file or blob could be converted to something else.
---
 palworld_save_tools/archive.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index b079326..10813ba 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -277,10 +277,16 @@ class FArchiveReader:
         encoding: str
         if size < 0:
             size = -size
-            data = reader.read(size * 2)[:-2]
+            data = reader.read(size * 2)
+            if len(data) != size * 2:
+                raise Exception(f"could not read {size * 2} bytes for string")
+            data = data[:-2]
             encoding = "utf-16-le"
         else:
-            data = reader.read(size)[:-1]
+            data = reader.read(size)
+            if len(data) != size:
+                raise Exception(f"could not read {size} bytes for string")
+            data = data[:-1]
             encoding = "ascii"
 
         try:
@@ -356,12 +362,18 @@ class FArchiveReader:
 
     def guid(self) -> UUID:
         # in the hot loop, avoid function calls
-        return UUID(self.data.read(16))
+        b = self.data.read(16)
+        if len(b) != 16:
+            raise Exception("could not read 16 bytes for uuid")
+        return UUID(b)
 
     def optional_guid(self) -> Optional[UUID]:
         # in the hot loop, avoid function calls
         if self.data.read(1)[0]:
-            return UUID(self.data.read(16))
+            b = self.data.read(16)
+            if len(b) != 16:
+                raise Exception("could not read 16 bytes for uuid")
+            return UUID(b)
         return None
 
     def tarray(self, type_reader: Callable[["FArchiveReader"], Any]) -> list[Any]:
-- 
2.43.0


From be633cab92d4bee95b6b3c4305bb3124c830de58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 05/18] fix: write arrays of Guid

The reader accepts them, the writer raised an unknown array type error.
---
 palworld_save_tools/archive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 10813ba..860c4f5 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -971,6 +971,8 @@ class FArchiveWriter:
                 self.fstring(values[i])
             elif array_type == "BoolProperty":
                 self.bool(values[i])
+            elif array_type == "Guid":
+                self.guid(values[i])
             elif array_type == "ByteProperty":
                 self.byte(values[i])
             else:
-- 
2.43.0


From 392eb2c6eefe73ce792fbe84517da79cb6d50d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 06/18] fix: round packed vector components to the nearest
 integer

Scaled components such as 0.29 * 100 were truncated to the integer below, so a
vector read from a save was written back as a different one.
---
 palworld_save_tools/archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 860c4f5..b0fb24c 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -1000,7 +1000,7 @@ class FArchiveWriter:
 
     @staticmethod
     def unreal_round_float_to_int(value: _float) -> int:
-        return int(value)
+        return round(value)
 
     @staticmethod
     def unreal_get_bits_needed(value: int) -> int:
-- 
2.43.0


From ff7e5db8e8b3d1e65e5f60566d43c2a3c9b1e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 07/18] fix: write packed vectors with NaN or null components

They are stored as plain doubles when read, but writing them back raised an
exception (or depended on which component was NaN).
---
 palworld_save_tools/archive.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index b0fb24c..3d9df33 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -1021,10 +1021,14 @@ class FArchiveWriter:
         max_value_to_scale = 1 << max_exponent_for_scaling
         max_exponent_after_scaling = 62
         max_scaled_value = 1 << max_exponent_after_scaling
+        x, y, z = (math.nan if v is None else v for v in (x, y, z))
         scaled_x = x * scale_factor
         scaled_y = y * scale_factor
         scaled_z = z * scale_factor
-        if max(abs(scaled_x), abs(scaled_y), abs(scaled_z)) < max_scaled_value:
+        if (
+            not (math.isnan(x) or math.isnan(y) or math.isnan(z))
+            and max(abs(scaled_x), abs(scaled_y), abs(scaled_z)) < max_scaled_value
+        ):
             use_scaled_value = min(abs(x), abs(y), abs(z)) < max_value_to_scale
             if use_scaled_value:
                 x = self.unreal_round_float_to_int(scaled_x)
-- 
2.43.0


From a738525bb850a2672f53a9904ad0ad7ea093909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 08/18] fix: keep the document JSON-serialisable after it has
 been written

write() left bytes objects in map objects and base camp modules (next to the
stale decoded fields in the latter), so dumping the same file to JSON
afterwards failed.
---
 .../rawdata/base_camp_module.py               |  3 +-
 palworld_save_tools/rawdata/map_object.py     | 40 ++++++++++++-------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index bc072ca..6f1b37c 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -106,9 +106,10 @@ def encode(
     for module in module_map:
         module_type = module["key"]
         if "values" not in module["value"]["RawData"]["value"]:
-            module["value"]["RawData"]["value"]["values"] = encode_bytes(
+            encoded_bytes = encode_bytes(
                 module["value"]["RawData"]["value"], module_type
             )
+            module["value"]["RawData"]["value"] = {"values": [b for b in encoded_bytes]}
 
     return writer.property_inner(property_type, properties)
 
diff --git a/palworld_save_tools/rawdata/map_object.py b/palworld_save_tools/rawdata/map_object.py
index 79e548e..e76fca7 100644
--- a/palworld_save_tools/rawdata/map_object.py
+++ b/palworld_save_tools/rawdata/map_object.py
@@ -73,8 +73,10 @@ def encode(
         # Encode Model
         if "values" not in map_object["Model"]["value"]["RawData"]["value"]:
             map_object["Model"]["value"]["RawData"]["value"] = {
-                "values": map_model.encode_bytes(
-                    map_object["Model"]["value"]["RawData"]["value"]
+                "values": list(
+                    map_model.encode_bytes(
+                        map_object["Model"]["value"]["RawData"]["value"]
+                    )
                 )
             }
         # Encode Model.Connector
@@ -85,10 +87,12 @@ def encode(
             ]
         ):
             map_object["Model"]["value"]["Connector"]["value"]["RawData"]["value"] = {
-                "values": connector.encode_bytes(
-                    map_object["Model"]["value"]["Connector"]["value"]["RawData"][
-                        "value"
-                    ],
+                "values": list(
+                    connector.encode_bytes(
+                        map_object["Model"]["value"]["Connector"]["value"]["RawData"][
+                            "value"
+                        ],
+                    )
                 )
             }
         # Encode Model.BuildProcess
@@ -101,17 +105,21 @@ def encode(
             map_object["Model"]["value"]["BuildProcess"]["value"]["RawData"][
                 "value"
             ] = {
-                "values": build_process.encode_bytes(
-                    map_object["Model"]["value"]["BuildProcess"]["value"]["RawData"][
-                        "value"
-                    ],
+                "values": list(
+                    build_process.encode_bytes(
+                        map_object["Model"]["value"]["BuildProcess"]["value"][
+                            "RawData"
+                        ]["value"],
+                    )
                 )
             }
         # Encode ConcreteModel
         if "values" not in map_object["ConcreteModel"]["value"]["RawData"]["value"]:
             map_object["ConcreteModel"]["value"]["RawData"]["value"] = {
-                "values": map_concrete_model.encode_bytes(
-                    map_object["ConcreteModel"]["value"]["RawData"]["value"],
+                "values": list(
+                    map_concrete_model.encode_bytes(
+                        map_object["ConcreteModel"]["value"]["RawData"]["value"],
+                    )
                 )
             }
         # Encode ConcreteModel.ModuleMap
@@ -119,9 +127,11 @@ def encode(
             if "values" not in module["value"]["RawData"]["value"]:
                 module_type = module["key"]
                 module["value"]["RawData"]["value"] = {
-                    "values": map_concrete_model_module.encode_bytes(
-                        module["value"]["RawData"]["value"],
-                        module_type,
+                    "values": list(
+                        map_concrete_model_module.encode_bytes(
+                            module["value"]["RawData"]["value"],
+                            module_type,
+                        )
                     )
                 }
 
-- 
2.43.0


From ed18795dd66a0c1b25286db2abe85cba6e1fb648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 09/18] fix: let --to-json and --from-json override the file
 extension

With --to-json on a .json file (or --from-json on a .sav file) both conversions
ran.
---
 palworld_save_tools/commands/convert.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 772ef9d..b1e59da 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -63,7 +63,14 @@ def main():
         print(f"{args.filename} is not a file")
         exit(1)
 
-    if args.to_json or args.filename.endswith(".sav"):
+    to_json = args.to_json or (
+        not args.from_json and args.filename.endswith(".sav")
+    )
+    from_json = args.from_json or (
+        not args.to_json and args.filename.endswith(".json")
+    )
+
+    if to_json:
         if not args.output:
             output_path = args.filename + ".json"
         else:
@@ -77,7 +84,7 @@ def main():
             custom_properties_keys=args.custom_properties,
         )
 
-    if args.from_json or args.filename.endswith(".json"):
+    if from_json:
         if not args.output:
             output_path = args.filename.replace(".json", "")
         else:
-- 
2.43.0


From 232d4d386c1d677281dd4bdc0905092cff5b30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 10/18] fix: derive the default SAV path from the .json suffix
 only

.json was removed anywhere in the path, including directory names, and
--from-json on a file without that suffix wrote over its own input.
---
 palworld_save_tools/commands/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index b1e59da..3d42767 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -86,7 +86,9 @@ def main():
 
     if from_json:
         if not args.output:
-            output_path = args.filename.replace(".json", "")
+            output_path = args.filename.removesuffix(".json")
+            if output_path == args.filename:
+                output_path = args.filename + ".sav"
         else:
             output_path = args.output
         convert_json_to_sav(args.filename, output_path, force=args.force)
-- 
2.43.0


From 1f35389d847a95d2f4bd50a235d0d3e1de8f32fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 11/18] fix: report files that are neither .sav nor .json

Nothing was converted, and the command still exited successfully.
---
 palworld_save_tools/commands/convert.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 3d42767..2c8129d 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -63,12 +63,14 @@ def main():
         print(f"{args.filename} is not a file")
         exit(1)
 
-    to_json = args.to_json or (
-        not args.from_json and args.filename.endswith(".sav")
-    )
-    from_json = args.from_json or (
-        not args.to_json and args.filename.endswith(".json")
-    )
+    to_json = args.to_json or (not args.from_json and args.filename.endswith(".sav"))
+    from_json = args.from_json or (not args.to_json and args.filename.endswith(".json"))
+
+    if not to_json and not from_json:
+        print(
+            f"{args.filename} is not a .sav or .json file, specify --to-json or --from-json"
+        )
+        exit(1)
 
     if to_json:
         if not args.output:
-- 
2.43.0


From d69ef21468082308458b3aba0b77bb73950bc737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 12/18] fix: make equal UUIDs hash equally with recordclass
 installed

A UUID equals its string form, but with recordclass installed the two hashed
differently, so looking one up in a dict or set keyed by the other failed; the
stdlib variant hashes the string.
---
 palworld_save_tools/archive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 3d9df33..27e16ab 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -187,6 +187,9 @@ else:
         def __repr__(self) -> str:
             return "%s.UUID('%s')" % (self.__module__, str(self))
 
+    # as_dataclass replaces a __hash__ defined in the class body
+    UUID.__hash__ = lambda self: hash(str(self))  # type: ignore[assignment]
+
 
 # Specify a type for JSON-serializable objects
 JSON = Union[
-- 
2.43.0


From 3b5409de936283eb0f19602137978b963cd85417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:54 +0000
Subject: [PATCH 13/18] fix: do not fail on warnings about names that cannot be
 printed

Warnings printed names taken from the save as they are; one the output stream
cannot encode (a lone surrogate, or non-ASCII text on a legacy code page)
aborted the conversion.
---
 palworld_save_tools/archive.py                    | 6 +++---
 palworld_save_tools/rawdata/base_camp_module.py   | 2 +-
 palworld_save_tools/rawdata/map_concrete_model.py | 2 +-
 palworld_save_tools/rawdata/work.py               | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 27e16ab..0b172cc 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -253,7 +253,7 @@ class FArchiveReader:
         if path in self.type_hints:
             return self.type_hints[path]
         else:
-            print(f"Struct type for {path} not found, assuming {default}")
+            print(f"Struct type for {path!a} not found, assuming {default}")
             return default
 
     def eof(self) -> bool:
@@ -544,7 +544,7 @@ class FArchiveReader:
             }
         else:
             if self.debug:
-                print(f"Assuming struct type: {struct_type} ({path})")
+                print(f"Assuming struct type: {struct_type!a} ({path!a})")
             return self.properties_until_end(path)
 
     def array_property(self, array_type: str, size: int, path: str):
@@ -923,7 +923,7 @@ class FArchiveWriter:
             self.float(value["a"])
         else:
             if self.debug:
-                print(f"Assuming struct type: {struct_type}")
+                print(f"Assuming struct type: {struct_type!a}")
             return self.properties(value)
 
     def prop_value(self, type_name: str, struct_type_name: str, value):
diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index 6f1b37c..7032291 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -85,7 +85,7 @@ def decode_bytes(
             )
             return {"values": b_bytes}
     else:
-        print(f"Warning: Unknown base camp module type {module_type}, skipping")
+        print(f"Warning: Unknown base camp module type {module_type!a}, skipping")
         return {"values": b_bytes}
 
     if not reader.eof():
diff --git a/palworld_save_tools/rawdata/map_concrete_model.py b/palworld_save_tools/rawdata/map_concrete_model.py
index 74938bb..846860c 100644
--- a/palworld_save_tools/rawdata/map_concrete_model.py
+++ b/palworld_save_tools/rawdata/map_concrete_model.py
@@ -349,7 +349,7 @@ def decode_bytes(
     data: dict[str, Any] = {}
 
     if object_id.lower() not in MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS:
-        print(f"Warning: Map object '{object_id}' not in database, skipping")
+        print(f"Warning: Map object {object_id!a} not in database, skipping")
         return {"values": m_bytes}
 
     # Base handling
diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index b15ca22..94ae653 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -102,7 +102,7 @@ def decode_bytes(
             data["target_map_object_model_id"] = reader.guid()
 
     if len(data.keys()) == 0:
-        print(f"Warning, unable to parse {work_type}, falling back to raw bytes")
+        print(f"Warning, unable to parse {work_type!a}, falling back to raw bytes")
         return {"values": b_bytes}
     # UPalWorkProgressTransformBase->SerializeProperties
     transform_type = reader.byte()
-- 
2.43.0


From 99537a4ac2eb89c43eb4b7ee876faea5b8b3bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:12 +0000
Subject: [PATCH 14/18] fix: refuse floats that do not fit in 32 bits

---
 palworld_save_tools/archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 0b172cc..31c4965 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -778,7 +778,8 @@ class FArchiveWriter:
     def float(self, i: Optional[float]):
         if i is None:
             i = float("nan")
-        self.data.write(struct.pack("f", i))
+        # unlike "f", "<f" refuses values that do not fit instead of storing infinity
+        self.data.write(struct.pack("<f", i))
 
     def double(self, i: Optional[_float]):
         if i is None:
-- 
2.43.0


From 0e94a5c41ac39933b57ee014c91925b0a9bb6d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 15/18] fix: do not read a negative player count as an empty
 guild

---
 palworld_save_tools/rawdata/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/group.py b/palworld_save_tools/rawdata/group.py
index 9995479..b169015 100644
--- a/palworld_save_tools/rawdata/group.py
+++ b/palworld_save_tools/rawdata/group.py
@@ -62,7 +62,7 @@ def decode_bytes(
             "admin_player_uid": reader.guid(),
             "players": [],
         }
-        player_count = reader.i32()
+        player_count = reader.u32()
         for _ in range(player_count):
             player = {
                 "player_uid": reader.guid(),
-- 
2.43.0


From 9ff2a7497d80f74afe66b04c715b0efd427722d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:13 +0000
Subject: [PATCH 16/18] fix: refuse a packed vector whose data is cut short

serializeint() accepted fewer bytes than the component width and returned a
different number.
---
 palworld_save_tools/archive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 31c4965..c29cd9d 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -605,7 +605,10 @@ class FArchiveReader:
         return (pitch, yaw, roll)
 
     def serializeint(self, component_bit_count: int) -> int:
-        b = bytearray(self.read((component_bit_count + 7) // 8))
+        size = (component_bit_count + 7) // 8
+        b = bytearray(self.read(size))
+        if len(b) != size:
+            raise Exception(f"could not read {size} bytes for packed integer")
         if (component_bit_count % 8) != 0:
             b[-1] &= (1 << (component_bit_count % 8)) - 1
         value = int.from_bytes(b, "little")
-- 
2.43.0


From def3e0a8f4fb46fc93a5bb3a8d657612f404bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:41 +0000
Subject: [PATCH 17/18] fix: write back what a caller's decoder returned inside
 raw data

Characters, eggs and hatching eggs hold property lists that are read with the
caller's custom properties but were written without them, so the document
could not be converted back.
---
 palworld_save_tools/rawdata/character.py          | 9 ++++++---
 palworld_save_tools/rawdata/dynamic_item.py       | 9 ++++++---
 palworld_save_tools/rawdata/map_concrete_model.py | 7 +++++--
 palworld_save_tools/rawdata/map_object.py         | 1 +
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/palworld_save_tools/rawdata/character.py b/palworld_save_tools/rawdata/character.py
index 23566c7..0cad730 100644
--- a/palworld_save_tools/rawdata/character.py
+++ b/palworld_save_tools/rawdata/character.py
@@ -34,13 +34,16 @@ def encode(
     if property_type != "ArrayProperty":
         raise Exception(f"Expected ArrayProperty, got {property_type}")
     del properties["custom_type"]
-    encoded_bytes = encode_bytes(properties["value"])
+    encoded_bytes = encode_bytes(properties["value"], writer.custom_properties)
     properties["value"] = {"values": [b for b in encoded_bytes]}
     return writer.property_inner(property_type, properties)
 
 
-def encode_bytes(p: dict[str, Any]) -> bytes:
-    writer = FArchiveWriter()
+def encode_bytes(
+    p: dict[str, Any],
+    custom_properties: dict[str, tuple[Callable, Callable]] = {},
+) -> bytes:
+    writer = FArchiveWriter(custom_properties)
     writer.properties(p["object"])
     writer.write(bytes(p["unknown_bytes"]))
     writer.guid(p["group_id"])
diff --git a/palworld_save_tools/rawdata/dynamic_item.py b/palworld_save_tools/rawdata/dynamic_item.py
index 631e435..5d92682 100644
--- a/palworld_save_tools/rawdata/dynamic_item.py
+++ b/palworld_save_tools/rawdata/dynamic_item.py
@@ -79,15 +79,18 @@ def encode(
     if property_type != "ArrayProperty":
         raise Exception(f"Expected ArrayProperty, got {property_type}")
     del properties["custom_type"]
-    encoded_bytes = encode_bytes(properties["value"])
+    encoded_bytes = encode_bytes(properties["value"], writer.custom_properties)
     properties["value"] = {"values": [b for b in encoded_bytes]}
     return writer.property_inner(property_type, properties)
 
 
-def encode_bytes(p: dict[str, Any]) -> bytes:
+def encode_bytes(
+    p: dict[str, Any],
+    custom_properties: dict[str, tuple[Callable, Callable]] = {},
+) -> bytes:
     if p is None:
         return bytes()
-    writer = FArchiveWriter()
+    writer = FArchiveWriter(custom_properties)
     writer.guid(p["id"]["created_world_id"])
     writer.guid(p["id"]["local_id_in_created_world"])
     writer.fstring(p["id"]["static_id"])
diff --git a/palworld_save_tools/rawdata/map_concrete_model.py b/palworld_save_tools/rawdata/map_concrete_model.py
index 846860c..0003426 100644
--- a/palworld_save_tools/rawdata/map_concrete_model.py
+++ b/palworld_save_tools/rawdata/map_concrete_model.py
@@ -444,11 +444,14 @@ def decode_bytes(
     return data
 
 
-def encode_bytes(p: Optional[dict[str, Any]]) -> bytes:
+def encode_bytes(
+    p: Optional[dict[str, Any]],
+    custom_properties: dict[str, tuple[Callable, Callable]] = {},
+) -> bytes:
     if p is None:
         return b""
 
-    writer = FArchiveWriter()
+    writer = FArchiveWriter(custom_properties)
 
     map_object_concrete_model = p["concrete_model_type"]
 
diff --git a/palworld_save_tools/rawdata/map_object.py b/palworld_save_tools/rawdata/map_object.py
index e76fca7..88870f9 100644
--- a/palworld_save_tools/rawdata/map_object.py
+++ b/palworld_save_tools/rawdata/map_object.py
@@ -119,6 +119,7 @@ def encode(
                 "values": list(
                     map_concrete_model.encode_bytes(
                         map_object["ConcreteModel"]["value"]["RawData"]["value"],
+                        writer.custom_properties,
                     )
                 )
             }
-- 
2.43.0


From 5faea3cbbdd58b05416c38a1f20f634a5c9a7172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:16 +0000
Subject: [PATCH 18/18] fix: refuse to write a property named None

The name marks the end of a list of properties, so everything behind such a
property was lost from the written save.
---
 palworld_save_tools/archive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index c29cd9d..8e4a1ee 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -814,6 +814,9 @@ class FArchiveWriter:
 
     def properties(self, properties: dict[str, Any]):
         for key in properties:
+            if key == "None":
+                # this name marks the end of the properties
+                raise Exception("A property cannot be named None")
             self.fstring(key)
             self.property(properties[key])
         self.fstring("None")
-- 
2.43.0

