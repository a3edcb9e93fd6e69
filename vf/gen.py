"""Generator of whole save documents: the JSON document a conversion must show."""
import base64
import copy
import json
import os

from vf import model as M
from vf import pools as P
from vf.engine import VERIF

with open(os.path.join(VERIF, "data", "map_objects.json")) as _f:
    _mo = json.load(_f)
NAMES = _mo["names"]
NOOP = set(_mo["noop"])
BY_CLASS = {}
for _k, _v in NAMES.items():
    BY_CLASS.setdefault(_v, []).append(_k)
CLASSES = sorted(c for c in BY_CLASS if c in NOOP or c in M.CONCRETE)
RAW_CLASSES = sorted(c for c in BY_CLASS if c not in NOOP and c not in M.CONCRETE)
HANDLED = [c for c in CLASSES if c in M.CONCRETE]
NOOP_CLASSES = [c for c in CLASSES if c in NOOP]

RESERVED = {
    "None", "RawData", "Slots", "ModuleMap", "WorkerDirector", "WorkCollection", "InstanceDataMap", "ModelMap",
    "GroupType", "WorkableType", "WorkAssignMap", "Model", "ConcreteModel", "MapObjectId", "Connector",
    "BuildProcess", "EffectMap", "worldSaveData",
}
NAME_LIST = sorted(NAMES)


def near_name(s, k):
    """A name that looks like k."""
    return [k + "2", k[:-1], k + " ", " " + k, k + "_", "_" + k, k.replace("_", ""), k.replace("_", "-"), k.replace("_", " "), k + "_C",
            "BP_" + k, k + "\0", k + "\0x", k + "-1", k[1:], k + ".0", "\ufeff" + k, k + "\u200b", "x::" + k][s.draw(19)]


CLASSNAMES = [
    "/Script/Pal.PalWorldSaveGame", "/Script/Pal.PalLocalWorldSaveGame", "/Script/Pal.PalWorldPlayerSaveGame",
    "/Script/Pal.PalWorldBaseInfoSaveGame", "/Script/Pal.PalWorldOptionSaveGame", "/Script/Pal.PalOptionSaveGame",
    "/Script/Engine.SaveGame",
]
ZERO = "00000000-0000-0000-0000-000000000000"
SECTIONS = [
    "GroupSaveDataMap", "CharacterSaveParameterMap", "ItemContainerSaveData", "CharacterContainerSaveData",
    "DynamicItemSaveData", "FoliageGridSaveDataMap", "BaseCampSaveData", "WorkSaveData", "MapObjectSaveData",
    "MapObjectSpawnerInStageSaveData", "EnemyCampSaveData", "DungeonSaveData",
]
# which section is worth more cases when a raw data module of the tree changed
FILE_SECTION = {
    "group": 0, "character": 1, "item_container": 2, "item_container_slots": 2, "character_container": 3,
    "dynamic_item": 4, "foliage_model": 5, "foliage_model_instance": 5, "base_camp": 6, "base_camp_module": 6,
    "worker_director": 6, "work_collection": 6, "work": 7, "map_object": 8, "map_model": 8, "connector": 8,
    "build_process": 8, "map_concrete_model": 8, "map_concrete_model_module": 8, "common": 8,
}


class Gen:
    def __init__(self, src, budget=60, ids=True, cap=4200, finite=False):
        self.s = src
        self.guids = []
        self.left = budget
        self.ids = ids  # may properties carry a guid of their own
        self.cap = cap
        self.finite = finite
        self.blank = False  # every leaf takes its default value
        self.idrate = src.choice([0, 0, 1, 4]) if ids else 0
        self.labels = set()
        self.maxdepth = 3 + src.draw(3)

    # -------------------------------------------------------------- leaves
    def guid(self):
        if self.blank:
            return ZERO
        return P.guid_text(P.guid_bytes(self.s, self.guids))

    def text(self):
        if self.blank:
            return ""
        return P.text(self.s, self.cap)

    def pid(self):
        if self.idrate and self.s.chance(self.idrate, 12):
            self.labels.add("property id")
            return self.guid()
        return None

    def f32(self):
        if self.blank:
            return 0.0
        return P.f32(self.s, self.finite)

    def f64(self):
        if self.blank:
            return 0.0
        return P.f64(self.s, self.finite)

    def floats(self, names, one):
        """Numbers of a vector, now and then all zero, all one, an identity or all the same."""
        k = self.s.draw(14) if not self.blank else 9
        if k == 0:
            v = self.s.choice([0.0, 1.0, -0.0, self.f64()])
            return {n: v for n in names}
        out = {n: self.f64() for n in names} if k > 1 else {n: 0.0 for n in names}
        if k == 1 and one:
            out[one] = 1.0
        return out

    def vec(self):
        return self.floats("xyz", None)

    def quat(self):
        return self.floats("xyzw", "w")

    def xform(self):
        return {"rotation": self.quat(), "translation": self.vec(), "scale3d": self.vec()}

    def count(self, cost=1):
        """A count; large ones only for cheap elements and within the budget."""
        fr = P.fresh()
        if fr.ints and self.s.chance(1, 10):
            k = abs(self.s.choice(fr.ints)) + self.s.weighted([(3, 0), (2, 1), (1, -1)])
            if 0 <= k * cost <= 3000 and (k < 40 or self.s.bulk > 0):
                self.s.bulk -= 10 * k * cost if k >= 40 else 0
                self.left -= k * cost // 8
                return k
        r = self.s.draw(40)
        if r < 34 or self.left < 8:
            n = self.s.draw(4)
        elif r < 38:
            n = self.s.draw(12)
        elif r < 39:
            n = min(self.s.choice([16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]), 400 // cost)
        else:
            n = min(self.s.choice([100, 255, 256, 257, 300]), 600 // cost)
        self.left -= n * cost // 6
        return n

    # ------------------------------------------------------------- schemas
    def val(self, t):
        if t.__class__ is str:
            return getattr(self, "g_" + t)()
        k = t[0]
        if k == "arr":
            if self.blank and self.s.draw(4):
                return []
            e = t[1]
            n = self.count(1 if e.__class__ is str else 4)
            if e == "u8" and n > 24:
                return list(self.s.bytes(n))
            out = []
            for _ in range(n):
                if out and self.s.chance(1, 10):  # the same element again
                    out.append(copy.deepcopy(self.s.choice(out)))
                else:
                    out.append(self.val(e))
            return out
        if k == "rec":
            return self.rec(t[1])
        if k == "raw":
            return list(self.s.bytes(t[1]))
        raise KeyError(t)

    def rec(self, schema):
        old = self.blank
        if not old and self.s.chance(1, 16):
            self.blank = True
        try:
            return {f: self.val(ft) for f, ft in schema}
        finally:
            self.blank = old

    def g_guid(self):
        return self.guid()

    def g_str(self):
        return self.text()

    def g_u8(self):
        if self.blank:
            return 0
        return P.u8(self.s)

    def g_i32(self):
        if self.blank:
            return 0
        return P.i32(self.s)

    def g_u32(self):
        if self.blank:
            return 0
        return P.u32(self.s)

    def g_i64(self):
        if self.blank:
            return 0
        return P.i64(self.s)

    def g_f32(self):
        return self.f32()

    def g_f64(self):
        return self.f64()

    def g_vec(self):
        return self.vec()

    def g_quat(self):
        return self.quat()

    def g_xform(self):
        return self.xform()

    def g_b32(self):
        if self.blank:
            return False
        return bool(self.s.draw(2))

    def g_props(self):
        return self.props(1 + self.s.draw(2))

    def g_rotator(self):
        def one():
            r = self.s.draw(6)
            n = 0 if r == 0 else self.s.choice([1, 2, 255, 256, 32767, 32768, 32769, 65534, 65535]) if r < 3 else P.u16(self.s)
            return n * 360.0 / 65536.0

        return {"pitch": one(), "yaw": one(), "roll": one()}

    def g_packed1(self):
        s = self.s
        kind = s.draw(12)
        if kind < 7:  # whole numbers, one of them small enough for the scaled form
            def one():
                v = float(P.integer(s, -(1 << s.draw(54)), 1 << s.draw(54)))
                return v if v else 0.0

            v = [one() for _ in range(3)]
            if s.chance(1, 8):
                v[s.draw(3)] = float((1 << 62) - 512 - 512 * s.draw(8)) * s.choice([1, -1])
            if min(abs(k) for k in v) >= 2**52:
                v[s.draw(3)] = float(s.draw(1000))
            return {"x": v[0], "y": v[1], "z": v[2]}
        if kind < 9:  # every component at least 2**52: stored unscaled
            def big():
                m = (1 << 52) + s.draw(1 << 52)
                m <<= s.draw(10)
                if s.chance(1, 6):  # more digits than a double has
                    m += s.draw(512)
                m = min(m, (1 << 62) - 512)
                return int(m * s.choice([1, -1]))

            v = [big() for _ in range(3)]
            return {"x": v[0], "y": v[1], "z": v[2]}
        # stored as doubles: out of range or not finite
        v = [self.f64() for _ in range(3)]
        i = s.draw(3)
        if self.finite:
            v[i] = s.choice([2.0**62, -(2.0**62), 1e300, -1e19, 2.0**63])
        else:
            v[i] = s.choice([2.0**62, -(2.0**62), 1e300, -1e19, 2.0**63, P.NAN, float("inf"), float("-inf")])
        return {"x": v[0], "y": v[1], "z": v[2]}

    # ------------------------------------------------------------ properties
    def name(self, used):
        for _ in range(4):
            r = self.s.draw(10)
            if r < 5:
                n = self.s.choice(P.WORDS)
            elif r < 8:
                n = P.ascii_word(self.s)
            else:
                n = self.text()
            if n and n not in used and n not in RESERVED and n not in SECTIONS:
                return n
        n = "P%d" % len(used)
        while n in used:
            n += "_"
        return n

    def props(self, depth=0, n=None, used=()):
        out = {}
        if n is None:
            n = self.s.draw(5) if depth else 1 + self.s.draw(6)
        for _ in range(n):
            if self.left <= 0:
                break
            k = self.name(set(out) | set(used))
            out[k] = self.prop(depth)
        return out

    def prop(self, depth):
        self.left -= 1
        s = self.s
        t = s.weighted(
            [(3, "IntProperty"), (2, "Int64Property"), (1, "FixedPoint64Property"), (3, "FloatProperty"),
             (4, "StrProperty"), (3, "NameProperty"), (3, "EnumProperty"), (2, "BoolProperty"),
             (6, "StructProperty"), (5, "ArrayProperty"), (5, "MapProperty")]
        )
        return getattr(self, "p_" + t)(depth)

    def p_IntProperty(self, depth=0):
        return {"id": self.pid(), "value": P.i32(self.s), "type": "IntProperty"}

    def p_Int64Property(self, depth=0):
        return {"id": self.pid(), "value": P.i64(self.s), "type": "Int64Property"}

    def p_FixedPoint64Property(self, depth=0):
        return {"id": self.pid(), "value": P.i32(self.s), "type": "FixedPoint64Property"}

    def p_FloatProperty(self, depth=0):
        return {"id": self.pid(), "value": self.f32(), "type": "FloatProperty"}

    def p_StrProperty(self, depth=0):
        return {"id": self.pid(), "value": self.text(), "type": "StrProperty"}

    def p_NameProperty(self, depth=0):
        return {"id": self.pid(), "value": self.text(), "type": "NameProperty"}

    def p_EnumProperty(self, depth=0):
        t = self.text()
        return {"id": self.pid(), "value": {"type": t, "value": self.text()}, "type": "EnumProperty"}

    def p_BoolProperty(self, depth=0):
        return {"value": bool(self.s.draw(2)), "id": self.pid(), "type": "BoolProperty"}

    def structval(self, st, depth):
        if st == "Vector":
            return self.vec()
        if st == "DateTime":
            return P.u64(self.s)
        if st == "Guid":
            return self.guid()
        if st == "Quat":
            return self.quat()
        if st == "LinearColor":
            return {"r": self.f32(), "g": self.f32(), "b": self.f32(), "a": self.f32()}
        return self.props(depth + 1)

    def struct_type(self, depth):
        r = self.s.draw(10)
        if r < 6:
            return self.s.choice(["Vector", "DateTime", "Guid", "Quat", "LinearColor"])
        if depth >= self.maxdepth:
            return "Guid"
        if r < 9:
            return self.s.choice(["PalContainerId", "PalItemId", "StructProperty", "Rotator", "vector", "GUID", "Vector2D"])
        t = self.text()
        return t if t not in M.STRUCT else "PalStruct"

    def p_StructProperty(self, depth=0):
        st = self.struct_type(depth)
        return {
            "struct_type": st, "struct_id": self.guid() if self.s.chance(1, 4) else ZERO, "id": self.pid(),
            "value": self.structval(st, depth), "type": "StructProperty",
        }

    def p_ArrayProperty(self, depth=0):
        s = self.s
        at = s.weighted([(3, "ByteProperty"), (2, "EnumProperty"), (2, "NameProperty"), (1, "Guid"), (4, "StructProperty")])
        p = {"array_type": at, "id": self.pid(), "value": None, "type": "ArrayProperty"}
        if at == "StructProperty":
            st = self.struct_type(depth)
            n = self.count(8)
            if st not in M.STRUCT:
                n = min(n, 4)
            name = self.text() if s.chance(1, 3) else s.choice(P.WORDS)
            p["value"] = {
                "prop_name": name, "prop_type": "StructProperty" if s.chance(9, 10) else self.text(),
                "values": [self.structval(st, depth) for _ in range(n)],
                "type_name": st, "id": self.guid() if s.chance(1, 3) else ZERO,
            }
            return p
        if at == "ByteProperty":
            p["value"] = {"values": list(s.bytes(P.length(s, self.cap)))}
        elif at == "Guid":
            p["value"] = {"values": [self.guid() for _ in range(self.count(2))]}
        else:
            p["value"] = {"values": [self.text() for _ in range(self.count(2))]}
        return p

    def val_of(self, t, st, depth):
        if t == "StructProperty":
            return self.structval(st, depth)
        if t == "IntProperty":
            return P.i32(self.s)
        if t == "BoolProperty":
            return bool(self.s.draw(2))
        return self.text()

    def p_MapProperty(self, depth=0):
        s = self.s
        kt = s.choice(["NameProperty", "EnumProperty", "IntProperty", "BoolProperty", "StructProperty"])
        vt = s.choice(["NameProperty", "EnumProperty", "IntProperty", "BoolProperty", "StructProperty"])
        if depth >= self.maxdepth and vt == "StructProperty":
            vt = "IntProperty"
        n = self.count(3)
        if vt == "StructProperty":
            n = min(n, 4)
        # what the format does not say about structs in maps: keys are guids, values are property lists
        ks = "Guid" if kt == "StructProperty" else None
        vs = "StructProperty" if vt == "StructProperty" else None
        return {
            "key_type": kt, "value_type": vt, "key_struct_type": ks, "value_struct_type": vs, "id": self.pid(),
            "value": [
                {"key": self.val_of(kt, ks, depth), "value": self.val_of(vt, vs, depth)} for _ in range(n)
            ],
            "type": "MapProperty",
        }

    # ------------------------------------------------------------- sections
    def extra(self, depth=4, used=()):
        """Sibling properties that no part of the tool knows about."""
        if self.s.chance(1, 5):
            self.labels.add("unknown siblings")
            return self.props(depth, 1 + self.s.draw(2), used)
        return {}

    def mix(self, fixed):
        """Properties in (nearly always) the game's order, with unknown siblings now and then."""
        ex = self.extra(used=fixed)
        if not ex and not self.s.chance(1, 10):
            return fixed
        items = list(fixed.items()) + list(ex.items())
        if self.s.chance(1, 3):
            for i in range(len(items) - 1, 0, -1):
                j = self.s.draw(i + 1)
                items[i], items[j] = items[j], items[i]
        elif ex:
            items = list(ex.items()) + list(fixed.items())
        return dict(items)

    def struct(self, st, value):
        return {"struct_type": st, "struct_id": self.guid() if self.idrate and self.s.chance(1, 6) else ZERO,
                "id": self.pid(), "value": value, "type": "StructProperty"}

    def sguid(self):
        return self.struct("Guid", self.guid())

    def rawprop(self, value, custom=None):
        p = {"array_type": "ByteProperty", "id": self.pid(), "value": value, "type": "ArrayProperty"}
        if custom:
            p["custom_type"] = custom
        return p

    def arrprop(self, name, st, values, custom=None):
        p = {
            "array_type": "StructProperty", "id": self.pid(),
            "value": {"prop_name": name, "prop_type": "StructProperty", "values": values, "type_name": st,
                      "id": self.guid() if self.idrate and self.s.chance(1, 6) else ZERO},
            "type": "ArrayProperty",
        }
        if custom:
            p["custom_type"] = custom
        return p

    def mapprop(self, kt, ks, vt, vs, entries, custom=None):
        p = {
            "key_type": kt, "value_type": vt, "key_struct_type": ks, "value_struct_type": vs, "id": self.pid(),
            "value": [{"key": k, "value": v} for k, v in entries], "type": "MapProperty",
        }
        if custom:
            p["custom_type"] = custom
        return p

    def enum(self, t, v):
        return {"id": self.pid(), "value": {"type": t, "value": v}, "type": "EnumProperty"}

    def rawbytes(self):
        return list(self.s.bytes(P.length(self.s, 300)))

    def n(self):
        """How many entries a section holds."""
        return self.s.weighted([(6, 1), (4, 2), (2, 3), (1, 0), (1, 5)])

    # raw data values ------------------------------------------------------
    def group_value(self):
        s = self.s
        gt = s.weighted(
            [(5, "EPalGroupType::Guild"), (3, "EPalGroupType::IndependentGuild"), (3, "EPalGroupType::Organization"),
             (2, "EPalGroupType::Neutral"), (1, None)]
        )
        if gt is None:
            gt = self.text()
            if gt in M.GROUP:
                gt += "_"
        self.labels.add("group:" + (gt if gt in M.GROUP else "other"))
        v = {"group_type": gt}
        v.update(self.rec(M.GROUP.get(gt, M.GROUP_OTHER)))
        return gt, v

    def sec_GroupSaveDataMap(self):
        entries = []
        for _ in range(self.n()):
            gt, v = self.group_value()
            entries.append((self.guid(), self.mix({"GroupType": self.enum("EPalGroupType", gt), "RawData": self.rawprop(v)})))
        return self.mapprop("StructProperty", "Guid", "StructProperty", "StructProperty", entries, M.W + "GroupSaveDataMap")

    def character_value(self):
        return self.rec(M.CHARACTER)

    def sec_CharacterSaveParameterMap(self):
        path = M.W + "CharacterSaveParameterMap.Value.RawData"
        entries = []
        for _ in range(self.n()):
            key = self.mix({"PlayerUId": self.sguid(), "InstanceId": self.sguid(),
                            "DebugName": {"id": self.pid(), "value": self.text(), "type": "StrProperty"}})
            entries.append((key, self.mix({"RawData": self.rawprop(self.character_value(), path)})))
        return self.mapprop("StructProperty", "StructProperty", "StructProperty", "StructProperty", entries)

    def maybe_none(self, v):
        if self.s.chance(1, 6):
            self.labels.add("empty raw data")
            return None
        return v

    def sec_ItemContainerSaveData(self):
        p1 = M.W + "ItemContainerSaveData.Value.RawData"
        p2 = M.W + "ItemContainerSaveData.Value.Slots.Slots.RawData"
        entries = []
        for _ in range(self.n()):
            slots = []
            for _ in range(self.s.draw(4)):
                slots.append(self.mix({
                    "SlotIndex": self.p_IntProperty(), "StackCount": self.p_IntProperty(),
                    "RawData": self.rawprop(self.maybe_none(self.rec(M.ITEM_SLOT)), p2),
                }))
            entries.append((
                self.mix({"ID": self.sguid()}),
                self.mix({
                    "BelongInfo": self.struct("PalItemContainerBelongInfo", {"GroupID": self.sguid()}),
                    "Slots": self.arrprop("Slots", "PalItemSlotSaveData", slots),
                    "RawData": self.rawprop(self.maybe_none(self.rec(M.ITEM_CONTAINER)), p1),
                }),
            ))
        return self.mapprop("StructProperty", "StructProperty", "StructProperty", "StructProperty", entries)

    def sec_CharacterContainerSaveData(self):
        path = M.W + "CharacterContainerSaveData.Value.Slots.Slots.RawData"
        entries = []
        for _ in range(self.n()):
            slots = [
                self.mix({
                    "IndividualId": self.struct("PalInstanceID", {"PlayerUId": self.sguid(), "InstanceId": self.sguid()}),
                    "PermissionTribeID": self.enum("EPalTribeID", self.text()),
                    "RawData": self.rawprop(self.maybe_none(self.rec(M.CHARACTER_SLOT)), path),
                })
                for _ in range(self.s.draw(4))
            ]
            entries.append((
                self.mix({"ID": self.sguid()}),
                self.mix({
                    "bReferenceSlot": self.p_BoolProperty(),
                    "Slots": self.arrprop("Slots", "PalCharacterSlotSaveData", slots),
                    "RawData": self.rawprop({"values": self.rawbytes()}),
                }),
            ))
        return self.mapprop("StructProperty", "StructProperty", "StructProperty", "StructProperty", entries)

    def dynamic_value(self):
        s = self.s
        kind = s.weighted([(3, "egg"), (3, "armor"), (4, "weapon"), (2, "unknown"), (1, "none")])
        self.labels.add("dynamic item:" + kind)
        if kind == "none":
            return None
        if kind == "unknown":
            v = {"id": self.val(M.DYN_ID), "type": "unknown"}
            v["trailer"] = list(self.unparsable_item())
            return v
        v = self.rec(M.DYNAMIC[kind])
        v["type"] = kind
        if kind != "egg":
            # the kind of an item is not stored: it is an egg if (and only if) it reads as one
            tail = M.e_dynamic(v)[len(M.enc(M.DYN_ID, v["id"])) :]
            if b"None\0" in tail or (kind == "weapon" and len(tail) == 4):
                return self.dynamic_plain()
        return v

    def dynamic_plain(self):
        return {"id": {"created_world_id": ZERO, "local_id_in_created_world": ZERO, "static_id": "Sphere"},
                "type": "armor", "durability": 100.0}

    def unparsable_item(self):
        """Bytes that are neither an egg, an armor (4 bytes) nor a weapon."""
        s = self.s
        r = s.draw(4)
        if r == 0:
            return s.bytes(s.choice([1, 2, 3, 5, 6, 7, 8, 9, 10, 11]))
        if r == 1:  # a weapon with something behind it
            b = s.bytes(8) + M.P_U32(0) + s.bytes(1 + s.draw(6))
        elif r == 2:  # a weapon whose list is cut short
            b = s.bytes(8) + M.P_U32(1 + s.draw(5))
        else:
            b = s.bytes(8) + M.P_U32(3) + M.e_str("Abc") + M.P_I32(50) + s.bytes(s.draw(20))
        return b if b"None\0" not in b else b"\1\2"

    def sec_DynamicItemSaveData(self):
        path = M.W + "DynamicItemSaveData.DynamicItemSaveData.RawData"
        values = [
            self.mix({
                "ID": self.struct("PalDynamicItemId", {"CreatedWorldId": self.sguid(), "LocalIdInCreatedWorld": self.sguid()}),
                "StaticItemId": {"id": self.pid(), "value": self.text(), "type": "NameProperty"},
                "RawData": self.rawprop(self.dynamic_value(), path),
            })
            for _ in range(self.n())
        ]
        return self.arrprop("DynamicItemSaveData", "PalDynamicItemSaveData", values)

    def sec_FoliageGridSaveDataMap(self):
        p1 = M.W + "FoliageGridSaveDataMap.Value.ModelMap.Value.RawData"
        p2 = M.W + "FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value.RawData"
        entries = []
        for _ in range(self.n()):
            models = []
            for _ in range(self.s.draw(3)):
                inst = [
                    (self.mix({"Guid": self.sguid()}), self.mix({"RawData": self.rawprop(self.rec(M.FOLIAGE_INST), p2)}))
                    for _ in range(self.s.draw(4))
                ]
                models.append((
                    self.text(),
                    self.mix({
                        "InstanceDataMap": self.mapprop("StructProperty", "StructProperty", "StructProperty", "StructProperty", inst),
                        "RawData": self.rawprop(self.rec(M.FOLIAGE), p1),
                    }),
                ))
            key = {k: {"id": self.pid(), "value": P.i64(self.s), "type": "Int64Property"} for k in "XYZ"}
            entries.append((self.mix(key), self.mix({"ModelMap": self.mapprop("NameProperty", None, "StructProperty", "StructProperty", models)})))
        return self.mapprop("StructProperty", "StructProperty", "StructProperty", "StructProperty", entries)

    def camp_module(self):
        s = self.s
        kind = s.weighted([(3, "noop"), (4, "transport"), (4, "passive"), (1, "unknown"), (1, "odd"), (1, "rest")])
        self.labels.add("camp module:" + kind)
        if kind == "noop":
            return s.choice(M.CAMP_NOOP), {}
        if kind == "transport":
            return M.CAMP_TRANSPORT, self.rec(M.TRANSPORT)
        if kind == "passive":
            eff = []
            for _ in range(self.count(1)):
                t = s.choice([0, 1, 2, 2])
                e = {"type": t}
                if t == 2:
                    e["work_hard_type"] = P.u8(s)
                    e["unknown_trailer"] = list(s.bytes(4))
                eff.append(e)
            return M.CAMP_PASSIVE, {"passive_effects": eff}
        if kind == "unknown":
            k = s.choice(["EPalBaseCampModuleType::None", "EPalBaseCampModuleType::NewModule", "EPalBaseCampModuleType::energy", ""])
            return k, {"values": self.rawbytes()}
        if kind == "odd":  # an effect type nobody knows: the whole blob stays raw
            return M.CAMP_PASSIVE, {"values": list(M.P_U32(2) + b"\1" + bytes([3 + s.draw(253)]) + s.bytes(s.draw(9)))}
        k = s.choice(M.CAMP_NOOP + [M.CAMP_TRANSPORT])
        return k, {"values": list((b"" if k in M.CAMP_NOOP else M.P_U32(0)) + s.bytes(1 + s.draw(8)))}

    def sec_BaseCampSaveData(self):
        w = M.W + "BaseCampSaveData.Value."
        entries = []
        for _ in range(self.n()):
            mods = []
            for _ in range(self.s.draw(5)):
                k, v = self.camp_module()
                mods.append((k, self.mix({"RawData": self.rawprop(v)})))
            entries.append((
                self.guid(),
                self.mix({
                    "WorkerDirector": self.struct("PalBaseCampSaveData_WorkerDirector", self.mix({"RawData": self.rawprop(self.rec(M.WORKER_DIRECTOR), w + "WorkerDirector.RawData")})),
                    "WorkCollection": self.struct("PalBaseCampSaveData_WorkCollection", self.mix({"RawData": self.rawprop(self.rec(M.WORK_COLLECTION), w + "WorkCollection.RawData")})),
                    "ModuleMap": self.mapprop("EnumProperty", None, "StructProperty", "StructProperty", mods, w + "ModuleMap"),
                    "RawData": self.rawprop(self.rec(M.BASE_CAMP), w + "RawData"),
                }),
            ))
        return self.mapprop("StructProperty", "Guid", "StructProperty", "StructProperty", entries)

    def work_value(self):
        s = self.s
        r = s.draw(12)
        if r < 1:
            wt = s.choice(["EPalWorkableType::Illegal", "EPalWorkableType::CollectItem", "EPalWorkableType::TransportItem",
                           "EPalWorkableType::CollectResource", "EPalWorkableType::progress", "", "Defense"])
            self.labels.add("work:unknown")
            return wt, {"values": self.rawbytes()}
        if r < 3:
            wt = M.WORK_ASSIGN_TYPE
        elif r < 6:
            wt = s.choice(sorted(M.WORK_EXTRA))
        else:
            wt = s.choice(M.WORK_BASE_TYPES)
        self.labels.add("work:" + wt.split("::")[1])
        v = self.rec(M.work_schema(wt))
        t = s.weighted([(3, 1), (3, 2), (3, 3), (1, 0)])
        tr = {"type": t, "v2": 0}
        if t == 1:
            tr.update(self.xform())
        elif t == 2:
            tr["map_object_instance_id"] = self.guid()
        elif t == 3:
            tr["guid"] = self.guid()
            tr["instance_id"] = self.guid()
        else:
            tr["type"] = s.choice([0, 4, 5, 255])
            tr["raw_data"] = self.rawbytes()
        v["transform"] = tr
        return wt, v

    def sec_WorkSaveData(self):
        values = []
        for _ in range(self.n()):
            wt, v = self.work_value()
            assigns = [(P.i32(self.s), self.mix({"RawData": self.rawprop(self.rec(M.WORK_ASSIGN))})) for _ in range(self.s.draw(3))]
            values.append(self.mix({
                "WorkableType": self.enum("EPalWorkableType", wt),
                "WorkAssignMap": self.mapprop("IntProperty", None, "StructProperty", "StructProperty", assigns),
                "RawData": self.rawprop(v),
            }))
        return self.arrprop("WorkSaveData", "PalWorkSaveData", values, M.W + "WorkSaveData")

    def connector_value(self):
        s = self.s
        if s.chance(1, 4):
            return {"values": []}
        v = {"supported_level": P.i32(s), "connect": {"index": P.u8(s), "any_place": self.val(M.arr(M.CONNECT_INFO))}}
        n = s.choice([0, 0, 2, 4, 1, 3, 5])
        if n:
            v["other_connectors"] = [{"index": P.u8(s), "connect": self.val(M.arr(M.CONNECT_INFO))} for _ in range(n)]
        return v

    def concrete_value(self):
        """(MapObjectId, value)"""
        s = self.s
        r = s.draw(12)
        if r == 0:
            self.labels.add("concrete:unknown name")
            n = self.text()
            if s.chance(1, 2):
                n = near_name(s, self.object_id(s.choice(NAME_LIST)))
            while n.lower() in NAMES:
                n += "~"
            b = self.rawbytes()
            return n, {"values": b}
        if r == 1 and RAW_CLASSES:
            self.labels.add("concrete:unknown class")
            return self.object_id(s.choice(BY_CLASS[s.choice(RAW_CLASSES)])), {"values": list(s.bytes(32)) + self.rawbytes()}
        if r == 2:
            self.labels.add("concrete:empty")
            return self.object_id(s.choice(BY_CLASS[s.choice(CLASSES)])), {"values": []}
        if r < 5:
            cls = s.choice(NOOP_CLASSES)
        else:
            cls = s.choice(HANDLED)
        self.labels.add("concrete:" + (cls if cls in M.CONCRETE else "no-op"))
        name = self.object_id(s.choice(BY_CLASS[cls]))
        v = self.rec(M.CONCRETE_BASE)
        v["concrete_model_type"] = cls
        v.update(self.rec(M.CONCRETE.get(cls, [])))
        if cls == M.FARM and s.chance(1, 2):
            v["state_machine"] = self.val(M.FARM_STATE)
        return name, v

    def object_id(self, low):
        k = self.s.draw(4)
        if k == 0:
            return low
        if k == 1:
            return low.upper()
        if k == 2:
            return "_".join(p.capitalize() for p in low.split("_"))
        return "".join(c.upper() if self.s.draw(2) else c for c in low)

    def module_value(self):
        s = self.s
        r = s.draw(10)
        if r < 7:
            k = s.choice(sorted(M.MODULE))
            self.labels.add("module:" + k.split("::")[1])
            return k, self.rec(M.MODULE[k])
        k = s.choice(M.MODULE_EMPTY + ["EPalMapObjectConcreteModelModuleType::New"] + sorted(M.MODULE))
        return k, {"values": []}

    def map_object(self):
        name, cv = self.concrete_value()
        mods = []
        for _ in range(self.s.draw(4)):
            k, v = self.module_value()
            mods.append((k, self.mix({"RawData": self.rawprop(v)})))
        out = {
            "MapObjectId": {"id": self.pid(), "value": name, "type": "NameProperty"},
            "MapObjectInstanceId": self.sguid(),
            "Model": self.struct("PalMapObjectModelSaveData", self.mix({
                "BuildProcess": self.struct("PalMapObjectBuildProcessSaveData", self.mix({"RawData": self.rawprop(self.rec(M.BUILD_PROCESS))})),
                "Connector": self.struct("PalMapObjectConnectorSaveData", self.mix({"RawData": self.rawprop(self.connector_value())})),
                "EffectMap": self.mapprop("EnumProperty", None, "StructProperty", "StructProperty", [(self.text(), self.props(4)) for _ in range(self.s.draw(2))]),
                "RawData": self.rawprop(self.rec(M.MAP_MODEL)),
            })),
            "ConcreteModel": self.struct("PalMapObjectConcreteModelSaveData", self.mix({
                "ModuleMap": self.mapprop("EnumProperty", None, "StructProperty", "StructProperty", mods),
                "RawData": self.rawprop(cv),
            })),
        }
        if self.s.chance(1, 3):
            out = {"WorldLocation": self.struct("Vector", self.vec()), "WorldRotation": self.struct("Quat", self.quat()), **out}
        return self.mix(out)

    def sec_MapObjectSaveData(self):
        return self.arrprop("MapObjectSaveData", "PalMapObjectSaveData", [self.map_object() for _ in range(self.n())], M.W + "MapObjectSaveData")

    def sec_MapObjectSpawnerInStageSaveData(self):
        S = "StructProperty"
        entries = []
        for _ in range(self.n()):
            inner = []
            for _ in range(self.s.draw(3)):
                items = [(P.i32(self.s), self.props(4)) for _ in range(self.s.draw(2))]
                inner.append((self.guid(), self.mix({"ItemMap": self.mapprop("IntProperty", None, S, S, items)})))
            entries.append((
                self.mix({"ID": self.sguid()}),
                self.mix({"SpawnerDataMapByLevelObjectInstanceId": self.mapprop(S, "Guid", S, S, inner)}),
            ))
        return self.mapprop(S, S, S, S, entries)

    def sec_EnemyCampSaveData(self):
        S = "StructProperty"
        entries = [(self.text(), self.props(4)) for _ in range(self.s.draw(3))]
        return self.struct("PalEnemyCampSaveData", self.mix({"EnemyCampStatusMap": self.mapprop("NameProperty", None, S, S, entries)}))

    def sec_DungeonSaveData(self):
        """Map objects of dungeons: the same shape as elsewhere, but never decoded."""
        inner = self.arrprop("MapObjectSaveData", "PalMapObjectSaveData", [self.map_object() for _ in range(self.s.draw(2))], M.W + "MapObjectSaveData")
        inner = M.PLAINFORM[M.W + "MapObjectSaveData"](inner)
        values = [self.mix({"InstanceId": self.sguid(), "MapObjectSaveData": inner})]
        return self.arrprop("DungeonSaveData", "PalDungeonSaveData", values)

    # ------------------------------------------------------------ documents
    def header(self):
        s = self.s
        cls = s.choice(CLASSNAMES) if s.chance(4, 5) else self.text()
        return {
            "magic": 0x53415647, "save_game_version": 3,
            "package_file_version_ue4": P.i32(s) if s.chance(1, 2) else 522,
            "package_file_version_ue5": P.i32(s) if s.chance(1, 2) else 1008,
            "engine_version_major": P.u16(s) if s.chance(1, 2) else 5,
            "engine_version_minor": P.u16(s) if s.chance(1, 2) else 1,
            "engine_version_patch": P.u16(s), "engine_version_changelist": P.u32(s),
            "engine_version_branch": self.text(), "custom_version_format": 3,
            "custom_versions": [[self.guid(), P.i32(s)] for _ in range(self.count(2))],
            "save_game_class_name": cls,
        }

    def trailer(self):
        s = self.s
        if s.chance(4, 5):
            return "AAAAAA=="
        return base64.b64encode(s.bytes(P.length(s, 300))).decode()

    def plain_header(self):
        return {
            "magic": 0x53415647, "save_game_version": 3, "package_file_version_ue4": 522,
            "package_file_version_ue5": 1008, "engine_version_major": 5, "engine_version_minor": 1,
            "engine_version_patch": 1, "engine_version_changelist": 0, "engine_version_branch": "++UE5+Release-5.1",
            "custom_version_format": 3, "custom_versions": [], "save_game_class_name": CLASSNAMES[0],
        }

    def world(self, sections):
        out = {}
        ex = self.props(2, self.s.draw(3)) if self.s.chance(1, 3) else {}
        for name in sections:
            out[name] = getattr(self, "sec_" + name)()
        if self.s.chance(1, 2):
            out.update(ex)
        else:
            out = {**ex, **out}
        return self.struct("PalWorldSaveData", out)

    def doc(self, sections=(), generic=True, header=True):
        props = {}
        if generic:
            props.update(self.props(0))
        if sections:
            props["worldSaveData"] = self.world(sections)
            if generic and self.s.chance(1, 4):
                props = dict(reversed(props.items()))
        return {"header": self.header() if header else self.plain_header(), "properties": props, "trailer": self.trailer()}


def pick_sections(src, only=None, weights=None):
    """A few distinct sections; sections whose module changed in this tree come up more often."""
    pool = list(only or SECTIONS)
    fr = P.fresh()
    hot = []
    for f in fr.files:
        k = os.path.basename(f)[:-3]
        if "rawdata" in f and k in FILE_SECTION and SECTIONS[FILE_SECTION[k]] in pool:
            hot.append(SECTIONS[FILE_SECTION[k]])
    n = src.weighted([(6, 1), (3, 2), (1, 3)])
    out = []
    for _ in range(min(n, len(pool))):
        if hot and src.chance(1, 2):
            c = src.choice(hot)
        else:
            c = src.choice(pool)
        if c not in out:
            out.append(c)
    return out
