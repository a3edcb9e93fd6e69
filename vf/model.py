"""Reference model of the save format.

enc_*: an independent, table-driven encoder from the JSON document (as a user
sees it) to the bytes a save stores.  Nothing here calls the code under test.
"""
import base64
import math
import struct

from vf.pools import guid_unhex

P_I32 = struct.Struct("<i").pack
P_U32 = struct.Struct("<I").pack
P_I64 = struct.Struct("<q").pack
P_U64 = struct.Struct("<Q").pack
P_U16 = struct.Struct("<H").pack
P_F32 = struct.Struct("<f").pack
P_F64 = struct.Struct("<d").pack
NAN32B = bytes.fromhex("0000c07f")
NAN64B = bytes.fromhex("000000000000f87f")


def e_str(s):
    if s == "":
        return b"\0\0\0\0"
    if all(c < "\x80" for c in s) if len(s) < 40 else s.isascii():
        b = s.encode("ascii")
        return P_I32(len(b) + 1) + b + b"\0"
    b = s.encode("utf-16-le", "surrogatepass")
    return P_I32(-(len(b) // 2 + 1)) + b + b"\0\0"


def e_f32(v):
    if v is None or v != v:
        return NAN32B
    return P_F32(v)


def e_f64(v):
    if v is None or v != v:
        return NAN64B
    return P_F64(v)


def e_u8(v):
    return bytes((v,))


def e_b8(v):
    return b"\1" if v else b"\0"


def e_b32(v):
    return b"\1\0\0\0" if v else b"\0\0\0\0"


def e_vec(v):
    return e_f64(v["x"]) + e_f64(v["y"]) + e_f64(v["z"])


def e_quat(v):
    return e_f64(v["x"]) + e_f64(v["y"]) + e_f64(v["z"]) + e_f64(v["w"])


def e_xform(v):
    return e_quat(v["rotation"]) + e_vec(v["translation"]) + e_vec(v["scale3d"])


def e_color(v):
    return e_f32(v["r"]) + e_f32(v["g"]) + e_f32(v["b"]) + e_f32(v["a"])


def e_optguid(v):
    return b"\0" if v is None else b"\1" + guid_unhex(v)


def e_bytes(v):
    return bytes(v)


def e_packed(scale):
    def enc(v):
        c = [v["x"], v["y"], v["z"]]
        c = [math.nan if k is None else k for k in c]
        if all(math.isfinite(k) for k in c) and max(abs(k * scale) for k in c) < 2**62:
            scaled = min(abs(k) for k in c) < 2**52
            n = [round(k * scale) if scaled else round(k) for k in c]
            bits = max((k if k >= 0 else ~k).bit_length() for k in n) + 1
            nb = (bits + 7) // 8
            return P_U32((64 if scaled else 0) | bits) + b"".join(
                (k & ((1 << (8 * nb)) - 1)).to_bytes(nb, "little") for k in n
            )
        return P_U32(64) + b"".join(e_f64(k) for k in c)

    return enc


def e_rotator(v):
    out = []
    for k in ("pitch", "yaw", "roll"):
        n = round(v[k] * 65536 / 360) % 65536
        out.append(b"\1" + P_U16(n) if n else b"\0")
    return b"".join(out)


# ---------------------------------------------------------------- generic properties

LEAF = {
    "IntProperty": P_I32,
    "Int64Property": P_I64,
    "FixedPoint64Property": P_I32,
    "FloatProperty": e_f32,
    "StrProperty": e_str,
    "NameProperty": e_str,
}
STRUCT = {
    "Vector": e_vec,
    "DateTime": P_U64,
    "Guid": guid_unhex,
    "Quat": e_quat,
    "LinearColor": e_color,
}
PLAINVAL = {
    "EnumProperty": e_str,
    "NameProperty": e_str,
    "IntProperty": P_I32,
    "BoolProperty": e_b8,
}
ARRVAL = {
    "EnumProperty": e_str,
    "NameProperty": e_str,
    "Guid": guid_unhex,
    "ByteProperty": e_u8,
    # the writer alone supports these
    "IntProperty": P_I32,
    "Int64Property": P_I64,
    "FloatProperty": e_f32,
    "StrProperty": e_str,
    "BoolProperty": e_b8,
}


def e_structval(t, v):
    f = STRUCT.get(t)
    return f(v) if f else e_props(v)


def e_val(t, st, v):
    if t == "StructProperty":
        return e_structval(st, v)
    return PLAINVAL[t](v)


def e_arrval(at, v):
    vals = v["values"]
    if at == "StructProperty":
        body = b"".join([e_structval(v["type_name"], x) for x in vals])
        return (
            P_U32(len(vals)) + e_str(v["prop_name"]) + e_str(v["prop_type"]) + P_U64(len(body))
            + e_str(v["type_name"]) + guid_unhex(v["id"]) + b"\0" + body
        )
    if at == "ByteProperty":
        return P_U32(len(vals)) + bytes(vals)
    f = ARRVAL[at]
    return P_U32(len(vals)) + b"".join([f(x) for x in vals])


def e_prop(p):
    """type name, size, and the rest of one property (without its name)."""
    t = p["type"]
    if "custom_type" in p:
        p = PLAINFORM[p["custom_type"]](p)
    pid = e_optguid(p.get("id"))
    if t in LEAF:
        head, body = pid, LEAF[t](p["value"])
    elif t == "StructProperty":
        head = e_str(p["struct_type"]) + guid_unhex(p["struct_id"]) + pid
        body = e_structval(p["struct_type"], p["value"])
    elif t == "EnumProperty":
        head, body = e_str(p["value"]["type"]) + pid, e_str(p["value"]["value"])
    elif t == "BoolProperty":
        head, body = e_b8(p["value"]) + pid, b""
    elif t == "ArrayProperty":
        head, body = e_str(p["array_type"]) + pid, e_arrval(p["array_type"], p["value"])
    elif t == "MapProperty":
        head = e_str(p["key_type"]) + e_str(p["value_type"]) + pid
        kt, vt, ks, vs = p["key_type"], p["value_type"], p["key_struct_type"], p["value_struct_type"]
        body = b"\0\0\0\0" + P_U32(len(p["value"])) + b"".join(
            [e_val(kt, ks, x["key"]) + e_val(vt, vs, x["value"]) for x in p["value"]]
        )
    else:
        raise KeyError(t)
    return e_str(t) + P_U64(len(body)) + head + body


NONE_TAG = e_str("None")


def e_props(props):
    out = []
    for k, p in props.items():
        out.append(e_str(k))
        out.append(e_prop(p))
    out.append(NONE_TAG)
    return b"".join(out)


def e_header(h):
    return b"".join(
        [
            P_I32(h["magic"]), P_I32(h["save_game_version"]), P_I32(h["package_file_version_ue4"]),
            P_I32(h["package_file_version_ue5"]), P_U16(h["engine_version_major"]),
            P_U16(h["engine_version_minor"]), P_U16(h["engine_version_patch"]),
            P_U32(h["engine_version_changelist"]), e_str(h["engine_version_branch"]),
            P_I32(h["custom_version_format"]), P_U32(len(h["custom_versions"])),
        ]
        + [guid_unhex(g) + P_I32(n) for g, n in h["custom_versions"]]
        + [e_str(h["save_game_class_name"])]
    )


def encode(doc):
    """The whole file, before compression."""
    return e_header(doc["header"]) + e_props(doc["properties"]) + base64.b64decode(doc["trailer"])


# ---------------------------------------------------------------- raw data schemas
# A schema is a list of (field, type).  A type is a name of ENC, ("arr", type),
# ("rec", schema) or ("raw", n).

ENC = {
    "guid": guid_unhex, "str": e_str, "u8": e_u8, "i32": P_I32, "u32": P_U32, "i64": P_I64, "f32": e_f32,
    "f64": e_f64, "vec": e_vec, "quat": e_quat, "xform": e_xform, "b32": e_b32, "props": e_props,
    "rotator": e_rotator, "packed1": e_packed(1), "rest": e_bytes,
}


def enc(t, v):
    if t.__class__ is str:
        return ENC[t](v)
    k = t[0]
    if k == "arr":
        return P_U32(len(v)) + b"".join([enc(t[1], x) for x in v])
    if k == "rec":
        return b"".join([enc(ft, v[f]) for f, ft in t[1]])
    if k == "raw":
        assert len(v) == t[1]
        return bytes(v)
    raise KeyError(t)


SEGKIND = {"guid": "free", "u8": "free", "i32": "free", "u32": "free", "i64": "free", "rest": "free", "f32": "float",
           "f64": "float", "vec": "float", "quat": "float", "xform": "float", "b32": "flag", "props": "props",
           "rotator": "packed", "packed1": "packed"}


def segments(t, v, out):
    """Appends (kind, bytes) for every piece of the encoding of v."""
    if t.__class__ is str:
        b = ENC[t](v)
        if t == "str":
            out.append(("len", b[:4]))
            if b[4:]:
                out.append(("chars", b[4:]))
        else:
            out.append((SEGKIND[t], b))
    elif t[0] == "arr":
        out.append(("count", P_U32(len(v))))
        for x in v:
            segments(t[1], x, out)
    elif t[0] == "rec":
        for f, ft in t[1]:
            segments(ft, v[f], out)
    else:
        out.append(("free", bytes(v)))


def rec(*fields):
    return ("rec", list(fields))


def arr(t):
    return ("arr", t)


INSTANCE_ID = rec(("guid", "guid"), ("instance_id", "guid"))
INDIVIDUAL = rec(("player_uid", "guid"), ("instance_id", "guid"))
DYNAMIC_ID = rec(("created_world_id", "guid"), ("local_id_in_created_world", "guid"))
ITEM_ID = rec(("static_id", "str"), ("dynamic_id", DYNAMIC_ID))
ITEM_NUM = rec(("item_id", ITEM_ID), ("num", "u32"))
PLAYER_INFO = rec(("last_online_real_time", "i64"), ("player_name", "str"))

_ORG = [("org_type", "u8"), ("base_ids", arr("guid"))]
_GUILD = [
    ("base_camp_level", "i32"),
    ("map_object_instance_ids_base_camp_points", arr("guid")),
    ("guild_name", "str"),
]
_GROUP = [("group_id", "guid"), ("group_name", "str"), ("individual_character_handle_ids", arr(INSTANCE_ID))]
GROUP = {
    "EPalGroupType::Guild": _GROUP + _ORG + _GUILD + [
        ("admin_player_uid", "guid"),
        ("players", arr(rec(("player_uid", "guid"), ("player_info", PLAYER_INFO)))),
    ],
    "EPalGroupType::IndependentGuild": _GROUP + _ORG + _GUILD + [
        ("player_uid", "guid"), ("guild_name_2", "str"), ("player_info", PLAYER_INFO),
    ],
    "EPalGroupType::Organization": _GROUP + _ORG,
}
GROUP_OTHER = _GROUP

CHARACTER = [("object", "props"), ("unknown_bytes", ("raw", 4)), ("group_id", "guid")]
PERMISSION = rec(("type_a", arr("u8")), ("type_b", arr("u8")), ("item_static_ids", arr("str")))
ITEM_CONTAINER = [("permission", PERMISSION)]
ITEM_SLOT = [("permission", PERMISSION), ("corruption_progress_value", "f32")]
CHARACTER_SLOT = [("player_uid", "guid"), ("instance_id", "guid"), ("permission_tribe_id", "u8")]
DYN_ID = rec(("created_world_id", "guid"), ("local_id_in_created_world", "guid"), ("static_id", "str"))
DYNAMIC = {
    "egg": [("id", DYN_ID), ("character_id", "str"), ("object", "props"), ("unknown_bytes", ("raw", 4)), ("unknown_id", "guid")],
    "armor": [("id", DYN_ID), ("durability", "f32")],
    "weapon": [("id", DYN_ID), ("durability", "f32"), ("remaining_bullets", "i32"), ("passive_skill_list", arr("str"))],
    "unknown": [("id", DYN_ID), ("trailer", "rest")],
}
FOLIAGE = [
    ("model_id", "str"), ("foliage_preset_type", "u8"), ("cell_coord", rec(("x", "i64"), ("y", "i64"), ("z", "i64"))),
]
FOLIAGE_INST = [
    ("model_instance_id", "guid"),
    ("world_transform", rec(("rotator", "rotator"), ("location", "packed1"), ("scale_x", "f32"))),
    ("hp", "i32"),
]
BASE_CAMP = [
    ("id", "guid"), ("name", "str"), ("state", "u8"), ("transform", "xform"), ("area_range", "f32"),
    ("group_id_belong_to", "guid"), ("fast_travel_local_transform", "xform"), ("owner_map_object_instance_id", "guid"),
]
WORKER_DIRECTOR = [
    ("id", "guid"), ("spawn_transform", "xform"), ("current_order_type", "u8"), ("current_battle_type", "u8"),
    ("container_id", "guid"),
]
WORK_COLLECTION = [("id", "guid"), ("work_ids", arr("guid"))]

CAMP_NOOP = [
    "EPalBaseCampModuleType::Energy", "EPalBaseCampModuleType::Medical", "EPalBaseCampModuleType::ResourceCollector",
    "EPalBaseCampModuleType::ItemStorages", "EPalBaseCampModuleType::FacilityReservation",
    "EPalBaseCampModuleType::ObjectMaintenance",
]
CAMP_TRANSPORT = "EPalBaseCampModuleType::TransportItemDirector"
CAMP_PASSIVE = "EPalBaseCampModuleType::PassiveEffect"
TRANSPORT = [
    ("transport_item_character_infos", arr(rec(("item_infos", arr(ITEM_NUM)), ("character_location", "vec")))),
]


def e_passive(v):
    out = [P_U32(len(v["passive_effects"]))]
    for p in v["passive_effects"]:
        out.append(e_u8(p["type"]))
        if p["type"] == 2:
            out.append(e_u8(p["work_hard_type"]) + bytes(p["unknown_trailer"]))
    return b"".join(out)


def e_camp_module(v, key):
    if "values" in v:
        return bytes(v["values"])
    if key in CAMP_NOOP:
        return b""
    if key == CAMP_TRANSPORT:
        return enc(rec(*TRANSPORT), v)
    return e_passive(v)


WORK_BASE_TYPES = [
    "EPalWorkableType::" + k
    for k in (
        "Progress TransportItemInBaseCamp ReviveCharacter LevelObject Repair Defense BootUp OnlyJoin "
        "OnlyJoinAndWalkAround RemoveMapObjectEffect MonsterFarm"
    ).split()
]
WORK_ASSIGN_TYPE = "EPalWorkableType::Assign"
WORK_BASE = [
    ("id", "guid"),
    ("workable_bounds", rec(
        ("location", "vec"), ("rotation", "quat"),
        ("box_sphere_bounds", rec(("origin", "vec"), ("box_extent", "vec"), ("sphere_radius", "f64"))))),
    ("base_camp_id_belong_to", "guid"), ("owner_map_object_model_id", "guid"),
    ("owner_map_object_concrete_model_id", "guid"), ("current_state", "u8"),
    ("assign_locations", arr(rec(("location", "vec"), ("facing_direction", "vec")))),
    ("behaviour_type", "u8"), ("assign_define_data_id", "str"), ("override_work_type", "u8"),
    ("assignable_fixed_type", "u8"), ("assignable_otomo", "b32"), ("can_trigger_worker_event", "b32"),
    ("can_steal_assign", "b32"),
]
WORK_EXTRA = {
    "EPalWorkableType::Defense": [("defense_combat_type", "u8")],
    "EPalWorkableType::Progress": [
        ("required_work_amount", "f32"), ("work_exp", "i32"), ("current_work_amount", "f32"),
        ("auto_work_self_amount_by_sec", "f32"),
    ],
    "EPalWorkableType::ReviveCharacter": [("target_individual_id", INDIVIDUAL)],
}
WORK_ASSIGN_ONLY = [
    ("handle_id", "guid"), ("location_index", "i32"), ("assign_type", "u8"), ("assigned_individual_id", INDIVIDUAL),
    ("state", "u8"), ("fixed", "u32"),
]
WORK_ASSIGN = [
    ("id", "guid"), ("location_index", "i32"), ("assign_type", "u8"), ("assigned_individual_id", INDIVIDUAL),
    ("state", "u8"), ("fixed", "b32"),
]


def work_schema(wt):
    if wt in WORK_BASE_TYPES:
        return WORK_BASE + WORK_EXTRA.get(wt, [])
    if wt == WORK_ASSIGN_TYPE:
        return WORK_ASSIGN_ONLY
    return None


def e_work_transform(t):
    k = t["type"]
    if k == 1:
        if "v2" not in t:  # documents of older releases
            return b"\1" + e_vec(t["location"]) + e_quat(t["rotation"]) + e_vec(t["scale"])
        return b"\1" + e_xform(t)
    if k == 2:
        return b"\2" + guid_unhex(t["map_object_instance_id"])
    if k == 3:
        return b"\3" + guid_unhex(t["guid"]) + guid_unhex(t["instance_id"])
    return bytes((k,)) + bytes(t["raw_data"])


def e_work(v, wt):
    if "values" in v:
        return bytes(v["values"])
    return enc(rec(*work_schema(wt)), v) + e_work_transform(v["transform"])


MAP_MODEL = [
    ("instance_id", "guid"), ("concrete_model_instance_id", "guid"), ("base_camp_id_belong_to", "guid"),
    ("group_id_belong_to", "guid"), ("hp", rec(("current", "i32"), ("max", "i32"))),
    ("initital_transform_cache", "xform"), ("repair_work_id", "guid"),
    ("owner_spawner_level_object_instance_id", "guid"), ("owner_instance_id", "guid"), ("build_player_uid", "guid"),
    ("interact_restrict_type", "u8"), ("stage_instance_id_belong_to", rec(("id", "guid"), ("valid", "b32"))),
    ("created_at", "i64"),
]
BUILD_PROCESS = [("state", "u8"), ("id", "guid")]
CONNECT_INFO = rec(("connect_to_model_instance_id", "guid"), ("index", "u8"))


def e_connector(v):
    if "values" in v:
        return bytes(v["values"])
    out = P_I32(v["supported_level"]) + e_u8(v["connect"]["index"]) + enc(arr(CONNECT_INFO), v["connect"]["any_place"])
    for o in v.get("other_connectors", ()):
        out += e_u8(o["index"]) + enc(arr(CONNECT_INFO), o["connect"])
    return out


MODULE = {
    "EPalMapObjectConcreteModelModuleType::ItemContainer": [
        ("target_container_id", "guid"),
        ("slot_attribute_indexes", arr(rec(("attribute", "u8"), ("indexes", arr("i32"))))),
        ("all_slot_attribute", arr("u8")), ("drop_item_at_disposed", "b32"), ("usage_type", "u8"),
    ],
    "EPalMapObjectConcreteModelModuleType::CharacterContainer": [("target_container_id", "guid")],
    "EPalMapObjectConcreteModelModuleType::Workee": [("target_work_id", "guid")],
    "EPalMapObjectConcreteModelModuleType::Switch": [("switch_state", "u8")],
    "EPalMapObjectConcreteModelModuleType::PasswordLock": [
        ("lock_state", "u8"), ("password", "str"),
        ("player_infos", arr(rec(("player_uid", "guid"), ("try_failed_count", "i32"), ("try_success_cache", "b32")))),
    ],
}
MODULE_EMPTY = [
    "EPalMapObjectConcreteModelModuleType::" + k
    for k in ("None", "Energy", "StatusObserver", "ItemStack", "PlayerRecord", "BaseCampPassiveEffect")
]

CONCRETE_BASE = [("instance_id", "guid"), ("model_instance_id", "guid")]
CONCRETE = {
    "PalMapObjectDeathDroppedCharacterModel": [("stored_parameter_id", "guid"), ("owner_player_uid", "guid")],
    "PalMapObjectConvertItemModel": [
        ("current_recipe_id", "str"), ("remain_product_num", "i32"), ("requested_product_num", "i32"),
        ("work_speed_additional_rate", "f32"),
    ],
    "PalMapObjectPickupItemOnLevelModel": [("auto_picked_up", "b32")],
    "PalMapObjectDropItemModel": [("auto_picked_up", "b32"), ("item_id", ITEM_ID)],
    "PalMapObjectItemDropOnDamagModel": [("drop_item_infos", arr(ITEM_NUM))],
    "PalMapObjectDeathPenaltyStorageModel": [("owner_player_uid", "guid")],
    "PalMapObjectDefenseBulletLauncherModel": [
        ("remaining_bullets", "i32"), ("magazine_size", "i32"), ("bullet_item_name", "str"),
    ],
    "PalMapObjectGenerateEnergyModel": [("stored_energy_amount", "f32")],
    "PalMapObjectFarmBlockV2Model": [
        ("crop_data_id", "str"), ("current_state", "u8"), ("crop_progress_rate_value", "f32"),
        ("water_stack_rate_value", "f32"),
    ],
    "PalMapObjectFastTravelPointModel": [("location_instance_id", "guid")],
    "PalMapObjectShippingItemModel": [("shipping_hours", arr("i32"))],
    "PalMapObjectProductItemModel": [("work_speed_additional_rate", "f32"), ("product_item_id", "str")],
    "PalMapObjectRecoverOtomoModel": [("recover_amount_by_sec", "f32")],
    "PalMapObjectHatchingEggModel": [
        ("hatched_character_save_parameter", "props"), ("unknown_bytes", "u32"), ("hatched_character_guid", "guid"),
    ],
    "PalMapObjectTreasureBoxModel": [("treasure_grade_type", "u8")],
    "PalMapObjectBreedFarmModel": [("spawned_egg_instance_ids", arr("guid"))],
    "PalMapObjectSignboardModel": [("signboard_text", "str")],
    "PalMapObjectTorchModel": [("extinction_date_time", "i64")],
    "PalMapObjectPalEggModel": [("unknown_bytes", "u32")],
    "PalMapObjectBaseCampPoint": [("base_camp_id", "guid")],
}
FARM = "PalMapObjectFarmBlockV2Model"
FARM_STATE = rec(("growup_required_time", "f32"), ("growup_progress_time", "f32"))


def e_concrete(v):
    if "values" in v:
        return bytes(v["values"])
    c = v["concrete_model_type"]
    out = enc(rec(*(CONCRETE_BASE + CONCRETE.get(c, []))), v)
    if c == FARM and "state_machine" in v:
        out += enc(FARM_STATE, v["state_machine"])
    return out


def e_module(v, key):
    if "values" in v:
        return bytes(v["values"])
    return enc(rec(*MODULE.get(key, [])), v)


def e_group(v, group_type):
    if "values" in v:
        return bytes(v["values"])
    return enc(rec(*GROUP.get(group_type, GROUP_OTHER)), v)


def e_dynamic(v):
    return enc(rec(*DYNAMIC[v["type"]]), v)


# ------------------------------------------------- decoded property -> plain property


def _raw(p, b):
    """A copy of the byte-array property p holding the bytes b."""
    q = dict(p)
    q["value"] = {"values": list(b)}
    q.pop("custom_type", None)
    return q


def _simple(schema):
    t = rec(*schema)

    def f(p):
        v = p["value"]
        return _raw(p, b"" if v is None else bytes(v["values"]) if "values" in v else enc(t, v))

    return f


def _dyn(p):
    v = p["value"]
    return _raw(p, b"" if v is None else e_dynamic(v))


def _map_values(p, fn):
    q = dict(p)
    q.pop("custom_type", None)
    q["value"] = [{"key": e["key"], "value": fn(e["key"], e["value"])} for e in p["value"]]
    return q


def _with(d, **kw):
    """d with replaced entries, order kept."""
    return {k: kw.get(k, v) for k, v in d.items()}


def _group(p):
    def fn(key, v):
        gt = v["GroupType"]["value"]["value"]
        return _with(v, RawData=_raw(v["RawData"], e_group(v["RawData"]["value"], gt)))

    return _map_values(p, fn)


def _camp_modules(p):
    return _map_values(p, lambda key, v: _with(v, RawData=_raw(v["RawData"], e_camp_module(v["RawData"]["value"], key))))


def _elements(p, fn):
    q = dict(p)
    q.pop("custom_type", None)
    q["value"] = dict(p["value"])
    q["value"]["values"] = [fn(v) for v in p["value"]["values"]]
    return q


def _work(p):
    def assign(key, v):
        return _with(v, RawData=_raw(v["RawData"], e_work_assign(v["RawData"]["value"])))

    def fn(v):
        wt = v["WorkableType"]["value"]["value"]
        return _with(
            v,
            RawData=_raw(v["RawData"], e_work(v["RawData"]["value"], wt)),
            WorkAssignMap=_map_values(v["WorkAssignMap"], assign),
        )

    return _elements(p, fn)


def e_work_assign(v):
    return enc(rec(*WORK_ASSIGN), v)


def _sub(p, **kw):
    q = dict(p)
    q["value"] = _with(p["value"], **kw)
    return q


def _map_object(p):
    def rawof(q, b):
        return _sub(q, RawData=_raw(q["value"]["RawData"], b))

    def fn(v):
        m, c = v["Model"], v["ConcreteModel"]
        mv, cv = m["value"], c["value"]
        mr = mv["RawData"]["value"]
        bp = mv["BuildProcess"]["value"]["RawData"]["value"]
        m2 = _sub(
            m,
            RawData=_raw(mv["RawData"], bytes(mr["values"]) if "values" in mr else enc(rec(*MAP_MODEL), mr)),
            Connector=rawof(mv["Connector"], e_connector(mv["Connector"]["value"]["RawData"]["value"])),
            BuildProcess=rawof(
                mv["BuildProcess"], bytes(bp["values"]) if "values" in bp else enc(rec(*BUILD_PROCESS), bp)
            ),
        )
        c2 = _sub(
            c,
            RawData=_raw(cv["RawData"], e_concrete(cv["RawData"]["value"])),
            ModuleMap=_map_values(
                cv["ModuleMap"],
                lambda key, x: _with(x, RawData=_raw(x["RawData"], e_module(x["RawData"]["value"], key))),
            ),
        )
        return _with(v, Model=m2, ConcreteModel=c2)

    return _elements(p, fn)


W = ".worldSaveData."
PLAINFORM = {
    W + "GroupSaveDataMap": _group,
    W + "CharacterSaveParameterMap.Value.RawData": _simple(CHARACTER),
    W + "ItemContainerSaveData.Value.RawData": _simple(ITEM_CONTAINER),
    W + "ItemContainerSaveData.Value.Slots.Slots.RawData": _simple(ITEM_SLOT),
    W + "CharacterContainerSaveData.Value.Slots.Slots.RawData": _simple(CHARACTER_SLOT),
    W + "DynamicItemSaveData.DynamicItemSaveData.RawData": _dyn,
    W + "FoliageGridSaveDataMap.Value.ModelMap.Value.RawData": _simple(FOLIAGE),
    W + "FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value.RawData": _simple(FOLIAGE_INST),
    W + "BaseCampSaveData.Value.RawData": _simple(BASE_CAMP),
    W + "BaseCampSaveData.Value.WorkerDirector.RawData": _simple(WORKER_DIRECTOR),
    W + "BaseCampSaveData.Value.WorkCollection.RawData": _simple(WORK_COLLECTION),
    W + "BaseCampSaveData.Value.ModuleMap": _camp_modules,
    W + "WorkSaveData": _work,
    W + "MapObjectSaveData": _map_object,
}
CUSTOM_PATHS = list(PLAINFORM)


def undecode(x, keep):
    """The document with every decoded property whose path is not in keep in plain form."""
    if x.__class__ is dict:
        ct = x.get("custom_type")
        if ct.__class__ is str and ct in PLAINFORM and "type" in x:
            if ct not in keep:
                x = PLAINFORM[ct](x)
        return {k: undecode(v, keep) for k, v in x.items()}
    if x.__class__ is list:
        if x and x[0].__class__ not in (dict, list):
            return x
        return [undecode(v, keep) for v in x]
    return x


# ---------------------------------------------------------------- comparing documents


def same(a, b, path="$"):
    """None if the documents are equal, else where they differ. NaN equals NaN, -0.0 differs from 0.0,
    true differs from 1; the order of object members is not compared."""
    ca, cb = a.__class__, b.__class__
    if ca is dict:
        if cb is not dict:
            return f"{path}: expected an object, got {_sh(b)}"
        if a.keys() != b.keys():
            miss = [k for k in a if k not in b]
            more = [k for k in b if k not in a]
            return f"{path}: missing members {_sh(miss)}, unexpected members {_sh(more)}"
        for k, v in a.items():
            r = same(v, b[k], path + "." + k)
            if r:
                return r
        return None
    if ca is list or ca is tuple:
        if cb is not list and cb is not tuple:
            return f"{path}: expected an array, got {_sh(b)}"
        if len(a) != len(b):
            return f"{path}: expected {len(a)} elements, got {len(b)}"
        if a == b and (not a or a[0].__class__ is int or a[0].__class__ is str):
            if all(x.__class__ is y.__class__ for x, y in zip(a, b)):
                return None
        for i, v in enumerate(a):
            r = same(v, b[i], f"{path}[{i}]")
            if r:
                return r
        return None
    if ca is bool or cb is bool or a is None or b is None or ca is str or cb is str:
        return None if a is b or (ca is cb and a == b) else f"{path}: expected {_sh(a)}, got {_sh(b)}"
    if ca in (int, float) and cb in (int, float):
        if a == b:
            if a == 0 and (ca is float and math.copysign(1, a) < 0) != (cb is float and math.copysign(1, b) < 0):
                return f"{path}: expected {a!r}, got {b!r}"
            return None
        if a != a and b != b:
            return None
        return f"{path}: expected {a!r}, got {b!r}"
    return f"{path}: expected {_sh(a)}, got {_sh(b)}"


def _sh(x):
    s = repr(x)
    return s if len(s) < 160 else s[:140] + "..."
