"""Oracles shared by several checks."""
import json
import zlib

from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Violation


def show(doc, n=1600):
    try:
        s = json.dumps(doc, default=str)
    except Exception:
        s = repr(doc)
    return s if len(s) <= n else s[: n - 30] + f" ...({len(s)} chars)"


def fail(msg, doc=None, raw=None):
    case = {}
    if doc is not None:
        case["document"] = show(doc, 6000)
    if raw is not None:
        case["save_hex"] = raw.hex() if len(raw) <= 6000 else raw[:6000].hex() + "..."
    raise Violation(msg, case or None)


def note(case, key, labels=(), sample=None, nontrivial=True):
    case.key = key
    case.nontrivial = nontrivial
    case.labels = list(labels)
    case.sample = sample


def pack(raw, save_type=0x32, level=1):
    """Reference container."""
    c = zlib.compress(raw, level)
    n = len(c)
    if save_type == 0x32:
        c = zlib.compress(c, level)
    return len(raw).to_bytes(4, "little") + n.to_bytes(4, "little") + b"PlZ" + bytes([save_type]) + c


def unpack(sav):
    """Reference reading of a container: (payload, type) or an exception."""
    if sav[8:11] == b"CNK":
        sav = sav[12:]
    n, c = int.from_bytes(sav[0:4], "little"), int.from_bytes(sav[4:8], "little")
    assert sav[8:11] == b"PlZ", "magic"
    t = sav[11]
    body = sav[12:]
    if t == 0x32:
        body = zlib.decompress(body)
    assert c == len(body), "compressed length"
    raw = zlib.decompress(body)
    assert n == len(raw), "uncompressed length"
    return raw, t


def check_lossless(doc, raw):
    got = T.must("reading a well-formed save failed", T.sav_doc, raw)
    back = T.must("writing the unedited document failed", T.doc_raw, got)
    if back != raw:
        fail("save -> JSON -> save changed the save: " + T.first_diff(raw, back), doc, raw)


def check_shown(doc, raw, **kw):
    got = T.must("reading a well-formed save failed", T.sav_doc, raw, **kw)
    d = M.same(doc, got)
    if d:
        fail("the JSON document differs from what the save stores: " + d, doc, raw)
    return got


def check_stored(doc, raw):
    """doc -> save must be exactly raw (a copy of doc is consumed)."""
    back = T.must("writing a valid document failed", T.doc_raw, clone(doc))
    if back != raw:
        fail("the written save differs from what the document says: " + T.first_diff(raw, back), doc, raw)


def clone(x):
    if x.__class__ is dict:
        return {k: clone(v) for k, v in x.items()}
    if x.__class__ is list:
        if x and x[0].__class__ in (int, str):
            return x[:]
        return [clone(v) for v in x]
    return x


def any_doc(src, only=None, budget=60, generic=None, finite=False, header=None):
    g = G.Gen(src, budget=budget, finite=finite)
    kind = src.draw(10)
    if only is None and kind < 3:
        secs = []
    else:
        secs = G.pick_sections(src, only)
    gen = (not secs) or (src.chance(1, 3) if generic is None else generic)
    d = g.doc(secs, gen, src.chance(1, 4) if header is None else header)
    g.labels.update("section:" + s for s in secs)
    if gen:
        g.labels.add("generic properties")
    return g, d


SWEEP_KINDS = [
    "ascii", "utf16", "mixed", "bytes", "names", "guids", "vectors", "structs", "map", "mapstruct", "props", "depth",
    "name", "enum", "versions", "classname", "trailer", "group_name", "handles", "players", "item_ids", "work_ids",
    "raw_unknown", "slots", "structtype", "array_name", "sign", "nested_arrays", "connectors", "passive", "skills",
]
SMALL_SIZES = list(range(0, 300)) + P.LONG
BIG_SIZES = P.HUGE + [100000, 131071, 131072, 131073, 262144, 300000]


def sweep_doc(src, kind, n):
    """A document in which one thing has size n."""
    g = G.Gen(src, budget=0)
    g.idrate = 0
    d = {"header": g.plain_header(), "properties": {}, "trailer": "AAAAAA=="}
    pr = d["properties"]

    def s_ascii(k):
        m = P.ascii_word(src)
        return (m * (k // len(m) + 1))[:k]

    def s_utf16(k):
        m = src.choice(["\u3042\u3044", "\xe9", "\u0416a", "\U0001f600"])
        t = (m * (k // len(m) + 1))[:k]
        return t if not t or not t.isascii() else t[:-1] + "\xff"

    W = lambda secs: pr.__setitem__("worldSaveData", {"struct_type": "PalWorldSaveData", "struct_id": G.ZERO, "id": None, "value": secs, "type": "StructProperty"})
    S = "StructProperty"
    intp = lambda v=1: {"id": None, "value": v, "type": "IntProperty"}
    if kind == "ascii":
        pr["A"] = {"id": None, "value": s_ascii(n), "type": src.choice(["StrProperty", "NameProperty"])}
    elif kind == "utf16":
        pr["A"] = {"id": None, "value": s_utf16(n), "type": src.choice(["StrProperty", "NameProperty"])}
    elif kind == "mixed":
        t = list(s_ascii(n))
        if t:
            t[src.draw(n)] = "\xe9"
        pr["A"] = {"id": None, "value": "".join(t), "type": "StrProperty"}
    elif kind == "bytes":
        pr["A"] = g.rawprop({"values": list((src.bytes(min(n, 64)) * (n // 64 + 1))[:n])})
    elif kind in ("names", "guids"):
        at = "Guid" if kind == "guids" else src.choice(["NameProperty", "EnumProperty"])
        v = [g.guid() if at == "Guid" else P.ascii_word(src) for _ in range(min(n, 8))]
        v = [v[i % len(v)] for i in range(n)]
        pr["A"] = {"array_type": at, "id": None, "value": {"values": v}, "type": "ArrayProperty"}
    elif kind in ("vectors", "structs"):
        if kind == "vectors":
            st = src.choice(["Vector", "Guid", "DateTime", "Quat", "LinearColor"])
            v = [g.structval(st, 0) for _ in range(min(n, 5))]
        else:
            st = "PalThing"
            v = [{"X": intp(i)} for i in range(min(n, 5))]
        pr["A"] = g.arrprop("A", st, [v[i % len(v)] for i in range(n)])
    elif kind == "map":
        kt = src.choice(["NameProperty", "IntProperty"])
        pr["A"] = g.mapprop(kt, None, "IntProperty", None, [(i if kt == "IntProperty" else "k%d" % i, i) for i in range(n)])
    elif kind == "mapstruct":
        pr["A"] = g.mapprop(S, "Guid", S, S, [(g.guid() if i < 20 else G.ZERO, {"X": intp(i)}) for i in range(n)])
    elif kind == "props":
        for i in range(n):
            pr["P%d" % i] = intp(i)
    elif kind == "depth":
        cur = pr
        for i in range(min(n, 60)):
            nxt = {}
            cur["S"] = {"struct_type": "T", "struct_id": G.ZERO, "id": None, "value": nxt, "type": S}
            cur["X"] = intp(i)
            cur = nxt
    elif kind == "name":
        pr[src.choice([s_ascii, s_utf16])(max(1, n)) + ""] = intp()
    elif kind == "enum":
        pr["A"] = {"id": None, "value": {"type": s_ascii(n), "value": src.choice([s_ascii, s_utf16])(n)}, "type": "EnumProperty"}
    elif kind == "versions":
        d["header"]["custom_versions"] = [[g.guid() if i < 20 else G.ZERO, i] for i in range(n)]
    elif kind == "classname":
        d["header"]["save_game_class_name"] = src.choice([s_ascii, s_utf16])(n)
        d["header"]["engine_version_branch"] = src.choice([s_ascii, s_utf16])(n)
    elif kind == "trailer":
        import base64

        d["trailer"] = base64.b64encode((src.bytes(min(n, 64)) * (n // 64 + 1))[:n]).decode()
    elif kind in ("group_name", "handles", "players"):
        gt = "EPalGroupType::Guild"
        v = {"group_type": gt, **g.rec(M.GROUP[gt])}
        if kind == "group_name":
            v["group_name"] = src.choice([s_ascii, s_utf16])(n)
        elif kind == "handles":
            e = g.val(M.INSTANCE_ID)
            v["individual_character_handle_ids"] = [e] * n
            v["base_ids"] = [e["guid"]] * n
        else:
            v["players"] = [{"player_uid": G.ZERO, "player_info": {"last_online_real_time": i, "player_name": "p%d" % i}} for i in range(n)]
        W({"GroupSaveDataMap": g.mapprop(S, "Guid", S, S, [(G.ZERO, {"GroupType": g.enum("EPalGroupType", gt), "RawData": g.rawprop(v)})], M.W + "GroupSaveDataMap")})
    elif kind in ("item_ids", "slots"):
        v = {"permission": {"type_a": [1] * (n if src.draw(2) else 1), "type_b": [i % 256 for i in range(n)], "item_static_ids": ["i%d" % i for i in range(n if kind == "item_ids" else 1)]}}
        slots = [{"SlotIndex": intp(i), "RawData": g.rawprop(None, M.W + "ItemContainerSaveData.Value.Slots.Slots.RawData")} for i in range(n if kind == "slots" else 1)]
        W({"ItemContainerSaveData": g.mapprop(S, S, S, S, [({"ID": g.sguid()}, {"Slots": g.arrprop("Slots", "PalItemSlotSaveData", slots), "RawData": g.rawprop(v, M.W + "ItemContainerSaveData.Value.RawData")})])})
    elif kind in ("work_ids", "passive"):
        w = M.W + "BaseCampSaveData.Value."
        val = {"WorkCollection": g.struct("X", {"RawData": g.rawprop({"id": g.guid(), "work_ids": [g.guid() if i < 9 else G.ZERO for i in range(n)]}, w + "WorkCollection.RawData")})}
        eff = [{"type": i % 2} for i in range(n)]
        val["ModuleMap"] = g.mapprop("EnumProperty", None, S, S, [(M.CAMP_PASSIVE, {"RawData": g.rawprop({"passive_effects": eff})})], w + "ModuleMap")
        W({"BaseCampSaveData": g.mapprop(S, "Guid", S, S, [(G.ZERO, val)])})
    elif kind == "raw_unknown":
        w = M.W + "BaseCampSaveData.Value."
        W({"BaseCampSaveData": g.mapprop(S, "Guid", S, S, [(G.ZERO, {"ModuleMap": g.mapprop("EnumProperty", None, S, S, [("EPalBaseCampModuleType::New", {"RawData": g.rawprop({"values": list((src.bytes(64) * (n // 64 + 1))[:n])})})], w + "ModuleMap")})])})
    elif kind == "structtype":
        pr["A"] = g.struct("T" + s_ascii(n), {"X": intp()})
    elif kind == "array_name":
        pr["A"] = g.arrprop(src.choice([s_ascii, s_utf16])(n), "T" + s_ascii(n), [{"X": intp()}])
    elif kind in ("sign", "connectors"):
        mo = g.map_object()
        if kind == "sign":
            mo["MapObjectId"]["value"] = "signboard"
            mo["ConcreteModel"]["value"]["RawData"]["value"] = {
                "instance_id": G.ZERO, "model_instance_id": G.ZERO, "concrete_model_type": "PalMapObjectSignboardModel",
                "signboard_text": src.choice([s_ascii, s_utf16])(n)}
            if G.NAMES.get("signboard") != "PalMapObjectSignboardModel":
                mo["MapObjectId"]["value"] = G.BY_CLASS["PalMapObjectSignboardModel"][0]
        else:
            mo["Model"]["value"]["Connector"]["value"]["RawData"]["value"] = {
                "supported_level": 1, "connect": {"index": 0, "any_place": [{"connect_to_model_instance_id": G.ZERO, "index": i % 256} for i in range(n)]},
                "other_connectors": [{"index": i % 256, "connect": []} for i in range(max(1, min(n, 40)))]}
        W({"MapObjectSaveData": g.arrprop("MapObjectSaveData", "PalMapObjectSaveData", [mo], M.W + "MapObjectSaveData")})
    elif kind == "nested_arrays":
        inner = g.arrprop("B", "T", [{"Y": intp(i)} for i in range(min(n, 60))])
        pr["A"] = g.arrprop("A", "T", [{"B": inner} for _ in range(min(n, 12))])
    elif kind == "skills":
        v = {"id": g.val(M.DYN_ID), "type": "weapon", "durability": 1.0, "remaining_bullets": n, "passive_skill_list": ["s%d" % i for i in range(n)]}
        W({"DynamicItemSaveData": g.arrprop("DynamicItemSaveData", "PalDynamicItemSaveData", [{"RawData": g.rawprop(v, M.W + "DynamicItemSaveData.DynamicItemSaveData.RawData")}])})
    else:
        raise KeyError(kind)
    return d


def sweep_pick(src, i):
    """Kind and size of sweep case i: all kinds, sizes stratified; every 40th case is big."""
    kind = SWEEP_KINDS[i % len(SWEEP_KINDS)]
    fr = P.fresh()
    if fr.ints and src.chance(1, 3):
        k = abs(src.choice(fr.ints)) * src.weighted([(4, 1), (1, 2)]) + src.weighted([(3, 0), (1, 1), (1, -1)])
        if 0 <= k <= 140000:
            return kind, k if kind in CHEAP or k <= 4200 else k % 4200
    if (i // len(SWEEP_KINDS)) % 20 == 19:
        n = src.choice(BIG_SIZES)
        if kind not in CHEAP:
            n = src.choice([1000, 4096, 4097, 5000])
        return kind, n
    n = src.choice(SMALL_SIZES)
    return kind, n


CHEAP = {"ascii", "utf16", "mixed", "bytes", "name", "enum", "classname", "trailer", "group_name", "raw_unknown", "structtype", "array_name", "sign"}


def section_case(sections, want):
    """A stage over world saves with the given sections: shown, reproduced, and stored after edits to decoded fields."""
    from vf import edits as E

    def fn(src, i, case):
        g, d = any_doc(src, only=sections, generic=False, header=False, budget=80)
        raw = M.encode(d)
        note(case, raw, g.labels, show(d))
        got = check_shown(d, raw)
        back = T.must("writing the unedited document failed", T.doc_raw, clone(got))
        if back != raw:
            fail("writing the section back changed it: " + T.first_diff(raw, back), d, raw)
        log = []
        for _ in range(src.draw(3)):
            e = E.pick(g, d, lambda s: "value" in s[1] and s[1][0] == "properties" and s[0] != "props")
            if e is None:
                continue
            what, f = e
            f(d)
            try:
                f(got)
            except (KeyError, IndexError, TypeError, AttributeError) as x:
                fail(f"the document lacks what the save stores: cannot {what} ({x!r})", d, raw)
            log.append(what)
        if log:
            case.labels.append("edited")
            raw = M.encode(d)
            back = T.must(f"writing the document failed after: {log}", T.doc_raw, got)
            if back != raw:
                fail(f"after {log} the written save differs from the document: " + T.first_diff(raw, back), d, raw)

    return fn


def one_section_case(section, method):
    """Cheap, targeted: a world with a single entry of one section."""

    def fn(src, i, case):
        g = G.Gen(src, budget=30)
        sec = section[i % len(section)]
        g.n = lambda: 1
        d = {"header": g.plain_header(), "properties": {"worldSaveData": g.world([sec])}, "trailer": "AAAAAA=="}
        raw = M.encode(d)
        note(case, raw, g.labels, show(d, 700))
        got = check_shown(d, raw)
        back = T.must("writing the unedited document failed", T.doc_raw, got)
        if back != raw:
            fail("writing the section back changed it: " + T.first_diff(raw, back), d, raw)

    return fn


def section_sizes(kinds):
    def fn(src, i, case):
        kind = kinds[i % len(kinds)]
        _, n = sweep_pick(src, 0)
        if kind not in CHEAP:
            n = n % 4200
        d = sweep_doc(src, kind, n)
        raw = M.encode(d)
        note(case, raw, ["size of " + kind], f"{kind} of size {n}")
        got = check_shown(d, raw)
        back = T.must("writing the unedited document failed", T.doc_raw, got)
        if back != raw:
            fail("writing the section back changed it: " + T.first_diff(raw, back), d, raw)

    return fn


# ---------------------------------------------------------------- deep nests, built without recursion

def deep_nest(src, n):
    """Properties nested n levels deep and their stored bytes; both made from the inside outwards."""
    p = {"Leaf": {"id": None, "value": src.draw(1000), "type": "IntProperty"}}
    b = M.e_props(p)
    mixed = src.draw(3) == 0
    kind = src.draw(3)
    zero = "00000000-0000-0000-0000-000000000000"
    t = src.choice(["Deep", "D", "Nest\u65b0"])
    name = src.choice(["S", "Inner", "None_"])
    E = M.e_str
    tag = lambda ty, head, body: E(name) + E(ty) + M.P_U64(len(body)) + head + body
    side = src.draw(3) == 0
    for _ in range(n):
        if mixed:
            kind = src.draw(3)
        if kind == 0:
            q = {"struct_type": t, "struct_id": zero, "id": None, "value": p, "type": "StructProperty"}
            b = tag("StructProperty", E(t) + b"\0" * 17, b)
        elif kind == 1:
            q = {"array_type": "StructProperty", "id": None, "type": "ArrayProperty",
                 "value": {"prop_name": name, "prop_type": "StructProperty", "values": [p], "type_name": t, "id": zero}}
            b = tag("ArrayProperty", E("StructProperty") + b"\0",
                    M.P_U32(1) + E(name) + E("StructProperty") + M.P_U64(len(b)) + E(t) + b"\0" * 17 + b)
        else:
            # without a hint, the structs that are map values are property lists
            q = {"key_type": "IntProperty", "value_type": "StructProperty", "id": None, "type": "MapProperty",
                 "key_struct_type": None, "value_struct_type": "StructProperty", "value": [{"key": 7, "value": p}]}
            b = tag("MapProperty", E("IntProperty") + E("StructProperty") + b"\0", M.P_U32(0) + M.P_U32(1) + M.P_I32(7) + b)
        p = {name: q}
        if side:
            p["Z"] = {"id": None, "value": True, "type": "BoolProperty"}
            b += M.e_str("Z") + M.e_prop(p["Z"])
        b += M.NONE_TAG
    return p, b


def deep_same(a, b):
    """Whether two documents of any depth are equal (no recursion)."""
    todo = [(a, b)]
    while todo:
        a, b = todo.pop()
        if isinstance(a, dict):
            if not isinstance(b, dict) or a.keys() != b.keys():
                return False
            todo += [(v, b[k]) for k, v in a.items()]
        elif isinstance(a, (list, tuple)):
            if not isinstance(b, (list, tuple)) or len(a) != len(b):
                return False
            todo += list(zip(a, b))
        elif isinstance(b, T.UUID):
            if str(b) != a:
                return False
        elif a.__class__ is not b.__class__ or a != b:
            return False
    return True


def deep_depth(src):
    return src.choice([1 + src.draw(40), 60 + src.draw(240), 100 + src.draw(100), 300 + src.draw(700), 1000 + src.draw(1000)])


def deep_doc(src):
    n = deep_depth(src)
    p, b = deep_nest(src, n)
    d = {"header": G.Gen(src, budget=1).plain_header(), "properties": p, "trailer": "AAAAAA=="}
    return n, d, M.e_header(d["header"]) + b + b"\0" * 4
