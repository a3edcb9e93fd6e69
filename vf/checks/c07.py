from vf import common as C
from vf import edits as E
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage

RAW_SECTIONS = [s for s in G.SECTIONS if s not in ("MapObjectSpawnerInStageSaveData", "EnemyCampSaveData", "DungeonSaveData")]


def world(g, sections):
    return {"header": g.plain_header(), "properties": {"worldSaveData": g.struct("PalWorldSaveData", sections)}, "trailer": "AAAAAA=="}


def anybytes(src, lo=0):
    n = lo + P.length(src, 600)
    r = src.draw(4)
    if r == 0:
        return [0] * n
    if r == 1:
        return [255] * n
    return list(src.bytes(n))


def new_name(g, known):
    """A name close to, but not among, the known ones."""
    s = g.s
    k = s.choice(known)
    r = s.draw(8)
    n = G.near_name(s, k) if r == 7 else [k + "2", k[:-1], k + " ", "New" + k, k.replace("::", ":"), g.text(), k.swapcase() + "_"][r]
    if n in known or n.lower() in {x.lower() for x in known}:
        n += "_New"
    return n


def unknown(src, i, case):
    g = G.Gen(src, budget=20)
    kind = i % 7
    S = "StructProperty"
    raw = None
    if kind == 0:  # a map object nobody knows
        name = new_name(g, sorted(G.NAMES))
        mo = g.map_object()
        mo["MapObjectId"]["value"] = name
        mo["ConcreteModel"]["value"]["RawData"]["value"] = {"values": anybytes(src)}
        d = world(g, {"MapObjectSaveData": g.arrprop("MapObjectSaveData", "PalMapObjectSaveData", [mo], M.W + "MapObjectSaveData")})
    elif kind == 1:  # a listed map object of a class without a decoder
        cls = src.choice(G.RAW_CLASSES or G.NOOP_CLASSES)
        mo = g.map_object()
        mo["MapObjectId"]["value"] = g.object_id(src.choice(G.BY_CLASS[cls]))
        mo["ConcreteModel"]["value"]["RawData"]["value"] = {"values": anybytes(src, 32)} if cls in G.RAW_CLASSES else {"values": []}
        d = world(g, {"MapObjectSaveData": g.arrprop("MapObjectSaveData", "PalMapObjectSaveData", [mo], M.W + "MapObjectSaveData")})
    elif kind == 2:  # base camp modules
        known = M.CAMP_NOOP + [M.CAMP_TRANSPORT, M.CAMP_PASSIVE]
        k = new_name(g, known)
        v = {"values": anybytes(src)}
        d = camp(g, k, v)
    elif kind == 3:  # known base camp module, contents nobody knows
        k = src.choice(M.CAMP_NOOP + [M.CAMP_TRANSPORT, M.CAMP_PASSIVE])
        if k in M.CAMP_NOOP:
            b = anybytes(src, 1)
        elif k == M.CAMP_TRANSPORT:
            b = list(src.choice([M.P_U32(0) + src.bytes(1 + src.draw(40)), M.P_U32(1 + src.draw(5)), src.bytes(src.draw(4)), M.P_U32(9) + src.bytes(5)]))
        else:
            b = list(src.choice([
                M.P_U32(1) + bytes([3 + src.draw(253)]) + src.bytes(src.draw(12)),
                M.P_U32(2) + b"\2" + src.bytes(5) + bytes([3 + src.draw(253)]) + src.bytes(src.draw(9)),
                M.P_U32(1 + src.draw(9)), src.bytes(src.draw(4)), M.P_U32(1) + b"\0" + src.bytes(1 + src.draw(9)),
            ]))
        d = camp(g, k, {"values": b})
    elif kind == 4:  # work nobody knows
        wt = new_name(g, M.WORK_BASE_TYPES + [M.WORK_ASSIGN_TYPE])
        d = work(g, wt, {"values": anybytes(src)})
    elif kind == 5:  # a placement nobody knows
        while True:
            wt, v = g.work_value()
            if "transform" in v:
                break
        v["transform"] = {"type": src.choice([0, 4, 5, 6, 127, 128, 254, 255]), "v2": 0, "raw_data": anybytes(src)}
        d = work(g, wt, v)
    else:  # an item nobody knows
        v = {"id": g.val(M.DYN_ID), "type": "unknown", "trailer": list(g.unparsable_item())}
        d = world(g, {"DynamicItemSaveData": g.arrprop("DynamicItemSaveData", "PalDynamicItemSaveData", [
            {"RawData": g.rawprop(v, M.W + "DynamicItemSaveData.DynamicItemSaveData.RawData")}])})
    raw = M.encode(d)
    C.note(case, raw, ["unknown kind %d" % kind], C.show(d, 900))
    C.check_lossless(d, raw)


def camp(g, k, v):
    S = "StructProperty"
    mods = g.mapprop("EnumProperty", None, S, S, [(k, {"RawData": g.rawprop(v)})], M.W + "BaseCampSaveData.Value.ModuleMap")
    return world(g, {"BaseCampSaveData": g.mapprop(S, "Guid", S, S, [(g.guid(), {"ModuleMap": mods})])})


def work(g, wt, v):
    S = "StructProperty"
    e = {"WorkableType": g.enum("EPalWorkableType", wt), "WorkAssignMap": g.mapprop("IntProperty", None, S, S, []), "RawData": g.rawprop(v)}
    return world(g, {"WorkSaveData": g.arrprop("WorkSaveData", "PalWorkSaveData", [e], M.W + "WorkSaveData")})


def judge(d, raw, what):
    """Refused, or reproduced."""
    try:
        doc = T.sav_doc(raw)
        back = T.doc_raw(doc)
    except Exception:
        return False
    if back != raw:
        C.fail(f"{what}: accepted and written back differently: " + T.first_diff(raw, back), d, raw)
    return True


def raw_lists(x, path=(), out=None):
    """Paths of all byte arrays named RawData in a plain document."""
    out = [] if out is None else out
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "RawData" and isinstance(v, dict) and v.get("array_type") == "ByteProperty":
                out.append(path + (k,))
            else:
                raw_lists(v, path + (k,), out)
    elif isinstance(x, list) and x and isinstance(x[0], dict):
        for i, v in enumerate(x):
            raw_lists(v, path + (i,), out)
    return out


def one_world(src, i):
    g = G.Gen(src, budget=40)
    sec = RAW_SECTIONS[i % len(RAW_SECTIONS)]
    d = world(g, {sec: getattr(g, "sec_" + sec)()})
    return g, sec, d


def cut_extend(src, i, case):
    g, sec, d = one_world(src, i)
    plain = M.undecode(d, ())
    blobs = raw_lists(plain["properties"], ("properties",))
    if not blobs:
        return
    path = src.choice(blobs)
    p = E.at(plain, path)
    b = p["value"]["values"]
    if src.chance(1, 2) and b:
        n = len(b)
        cut = src.choice([1, 2, 4, 8, 16, 1 + src.draw(n), 1 + src.draw(n)])
        p["value"] = {"values": b[: max(0, n - cut)]}
        what = f"raw data of {sec} cut by {cut} of {n} bytes"
        label = "cut"
    else:
        k = src.choice([1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64])
        z = src.draw(2)
        p["value"] = {"values": list(b) + ([0] * k if z else [2 + src.draw(0x7C) for _ in range(k)])}
        what = f"raw data of {sec} extended by {k} bytes"
        label = "extended"
    raw = M.encode(plain)
    ok = judge(d, raw, what)
    C.note(case, raw, [label + (" accepted" if ok else " refused")], {"what": what, "path": "/".join(map(str, path))})


def altered(src, i, case):
    g, sec, d = one_world(src, i)
    blobs = [x for x in E.Walk(d).blobs if x[1]]
    if not blobs:
        return
    path, schema = src.choice(blobs)
    v = E.at(d, path)["value"]
    segs = []
    M.segments(M.rec(*schema), v, segs)
    plain = M.undecode(d, ())
    p = E.at(plain, path)
    b = bytearray(p["value"]["values"])
    at = 0
    spots = []
    for n, (kind, s) in enumerate(segs):
        if bytes(b[at : at + len(s)]) != s:
            raise AssertionError("segments out of step")
        if kind in ("free", "len", "count") and s:
            spots.append((n, kind, at, s))
        at += len(s)
    if not spots:
        return
    special = [x for x in spots if x[1] != "free"]
    n, kind, at, s = src.choice(special) if special and src.chance(2, 3) else src.choice(spots)
    total = len(b)
    if kind == "free":
        j = at + src.draw(len(s))
        b[j] ^= 1 + src.draw(255)
        what = f"byte {j} of raw data of {sec}"
    elif kind == "len":
        new = src.choice([0x7FFFFFFF, -0x7FFFFFFF, -0x80000000, total + 1, total * 2, -(total + 1), 0x10000, -0x10000, total - at - 3])
        if abs(new) <= total - at - 4:
            new = total
        b[at : at + 4] = M.P_I32(new)
        what = f"text length of raw data of {sec} set to {new}"
    else:
        new = src.choice([0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, total + 1, 0x01000000, total * 3])
        last = n == len(segs) - 1 or all(k != "props" for k, _ in segs[n:])
        if s != M.P_U32(0) and n == count_tail(segs) and src.chance(1, 2):
            new = int.from_bytes(s, "little") - 1
        b[at : at + 4] = M.P_U32(new)
        what = f"entry count of raw data of {sec} set from {int.from_bytes(s, 'little')} to {new}"
    p["value"] = {"values": list(b)}
    raw = M.encode(plain)
    ok = judge(d, raw, what)
    C.note(case, raw, ["altered %s %s" % (kind, "accepted" if ok else "refused")], {"what": what, "path": "/".join(map(str, path))})


def count_tail(segs):
    """Index of the count of a list of fixed-size entries that ends the blob, or None."""
    i = len(segs) - 1
    while i >= 0 and segs[i][0] == "free":
        i -= 1
    return i if i >= 0 and segs[i][0] == "count" else None


def wrong_kind(src, i, case):
    """Data of one kind marked as another: refused or reproduced."""
    g = G.Gen(src, budget=20)
    kind = i % 3
    S = "StructProperty"
    if kind == 0:
        gt = src.choice(["EPalGroupType::Guild", "EPalGroupType::IndependentGuild", "EPalGroupType::Organization"])
        to = src.choice(["EPalGroupType::Organization", "EPalGroupType::Neutral", "EPalGroupType::None", "x"])
        if to == gt:
            to = "EPalGroupType::Neutral"
        v = {"group_type": gt, **g.rec(M.GROUP[gt])}
        b = list(M.e_group(v, gt))
        e = {"GroupType": g.enum("EPalGroupType", to), "RawData": g.rawprop({"values": b})}
        plain = world(g, {"GroupSaveDataMap": g.mapprop(S, "Guid", S, S, [(g.guid(), e)])})
        what = f"data of {gt} marked {to}"
    elif kind == 1:
        mo = g.map_object()
        free = [c for c in G.CLASSES if all(t in ("guid", "u8", "u32", "i64", "i32") for _, t in M.CONCRETE.get(c, []))]
        a, c = src.choice(G.CLASSES), src.choice(free)
        v = {**g.rec(M.CONCRETE_BASE), "concrete_model_type": a, **g.rec(M.CONCRETE.get(a, []))}
        mo["ConcreteModel"]["value"]["RawData"]["value"] = {"values": list(M.e_concrete(v))}
        mo["MapObjectId"]["value"] = src.choice(G.BY_CLASS[c])
        plain = M.undecode(world(g, {"MapObjectSaveData": g.arrprop("MapObjectSaveData", "X", [mo], M.W + "MapObjectSaveData")}), ())
        what = f"data of {a} under the name of a {c}"
    else:
        mo = g.map_object()
        a = src.choice(sorted(M.MODULE))
        c = src.choice(M.MODULE_EMPTY + ["EPalMapObjectConcreteModelModuleType::" + k for k in ("CharacterContainer", "Workee", "Switch", "New", "")])
        b = list(M.e_module(g.rec(M.MODULE[a]), a)) if src.draw(2) else anybytes(src, 1)
        mo["ConcreteModel"]["value"]["ModuleMap"]["value"] = [{"key": c, "value": {"RawData": g.rawprop({"values": b})}}]
        plain = M.undecode(world(g, {"MapObjectSaveData": g.arrprop("MapObjectSaveData", "X", [mo], M.W + "MapObjectSaveData")}), ())
        what = f"data of module {a} marked {c}"
    raw = M.encode(plain)
    ok = judge(plain, raw, what)
    C.note(case, raw, ["wrong kind " + ("accepted" if ok else "refused")], what)


CHECK = Check(
    "C07",
    "a case is a world save holding one unrecognised or damaged raw data blob; non-trivial: the blob was damaged and "
    "the save was either refused or written back and compared byte for byte",
    [
        Stage("unknown", unknown, 14000, 150000, "unknown map objects, modules, work, effects, items, placements"),
        Stage("cut or extended", cut_extend, 20000, 300000, "recognised raw data cut short or extended"),
        Stage("altered", altered, 16000, 250000, "plain bytes changed, lengths and counts made impossible"),
        Stage("wrong kind", wrong_kind, 8000, 80000, "data of one kind marked as another"),
    ],
)
