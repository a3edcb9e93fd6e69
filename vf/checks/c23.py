import json

from vf import common as C
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage, Violation

S = "StructProperty"
NAMES = ["A", "B", "C", "Key", "Value", "key", "A.B", "a", "Slots", "RawData", "\u00c4", "AA", "B ", "values"]
ANY_STRUCT = ["Guid", S, "Vector", "DateTime", "Quat", "LinearColor", "PalThing", "guid"]


class PathGen(G.Gen):
    """Documents in which the struct types of maps are whatever the table of hints says for their path."""

    def __init__(self, src, **kw):
        super().__init__(src, **kw)
        self.path = ""
        self.hints = {}
        self.free = set()  # paths of struct maps without a hint

    def name(self, used):
        for _ in range(4):
            n = self.s.choice(NAMES)
            if n not in used:
                return n
        return super().name(used)

    def props(self, depth=0, n=None, used=()):
        out = {}
        base = self.path
        if n is None:
            n = self.s.draw(4) if depth else 1 + self.s.draw(5)
        for _ in range(n):
            if self.left <= 0:
                break
            k = self.name(set(out) | set(used))
            self.path = None if base is None else base + "." + k
            out[k] = self.prop(depth)
        self.path = base
        return out

    def prop(self, depth):
        self.left -= 1
        t = self.s.weighted(
            [(1, "IntProperty"), (1, "StrProperty"), (1, "EnumProperty"), (1, "BoolProperty"), (1, "FloatProperty"), (1, "NameProperty"),
             (1, "Int64Property"), (1, "FixedPoint64Property"), (8, "StructProperty"), (7, "ArrayProperty"), (10, "MapProperty")]
        )
        return getattr(self, "p_" + t)(depth)

    def struct_type(self, depth):
        if depth < self.maxdepth and self.s.draw(3):
            return self.s.choice(["PalThing", S, "PalContainerId"])
        return super().struct_type(depth)

    def hint(self, path, default, depth):
        if path is None or path in self.free:
            return default
        if path in self.hints:
            return self.hints[path]
        if self.s.draw(2):
            self.free.add(path)
            return default
        self.hints[path] = self.s.choice(ANY_STRUCT)
        return self.hints[path]

    def p_ArrayProperty(self, depth=0):
        s = self.s
        if not s.draw(3):
            return super().p_ArrayProperty(depth) if self.path is None else self.flat_array()
        st = self.struct_type(depth)
        name = s.choice(NAMES)
        base = self.path
        self.path = None if base is None else base + "." + name
        v = [self.structval(st, depth) for _ in range(s.draw(4))]
        self.path = base
        return {"array_type": S, "id": self.pid(),
                "value": {"prop_name": name, "prop_type": S, "values": v, "type_name": st, "id": G.ZERO}, "type": "ArrayProperty"}

    def flat_array(self):
        s = self.s
        if s.draw(2):
            return {"array_type": "ByteProperty", "id": self.pid(), "value": {"values": list(s.bytes(s.draw(9)))}, "type": "ArrayProperty"}
        return {"array_type": "NameProperty", "id": self.pid(), "value": {"values": [self.text() for _ in range(s.draw(3))]}, "type": "ArrayProperty"}

    def p_MapProperty(self, depth=0):
        s = self.s
        kt = s.choice(["NameProperty", "IntProperty", S, S, S])
        vt = s.choice(["EnumProperty", "BoolProperty", S, S, S])
        if depth >= self.maxdepth:
            vt = "IntProperty"
        base = self.path
        kp, vp = (None, None) if base is None else (base + ".Key", base + ".Value")
        ks = self.hint(kp, "Guid", depth) if kt == S else None
        vs = self.hint(vp, S, depth) if vt == S else None
        entries = []
        for _ in range(s.draw(4)):
            self.path = kp
            k = self.val_of(kt, ks, depth)
            self.path = vp
            entries.append({"key": k, "value": self.val_of(vt, vs, depth)})
        self.path = base
        return {"key_type": kt, "value_type": vt, "key_struct_type": ks, "value_struct_type": vs, "id": self.pid(), "value": entries, "type": "MapProperty"}

    def g_props(self):
        # the paths inside a raw data blob start afresh
        base, self.path = self.path, ""
        v = self.props(1)
        self.path = base
        return v


def decoys(src, paths, kind):
    """Entries next to the real paths, which must have no effect."""
    out = {}
    for _ in range(src.draw(4)):
        p = src.choice(sorted(paths)) if paths else ".A"
        q = src.choice([p + ".", p.lower() + "x", p[1:], "." + p, p + " ", p.rsplit(".", 1)[0], p + ".Key", p + ".Value", p + "." + p[1:], "", p.upper() + "~", p[:-1], *(v for v in (p.lower(), p.upper(), p.swapcase(), p.casefold(), p.title()) if v not in paths)])
        out[q] = src.choice(ANY_STRUCT) if kind == "hint" else None
    return out


# ------------------------------------------------------------------ the model of where decoders apply


def walk(props, path, table, calls, blobs=None):
    """The property list as shown with the decoders of `table`; appends (path, type, size) of every call."""
    out = {}
    for k, p in props.items():
        out[k] = one(p, path + "." + k, table, calls, blobs)
    return out


def struct_parts(st, v, path, table, calls, blobs):
    return v if st in M.STRUCT else walk(v, path, table, calls, blobs)


def inner(x, table, calls, blobs):
    if x.__class__ is dict:
        return {
            k: walk(v, "", table, calls, blobs) if k in ("object", "hatched_character_save_parameter") else inner(v, table, calls, blobs)
            for k, v in x.items()
        }
    if x.__class__ is list:
        return [inner(v, table, calls, blobs) for v in x]
    return x


def one(p, path, table, calls, blobs):
    t = p["type"]
    if "custom_type" in p:  # raw data holding a property list of its own, paths afresh
        q = dict(p)
        q["value"] = inner(p["value"], table, calls, blobs)
        return q
    style = table.get(path)
    if style is not None:
        enc = M.e_prop(p)
        n = len(M.e_str(t))
        size = int.from_bytes(enc[n : n + 8], "little")
        calls.append((path, t, size))
        if style == "skip":
            body = enc[len(enc) - size :] if size else b""
            return {"opaque": enc[n + 8 : len(enc) - size].hex(), "body": body.hex(), "custom_type": path, "type": t}
    q = dict(p)
    v = p["value"]
    if t == S:
        q["value"] = struct_parts(p["struct_type"], v, path, table, calls, blobs)
    elif t == "ArrayProperty" and p["array_type"] == S:
        q["value"] = dict(v)
        q["value"]["values"] = [struct_parts(v["type_name"], x, path + "." + v["prop_name"], table, calls, blobs) for x in v["values"]]
    elif t == "MapProperty":
        q["value"] = [
            {
                "key": struct_parts(p["key_struct_type"], e["key"], path + ".Key", table, calls, blobs) if p["key_type"] == S else e["key"],
                "value": struct_parts(p["value_struct_type"], e["value"], path + ".Value", table, calls, blobs) if p["value_type"] == S else e["value"],
            }
            for e in v
        ]
    if style == "wrap":
        q = {"wrapped": q["value"], **{k: x for k, x in q.items() if k != "value"}}
        q["custom_type"] = path
    return q


def all_paths(doc):
    class Every(dict):
        def get(self, k, d=None):
            seen.append(k)
            return None

    seen = []
    walk(doc["properties"], "", Every(), [])
    return seen


# ------------------------------------------------------------------ decoders as a user writes them


def codecs(table, log_r, log_w):
    def skip_decode(reader, type_name, size, path):
        log_r.append((path, type_name, size))
        w = T.archive.FArchiveWriter()
        if type_name in (S, "ArrayProperty", "EnumProperty"):
            w.fstring(reader.fstring())
            if type_name == S:
                w.guid(reader.guid())
        elif type_name == "MapProperty":
            w.fstring(reader.fstring())
            w.fstring(reader.fstring())
        elif type_name == "BoolProperty":
            w.bool(reader.bool())
        w.optional_guid(reader.optional_guid())
        return {"opaque": w.bytes().hex(), "body": bytes(reader.read(size)).hex()}

    def skip_encode(writer, property_type, p):
        log_w.append((p["custom_type"], property_type))
        b = bytes.fromhex(p["body"])
        writer.write(bytes.fromhex(p["opaque"]) + b)
        return len(b)

    def wrap_decode(reader, type_name, size, path):
        log_r.append((path, type_name, size))
        v = reader.property(type_name, size, path, nested_caller_path=path)
        v["wrapped"] = v.pop("value")
        return v

    def wrap_encode(writer, property_type, p):
        log_w.append((p["custom_type"], property_type))
        del p["custom_type"]
        p["value"] = p.pop("wrapped")
        return writer.property_inner(property_type, p)

    pairs = {"skip": (skip_decode, skip_encode), "wrap": (wrap_decode, wrap_encode)}
    return {p: pairs[s] for p, s in table.items()}


def read(raw, hints, custom, src):
    if not hints and not custom and src.draw(2):
        f = T.GvasFile.read(raw)
    elif not custom and src.draw(2):
        f = T.GvasFile.read(raw, hints)
    else:
        f = T.GvasFile.read(raw, hints, custom)
    return json.loads(json.dumps(f.dump(), cls=T.Encoder))


def hints_case(src, i, case):
    g = PathGen(src, budget=40)
    d = {"header": g.plain_header(), "properties": g.props(0), "trailer": "AAAAAA=="}
    raw = M.encode(d)
    table = {k: v for k, v in decoys(src, set(g.hints) | g.free, "hint").items() if k not in g.free}
    table.update(g.hints)
    used = [p for p in g.hints if p in table]
    C.note(case, raw + repr(sorted(table.items())).encode(), ["%d hints" % min(len(used), 6), "%d maps without" % min(len(g.free), 6)],
           {"hints": table, "without": sorted(g.free)}, bool(g.hints or g.free))
    before = dict(table)
    got = T.must(f"reading with the hints {table} failed", read, raw, table, {}, src)
    r = M.same(d, got)
    if r:
        C.fail(f"with the hints {table} the document differs: {r}", d, raw)
    if table != before:
        C.fail("the caller's table of hints was changed", d, raw)
    if src.chance(1, 8):
        marked(src, got, src.choice([{}, {}, T.CUSTOM]), "")
    f = T.GvasFile.load(got)
    back = T.must("writing failed", (lambda: f.write()) if src.draw(2) else (lambda: f.write({})))
    if back != raw:
        C.fail("the save changed: " + T.first_diff(raw, back), d, raw)


def props_of(x, out):
    if x.__class__ is dict:
        if x.get("type", "").__class__ is str and x.get("type", "").endswith("Property") and "value" in x:
            out.append(x)
            if x["type"] == "EnumProperty" and x["value"].__class__ is dict:
                return out  # its value has a "type" and "value" too, but is no property
        for v in x.values():
            props_of(v, out)
    elif x.__class__ is list:
        for v in x:
            props_of(v, out)
    return out


def marked(src, doc, custom, what):
    """One property of the document marked for a decoder that is not in the table."""
    doc = C.clone(doc)
    ps = [p for p in props_of(doc["properties"], []) if "custom_type" not in p]
    if not ps:
        return
    p = src.choice(ps)
    mark = src.choice([".A", ".NoSuch", "A", ".worldSaveData.GroupSaveDataMap", ".worldSaveData", "." + P.text(src, 20)])
    if mark in custom:
        return
    p["custom_type"] = mark
    try:
        T.GvasFile.load(doc).write(custom)
    except Exception:
        pass
    else:
        C.fail(f"{what}a {p['type']} marked for the decoder {mark!r}, which is not supplied, was written")


def run_decoders(src, case, d, hints, builtin):
    raw = M.encode(d)
    paths = all_paths(d)
    if not paths:
        C.note(case, raw, nontrivial=False)
        return
    table = {}
    for _ in range(1 + src.draw(4)):
        p = src.choice(paths)
        if p not in table:
            table[p] = src.choice(["skip", "wrap"])
    near = [p for p in decoys(src, set(paths), "decoder") if p not in paths]
    want_calls = []
    want = dict(d)
    want["properties"] = walk(d["properties"], "", table, want_calls)
    log_r, log_w = [], []
    full = dict(table)
    full.update((p, src.choice(["skip", "wrap"])) for p in near)
    custom = codecs(full, log_r, log_w)
    if builtin:
        custom = {**T.CUSTOM, **custom}
    C.note(case, raw + repr(sorted(full.items())).encode(),
           ["%d calls" % min(len(want_calls), 9)] + sorted({full[c[0]] + ":" + c[1] for c in want_calls}), {"decoders": full, "calls": want_calls[:9]}, bool(want_calls))
    keys = list(custom)
    what = f"decoders at {full}"
    f = T.must(f"reading with {what} failed", T.GvasFile.read, raw, hints, custom)
    if log_r != want_calls:
        C.fail(f"with {what} the calls were {T.short(repr(log_r))}, expected {T.short(repr(want_calls))}", d, raw)
    got = json.loads(json.dumps(f.dump(), cls=T.Encoder))
    r = M.same(want, got)
    if r:
        C.fail(f"with {what} the document differs: {r}", d, raw)
    if list(custom) != keys:
        C.fail("the caller's table of decoders was changed", d, raw)
    # a document marked for a decoder nobody supplies must not be written
    if want_calls and src.chance(1, 4):
        miss = src.choice(want_calls)[0]
        fewer = {k: v for k, v in custom.items() if k != miss}
        try:
            T.GvasFile.load(C.clone(got)).write(fewer)
        except Exception:
            pass
        else:
            C.fail(f"a document marked for the decoder at {miss} was written without it", d, raw)
        log_w.clear()
    if src.chance(1, 6):
        marked(src, got, custom, f"with {what}: ")
        log_w.clear()
    back = T.must(f"writing with {what} failed", T.GvasFile.load(got).write, custom)
    if back != raw:
        C.fail(f"with {what} the save changed: " + T.first_diff(raw, back), d, raw)
    if sorted(log_w) != sorted((p, t) for p, t, _ in want_calls):
        C.fail(f"with {what} the encoders called were {T.short(repr(log_w))}, expected {T.short(repr(want_calls))}", d, raw)


def decoders(src, i, case):
    g = PathGen(src, budget=40)
    d = {"header": g.plain_header(), "properties": g.props(0), "trailer": "AAAAAA=="}
    run_decoders(src, case, d, g.hints, src.chance(1, 4))


def blobs(src, i, case):
    """Hints and decoders inside the raw data of characters, eggs and hatching eggs, next to the built-in ones."""
    g = PathGen(src, budget=40)
    g.path = None
    sec = src.choice(["CharacterSaveParameterMap", "DynamicItemSaveData", "MapObjectSaveData"])
    if sec == "CharacterSaveParameterMap":
        path = M.W + "CharacterSaveParameterMap.Value.RawData"
        entries = []
        for _ in range(1 + src.draw(3)):
            key = {"PlayerUId": g.sguid(), "InstanceId": g.sguid()}
            entries.append((key, {"RawData": g.rawprop({"object": g.g_props(), "unknown_bytes": list(src.bytes(4)), "group_id": g.guid()}, path)}))
        body = g.mapprop(S, S, S, S, entries)
    elif sec == "DynamicItemSaveData":
        path = M.W + "DynamicItemSaveData.DynamicItemSaveData.RawData"
        vals = [{"RawData": g.rawprop({"type": "egg", **g.rec(M.DYNAMIC["egg"])}, path)} for _ in range(1 + src.draw(3))]
        body = g.arrprop("DynamicItemSaveData", "PalDynamicItemSaveData", vals)
    else:
        cls = "PalMapObjectHatchingEggModel"
        vals = []
        for _ in range(1 + src.draw(2)):
            mo = g.map_object()
            mo["MapObjectId"]["value"] = G.BY_CLASS[cls][0]
            mo["ConcreteModel"]["value"]["RawData"]["value"] = {**g.rec(M.CONCRETE_BASE), "concrete_model_type": cls, **g.rec(M.CONCRETE[cls])}
            vals.append(mo)
        body = g.arrprop(sec, "PalMapObjectSaveData", vals, M.W + sec)
    pr = {"worldSaveData": g.struct("PalWorldSaveData", {sec: body})}
    g.path = ""
    top = g.props(0, src.draw(3), ["worldSaveData"])
    d = {"header": g.plain_header(), "properties": {**top, **pr} if src.draw(2) else {**pr, **top}, "trailer": "AAAAAA=="}
    hints = {**T.HINTS, **g.hints}
    if i % 2:
        raw = M.encode(d)
        C.note(case, raw + repr(sorted(g.hints.items())).encode(), ["blob hints:" + sec], {"hints": g.hints}, bool(g.hints))
        got = T.must(f"reading with the hints {g.hints} failed", T.sav_doc, raw, T.CUSTOM, True, hints)
        r = M.same(d, got)
        if r:
            C.fail(f"with the hints {g.hints} the document differs: {r}", d, raw)
        back = T.must("writing failed", T.doc_raw, got)
        if back != raw:
            C.fail("the save changed: " + T.first_diff(raw, back), d, raw)
    else:
        run_decoders(src, case, d, hints, True)


CHECK = Check(
    "C23",
    "a case is a generated document and a generated table of struct type hints or of decoders (with decoy entries next to real paths); "
    "non-trivial: a struct map or at least one decoder call occurs; calls, document and bytes were compared with the model",
    [
        Stage("hints", hints_case, 36000, 500000, "tables of hints"),
        Stage("decoders", decoders, 36000, 500000, "tables of decoders"),
        Stage("blobs", blobs, 12000, 200000, "inside the raw data of characters and eggs, next to the built-in tables"),
    ],
)
