import json
import math
import struct

from vf import cli
from vf import common as C
from vf import edits as E
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage

INF = float("inf")
ODD = [P.NAN, INF, -INF]


def nulled(x):
    """The document the null option must show."""
    if x.__class__ is dict:
        return {k: nulled(v) for k, v in x.items()}
    if x.__class__ is list:
        if x and x[0].__class__ in (int, str):
            return x
        return [nulled(v) for v in x]
    if x.__class__ is float and not math.isfinite(x):
        return None
    return x


def no_constant(name):
    raise ValueError(f"the JSON holds {name}")


def strict(text):
    return json.loads(text, parse_constant=no_constant)


def float_sites(d):
    """Every place of the document where a floating point number is stored."""
    out = []

    def go(x, path):
        if x.__class__ is dict:
            for k, v in x.items():
                go(v, path + (k,))
        elif x.__class__ is list:
            if x and x[0].__class__ in (int, str):
                return
            for k, v in enumerate(x):
                go(v, path + (k,))
        elif x.__class__ is float:
            if path[-1] not in ("pitch", "yaw", "roll"):
                out.append(path)

    go(d, ())
    return out


def plant(src, d):
    sites = float_sites(d)
    how = src.weighted([(4, "one"), (3, "some"), (2, "all"), (1, "none")])
    if not sites:
        return [], "none"
    if how == "one":
        chosen = [src.choice(sites)]
    elif how == "some":
        k = src.draw(4) + 2
        chosen = [p for p in sites if src.draw(k) == 0]
    elif how == "all":
        chosen = sites
    else:
        chosen = []
    one = src.draw(4)
    for p in chosen:
        E.at(d, p[:-1])[p[-1]] = ODD[one] if one < 3 else src.choice(ODD)
    return chosen, how


def make(src, only=None, budget=60):
    g, d = C.any_doc(src, only=only, budget=budget, finite=True, header=False)
    planted, how = plant(src, d)
    return g, d, planted, how


def keep_policy(d, raw):
    got = C.check_shown(d, raw)
    back = T.must("writing the unedited document failed", T.doc_raw, got)
    if back != raw:
        C.fail("a save with NaN or infinities changed on the way to JSON and back: " + T.first_diff(raw, back), d, raw)


def null_policy(d, raw, text):
    try:
        got = strict(text)
    except ValueError as e:
        C.fail(f"with the null option the JSON is not strictly valid: {e}", d, raw)
    want = nulled(d)
    r = M.same(want, got)
    if r:
        C.fail("with the null option the document is wrong: " + r, d, raw)
    raw2 = M.encode(want)
    back = T.must("writing the document with nulls failed", T.doc_raw, got)
    if back != raw2:
        C.fail("converting nulls back stored something else: " + T.first_diff(raw2, back), d, raw2)


def hint_tables(d):
    """Tables of hints that are enough for the document: besides the full one, only those needed, possibly none."""
    out = [None]
    paths = set()

    def props(ps, path):
        for k, p in ps.items():
            one(p, path + "." + k)

    def sv(st, v, path):
        if st not in M.STRUCT:
            props(v, path)

    def inner(x):
        if x.__class__ is dict:
            for k, v in x.items():
                props(v, "") if k in ("object", "hatched_character_save_parameter") else inner(v)
        elif x.__class__ is list:
            for v in x:
                inner(v)

    def one(p, path):
        if "custom_type" in p and p["type"] == "ArrayProperty" and p["array_type"] == "ByteProperty":
            return inner(p["value"])
        if p["type"] == "StructProperty":
            sv(p["struct_type"], p["value"], path)
        elif p["type"] == "ArrayProperty" and p["array_type"] == "StructProperty":
            for x in p["value"]["values"]:
                sv(p["value"]["type_name"], x, path + "." + p["value"]["prop_name"])
        elif p["type"] == "MapProperty":
            for k in ("key", "value"):
                if p[k + "_type"] == "StructProperty":
                    paths.add(path + "." + k.capitalize())
                    for e in p["value"]:
                        sv(p[k + "_struct_type"], e[k], path + "." + k.capitalize())

    props(d["properties"], "")
    out.append({k: T.HINTS[k] for k in sorted(paths) if k in T.HINTS})
    return out


def library(src, i, case):
    g, d, planted, how = make(src)
    raw = M.encode(d)
    C.note(case, raw, sorted(g.labels) + ["planted:" + how], {"planted": len(planted), "at": ["/".join(map(str, p)) for p in planted[:4]]}, bool(planted))
    keep_policy(d, raw)
    hints = src.choice(hint_tables(d))
    text = T.must("reading with the null option failed", lambda: T.to_text(T.read(raw, allow_nan=False, hints=hints), allow_nan=False))
    null_policy(d, raw, text)


def one_place(src, i, case):
    """Each kind of place in turn: one section, one planted value."""
    sec = G.SECTIONS[i % len(G.SECTIONS)]
    g = G.Gen(src, budget=30, finite=True)
    g.n = lambda: 1
    d = {"header": g.plain_header(), "properties": {"worldSaveData": g.world([sec])}, "trailer": "AAAAAA=="}
    sites = float_sites(d)
    if not sites:
        return
    p = src.choice(sites)
    E.at(d, p[:-1])[p[-1]] = src.choice(ODD)
    raw = M.encode(d)
    name = ".".join(str(k) for k in p if not isinstance(k, int))
    C.note(case, raw, ["section:" + sec], {"planted at": name})
    keep_policy(d, raw)
    hints = src.choice(hint_tables(d))
    text = T.must("reading with the null option failed", lambda: T.to_text(T.read(raw, allow_nan=False, hints=hints), allow_nan=False))
    null_policy(d, raw, text)


def partial(src, i, case):
    """The null option together with a selection of sections."""
    g, d, planted, how = make(src, only=G.SECTIONS)
    keep = [p for p in M.CUSTOM_PATHS if src.draw(2)]
    raw = M.encode(d)
    d = M.undecode(d, keep)
    C.note(case, raw + repr(keep).encode(), ["selection"], {"selected": len(keep), "planted": len(planted)}, bool(planted))
    custom = {k: T.CUSTOM[k] for k in keep if k in T.CUSTOM}
    text = T.must("reading with the null option failed", lambda: T.to_text(T.read(raw, custom, False), allow_nan=False))
    null_policy(d, raw, text)


def command(src, i, case):
    g, d, planted, how = make(src, budget=30)
    raw = M.encode(d)
    null = src.chance(2, 3)
    args = (["--convert-nan-to-null"] if null else []) + (["--minify-json"] if src.draw(2) else [])
    C.note(case, raw + repr(args).encode(), ["command", "null" if null else "keep"], {"args": args, "planted": len(planted)}, bool(planted))
    with cli.Dir() as w:
        p = w.write("Level.sav", C.pack(raw))
        r = cli.convert([p] + args)
        if r.code != 0:
            C.fail(f"convert {args} exited with {r.code}: {r.tail()}", d, raw)
        with open(p + ".json", encoding="utf8") as f:
            text = f.read()
        if null:
            null_policy(d, raw, text)
        else:
            got = json.loads(text)
            x = M.same(d, got)
            if x:
                C.fail("the JSON file differs from what the save stores: " + x, d, raw)
        r = cli.convert([p + ".json", "-o", w.path("back.sav")])
        if r.code != 0:
            C.fail(f"converting back exited with {r.code}: {r.tail()}", d, raw)
        with open(w.path("back.sav"), "rb") as f:
            back = C.unpack(f.read())[0]
        want = M.encode(nulled(d)) if null else raw
        if back != want:
            C.fail("converting back stored something else: " + T.first_diff(want, back), d, raw)


def values(src, i, case):
    """Random bit patterns of both widths through the null option: null exactly when not finite."""
    n = 40
    fl, db = [], []
    for _ in range(n):
        if src.draw(4) == 0:
            fl.append(src.choice([0x7F800000, 0xFF800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x7F800001, 0xFFC00000, 1, 0x80000000]))
            db.append(src.choice([0x7FF << 52, 0xFFF << 52, 0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF, (0x7FF << 52) | 1, 0xFFF8 << 48, 1, 1 << 63, 0x47EFFFFFE0000001]))
        else:
            fl.append(src.draw(1 << 32))
            db.append(src.draw(1 << 64))
    raw = b"".join(M.P_U32(b) for b in fl) + b"".join(M.P_U64(b) for b in db)
    C.note(case, raw, ["bit patterns"], {"first": [hex(fl[0]), hex(db[0])]})
    few = [src.draw(n) for _ in range(4)]
    for allow in (True, False):
        r = T.archive.FArchiveReader(raw, allow_nan=allow)
        # raw data is read by readers made from other readers, however short it is
        for k in few:
            for b, fmt, s, f in ((fl[k], "<f", 4, "float"), (db[k], "<d", 8, "double")):
                inner = r
                for _ in range(1 + src.draw(3)):
                    inner = inner.internal_copy(b.to_bytes(s, "little") + b"\0" * src.choice([0, 0, 1, 9]), False)
                want = struct.unpack(fmt, b.to_bytes(s, "little"))[0]
                got = getattr(inner, f)()
                if got is not None if not allow and not math.isfinite(want) else (got is None or M.same(want, got)):
                    C.fail(f"in raw data, {b:#x} ({s} bytes) was read as {got!r} instead of {want!r} (allow_nan={allow})")
        for b, f, fmt, s in [(b, r.float, "<f", 4) for b in fl] + [(b, r.double, "<d", 8) for b in db]:
            want = struct.unpack(fmt, b.to_bytes(s, "little"))[0]
            got = f()
            if not allow and not math.isfinite(want):
                if got is not None:
                    C.fail(f"with the null option {b:#x} ({s} bytes) was read as {got!r}")
            elif got is None or M.same(want, got):
                C.fail(f"{b:#x} ({s} bytes) was read as {got!r} instead of {want!r} (allow_nan={allow})")


def k1():
    """NaN with a sign or payload becomes the one NaN that JSON can name."""
    bad = []
    for bits in (0xFFC00000, 0x7FC00001):
        d = {"header": G.Gen(__import__("vf.engine", fromlist=["Src"]).Src(1)).plain_header(), "properties": {"A": {"id": None, "value": 1.0, "type": "FloatProperty"}}, "trailer": "AAAAAA=="}
        raw = M.encode(d).replace(M.P_F32(1.0), M.P_U32(bits), 1)
        if T.doc_raw(T.sav_doc(raw)) != raw:
            bad.append(f"{bits:#010x}")
    if bad:
        return "FloatProperty holding the NaN " + " or ".join(bad) + " is written back as 0x7fc00000 (JSON has a single NaN; sign and payload are lost)"


def compact(src, i, case):
    """Compact vectors in every stored form, also the single precision one that is read but never written."""
    form = src.draw(4)
    scale = src.choice([1, 10, 100])
    pick = lambda: src.choice(ODD) if src.draw(2) else src.choice([0.0, -0.0, 1.5, -3.25, 2.0**20, 65504.0, src.draw(1000) / 8])
    vals = [pick() for _ in range(3)]
    if form == 0:
        b = struct.pack("<I3f", 0, *vals)
    elif form == 1:
        b = struct.pack("<I3d", 64, *vals)
    elif form == 2:
        vals = [float(src.draw(200) - 100) for _ in range(3)]
        b = struct.pack("<I3b", 8, *map(int, vals))
    else:
        ints = [src.draw(60000) - 30000 for _ in range(3)]
        vals = [n / scale for n in ints]
        b = struct.pack("<I3h", 64 | 16, *ints)
    whole = src.draw(2)
    if form == 3 and whole:
        vals = [float(n) for n in ints]
    odd = any(not math.isfinite(v) for v in vals)
    C.note(case, b + bytes([whole, scale]), ["form %d" % form, "non-finite" if odd else "finite"], {"values": repr(vals), "scale": scale}, odd)
    for nan in (True, False):
        want = [v if nan or math.isfinite(v) else None for v in vals]
        if not whole:
            got = list(T.must("reading a compact vector failed", T.archive.FArchiveReader(b, allow_nan=nan).packed_vector, scale))
        else:
            d = M.e_header(G.Gen(src, budget=1).plain_header()) + foliage(b)
            doc = T.must("reading the save failed", T.sav_doc, d, None, nan)
            loc = doc["properties"]["worldSaveData"]["value"]["FoliageGridSaveDataMap"]["value"][0]["value"]["ModelMap"]["value"][0]["value"]["InstanceDataMap"]["value"][0]["value"]["RawData"]["value"]["world_transform"]["location"]
            got = [loc["x"], loc["y"], loc["z"]]
        x = M.same(want, [float(v) if v.__class__ is int else v for v in got])
        if x:
            C.fail(f"compact vector {b.hex()} at scale {1 if whole else scale}, {'by default' if nan else 'with conversion to null'}: {x}", raw=b)


def foliage(vector):
    """A save holding one foliage instance with the given stored location."""
    raw = b"\x11" * 16 + b"\0\0\0" + vector + struct.pack("<fi", 1.0, 5)
    p = lambda name, t, head, body: M.e_str(name) + M.e_str(t) + M.P_U64(len(body)) + head + body
    props = lambda *x: b"".join(x) + M.NONE_TAG
    m = lambda name, body: p(name, "MapProperty", M.e_str("StructProperty") + M.e_str("StructProperty") + b"\0", struct.pack("<II", 0, 1) + body)
    st = lambda name, body: p(name, "StructProperty", M.e_str(name) + b"\0" * 17, body)
    rawp = lambda b: p("RawData", "ArrayProperty", M.e_str("ByteProperty") + b"\0", struct.pack("<I", len(b)) + b)
    one = lambda name: p(name, "IntProperty", b"\0", struct.pack("<i", 1))
    model = M.e_str("m") + b"\0" + struct.pack("<3q", 1, 2, 3)
    inst = m("InstanceDataMap", props(st("Guid", b"\x22" * 16)) + props(rawp(raw)))
    grid = props(m("ModelMap", (M.e_str("key")) + props(rawp(model), inst)).replace(M.e_str("StructProperty") * 2 + b"\0", M.e_str("NameProperty") + M.e_str("StructProperty") + b"\0", 1))
    world = props(m("FoliageGridSaveDataMap", props(one("X")) + grid))
    return props(p("worldSaveData", "StructProperty", M.e_str("W") + b"\0" * 17, world)) + b"\0" * 4


CHECK = Check(
    "C12",
    "a case is a save with finite numbers in which NaN, Infinity or -Infinity were planted at one, some or all floating "
    "point positions, converted under both policies; non-trivial: at least one value was planted (or bit patterns read)",
    [
        Stage("library", library, 9000, 300000, "whole saves, both policies"),
        Stage("one place", one_place, 6000, 200000, "one section entry, one planted value"),
        Stage("partial", partial, 3000, 80000, "null option with a selection of sections"),
        Stage("compact", compact, 6000, 200000, "compact vectors in every stored form, alone and in a foliage instance"),
        Stage("command", command, 1500, 40000, "the convert command on files"),
        Stage("bit patterns", values, 3000, 100000, "40 floats and 40 doubles per case"),
    ],
    findings=[("K1", k1)],
    assumptions=["NaN is the default quiet NaN (0x7fc00000 / 0x7ff8000000000000); others are the known finding K1"],
)
