import base64
import json
import os

from vf import cli
from vf import common as C
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage

FIELDS = ["package_file_version_ue4", "package_file_version_ue5", "engine_version_major", "engine_version_minor",
          "engine_version_patch", "engine_version_changelist", "engine_version_branch", "save_game_class_name"]
BODY = {"A": {"id": None, "value": 7, "type": "IntProperty"}}


def trailer(src, cap=4200):
    r = src.draw(10)
    if r == 0:
        b = b""
    elif r < 3:
        b = b"\0" * src.draw(12)
    elif r < 5:
        b = b"\0\0\0\0" + src.bytes(src.draw(20))
    elif r == 5:
        b = M.e_str("None") + src.bytes(src.draw(9))
    elif r == 6:  # what looks like another property
        b = M.e_props(BODY) + src.bytes(src.draw(5))
    else:
        b = src.bytes(P.length(src, cap))
    return b


def make(src):
    g = G.Gen(src, budget=10)
    d = {"header": g.header(), "properties": g.props(3, src.draw(3)) if src.draw(3) else dict(BODY), "trailer": ""}
    if src.chance(1, 5):
        n = src.choice([0, 1, 2, 20, 60, 100, 255, 256, 257, 300])
        d["header"]["custom_versions"] = [[g.guid(), P.i32(src)] for _ in range(n)]
    t = trailer(src)
    d["trailer"] = base64.b64encode(t).decode()
    return g, d, t


def fields(src, i, case):
    """Shown, written back unchanged, and stored from an edited document."""
    g, d, t = make(src)
    raw = M.encode(d)
    C.note(case, raw, ["%s trailer" % ("usual" if t == b"\0\0\0\0" else "no" if not t else "odd"), "%d+ versions" % (len(d["header"]["custom_versions"]) // 10 * 10)],
           {"header": d["header"], "trailer": t[:40].hex()})
    got = C.check_shown(d, raw)
    shown = base64.b64decode(got["trailer"], validate=True)
    if shown != t:
        C.fail("the trailer shown differs: " + T.first_diff(t, shown), d, raw)
    back = T.must("writing the unedited document failed", T.doc_raw, C.clone(got))
    if back != raw:
        C.fail("the file changed: " + T.first_diff(raw, back), d, raw)
    # the file object itself, without the detour through JSON
    f = T.must("reading failed", T.read, raw)
    if bytes(f.trailer) != t:
        C.fail("the trailer read differs: " + T.first_diff(t, f.trailer), d, raw)
    back = T.must("writing the file just read failed", f.write, T.CUSTOM)
    if back != raw:
        C.fail("reading and writing changed the file: " + T.first_diff(raw, back), d, raw)
    # edited header and trailer
    h = g.header()
    for k in list(h):
        if src.draw(3):
            d["header"][k] = h[k]
    d["trailer"] = base64.b64encode(trailer(src)).decode()
    raw = M.encode(d)
    C.check_stored(d, raw)


REFUSED = [(0, "magic", 0x53415647), (4, "save_game_version", 3), (None, "custom_version_format", 3)]


def refused(src, i, case):
    g, d, t = make(src)
    off, name, good = REFUSED[i % 3]
    if name == "magic" and src.draw(2):
        bad = good ^ (1 << src.draw(31)) if src.draw(2) else int.from_bytes(src.choice([b"GVAR", b"gvas", b"SAVG", b"PlZ1", b"\0\0\0\0", b"GVAs"]), "little")
    elif src.chance(1, 3):
        bad = src.choice([0, 1, 2, 4, 5, -1, -3, 6, 7, 259, 3 << 8, 3 << 16, 3 << 24, (1 << 31) - 1, -(1 << 31), 0x10003])
    else:
        bad = P.i32(src)
    if bad == good:
        bad += 1
    if bad >= 1 << 31:
        bad -= 1 << 32
    d["header"][name] = bad
    raw = M.encode(d)
    C.note(case, raw, ["refused " + name], {name: bad})
    try:
        f = T.read(raw)
    except Exception:
        pass
    else:
        C.fail(f"a file with {name} {bad} was read as {C.show(f.dump(), 300)}", d, raw)
    if i % 9 < 3:
        with cli.Dir() as w:
            p = w.write("a.sav", C.pack(raw, 0x31))
            res = cli.convert([p])
            if res.code == 0:
                C.fail(f"convert accepted a file with {name} {bad}", d, raw)
            if os.path.exists(p + ".json"):
                C.fail(f"convert left a JSON file behind for a file with {name} {bad}", d, raw)


def sweep(src, i, case):
    """All small values of the refused fields, and single bits of the magic."""
    vals = [("magic", 0x53415647 ^ (1 << b)) for b in range(31)] + [("magic", 0x53415647 - (1 << 31))]
    for k in ("save_game_version", "custom_version_format"):
        vals += [(k, v) for v in range(-40, 300) if v != 3]
        vals += [(k, 3 + (1 << b)) for b in range(3, 31)]
    name, bad = vals[i % len(vals)]
    if bad >= 1 << 31:
        bad -= 1 << 32
    d = {"header": G.Gen(src).plain_header(), "properties": dict(BODY), "trailer": "AAAAAA=="}
    d["header"][name] = bad
    raw = M.encode(d)
    C.note(case, raw, ["refused sweep " + name], {name: bad})
    try:
        T.read(raw)
    except Exception:
        return
    C.fail(f"a file with {name} {bad} was read", d, raw)


def sizes(src, i, case):
    kind = ["versions", "classname", "trailer"][i % 3]
    n = i // 3
    if n > 300:
        _, n = C.sweep_pick(src, 0)
        if kind == "versions":
            n %= 4200
    d = C.sweep_doc(src, kind, n)
    raw = M.encode(d)
    C.note(case, raw, ["size of " + kind], f"{kind} of size {n}")
    C.check_shown(d, raw)
    C.check_lossless(d, raw)


def command(src, i, case):
    g, d, t = make(src)
    if len(d["properties"]) > 1:
        d["properties"] = dict(BODY)
    raw = M.encode(d)
    C.note(case, raw, ["command"], {"header": d["header"], "trailer": t[:40].hex()})
    with cli.Dir() as w:
        p = w.write("a.sav", C.pack(raw, src.choice([0x31, 0x32])))
        res = cli.convert([p] + (["--minify-json"] if src.draw(2) else []))
        if res.code != 0:
            C.fail(f"convert exited with {res.code}: {res.tail()}", d, raw)
        with open(p + ".json", encoding="utf8") as f:
            r = M.same(d, json.load(f))
        if r:
            C.fail("the JSON file differs: " + r, d, raw)
        res = cli.convert([p + ".json", "--output", w.path("b.sav")])
        if res.code != 0:
            C.fail(f"converting back exited with {res.code}: {res.tail()}", d, raw)
        with open(w.path("b.sav"), "rb") as f:
            back, _ = C.unpack(f.read())
        if back != raw:
            C.fail("header or trailer changed: " + T.first_diff(raw, back), d, raw)


CHECK = Check(
    "C22",
    "a case is a save with a generated header and trailer, or with one unsupported header value; non-trivial: shown, written and "
    "edited forms were compared with the model, or the refusal was demanded",
    [
        Stage("fields", fields, 45000, 500000, "header fields and trailers"),
        Stage("refused", refused, 27000, 200000, "unsupported values, random"),
        Stage("sweep", sweep, 768, 768, "unsupported values, swept"),
        Stage("sizes", sizes, 1800, 12000, "number of custom versions, lengths of text and trailer 0..300 and beyond"),
        Stage("command", command, 4500, 40000, "through the convert command"),
    ],
)
