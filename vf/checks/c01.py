import json
import os
import shutil
import sys

from vf import common as C
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf import cli
from vf.engine import Check, Stage


def whole(src, i, case):
    g, d = C.any_doc(src)
    raw = M.encode(d)
    C.note(case, raw, g.labels, C.show(d))
    C.check_lossless(d, raw)


def sizes(src, i, case):
    kind, n = C.sweep_pick(src, i)
    d = C.sweep_doc(src, kind, n)
    raw = M.encode(d)
    C.note(case, raw, ["size of " + kind], f"{kind} of size {n}, save of {len(raw)} bytes")
    C.check_lossless(d, raw)


def files(src, i, case):
    """The commands a user types, on files."""
    g, d = C.any_doc(src, header=src.chance(1, 2))
    raw = M.encode(d)
    st = src.choice([0x31, 0x32])
    flags = []
    if src.chance(1, 3):
        flags.append("--minify-json")
    if src.chance(1, 4):
        flags += ["--custom-properties", "all"]
    C.note(case, raw, sorted(g.labels) + ["through files"], {"flags": flags, "type": hex(st), "document": C.show(d, 800)})
    with cli.Dir() as w:
        p = w.write("Level.sav", C.pack(raw, st))
        r = cli.convert([p] + flags)
        if r.code != 0:
            C.fail(f"converting a well-formed save to JSON exited with {r.code}: {r.tail()}", d, raw)
        js = p + ".json"
        if not os.path.exists(js):
            C.fail("converting a save to JSON wrote no JSON file", d, raw)
        out = w.path("out.sav")
        r = cli.convert([js, "-o", out])
        if r.code != 0:
            C.fail(f"converting the JSON back to a save exited with {r.code}: {r.tail()}", d, raw)
        with open(out, "rb") as f:
            sav = f.read()
        try:
            back, _ = C.unpack(sav)
        except Exception as e:
            C.fail(f"the written save is not a valid container: {e}", d, raw)
        if back != raw:
            C.fail("save file -> JSON file -> save file changed the save: " + T.first_diff(raw, back), d, raw)


BIG_TEXT = [(1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 3, 3000000, (1 << 22) + 1]
BIG_LIST = [65535, 65536, 65537, 70000, 100001, 131072, 131073]


def big(src, i, case):
    """Every kind of thing far beyond ordinary sizes."""
    kind = C.SWEEP_KINDS[i % len(C.SWEEP_KINDS)]
    if kind in ("depth", "nested_arrays"):
        kind = "bytes"
    n = src.choice(BIG_TEXT if kind in C.CHEAP else BIG_LIST)
    fr = [k for k in P.fresh().ints if 4200 <= k <= (20000000 if kind in C.CHEAP else 1100000)]
    if fr and i % 62 < 31:
        n = src.choice(fr) + 1
    elif fr and src.chance(1, 3):
        n = src.choice(fr) + src.choice([0, 2, -1])
    d = C.sweep_doc(src, kind, n)
    raw = M.encode(d)
    C.note(case, repr((kind, n)), ["big " + kind], f"{kind} of size {n}, save of {len(raw)} bytes")
    got = T.must(f"reading a well-formed save failed ({kind} of size {n})", T.sav_doc, raw)
    back = T.must(f"writing the unedited document failed ({kind} of size {n})", T.doc_raw, got)
    if back != raw:
        C.fail(f"save -> JSON -> save changed the save ({kind} of size {n}): " + T.first_diff(raw, back))


def k2():
    """Two properties of the same name in one list."""
    from vf.engine import Src

    d = {"header": G.Gen(Src(1)).plain_header(), "properties": {}, "trailer": "AAAAAA=="}
    raw = M.encode(d)
    one = M.e_str("A") + M.e_str("IntProperty") + M.P_I32(4)
    two = one + M.P_I32(0) + b"\0" + M.P_I32(7) + one + M.P_I32(1) + b"\0" + M.P_I32(8)
    k = len(raw) - 4 - len(M.NONE_TAG)
    raw = raw[:k] + two + raw[k:]
    try:
        if T.doc_raw(T.sav_doc(raw)) == raw:
            return None
    except Exception:
        return None  # refused, not lost
    return "IntProperty A stored twice (array index 0 and 1): only the last is shown and written"


CHECK = Check(
    "C01",
    "a case is a generated save (headers, all property types, all Palworld sections, sizes swept over 0..4097 and "
    "up to 300000); non-trivial: the save was read, shown and re-written and has distinct bytes",
    [
        Stage("whole", whole, 40000, 1200000, "random whole saves through the library"),
        Stage("sizes", sizes, 2480, 40000, "one text, list or nesting of a chosen size"),
        Stage("big", big, 62, 620, "every kind of thing: texts and byte arrays of 1 to 4 million, lists of 65535 to 131073"),
        Stage("files", files, 1600, 40000, "the convert command on files, both directions"),
    ],
    findings=[("K2", k2)],
    assumptions=["saves in canonical Unreal serialisation (see DESIGN.md, Domain)"],
)
