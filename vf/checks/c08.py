import json
import os

from vf import cli
from vf import common as C
from vf import gen as G
from vf import model as M
from vf import tool as T
from vf.engine import Check, Stage

RAW_SECTIONS = [s for s in G.SECTIONS if s not in ("MapObjectSpawnerInStageSaveData", "EnemyCampSaveData")]


def subset(src, present):
    """A selection of sections: none, one, all but one, or any; biased to sections the save has."""
    r = src.draw(6)
    paths = M.CUSTOM_PATHS
    if r == 0:
        return []
    if r == 1:
        return list(paths)
    if r == 2:
        return [src.choice(present or paths)]
    if r == 3:
        k = src.choice(present or paths)
        return [p for p in paths if p != k]
    m = src.draw(1 << len(paths))
    return [p for i, p in enumerate(paths) if m >> i & 1]


def present_in(x, out=None):
    out = set() if out is None else out
    if isinstance(x, dict):
        ct = x.get("custom_type")
        if isinstance(ct, str) and ct in M.PLAINFORM:
            out.add(ct)
        for v in x.values():
            present_in(v, out)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                present_in(v, out)
    return out


def docs(src):
    n = 1 + src.draw(4)
    g = G.Gen(src, budget=80)
    secs = []
    for _ in range(n):
        s = src.choice(RAW_SECTIONS)
        if s not in secs:
            secs.append(s)
    return g, g.doc(secs, src.chance(1, 6), False)


def library(src, i, case):
    g, d = docs(src)
    raw = M.encode(d)
    present = sorted(present_in(d))
    sel = subset(src, present)
    order = list(sel)
    if src.chance(1, 2):
        order.reverse()
    C.note(case, raw + repr(sel).encode(), ["%d selected" % len(set(sel) & set(present)), "%d left plain" % len(set(present) - set(sel))],
           {"selected": sel, "present": present}, bool(present))
    table = {p: T.CUSTOM[p] for p in order}
    want = M.undecode(d, set(sel))
    got = T.must(f"reading with the sections {sel} failed", T.sav_doc, raw, table)
    r = M.same(want, got)
    if r:
        C.fail(f"with the sections {sel} selected the document differs: {r}", d, raw)
    back = T.must("writing failed", T.doc_raw, got)
    if back != raw:
        C.fail(f"with the sections {sel} selected the save changed: " + T.first_diff(raw, back), d, raw)


def command(src, i, case):
    g, d = docs(src)
    raw = M.encode(d)
    present = sorted(present_in(d))
    r = src.draw(8)
    if r == 0:
        arg, sel = "all", M.CUSTOM_PATHS
    elif r == 1:
        arg, sel = None, M.CUSTOM_PATHS
    elif r == 2:
        arg, sel = src.choice(["none", "", "x", ".worldSaveData", ".worldSaveData.GroupSaveData", "GroupSaveDataMap"]), []
    else:
        sel = subset(src, present)
        items = list(sel)
        for j in range(len(items) - 1, 0, -1):
            k = src.draw(j + 1)
            items[j], items[k] = items[k], items[j]
        if items and src.chance(1, 4):
            items.append(src.choice(items))
        if src.chance(1, 4):
            items.insert(src.draw(len(items) + 1), src.choice([".unknown", "", ".worldSaveData.Nope"]))
        arg = src.choice([",", ", ", " , ", ",  "]).join(items)
        if not items:
            arg, sel = "none", []
    flags = [] if arg is None else ["--custom-properties=" + arg] if src.draw(2) else ["--custom-properties", arg]
    C.note(case, raw + repr(arg).encode(), ["command"], {"argument": arg, "present": present})
    with cli.Dir() as w:
        p = w.write("Level.sav", C.pack(raw, 0x32))
        res = cli.convert([p] + flags)
        if res.code != 0:
            C.fail(f"convert {flags} exited with {res.code}: {res.tail()}", d, raw)
        with open(p + ".json", encoding="utf8") as f:
            got = json.load(f)
        rr = M.same(M.undecode(d, set(sel)), got)
        if rr:
            C.fail(f"with {flags} the document differs: {rr}", d, raw)
        res = cli.convert([p + ".json", "--output", w.path("b.sav")])
        if res.code != 0:
            C.fail(f"converting back exited with {res.code}: {res.tail()}", d, raw)
        with open(w.path("b.sav"), "rb") as f:
            back, _ = C.unpack(f.read())
        if back != raw:
            C.fail(f"with {flags} the save changed: " + T.first_diff(raw, back), d, raw)


CHECK = Check(
    "C08",
    "a case is a generated world save and a selection of sections; non-trivial: the save holds at least one decodable "
    "section, and the document and the bytes written back were compared with the model",
    [
        Stage("library", library, 9000, 300000, "selection given to the library"),
        Stage("command", command, 3600, 100000, "selection given with --custom-properties, through files"),
    ],
)
