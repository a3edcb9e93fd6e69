import json

from vf import cli
from vf import common as C
from vf import gen as G
from vf import model as M
from vf import tool as T
from vf.engine import Check, Stage

SECS = ["GroupSaveDataMap", "BaseCampSaveData", "WorkSaveData", "MapObjectSaveData"]


def find(x, path, out):
    """Every place that can be brought into an older shape: (kind, path)."""
    if x.__class__ is dict:
        if "type" in x and x["type"].__class__ is str and "value" in x:
            if x.get("id", 0) is None:
                out.append(("no id", path))
            ct = x.get("custom_type")
            if ct.__class__ is str:
                out.append(("plain section", path))
                raw_sites(ct, x, path, out)
        for k, v in x.items():
            if v.__class__ in (dict, list):
                find(v, path + (k,), out)
    elif x.__class__ is list:
        for i, v in enumerate(x):
            if v.__class__ is dict:
                find(v, path + (i,), out)


def raw_sites(ct, p, path, out):
    if ct in (M.W + "GroupSaveDataMap", M.W + "BaseCampSaveData.Value.ModuleMap"):
        for i in range(len(p["value"])):
            out.append(("raw bytes", path + ("value", i, "value", "RawData"), ct, path + ("value", i)))
    elif ct == M.W + "WorkSaveData":
        for i, v in enumerate(p["value"]["values"]):
            q = path + ("value", "values", i)
            out.append(("raw bytes", q + ("RawData",), ct, q))
            if "transform" in v["RawData"]["value"]:
                out.append(("old transform", q + ("RawData", "value", "transform")))
    elif ct == M.W + "MapObjectSaveData":
        for i, v in enumerate(p["value"]["values"]):
            q = path + ("value", "values", i)
            for s in (("Model", "value", "RawData"), ("Model", "value", "Connector", "value", "RawData"),
                      ("Model", "value", "BuildProcess", "value", "RawData"), ("ConcreteModel", "value", "RawData")):
                out.append(("raw bytes", q + s, ct, q + s))
            for j in range(len(v["ConcreteModel"]["value"]["ModuleMap"]["value"])):
                s = ("ConcreteModel", "value", "ModuleMap", "value", j, "value", "RawData")
                out.append(("raw bytes", q + s, ct, q + s))


def at(d, path):
    for k in path:
        d = d[k]
    return d


def blob(d, site):
    """The bytes the decoded raw data at this site stands for."""
    _, path, ct, owner = site
    v = at(d, path)["value"]
    if ct == M.W + "GroupSaveDataMap":
        return M.e_group(v, at(d, owner)["value"]["GroupType"]["value"]["value"])
    if ct == M.W + "BaseCampSaveData.Value.ModuleMap":
        return M.e_camp_module(v, at(d, owner)["key"])
    if ct == M.W + "WorkSaveData":
        return M.e_work(v, at(d, owner)["WorkableType"]["value"]["value"])
    last = path[-3]
    if last == "Connector":
        return M.e_connector(v)
    if last == "BuildProcess":
        return bytes(v["values"]) if "values" in v else M.enc(M.rec(*M.BUILD_PROCESS), v)
    if last == "Model":
        return bytes(v["values"]) if "values" in v else M.enc(M.rec(*M.MAP_MODEL), v)
    if last == "ConcreteModel":
        return M.e_concrete(v)
    return M.e_module(v, at(d, path[:-2])["key"])


def downgrade(src, d, kinds):
    sites = []
    find(d["properties"], ("properties",), sites)
    sites = [s for s in sites if s[0] in kinds]
    how = src.draw(3)
    done = []
    if not sites:
        return done
    if how == 0:
        chosen = [src.choice(sites)]
    elif how == 1:
        chosen = [s for s in sites if src.draw(3) == 0]
    else:
        chosen = sites
    # sections last, as their sites disappear
    order = ["no id", "old transform", "raw bytes", "plain section"]
    for s in sorted(chosen, key=lambda s: (order.index(s[0]), -len(s[1]))):
        if s[0] == "no id":
            del at(d, s[1])["id"]
        elif s[0] == "raw bytes":
            b = blob(d, s)
            if src.chance(1, 24):  # other bytes than today's form would hold
                b = src.choice([b"", b"", b[:-1], b + b"\0", src.bytes(src.draw(40))])
                done.append("other bytes")
            at(d, s[1])["value"] = {"values": list(b)}
        elif s[0] == "old transform":
            t = at(d, s[1])
            del t["v2"]
            if t["type"] == 1:
                # the older field names, in the order the older release thought they were stored
                t["location"], t["scale"] = t.pop("translation"), t.pop("scale3d")
        else:
            p = at(d, s[1])
            q = M.PLAINFORM[p["custom_type"]](p)
            p.clear()
            p.update(q)
        done.append(s[0])
    return done


def make(src, kinds):
    g = G.Gen(src, budget=60)
    secs = []
    if kinds == ["no id"]:
        secs = G.pick_sections(src)
    else:
        for _ in range(1 + src.draw(2)):
            s = src.choice(SECS if "plain section" not in kinds or src.draw(2) else G.SECTIONS)
            if s not in secs:
                secs.append(s)
    d = g.doc(secs, src.chance(1, 4), False)
    modern = M.encode(d)
    old = C.clone(d)
    # the same object must not appear twice, or edits would hit both places
    done = downgrade(src, old, kinds)
    return d, old, modern, done


ALL = ["no id", "raw bytes", "old transform", "plain section"]


def check(src, case, kinds, command=False):
    d, old, modern, done = make(src, kinds)
    raw = M.encode(old)
    same = "old transform" not in done and "other bytes" not in done
    if same and raw != modern:
        raise RuntimeError("the model encodes the older shape differently")
    C.note(case, raw + repr(sorted(done)).encode(), sorted(set(done)) + ["%d places" % min(len(done), 9)], C.show(old), bool(done))
    if command:
        with cli.Dir() as w:
            p = w.write("old.sav.json", json.dumps(old).encode())
            res = cli.convert([p])
            if res.code != 0:
                C.fail(f"converting an older document ({sorted(set(done))}) exited with {res.code}: {res.tail()}", old, raw)
            with open(p[:-5], "rb") as f:
                back, _ = C.unpack(f.read())
    else:
        back = T.must(f"writing an older document ({sorted(set(done))}) failed", T.doc_raw, C.clone(old))
    if back != raw:
        C.fail(f"an older document ({sorted(set(done))}) was written differently: " + T.first_diff(raw, back), old, raw)
    if same:
        # it was only another way to say the same: reading shows today's form
        C.check_shown(d, raw)


def mixed(src, i, case):
    check(src, case, ALL)


def single(src, i, case):
    check(src, case, [ALL[i % 4]])


def command(src, i, case):
    check(src, case, ALL if src.draw(2) else [src.choice(ALL)], True)


CHECK = Check(
    "C21",
    "a case is a generated world save document of which one, some or all places were brought into an older shape (raw bytes under a "
    "marked section, older work placement, member left out, section not decoded); non-trivial: at least one place was, and the "
    "bytes written were compared with the model",
    [
        Stage("mixed", mixed, 8000, 300000, "several older shapes in one document"),
        Stage("single", single, 10000, 300000, "one older shape"),
        Stage("command", command, 1200, 40000, "through the convert command"),
    ],
)
