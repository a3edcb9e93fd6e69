import json

from vf import cli
from vf import common as C
from vf import edits as E
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.checks.c02 import plain
from vf.engine import Check, Stage


def write_and_compare(d, doc, what, live=None):
    """doc (or the live object) must be stored exactly as the model encodes d; and read back as d."""
    raw = M.encode(d)
    if live is None:
        back = T.must(f"writing the document failed after: {what}", T.doc_raw, C.clone(doc))
    else:
        back = T.must(f"writing the document failed after: {what}", live.write, T.CUSTOM)
    if back != raw:
        C.fail(f"after [{what}] the written save differs from the document: " + T.first_diff(raw, back), d, raw)
    return raw


def edited(src, i, case):
    """Read a save, edit its JSON several times, write after the edits."""
    g, d = C.any_doc(src)
    raw = M.encode(d)
    got = T.must("reading a well-formed save failed", T.sav_doc, raw)
    log = []
    for _ in range(1 + src.draw(4)):
        e = E.pick(g, d)
        if e is None:
            continue
        what, fn = e
        fn(d)
        try:
            fn(got)
        except (KeyError, IndexError, TypeError) as x:
            C.fail(f"the document lacks what the save stores: cannot {what} ({x!r})", d, raw)
        log.append(what)
    what = "; ".join(log)
    C.note(case, raw + what.encode("utf8", "surrogatepass"), sorted(g.labels), {"edits": log, "document": C.show(d, 600)}, bool(log))
    raw = write_and_compare(d, got, what)
    C.check_shown(d, raw)


def live(src, i, case):
    """Edit the parsed object itself (library use), write it."""
    g, d = C.any_doc(src)
    raw = M.encode(d)
    obj = T.must("reading a well-formed save failed", T.read, raw)
    log = []
    want = lambda s: s[1][0] == "properties"
    for _ in range(1 + src.draw(4)):
        if src.chance(1, 3):
            e = E.alias(g, d, want)
            if e is None:
                continue
            what, fn = e
            try:
                fn({"properties": obj.properties}, False)
            except (KeyError, IndexError, TypeError) as x:
                C.fail(f"the parsed document lacks what the save stores: cannot {what} ({x!r})", d, raw)
            except AttributeError:
                continue
            fn(d, True)
            log.append(what)
            break  # later edits would reach both
        e = E.pick(g, d, want)
        if e is None:
            continue
        what, fn = e
        view = {"properties": obj.properties}
        try:
            fn(view)
        except (KeyError, IndexError, TypeError) as x:
            C.fail(f"the parsed document lacks what the save stores: cannot {what} ({x!r})", d, raw)
        except AttributeError:
            # a byte tuple cannot be edited in place
            continue
        fn(d)
        log.append(what)
    what = "; ".join(log)
    C.note(case, raw + what.encode("utf8", "surrogatepass"), sorted(g.labels) + ["live object"], {"edits": log}, bool(log))
    write_and_compare(d, None, what, obj)


def fresh_doc(src, i, case):
    """A document that was never read from a save."""
    g, d = C.any_doc(src)
    raw = M.encode(d)
    C.note(case, raw, g.labels, C.show(d))
    C.check_stored(d, raw)


def sizes(src, i, case):
    kind, n = C.sweep_pick(src, i)
    d = C.sweep_doc(src, kind, n)
    raw = M.encode(d)
    C.note(case, raw, ["size of " + kind], f"{kind} of size {n}, save of {len(raw)} bytes")
    C.check_stored(d, raw)


def written_only(src, i, case):
    """Arrays of kinds that are only ever written, in documents made by other programs."""
    g = G.Gen(src, budget=10)
    d = g.doc((), True, src.chance(1, 3))
    of = {
        "IntProperty": lambda: P.i32(src), "Int64Property": lambda: P.i64(src), "FloatProperty": lambda: P.f32(src, True),
        "StrProperty": g.text, "BoolProperty": lambda: bool(src.draw(2)),
    }
    seen = []
    for k in range(1 + src.draw(4)):
        t = src.choice(sorted(of))
        n = src.choice([0, 1, 2, 3, src.draw(40), src.draw(400)])
        p = {"array_type": t, "id": g.pid(), "value": {"values": [of[t]() for _ in range(n)]}, "type": "ArrayProperty"}
        to = d["properties"]
        inside = [x["value"] for x in to.values() if x["type"] == "StructProperty" and x["struct_type"] not in M.STRUCT and "custom_type" not in x]
        if inside and src.chance(1, 3):
            to = src.choice(inside)
        to["Array%d" % k] = p
        seen.append(f"{n} {t}")
    raw = M.encode(d)
    C.note(case, raw, ["array of " + x.split()[1] for x in seen], {"arrays": seen})
    C.check_stored(d, raw)


def deep(src, i, case):
    """Nests far deeper than any game save: stored completely, or refused."""
    n, d, raw = C.deep_doc(src)
    C.note(case, raw, ["%d+ levels" % (n // 100 * 100)], {"levels": n, "bytes": len(raw)}, n > 40)
    if src.chance(1, 8):
        try:
            text = json.dumps(d)
        except RecursionError:
            return
        with cli.Dir() as w:
            res = cli.convert([w.write("a.sav.json", text.encode())])
            if res.code:
                back = None
                if "a.sav" in w.tree():
                    C.fail(f"a document of {n} levels was refused but left a save behind")
            else:
                with open(w.path("a.sav"), "rb") as f:
                    back, _ = C.unpack(f.read())
    else:
        try:
            back = T.GvasFile.load(d).write(T.CUSTOM)
        except Exception as e:
            if n <= 30:
                C.fail(f"writing a document of {n} levels failed: {e!r}")
            return
    if back is not None and back != raw:
        C.fail(f"a document of {n} levels was written differently: " + T.first_diff(raw, back))


def outside(src, t):
    if t == "f32":
        return src.choice([3.5e38, -3.5e38, 1e39, 1e308, -1e100])
    if t == "bytes":
        b = list(src.bytes(src.draw(5)))
        b.insert(src.draw(len(b) + 1), src.choice([256, -1, 1000, 1 << 32, -256]))
        return b
    lo, hi = E.RANGES[t]
    r = src.draw(4)
    if r == 0:
        return hi + 1 + src.draw(3)
    if r == 1:
        return lo - 1 - src.draw(3)
    if r == 2:
        return src.choice([1 << 64, -(1 << 64), (1 << 64) + 1, hi * 2 + 1 + hi, lo - (1 << 40), hi + (1 << 32) + 1, 10**30])
    return src.choice([0.5, 1.5, -0.25, 2.75])


def refused(src, i, case):
    g, d = C.any_doc(src, header=src.chance(1, 2))
    e = [x for x in E.Walk(d).sites if x[0] == "leaf" and (x[2] in E.INTTYPES or x[2] in ("f32", "bytes"))]
    if not e:
        return
    x = src.choice(e)
    v = outside(src, x[2])
    E.at(d, x[1][:-1])[x[1][-1]] = v
    where = "/".join(map(str, x[1]))
    C.note(case, repr((where, v, C.show(d, 3000))), ["out of range " + x[2]], {"where": where, "value": repr(v), "type": x[2]})
    try:
        back = T.doc_raw(C.clone(d))
    except Exception:
        return
    C.fail(f"the value {v!r} does not fit {where} ({x[2]}) but was written", d, back)


UNKNOWN = ["FancyProperty", "IntPropertyx", "intproperty", "", "None", "Int", "xStructProperty", "Struct", " IntProperty", "Properties",
           "Property", "ByteArray"]
TYPES = set(M.LEAF) | {"StructProperty", "EnumProperty", "BoolProperty", "ArrayProperty", "MapProperty"}
KNOWN = {"type": TYPES, "array_type": set(M.ARRVAL) | TYPES, "key_type": set(M.PLAINVAL) | TYPES, "value_type": set(M.PLAINVAL) | TYPES}


def named(x, path, acc):
    """Properties (with their paths) whose type the writer itself looks at."""
    if x.__class__ is dict:
        if x.get("type").__class__ is str and x["type"].endswith("Property") and len(path) > 1:
            acc.append(path)
            if x["type"] == "EnumProperty":
                return
        for k, v in x.items():
            named(v, path + (k,), acc)
    elif x.__class__ is list:
        for i, v in enumerate(x[:4]):
            named(v, path + (i,), acc)


def unwritable(src, i, case):
    """Documents that cannot be stored: unknown types, missing members, members of another kind, a property called None."""
    g, d = C.any_doc(src, header=src.chance(1, 4))
    kind = src.draw(6)
    if kind < 2:
        acc = []
        named(d["properties"], ("properties",), acc)
        if not acc:
            return
        path = src.choice(acc)
        p = E.at(d, path)
        t = src.choice(UNKNOWN) if src.chance(2, 3) else P.norm16(g.text())
        opts = ["custom_type", "custom_type", "type"] if "custom_type" in p else ["type", "type"]
        if "custom_type" not in p:
            v = p.get("value")
            if p["type"] == "ArrayProperty" and v.__class__ is dict and v.get("values") and p["array_type"] != "StructProperty":
                opts.append("array_type")
            if p["type"] == "MapProperty" and v:
                opts += ["key_type", "value_type"]
        k = src.choice(opts)
        if t in KNOWN.get(k, T.CUSTOM):
            return
        p[k] = t
        what = f"{k} of {'/'.join(map(str, path))} is {t!r}"
    elif kind < 5:
        e = [x for x in E.Walk(d).sites if x[0] == "leaf" and x[2] not in ("bool", "bytes") and E.at(d, x[1][:-1]).__class__ is dict]
        if not e:
            return
        x = src.choice(e)
        q, k = E.at(d, x[1][:-1]), x[1][-1]
        if kind == 2:
            del q[k]
            what = "missing"
        elif kind == 3:
            if x[2] not in E.INTTYPES:  # null stands for an absent guid or a NaN, and may for an empty text
                return
            q[k] = None
            what = "null"
        else:
            q[k] = src.choice(["text", "1", "12x", [1], {"value": 1}]) if x[2] not in ("str", "guid") else src.choice([1, 0.5, [1, 2], {"value": 1}])
            what = repr(q[k])
        what = f"{'/'.join(map(str, x[1]))} ({x[2]}) is {what}"
    else:
        e = [x for x in E.Walk(d).sites if x[0] == "props"]
        q = E.at(d, src.choice(e)[1])
        new = src.choice([{"id": None, "value": 3, "type": "IntProperty"}, {"id": None, "value": "x", "type": "StrProperty"},
                          {"id": None, "value": True, "type": "BoolProperty"}])
        items = list(q.items())
        items.insert(src.draw(len(items) + 1), ("None", new))
        q.clear()
        q.update(items)
        what = "a property is called None, the mark of the end of a list of properties"
    C.note(case, repr((what, C.show(d, 3000))), ["unknown type" if kind < 2 else "member" if kind < 5 else "None"], {"what": what})
    try:
        back = T.doc_raw(C.clone(d))
    except Exception:
        return
    C.fail(f"a document that cannot be stored was written: {what}", d, back)


CHECK = Check(
    "C03",
    "a case is a document with a sequence of edits (or one out-of-range number); non-trivial: at least one edit was "
    "applied and the written bytes were compared with the reference encoding of the edited document",
    [
        Stage("edited", edited, 9000, 300000, "read, edit the JSON 1-4 times, write, read back"),
        Stage("live", live, 5000, 150000, "edit the parsed object, write"),
        Stage("fresh", fresh_doc, 9000, 300000, "write a generated document"),
        Stage("sizes", sizes, 1860, 40000, "one thing of a chosen size"),
        Stage("written only", written_only, 4000, 100000, "arrays of kinds that no save read here holds"),
        Stage("deep", deep, 1500, 40000, "nests of up to 2000 levels"),
        Stage("unwritable", unwritable, 6000, 150000, "documents with unknown types, missing or wrong members"),
        Stage("refused", refused, 6000, 150000, "one number outside its type's range"),
    ],
)
