from vf import common as C
from vf import model as M
from vf import tool as T
from vf import pools as P
from vf.engine import Check, Stage


def shown(doc, raw, got=None):
    got = C.check_shown(doc, raw) if got is None else got
    # the order of properties is what is stored, too: encoding what is shown gives the save
    back = M.encode(got)
    if back != raw:
        C.fail("the document shows the properties in another order than stored: " + T.first_diff(raw, back), doc, raw)
    return got


def whole(src, i, case):
    g, d = C.any_doc(src)
    raw = M.encode(d)
    C.note(case, raw, g.labels, C.show(d))
    shown(d, raw)


def generic(src, i, case):
    from vf import gen as G

    g = G.Gen(src, budget=40)
    d = {"header": g.plain_header(), "properties": g.props(0), "trailer": g.trailer()}
    raw = M.encode(d)
    C.note(case, raw, sorted({p["type"] for p in d["properties"].values()}), C.show(d))
    shown(d, raw)


def sizes(src, i, case):
    kind, n = C.sweep_pick(src, i)
    d = C.sweep_doc(src, kind, n)
    raw = M.encode(d)
    C.note(case, raw, ["size of " + kind], f"{kind} of size {n}, save of {len(raw)} bytes")
    shown(d, raw)


def nofile(src, i, case):
    """The parsed object itself (what a library user works with) holds the same values as its JSON."""
    g, d = C.any_doc(src)
    raw = M.encode(d)
    C.note(case, raw, sorted(g.labels) + ["live object"], C.show(d, 600))
    obj = T.must("reading a well-formed save failed", T.read, raw)
    dump = T.must("dumping failed", obj.dump)
    flat = plain(dump)
    r = M.same(d, flat)
    if r:
        C.fail("the parsed document differs from what the save stores: " + r, d, raw)


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, T.UUID):
        return str(x)
    return x


CHECK = Check(
    "C02",
    "a case is a generated document encoded by the independent encoder; non-trivial: the tool read it and every "
    "member, value, list entry and the property order were compared with the generated document",
    [
        Stage("whole", whole, 22000, 600000, "whole saves: sections and generic properties"),
        Stage("generic", generic, 14000, 400000, "generic property lists only"),
        Stage("sizes", sizes, 2480, 40000, "one thing of a chosen size"),
        Stage("object", nofile, 4000, 100000, "the parsed object before JSON encoding"),
    ],
    assumptions=["saves in canonical Unreal serialisation (see DESIGN.md, Domain)"],
)
