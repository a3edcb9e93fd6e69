from vf import gen as G
from vf import model as M
from vf import tool as T

ALL = sorted(G.NAMES)


def catalogue(src, i, case):
    """Every known map object name, in several spellings, with data of its class."""
    name = ALL[i % len(ALL)]
    cls = G.NAMES[name]
    g = G.Gen(src, budget=20)
    mo = g.map_object()
    if cls in M.CONCRETE or cls in G.NOOP:
        v = g.rec(M.CONCRETE_BASE)
        v["concrete_model_type"] = cls
        v.update(g.rec(M.CONCRETE.get(cls, [])))
    else:
        v = {"values": list(src.bytes(32)) + g.rawbytes()}
    mo["MapObjectId"]["value"] = name if i < len(ALL) else g.object_id(name)
    mo["ConcreteModel"]["value"]["RawData"]["value"] = v
    d = {"header": g.plain_header(), "trailer": "AAAAAA==", "properties": {"worldSaveData": g.struct("PalWorldSaveData", {
        "MapObjectSaveData": g.arrprop("MapObjectSaveData", "PalMapObjectSaveData", [mo], M.W + "MapObjectSaveData")})}}
    raw = M.encode(d)
    C.note(case, raw, ["catalogue"], {"name": mo["MapObjectId"]["value"], "class": cls})
    got = C.check_shown(d, raw)
    back = T.must("writing the unedited document failed", T.doc_raw, got)
    if back != raw:
        C.fail("writing the map object back changed it: " + T.first_diff(raw, back), d, raw)


from vf import common as C
from vf.engine import Check, Stage

SECTIONS = ['MapObjectSaveData', 'FoliageGridSaveDataMap']
CHECK = Check(
    "C06",
    "a case is a world save with generated map objects and foliage; non-trivial: every field shown was compared with the generated "
    "value, the bytes were reproduced, and edits to decoded fields were stored exactly",
    [
        Stage("sections", C.section_case(SECTIONS, None), 12000, 400000, "one to three sections, then up to two edits of decoded fields"),
        Stage("single", C.one_section_case(SECTIONS, None), 16000, 400000, "one entry of one section"),
        Stage("sizes", C.section_sizes(['sign', 'connectors']), 1200, 20000, "one text or list of a chosen size"),
        Stage("catalogue", catalogue, 2 * len(G.NAMES) * 2, 60000, "every map object name of the catalogue, in two spellings"),
    ],
)
