import gc
import json
import time

from vf import cli
from vf import common as C
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage

FACTOR = 8
LIMIT = 3.0  # times more per byte than proportional; what is measured here for proportional work is 0.6 to 1.5
LEAST = 0.25  # seconds beyond proportional below which nothing is concluded
KINDS = [k for k in C.SWEEP_KINDS if k not in ("depth", "nested_arrays")]


def cost(fn, *a):
    """CPU time of this thread only, without the cyclic garbage collector: other load hardly matters."""
    gc.collect()
    gc.disable()
    try:
        t = time.thread_time()
        r = fn(*a)
        return time.thread_time() - t, r
    finally:
        gc.enable()


def show(raw, **how):
    return T.to_text(T.read(raw, **how), how.get("allow_nan", True))


def write(text):
    # the document is fresh each time, for writing may consume it
    doc = json.loads(text)
    return cost(T.doc_raw, doc)


STEPS = {
    "reading the save and showing it": lambda x: cost(show, x),
    "reading the save with no custom data decoded": lambda x: cost(lambda r: show(r, custom={}), x),
    "reading the save with NaN as null": lambda x: cost(lambda r: show(r, allow_nan=False), x),
    "writing the document": write,
    "compressing, singly": lambda x: cost(T.palsav.compress_gvas_to_sav, x, 0x31),
    "compressing, doubly": lambda x: cost(T.palsav.compress_gvas_to_sav, x, 0x32),
    "decompressing": lambda x: cost(T.palsav.decompress_sav_to_gvas, x),
}


def step_of(step):
    """A command: its argument is an argument list."""
    main = cli.resave if step.startswith("the resave") else cli.convert

    def run(argv):
        t, r = cost(main, argv)
        if r.code != 0 and main is cli.convert:
            raise RuntimeError(f"exit status {r.code}: {r.exc!r}")
        return t, r

    return run


def proportional(step, small, large, what, ratio, times=2):
    """large is `ratio` times small; the step must not take much more than `ratio` times as long. Slow only if it stays slow."""
    f = STEPS.get(step) or step_of(step)
    a = b = 1e9
    out = None
    for k in range(times + 3):
        a = min(a, T.must(f"{step} failed ({what})", f, small)[0])
        tb, out = T.must(f"{step} failed ({what})", f, large)
        b = min(b, tb)
        if b <= LIMIT * ratio * a or b - ratio * a < LEAST:
            return out
        if b > 20:  # no need to wait for more of it
            break
    C.fail(f"{step} takes {a:.4f} s, but {b:.3f} s for {ratio:.1f} times as much ({what}): {b / a / ratio:.1f} times more than proportional")


def both(src, d1, d2, what, case):
    step, how = src.weighted([
        (4, ("reading the save and showing it", {})),
        (1, ("reading the save with no custom data decoded", {"custom": {}})),
        (1, ("reading the save with NaN as null", {"allow_nan": False})),
    ])
    r1, r2 = M.encode(d1), M.encode(d2)
    ratio = len(r2) / len(r1)
    C.note(case, repr(what), ["growing " + what[0]], {"what": what[0], "entries": what[1:], "bytes": [len(r1), len(r2)]}, ratio > 4)
    w = f"{what[0]} of sizes {what[1]} and {what[2]}, saves of {len(r1)} and {len(r2)} bytes"
    t2 = proportional(step, r1, r2, w, ratio)
    t1 = show(r1, **how)
    back = proportional("writing the document", t1, t2, w, ratio)
    if back != r2 and "allow_nan" not in how:  # which may lose infinities
        C.fail(f"save -> JSON -> save changed the save ({w}): " + T.first_diff(r2, back))


def kinds(src, i, case):
    kind = KINDS[i % len(KINDS)]
    n = (400000 if kind in C.CHEAP - {"bytes", "raw_unknown", "group_name", "sign"} else 60000 if kind in C.CHEAP else 4000)
    n = n // 2 + src.draw(n)
    s = src.draw(1 << 30)
    from vf.engine import Src

    both(src, C.sweep_doc(Src(s), kind, n), C.sweep_doc(Src(s), kind, n * FACTOR), (kind, n, n * FACTOR), case)


def lists(x, path, out):
    """Places of the lists of records in a section."""
    if x.__class__ is dict:
        for k, v in x.items():
            lists(v, path + (k,), out)
    elif x.__class__ is list and x and x[0].__class__ is dict:
        out.append(path)
        for k, v in enumerate(x[:2]):
            lists(v, path + (k,), out)


def sections(src, i, case):
    """A section of the world, one of whose lists of records is repeated."""
    name = list(G.SECTIONS)[i % len(G.SECTIONS)]
    g = G.Gen(src, budget=12)
    d = {"header": g.plain_header(), "properties": {"worldSaveData": g.world([name])}, "trailer": "AAAAAA=="}
    out = []
    lists(d["properties"]["worldSaveData"]["value"][name], ("properties", "worldSaveData", "value", name), out)
    out = [p for p in out if p[-1] != "custom_versions"]
    if not out:
        return
    path = out[0] if src.chance(1, 2) else src.choice(out)
    from vf.edits import at

    if not all(e.__class__ is dict for e in at(d, path)):
        return
    one = len(M.encode(d))
    entries = at(d, path)
    try:
        size = max(1, (len(M.encode(grown(d, path, 50))) - one) // (50 * len(entries)))
    except (KeyError, TypeError, ValueError):
        return  # a list of fixed length
    n = max(4, min(1500, (30000 + src.draw(30000)) // size))
    try:
        d1, d2 = grown(d, path, n), grown(d, path, n * FACTOR)
        M.encode(d1)
    except (KeyError, TypeError, ValueError):
        return
    both(src, d1, d2, (name + ": " + ".".join(str(k) for k in path[4:]), n, n * FACTOR), case)


def grown(d, path, n):
    """The document with the list at the path repeated up to n entries and more (entries differ in a number or guid where they have one)."""
    from vf.edits import at

    d = C.clone(d)
    lst = at(d, path)
    base = lst[:]
    for k in range(n):
        e = C.clone(base[k % len(base)])
        vary(e, k)
        lst.append(e)
    return d


def vary(e, k):
    """Give the entry a guid or number of its own."""
    if e.__class__ is not dict:
        return False
    for f, v in e.items():
        if v.__class__ is str and len(v) == 36 and v.count("-") == 4:
            e[f] = "%08x" % (k * 2654435761 % (1 << 32)) + v[8:]
            return True
        if vary(v, k):
            return True
    return False


def container(src, i, case):
    n = 300000 + src.draw(400000)
    kind = src.draw(3)
    seed = src.bytes(256)
    import random

    if kind == 0:
        mk = lambda m: (seed * (m // 256 + 1))[:m]
    elif kind == 1:
        mk = lambda m: random.Random(seed).randbytes(m)
    else:
        mk = lambda m: b"".join([seed[:9] + k.to_bytes(4, "little") for k in range(m // 13)])
    p1, p2 = mk(n), mk(n * FACTOR)
    t = src.choice([0x31, 0x32])
    C.note(case, repr((kind, n, t)), ["growing payload"], {"kind": ["repeated", "random", "counting"][kind], "bytes": [len(p1), len(p2)], "type": t})
    step = "compressing, singly" if t == 0x31 else "compressing, doubly"
    w = f"payloads of {len(p1)} and {len(p2)} bytes"
    c2 = proportional(step, p1, p2, w, FACTOR)
    c1 = T.palsav.compress_gvas_to_sav(p1, t)
    back = proportional("decompressing", c1, c2, w, FACTOR)
    if back != (p2, t):
        C.fail(f"decompressing gave another payload ({w})")


def command(src, i, case):
    """The same through the commands, on files."""
    kind = KINDS[i % len(KINDS)]
    n = 400000 if kind in C.CHEAP else 4000
    n = n // 2 + src.draw(n)
    s = src.draw(1 << 30)
    from vf.engine import Src

    raws = [M.encode(C.sweep_doc(Src(s), kind, m)) for m in (n, n * FACTOR)]
    ratio = len(raws[1]) / len(raws[0])
    t = src.choice([0x31, 0x32])
    resave = src.chance(1, 6)
    C.note(case, repr((kind, n, t)), ["growing " + kind + " by command"], {"kind": kind, "sizes": [n, n * FACTOR], "bytes": [len(r) for r in raws]}, ratio > 4)
    w = f"{kind} of sizes {n} and {n * FACTOR}, saves of {len(raws[0])} and {len(raws[1])} bytes"
    with cli.Dir() as d:
        savs = [d.write(f"{k}.sav", C.pack(raw, t)) for k, raw in enumerate(raws)]
        if resave:
            proportional("the resave test", [savs[0]], [savs[1]], w, ratio, 1)
            return
        opts = src.choice([[], [], ["--minify-json"], ["--convert-nan-to-null"], ["--custom-properties", "all"], ["--custom-properties", ""]])
        js = [d.path(f"{k}.json") for k in range(2)]
        proportional("the convert command to JSON", *[[a, "--to-json", "--output", b, "--force"] + opts for a, b in zip(savs, js)], w, ratio, 1)
        outs = [d.path(f"{k}.out.sav") for k in range(2)]
        proportional("the convert command from JSON", *[[a, "--from-json", "--output", b, "--force"] for a, b in zip(js, outs)], w, ratio, 1)
        with open(outs[1], "rb") as f:
            if "--convert-nan-to-null" not in opts and C.unpack(f.read())[0] != raws[1]:
                C.fail(f"save -> JSON -> save changed the save ({w})")


CHECK = Check(
    "C27",
    "a case is a pair of saves (or payloads) of which one has eight times as many entries, characters or bytes in one place; "
    "non-trivial: the larger save is more than four times as large, and reading, showing and writing both were timed (CPU time, least of "
    "repeated measurements)",
    [
        Stage("kinds", kinds, 116, 2000, "one text, list or map of two sizes"),
        Stage("sections", sections, 160, 3000, "a list of records in a section of the world, of two sizes"),
        Stage("command", command, 58, 1200, "one text, list or map of two sizes, through the commands"),
        Stage("container", container, 24, 400, "payloads of two sizes"),
    ],
    assumptions=["CPU time measured per thread; only growth is judged, never speed"],
)
