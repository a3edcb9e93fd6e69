import json
import os
import sys
import threading
import time

from vf import cli
from vf import cmdmodel as CM
from vf import common as C
from vf import edits as E
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.checks.c08 import present_in, subset
from vf.checks.c12 import nulled
from vf.engine import Check, Discard, Stage, Violation


class File:
    def __init__(self, src, budget=24):
        self.g, self.doc = C.any_doc(src, budget=budget, header=src.chance(1, 4))
        self.raw = M.encode(self.doc)
        self.present = sorted(present_in(self.doc))


class Session:
    """A file object being worked on: what it must show and what it must write."""

    def __init__(self, f, obj, doc, raw, shows):
        self.f, self.obj, self.doc, self.raw, self.shows = f, obj, doc, raw, shows
        self.written = False


def damaged(src, f):
    raw = bytearray(f.raw)
    k = src.draw(5)
    if k == 0:
        return bytes(raw[: src.draw(len(raw))])
    if k == 1:
        raw[src.draw(len(raw))] ^= 1 << src.draw(8)
        return bytes(raw)
    if k == 2:
        return src.bytes(src.draw(30))
    if k == 3:
        n = len(M.e_header(f.doc["header"]))
        return bytes(raw[:n]) + M.e_str("A") + M.e_str("NewProperty") + M.P_U64(1) + b"\0\0"
    p = src.draw(len(raw))
    return bytes(raw[:p] + src.bytes(1 + src.draw(5)) + raw[p:])


def poison(src, f):
    """A document whose writing fails somewhere in the middle."""
    d = C.clone(f.doc)
    sites = [s for s in E.Walk(d).sites if s[0] == "leaf"]
    if sites:
        s = src.choice(sites)
        bad = {"str": 5, "guid": "not a guid", "bytes": [300]}.get(s[2], 1 << 70 if s[2] in E.INTTYPES else "x")
        E.at(d, s[1][:-1])[s[1][-1]] = bad
    else:
        d["trailer"] = None
    return d


OPS = [
    (6, "read"), (3, "load"), (6, "dump"), (6, "write"), (2, "failing read"), (2, "failing write"), (2, "edit"), (1, "command"),
    (1, "container"), (2, "plain read"), (1, "own decoder fails"),
]


class Boom(Exception):
    pass


def step(src, op, files, sessions, log, where):
    f = src.choice(files)
    log.append(op)

    def must(what, fn, *a, **k):
        return T.must(f"after {log}: {what}", fn, *a, **k)

    def bad(msg, doc=None, raw=None):
        C.fail(f"after {log}: {msg}", doc, raw)

    if op == "read":
        nan = not src.chance(1, 4)
        if src.draw(2):
            obj = must("reading failed", T.read, f.raw, None, nan)
            doc = f.doc
        else:
            sel = subset(src, f.present)
            obj = must("reading failed", T.read, f.raw, {p: T.CUSTOM[p] for p in sel}, nan)
            doc = M.undecode(f.doc, set(sel))
        shows = doc if nan else nulled(doc)
        raw = f.raw if nan else M.encode(shows)
        sessions.append(Session(f, obj, doc, raw, shows))
    elif op == "load":
        sessions.append(Session(f, must("loading failed", T.GvasFile.load, C.clone(f.doc)), f.doc, f.raw, f.doc))
    elif op in ("dump", "write", "edit"):
        if not sessions:
            return
        s = src.choice(sessions)
        if op == "edit" and not s.written and s.shows is s.doc and s.doc is s.f.doc:
            d = json.loads(must("dumping failed", T.to_text, s.obj))
            e = E.pick(s.f.g, s.doc, lambda x: True)
            if e is None:
                return
            what, fn = e
            new = C.clone(s.doc)
            fn(new)
            try:
                fn(d)
            except (KeyError, IndexError, TypeError, AttributeError) as x:
                bad(f"the document lacks what the save stores: cannot {what} ({x!r})", s.doc, s.raw)
            sessions.append(Session(s.f, must("loading failed", T.GvasFile.load, d), new, M.encode(new), new))
        elif op == "write":
            b = must("writing failed", s.obj.write, T.CUSTOM)
            if b != s.raw:
                bad(("writing again" if s.written else "writing") + " gave other bytes: " + T.first_diff(s.raw, b), s.doc, s.raw)
            s.written = True
        else:
            text = must("dumping failed" + (" once written" if s.written else ""), T.to_text, s.obj)
            got = json.loads(text)
            if not s.written:
                r = M.same(s.shows, got)
                if r:
                    bad("the document differs: " + r, s.doc, s.raw)
            else:
                try:
                    b = M.encode(got)
                except Exception as e:
                    bad(f"the document dumped after writing is not one: {e!r}", got)
                if b != s.raw:
                    bad("the document dumped after writing says something else: " + T.first_diff(s.raw, b), got)
    elif op == "failing read":
        try:
            T.read(damaged(src, f)).dump()
        except Exception:
            pass
    elif op == "failing write":
        try:
            T.doc_raw(poison(src, f))
        except Exception:
            pass
    elif op == "own decoder fails":
        # a decoder of the caller that gives up in the middle of a conversion
        n = [src.draw(4)]

        def dec(reader, t, size, path):
            n[0] -= 1
            if n[0] < 0:
                raise Boom()
            return T.CUSTOM[path][0](reader, t, size, path)

        try:
            T.read(f.raw, {p: (dec, T.CUSTOM[p][1]) for p in f.present})
        except Boom:
            pass
    elif op == "plain read":
        d = f.doc["properties"]
        if "worldSaveData" in d:
            return
        obj = must("reading without tables failed", T.GvasFile.read, f.raw)
        sessions.append(Session(f, obj, f.doc, f.raw, f.doc))
    elif op == "container":
        t = src.choice([0x31, 0x32])
        sav = must("compressing failed", T.palsav.compress_gvas_to_sav, f.raw, t)
        raw, tt = must("decompressing failed", T.palsav.decompress_sav_to_gvas, sav)
        if (raw, tt) != (f.raw, t):
            bad("compressing and decompressing changed the save", f.doc, f.raw)
    elif op == "command":
        with cli.Dir() as w:
            if src.draw(3) == 0:
                data, what = CM.invalid(src, "json")
                cli.convert([w.write("bad.sav", data)])
                log[-1] = "command on " + what
            p = w.write("a.sav", C.pack(f.raw, 0x32))
            flags = src.choice([[], ["--minify-json"], ["--convert-nan-to-null"], ["--custom-properties", "none"]])
            res = cli.convert([p] + flags)
            if res.code:
                bad(f"convert {flags} exited with {res.code}: {res.tail()}", f.doc, f.raw)
            with open(p + ".json", encoding="utf8") as fh:
                got = json.load(fh)
            want = f.doc
            if "none" in flags:
                want = M.undecode(want, set())
            raw = f.raw
            if "--convert-nan-to-null" in flags:
                want = nulled(want)
                raw = M.encode(want)
            r = M.same(want, got)
            if r:
                bad(f"convert {flags}: the document differs: {r}", f.doc, f.raw)
            res = cli.convert([p + ".json", "--output", w.path("b.sav")])
            if res.code:
                bad(f"converting back exited with {res.code}: {res.tail()}", f.doc, f.raw)
            with open(w.path("b.sav"), "rb") as fh:
                back, _ = C.unpack(fh.read())
            if back != raw:
                bad("converting back gave other bytes: " + T.first_diff(raw, back), f.doc, raw)


def history(src, i, case):
    files = [File(src) for _ in range(1 + src.draw(3))]
    sessions, log = [], []
    n = 3 + src.draw(12)
    for _ in range(n):
        step(src, src.weighted(OPS), files, sessions, log, case)
    # in the end everything still open must be what it was
    for s in sessions[-3:]:
        b = T.must(f"after {log}: writing failed", s.obj.write, T.CUSTOM)
        if b != s.raw:
            C.fail(f"after {log}: a session writes other bytes: " + T.first_diff(s.raw, b), s.doc, s.raw)
    C.note(case, b"|".join(f.raw for f in files) + repr(log).encode(), sorted(set(log)), log, len(set(log)) > 1 and bool(sessions))


def twice(src, i, case):
    """read; write; dump; write; dump: the file object stays usable."""
    f = File(src, 50)
    load = src.draw(2)
    C.note(case, f.raw + bytes([load]), ["loaded" if load else "read"] + ["section:" + p for p in f.present], C.show(f.doc, 300))
    obj = T.GvasFile.load(C.clone(f.doc)) if load else T.must("reading failed", T.read, f.raw)
    log = []
    for _ in range(2 + src.draw(3)):
        b = T.must(f"after {log}: writing failed", obj.write, T.CUSTOM)
        log.append("write")
        if b != f.raw:
            C.fail(f"after {log}: the bytes differ: " + T.first_diff(f.raw, b), f.doc, f.raw)
        got = json.loads(T.must(f"after {log}: dumping failed", T.to_text, obj))
        log.append("dump")
        try:
            b = M.encode(got)
        except Exception as e:
            C.fail(f"after {log}: what was dumped is not a document: {e!r}", got)
        if b != f.raw:
            C.fail(f"after {log}: the document says something else: " + T.first_diff(f.raw, b), got)
        if src.chance(1, 2):
            b = T.must(f"after {log}: converting the dumped document failed", T.doc_raw, got)
            if b != f.raw:
                C.fail(f"after {log}: the dumped document converts to other bytes: " + T.first_diff(f.raw, b), f.doc, f.raw)


def spoil(src, root):
    """Changes every container of a parsed document in place."""
    todo, seen = [root], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, dict):
            todo += list(x.values())
            how = src.draw(4)
            if how == 0:
                x.clear()
            x["spoiled"] = {"values": [1]}
            if how == 1:
                for k in x:
                    x[k] = -1
        elif isinstance(x, list):
            todo += x
            how = src.draw(4)
            if how == 0:
                x.clear()
            elif how == 1:
                x[:] = [-1] * len(x)
            x.append("spoiled")
        elif isinstance(x, bytearray):
            x[:] = b"spoiled"


def spoiled(src, i, case):
    """Nothing a caller does to a parsed document reaches other ones, parsed before or after."""
    a, b = File(src, 30), File(src, 20)
    which = src.draw(3)
    C.note(case, a.raw + b.raw + bytes([which]), ["section:" + p for p in a.present], C.show(a.doc, 300))
    before = T.must("reading failed", T.read, b.raw)
    if which == 0:
        obj = T.must("reading failed", T.read, a.raw)
    else:
        obj = T.GvasFile.load(C.clone(a.doc))
        if which == 2:
            T.must("writing failed", obj.write, T.CUSTOM)
    log = "changing everything in a " + ["parsed", "loaded", "written"][which] + " document"
    spoil(src, [obj.properties])
    if src.draw(2):
        spoil(src, list(getattr(obj.header, "__dict__", {}).values()))
    for f, o in ((a, None), (b, before), (b, None)):
        if o is None:
            o = T.must(f"after {log}: reading failed", T.read, f.raw)
        got = json.loads(T.must(f"after {log}: dumping failed", T.to_text, o))
        r = M.same(f.doc, got)
        if r:
            C.fail(f"after {log}, another document differs: {r}", f.doc, f.raw)
        back = T.must(f"after {log}: writing failed", T.doc_raw, got)
        if back != f.raw:
            C.fail(f"after {log}, another document is written differently: " + T.first_diff(f.raw, back), f.doc, f.raw)


def convert_once(f, how):
    """One whole conversion, judged; -> None or a message."""
    try:
        if how == 0:
            got = T.sav_doc(f.raw)
            r = M.same(f.doc, got)
            if r:
                return "the document differs: " + r
            b = T.doc_raw(got)
        elif how == 1:
            b = T.doc_raw(C.clone(f.doc))
        else:
            sav = T.palsav.compress_gvas_to_sav(f.raw, 0x32)
            raw, t = T.palsav.decompress_sav_to_gvas(sav)
            if raw != f.raw or t != 0x32:
                return "the container changed"
            b = T.read(raw).write(T.CUSTOM)
        if b != f.raw:
            return "the bytes differ: " + T.first_diff(f.raw, b)
    except Violation as e:
        return e.message
    except Exception as e:
        return f"{type(e).__name__}: {T.short(str(e), 200)}"
    return None


def reentrant(src, i, case):
    """A conversion started from within another one's decoder or encoder."""
    a, b = File(src, 30), File(src, 20)
    if not a.present:
        C.note(case, a.raw, nontrivial=False)
        return
    when = [src.draw(3), src.draw(3)]
    how = src.draw(3)
    path = src.choice(a.present)
    C.note(case, a.raw + b.raw + repr((when, path, how)).encode(), ["inside " + path], {"outer": C.show(a.doc, 200), "inner": C.show(b.doc, 200)})
    seen = []

    def inner(which):
        if when[which] == 0:
            m = convert_once(b, how)
            seen.append(which)
            if m:
                raise Violation(f"a conversion inside {'the decoder' if which == 0 else 'the encoder'} for {path}: {m}")
        when[which] -= 1

    def dec(reader, t, size, p):
        inner(0)
        v = T.CUSTOM[p][0](reader, t, size, p)
        inner(0)
        return v

    def enc(writer, t, p):
        inner(1)
        n = T.CUSTOM[path][1](writer, t, p)
        inner(1)
        return n

    table = dict(T.CUSTOM)
    table[path] = (dec, enc)
    got = T.must(f"reading with a conversion inside {path} failed", T.sav_doc, a.raw, table)
    r = M.same(a.doc, got)
    if r:
        C.fail(f"with a conversion inside {path} the document differs: {r}", a.doc, a.raw)
    back = T.must(f"writing with a conversion inside {path} failed", T.GvasFile.load(got).write, table)
    if back != a.raw:
        C.fail(f"with a conversion inside {path} the bytes differ: " + T.first_diff(a.raw, back), a.doc, a.raw)


class Baton:
    """Runs threads one at a time, switching at traced lines (or instructions) of the package as the drawn schedule says.

    If the running thread blocks (the package may use locks), control is dropped and the threads run freely."""

    def __init__(self, src, n, opcodes):
        self.src, self.opcodes = src, opcodes
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.now = 0
        self.left = 1 + src.draw(30)
        self.free = False
        self.switches = self.draws = 0
        self.span = src.choice([3, 20, 100])

    def tracer(self, me):
        def local(frame, event, arg):
            if self.opcodes:
                frame.f_trace_opcodes = True
            if event == "line" or event == "opcode":
                self.tick(me)
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if "palworld_save_tools" in fn:
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        return glob

    def tick(self, me):
        if self.free:
            return
        self.left -= 1
        if self.left <= 0 and self.switches < 400 and self.draws < 4000 and len(self.alive) > 1:
            self.draws += 1
            self.left = 1 + self.src.draw(self.span)
            if len(self.alive) > 1:
                nxt = self.alive[self.src.draw(len(self.alive))]
                if nxt != me:
                    self.switches += 1
                    self.now = nxt
                    self.sem[nxt].release()
                    self.wait(me)

    def wait(self, me):
        while not self.sem[me].acquire(timeout=2.0):
            if self.free:
                return
            self.free = True  # the other thread is stuck, perhaps waiting for something this one holds

    def done(self, me):
        self.alive.remove(me)
        if self.alive and not self.free:
            self.now = self.alive[0]
            self.sem[self.now].release()


def finish(ts):
    """Waits for the threads; what is still computing then (a slow machine) says nothing, what is stuck does."""
    cpu, end = time.process_time(), time.monotonic() + 100
    for t in ts:
        t.join(max(0.0, end - time.monotonic()))
    if any(t.is_alive() for t in ts) and time.process_time() - cpu > 5:
        raise Discard()


def scheduled(src, i, case):
    """Concurrent conversions under a drawn, replayable schedule."""
    n = 2 + (src.draw(4) == 0)
    files = [File(src, 10) for _ in range(n)]
    if src.chance(1, 4):
        files = [files[0]] * n
    hows = [src.draw(3) for _ in range(n)]
    b = Baton(src, n, src.chance(1, 5))
    out = [None] * n

    def run(k):
        b.wait(k)
        sys.settrace(b.tracer(k))
        try:
            out[k] = convert_once(files[k], hows[k]) or "fine"
        except BaseException as e:  # noqa
            out[k] = repr(e)
        finally:
            sys.settrace(None)
            b.done(k)

    ts = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(n)]
    for t in ts:
        t.start()
    b.sem[0].release()
    finish(ts)
    C.note(case, b"|".join(f.raw for f in files) + repr((hows, b.switches)).encode(), ["opcode switches" if b.opcodes else "line switches", "%d+ switches" % (b.switches // 50 * 50)],
           {"switches": b.switches, "conversions": hows}, b.switches > 1)
    for k in range(n):
        if out[k] != "fine":
            C.fail(f"of {n} concurrent conversions (with {b.switches} switches), number {k}: {out[k] or 'did not finish'}", files[k].doc, files[k].raw)


def threads(src, i, case):
    """Concurrent conversions under the interpreter's own scheduling."""
    n = 3 + src.draw(4)
    files = [File(src, 20) for _ in range(n)]
    hows = [src.draw(3) for _ in range(n)]
    reps = 2 + src.draw(2)
    out = [None] * n
    gate = threading.Barrier(n)

    def run(k):
        try:
            gate.wait(30)
            for _ in range(reps):
                m = convert_once(files[k], hows[k])
                if m:
                    out[k] = m
                    return
            out[k] = "fine"
        except BaseException as e:  # noqa
            out[k] = repr(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        finish(ts)
    finally:
        sys.setswitchinterval(old)
    C.note(case, b"|".join(f.raw for f in files) + repr(hows).encode(), ["%d threads" % n], {"threads": n, "conversions": hows})
    for k in range(n):
        if out[k] != "fine":
            C.fail(f"of {n} concurrent conversions, number {k}: {out[k] or 'did not finish'}", files[k].doc, files[k].raw)


def same_path(src, i, case):
    """Files that change between conversions at the same path, often without changing their size."""
    g, d = C.any_doc(src, budget=8, header=False)
    docs = [d]
    for _ in range(1 + src.draw(3)):
        n = C.clone(src.choice(docs))
        if src.draw(3):
            n["properties"]["Edited"] = {"id": None, "value": src.draw(10), "type": "IntProperty"}
        else:
            n["trailer"] = src.choice(["AAAAAA==", "AAAAAQ==", "AAAABA=="])
        docs.append(n)
    raws = [M.encode(x) for x in docs]
    texts = [json.dumps(x) for x in docs]
    size = max(map(len, texts))
    pad = src.draw(3) > 0
    names = ["a.sav", "b.sav"]
    state, log = {}, []
    with cli.Dir() as w:
        for _ in range(3 + src.draw(6)):
            name = src.choice(names)
            k = src.draw(len(docs))
            if src.draw(2):
                t = texts[k] + " " * (size - len(texts[k]) if pad else 0)
                w.write(name + ".json", t.encode())
                log.append(f"{k}: {name}.json -> {name}")
                code = cli.convert([w.path(name + ".json"), "-f"]).code
                if code:
                    C.fail(f"after {log}: convert failed", docs[k])
                with open(w.path(name), "rb") as f:
                    b, _ = C.unpack(f.read())
                if b != raws[k]:
                    C.fail(f"after {log}: the save holds something else: " + T.first_diff(raws[k], b), docs[k], raws[k])
            else:
                w.write(name, C.pack(raws[k], src.choice([0x31, 0x32]), 0 if pad else 6))
                log.append(f"{k}: {name} -> {name}.json")
                code = cli.convert([w.path(name), "-f"]).code
                if code:
                    C.fail(f"after {log}: convert failed", docs[k])
                with open(w.path(name + ".json"), encoding="utf8") as f:
                    got = json.load(f)
                x = M.same(docs[k], got)
                if x:
                    C.fail(f"after {log}: the JSON shows something else: " + x, docs[k], raws[k])
    C.note(case, "|".join(texts) + repr(log), ["same sizes" if pad else "own sizes"], log, len(log) > 1)


def settings(src, i, case):
    """The same conversions twice, in drawn orders, in one process that runs under other settings (debugging, no optional modules ...)."""
    from vf.checks import c14

    jobs, expect, labels = c14.make_jobs(src, 16)
    conf = c14.CONFIGS[1 + i % (len(c14.CONFIGS) - 1)]
    order = []
    for _ in range(2):
        left = list(range(len(jobs)))
        while left:
            order.append(left.pop(src.draw(len(left))))
    C.note(case, json.dumps(jobs), ["settings: " + conf[0]], {"jobs": [jobs[k]["op"] for k in order], "settings": conf[0]})
    with cli.Dir() as w:
        res = c14.run([jobs[k] for k in order], conf, src.draw(4000000000), w)
    seen = {}
    for k, r in zip(order, res):
        d = expect[k][1] if expect[k] else None
        if k in seen and seen[k] != r:
            C.fail(f"{jobs[k]['op']} gave another result the second time in one process under '{conf[0]}': " + c14.diff(seen[k], r), d)
        seen[k] = r
        if expect[k]:
            try:
                c14.verify(expect[k], r, jobs[k])
            except Violation as e:
                raise Violation(f"among other conversions under '{conf[0]}': {e}", e.case)


CHECK = Check(
    "C20",
    "a case is a history of operations over generated files (reads with various selections, loads, dumps, writes, edits, failures, commands, "
    "containers), a conversion nested in another one's decoder, or concurrent conversions under a drawn schedule; non-trivial: at "
    "least two kinds of operation (two switches between threads) occurred and every result was compared with the model",
    [
        Stage("history", history, 9000, 300000, "operation histories"),
        Stage("twice", twice, 8000, 200000, "written and dumped repeatedly"),
        Stage("spoiled", spoiled, 4000, 100000, "every container of one document changed in place"),
        Stage("same path", same_path, 2500, 60000, "files that change between conversions, often keeping their size"),
        Stage("reentrant", reentrant, 4000, 100000, "conversions inside conversions"),
        Stage("scheduled", scheduled, 2400, 60000, "threads under a drawn schedule"),
        Stage("settings", settings, 56, 1400, "conversions in drawn orders, twice, in a process under other settings"),
        Stage("threads", threads, 800, 20000, "threads under the interpreter's schedule"),
    ],
    assumptions=["histories and schedules are sampled; the drawn schedules switch at lines or instructions of the package's own Python code"],
)
