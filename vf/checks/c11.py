import json
import os
import resource

from vf import cli
from vf import common as C
from vf import edits as E
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage, Violation

_limited = False


def limit():
    """A refused save must not need much memory either: conversions of small saves stay far below this."""
    global _limited
    if not _limited:
        _limited = True
        cur = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
        lim = cur + (1 << 30)
        resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))


def refuse(raw, what, doc=None):
    """Reading must fail (and not for want of memory)."""
    limit()
    try:
        got = T.read(raw)
    except MemoryError:
        raise Violation(f"{what}: ran out of memory instead of being refused")
    except Exception:
        return
    C.fail(f"{what}: accepted", doc, raw)


def small_doc(src):
    g = G.Gen(src, budget=14, cap=40)
    secs = G.pick_sections(src)[:1] if src.chance(2, 3) else []
    g.n = lambda: 1
    d = g.doc(secs, not secs or src.chance(1, 3), src.chance(1, 3))
    return g, d


def ends(d):
    import base64

    raw = M.encode(d)
    return raw, len(raw) - len(base64.b64decode(d["trailer"]))


def every_cut(src, i, case):
    g, d = small_doc(src)
    raw, end = ends(d)
    step = 1 if end < 1500 else 1 + end // 1500
    start = src.draw(step) if step > 1 else 0
    C.note(case, raw, sorted(g.labels) + ["every cut point"], {"bytes": end, "document": C.show(d, 500)})
    for n in range(start, end, step):
        refuse(raw[:n], f"save cut to {n} of {len(raw)} bytes", d)


def cut(src, i, case):
    g, d = C.any_doc(src)
    raw, end = ends(d)
    n = src.choice([src.draw(end), src.draw(end), end - 1 - src.draw(min(end, 40)), src.draw(min(end, 200))])
    C.note(case, raw[:n], sorted(g.labels), {"cut": n, "of": len(raw)})
    refuse(raw[:n], f"save cut to {n} of {len(raw)} bytes", d)


def large_cut(src, i, case):
    """A large text, byte list or list of guids, cut somewhere in it or right behind it."""
    kind = src.choice(["ascii", "utf16", "bytes", "guids"])
    width = {"ascii": 1, "utf16": 2, "bytes": 1, "guids": 16}[kind]
    fr = [n for n in P.fresh().ints if 4096 < n <= 1 << 24]
    if fr and src.chance(1, 2):
        n = src.choice(fr) * src.choice([1, 1, 2])
    else:
        n = 1 << (12 + src.draw(12))
    n = min(n + src.draw(5000), 1 << 24)
    n = max(4096, n // width if src.chance(1, 2) else n)
    if width == 16:
        n = min(n, 60000)
    g = G.Gen(src, budget=4)
    chunk = src.bytes(64)
    if kind == "ascii":
        body, typ = M.P_I32(n + 1) + b"x" * n + b"\0", b""
        p = {"id": None, "value": "", "type": "StrProperty"}
    elif kind == "utf16":
        body = M.P_I32(-n - 1) + b"\x42\x26" * n + b"\0\0"
        p = {"id": None, "value": "", "type": "StrProperty"}
    elif kind == "bytes":
        body = M.P_U32(n) + (chunk * (n // 64 + 1))[:n]
        p = {"id": None, "array_type": "ByteProperty", "value": {"values": []}, "type": "ArrayProperty"}
    else:
        body = M.P_U32(n) + (chunk * (n // 4 + 1))[: n * 16]
        p = {"id": None, "array_type": "Guid", "value": {"values": []}, "type": "ArrayProperty"}
    mark = "Zz%d" % src.draw(1000)
    d = g.doc([], src.chance(1, 2), False)
    d["properties"].pop(mark, None)
    d["properties"][mark] = p
    raw = M.encode(d)
    head = M.e_str(mark)
    at = raw.index(head) + len(head) + len(M.e_str(p["type"]))
    front = raw[:at] + M.P_U64(len(body)) + raw[at + 8 :]
    # the empty value is the last thing of the last property: its count or length of 0
    tail = M.e_str("None") + b"\0\0\0\0"
    stop = front.rindex(M.e_str("None")) - 4
    whole = front[:stop] + body + tail
    end = len(whole) - 4
    cuts = [end - 1 - src.draw(60), stop + 4 + src.draw(len(body)), stop + len(body) - 1 - src.draw(300)]
    C.note(case, repr((kind, n, cuts)), ["large " + kind], {"kind": kind, "entries": n, "bytes": len(whole)})
    try:
        T.read(whole)
    except Exception as e:
        C.fail(f"reading a save with {n} entries of {kind} failed: {e!r}")
    for c in cuts:
        refuse(whole[: min(c, end - 1)], f"save with {n} entries of {kind}, cut to {c} of {len(whole)} bytes")


GUID_MARK = "5e7e1e55-0123-4567-89ab-cdef02468ace"


def announce(src, i, case):
    g, d = C.any_doc(src, header=src.chance(1, 3))
    sites = []
    for s in E.Walk(d).sites:
        if s[0] == "leaf" and s[2] == "str":
            sites.append((s[1], "text"))
        elif s[0] == "list":
            lst = E.at(d, s[1])
            if s[1][-1] == "values" and isinstance(E.at(d, s[1][:-1]), dict) and "prop_name" in E.at(d, s[1][:-1]):
                sites.append((s[1], "structs"))
            elif lst and isinstance(lst[0], str):
                sites.append((s[1], "list"))
            elif lst and isinstance(lst[0], dict) and "key" in lst[0] and isinstance(lst[0]["key"], str):
                sites.append((s[1], "map"))
            elif s[1][-1] == "custom_versions":
                sites.append((s[1], "versions"))
    if not sites:
        return
    lists = [x for x in sites if x[1] != "text"]
    path, kind = src.choice(lists) if lists and src.chance(2, 3) else src.choice(sites)
    mark = "MARK-%d-%d" % (i, src.draw(1000))
    wide = kind == "text" and src.chance(1, 3)
    if wide:
        mark += "\u65b0"
    guid = False
    if kind == "text":
        E.at(d, path[:-1])[path[-1]] = mark
    elif kind == "list":
        lst = E.at(d, path)
        guid = isguid(lst[0])
        lst[0] = GUID_MARK if guid else mark
    elif kind == "map":
        e = E.at(d, path)[0]
        guid = E.at(d, path[:-1])["key_struct_type"] == "Guid"
        if not guid and ("ModuleMap" in path or "custom_type" in E.at(d, path[:-1])):
            return
        e["key"] = GUID_MARK if guid else mark
    elif kind == "structs":
        parent = E.at(d, path[:-1])
        old = parent["prop_name"]
        if d["properties"].get("worldSaveData") and old in G.RESERVED | set(G.SECTIONS):
            mark = old  # renaming would change the meaning; look for the name itself
        parent["prop_name"] = mark
    else:
        E.at(d, path)[0][0] = GUID_MARK
        guid = True
    raw = M.encode(d)
    needle = M.guid_unhex(GUID_MARK) if guid else M.e_str(mark)
    if raw.count(needle) != 1:
        return
    at = raw.index(needle)
    left = len(raw) - at
    b = bytearray(raw)
    if kind == "text":
        n = src.choice([left + 1 + src.draw(5), left * 2, 0x7FFFFFFF, 0x10000000, -(left + 1), -(left // 2 + 3), -0x7FFFFFFF, -0x80000000])
        b[at : at + 4] = M.P_I32(n)
        what = f"text length {n} with {left} bytes left at {'/'.join(map(str, path))}"
    else:
        n = src.choice([left + 1 + src.draw(5), left * 3, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0x08000000])
        b[at - 4 : at] = M.P_U32(n)
        what = f"entry count {n} with {left} bytes left at {'/'.join(map(str, path))}"
    raw = bytes(b)
    C.note(case, raw, ["announced too much: " + kind], what)
    if "BaseCampSaveData" in path and "ModuleMap" in path:
        # such raw data may be kept as bytes instead
        limit()
        try:
            back = T.doc_raw(T.sav_doc(raw))
        except MemoryError:
            raise Violation(f"{what}: ran out of memory")
        except Exception:
            return
        if back != raw:
            C.fail(f"{what}: accepted and changed", d, raw)
        return
    refuse(raw, what, d)


class Announced(list):
    """A list that says it has more entries than it has."""

    def __init__(self, entries, n):
        super().__init__(entries)
        self.n = n

    def __len__(self):
        return self.n

    def __bool__(self):
        return self.n != 0


def announced(d, path, entries, n):
    """The encoding with these entries, whose stored number is n: (honest encoding, this one) or None if there is no
    such number (or if it is not all that changes)."""
    holder, key = E.at(d, path[:-1]), path[-1]
    whole = holder[key]
    try:
        holder[key] = list(entries)
        raw = M.encode(d)
        holder[key] = Announced(entries, n)
        b = M.encode(d)
    except Exception:
        return None
    finally:
        holder[key] = whole
    if len(b) != len(raw) or b == raw:
        return None
    first = next(k for k in range(len(b)) if b[k] != raw[k])
    was, now = M.P_U32(len(entries)), M.P_U32(n)
    for p in range(max(first - 3, 0), first + 1):
        if b[p : p + 4] == now and raw[p : p + 4] == was and b[p + 4 :] == raw[p + 4 :]:
            return raw, b
    return None


def counts(src, i, case):
    """Any list of a save, emptied or not, with a number of entries that the file cannot hold."""
    g, d = C.any_doc(src, header=src.chance(1, 3))
    paths = [s[1] for s in E.Walk(d).sites if s[0] == "list"]
    paths = [q for q in paths if E.at(d, q) and not isinstance(E.at(d, q)[0], int)]
    if not paths:
        return
    path = src.choice(paths)
    empty = src.chance(1, 2)
    size = len(M.encode(d))
    n = src.choice([0xFFFFFFFF, 0x80000000, 0xFFFFFFFF - src.draw(300), 0x80000000 + src.draw(300), src.draw(1 << 32), 0x7FFFFFFF, size + 1, 1 << 24, 0xFFFF0000])
    n = max(n, size + 1)
    entries = [] if empty else E.at(d, path)
    found = announced(d, path, entries, n)
    if found is None:
        return
    b = found[1]
    what = f"{n} entries announced instead of {len(entries)} at {'/'.join(map(str, path))}"
    C.note(case, b, ["count, empty" if empty else "count, filled"], what)
    limit()
    try:
        back = T.doc_raw(T.sav_doc(b))
    except MemoryError:
        raise Violation(f"{what}: ran out of memory")
    except Exception:
        return
    if back != b:  # raw data that is not understood may be kept as bytes instead
        C.fail(f"{what}: accepted and changed", d, b)


def deep(src, i, case):
    """Nests far deeper than any game save: read completely, or refused; cut ones always refused."""
    n, d, raw = C.deep_doc(src)
    cut = src.chance(1, 3)
    C.note(case, raw + bytes([cut]), ["cut nest" if cut else "nest", "%d+ levels" % (n // 100 * 100)], {"levels": n, "bytes": len(raw)})
    limit()
    if cut:
        k = len(raw) - 5 - src.draw(min(len(raw) // 2, 9 * n))
        return refuse(raw[:k], f"a save of {n} nested levels cut to {k} of {len(raw)} bytes")
    try:
        got = T.read(raw).dump()
    except MemoryError:
        raise Violation(f"{n} levels: ran out of memory")
    except Exception as e:
        if n <= 30:
            C.fail(f"reading a save of {n} levels failed: {e!r}")
        return
    if not C.deep_same(d, got):
        C.fail(f"a save of {n} levels is shown differently", raw=raw)


def isguid(s):
    return len(s) == 36 and s[8] == "-" and s[13] == "-" and s[18] == "-" and s[23] == "-"


def garbage(src, i, case):
    g = G.Gen(src, budget=5)
    r = i % 5
    n = src.choice([0, 1, 3, 4, 17, 64, 300, 5000])
    junk = src.choice([lambda: src.bytes(n), lambda: b"\0" * n, lambda: b"\xff" * n, lambda: src.bytes(4) * (n // 4)])()
    junk = junk.replace(b"None", b"Nine")
    head = M.e_header(g.header())
    if r == 0:
        raw = junk
    elif r == 1:
        raw = head + junk
    elif r == 2:
        raw = head[: src.draw(len(head))] + junk
        if raw.startswith(head):
            raw = junk
    elif r == 3:
        d = g.doc((), True, False)
        full = M.encode(d)
        k = len(M.e_header(d["header"]))
        raw = full[:k] + M.e_str(P.ascii_word(src) + "x") + M.e_str(src.choice(["IntProperty", "StructProperty", "ArrayProperty", "MapProperty", "StrProperty"])) + junk
    else:
        raw = b"GVAS" + junk
    C.note(case, raw, ["garbage %d" % r], raw[:80].hex())
    refuse(raw, "bytes that are not a save")


TYPES = ["IntProperty", "StrProperty", "ArrayProperty", "MapProperty", "StructProperty", "BoolProperty", "EnumProperty"]


def unknown_type(src, i, case):
    g = G.Gen(src, budget=25)
    d = g.doc((), True, False)
    t = src.choice(["SetProperty", "TextProperty", "DoubleProperty", "UInt32Property", "ObjectProperty", "SoftObjectProperty",
                    "intProperty", "IntProperty2", "", "None", "Int", "Property", "DelegateProperty", "ByteProperty2", "X" + P.ascii_word(src)])
    body = src.bytes(src.choice([0, 4, 4, 8, 17]))
    kind = i % 6
    name = M.e_str("Unk" + P.ascii_word(src))
    if kind == 4:
        # what would be fine if it were of a known type
        g2 = G.Gen(src, budget=8)
        known = g2.doc((), True, False)["properties"]
        if not known:
            return
        q = src.choice(list(known.values()))
        b = M.e_prop(q)
        p = M.e_str(t) + b[len(M.e_str(q["type"])) :]
    elif kind == 5:
        n = src.draw(6)
        if src.draw(2):  # an array whose content would do for bytes or for texts
            b = M.P_U32(n) + (src.bytes(n) if src.draw(2) else b"".join(M.e_str(P.ascii_word(src)) for _ in range(n)))
            p = M.e_str("ArrayProperty") + M.P_U64(len(b)) + M.e_str(t) + b"\0" + b
            if n == 0:
                return
        else:
            n += 1
            side = src.draw(2)
            fill = src.choice([b"\0", b"\1", b"", M.P_I32(5), M.e_str("x"), bytes(16), M.NONE_TAG])
            b = M.P_U32(0) + M.P_U32(n) + b"".join((M.P_I32(k) + fill) if side else (fill + M.P_I32(k)) for k in range(n))
            kt, vt = ("IntProperty", t) if side else (t, "IntProperty")
            p = M.e_str("MapProperty") + M.P_U64(len(b)) + M.e_str(kt) + M.e_str(vt) + b"\0" + b
    elif kind == 0:
        p = M.e_str(t) + M.P_U64(len(body)) + b"\0" + body
    elif kind == 1:
        n = src.draw(3) + 1
        b = M.P_U32(n) + body
        p = M.e_str("ArrayProperty") + M.P_U64(len(b)) + M.e_str(t) + b"\0" + b
    else:
        n = src.draw(3) + 1
        kt, vt = ("IntProperty", t) if kind == 2 else (t, "IntProperty")
        b = M.P_U32(0) + M.P_U32(n) + (M.P_I32(1) if kind == 2 else b"") + body
        p = M.e_str("MapProperty") + M.P_U64(len(b)) + M.e_str(kt) + M.e_str(vt) + b"\0" + b
    raw = M.encode(d)
    k = len(M.e_header(d["header"]))
    raw = raw[:k] + name + p + raw[k:]
    C.note(case, raw, ["unknown type %d" % kind], {"type": t, "kind": kind})
    refuse(raw, f"a property of the unknown type {t!r}", d)


def command(src, i, case):
    g, d = C.any_doc(src, budget=20)
    raw, end = ends(d)
    n = src.draw(end)
    sav = C.pack(raw[:n], src.choice([0x31, 0x32]))
    C.note(case, sav, ["command"], {"cut": n, "of": len(raw)})
    with cli.Dir() as w:
        p = w.write("Level.sav", sav)
        flags = src.choice([[], ["--minify-json"], ["--convert-nan-to-null"], ["-f"], ["--to-json"], ["--custom-properties", "none"]])
        res = cli.convert([p] + flags)
        if res.code == 0:
            C.fail(f"converting a save cut to {n} of {len(raw)} bytes reported success", d, raw[:n])
        if sorted(w.tree()) != ["Level.sav"]:
            C.fail("a failed conversion left files: " + str(sorted(w.tree())), d, raw[:n])


def byte_sizes(src, i, case):
    """A byte list whose number of entries disagrees with its stored size, with or without something sensible behind it."""
    g = G.Gen(src, budget=10)
    d = g.doc((), True, False)
    n = src.choice([0, 1, 2, 3, 5, src.draw(40), src.draw(300)])
    data = src.bytes(n)
    how = src.draw(3)
    if how == 0:  # the size covers the following property
        more = M.e_str("More") + M.e_prop({"id": None, "value": src.draw(100), "type": "IntProperty"})
    elif how == 1:
        more = b"".join(M.e_str(P.ascii_word(src)) for _ in range(1 + src.draw(3)))  # labelled bytes
    else:
        more = src.bytes(1 + src.draw(9))
    b = M.P_U32(n) + data
    size = len(b) + (len(more) if src.draw(3) else -1 - src.draw(min(n + 4, 5)))
    p = M.e_str("Bytes") + M.e_str("ArrayProperty") + M.P_U64(size) + M.e_str("ByteProperty") + b"\0" + b
    if how == 0 or size > len(b):
        p += more
    raw = M.encode(d)
    k = len(M.e_header(d["header"]))
    if src.draw(2):  # at the end of the list
        k = len(raw) - len(__import__("base64").b64decode(d["trailer"])) - len(M.NONE_TAG)
    raw = raw[:k] + p + raw[k:]
    C.note(case, raw, ["byte list, size of %s" % ("more" if size > len(b) else "less")], {"entries": n, "size": size})
    refuse(raw, f"a list of {n} bytes whose stored size is {size}", d)


CHECK = Check(
    "C11",
    "a case is a damaged save body (stage 'every cut': all cut points of one small save); non-trivial: the tool was "
    "given bytes that differ from the well-formed save and had to refuse them without exhausting time or memory",
    [
        Stage("every cut", every_cut, 800, 16000, "all cut points of small saves"),
        Stage("cut", cut, 24000, 300000, "one cut point of a large save"),
        Stage("large cut", large_cut, 160, 3000, "a text or list of 4 KiB to 32 MiB, cut"),
        Stage("announce", announce, 24000, 300000, "text lengths and entry counts larger than the file"),
        Stage("counts", counts, 16000, 300000, "any list, emptied or not, announcing more entries than the file holds"),
        Stage("deep", deep, 1500, 40000, "nests of up to 2000 levels, whole and cut"),
        Stage("garbage", garbage, 10000, 100000, "bytes that are no save"),
        Stage("unknown type", unknown_type, 12000, 80000, "property, element, key and value types nobody knows"),
        Stage("byte lists", byte_sizes, 6000, 60000, "byte lists whose size and number of entries disagree"),
        Stage("command", command, 4000, 50000, "truncated saves through the command"),
    ],
)
