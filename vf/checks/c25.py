import json
import math

from vf import cli
from vf import common as C
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage


def is_property(x):
    return x.__class__ is dict and x.get("type").__class__ is str and x["type"].endswith("Property")


def is_list_of_properties(x):
    """Here the order of the members is content: the properties are stored in that order."""
    return all(is_property(v) for v in x.values())


def order(src, keys, how):
    keys = list(keys)
    if how == 0:
        return keys[::-1]
    if how == 1:
        return sorted(keys)
    if how == 2:
        return sorted(keys, reverse=True)
    for i in range(len(keys) - 1, 0, -1):
        j = src.draw(i + 1)
        keys[i], keys[j] = keys[j], keys[i]
    return keys


def respell_guid(src, t):
    r = src.draw(4)
    if r == 0:
        return t.upper()
    if r == 1:
        return "".join(c.upper() if src.draw(2) else c for c in t)
    if r == 2:
        return t.replace("-", "")
    return t


GUID_LEN = 36


def guidish(t):
    return len(t) == GUID_LEN and t[8] == t[13] == t[18] == t[23] == "-" and all(c in "0123456789abcdef-" for c in t)


def guid_places(d):
    """Paths of the texts that are guids by their place."""
    from vf import edits as E

    out = []
    for s in E.Walk(d).sites:
        if s[0] == "leaf" and s[2] == "guid" or s[0] == "id":
            try:
                v = E.at(d, s[1])
            except (KeyError, IndexError):
                continue
            if v.__class__ is str and guidish(v):
                out.append(s[1])
    return out


class Other:
    """The same document, written differently."""

    def __init__(self, src, members, numbers):
        self.src, self.members, self.numbers = src, members, numbers
        self.how = src.draw(5)
        self.moved = self.renumbered = 0

    def make(self, x):
        c = x.__class__
        if c is dict:
            keys = list(x)
            if self.members and len(keys) > 1 and not is_list_of_properties(x):
                k = order(self.src, keys, self.how)
                self.moved += k != keys
                keys = k
            return {k: self.make(x[k]) for k in keys}
        if c is list:
            if x and x[0].__class__ in (int, str):
                return x[:]
            return [self.make(v) for v in x]
        if c is float and self.numbers and x.is_integer() and not (x == 0 and math.copysign(1, x) < 0):
            self.renumbered += 1
            return int(x)
        return x


def judge(d, other, what):
    raw = M.encode(d)
    back = T.must(f"writing the document failed ({what})", T.doc_raw, C.clone(other))
    if back != raw:
        C.fail(f"the same document gives another save when {what}: " + T.first_diff(raw, back), other, raw)
    return raw


def members(src, i, case):
    """The members of every record in another order."""
    g, d = C.any_doc(src, header=src.chance(1, 3))
    o = Other(src, True, False)
    other = o.make(d)
    C.note(case, json.dumps(other), sorted(g.labels) + ["order:%d" % min(o.how, 3)], {"records reordered": o.moved, "document": C.show(other, 500)}, o.moved > 0)
    judge(d, other, "its members are in another order")


def numbers(src, i, case):
    """Floating point places holding whole numbers, written without fraction."""
    from vf import edits as E
    from vf.checks.c12 import float_sites

    g, d = C.any_doc(src, header=False)
    for p in float_sites(d):
        if src.draw(3) == 0:
            v = float(src.choice([0, 1, -1, 100, 255, 256, 65536, -32768, 1 << 24, 12345678, 1 << 31, -(1 << 31), 1000000, src.draw(1000)]))
            E.at(d, p[:-1])[p[-1]] = v
    o = Other(src, src.chance(1, 4), True)
    other = o.make(d)
    C.note(case, json.dumps(other), sorted(g.labels), {"numbers rewritten": o.renumbered}, o.renumbered > 0)
    judge(d, other, "whole numbers are written without fraction")


def guids(src, i, case):
    """Guids in capitals or without dashes."""
    from vf import edits as E

    g, d = C.any_doc(src, header=src.chance(1, 2))
    ps = guid_places(d)
    other = C.clone(d)
    n = 0
    for p in ps:
        if src.draw(2):
            t = respell_guid(src, E.at(other, p))
            n += t != E.at(other, p)
            E.at(other, p[:-1])[p[-1]] = t
    C.note(case, json.dumps(other), sorted(g.labels), {"guids respelled": n}, n > 0)
    judge(d, other, "guids are spelled differently")


# ------------------------------------------------------------------ the text of the JSON


def text_of(src, x, style):
    """JSON text of x with chosen whitespace, escapes and number forms."""
    ws = style["ws"]
    sp = lambda: src.choice(ws)
    out = []

    def string(t):
        e = style["escape"]
        if e == 0:
            return json.dumps(t)
        b = []
        for ch in t:
            o = ord(ch)
            if ch in '"\\':
                b.append("\\" + ch if src.draw(3) else "\\u%04x" % o)
            elif o < 32:
                short = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(o)
                b.append(short if short and src.draw(2) else "\\u%04X" % o)
            elif 0xD800 <= o < 0xE000:
                b.append("\\u%04x" % o)
            elif e == 1 and o < 0x10000 and (o > 126 or src.draw(8) == 0):
                b.append(("\\u%04x" if src.draw(2) else "\\u%04X") % o)
            elif e == 1 and o >= 0x10000 and src.draw(2):
                h = ch.encode("utf-16-be")
                b.append("\\u%s\\u%s" % (h[:2].hex(), h[2:].hex()))
            elif ch == "/" and src.draw(2):
                b.append("\\/")
            else:
                b.append(ch)
        return '"' + "".join(b) + '"'

    def number(v):
        if style["exp"] and math.isfinite(v):
            r = src.draw(3)
            if r == 0:
                return "%.17e" % v
            if r == 1:
                return ("%.17E" % v).replace("E+", "E")
        return json.dumps(v)

    def go(v):
        c = v.__class__
        if c is dict:
            out.append("{" + sp())
            for n, (k, w) in enumerate(v.items()):
                if n:
                    out.append("," + sp())
                out.append(string(k) + sp() + ":" + sp())
                go(w)
                out.append(sp())
            out.append("}")
        elif c is list:
            out.append("[" + sp())
            for n, w in enumerate(v):
                if n:
                    out.append("," + sp())
                go(w)
            out.append(sp() + "]")
        elif c is str:
            out.append(string(v))
        elif c is float:
            out.append(number(v))
        else:
            out.append(json.dumps(v))

    go(x)
    return "".join(out)


SPACES = [[""], [" "], ["", " ", "\n"], ["\r\n", "\t"], ["", "\n\n    ", "\t\t", "\r", " " * 40]]


def text(src, i, case):
    """The convert command on JSON files written by other programs."""
    g, d = C.any_doc(src, budget=25, header=src.chance(1, 3))
    style = {"ws": src.choice(SPACES), "escape": src.draw(3), "exp": src.draw(2)}
    o = Other(src, src.chance(1, 2), src.chance(1, 3))
    t = src.choice(["", " ", "\n", "\r\n\t"]) + text_of(src, o.make(d), style) + src.choice(["", "\n", "\r\n", "  \n\n"])
    b = t.encode("utf8")
    C.note(case, b, ["spaces:%d" % SPACES.index(style["ws"]), "escapes:%d" % style["escape"]], {"text": t[:300]})
    raw = M.encode(d)
    with cli.Dir() as w:
        p = w.write("Level.sav.json", b)
        r = cli.convert([p, "-o", w.path("o.sav")])
        if r.code != 0:
            C.fail(f"converting a JSON file written by another program failed: {r.tail()}", d, raw)
        with open(w.path("o.sav"), "rb") as f:
            back = C.unpack(f.read())[0]
    if back != raw:
        C.fail("a JSON file written by another program gives another save: " + T.first_diff(raw, back), d, raw)


CHECK = Check(
    "C25",
    "a case is a document and a second spelling of it (members reordered, whole numbers, guid spellings, or the JSON text "
    "itself); non-trivial: the spelling differs and the save written from it was compared with the reference",
    [
        Stage("members", members, 12000, 400000, "members of every record in another order"),
        Stage("numbers", numbers, 8000, 250000, "floating point numbers without fraction"),
        Stage("guids", guids, 8000, 250000, "guids in capitals or without dashes"),
        Stage("text", text, 3000, 80000, "JSON files with other whitespace, escapes and number forms, through the command"),
    ],
)
