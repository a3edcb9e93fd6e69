import json
import os

from vf import cli
from vf import common as C
from vf import edits as E
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Src, Stage

Reader = T.archive.FArchiveReader
Writer = T.archive.FArchiveWriter
END = b"\x55\xaa\x55"  # follows what is read


def one(s, want=None):
    want = M.e_str(s) if want is None else want
    w = Writer()
    n = T.must(f"writing the text {T.short(s, 80)!a} failed", w.fstring, s)
    b = w.bytes()
    if b != want:
        C.fail(f"the text {T.short(s, 120)!a} is stored as {b[:60].hex()} ({len(b)} bytes) instead of {want[:60].hex()} ({len(want)} bytes)")
    if n != len(want):
        C.fail(f"writing the text {T.short(s, 120)!a} reported {n} bytes instead of {len(want)}")
    r = Reader(want + END)
    got = T.must(f"reading the text {T.short(s, 80)!a} failed", r.fstring)
    if got != s:
        C.fail(f"the stored text {T.short(s, 120)!a} is read as {T.short(got, 120)!a}")
    rest = r.read_to_end()
    if bytes(rest) != END:
        C.fail(f"reading the text {T.short(s, 120)!a} consumed {len(want + END) - len(rest)} of {len(want)} bytes")


def codepoints(src, i, case):
    """256 characters, each alone, at both ends, and doubled: the stage covers all of Unicode."""
    lo = i * 256
    C.note(case, str(lo), ["plane %d" % (lo >> 16)], f"U+{lo:04X}..U+{lo + 255:04X}")
    for c in range(lo, min(lo + 256, 0x110000)):
        ch = chr(c)
        for s in (ch, "a" + ch, ch + "z") if c % 7 else (ch, "a" + ch, ch + "z", "ab" + ch + "cd", ch + "\u3042", "\u3042" + ch):
            s = P.norm16(s)
            one(s)
    s = P.norm16("".join(map(chr, range(lo, min(lo + 256, 0x110000)))))
    one(s)
    if json.loads(json.dumps(s, cls=T.Encoder)) != s:
        C.fail(f"U+{lo:04X}.. changes in JSON")


def units(src, cls, n):
    if n == 0:
        return ""
    if cls == 0:
        s = P._chars(src, n, 0)
    elif cls == 1:
        s = P._chars(src, n - 1, 0) + "\xe9" if n > 1 else "\xe9"
    elif cls == 2:
        s = "\u65b0" + P._chars(src, n - 1, 3) if n > 1 else "\u65b0"
    elif cls == 3:
        s = P._chars(src, n, 4)
    elif cls == 4:
        s = P._chars(src, n, 5)
    elif cls == 5:
        s = "\0" * n
    else:
        s = P._chars(src, n, 1)
    return P.norm16(s)


def lengths(src, i, case):
    n = i // 7
    if n > 4200:
        n = src.choice(P.HUGE + [100000, 131071, 131072, 131073, 300000])
    s = units(src, i % 7, n)
    C.note(case, s, ["length sweep"], {"length": n, "class": i % 7})
    one(s)
    d = C.sweep_doc(src, "ascii", 1)
    d["properties"]["A"]["value"] = s
    d["properties"]["B"] = {"id": None, "value": 1, "type": "IntProperty"}
    raw = M.encode(d)
    got = C.check_shown(d, raw)
    back = T.must("writing the document failed", T.doc_raw, got)
    if back != raw:
        C.fail(f"a text of {n} characters changed: " + T.first_diff(raw, back), raw=raw if len(raw) < 5000 else None)


LONG = [(1 << 20) - 2, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1500001, (1 << 21) - 1, 1 << 21, 3000000, (1 << 22) - 1, 1 << 22, 5000001, (1 << 23) + 1, 10000000, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]


def long(src, i, case):
    """Texts of a million characters and more, alone and in a save."""
    n = LONG[i // 2 % len(LONG)] + src.choice([0, 0, 1, -1, 7])
    head = P._chars(src, 40, 0)
    if i % 2:
        head += src.choice(["\u65b0", "\xe9", "\U0001f600", "\0\u0416"])
    s = (head * (n // len(head) + 1))[:n]
    s = P.norm16(s)
    C.note(case, s[:100] + str(len(s)), ["long text"], {"length": len(s), "head": ascii(s[:60])})
    one(s)
    d = C.sweep_doc(src, "ascii", 1)
    d["properties"]["A"]["value"] = s
    d["properties"]["B"] = {"id": None, "value": 1, "type": "IntProperty"}
    raw = M.encode(d)
    got = T.must("reading a well-formed save failed", T.sav_doc, raw)
    if got != d:
        C.fail(f"a text of {n} characters ({ascii(head)}...) is shown differently")
    back = T.must("writing the document failed", T.doc_raw, got)
    if back != raw:
        C.fail(f"a text of {n} characters changed: " + T.first_diff(raw, back))


def strings(src, i, case):
    s = P.text(src, 4200)
    C.note(case, s, ["string"], T.short(ascii(s), 100))
    one(s)


def places(d):
    out = []
    for x in E.Walk(d).sites:
        if x[0] == "leaf" and x[2] == "str":
            out.append(x[1])
    return out


def placed(src, i, case):
    """One text at every (or one) place of a save that holds text."""
    g, d = C.any_doc(src, header=src.chance(1, 2))
    ps = places(d)
    if not ps:
        return
    s = P.text(src, 1500)
    all_ = src.chance(1, 3) and len(ps) < 60
    chosen = ps if all_ else [src.choice(ps) for _ in range(1 + src.draw(3))]
    for p in chosen:
        E.at(d, p[:-1])[p[-1]] = s
    raw = M.encode(d)
    C.note(case, raw, ["places:" + ("all" if all_ else "some")], {"text": T.short(ascii(s), 80), "at": "/".join(map(str, chosen[0]))[-120:]})
    got = C.check_shown(d, raw)
    back = T.must("writing the document failed", T.doc_raw, got)
    if back != raw:
        C.fail("text changed on the way to JSON and back: " + T.first_diff(raw, back), d, raw)


def names(src, i, case):
    """Texts as property names, struct types, map keys and array element names."""
    g = G.Gen(src, budget=30)
    t = lambda: P.text(src, 600)
    S = "StructProperty"
    pr = {}
    for _ in range(1 + src.draw(5)):
        k = t()
        if k == "None" or k in G.RESERVED or k in pr:
            continue
        r = src.draw(6)
        if r == 0:
            pr[k] = g.mapprop("NameProperty", None, "EnumProperty", None, [(t(), t()) for _ in range(src.draw(5))])
        elif r == 1:
            pr[k] = g.struct("T" + t(), {t() + "_": {"id": None, "value": t(), "type": "StrProperty"}})
        elif r == 2:
            pr[k] = {"array_type": src.choice(["NameProperty", "EnumProperty"]), "id": None, "value": {"values": [t() for _ in range(src.draw(6))]}, "type": "ArrayProperty"}
        elif r == 3:
            pr[k] = {"id": None, "value": {"type": t(), "value": t()}, "type": "EnumProperty"}
        elif r == 4:
            pr[k] = g.arrprop(t(), "T" + t(), [{t() + "_": {"id": None, "value": t(), "type": "NameProperty"}} for _ in range(src.draw(3))])
        else:
            pr[k] = {"id": None, "value": t(), "type": src.choice(["StrProperty", "NameProperty"])}
    d = {"header": g.plain_header(), "properties": pr, "trailer": "AAAAAA=="}
    d["header"]["save_game_class_name"] = t()
    d["header"]["engine_version_branch"] = t()
    raw = M.encode(d)
    C.note(case, raw, ["names"], C.show(d, 500))
    got = C.check_shown(d, raw)
    back = T.must("writing the document failed", T.doc_raw, got)
    if back != raw:
        C.fail("text changed on the way to JSON and back: " + T.first_diff(raw, back), d, raw)


def files(src, i, case):
    g = G.Gen(src, budget=10)
    pr = {}
    for k in range(1 + src.draw(4)):
        pr["A%d" % k] = {"id": None, "value": P.text(src, 1500), "type": src.choice(["StrProperty", "NameProperty"])}
    pr["E"] = {"id": None, "value": {"type": P.text(src), "value": P.text(src)}, "type": "EnumProperty"}
    d = {"header": g.plain_header(), "properties": pr, "trailer": "AAAAAA=="}
    raw = M.encode(d)
    C.note(case, raw, ["files"], C.show(d, 400))
    with cli.Dir() as w:
        p = w.write("a.sav", C.pack(raw))
        r = cli.convert([p] + (["--minify-json"] if src.draw(2) else []))
        if r.code:
            C.fail("converting to JSON failed: " + r.tail(), d, raw)
        with open(p + ".json", "rb") as f:
            b = f.read()
        try:
            got = json.loads(b.decode("utf8"))
        except Exception as e:
            C.fail(f"the JSON file is not valid UTF-8 JSON: {e}", d, raw)
        x = M.same(d, got)
        if x:
            C.fail("the JSON file differs: " + x, d, raw)
        # a user's editor may store the text unescaped
        if src.draw(2):
            try:
                with open(p + ".json", "w", encoding="utf8") as f:
                    json.dump(got, f, ensure_ascii=False)
                case.labels.append("unescaped")
            except UnicodeEncodeError:
                with open(p + ".json", "w", encoding="utf8") as f:
                    json.dump(got, f)
        r = cli.convert([p + ".json", "-o", w.path("b.sav")])
        if r.code:
            C.fail("converting back failed: " + r.tail(), d, raw)
        with open(w.path("b.sav"), "rb") as f:
            back = C.unpack(f.read())[0]
        if back != raw:
            C.fail("text changed on the way to a JSON file and back: " + T.first_diff(raw, back), d, raw)


BAD = [b"\xff", b"\x80", b"\xc3", b"\xe3\x81", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xf5\x80\x80\x80", b"\x93", b"\xe9"]


def not_utf8(src, i, case):
    """JSON files whose text was damaged or stored in another encoding: refused, never stored as some other text."""
    g = G.Gen(src, budget=4)
    pr = {"A%d" % k: {"id": None, "value": P.norm16(P.text(src, 60)), "type": src.choice(["StrProperty", "NameProperty"])} for k in range(1 + src.draw(3))}
    pr["Mark"] = {"id": None, "value": "@@", "type": "StrProperty"}
    d = {"header": g.plain_header(), "properties": pr, "trailer": "AAAAAA=="}
    try:
        b = json.dumps(d, ensure_ascii=False).encode("utf8")
    except UnicodeEncodeError:
        b = json.dumps(d).encode()
    k = src.draw(4)
    if k == 0:
        # one byte of a longer sequence replaced, or anywhere inside of a text
        at = [j for j, c in enumerate(b) if c >= 0x80]
        if not at:
            at = [b.index(b"@@")]
        p = src.choice(at)
        b = b[:p] + bytes([src.choice([0xFF, 0x20, 0x41, 0xC3, 0xFE])]) + b[p + 1 :]
    elif k == 1:
        at = [j for j, c in enumerate(b) if c >= 0x80] or [b.index(b"@@")]
        p = src.choice(at)
        b = b[:p] + b[p + 1 :] if b[p] >= 0x80 else b[:p] + b"\xff" + b[p + 1 :]
    else:
        x = src.choice(BAD)
        b = b.replace(b"@@", src.choice([x, b"a" + x, x + b"z", x * 3]))
    try:
        b.decode("utf8")
        return
    except UnicodeDecodeError:
        pass
    C.note(case, b, ["damage %d" % k], b[-200:].hex())
    with cli.Dir() as w:
        args = src.choice([[], ["-f"], ["--from-json"], ["--minify-json"]])
        res = cli.convert([w.write("a.sav.json", b)] + args)
        left = sorted(w.tree())
        if res.code == 0:
            C.fail(f"a JSON file that is not valid UTF-8 was converted (reported success, left {left})", d)
        if left != ["a.sav.json"]:
            C.fail(f"a JSON file that is not valid UTF-8 was refused but left {left}", d)


CHECK = Check(
    "C15",
    "a case is a text (or 256 code points, or a save with texts at chosen places); non-trivial: its stored form, the "
    "text shown and the bytes written back were compared with the reference",
    [
        Stage("code points", codepoints, 0x1100, 0x1100, "every code point U+0000..U+10FFFF incl. unpaired surrogates, alone and in context"),
        Stage("lengths", lengths, 7 * 1300, 7 * 4300, "every length 0..1299 (thorough 0..4200, then up to 300000) in 7 character classes"),
        Stage("long", long, 24, 160, "texts of 1 to 16 million characters (quick: up to 10 million)"),
        Stage("strings", strings, 30000, 1000000, "random texts"),
        Stage("placed", placed, 7000, 200000, "texts at all places of whole saves"),
        Stage("names", names, 6000, 200000, "texts as names, types, keys and array entries"),
        Stage("files", files, 1500, 40000, "through JSON files, escaped and unescaped"),
        Stage("not utf-8", not_utf8, 1500, 40000, "JSON files whose text is not valid UTF-8"),
    ],
    assumptions=["texts are stored as the game stores them (ASCII in one byte, else UTF-16LE, zero-terminated, empty as length 0)"],
)
