import importlib.util
import io
import json
import os
import uuid

from vf import common as C
from vf import pools as P
from vf import tool as T
from vf.engine import Check, REPO, Stage


def _stdlib_variant():
    """The archive module once more, with the optional dependency switched off."""
    old = os.environ.get("FORCE_STDLIB_ONLY")
    os.environ["FORCE_STDLIB_ONLY"] = "1"
    try:
        spec = importlib.util.spec_from_file_location("palworld_save_tools_stdlib_archive", T.archive.__file__)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        if old is None:
            del os.environ["FORCE_STDLIB_ONLY"]
        else:
            os.environ["FORCE_STDLIB_ONLY"] = old
    return m


IMPLS = [("installed", T.archive), ("stdlib", _stdlib_variant())]


def spelling(src, text):
    k = src.draw(8)
    if k == 0:
        return text
    if k == 1:
        return text.upper()
    if k == 2:
        return text.replace("-", "")
    if k == 3:
        return "{" + text + "}"
    if k == 4:
        return "urn:uuid:" + text
    if k == 5:
        return "".join(c.upper() if src.draw(2) else c for c in text)
    if k == 6:
        return text.replace("-", "").upper()
    return "{" + text.upper().replace("-", "") + "}"


def laws(src, name, m, b):
    """Everything about one guid, the observations in random order (some implementations cache)."""
    want = P.guid_text(b)
    std = uuid.UUID(want)
    u = m.UUID(b)

    def ck(ok, what):
        if not ok:
            C.fail(f"guid {b.hex()} ({name} implementation): {what}")

    def text():
        ck(str(u) == want, f"shown as {str(u)!r} instead of {want!r}")

    def value():
        ck(u.UUID() == std, f"UUID() is {u.UUID()!r} instead of {std!r}")

    def back():
        s = spelling(src, want)
        v = m.UUID.from_str(s)
        ck(bytes(v.raw_bytes) == b, f"from_str({s!r}) has bytes {bytes(v.raw_bytes).hex()}")
        ck(v == u and not v != u and hash(v) == hash(u), f"from_str({s!r}) does not equal the guid")
        ck(str(v) == want, f"from_str({s!r}) is shown as {v}")

    def eq():
        v = m.UUID(bytes(b))
        ck(u == v and v == u, "not equal to a guid of the same bytes")
        ck(not (u != v), "unequal (!=) to a guid of the same bytes")
        ck(hash(u) == hash(v), "equal guids hash differently")
        ck(u == want and want == u and not (u != want), "not equal to its own text")
        ck(hash(u) == hash(want), "hash differs from its text's")
        ck(u == std, "not equal to the standard library's value")
        ck(len({u, v}) == 1 and want in {u: 1} and u in {want: 1}, "not found in a set or dict by an equal key")

    def ne():
        k = src.draw(16)
        o = b[:k] + bytes([b[k] ^ (1 << src.draw(8))]) + b[k + 1 :]
        if src.draw(3) == 0:
            o = src.choice([b[::-1], b[8:] + b[:8], b[4:8] + b[:4] + b[8:], P.guid_bytes(src)])
        v = m.UUID(o)
        if o == b:
            return
        ck(not (u == v) and not (v == u), f"equal to the other guid {o.hex()}")
        ck(u != v and v != u, f"not unequal (!=) to the other guid {o.hex()}")
        ck(not (u == P.guid_text(o)) and u != P.guid_text(o), f"equal to the text of the other guid {o.hex()}")
        ck(not (u == uuid.UUID(P.guid_text(o))), f"equal to the standard library's value of {o.hex()}")
        ck(len({u, v}) == 2, "lost in a set next to another guid")

    def other():
        for x in (None, 0, "", b, [], {}, want + "0", want[:-1]):
            ck(not (u == x) and u != x, f"equal to {x!r}")
        x = spelling(src, src.choice([want, want, P.guid_text(P.guid_bytes(src))]))
        a = u == x
        ck(a == (x == u) and a != (u != x) and a != (x != u), f"== and != contradict each other for {x!r}")
        ck(not a or hash(u) == hash(x), f"equal to {x!r} but hashed differently")
        for _, o in IMPLS:
            ck((o.UUID(b) == x) == a, f"the implementations disagree whether it equals {x!r}")

    def writer():
        forms = [u, want, std, spelling(src, want), m.UUID(b)]
        x = forms[src.draw(len(forms))]
        w = m.FArchiveWriter()
        w.guid(x)
        ck(w.bytes() == b, f"written from {x!r} as {w.bytes().hex()}")
        w = m.FArchiveWriter()
        w.optional_guid(x)
        ck(w.bytes() == b"\1" + b, f"written as optional guid from {x!r} as {w.bytes().hex()}")

    def reader():
        r = m.FArchiveReader(b + b"\1" + b)
        g = r.guid()
        ck(g == u and bytes(g.raw_bytes) == b and str(g) == want, f"read as {g!r}")
        g = r.optional_guid()
        ck(g == u and bytes(g.raw_bytes) == b and str(g) == want, f"read as optional guid {g!r}")
        ck(r.eof(), "reading did not consume 16 bytes")

    def shown():
        if m is T.archive:
            j = json.dumps({"g": u, "s": std}, cls=T.Encoder)
            ck(json.loads(j) == {"g": want, "s": want}, f"encoded in JSON as {j}")

    ops = [text, value, back, eq, ne, other, writer, reader, shown]
    for _ in range(6):
        ops[src.draw(len(ops))]()
    for f in ops:
        f()
    ck(bytes(u.raw_bytes) == b, "its bytes changed")


def structured(src, i, case):
    if i < 128:
        b = (1 << i).to_bytes(16, "little")
    elif i < 256:
        b = ((1 << 128) - 1 ^ (1 << (i - 128))).to_bytes(16, "little")
    else:
        k = i - 256
        base = src.choice([b"\0" * 16, b"\xff" * 16, bytes(range(16)), src.bytes(16)])
        b = base[: k // 256 % 16] + bytes([k % 256]) + base[k // 256 % 16 + 1 :]
    C.note(case, b, ["structured"], b.hex())
    for name, m in IMPLS:
        laws(src, name, m, b)


def randoms(src, i, case):
    b = P.guid_bytes(src)
    C.note(case, b, ["random"], b.hex())
    for name, m in IMPLS:
        laws(src, name, m, b)


def many(src, i, case):
    """A population of guids used as dictionary keys, as save editors do."""
    hist = []
    pool = [P.guid_bytes(src, hist) for _ in range(2 + src.draw(60))]
    C.note(case, b"".join(pool), ["population"], {"guids": len(pool), "distinct": len(set(pool))})
    for name, m in IMPLS:
        t = {}
        for k, b in enumerate(pool):
            t[m.UUID(b)] = b
        if len(t) != len(set(pool)):
            C.fail(f"{len(set(pool))} distinct guids make {len(t)} dictionary keys ({name})")
        for b in pool:
            for key in (m.UUID(b), m.UUID.from_str(P.guid_text(b)), P.guid_text(b)):
                if t.get(key) != b:
                    C.fail(f"looking up guid {b.hex()} by {key!r} found {t.get(key)!r} ({name})")


BAD = ["", "0", "guid", "0" * 31, "0" * 33, "g" * 32, "00000000-0000-0000-0000-00000000000g", "None", "null", "-" * 36]


def malformed(src, i, case):
    s = src.choice(BAD + [P.guid_text(src.bytes(16))[: src.draw(36)], P.guid_text(src.bytes(16)) + "%x" % src.draw(16)])
    C.note(case, s, ["not a guid"], s)
    for name, m in IMPLS:
        for what, f in (("from_str", lambda: m.UUID.from_str(s).raw_bytes.hex()), ("written", lambda: wr(m, s)), ("written as optional", lambda: wro(m, s))):
            try:
                r = f()
            except Exception:
                continue
            C.fail(f"the text {s!r} is no guid but was accepted: {what} {r} ({name})")


def wr(m, s):
    w = m.FArchiveWriter()
    w.guid(s)
    return w.bytes().hex()


def wro(m, s):
    w = m.FArchiveWriter()
    w.optional_guid(s)
    return w.bytes().hex()


CHECK = Check(
    "C13",
    "a case is one guid (or a population of guids) under both implementations of the guid type; non-trivial: all laws "
    "(text, value, spellings, equality, hash, reading, writing, JSON) were evaluated on it",
    [
        Stage("structured", structured, 4352, 4352, "every single bit set or cleared, every byte value at every position"),
        Stage("random", randoms, 64000, 600000, "random and patterned guids"),
        Stage("population", many, 12000, 60000, "guids as dictionary keys"),
        Stage("malformed", malformed, 12000, 60000, "texts that are not guids are refused"),
    ],
)
