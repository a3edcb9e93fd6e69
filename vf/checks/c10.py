import os
import zlib

from vf import cli
from vf import common as C
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage


def payload(src, n):
    """No container or zlib stream inside the payload: losing bytes must not expose another valid save."""
    r = src.draw(4)
    if r == 0:
        return b"\0" * n
    if r == 1:
        m = src.bytes(1 + src.draw(20))
        return (m * (n // len(m) + 1))[:n]
    if r == 2:
        return src.bytes(n)
    return (src.bytes(min(n, 257)) * (n // 257 + 1))[:n] if n else b""


def container(src, small=False):
    b = payload(src, src.draw(80) if small else src.choice([src.draw(300), src.draw(300), 1000 + src.draw(3000)]))
    st = src.choice([0x31, 0x32])
    sav = C.pack(b, st)
    off = 0
    if src.chance(1, 4):
        sav = b"\0" * 8 + b"CNK" + b"\x30" + sav
        off = 12
    return b, st, sav, off


def judge(sav, b, st, what, must_refuse=False):
    try:
        p, t = T.palsav.decompress_sav_to_gvas(sav)
    except Exception:
        return "refused"
    if must_refuse:
        C.fail(f"{what}: accepted ({len(p)} bytes, type {t!r})", raw=sav)
    if bytes(p) != b or t != st:
        C.fail(f"{what}: accepted as other content (type {t!r} instead of {st:#x}): " + T.first_diff(b, bytes(p)), raw=sav)
    return "same content"


def cuts(src, i, case):
    """Every truncation of a small container."""
    b, st, sav, off = container(src, True)
    C.note(case, sav, ["all truncations"], {"container": sav.hex()[:200]})
    case.labels += ["truncations x%d" % (len(sav) // 50 * 50)]
    for n in range(len(sav)):
        r = judge(sav[:n], b, st, f"container cut to {n} of {len(sav)} bytes", n < 12 + off)
    # leading bytes lost
    for n in range(1, min(len(sav), 30)):
        if off and n == off:
            continue
        judge(sav[n:], b, st, f"container without its first {n} bytes")


def flips(src, i, case):
    """Every single-bit error in the header and every byte position of a small container."""
    b, st, sav, off = container(src, True)
    C.note(case, sav, ["all header bit flips"], {"container": sav.hex()[:200]})
    for k in range(off, off + 14):
        if k >= len(sav):
            break
        for bit in range(8):
            m = bytearray(sav)
            m[k] ^= 1 << bit
            judge(bytes(m), b, st, f"bit {bit} of byte {k} flipped", off <= k < off + 12)
    for k in range(off + 14, len(sav)):
        m = bytearray(sav)
        m[k] ^= 1 << src.draw(8)
        judge(bytes(m), b, st, f"byte {k} changed")


def fields(src, i, case):
    b, st, sav, off = container(src)
    m = bytearray(sav)
    r = i % 6
    must = True
    if r in (0, 1):
        at = off + 4 * r
        old = int.from_bytes(m[at : at + 4], "little")
        new = src.choice([0, old + 1, old - 1, old * 2, 0xFFFFFFFF, 1, old ^ 0x80000000, src.draw(1 << 32), len(m), len(m) - 12, len(m) - off, len(b)]) % (1 << 32)
        if new == old:
            new = (old + 7) % (1 << 32)
        m[at : at + 4] = new.to_bytes(4, "little")
        what = f"{'payload' if r == 0 else 'compressed'} length {old} changed to {new}"
    elif r == 2:
        new = src.choice([b"PLZ", b"plz", b"PlY", b"\0\0\0", b"CNK", b"zlP", b"Pl\0", b"GVA", b"PlM", src.bytes(3)])
        if new == b"PlZ":
            new = b"PlX"
        m[off + 8 : off + 11] = new
        what = f"magic changed to {new!r}"
    elif r == 3:
        new = src.choice([0, 0x30, 0x33, 0x29, 0xFF, 0x13, 1, 2, 0x31 ^ 0x32 ^ st, src.draw(256)])
        if new == st:
            new = 0x30
        m[off + 11] = new
        what = f"type {st:#x} changed to {new:#x}"
        must = new not in (0x31, 0x32)
    elif r == 4:
        # the two lengths exchanged, or header of another save
        o = C.pack(src.bytes(src.draw(200)) + b"x", st)
        m[off : off + 12] = o[:12]
        must = bytes(m) != sav and False
        what = "header of another save"
    else:
        o = C.pack(src.bytes(src.draw(200)) + b"y", src.choice([0x31, 0x32]))
        m[off + 12 :] = o[12:]
        must = False
        what = "content of another save"
    m = bytes(m)
    if m == sav:
        must = False
    if r >= 4:
        try:
            b, st = C.unpack(m)  # by chance a valid container again
        except Exception:
            pass
    C.note(case, m, ["field " + str(r)], {"what": what, "type": hex(st)})
    judge(m, b, st, what, must)


def damage(src, i, case):
    b, st, sav, off = container(src)
    m = bytearray(sav)
    log = []
    for _ in range(1 + src.draw(4)):
        r = src.draw(6)
        k = src.draw(len(m)) if m else 0
        if r == 0 and m:
            m[k] ^= 1 << src.draw(8)
            log.append(f"flip in {k}")
        elif r == 1:
            n = 1 + src.draw(40)
            del m[k : k + n]
            log.append(f"delete {n} at {k}")
        elif r == 2:
            x = src.bytes(1 + src.draw(20))
            m[k:k] = x
            log.append(f"insert {len(x)} at {k}")
        elif r == 3:
            del m[k:]
            log.append(f"cut at {k}")
        elif r == 4:
            x = src.choice([src.bytes(1 + src.draw(20)), b"\0" * (1 + src.draw(20)), bytes(m), sav])
            m += x
            log.append(f"append {len(x)}")
        else:
            n = 1 + src.draw(30)
            m[k : k + n] = b"\0" * len(m[k : k + n])
            log.append(f"zero {n} at {k}")
    C.note(case, bytes(m), ["random damage"], {"damage": log, "type": hex(st)}, bytes(m) != sav)
    case.labels.append(judge(bytes(m), b, st, "; ".join(log)))


def inner(src, i, case):
    """The inner stream of a doubly compressed save was damaged before it was compressed again: the outer one is intact."""
    b = payload(src, src.draw(400))
    level = src.choice([0, 1, 6, 9])
    good = zlib.compress(b, level)
    m = bytearray(good)
    r = src.draw(6)
    k = src.draw(len(m))
    if r < 2:
        m[k] ^= 1 << src.draw(8)
        what = f"bit of byte {k} flipped"
    elif r == 2:
        k = len(m) - 1 - src.draw(4)
        m[k] ^= 1 + src.draw(255)
        what = f"checksum byte {k} changed"
    elif r == 3:
        del m[k:]
        what = f"cut to {k} bytes"
    elif r == 4:
        o = zlib.compress(payload(src, len(b)), level)
        m[2:-4] = o[2:-4]
        what = "data of another stream under the old checksum"
    else:
        m[k : k + 4] = src.bytes(len(m[k : k + 4]))
        what = f"bytes from {k} replaced"
    n = len(m) if src.draw(2) else len(good)
    sav = len(b).to_bytes(4, "little") + n.to_bytes(4, "little") + b"PlZ2" + zlib.compress(bytes(m))
    if src.chance(1, 4):
        sav = b"\0" * 8 + b"CNK" + b"\x30" + sav
    try:
        same = zlib.decompress(bytes(m)) == b
    except zlib.error:
        same = False
    C.note(case, sav, ["inner stream, level %d" % level], {"inner": what, "of": len(good)}, m != good)
    case.labels.append(judge(sav, b, 0x32, "inner stream: " + what, not same))


def consistent(src, i, case):
    """The content is damaged, and the header's lengths agree with what is left of it (or are zero)."""
    b, st, sav, off = container(src, src.chance(1, 2))
    z = zlib.compress(b, src.choice([0, 1, 6, 9]))
    full = zlib.compress(z) if st == 0x32 else z
    r = src.draw(5)
    if r <= 1:
        k = src.choice([0, 0, 1, 2, 6, len(full) - 4, len(full) - 1, src.draw(len(full))])
        body = full[: max(0, min(k, len(full) - 1))]
        what = f"content cut to {len(body)} of {len(full)} bytes"
    elif r == 2:
        k = 1 + src.draw(min(8, len(full) - 1))
        body = full[k:]
        what = f"content without its first {k} bytes"
    elif r == 3:
        body = b"" if st == 0x31 else zlib.compress(z[: src.draw(len(z))])
        what = "inner stream cut" if st == 0x32 else "content missing"
    else:
        body = b"\0" * src.choice([0, 1, 4, 12, len(full)])
        what = f"content replaced by {len(body)} zero bytes"
    if body == full:
        body = full[:-1]
    try:
        mid = zlib.decompress(body) if st == 0x32 else b""
    except zlib.error:
        mid = b""
    comp = src.choice([len(body), 0, len(full), len(mid), len(z)])
    plain = src.choice([0, len(b), len(body), 0xFFFFFFFF])
    if st == 0x31 and src.chance(1, 2):
        comp = len(body)
    elif st == 0x32 and src.chance(1, 2):
        comp = len(mid)
    m = sav[:off] + plain.to_bytes(4, "little") + comp.to_bytes(4, "little") + b"PlZ" + bytes([st]) + body
    must = True
    try:
        b, st = C.unpack(m)
        must = False
    except Exception:
        pass
    C.note(case, m, ["consistent header"], {"what": what, "lengths": [plain, comp], "type": hex(st)}, must)
    judge(m, b, st, f"{what}, lengths {plain} and {comp}", must)
    if src.chance(1, 40):
        with cli.Dir() as w:
            p = w.write("x.sav", m)
            res = cli.convert([p])
            if must and res.code == 0:
                C.fail(f"{what}: converting it reported success", raw=m)
            if must and sorted(w.tree()) != ["x.sav"]:
                C.fail(f"{what}: converting it left files: " + str(sorted(w.tree())), raw=m)


def not_saves(src, i, case):
    r = i % 8
    if r == 0:
        f = b"\0" * src.choice([0, 1, 4, 8, 11, 12, 13, 100, 4096])
    elif r == 1:
        f = src.bytes(src.draw(64))
    elif r == 2:
        f = zlib.compress(src.bytes(src.draw(50)))
    elif r == 3:
        g = G.Gen(src, budget=6)
        f = M.encode(g.doc((), True, False))  # an uncompressed save
    elif r == 4:
        f = C.pack(src.bytes(src.draw(60)), 0x30)
    elif r == 5:
        f = C.pack(src.bytes(src.draw(60)), src.choice([0, 1, 2, 0x33, 0x34, 0x29, 255]))
    elif r == 6:
        f = b'{"header": {}}' + src.bytes(src.draw(20))
    else:
        f = b"\0" * 8 + b"CNK" + bytes([src.draw(256)]) + src.bytes(src.draw(30))
    C.note(case, f, ["not a save %d" % r], f[:60].hex())
    judge(f, None, None, "a file that is not a supported save", True)
    if i % 8 < 8 and src.chance(1, 6):
        with cli.Dir() as w:
            p = w.write("x.sav", f)
            res = cli.convert([p])
            if res.code == 0:
                C.fail("converting a file that is not a save reported success", raw=f)
            if sorted(w.tree()) != ["x.sav"]:
                C.fail("converting a file that is not a save left files: " + str(sorted(w.tree())), raw=f)


def command(src, i, case):
    """Damaged real saves through the command."""
    g, d = C.any_doc(src, budget=20, header=False)
    raw = M.encode(d)
    st = src.choice([0x31, 0x32])
    sav = C.pack(raw, st)
    m = bytearray(sav)
    r = src.draw(4)
    if r == 0:
        del m[src.draw(len(m)) :]
        if st == 0x32 and len(m) >= len(sav):
            pass
    elif r == 1:
        m[src.draw(len(m))] ^= 1 << src.draw(8)
    elif r == 2:
        m[src.draw(12)] ^= 1 + src.draw(255)
    else:
        k = src.draw(len(m))
        m[k : k + 20] = src.bytes(len(m[k : k + 20]))
    C.note(case, bytes(m), ["command"], {"bytes": len(m), "type": hex(st)}, bytes(m) != sav)
    with cli.Dir() as w:
        p = w.write("Level.sav", bytes(m))
        res = cli.convert([p])
        if res.code == 0:
            import json

            with open(p + ".json", encoding="utf8") as f:
                got = json.load(f)
            r = M.same(d, got)
            if r:
                C.fail("a damaged save was converted to another document: " + r, d, bytes(m))
        elif sorted(w.tree()) != ["Level.sav"]:
            C.fail("refusing a damaged save left files: " + str(sorted(w.tree())), d, bytes(m))


CHECK = Check(
    "C10",
    "a case is a container with one kind of damage (or a file that is no save); non-trivial: the damaged file differs "
    "from the original and was given to the tool, which refused it or returned the original payload and type",
    [
        Stage("cuts", cuts, 6000, 40000, "every truncation and lost prefix of a small container"),
        Stage("flips", flips, 4800, 30000, "every header bit and every content byte of a small container"),
        Stage("fields", fields, 48000, 300000, "lengths, magic, type, foreign header or content"),
        Stage("damage", damage, 64000, 500000, "up to four random kinds of damage"),
        Stage("inner", inner, 48000, 300000, "damage of the inner stream under an intact outer one"),
        Stage("consistent", consistent, 48000, 300000, "content damaged or missing, and lengths that agree with what is left"),
        Stage("not saves", not_saves, 24000, 100000, "files that are not supported saves"),
        Stage("command", command, 12000, 80000, "damaged saves through the convert command"),
    ],
    assumptions=["damage does not forge a zlib checksum (Adler-32)"],
)
