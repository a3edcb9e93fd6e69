import random
import zlib

from vf import common as C
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage

SIZES = sorted(set(list(range(0, 70)) + P.LENGTHS + P.LONG + P.HUGE + [70000, 131071, 131072, 131073, 200000, 262144, 1 << 20]))


def payload(src, n):
    r = src.draw(7)
    if r == 0:
        return b"\0" * n
    if r == 1:
        m = src.bytes(1 + src.draw(20))
        return (m * (n // len(m) + 1))[:n]
    if r == 2:  # incompressible
        out = bytearray()
        while len(out) < n:
            out += src.bytes(4096) if n - len(out) > 4096 else src.bytes(n - len(out))
        return bytes(out)
    if r == 3 and n < 100000:
        return zlib.compress(src.bytes(min(n, 500)))
    if r == 4:  # a container inside
        return C.pack(src.bytes(min(n, 300)), src.choice([0x31, 0x32]))
    if r == 5:
        return (b"PlZ1" + b"CNK0" + b"GVAS" + src.bytes(8))[: max(0, min(n, 20))] + b"\xff" * max(0, n - 20)
    return (src.bytes(min(n, 257)) * (n // 257 + 1))[:n] if n else b""


def size(src, i):
    fr = P.fresh()
    if fr.ints and src.chance(1, 3):
        k = abs(src.choice(fr.ints)) + src.weighted([(3, 0), (1, 1), (1, -1)])
        if 0 <= k <= 3 << 20:
            return k
    return SIZES[i % len(SIZES)] if src.chance(3, 4) else src.draw(3000)


def roundtrip(src, i, case):
    n = size(src, i)
    b = payload(src, n)
    st = [0x31, 0x32][i // 7 & 1]
    kind = src.draw(3)
    arg = b if kind else bytearray(b)
    C.note(case, bytes([st]) + b, [f"type {st:#x}"], {"size": len(b), "type": hex(st), "head": b[:24].hex()})
    sav = T.must("compressing failed", T.palsav.compress_gvas_to_sav, arg, st)
    if not isinstance(sav, (bytes, bytearray)):
        C.fail(f"compressing returned {type(sav).__name__}, not bytes")
    sav = bytes(sav)
    try:
        ref = C.unpack(sav)
    except Exception as e:
        C.fail(f"the compressed file is not what the game expects: {type(e).__name__} {e} (payload of {len(b)} bytes, type {st:#x}, header {sav[:12].hex()})", raw=b)
    if ref != (b, st):
        C.fail(f"the compressed file holds other content: type {ref[1]:#x}, " + T.first_diff(b, ref[0]), raw=b)
    if sav[8:11] != b"PlZ":
        C.fail("the file does not begin with the lengths and the magic", raw=b)
    # nothing behind the compressed content
    dec = zlib.decompressobj()
    dec.decompress(sav[12:])
    if dec.unused_data or not dec.eof:
        C.fail("the compressed content does not fill the file", raw=b)
    got = T.must("decompressing what was compressed failed", T.palsav.decompress_sav_to_gvas, sav)
    same(got, b, st)


def same(got, b, st):
    try:
        p, t = got
    except Exception:
        C.fail(f"decompressing returned {T.short(got)}")
    if bytes(p) != b:
        C.fail("decompressing returned another payload: " + T.first_diff(b, bytes(p)), raw=b)
    if t != st:
        C.fail(f"decompressing returned type {t:#x} instead of {st:#x}", raw=b)


def deflate(src, b):
    """A zlib stream with random parameters, as any program could write it."""
    r = src.draw(6)
    if r == 0:
        return zlib.compress(b, src.draw(10))
    c = zlib.compressobj(src.draw(10), zlib.DEFLATED, src.choice([9, 10, 12, 15]), src.between(1, 9), src.draw(5))
    if r < 4:
        return c.compress(b) + c.flush()
    k = src.draw(len(b) + 1)
    return c.compress(b[:k]) + c.flush(src.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH])) + c.compress(b[k:]) + c.flush()


def marks(src):
    """Eight bytes that look like the container's own marks."""
    m = src.choice([b"PlZ1", b"PlZ2", b"PlZ", b"CNK", b"CNK0", b"GVAS", b"\x78\x9c", b"PlZ2PlZ1"])
    return (b"\0" * src.draw(9 - len(m)) + m).ljust(8, src.choice([b"\0", b"\xff"]))


def lookalike(src, i, case):
    """Lengths in the header that look like the marks: payload length, or compressed length (stored blocks)."""
    n = [0x5A6C50, 0x4B4E43][i & 1]
    st = [0x31, 0x32][i >> 1 & 1]
    if i & 4:
        # stored deflate blocks: 5 bytes per 65535, 2 of header, 4 of checksum
        k = n - 6
        m = k - 5 * (-(-k // 65540))
        b = b"\x07" * m
        inner = b""
        while len(inner) != n:
            c = zlib.compressobj(0, zlib.DEFLATED, 15, 9)
            inner = c.compress(b) + c.flush()
            d = n - len(inner)
            if not d:
                break
            b = b"\x07" * (len(b) + d)
    else:
        b = b"\0" * n
        inner = zlib.compress(b, 1)
    body = zlib.compress(inner, 1) if st == 0x32 else inner
    sav = len(b).to_bytes(4, "little") + len(inner).to_bytes(4, "little") + b"PlZ" + bytes([st]) + body
    pre = i >> 3 & 1
    if pre:
        sav = marks(src) + b"CNK0" + sav
    C.note(case, bytes([i & 15]) + sav[:24], ["length looks like a mark"], {"header": sav[:24].hex()})
    same(T.must("decompressing a valid save failed", T.palsav.decompress_sav_to_gvas, sav), b, st)
    if not i & 4 and not pre:
        again = T.must("compressing failed", T.palsav.compress_gvas_to_sav, b, st)
        if C.unpack(bytes(again)) != (b, st):
            C.fail(f"the compressed file holds other content ({n} zero bytes, type {st:#x})")
        same(T.must("decompressing what was compressed failed", T.palsav.decompress_sav_to_gvas, again), b, st)


def foreign(src, i, case):
    n = size(src, i)
    b = payload(src, n)
    st = [0x31, 0x32][i & 1]
    inner = deflate(src, b)
    body = deflate(src, inner) if st == 0x32 else inner
    sav = len(b).to_bytes(4, "little") + len(inner).to_bytes(4, "little") + b"PlZ" + bytes([st]) + body
    chunk = src.chance(1, 2)
    if chunk:
        pre = src.choice([lambda: b"\0" * 8, lambda: src.bytes(8), lambda: sav[:8], lambda: b"\xff" * 8, lambda: marks(src)])()
        sav = pre + b"CNK" + bytes([src.choice([0x30, 0x31, 0x32, 0, 255])]) + sav
    C.note(case, sav, [f"type {st:#x}", "chunk prefix" if chunk else "no prefix"], {"size": len(b), "type": hex(st), "header": sav[:24].hex()})
    same(T.must("decompressing a valid save failed", T.palsav.decompress_sav_to_gvas, sav), b, st)


MIB = 1 << 20
LARGE = [k * MIB for k in (2, 4, 5, 8, 12, 16, 20, 24, 32, 40, 48, 64, 80, 100, 128, 160, 200, 256)] + [10**7, 10**8]


def large(src, i, case):
    """Saves of the size of a large world."""
    fr = [n for n in P.fresh().ints if 1 << 20 < n <= 300 * MIB]
    if fr and i % 3 == 0:
        n = src.choice(fr)
    elif i < 40:
        n = LARGE[i // 2 % len(LARGE)]
    else:
        n = src.choice(LARGE) * (1 + src.draw(2))
    n += src.choice([0, 1, -1, src.draw(5000)])
    st = [0x31, 0x32][i & 1]
    r = random.Random(src.draw(1 << 32))
    if n < 42 * MIB and src.draw(3) == 0:
        b, what = r.randbytes(n), "incompressible"
    else:
        unit = r.randbytes(1 + src.draw(3000))
        b, what = (unit * (n // len(unit) + 1))[: n - 4] + r.randbytes(4), "repeating"
    C.note(case, repr((n, st, b[:16], b[-4:])), [what], {"size": n, "type": hex(st), "content": what})
    sav = T.must(f"compressing {n} bytes failed", T.palsav.compress_gvas_to_sav, b, st)
    try:
        ref = C.unpack(bytes(sav))
    except Exception as e:
        C.fail(f"the compressed file of {n} bytes is not what the game expects: {type(e).__name__} {e}")
    if ref != (b, st):
        C.fail(f"the compressed file holds other content ({n} bytes, type {st:#x})")
    del ref
    got = T.must(f"decompressing {n} bytes failed", T.palsav.decompress_sav_to_gvas, bytes(sav))
    if bytes(got[0]) != b or got[1] != st:
        C.fail(f"decompressing returned another payload or type ({n} bytes, type {st:#x})")


CHECK = Check(
    "C09",
    "a case is a payload with a save type, container prefix and zlib parameters; non-trivial: it went through the "
    "container code and payload and type were compared (sizes 0..1 MiB, all boundaries, some up to 256 MiB)",
    [
        Stage("round trip", roundtrip, 30000, 200000, "compress, reference-read, decompress"),
        Stage("foreign", foreign, 30000, 200000, "containers written with other zlib parameters, with and without CNK prefix"),
        Stage("large", large, 40, 400, "payloads of 2 to 256 MiB (thorough: 512)"),
        Stage("look-alikes", lookalike, 16, 64, "lengths and prefixes whose bytes read PlZ or CNK (5 to 6 MB)"),
    ],
)
