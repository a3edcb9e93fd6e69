import math
from fractions import Fraction

from vf import common as C
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage

Reader = T.archive.FArchiveReader
Writer = T.archive.FArchiveWriter
END = b"\x55\xaa\x55"  # follows what is read
SCALES = (1, 10, 100)


def bits_of(*ns):
    return max((n if n >= 0 else ~n).bit_length() for n in ns) + 1


def stored_ints(ns, scaled):
    b = bits_of(*ns)
    k = (b + 7) // 8
    return M.P_U32((64 if scaled else 0) | b) + b"".join((n & ((1 << 8 * k) - 1)).to_bytes(k, "little") for n in ns)


def read_vec(b, scale, **kw):
    r = Reader(b + END, **kw)
    v = T.must(f"reading the compact vector {b.hex()} failed", r.packed_vector, scale)
    rest = r.read_to_end()
    if bytes(rest) != END:
        C.fail(f"reading the compact vector {b.hex()} consumed {len(b + END) - len(rest)} of {len(b)} bytes")
    return v


def write_vec(v, scale):
    w = Writer()
    T.must(f"writing the compact vector {v} failed", w.packed_vector, scale, *v)
    return w.bytes()


def component(src, width):
    """A signed integer that needs exactly or at most `width` bits."""
    hi = 1 << (width - 1)
    r = src.draw(6)
    if r == 0:
        return hi - 1
    if r == 1:
        return -hi
    if r == 2:
        return src.choice([0, 0, -1, 1]) if width > 1 else src.choice([0, -1])
    return src.draw(2 * hi) - hi


def stored(src, i, case):
    """Every width and scale: read, compare with exact arithmetic, write back."""
    scale = SCALES[i % 3]
    width = 1 + (i // 3) % 63
    exact = 53 if scale == 1 else 50
    ns = []
    for _ in range(3):
        n = component(src, width)
        if abs(n) > 1 << exact:  # the game stores rounded doubles: only so many leading bits can be set
            k = n.bit_length() - exact
            n = (n >> k) << k
            if scale != 1:
                n = n // scale * scale
        ns.append(n)
    if scale != 1 and any(abs(n) > 1 << 50 for n in ns):
        scale = 1
        ns = [n if abs(n) <= 1 << 53 else (n >> (n.bit_length() - 53)) << (n.bit_length() - 53) for n in ns]
    if max(abs(n) for n in ns) >= 1 << 62:
        ns = [max(-(1 << 62) + 512, min((1 << 62) - 512, n)) for n in ns]
    if all(abs(n) >= scale << 52 for n in ns):
        ns[src.draw(3)] = src.draw(100) - 50
    b = stored_ints(ns, True)
    C.note(case, b, [f"scale {scale}", f"width {bits_of(*ns)}"], {"ints": ns, "scale": scale})
    v = read_vec(b, scale)
    for n, x in zip(ns, v):
        if Fraction(x) != Fraction(n) if scale == 1 else x != n / scale:
            C.fail(f"compact vector {b.hex()} (scale {scale}): component {n}/{scale} read as {x!r}")
    back = write_vec(v, scale)
    if back != b:
        C.fail(f"compact vector of {ns} at scale {scale} is written back as {back.hex()} instead of {b.hex()}")


def unscaled(src, i, case):
    ns = []
    for _ in range(3):
        m = ((1 << 52) + src.draw(1 << 52)) << src.draw(10)
        if i % 3 == 2:  # more digits than a double has
            m += src.draw(512)
        ns.append(min(m, (1 << 62) - 1) * src.choice([1, -1]))
    b = stored_ints(ns, False)
    C.note(case, b, ["unscaled"], {"ints": ns})
    v = read_vec(b, 1)
    if [Fraction(x) for x in v] != ns:
        C.fail(f"unscaled compact vector {b.hex()} read as {v}")
    back = write_vec(v, 1)
    if back != b:
        C.fail(f"unscaled compact vector of {ns} is written back as {back.hex()} instead of {b.hex()}")


def doubles(src, i, case):
    v = [P.f64(src) for _ in range(3)]
    v[src.draw(3)] = src.choice([2.0**62, -(2.0**62), 1e300, -1e19, 2.0**63, P.NAN, math.inf, -math.inf])
    b = M.P_U32(64) + b"".join(M.e_f64(k) for k in v)
    C.note(case, b, ["doubles"], {"values": [repr(k) for k in v]})
    got = read_vec(b, 1)
    r = M.same(v, list(got))
    if r:
        C.fail(f"compact vector of doubles {b.hex()}: {r}")
    for scale in SCALES:
        back = write_vec(v, scale)
        if back != b:
            C.fail(f"compact vector {v} (scale {scale}) is written as {back.hex()} instead of {b.hex()}")
    want = [None if not math.isfinite(k) else k for k in v]
    got = read_vec(b, 1, allow_nan=False)
    r = M.same(want, list(got))
    if r:
        C.fail(f"compact vector of doubles {b.hex()} under the null option: {r}")
    if None in got:
        back = write_vec(got, 1)
        b = M.P_U32(64) + b"".join(M.e_f64(k) for k in want)
        if back != b:
            C.fail(f"compact vector {got} is written as {back.hex()} instead of {b.hex()}")


def decode(b):
    """Reference reading of a written vector: ('ints', scaled, ints, bits) or ('doubles', values)."""
    h = int.from_bytes(b[:4], "little")
    n, x = h & 63, h >> 6
    if n == 0:
        assert x == 1 and len(b) == 28, b.hex()
        import struct

        return "doubles", struct.unpack("<3d", b[4:])
    k = (n + 7) // 8
    assert x in (0, 1) and len(b) == 4 + 3 * k, b.hex()
    return "ints", x, [int.from_bytes(b[4 + j * k : 4 + j * k + k], "little", signed=True) for j in range(3)], n


def nearest(x, scale, n):
    """n is a nearest integer to x*scale; the product may have been rounded to a double first."""
    d = abs(Fraction(x) * scale - n)
    if d <= Fraction(1, 2):
        return True
    p = x * scale
    return abs(Fraction(p) - n) <= Fraction(1, 2) and d <= Fraction(1, 2) + Fraction(math.ulp(p))


def value(src):
    r = src.draw(10)
    if r < 2:
        return (src.draw(200001) - 100000) / src.choice([1, 2, 10, 100, 1000, 3])
    if r < 3:
        return float(src.draw(2000) - 1000)
    if r < 5:
        return math.ldexp(src.draw(1 << 53) / (1 << 53) - 0.5, src.draw(63))
    if r < 6:
        return src.choice([0.0, -0.0, 0.5, -0.5, 1.5, 2.5, 0.49999999999999994, -0.49999999999999994, 0.05, 0.15, 0.005, 0.29, 0.57, 1.005, -1.005, 1e-9, -1e-9, 5e-324])
    if r < 7:
        e = src.draw(62)
        return float((1 << e) + src.draw(3) - 1) * src.choice([1, -1])
    if r < 8:
        e = src.draw(50)
        return ((1 << e) + src.draw(3) - 1 + src.choice([0.25, 0.5, -0.5, 0.75])) * src.choice([1, -1])
    return P.f64(src, True)


def written(src, i, case):
    """Any vector from JSON: narrowest form, nearest value."""
    scale = SCALES[i % 3]
    v = [value(src) for _ in range(3)]
    if src.chance(1, 6):
        v = [int(x) for x in v]  # JSON numbers without a fraction
        if any(abs(x) > 1 << 62 for x in v):
            v = [x % 1000 for x in v]
    C.note(case, repr((scale, v)), [f"scale {scale}"], {"scale": scale, "vector": [repr(x) for x in v]})
    b = write_vec(v, scale)
    try:
        form = decode(b)
    except Exception:
        C.fail(f"the vector {v} (scale {scale}) is written as {b.hex()}, which is no compact vector")
    if max(abs(x * scale) for x in v) < 2**62:
        scaled = min(abs(x) for x in v) < 2**52
        if form[0] != "ints" or form[1] != int(scaled):
            C.fail(f"the vector {v} (scale {scale}) is written in the form {form[:2]}")
        for x, n in zip(v, form[2]):
            if not nearest(x, scale if scaled else 1, n):
                C.fail(f"the component {x!r} (scale {scale}) is stored as {n}, which is not the nearest")
        if form[3] != bits_of(*form[2]):
            C.fail(f"the vector {v} (scale {scale}) is stored in {form[3]} bits, {bits_of(*form[2])} are needed")
    elif form[0] != "doubles" or M.same([float(x) for x in v], list(form[1])):
        C.fail(f"the vector {v} (scale {scale}), too large for integers, is written as {form}")
    got = read_vec(b, scale)
    again = write_vec(got, scale)
    if again != b and max(abs(x * scale) for x in v) < 2**50:
        C.fail(f"the vector {v} (scale {scale}) is not stable: {b.hex()} then {again.hex()}")


def e_rot(ns):
    return b"".join(b"\1" + M.P_U16(n) if n else b"\0" for n in ns)


def angles(src, i, case):
    """256 stored angles per case, on each axis, the others random: all 65536 per axis."""
    lo = i * 256
    C.note(case, str(lo), ["all angles"], f"{lo}..{lo + 255}")
    for n in range(lo, lo + 256):
        for axis in range(3):
            ns = [src.choice([0, 0, 1, 65535, 32768]) if src.draw(2) else src.draw(65536) for _ in range(3)]
            ns[axis] = n
            rot(ns)


def rot(ns):
    b = e_rot(ns)
    r = Reader(b + END)
    v = T.must(f"reading the rotation {b.hex()} failed", r.compressed_short_rotator)
    rest = r.read_to_end()
    if bytes(rest) != END:
        C.fail(f"reading the rotation {b.hex()} consumed {len(b + END) - len(rest)} of {len(b)} bytes")
    for n, x in zip(ns, v):
        if abs(Fraction(x) - Fraction(n * 360, 65536)) > Fraction(1, 10**9):
            C.fail(f"the rotation {b.hex()} is read as {v}: {n} should be {n * 360 / 65536}")
    w = Writer()
    T.must(f"writing the rotation {v} failed", w.compressed_short_rotator, *v)
    if w.bytes() != b:
        C.fail(f"the rotation {v} is written back as {w.bytes().hex()} instead of {b.hex()}")


def rotations(src, i, case):
    """Edited angles: nearest stored value, whole turns removed."""

    def angle():
        r = src.draw(8)
        if r < 2:
            return float(src.draw(361))
        if r < 3:
            return src.choice([0.0, 360.0, 359.999, 359.9972, 359.9973, 0.0027, 0.0028, -0.001, -90.0, -180.0, 180.0, 720.0, 719.999, -359.999, 0.002746, 0.002747, 1e-300, -1e-300, 45, 90, -45])
        if r < 4:
            return (src.draw(65536) + (src.draw(1001) - 500) / 1001) * 360 / 65536
        if r < 6:
            return (src.draw(1440001) - 720000) / 1000
        return (src.draw(1 << 40) / (1 << 40) - 0.5) * src.choice([1, 360, 720, 100000])

    v = [angle() for _ in range(3)]
    C.note(case, repr(v), ["edited angles"], {"angles": v})
    w = Writer()
    T.must(f"writing the rotation {v} failed", w.compressed_short_rotator, *v)
    b = w.bytes()
    pos, ns = 0, []
    try:
        for _ in range(3):
            if b[pos]:
                assert b[pos] == 1
                ns.append(int.from_bytes(b[pos + 1 : pos + 3], "little"))
                assert ns[-1] != 0, "zero stored with a flag"
                pos += 3
            else:
                ns.append(0)
                pos += 1
        assert pos == len(b)
    except Exception as e:
        C.fail(f"the rotation {v} is written as {b.hex()}, which is no compact rotation in narrowest form: {e!r}")
    for x, n in zip(v, ns):
        t = Fraction(x) * 65536 / 360
        off = (t - n) % 65536
        off = min(off, 65536 - off)
        if off > Fraction(1, 2) + Fraction(1, 10**6):
            C.fail(f"the angle {x!r} is stored as {n} ({n * 360 / 65536}), which is not the nearest")


def foliage(src, i, case):
    """Edited foliage instances in whole saves."""
    g = G.Gen(src, budget=20)
    g.n = lambda: 1
    sec = g.sec_FoliageGridSaveDataMap()
    d = {"header": g.plain_header(), "properties": {"worldSaveData": g.struct("PalWorldSaveData", {"FoliageGridSaveDataMap": sec})}, "trailer": "AAAAAA=="}
    raw = M.encode(d)
    got = C.check_shown(d, raw)
    n = 0
    for a, b in zip(d["properties"]["worldSaveData"]["value"]["FoliageGridSaveDataMap"]["value"], got["properties"]["worldSaveData"]["value"]["FoliageGridSaveDataMap"]["value"]):
        for ma, mb in zip(a["value"]["ModelMap"]["value"], b["value"]["ModelMap"]["value"]):
            for ia, ib in zip(ma["value"]["InstanceDataMap"]["value"], mb["value"]["InstanceDataMap"]["value"]):
                va, vb = ia["value"]["RawData"]["value"], ib["value"]["RawData"]["value"]
                for k in ("x", "y", "z"):
                    x = value(src)
                    if x == math.floor(x) + 0.5:
                        x += 0.125
                    va["world_transform"]["location"][k] = vb["world_transform"]["location"][k] = x
                for k in ("pitch", "yaw", "roll"):
                    x = (src.draw(720001) - 360000) / 1000 + 0.0001
                    va["world_transform"]["rotator"][k] = vb["world_transform"]["rotator"][k] = x
                n += 1
    raw = M.encode(d)
    C.note(case, raw, ["foliage"], {"instances": n}, n > 0)
    back = T.must("writing the edited foliage failed", T.doc_raw, got)
    if back != raw:
        C.fail("edited foliage is stored differently: " + T.first_diff(raw, back), d, raw)


CHECK = Check(
    "C16",
    "a case is a stored or JSON vector at a scale factor, or a rotation; non-trivial: it was read and written and "
    "compared with exact integer and rational arithmetic",
    [
        Stage("stored", stored, 63 * 3 * 240, 63 * 3 * 3000, "scaled integers of every width 1..63 at scales 1, 10, 100"),
        Stage("unscaled", unscaled, 12000, 100000, "unscaled integers"),
        Stage("doubles", doubles, 16000, 100000, "plain doubles, NaN, infinities, null option"),
        Stage("written", written, 64000, 600000, "arbitrary vectors: form, width, nearest value"),
        Stage("angles", angles, 256, 256, "all 65536 angles on every axis"),
        Stage("rotations", rotations, 64000, 600000, "arbitrary angles: nearest value modulo a turn"),
        Stage("foliage", foliage, 3000, 60000, "edited foliage instances in saves"),
    ],
    assumptions=["the single-precision form (never written by the game's double build) is not covered"],
)
