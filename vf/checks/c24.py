import math
import struct
import uuid

from vf import common as C
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage, Violation

A = T.archive
INTS = {
    "i16": (-(1 << 15), (1 << 15) - 1, "<h"), "u16": (0, (1 << 16) - 1, "<H"), "i32": (-(1 << 31), (1 << 31) - 1, "<i"),
    "u32": (0, (1 << 32) - 1, "<I"), "i64": (-(1 << 63), (1 << 63) - 1, "<q"), "u64": (0, (1 << 64) - 1, "<Q"),
    "byte": (0, 255, "<B"), "u": (0, 255, "<B"),
}
XYZ, XYZW = ("x", "y", "z"), ("x", "y", "z", "w")


def guid_arg(src, text):
    """The writer takes text, a standard library uuid, or its own guid type."""
    k = src.draw(3)
    return text if k == 0 else uuid.UUID(text) if k == 1 else A.UUID(P.guid_unhex(text))


class Op:
    """One primitive: the call that writes it, its bytes, the call that reads it and what that must give."""

    __slots__ = ("name", "write", "data", "read", "want", "shown")

    def __init__(self, name, write, data, read, want, shown=None):
        self.name, self.write, self.data, self.read, self.want = name, write, data, read, want
        self.shown = want if shown is None else shown


def f_seen(v, nan):
    return v if nan or v is None or math.isfinite(v) else None


def op_int(src, g, nan, k=None):
    k = k or src.choice(sorted(INTS))
    lo, hi, fmt = INTS[k]
    v = P.integer(src, lo, hi)
    return Op(k, lambda w: getattr(w, k)(v), struct.pack(fmt, v), lambda r: getattr(r, "byte" if k == "u" else k)(), v)


def op_float(src, g, nan):
    k = src.choice(["float", "double"])
    if k == "float":
        v = g.f32() if src.draw(3) else float(src.draw(1 << 53)) / (src.draw(1000) + 1)
        back = v if v != v else struct.unpack("<f", struct.pack("<f", v))[0]
        b = M.e_f32(v)
    else:
        v = back = g.f64()
        b = M.e_f64(v)
    if src.chance(1, 12):
        v, back = None, P.NAN
        b = M.e_f32(None) if k == "float" else M.e_f64(None)
    return Op(k, lambda w: getattr(w, k)(v), b, lambda r: getattr(r, k)(), f_seen(back, nan), v)


def op_bool(src, g, nan):
    v = bool(src.draw(2))
    return Op("bool", lambda w: w.bool(v), M.e_b8(v), lambda r: r.bool(), v)


def op_bytes(src, g, nan):
    b = src.bytes(P.length(src, 600))
    if src.draw(2):
        return Op("bytes", lambda w: w.write(b), b, lambda r: list(r.byte_list(len(b))), list(b), "%d bytes" % len(b))
    return Op("tarray(byte)", lambda w: w.tarray(A.FArchiveWriter.byte, list(b)), M.P_U32(len(b)) + b,
              lambda r: r.tarray(A.FArchiveReader.byte), list(b), "%d bytes" % len(b))


def op_text(src, g, nan):
    t = g.text()
    return Op("fstring", lambda w: w.fstring(t), M.e_str(t), lambda r: r.fstring(), t)


def op_guid(src, g, nan):
    t = g.guid()
    a = guid_arg(src, t)
    k = src.draw(4)
    if k == 0:
        return Op("guid", lambda w: w.guid(a), P.guid_unhex(t), lambda r: str(r.guid()), t)
    if k == 1:
        return Op("optional_guid", lambda w: w.optional_guid(a), b"\1" + P.guid_unhex(t), lambda r: str(r.optional_guid()), t)
    if k == 2:
        return Op("optional_guid", lambda w: w.optional_guid(None), b"\0", lambda r: r.optional_guid(), None)
    t2 = g.guid()
    return Op(
        "instance_id", lambda w: A.instance_id_writer(w, {"guid": a, "instance_id": t2}), P.guid_unhex(t) + P.guid_unhex(t2),
        lambda r: {k: str(v) for k, v in A.instance_id_reader(r).items()}, {"guid": t, "instance_id": t2},
    )


def op_vec(src, g, nan):
    k = src.draw(5)
    seen = lambda v: {c: f_seen(x, nan) for c, x in v.items()}
    if k == 0:
        v = g.vec()
        return Op("vector", lambda w: w.vector(v["x"], v["y"], v["z"]), M.e_vec(v), lambda r: list(r.vector()), [f_seen(v[c], nan) for c in XYZ])
    if k == 1:
        v = g.vec()
        return Op("vector_dict", lambda w: w.vector_dict(v), M.e_vec(v), lambda r: r.vector_dict(), seen(v))
    if k == 2:
        v = g.quat()
        return Op("quat", lambda w: w.quat(v["x"], v["y"], v["z"], v["w"]), M.e_quat(v), lambda r: list(r.quat()), [f_seen(v[c], nan) for c in XYZW])
    if k == 3:
        v = g.quat()
        return Op("quat_dict", lambda w: w.quat_dict(v), M.e_quat(v), lambda r: r.quat_dict(), seen(v))
    v = g.xform()
    return Op("ftransform", lambda w: w.ftransform(v), M.e_xform(v), lambda r: r.ftransform(), {a: seen(b) for a, b in v.items()})


def op_rot(src, g, nan):
    v = g.g_rotator()
    return Op(
        "compressed_short_rotator", lambda w: w.compressed_short_rotator(v["pitch"], v["yaw"], v["roll"]), M.e_rotator(v),
        lambda r: list(r.compressed_short_rotator()), [v["pitch"], v["yaw"], v["roll"]],
    )


def op_packed(src, g, nan):
    v = g.g_packed1()
    return Op(
        "packed_vector", lambda w: w.packed_vector(1, v["x"], v["y"], v["z"]), M.e_packed(1)(v),
        lambda r: list(r.packed_vector(1)), [f_seen(v[c], nan) for c in XYZ],
    )


def op_list(src, g, nan):
    make = src.choice([op_int, op_text, op_guid, op_float, op_rot, op_bool, op_vec])
    if make is op_int:
        k = src.choice(sorted(INTS))
        items = [op_int(src, g, nan, k) for _ in range(g.count(1))]
    else:
        items = [make(src, g, nan) for _ in range(min(g.count(2), 40))]
    return Op(
        "tarray", lambda w: w.tarray(lambda w2, it: it.write(w2), items), M.P_U32(len(items)) + b"".join(o.data for o in items),
        lambda r: read_list(r, items), [o.want for o in items],
        "%d x %s" % (len(items), items[0].name if items else "-"),
    )


def read_list(r, items):
    it = iter(items)

    def one(r2):
        try:
            o = next(it)
        except StopIteration:
            raise Violation(f"a list of {len(items)} elements was read as a longer one")
        return o.read(r2)

    return r.tarray(one)


def op_props(src, g, nan):
    v = g.props(2, src.draw(3))
    if not nan:
        v = {}
    return Op(
        "properties", lambda w: w.properties(C.clone(v)), M.e_props(v),
        lambda r: T.json.loads(T.json.dumps(r.properties_until_end(), cls=T.Encoder)), v,
    )


MAKERS = [(6, op_int), (4, op_float), (2, op_bool), (3, op_bytes), (5, op_text), (5, op_guid), (4, op_vec), (2, op_rot), (2, op_packed), (2, op_list), (1, op_props)]


def ops(src, nan, cap=20):
    g = G.Gen(src, budget=30, cap=600)
    n = 1 + src.draw(cap)
    return [src.weighted(MAKERS)(src, g, nan) for _ in range(n)]


def show(seq):
    return [[o.name, T.short(repr(o.shown), 60)] for o in seq[:12]]


def read_all(seq, data, r=None, nan=True):
    r = r or A.FArchiveReader(data, allow_nan=nan)
    out = []
    for o in seq:
        out.append(o.read(r))
    return out, r


def sequence(src, i, case):
    nan = not src.chance(1, 4)
    seq = ops(src, nan)
    want = b"".join(o.data for o in seq)
    C.note(case, want, sorted({o.name for o in seq}), show(seq), len(seq) > 1)
    w = A.FArchiveWriter()
    done = b""
    for k, o in enumerate(seq):
        T.must(f"writing {o.name} {T.short(repr(o.shown), 80)} failed", o.write, w)
        done += o.data
        if src.chance(1, 3) or k == len(seq) - 1:
            got = w.bytes()
            if got != done:
                C.fail(f"after writing {[o.name for o in seq[: k + 1]]} (last {T.short(repr(o.shown), 200)}) the bytes differ: " + T.first_diff(done, got), show(seq))
    r = A.FArchiveReader(want, allow_nan=nan)
    pos = 0
    for o in seq:
        if src.chance(1, 3) and pos < len(want) and r.eof():
            C.fail(f"end of data reported at byte {pos} of {len(want)}", show(seq))
        got = T.must(f"reading {o.name} {T.short(repr(o.shown), 80)} failed", o.read, r)
        d = M.same(o.want, got)
        if d:
            C.fail(f"{o.name} written and read back: {d}", show(seq))
        pos += len(o.data)
    if not r.eof():
        C.fail("the end of the data is not reached after reading everything that was written", show(seq))
    rest = bytes(r.read_to_end())
    if rest:
        C.fail(f"{len(rest)} bytes are left after reading everything that was written", show(seq))


def remainder(src, i, case):
    """The rest of the data after any prefix of the reads is exactly what remains."""
    seq = ops(src, True, 8)
    want = b"".join(o.data for o in seq)
    k = src.draw(len(seq) + 1)
    pos = sum(len(o.data) for o in seq[:k])
    C.note(case, want + bytes([k]), ["remainder"], show(seq))
    with A.FArchiveReader(want) as r:
        for o in seq[:k]:
            T.must(f"reading {o.name} failed", o.read, r)
        rest = bytes(r.read_to_end())
        if rest != want[pos:]:
            C.fail(f"after {[o.name for o in seq[:k]]} the rest of the data is wrong: " + T.first_diff(want[pos:], rest), show(seq))
        if not r.eof():
            C.fail("not at the end after reading to the end", show(seq))


def cut(src, i, case):
    """Every cut of the data makes the reads fail before the last one has returned."""
    seq = ops(src, True, 5)
    want = b"".join(o.data for o in seq)
    if len(want) < 2:
        C.note(case, want, nontrivial=False)
        return
    cuts = range(len(want)) if len(want) <= 60 else sorted({src.draw(len(want)) for _ in range(12)} | {0, len(want) - 1, len(want) - 2})
    C.note(case, want, ["cut:" + seq[-1].name], show(seq))
    for n in cuts:
        try:
            got, r = read_all(seq, want[:n])
        except Violation:
            raise
        except Exception:
            continue
        # a zero-length tail may legitimately read as itself, anything else must have failed
        C.fail(f"reading {[o.name for o in seq]} from {n} of {len(want)} bytes succeeded: {T.short(repr(got), 300)}", show(seq), want)


def large(src, i, case):
    """One large text or list between two small values: written, read back, cut."""
    kind = src.choice(["ascii", "utf16", "bytes", "tarray", "guids"])
    fr = [n for n in P.fresh().ints if 4096 < n <= 1 << 24]
    n = src.choice(fr) * src.choice([1, 1, 2]) // src.choice([1, 1, 2]) if fr and src.chance(1, 2) else 1 << (10 + src.draw(13))
    n = n + src.draw(n // 8 + 40) - 20
    n = min(n, {"tarray": 300000, "guids": 60000}.get(kind, 1 << 24))
    seed = src.bytes(16)
    if kind == "ascii":
        t = "%032x" % int.from_bytes(seed, "little") * (n // 32 + 1)
        t = t[:n]
        op = Op("fstring", lambda w: w.fstring(t), M.P_I32(n + 1) + t.encode() + b"\0", lambda r: r.fstring(), t, kind)
    elif kind == "utf16":
        t = ("\u2642" + "%031x" % int.from_bytes(seed, "little")) * (n // 32 + 1)
        t = t[:n]
        op = Op("fstring", lambda w: w.fstring(t), M.P_I32(-n - 1) + t.encode("utf-16-le") + b"\0\0", lambda r: r.fstring(), t, kind)
    elif kind == "bytes":
        b = (seed * (n // 16 + 1))[:n]
        op = Op("bytes", lambda w: w.write(b), b, lambda r: bytes(r.byte_list(n)), b, kind)
    elif kind == "tarray":
        v = [(int.from_bytes(seed[:4], "little") * (k + 1)) % (1 << 32) for k in range(n)]
        op = Op("tarray(u32)", lambda w: w.tarray(A.FArchiveWriter.u32, v), M.P_U32(n) + struct.pack(f"<{n}I", *v), lambda r: r.tarray(A.FArchiveReader.u32), v, kind)
    else:
        gs = [(k * 7919).to_bytes(4, "little") + seed[4:] for k in range(n)]
        ts = [P.guid_text(b) for b in gs]
        op = Op("tarray(guid)", lambda w: w.tarray(A.FArchiveWriter.guid, ts), M.P_U32(n) + b"".join(gs), lambda r: [bytes(u.raw_bytes) for u in r.tarray(A.FArchiveReader.guid)], gs, kind)
    g = G.Gen(src, budget=4)
    seq = [op_int(src, g, True), op, op_int(src, g, True)]
    parts = [o.data for o in seq]
    want = b"".join(parts)
    C.note(case, repr((kind, n, seed)), ["large " + kind], {"kind": kind, "length": n})
    w = A.FArchiveWriter()
    for o in seq:
        T.must(f"writing {n} entries of {kind} failed", o.write, w)
    got = w.bytes()
    if got != want:
        C.fail(f"{n} entries of {kind} are written differently: " + T.first_diff(want, got))
    got, r = T.must(f"reading {n} entries of {kind} failed", read_all, seq, want)
    if got != [o.want for o in seq] or not r.eof():
        C.fail(f"{n} entries of {kind} are read differently")
    a, e = len(parts[0]), len(parts[0]) + len(parts[1])
    for c in (e - 1 - src.draw(min(64, e - a)), a + src.draw(e - a), e - 1):
        for data in (want[:c],):
            try:
                got, r = read_all(seq[:2], data)
            except Exception:
                continue
            C.fail(f"{n} entries of {kind} were read from {c - a} of {e - a} bytes")


def refuse(src, i, case):
    """A value that does not fit is refused."""
    k = src.choice(sorted(INTS) + ["float"])
    w = A.FArchiveWriter()
    pre = src.bytes(src.draw(4))
    w.write(pre)
    if k == "float":
        v = src.choice([1, -1]) * src.choice([3.5e38, 1e39, 1e300, 1.7976931348623157e308, 3.4028235677973366e38])
    else:
        lo, hi, _ = INTS[k]
        span = hi - lo + 1
        v = src.choice([hi + 1, lo - 1, hi + 1 + src.draw(span), lo - 1 - src.draw(span), hi + span * (1 + src.draw(5)), 1 << 64, -(1 << 64), 1 << 80])
    C.note(case, repr((k, v)), ["refused:" + k], [k, v])
    try:
        getattr(w, k)(v)
    except Exception:
        return
    C.fail(f"{k} accepted {v!r}, which does not fit, and stored {w.bytes()[len(pre):].hex()}")


def exhaustive(src, i, case):
    """All values of the 8 and 16 bit types, 256 per case."""
    kinds = ["byte", "u", "bool"] + ["u16"] * 256 + ["i16"] * 256
    k = kinds[i % len(kinds)]
    if k == "bool":
        vals, enc, rd = list(range(256)), [bytes([v]) for v in range(256)], lambda r: r.bool()
        r = A.FArchiveReader(b"".join(enc))
        for v in vals:
            if r.bool() is not (v > 0):
                C.fail(f"the stored byte {v} does not read as {v > 0}")
        C.note(case, k, ["all values:" + k])
        return
    lo, hi, fmt = INTS[k]
    off = 0 if k in ("byte", "u") else 256 * ((i - 3) % 256)
    vals = [lo + off + j for j in range(256)]
    want = b"".join(struct.pack(fmt, v) for v in vals)
    C.note(case, k + str(off), ["all values:" + k], [k, vals[0], vals[-1]])
    w = A.FArchiveWriter()
    for v in vals:
        getattr(w, k)(v)
    if w.bytes() != want:
        C.fail(f"{k} {vals[0]}..{vals[-1]}: " + T.first_diff(want, w.bytes()))
    r = A.FArchiveReader(want)
    f = getattr(r, "byte" if k == "u" else k)
    got = [f() for _ in vals]
    if got != vals:
        C.fail(f"{k} {vals[0]}..{vals[-1]} read as {T.short(repr(got), 200)}")


def two(src, i, case):
    """Interleaved writers and readers do not share anything."""
    a, b = ops(src, True, 8), ops(src, True, 8)
    da, db = b"".join(o.data for o in a), b"".join(o.data for o in b)
    C.note(case, da + b"|" + db, ["interleaved"], [show(a), show(b)])
    w1 = A.FArchiveWriter()
    w2 = w1.copy() if src.draw(2) else A.FArchiveWriter()
    order = [0] * len(a) + [1] * len(b)
    for j in range(len(order) - 1, 0, -1):
        k = src.draw(j + 1)
        order[j], order[k] = order[k], order[j]
    its = iter(a), iter(b)
    for k in order:
        o = next(its[k])
        T.must(f"writing {o.name} failed", o.write, (w1, w2)[k])
    for want, w in ((da, w1), (db, w2)):
        if w.bytes() != want:
            C.fail("two writers used in turn: " + T.first_diff(want, w.bytes()), [show(a), show(b)])
    r1 = A.FArchiveReader(da)
    r2 = r1.internal_copy(db, debug=False) if src.draw(2) else A.FArchiveReader(db)
    its = iter(a), iter(b)
    for k in order:
        o = next(its[k])
        d = M.same(o.want, T.must(f"reading {o.name} failed", o.read, (r1, r2)[k]))
        if d:
            C.fail(f"two readers used in turn: {o.name}: {d}", [show(a), show(b)])
    if not r1.eof() or not r2.eof():
        C.fail("two readers used in turn do not end at the end of their data", [show(a), show(b)])


CHECK = Check(
    "C24",
    "a case is a generated sequence of primitive writes and the matching reads (or a cut, or a value out of range); "
    "non-trivial: the sequence was written, compared byte for byte with the model and read back, or the refusal was demanded",
    [
        Stage("sequence", sequence, 216000, 2000000, "sequences written, compared and read back"),
        Stage("remainder", remainder, 36000, 400000, "read_to_end after any prefix"),
        Stage("cut", cut, 72000, 300000, "cut data"),
        Stage("large", large, 240, 4000, "texts and lists of 1 KiB to 16 MiB, whole and cut"),
        Stage("refuse", refuse, 36000, 100000, "values out of range"),
        Stage("exhaustive", exhaustive, 515, 515, "all 8 and 16 bit values"),
        Stage("two", two, 36000, 150000, "interleaved readers and writers"),
    ],
)
