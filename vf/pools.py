"""Generators of leaf values: text, integers, floats, guids, lengths."""
import math
import struct

from vf import autodict

_fresh = None


def fresh():
    global _fresh
    if _fresh is None:
        _fresh = autodict.fresh()
    return _fresh


NAN32 = 0x7FC00000
NAN64 = 0x7FF8000000000000
NAN = struct.unpack("<d", struct.pack("<Q", NAN64))[0]

WORDS = [
    "Level", "SaveParameter", "Timestamp", "Hp", "StackCount", "PlayerUId", "InstanceId", "X", "Y", "Z",
    "NickName", "Exp", "bIsPlayer", "Gender", "Talent_HP", "EquipWaza", "MasteredWaza", "Slots", "GroupID",
    "SlotIndex", "ItemId", "StaticId", "DynamicId", "DebugName", "Version", "OwnedTime", "rawdata",
    "RAWDATA", "RawData2", "groupType", "Key", "Value", "values", "id", "type", "custom_type", "None_", "none",
    "NONE", "worldSaveDatA", "prop_name", "struct_id", "value", "v2", "trailer",
]
SPECIAL_TEXT = [
    "", "None", "none", "null", "true", "false", "NaN", "Infinity", "-Infinity", "0", "-1", "1.0", " ", "  a",
    "a ", "\t", "\n", "\r\n", "\x00", "a\x00", "a\x00b", "\x00a", "\x7f", "\x80", "\xa0", "\xff", "\u0100",
    "\u200b", "\u2028", "\ufeff", "\ufffe", "\uffff", "\ufffd", "\ud800", "\udfff", "\udc00\ud800", "a\ud83d",
    "\U0001f600", "\U0010ffff", "\U00010000", "e\u0301", "\u00e9", "\u0130", "\u00df", "\u1e9e", "\uff21",
    "'", '"', "\\", "\\u0041", "\\\\", "/", "</script>", "%s", "{}", "{0}", "$", "\x1b[0m", "\x1a", "\x85",
    "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff",
    "\u65b0\u898f\u751f\u6210\u62e0\u70b9", "\u0416\u0443\u043a", "\u05e9\u05dc\u05d5\u05dd", "\u0e44\u0e17\u0e22",
    "EPalGroupType::Guild", "EPalWorkableType::Progress", "PalEgg_Earth_01", "PickupItem_Stone", ".worldSaveData",
    "AAAA", "AA==", "A" * 15, "A" * 16, "A" * 17,
]
PLAIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
LENGTHS = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 39, 40, 41, 47, 48, 49, 50, 51, 55, 60, 61,
           62, 63, 64, 65, 66, 79, 80, 81, 96, 99, 100, 101, 119, 120, 121, 126, 127, 128, 129, 130, 199, 200, 201,
           254, 255, 256, 257, 258]
LONG = [300, 511, 512, 513, 767, 768, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]
HUGE = [8191, 8192, 8193, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537]


def norm16(s):
    """The string a sequence of UTF-16 code units denotes (adjacent surrogates combined)."""
    return s.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")


def length(src, cap=4200):
    """A length or count, biased to small values and to boundaries."""
    fr = fresh()
    if fr.ints and src.chance(1, 4):
        k = abs(src.choice(fr.ints)) * src.weighted([(6, 1), (1, 2), (1, 3)]) + src.weighted(
            [(3, 0), (2, 1), (2, -1), (1, 2), (1, -2)]
        )
        if 0 <= k <= 70000 and (k < 40 or src.bulk > 0):
            src.bulk -= k if k >= 40 else 0
            return k
    r = src.draw(100)
    if r < 70:
        return src.draw(12)
    if r < 90:
        return min(cap, src.choice(LENGTHS))
    if r < 97:
        return src.draw(min(cap, 300) + 1)
    return min(cap, src.choice(LONG))


def _unit(src, cls):
    if cls == 0:
        return PLAIN[src.draw(len(PLAIN))]
    if cls == 1:
        return chr(src.draw(128))
    if cls == 2:
        return chr(0x80 + src.draw(0x80))
    if cls == 3:
        return chr(src.choice([0x100, 0x370, 0x400, 0x590, 0x900, 0xE00, 0x3040, 0x4E00, 0xAC00, 0xE000, 0xFF00]) + src.draw(0x60))
    if cls == 4:
        return chr(0x10000 + src.draw(0x100000))
    if cls == 5:
        return chr(0xD800 + src.draw(0x800))
    return chr(src.draw(0x10000))


def _chars(src, n, cls):
    if n <= 24:
        return "".join(_unit(src, cls) for _ in range(n))
    # long strings: a short random motif repeated, with random ends, so that cases stay cheap
    m = [_unit(src, cls) for _ in range(5)]
    body = [m[i % 5] for i in range(n)]
    for _ in range(3):
        body[src.draw(n)] = _unit(src, cls)
    body[-1] = _unit(src, cls)
    body[0] = _unit(src, cls)
    return "".join(body)


def text(src, cap=4200):
    fr = fresh()
    if fr.strs and src.chance(1, 5):
        t = src.choice(fr.strs)
        k = src.draw(8)
        if k == 0:
            t = t + _chars(src, 1 + src.draw(3), 0)
        elif k == 1:
            t = _chars(src, 1 + src.draw(3), 0) + t
        elif k == 2:
            t = _chars(src, 1 + src.draw(3), 0) + t + _chars(src, 1 + src.draw(3), src.draw(4))
        elif k == 3:
            t = t.upper()
        elif k == 4:
            t = t.lower()
        return norm16(t)
    if fr.ints and src.chance(1, 12):
        k = src.choice(fr.ints)
        if 0 <= k < 0x110000:
            t = chr(k)
            return norm16(_chars(src, src.draw(3), src.draw(4)) + t + _chars(src, src.draw(3), src.draw(4)))
    r = src.draw(100)
    if r < 35:
        return _chars(src, 1 + src.draw(10), 0)
    if r < 45:
        return src.choice(WORDS)
    if r < 63:
        return src.choice(SPECIAL_TEXT)
    n = length(src, cap)
    cls = src.weighted([(4, 0), (4, 1), (3, 2), (4, 3), (3, 4), (2, 5), (3, 6), (4, 7)])
    if cls == 7:
        if n > 24:
            base = list(_chars(src, n, 0))
            for _ in range(1 + src.draw(2)):
                base[src.draw(n)] = _unit(src, 2 + src.draw(5))
            return norm16("".join(base))
        return norm16("".join(_unit(src, src.draw(7)) for _ in range(n)))
    return norm16(_chars(src, n, cls))


def ascii_word(src):
    return _chars(src, 1 + src.draw(10), 0)


def integer(src, lo, hi):
    """An integer of [lo, hi], biased to zero, the ends, powers of two and fresh constants."""
    fr = fresh()
    if fr.ints and src.chance(1, 5):
        v = src.choice(fr.ints) + src.weighted([(3, 0), (1, 1), (1, -1)])
        if src.chance(1, 6):
            v = -v
        if lo <= v <= hi:
            return v
    r = src.draw(100)
    if r < 35:
        v = src.draw(10)
    elif r < 45:
        v = -1 - src.draw(10)
    elif r < 53:
        v = lo + src.draw(3)
    elif r < 61:
        v = hi - src.draw(3)
    elif r < 75:
        v = (1 << src.draw(max(1, hi.bit_length()))) + src.draw(3) - 1
        if lo < 0 and src.chance(1, 2):
            v = -v
    elif r < 88:
        v = src.draw(1 << (1 + src.draw(hi.bit_length())))
        if lo < 0 and src.chance(1, 2):
            v = -v
    else:
        v = lo + src.draw(hi - lo + 1)
    return min(hi, max(lo, v))


def u8(src):
    return integer(src, 0, 255)


def i32(src):
    return integer(src, -(1 << 31), (1 << 31) - 1)


def u32(src):
    return integer(src, 0, (1 << 32) - 1)


def i64(src):
    return integer(src, -(1 << 63), (1 << 63) - 1)


def u64(src):
    return integer(src, 0, (1 << 64) - 1)


def u16(src):
    return integer(src, 0, 65535)


def _f32(bits):
    return struct.unpack("<f", struct.pack("<I", bits))[0]


def _f64(bits):
    return struct.unpack("<d", struct.pack("<Q", bits))[0]


F32 = [0, 0x80000000, 0x3F800000, 0xBF800000, 0x00000001, 0x80000001, 0x007FFFFF, 0x00800000, 0x7F7FFFFF, 0xFF7FFFFF,
       0x7F800000, 0xFF800000, NAN32, 0x3DCCCCCD, 0x4B800000, 0x4B7FFFFF, 0x4F000000, 0x5F000000, 0x3EAAAAAB]
F64 = [0, 1 << 63, 0x3FF0000000000000, 0xBFF0000000000000, 1, (1 << 63) | 1, 0x000FFFFFFFFFFFFF, 0x0010000000000000,
       0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF, 0x7FF0000000000000, 0xFFF0000000000000, NAN64, 0x3FB999999999999A,
       0x4340000000000000, 0x433FFFFFFFFFFFFF, 0x41E0000000000000, 0x43E0000000000000, 0x47EFFFFFE0000000,
       0x47EFFFFFF0000000, 0x36A0000000000000, 0x3FD5555555555555]


def f32(src, finite=False):
    fr = fresh()
    if (fr.floats or fr.ints) and src.chance(1, 6):
        v = float(src.choice(fr.floats + fr.ints))
        try:
            return struct.unpack("<f", struct.pack("<f", v))[0]
        except OverflowError:
            pass
    r = src.draw(10)
    if r < 3:
        v = _f32((src.choice(F32) + src.choice([0, 0, 0, 1, -1, 2, -2, 7, -7])) % (1 << 32))
    elif r < 6:
        v = struct.unpack("<f", struct.pack("<f", (src.draw(20001) - 10000) / src.choice([1, 2, 10, 100, 7])))[0]
    else:
        v = _f32(src.draw(1 << 32))
    if v != v:
        v = NAN
    if finite and not math.isfinite(v):
        v = 1.5
    return v


def f64(src, finite=False):
    fr = fresh()
    if (fr.floats or fr.ints) and src.chance(1, 6):
        try:
            return float(src.choice(fr.floats + fr.ints))
        except OverflowError:
            pass
    r = src.draw(10)
    if r < 3:
        v = _f64((src.choice(F64) + src.choice([0, 0, 0, 1, -1, 2, -2, 64, -64, 1 << 29])) % (1 << 64))
    elif r < 6:
        v = (src.draw(2000001) - 1000000) / src.choice([1, 2, 10, 100, 7, 8192])
    else:
        v = _f64(src.draw(1 << 64))
    if v != v:
        v = NAN
    if finite and not math.isfinite(v):
        v = 1.5
    return v


def guid_bytes(src, history=None):
    if history and src.chance(1, 4):
        b = src.choice(history)
        k = src.draw(3)
        if k == 1:  # a near collision
            i = src.draw(16)
            b = b[:i] + bytes([b[i] ^ (1 << src.draw(8))]) + b[i + 1 :]
        elif k == 2:
            b = b[8:] + b[:8]
        return b
    r = src.draw(20)
    if r < 4:
        b = b"\0" * 16
    elif r < 5:
        b = b"\xff" * 16
    elif r < 6:
        i = src.draw(128)
        b = (1 << i).to_bytes(16, "little")
    elif r < 7:
        b = bytes(range(1, 17))
    elif r < 8:
        b = b"\x01" + b"\0" * 15
    elif r < 9:
        b = src.bytes(4) + b"\0" * 12
    elif r < 10:
        b = bytes([src.draw(256)]) * 16
    elif r < 11:
        b = b"\0" * 12 + src.bytes(4)
    else:
        b = src.bytes(16)
    if history is not None and len(history) < 12:
        history.append(b)
    return b


GUID_ORDER = (3, 2, 1, 0, 7, 6, 5, 4, 11, 10, 9, 8, 15, 14, 13, 12)


def guid_text(b):
    h = bytes(b[i] for i in GUID_ORDER).hex()
    return f"{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}"


def guid_unhex(s):
    b = bytes.fromhex(s.replace("-", ""))
    return bytes(b[i] for i in GUID_ORDER)
