import json
import os

from vf import cli
from vf import common as C
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T
from vf.engine import Check, Stage

DOUBLE = ["/Script/Pal.PalWorldSaveGame", "/Script/Pal.PalLocalWorldSaveGame"]
SINGLE = [
    "/Script/Pal.PalWorldPlayerSaveGame", "/Script/Pal.PalWorldBaseInfoSaveGame", "/Script/Pal.PalWorldOptionSaveGame",
    "/Script/Pal.PalOptionSaveGame", "/Script/Engine.SaveGame", "", "PalWorld", "/Script/Pal.PalWorld", "/Script/Pal.PalLocalWorld",
    "/Script/Pal.PalSaveGame", "/Script/Pal.PalLocalSaveGame", "/Script/Pal.PalWorldSave", "/Script/Pal.WorldSaveGame",
    "/Script/Pal.LocalWorldSaveGame", "/Script/Pal.PalWorldMetaSaveGame", "SaveGame", "None", "/Script/Pal.PalWorldLocalSaveGame",
    "/script/pal.palworldsavegame", "/Script/Pal.PalWorldSavegame", "Pal.PalWorldSaveGam", "Pal.Pal WorldSaveGame",
    "PalWorldSaveGame", "/Script/PalWorldSaveGame", "PalLocalWorldSaveGame", "/Script/Pal_PalWorldSaveGame", "Pal.PalWorld.SaveGame",
    "/Script/Pal.PalPlayerSaveGame", "/Script/Pal.PalLocalWorldOptionSaveGame", "/Script/Other.OtherWorldSaveGame",
]


def classname(src):
    """(name, save type)"""
    r = src.draw(6)
    if r < 2:
        s = src.choice(DOUBLE)
        k = src.draw(6)
        if k == 0:  # other spellings of the same classes: package, blueprint suffix, prefix
            s = src.choice(["", "/Game/Mods/", "Blueprint'", P.text(src, 40)]) + s[8:] + src.choice(["", "_C", "'", ".Default", P.text(src, 40)])
        return s, 0x32
    if r < 5:
        return src.choice(SINGLE), 0x31
    s = P.text(src, 300)
    low = s.lower()
    if "palworldsavegame" in low or "pallocalworldsavegame" in low:
        s = "/Script/Engine.SaveGame"
    return s, 0x31


def make(src):
    g, d = C.any_doc(src, budget=16, header=src.chance(1, 3))
    cn, st = classname(src)
    d["header"]["save_game_class_name"] = cn
    return d, st


def container(sav, d, raw, st, what):
    try:
        back, t = C.unpack(sav)
    except Exception as e:
        C.fail(f"{what}: the written file is not a valid save container: {e!r}, header {sav[:16].hex()}", d, raw)
    if t != st:
        C.fail(f"{what}: class {d['header']['save_game_class_name']!r} was written as type {t:#x} instead of {st:#x}", d, raw)
    if back != raw:
        C.fail(f"{what}: the container holds other bytes than the document: " + T.first_diff(raw, back), d, raw)


def written(src, i, case):
    """A document written with the convert command."""
    d, st = make(src)
    raw = M.encode(d)
    C.note(case, raw, [f"type {st:#x}"], {"class": d["header"]["save_game_class_name"][:80], "bytes": len(raw)})
    with cli.Dir() as w:
        p = w.write("x.sav.json", json.dumps(d).encode())
        r = cli.convert([p])
        if r.code:
            C.fail(f"converting a document failed: {r.tail()}", d, raw)
        with open(w.path("x.sav"), "rb") as f:
            sav = f.read()
    container(sav, d, raw, st, "convert")


def both(src, i, case):
    """Read from either type and chunk prefix, written by class."""
    d, st = make(src)
    raw = M.encode(d)
    orig = src.choice([0x31, 0x32])
    sav0 = C.pack(raw, orig)
    if src.chance(1, 4):
        sav0 = src.bytes(8) + b"CNK\x30" + sav0
    C.note(case, raw + bytes([orig]), [f"type {orig:#x} to {st:#x}"], {"class": d["header"]["save_game_class_name"][:80], "read from": hex(orig)})
    with cli.Dir() as w:
        p = w.write("x.sav", sav0)
        r = cli.convert([p])
        if r.code:
            C.fail(f"converting to JSON failed: {r.tail()}", d, raw)
        r = cli.convert([p + ".json", "-f"])
        if r.code:
            C.fail(f"converting back failed: {r.tail()}", d, raw)
        with open(p, "rb") as f:
            sav = f.read()
    container(sav, d, raw, st, f"read from type {orig:#x}")


def e_utf16(s):
    b = s.encode("utf-16-le", "surrogatepass")
    return M.P_I32(-(len(b) // 2 + 1)) + b + b"\0\0"


def contradicts(out, same):
    last = out.lower().rsplit("comparing", 1)[-1]
    says = ("same" in last, "different" in last)
    return says in ((True, False), (False, True)) and says[0] != same


def verdict(src, i, case):
    """The resave check on saves that do and do not come out the same."""
    d, st = make(src)
    raw = M.encode(d)
    kind = src.draw(5)
    if kind >= 3:  # a save that the tool rewrites in canonical form: it reads, but does not come out the same
        h = M.e_header(d["header"])
        body = M.e_props(d["properties"])[: -len(M.NONE_TAG)]
        extra = src.choice([
            M.e_str("QQ") + M.e_str("StrProperty") + M.P_U64(12) + b"\0" + e_utf16("abc"),
            M.e_str("QQ") + M.e_str("BoolProperty") + M.P_U64(0) + b"\2" + b"\0",
            M.e_str("QQ") + M.e_str("IntProperty") + M.P_U64(5) + b"\0" + M.P_I32(7),
            M.e_str("QQ") + M.e_str("StrProperty") + M.P_U64(8) + b"\0" + M.P_I32(4) + b"abcd",
            M.e_str("QQ") + M.e_str("FloatProperty") + M.P_U64(4) + b"\0" + bytes.fromhex("0100c0ff"),
            e_utf16("QQ") + M.e_str("IntProperty") + M.P_U64(4) + b"\0" + M.P_I32(7),
        ])
        if "QQ" in d["properties"]:
            return
        raw = h + body + extra + M.NONE_TAG + M.e_props({})[len(M.NONE_TAG):] + __import__("base64").b64decode(d["trailer"])
    orig = src.choice([0x31, 0x32, st, st])
    sav0 = C.pack(raw, orig)
    if src.chance(1, 6):
        sav0 = src.bytes(8) + b"CNK\x30" + sav0
    with cli.Dir() as w:
        p = w.write("x.sav", sav0)
        r = cli.resave([p])
        tree = w.tree()
    if set(tree) != {"x.sav", "x.sav.resave.json", "x.sav.resave.sav"}:
        C.fail(f"the resave check left {sorted(tree)} (exit {r.code}): {r.tail()}", d, raw)
    if tree["x.sav"] != sav0:
        C.fail("the resave check changed its input", d, raw)
    try:
        again = C.unpack(tree["x.sav.resave.sav"])
    except Exception as e:
        C.fail(f"the resaved file is not a valid container: {e!r}", d, raw)
    same = again == (raw, orig)
    C.note(case, raw + bytes([orig]), ["same" if same else "different content" if again[1] == orig else "different type"], {"original type": hex(orig), "class": d["header"]["save_game_class_name"][:60], "same": same})
    if same != (r.code == 0):
        C.fail(f"the resave check exited with {r.code}, but the files are {'the same' if same else 'different'}: {r.tail()}", d, raw)
    if contradicts(r.out, same):
        C.fail(f"the resave check says {r.out[-60:]!r}, but the files are {'the same' if same else 'different'}", d, raw)
    if kind < 3 and again[0] != raw:
        C.fail("a well-formed save changed when resaved: " + T.first_diff(raw, again[0]), d, raw)


def fault(src, i, case):
    """The conversion inside the resave check is made to lose, add or alter bytes: the verdict must tell."""
    d, st = make(src)
    raw = M.encode(d)
    sav0 = C.pack(raw, st)
    how = src.choice(["append", "truncate", "flip", "none", "insert", "swap", "drop", "empty", "zero", "type"])
    k, v = src.draw(1 << 30), 1 + src.draw(255)

    def damage(b):
        b = bytearray(b)
        at = k % max(1, len(b))
        near = len(b) - 1 - k % min(len(b), 8) if k & 1 else at
        if how == "append":
            b += bytes([v % 3]) * (1 + k % 5)
        elif how == "truncate":
            del b[len(b) - (1 + k % 6):]
        elif how == "flip":
            b[near] ^= v
        elif how == "insert":
            b.insert(near, v % 4)
        elif how == "swap" and len(b) > at + 1:
            b[at], b[at + 1] = b[at + 1], b[at]
        elif how == "drop":
            del b[near]
        elif how == "empty":
            b.clear()
        elif how == "zero":
            b[at : at + 4] = bytes(len(b[at : at + 4]))
        return bytes(b)

    cls, real = T.gvas.GvasFile, T.gvas.GvasFile.write
    pal, pack = T.convert, T.convert.compress_gvas_to_sav if hasattr(T.convert, "compress_gvas_to_sav") else None

    def write(self, *a, **kw):
        return damage(real(self, *a, **kw))

    with cli.Dir() as w:
        p = w.write("x.sav", sav0)
        if how == "type" and pack:
            pal.compress_gvas_to_sav = lambda b, t, *a, **kw: pack(b, t ^ 3, *a, **kw)
        else:
            cls.write = write
        try:
            r = cli.resave([p])
        finally:
            cls.write = real
            if pack:
                pal.compress_gvas_to_sav = pack
        tree = w.tree()
    out = tree.get("x.sav.resave.sav")
    if out is None:
        same = None
    else:
        try:
            same = C.unpack(out) == (raw, st)
        except Exception:
            same = None
    C.note(case, raw + repr((how, k, v)).encode(), ["fault: " + how, f"same: {same}"], {"fault": how, "same": same}, same is False)
    if same is None:
        if r.code == 0 or "are the same" in r.out.lower():
            C.fail(f"the resave check reported success (exit {r.code}) without a resaved file to compare: {r.tail()}", d, raw)
    elif same != (r.code == 0) or contradicts(r.out, same):
        C.fail(f"fault {how} in the conversion: the files are {'the same' if same else 'different'}, the resave check exited with {r.code} and says: {r.tail()}", d, raw)


def unreadable(src, i, case):
    """A save the resave check cannot convert is never reported as the same."""
    from vf import cmdmodel as K

    b, why = K.invalid(src, "json")
    C.note(case, b, ["unreadable: " + why], why)
    with cli.Dir() as w:
        p = w.write("x.sav", b)
        r = cli.resave([p])
        if r.code == 0 or "are the same" in r.out:
            C.fail(f"the resave check reported success for: {why}", raw=b)


def process(src, i, case):
    """The resave check as a user starts it."""
    d, st = make(src)
    raw = M.encode(d)
    kind = i % 4
    with cli.Dir() as w:
        if kind == 3:
            argv = src.choice([[], [w.path("missing.sav")], [w.path("a"), w.path("b")]])
            C.note(case, repr(len(argv)), ["process without input"], {"arguments": len(argv)})
        else:
            sav = C.pack(raw, st if kind < 2 else st ^ 3)
            argv = [w.write("x.sav", sav)]
            C.note(case, raw + bytes([kind]), ["process, same" if kind < 2 else "process, other type"], {"class": d["header"]["save_game_class_name"][:60]})
        r = cli.spawn(["-m", "palworld_save_tools.commands.resave_test"] + argv)
        tree = w.tree()
    out = r.stdout.decode(errors="replace")
    if kind == 3:
        if r.returncode == 0:
            C.fail(f"the resave check given {len(argv)} files that it cannot compare ended with success: {out[-200:]}")
        return
    if (r.returncode == 0) != (kind < 2) or contradicts(out, kind < 2):
        C.fail(f"the resave check ended with {r.returncode}, but the files are {'the same' if kind < 2 else 'of different type'}: {out[-200:]}", d, raw)
    try:
        again = C.unpack(tree["x.sav.resave.sav"])
    except Exception as e:
        C.fail(f"the resave check ended with {r.returncode} without a valid resaved file ({e!r}): {out[-200:]}", d, raw)
    if again != (raw, st):
        C.fail("the resaved file holds something else: " + T.first_diff(raw, again[0]), d, raw)


CHECK = Check(
    "C19",
    "a case is a document of a chosen save class written by the command, or a save given to the resave check; "
    "non-trivial: type and content of the written container, or the verdict, were compared with the reference",
    [
        Stage("written", written, 5000, 150000, "documents written by the command"),
        Stage("both ways", both, 4000, 120000, "read from either type, written by class"),
        Stage("verdict", verdict, 5000, 150000, "resave check on same and different outcomes"),
        Stage("fault", fault, 4000, 120000, "resave check while the conversion is made to damage what it writes"),
        Stage("process", process, 96, 1000, "resave check in a process of its own"),
        Stage("unreadable", unreadable, 800, 20000, "resave check on files that are not saves"),
    ],
)
