"""Shared by the demonstrations: builds saves by hand and drives the code in the current directory (/repo)."""
import base64, contextlib, io, json, os, shutil, struct, subprocess, sys, tempfile, zlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from palworld_save_tools import archive, palsav
from palworld_save_tools.gvas import GvasFile
from palworld_save_tools.json_tools import CustomEncoder
from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES as CUSTOM, PALWORLD_TYPE_HINTS as HINTS

Z = b"\0" * 16
I = lambda n: struct.pack("<i", n)
U = lambda n: struct.pack("<I", n)
Q = lambda n: struct.pack("<Q", n)
F = lambda x: struct.pack("<f", x)
D = lambda *x: b"".join(struct.pack("<d", v) for v in x)
G = lambda n: bytes([n]) * 16

def s(t):
    if t == "": return I(0)
    if t.isascii(): return I(len(t) + 1) + t.encode() + b"\0"
    b = t.encode("utf-16-le", "surrogatepass")
    return I(-(len(b) // 2 + 1)) + b + b"\0\0"

NONE = s("None")
oid = lambda g=None: b"\0" if g is None else b"\1" + g
def prop(name, typ, head, body): return s(name) + s(typ) + Q(len(body)) + head + body
def i32(name, v, g=None): return prop(name, "IntProperty", oid(g), I(v))
def text(name, v, g=None): return prop(name, "StrProperty", oid(g), s(v))
def enum(name, t, v, g=None): return prop(name, "EnumProperty", s(t) + oid(g), s(v))
def flt(name, v, g=None): return prop(name, "FloatProperty", oid(g), F(v))
def st(name, typ, body, g=None): return prop(name, "StructProperty", s(typ) + Z + oid(g), body)
def raw(name, b, g=None): return prop(name, "ArrayProperty", s("ByteProperty") + oid(g), U(len(b)) + b)
def arr(name, typ, items, g=None, inner=None):
    body = b"".join(items)
    return prop(name, "ArrayProperty", s("StructProperty") + oid(g), U(len(items)) + s(inner or name) + s("StructProperty") + Q(len(body)) + s(typ) + Z + b"\0" + body)
def mp(name, kt, vt, entries, g=None):
    return prop(name, "MapProperty", s(kt) + s(vt) + oid(g), U(0) + U(len(entries)) + b"".join(entries))
def props(*p): return b"".join(p) + NONE
def header(cls="/Script/Pal.PalWorldSaveGame", changelist=0, versions=b"", nver=0, ue4=522, ue5=1008, branch="++UE5"):
    return b"GVAS" + I(3) + I(ue4) + I(ue5) + struct.pack("<HHHI", 5, 1, 1, changelist) + s(branch) + I(3) + U(nver) + versions + s(cls)
def save(*p, trailer=b"\0\0\0\0", **h): return header(**h) + props(*p) + trailer
def world(*p, **h): return save(st("worldSaveData", "PalWorldSaveData", props(*p)), **h)
def pack(b, t=0x32):
    c = zlib.compress(b); n = len(c)
    if t == 0x32: c = zlib.compress(c)
    return U(len(b)) + U(n) + b"PlZ" + bytes([t]) + c

def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)
def doc(b, custom=CUSTOM, hints=HINTS, allow_nan=True):
    return quiet(lambda: json.loads(json.dumps(GvasFile.read(b, hints, custom, allow_nan=allow_nan).dump(), cls=CustomEncoder)))
def back(d, custom=CUSTOM): return quiet(lambda: GvasFile.load(d).write(custom))
def same(b):
    got = back(doc(b))
    assert got == b, "save -> JSON -> save changed the save"
def refused(fn, *a, **k):
    try:
        quiet(fn, *a, **k)
    except Exception:
        return
    raise AssertionError("accepted what must be refused")
@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
def put(p, b):
    with open(p, "wb") as f: f.write(b)
def get(p):
    with open(p, "rb") as f: return f.read()
def convert(*args, stdin="", env=None):
    e = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    return subprocess.run([sys.executable, "-m", "palworld_save_tools.commands.convert", *args], input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
