"""A model of the convert command: what a command line must do to a file tree."""
import json
import os

from vf import cli
from vf import common as C
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf import tool as T

ANY = object()  # some regular file content we do not predict


def small_doc(src, budget=12):
    g, d = C.any_doc(src, budget=budget, header=src.chance(1, 3))
    return d, M.encode(d)


class Plan:
    """A command line with the tree it runs in and what must come out."""

    def __init__(self):
        self.files = {}  # relative path -> bytes
        self.dirs = []
        self.argv = []
        self.stdin = ""
        self.ok = None  # True: must succeed, False: must fail, None: either
        self.out = None  # relative path written on success
        self.doc = None
        self.raw = None
        self.direction = None
        self.null = False
        self.labels = []
        self.why = ""


NAMES = [
    "Level", "level", "a", "My Save", "\u65b0", "x.y", "x.sav", "x.json", "save.sav.json", "a.json.b", "LevelMeta", "00000000000000000000000000000001",
    "%s", "a'b", "{0}", "a=b", "json", "sav", ".hidden", "a.", "Level.sav.bak", "Level.savx", "~", "a,b", "#1", "a..json", "$HOME", "%HOME%", "[a]", "a*b", "a?", " a", "a\\b", "a\nb", "caf\u00e9", "cafe\u0301", "con", "a:b", "x" * 120,
]
DIRS = ["", "", "", "d", "saves.json", "my saves", "x.sav", "a/b", "a.json/b.json", "\u65b0", "d.json.d", "~", "$HOME", "*"]


def answers(src):
    """(stdin text, consent: True / False / None when either reaction is fine)"""
    r = src.draw(14)
    if r < 3:
        return src.choice(["y\n", "Y\n", "y", "y\nn\n"]), True
    if r < 6:
        return src.choice(["n\n", "N\n", "n", "n\ny\n"]), False
    if r < 8:
        return "", False
    junk = src.choice(["yes", "no", "", " y", "y ", "yy", "1", "true", "ok", "\u00ff", "j", "ye", "Yes", "n y", "o", "t", "force", "\t", "yn", "ny", "0"])
    if r < 12:
        n = 1 + src.draw(3)
        return "\n".join([junk] * n) + "\n", False
    if r < 13:
        return junk + "\nn\n", False
    return junk + "\ny\n", None


def invalid(src, direction):
    """Content that cannot be converted in the given direction."""
    d, raw = small_doc(src, 6)
    if direction == "json":
        r = src.draw(11)
        sav = C.pack(raw, src.choice([0x31, 0x32]))
        if r == 0:
            return b"", "empty file"
        if r == 1:
            return raw, "uncompressed save"
        if r == 2:
            return src.bytes(src.draw(40)), "random bytes"
        if r == 3:
            return sav[: src.draw(len(sav))] , "truncated save"
        if r == 4:
            m = bytearray(sav)
            m[src.draw(12)] ^= 1 + src.draw(255)
            if m[8:11] == b"PlZ" and m[11] in (0x31, 0x32) and m[:8] == sav[:8]:
                m[8] = 0
            return bytes(m), "damaged header"
        if r == 5:
            return C.pack(raw, 0x30), "unsupported type"
        if r == 6:  # a valid container of a broken body
            end = len(M.e_header(d["header"])) + len(M.e_props(d["properties"]))
            return C.pack(raw[: src.draw(end)]), "truncated body"
        if r == 7:
            m = bytearray(raw)
            m[src.draw(4)] ^= 0x40
            return C.pack(bytes(m)), "wrong magic"
        if r == 8:
            h = M.e_header(d["header"])
            return C.pack(h + M.e_str("A") + M.e_str("NewProperty") + M.P_U64(1) + b"\0\0" + M.NONE_TAG + b"\0\0\0\0"), "unknown property type"
        if r == 9:
            h = M.e_header(d["header"])
            return C.pack(h + deep(400) + b"\0\0\0\0"), "nested too deeply"
        return json.dumps(d).encode(), "JSON instead of a save"
    r = src.draw(12)
    if r == 0:
        return b"", "empty file"
    if r == 1:
        b = json.dumps(d).encode()
        return b[: src.draw(len(b) - 1)], "truncated JSON"
    if r == 2:
        return C.pack(raw), "save instead of JSON"
    if r == 3:
        k = src.choice(["header", "properties", "trailer"])
        del d[k]
        return json.dumps(d).encode(), "document without " + k
    if r == 4:
        k = src.choice(sorted(d["header"]))
        del d["header"][k]
        return json.dumps(d).encode(), "header without " + k
    if r == 5:
        d["properties"]["ZZ"] = {"id": None, "value": 1, "type": "NewProperty"}
        return json.dumps(d).encode(), "unknown property type"
    if r == 6:
        d["properties"]["ZZ"] = {"id": None, "value": src.choice([1 << 31, -(1 << 31) - 1, "x", None, [], 0.5]), "type": "IntProperty"}
        return json.dumps(d).encode(), "value that does not fit"
    if r == 7:
        d["properties"]["ZZ"] = {"id": "not a guid", "value": 1, "type": "IntProperty"}
        return json.dumps(d).encode(), "malformed guid"
    if r == 8:
        d["properties"]["ZZ"] = {"id": None, "custom_type": ".nowhere", "value": {"values": []}, "array_type": "ByteProperty", "type": "ArrayProperty"}
        return json.dumps(d).encode(), "unknown custom type"
    if r == 9:
        return src.choice([b"[]", b"1", b"null", b'"x"', b"{}", b"\xff\xfe", b"{\"header\": null}"]), "other JSON"
    if r == 10:
        d["properties"]["ZZ"] = {"id": None, "type": "IntProperty"}
        return json.dumps(d).encode(), "property without value"
    d["properties"]["ZZ"] = {"id": None, "value": "x", "type": "StrProperty"}
    b = json.dumps(d).encode()
    return b.replace(b'"x"', b'"\xff\xfe"'), "JSON that is not UTF-8"


def deep(n):
    out = b""
    for _ in range(n):
        out = M.e_str("S") + M.e_str("StructProperty") + M.P_U64(len(out) + len(M.NONE_TAG)) + M.e_str("T") + b"\0" * 17 + (out or M.NONE_TAG) + (M.NONE_TAG if out else b"")
    return out + M.NONE_TAG


def plan(src, fail_bias=False):
    p = Plan()
    d, raw = small_doc(src)
    p.doc, p.raw = d, raw
    direction = src.choice(["json", "sav"])
    dirname = src.choice(DIRS)
    explicit = src.chance(1, 3)
    base = src.choice(NAMES)
    if explicit:
        ext = src.choice([".sav", ".json", "", ".txt", ".bin", ".sav.json", ".json.sav", ".SAV", ".JSON"])
    else:
        ext = ".sav" if direction == "json" else ".json"
    name = base + ext
    if name in (".json", ".sav"):
        name = "n" + name
    rel = os.path.join(dirname, name)
    p.direction = direction
    content = C.pack(raw, src.choice([0x31, 0x32])) if direction == "json" else json.dumps(d, indent=src.choice([None, 1])).encode()
    flags = []
    if explicit:
        flags.append("--to-json" if direction == "json" else "--from-json")
        p.labels.append("explicit direction")
    p.ok = True
    trouble = src.draw(6) if fail_bias else src.draw(24)
    if trouble == 0:
        content, p.why = invalid(src, direction)
        p.ok = False
    elif trouble == 1:
        p.ok = False
        r = src.draw(4)
        if r == 0:
            content = None
            p.why = "missing input"
        elif r == 1:
            content = None
            p.dirs.append(rel)
            p.why = "input is a directory"
        elif r == 2:
            flags = ["--to-json", "--from-json"]
            p.why = "both directions"
        else:
            flags = []
            name = base.rstrip(".") + src.choice([".txt", "", ".sav.bak", ".json5", ".savv", "sav_", ".SAV", ".JSON", ".Sav", ".Json", "sav", "json", ".sav.txt", ".sav ", ".jsonc", ".json.gz", ".sav~", ".json.sav.old", ".sv", ".js"])
            while name.endswith((".sav", ".json")):
                name += "_"
            rel = os.path.join(dirname, name)
            p.why = "unrecognised extension"
    if content is not None:
        p.files[rel] = content
    # where to
    r = src.draw(5)
    if r < 2:
        if direction == "json":
            out = rel + ".json"
        else:
            out = rel[: -len(".json")] if rel.endswith(".json") else rel + ".sav"
        p.labels.append("default output")
    else:
        out = os.path.join(src.choice(DIRS), src.choice(["out", "o.json", "o.sav", "o p", "Level.sav", "\u65b0.json", "out", "o.json", "o.sav", "-", "NUL", "out.gz", "o.JSON", "0", ".o", "stdout"]))
        od = os.path.dirname(out)
        if od and od not in p.files:
            p.dirs.append(od)
        if src.chance(1, 10):  # onto the input itself, under the same or another spelling
            out = src.choice([rel, os.path.join(".", rel), os.path.join(dirname, ".", name), os.path.join("zz", "..", rel)])
            if out.startswith("zz"):
                p.dirs.append("zz")
            p.labels.append("onto the input")
        elif src.chance(1, 12):
            out = os.path.join(os.path.dirname(out) or ".", "missing dir", "o")
            if p.ok:
                p.ok, p.why = False, "output directory does not exist"
        if out_under_file(p, out) and p.ok:
            p.ok, p.why = False, "output directory is a file"
        form = src.draw(3)
        flags += [["-o", out], ["--output", out], ["--output=" + out]][form]
        p.labels.append("given output")
    p.out = os.path.normpath(out)
    # what is in the way
    for k in range(src.draw(3)):
        x = os.path.join(src.choice(DIRS), src.choice(["other", "Level.sav.json", "o.json", "x.sav", "notes.txt"]))
        if not clash(p, x):
            p.files.setdefault(x, src.bytes(src.draw(20)))
    if p.ok is not False or src.chance(1, 2):
        if src.chance(1, 2) and not clash(p, p.out) and p.out != os.path.normpath(rel):
            if not p.why.startswith("output directory"):
                p.files[p.out] = src.choice([b"", b"old content", src.bytes(src.draw(200)), b"x" * 100000])
    exists = p.out in {os.path.normpath(f) for f in p.files} or p.out in dirset(p)
    if p.out in dirset(p):
        p.ok, p.why = False, "output is a directory"
    force = src.chance(1, 3)
    if force:
        flags.append(src.choice(["-f", "--force"]))
    text, consent = answers(src)
    p.stdin = text
    if exists and not force:
        p.labels.append("asks")
        if consent is False and p.ok is not False:
            p.ok, p.why = False, f"no consent ({text!r})"
        elif consent is None and p.ok:
            p.ok = None
    elif exists:
        p.labels.append("forced")
    if direction == "json" and src.chance(1, 3):
        flags.append("--minify-json")
    if direction == "json" and src.chance(1, 6):
        flags.append("--convert-nan-to-null")
        p.null = True
    if direction == "json" and src.chance(1, 8):
        flags += ["--custom-properties", "all"]
    pos = src.draw(len(flags) + 1)
    while pos and flags[pos - 1] in ("-o", "--output", "--custom-properties"):
        pos -= 1
    p.argv = flags[:pos] + [rel] + flags[pos:]
    return p


def out_under_file(p, out):
    files = {os.path.normpath(f) for f in p.files}
    d = os.path.dirname(os.path.normpath(out))
    while d:
        if d in files:
            return True
        d = os.path.dirname(d)
    return False


def dirset(p):
    out = set()
    for f in list(p.files) + [d + "/x" for d in p.dirs]:
        d = os.path.dirname(f)
        while d:
            out.add(os.path.normpath(d))
            d = os.path.dirname(d)
    return out


def clash(p, x):
    """x cannot be created as a file next to what is planned."""
    x = os.path.normpath(x)
    if x in dirset(p) or x in {os.path.normpath(f) for f in p.files}:
        return True
    d = os.path.dirname(x)
    files = {os.path.normpath(f) for f in p.files}
    while d:
        if d in files:
            return True
        d = os.path.dirname(d)
    return False


def consistent(p):
    files = {os.path.normpath(f) for f in p.files}
    if files & dirset(p):
        return False
    return True


def execute(p, runner=None):
    """-> (result, tree before, tree after)"""
    with cli.Dir() as w:
        for d in p.dirs:
            os.makedirs(w.path(d), exist_ok=True)
        for f, b in p.files.items():
            w.write(f, b)
        before = w.tree()
        cwd = os.getcwd()
        os.chdir(w.d)
        try:
            res = (runner or cli.convert)(p.argv, p.stdin)
        finally:
            os.chdir(cwd)
        return res, before, w.tree()


def changed(before, after):
    return sorted(k for k in set(before) | set(after) if before.get(k, ANY) != after.get(k, ANY))


def describe(p):
    return {"argv": p.argv, "stdin": p.stdin, "files": {k: len(v) for k, v in p.files.items()}, "expect": {True: "success", False: "failure: " + p.why, None: "either"}[p.ok]}


def output_right(p, b):
    """None or what is wrong with the written file."""
    if p.direction == "json":
        try:
            got = json.loads(b.decode("utf8"))
        except Exception as e:
            return f"the output is not JSON: {e}"
        from vf.checks.c12 import nulled

        x = M.same(nulled(p.doc) if p.null else p.doc, got)
        return x and "the written document differs: " + x
    try:
        raw, _ = C.unpack(b)
    except Exception as e:
        return f"the output is not a save: {e!r}"
    if raw != p.raw:
        return "the written save differs: " + T.first_diff(p.raw, raw)
    return None
