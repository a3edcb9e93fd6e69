import json
import os

from vf import cli
from vf import cmdmodel as K
from vf import common as C
from vf import model as M
from vf import tool as T
from vf.engine import Check, Stage


def judge(p, res, before, after):
    ch = K.changed(before, after)
    if res.code == 0:
        if p.ok is False:
            C.fail(f"convert {p.argv} (input {p.stdin!r}) reported success, expected failure: {p.why}; changed: {ch}; {res.tail()}")
        extra = [k for k in ch if k != p.out]
        if extra:
            C.fail(f"convert {p.argv} changed {extra} besides its output {p.out!r}")
    else:
        if ch:
            C.fail(f"convert {p.argv} (input {p.stdin!r}) failed{' (' + p.why + ')' if p.why else ''} but changed {ch}: {res.tail()}")
        if p.ok is True:
            C.fail(f"convert {p.argv} (input {p.stdin!r}) failed: {res.tail()}")


def run(src, i, case, bias=False):
    p = K.plan(src, bias)
    if not K.consistent(p):
        return
    exists = any(os.path.normpath(f) == p.out for f in p.files)
    C.note(case, repr((p.argv, p.stdin, sorted(p.files.items()))), p.labels + (["failure: " + p.why.split(" (")[0]] if p.why else []), K.describe(p), exists or p.ok is False)
    res, before, after = K.execute(p)
    judge(p, res, before, after)


def consent(src, i, case):
    run(src, i, case)


def failures(src, i, case):
    run(src, i, case, True)


def prompts(src, i, case):
    """Only the answer varies: an existing file, every short answer."""
    d, raw = K.small_doc(src, 3)
    to = src.choice(["json", "sav"])
    p = K.Plan()
    p.doc, p.raw, p.direction = d, raw, to
    rel = "Level.sav" if to == "json" else "Level.sav.json"
    p.out = "Level.sav.json" if to == "json" else "Level.sav"
    p.files = {rel: C.pack(raw) if to == "json" else json.dumps(d).encode(), p.out: b"precious"}
    p.argv = [rel]
    if i < 65536 and i % 2:
        line = chr(i >> 1) if i < 1200 else chr(src.draw(0x3000))
        if 0xD800 <= ord(line) < 0xE000:
            line = "x"
    else:
        line = src.choice(["y", "n", "Y", "N", "yes", "no", "", " y", "y ", "Yes", "YES", "yep", "ny", "o", "s", "j", "1", "t", "true", "\u1e8f", "y\t", "yn", "ok", "force", "a", "all"])
    n = src.draw(3)
    p.stdin = (line + "\n") * (n + 1)
    low = line.casefold()
    first = line.splitlines()[0] if line.splitlines() else ""
    if first != line:
        return
    p.ok = True if low == "y" else False
    if low not in ("y", "n"):
        p.why = "answer " + ascii(line)
    elif low == "n":
        p.why = "answer n"
    C.note(case, repr((to, p.stdin)), ["answer " + ("y" if p.ok else "not y")], {"stdin": p.stdin, "direction": to})
    res, before, after = K.execute(p)
    judge(p, res, before, after)
    if p.ok and after[p.out] == b"precious":
        C.fail(f"after the answer {line!r} the file was not replaced")


def deep(src, i, case):
    """Saves nested 80 to 400 levels: converted completely or refused without a trace."""
    n = 80 + i * 320 // 400 if i < 400 else 80 + src.draw(320)
    d, raw = K.small_doc(src, 0)
    raw = M.e_header(d["header"]) + K.deep(n) + b"\0\0\0\0"
    p = K.Plan()
    p.doc, p.raw, p.direction, p.ok = None, raw, "json", None
    p.files = {"Level.sav": C.pack(raw)}
    p.argv = ["Level.sav"] + src.choice([[], ["--minify-json"], ["--convert-nan-to-null"]])
    p.out = "Level.sav.json"
    if src.draw(2):
        p.files[p.out] = b"precious"
        p.argv.append("-f")
    C.note(case, str((n, p.argv)), ["depth %d" % (n // 50 * 50)], {"depth": n, "argv": p.argv})
    res, before, after = K.execute(p)
    judge(p, res, before, after)
    if res.code == 0:
        try:
            doc = json.loads(after[p.out])
        except Exception as e:
            if isinstance(e, RecursionError):
                return
            C.fail(f"success was reported but the output is not JSON ({e!r}) at depth {n}")
        k, x = 0, doc["properties"]
        while x:
            x = x["S"]["value"]
            k += 1
        if k != n:
            C.fail(f"a save nested {n} deep was shown {k} deep")


def resave(src, i, case):
    """The resave check asks before replacing its own outputs, too."""
    d, raw = K.small_doc(src, 6)
    st = src.choice([0x31, 0x32])
    with cli.Dir() as w:
        files = {"a.sav": C.pack(raw, st)}
        have = src.draw(4)
        if have & 1:
            files["a.sav.resave.json"] = b"precious"
        if have & 2:
            files["a.sav.resave.sav"] = b"precious too"
        bad = src.chance(1, 4)
        if bad:
            files["a.sav"], why = K.invalid(src, "json")
        for f, b in files.items():
            w.write(f, b)
        before = w.tree()
        ans = [src.choice(["y", "n", "x", ""]) for _ in range(src.draw(3))]
        text = "".join(a + "\n" for a in ans)
        C.note(case, repr((text, have, files["a.sav"])), ["resave"], {"existing": sorted(files)[1:], "stdin": text}, have > 0 or bad)
        res = cli.resave([w.path("a.sav")], text)
        after = w.tree()
        ch = K.changed(before, after)
        if "a.sav" in ch:
            C.fail("the resave check changed its input")
        lines = list(ans)
        allowed = set()
        for name in ("a.sav.resave.json", "a.sav.resave.sav"):
            if name in files:
                ok = None
                while lines:
                    a = lines.pop(0)
                    if a in ("y", "n"):
                        ok = a == "y"
                        break
                if not ok:
                    break
            allowed.add(name)
            if bad:
                break
        if bad:
            allowed = set()
        if set(ch) - allowed:
            C.fail(f"the resave check changed {sorted(set(ch) - allowed)} (answers {ans}, {'bad input' if bad else 'good input'})")
        if res.code == 0 and len(allowed) < 2:
            C.fail("the resave check reported success although it could not run to the end")


def look(top):
    """Everything below, links as links."""
    out = {}
    for r, ds, fs in os.walk(top):
        for f in fs + ds:
            p = os.path.join(r, f)
            k = os.path.relpath(p, top)
            if os.path.islink(p):
                out[k] = "-> " + os.readlink(p)
            elif os.path.isdir(p):
                out[k] = "folder"
            else:
                with open(p, "rb") as fh:
                    out[k] = fh.read()
    return out


def links(src, i, case):
    """Outputs and inputs that are links: what they lead to is protected in the same way."""
    d, raw = K.small_doc(src, 4)
    to = src.choice(["json", "sav"])
    ins, outs = ("Level.sav", "Level.sav.json") if to == "json" else ("Level.sav.json", "Level.sav")
    data = C.pack(raw) if to == "json" else json.dumps(d).encode()
    good = src.chance(3, 4)
    if not good:
        data, why = K.invalid(src, to)
    with cli.Dir() as w:
        os.makedirs(w.path("box"))
        os.makedirs(w.path("other"))
        w.write("other/precious", b"precious")
        if src.chance(1, 4):
            w.write("other/real", data)
            os.symlink("../other/real", w.path("box", ins))
            log = "input is a link"
        else:
            w.write("box/" + ins, data)
            log = "input is a file"
        out = w.path("box", outs)
        kind = src.choice(["link", "absolute link", "chain", "hard link", "dangling", "loop", "link to input", "hard link to input", "link to folder", "in linked folder"])
        argv = [w.path("box", ins)]
        exists = True
        if kind == "link":
            os.symlink("../other/precious", out)
        elif kind == "absolute link":
            os.symlink(w.path("other/precious"), out)
        elif kind == "chain":
            os.symlink("../other/precious", w.path("box/hop"))
            os.symlink("hop", out)
        elif kind == "hard link":
            os.link(w.path("other/precious"), out)
        elif kind == "dangling":
            os.symlink("../other/new", out)
            exists = None
        elif kind == "loop":
            os.symlink(outs, out)
            exists = None
        elif kind == "link to input":
            os.symlink(ins, out)
        elif kind == "hard link to input":
            if os.path.islink(w.path("box", ins)):
                return
            os.link(w.path("box", ins), out)
        elif kind == "link to folder":
            os.symlink("../other", out)
        else:
            os.symlink("../other", w.path("box/side"))
            argv += ["--output", w.path("box/side/precious")]
            out = w.path("box/side/precious")
        force = src.chance(1, 3)
        if force:
            argv.append("-f")
        text, consent = (src.choice(["y\n", "Y\n"]), True) if src.draw(2) else (src.choice(["n\n", "", "q\n", "\n"]), False)
        before = look(w.d)
        C.note(case, repr((argv[1:], kind, log, text)) + json.dumps(d), [kind, "forced" if force else "answer " + repr(text)], {"output": kind, "input": log, "argv": argv, "stdin": text})
        res = cli.convert(argv, text)
        after = look(w.d)
        ch = K.changed(before, after)
        what = f"{log}, output is {kind}, {'forced' if force else 'answer ' + repr(text)}"
        if res.code:
            if ch:
                C.fail(f"{what}: failed but changed {ch}: {res.tail()}")
            if good and exists and (force or consent) and kind not in ("link to folder",):
                C.fail(f"{what}: failed: {res.tail()}")
            return
        if not good:
            C.fail(f"{what}: success was reported for {why}")
        if exists and not force and not consent:
            C.fail(f"{what}: reported success without consent, changed {ch}")
        # what may have changed: the output, and what it led to
        may = {os.path.relpath(out, w.d), "box/" + outs, "other/new"}
        if kind in ("link", "absolute link", "chain", "hard link", "in linked folder"):
            may.add("other/precious")
            may.add("box/hop")
        if kind in ("link to input", "hard link to input"):
            may |= {"box/" + ins, "other/real"}
        if set(ch) - may:
            C.fail(f"{what}: changed {sorted(set(ch) - may)} besides the output")
        p = K.Plan()
        p.doc, p.raw, p.direction = d, raw, to
        try:
            with open(out, "rb") as f:
                b = f.read()
        except OSError as e:
            C.fail(f"{what}: success was reported but there is no output ({e})")
        x = K.output_right(p, b)
        if x:
            C.fail(f"{what}: {x}")


CHECK = Check(
    "C17",
    "a case is a command line, standard input and a scratch file tree; non-trivial: the output exists already or the "
    "conversion must fail; the whole tree is compared before and after",
    [
        Stage("consent", consent, 9000, 300000, "random command lines and trees"),
        Stage("failures", failures, 9000, 300000, "mostly inputs that cannot be converted"),
        Stage("answers", prompts, 4000, 65536, "every one-character answer below U+0258 and many words"),
        Stage("deep", deep, 400, 4000, "saves nested up to the limits of the reader and the JSON encoder"),
        Stage("links", links, 3000, 80000, "outputs and inputs that are symbolic or hard links"),
        Stage("resave", resave, 1500, 40000, "the resave check's own output files"),
    ],
    assumptions=["faults of the file system itself while the output is written are outside the statement"],
)
