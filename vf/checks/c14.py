import json
import os
import re
import subprocess
import sys

from vf import cli
from vf import common as C
from vf import edits as E
from vf import gen as G
from vf import model as M
from vf import tool as T
from vf.autodict import fresh
from vf.checks.c12 import nulled
from vf.engine import Check, REPO, Stage, VERIF

CONFIGS = [
    ("default", {}, []),
    ("stdlib only", {"FORCE_STDLIB_ONLY": "1"}, []),
    ("debug", {"DEBUG": "1"}, []),
    ("no recordclass", {}, ["--no-recordclass"]),
    ("stdlib only, debug", {"FORCE_STDLIB_ONLY": "1", "DEBUG": "1"}, []),
    ("debug=0", {"DEBUG": "0"}, []),
    ("debug=true, stdlib only", {"DEBUG": "true", "FORCE_STDLIB_ONLY": "yes"}, []),
    ("ASCII locale", {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii"}, []),
    ("ASCII locale, debug", {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii", "DEBUG": "1"}, []),
    ("no recordclass, debug", {"DEBUG": "1"}, ["--no-recordclass"]),
    ("python -O", {"TZ": "Pacific/Kiritimati", "LANG": "tr_TR.UTF-8"}, ["-O"]),
    ("python -OO, stdlib only", {"FORCE_STDLIB_ONLY": "1", "COLUMNS": "1", "HOME": "/nonexistent"}, ["-OO"]),
    ("python -X dev, debug", {"DEBUG": "1", "PYTHONWARNINGS": "error::BytesWarning"}, ["-Xdev", "-b"]),
    ("whatever else the code looks up", {}, []),
    ("UTF-8 mode, no hints of a terminal", {"PYTHONUTF8": "1", "TERM": "dumb", "NO_COLOR": "1", "TMPDIR": "/nonexistent", "USER": "", "PYTHONUNBUFFERED": "1"}, []),
]


# names in the code that may be those of environment variables
LOOKED_UP = [s for s in fresh().strs if re.fullmatch("[A-Z][A-Z0-9_]{2,40}", s)]


def run(jobs, conf, seed, w):
    name, envs, args = conf
    pin, pout = w.path("jobs.json"), w.path("out.json")
    with open(pin, "w") as f:
        json.dump(jobs, f)
    e = cli.env(**envs)
    e["PYTHONPATH"] = VERIF + os.pathsep + REPO
    if name.startswith("whatever"):
        for s in LOOKED_UP:
            e.setdefault(s, "1")
    e["PYTHONHASHSEED"] = str(seed)
    r = subprocess.run([sys.executable, *(a for a in args if not a.startswith("--")), "-m", "vf.batch", pin, pout] + [a for a in args if a.startswith("--")], env=e, cwd=w.d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    if r.returncode != 0 or not os.path.exists(pout):
        C.fail(f"under the configuration '{name}' the conversions did not run: {r.stderr.decode(errors='replace')[-400:]}")
    with open(pout) as f:
        out = json.load(f)
    os.remove(pout)
    return out


def damaged(src, raw):
    m = bytearray(raw)
    for _ in range(1 + src.draw(3)):
        if m:
            m[src.draw(len(m))] = src.draw(256)
    return bytes(m[: src.draw(len(m) + 1)] if src.draw(2) else m)


def plain_text(d, escape):
    """The JSON, mostly with its text unescaped, as UTF-8."""
    if escape:
        try:
            return json.dumps(d, ensure_ascii=False).encode("utf8")
        except UnicodeEncodeError:
            pass
    return json.dumps(d).encode()


def make_jobs(src, n):
    """-> jobs, what is expected of each (None: nothing known), labels"""
    jobs, expect = [], []
    labels = set()
    for _ in range(n):
        g, d = C.any_doc(src, budget=40)
        raw = M.encode(d)
        labels |= g.labels
        k = src.draw(12)
        if k < 4:
            jobs.append({"op": "read", "raw": raw.hex(), "custom": None, "nan": True, "indent": src.choice([None, "\t"])})
            expect.append(("doc", d, raw))
        elif k < 5:
            jobs.append({"op": "read", "raw": raw.hex(), "custom": None, "nan": False, "indent": None})
            expect.append(("null", d, raw))
        elif k < 6:
            keep = [p for p in M.CUSTOM_PATHS if src.draw(2)]
            jobs.append({"op": "read", "raw": raw.hex(), "custom": keep, "nan": True, "indent": None})
            expect.append(("doc", M.undecode(d, keep), raw))
        elif k < 7:
            jobs.append({"op": "read", "raw": damaged(src, raw).hex(), "custom": None, "nan": True, "indent": None})
            expect.append(None)
        elif k < 8:
            jobs.append({"op": "write", "doc": json.dumps(d)})
            expect.append(("raw", d, raw))
        elif k < 10:
            jobs.append({"op": "command", "name": "Level.sav", "data": C.pack(raw, src.choice([0x31, 0x32])).hex(), "args": src.choice([[], ["--minify-json"], ["--convert-nan-to-null"]])})
            expect.append(("file" if "--convert-nan-to-null" not in jobs[-1]["args"] else "nullfile", d, raw))
        else:
            jobs.append({"op": "command", "name": "Level.sav.json", "data": plain_text(d, src.draw(4)).hex(), "args": []})
            expect.append(("sav", d, raw))
    return jobs, expect, labels


def batch(src, i, case):
    jobs, expect, labels = make_jobs(src, 36)
    first = CONFIGS[0]
    others = [CONFIGS[1 + (i + k * 4) % (len(CONFIGS) - 1)] for k in range(3)]  # the others, each equally often
    seeds = [0] + [1 + src.draw(4000000000) for _ in others]
    C.note(case, json.dumps(jobs), ["config:" + c[0] for c in [first] + others] + sorted(labels)[:40],
           {"jobs": [j["op"] for j in jobs], "configurations": [c[0] for c in others], "hash seeds": seeds})
    base = None
    with cli.Dir() as w:
        for conf, hs in zip([first] + others, seeds):
            res = run(jobs, conf, hs, w)
            if base is None:
                base = res
            for k, (a, b) in enumerate(zip(base, res)):
                if a != b:
                    d = expect[k][1] if expect[k] else None
                    C.fail(f"{jobs[k]['op']} gives another result under '{conf[0]}' (hash seed {hs}) than by default: " + diff(a, b), d, None if d else bytes.fromhex(jobs[k].get("raw", "")))
    for k, e in enumerate(expect):
        if e is not None:
            verify(e, base[k], jobs[k])


def diff(a, b):
    if a[0] != b[0]:
        return f"{a[0]} / {b[0]}"
    for x, y in zip(a[1:], b[1:]):
        if x != y:
            x, y = str(x), str(y)
            n = 0
            while n < min(len(x), len(y)) and x[n] == y[n]:
                n += 1
            return f"...{x[max(0, n - 60):n + 60]!r} / ...{y[max(0, n - 60):n + 60]!r}"
    return "?"


def verify(e, r, job):
    kind, d, raw = e
    if r[0] != "ok":
        C.fail(f"{job['op']} of a well-formed input failed", d, raw)
    if kind in ("doc", "null"):
        x = M.same(d if kind == "doc" else nulled(d), json.loads(r[1]))
        if x:
            C.fail("the document differs from what the save stores: " + x, d, raw)
        if kind == "doc" and r[2] != raw.hex():
            C.fail("writing the document again differs: " + T.first_diff(raw, bytes.fromhex(r[2])), d, raw)
    elif kind == "raw":
        if r[1] != raw.hex():
            C.fail("the written save differs: " + T.first_diff(raw, bytes.fromhex(r[1])), d, raw)
    elif kind in ("file", "nullfile"):
        x = M.same(d if kind == "file" else nulled(d), json.loads(bytes.fromhex(r[2]).decode("utf8")))
        if x or r[1] != 0:
            C.fail(f"the JSON file (exit {r[1]}) differs from what the save stores: {x}", d, raw)
    else:
        b = C.unpack(bytes.fromhex(r[2]))[0]
        if b != raw or r[1] != 0:
            C.fail(f"the written save file (exit {r[1]}) differs: " + T.first_diff(raw, b), d, raw)


CHECK = Check(
    "C14",
    "a case is a batch of 36 conversions (reads under several options, writes, the command, damaged input) run in four "
    "processes of different configuration; non-trivial: all results were compared across configurations and with the model",
    [Stage("batches", batch, 98, 1540, "36 conversions under 4 of 15 configurations")],
)
