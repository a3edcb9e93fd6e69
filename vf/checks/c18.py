import json
import os
import subprocess
import sys

from vf import cli
from vf import cmdmodel as K
from vf import common as C
from vf import model as M
from vf import tool as T
from vf.engine import Check, Stage


def judge(p, res, before, after):
    ch = K.changed(before, after)
    if res.code != 0:
        if p.ok is True:
            C.fail(f"convert {p.argv} (input {p.stdin!r}) exited with {res.code}: {res.tail()}")
        return
    if p.ok is False:
        C.fail(f"convert {p.argv} reported success, expected failure: {p.why}; changed {ch}")
    extra = [k for k in ch if k != p.out]
    if extra:
        C.fail(f"convert {p.argv} wrote {extra}, expected only {p.out!r}")
    if p.out not in after:
        C.fail(f"convert {p.argv} reported success but {p.out!r} does not exist")
    x = K.output_right(p, after[p.out])
    if x:
        C.fail(f"convert {p.argv}: {x}", p.doc)


def lines(src, i, case):
    p = K.plan(src)
    if not K.consistent(p):
        return
    C.note(case, repr((p.argv, p.stdin, sorted(p.files.items()))), p.labels + ["to " + p.direction], K.describe(p))
    judge(p, *K.execute(p))


def fresh(src, i, case):
    """No file in the way: every successful combination of name, option and direction."""
    for _ in range(20):
        p = K.plan(src)
        if p.ok and K.consistent(p) and not any(os.path.normpath(f) == p.out for f in p.files):
            break
    else:
        return
    p.stdin = ""
    C.note(case, repr((p.argv, sorted(p.files.items()))), p.labels + ["to " + p.direction], K.describe(p))
    judge(p, *K.execute(p))


def minify(src, i, case):
    d, raw = K.small_doc(src, 30)
    with cli.Dir() as w:
        p = w.write("a.sav", C.pack(raw))
        docs = []
        texts = []
        for k, args in enumerate(([], ["--minify-json"])):
            o = w.path("o%d" % k)
            r = cli.convert([p, "-o", o, "--to-json"] + args)
            if r.code:
                C.fail(f"convert {args} exited with {r.code}: {r.tail()}", d, raw)
            with open(o, encoding="utf8", newline="") as f:
                texts.append(f.read())
            docs.append(json.loads(texts[-1]))
            r = cli.convert([o, "--from-json", "-o", w.path("s%d" % k)])
            if r.code:
                C.fail(f"converting the JSON written with {args} back failed: {r.tail()}", d, raw)
            with open(w.path("s%d" % k), "rb") as f:
                back = C.unpack(f.read())[0]
            if back != raw:
                C.fail(f"the JSON written with {args} converts to another save: " + T.first_diff(raw, back), d, raw)
        C.note(case, raw, ["minified and indented"], {"bytes": len(raw)})
        x = M.same(docs[0], docs[1]) or M.same(d, docs[0])
        if x:
            C.fail("minified and indented JSON differ: " + x, d, raw)
        if "\n" in texts[1].strip() or len(texts[1]) >= len(texts[0]):
            C.fail(f"minified JSON has {len(texts[1])} characters in {texts[1].count(chr(10)) + 1} lines, indented {len(texts[0])}", d, raw)


def process(src, i, case):
    """The real process: exit status and files."""
    p = K.plan(src)
    if not K.consistent(p):
        return
    C.note(case, repr((p.argv, p.stdin, sorted(p.files.items()))), ["process"], K.describe(p))

    def runner(argv, stdin):
        code = "import sys; sys.argv[0] = 'palworld-save-tools'; from palworld_save_tools.commands.convert import main; sys.exit(main())"
        r = subprocess.run([sys.executable, "-c", code] + argv if i % 2 else [sys.executable, "-m", "palworld_save_tools.commands.convert"] + argv,
                           input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=cli.env(), timeout=120)
        return cli.Result(r.returncode, r.stdout.decode(errors="replace"), 0)

    judge(p, *K.execute(p, runner))


CHECK = Check(
    "C18",
    "a case is a command line in a scratch file tree; non-trivial: the tree, the exit status and the content of the "
    "output were compared with the model of the command",
    [
        Stage("command lines", lines, 14000, 400000, "random command lines and trees"),
        Stage("fresh", fresh, 4000, 100000, "successful conversions to fresh paths"),
        Stage("minify", minify, 1500, 40000, "minified against indented"),
        Stage("process", process, 160, 3000, "as a real process, via -m and via the script entry point"),
    ],
)
