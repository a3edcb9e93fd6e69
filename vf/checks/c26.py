import errno
import json
import os
import pickle
import resource
import signal
import subprocess
import sys
import time

from vf import cli
from vf import cmdmodel as K
from vf import common as C
from vf import model as M
from vf import tool as T
from vf.engine import Check, REPO, Stage

PKG = os.path.realpath(os.path.join(REPO, "palworld_save_tools")) + os.sep


# ------------------------------------------------------------------ a conversion with a fault


def scene(src, budget=12, big=False):
    """A plan that would succeed: input, possibly an existing output, other files."""
    p = K.Plan()
    if big:
        d = C.sweep_doc(src, src.choice(["bytes", "ascii", "names", "guids", "structs", "map"]), 50 + src.draw(3000))
        p.doc, p.raw = d, M.encode(d)
    else:
        p.doc, p.raw = K.small_doc(src, budget)
    p.direction = src.choice(["json", "sav"])
    rel = "Level.sav" if p.direction == "json" else "Level.sav.json"
    p.out = src.choice(["Level.sav.json" if p.direction == "json" else "Level.sav", "o/out"])
    if p.out == "o/out":
        p.dirs.append("o")
    p.files[rel] = C.pack(p.raw, src.choice([0x31, 0x32])) if p.direction == "json" else json.dumps(p.doc).encode()
    p.argv = [rel] + (["-o", p.out] if p.out == "o/out" else [])
    p.exists = src.chance(1, 2)
    if p.exists:
        p.files[p.out] = src.choice([b"precious", b"x" * 5000, b""])
    if p.direction == "json" and src.draw(2):
        p.argv.append("--minify-json")
    if src.chance(1, 2):
        p.files["other.txt"] = b"other"
        p.files["o/other" if p.dirs else "Level.sav.bak"] = src.bytes(9)
    p.force = src.chance(2, 3)
    if p.force:
        p.argv.append("-f")
    elif p.exists:
        p.stdin = "y\n"
    p.rel = rel
    return p


def lay(w, p):
    for d in p.dirs:
        os.makedirs(w.path(d), exist_ok=True)
    for f, b in p.files.items():
        w.write(f, b)
    return w.tree()


def at(w, fn):
    cwd = os.getcwd()
    os.chdir(w.d)
    try:
        return fn()
    finally:
        os.chdir(cwd)


def forked(fn):
    """fn() in a child process; -> its result, or None if the child died."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            res = fn()
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if not b:
        return None
    return pickle.loads(b)


def outcome(argv, stdin="", main=None):
    """(exit status, tail of the output, how often it asked) of the command; an interruption counts as failure."""
    asked = [0]
    real = main or T.convert.main

    def fn():
        try:
            real()
        finally:
            asked[0] = getattr(sys.stdin, "reads", 0)

    try:
        r = cli.run_main(fn, argv, stdin)
    except KeyboardInterrupt:
        return 130, "interrupted", asked[0]
    return r.code, r.tail(), asked[0]


def judge(p, res, before, after, what):
    """res None: the process died."""
    lost = [k for k in before if k != p.out and before[k] != after.get(k, K.ANY)]
    if lost:
        C.fail(f"{what}: {lost} changed or vanished (convert {p.argv}, exit {res and res[0]})")
    if res is not None and res[0] == 0:
        b = after.get(p.out)
        if b is None:
            C.fail(f"{what}: convert {p.argv} reported success without any output: {res[1]}")
        x = K.output_right(p, b)
        if x:
            C.fail(f"{what}: convert {p.argv} reported success, but {x} ({len(b)} bytes): {res[1]}")


def again(w, p, what):
    """The same conversion afterwards, undisturbed."""
    argv = [a for a in p.argv if a != "-f"] + ["-f"]
    code, tail, _ = at(w, lambda: outcome(argv))
    if code != 0:
        C.fail(f"{what}; converting again failed: {tail}")
    with open(w.path(p.out), "rb") as f:
        x = K.output_right(p, f.read())
    if x:
        C.fail(f"{what}; converting again gave a wrong result: {x}")


# ------------------------------------------------------------------ no room for the output


def limited(fn, limit):
    def run():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        return fn()

    return run


def room(src, i, case):
    """No file may grow beyond a limit, as on a full disk."""
    p = scene(src, big=src.chance(2, 3))
    need = len(C.pack(p.raw)) if p.direction == "sav" else len(json.dumps(p.doc))
    limit = src.choice([0, 1, 11, 12, 100, 4096, 8192, max(0, need - 1), need // 2, src.draw(need + 1), src.draw(need * 2 + 1)])
    with cli.Dir() as w:
        before = lay(w, p)
        res = forked(limited(lambda: at(w, lambda: outcome(p.argv, p.stdin)), limit))
        after = w.tree()
        done = res is not None and res[0] == 0
        C.note(case, repr((p.argv, limit, sorted(p.files.items()))), ["no room: " + ("finished" if done else "failed"), "to " + p.direction],
               {"argv": p.argv, "limit": limit, "wants about": need, "exit": res and res[0]}, not done)
        if res is None:
            C.fail(f"convert {p.argv} with files limited to {limit} bytes died")
        judge(p, res, before, after, f"with files limited to {limit} bytes")
        again(w, p, f"after a failure for lack of room ({limit} bytes)")


class Faults:
    """Input and output in one folder that fails: the nth operation of a kind raises, once or from then on."""

    def __init__(self, root, kind, nth, error, once):
        self.root, self.kind, self.left, self.error, self.once = os.path.realpath(root) + os.sep, kind, nth, error, once
        self.hits = 0

    def op(self, kind):
        if kind != self.kind:
            return
        if self.left > 0:
            self.left -= 1
            return
        if self.hits and self.once:
            return
        self.hits += 1
        e = self.error
        raise e() if isinstance(e, type) else OSError(e, os.strerror(e))

    def __enter__(self):
        import builtins
        import io

        self.real = builtins.open
        self.other = {n: getattr(os, n) for n in ("replace", "rename", "fsync", "write", "read")}

        def opened(file, mode="r", *a, **k):
            here = isinstance(file, (str, bytes, os.PathLike)) and os.path.realpath(os.fsdecode(file)).startswith(self.root)
            if not here:
                return self.real(file, mode, *a, **k)
            writing = any(c in mode for c in "wax+")
            self.op("open to write" if writing else "open to read")
            return Wrapped(self, self.real(file, mode, *a, **k), writing)

        builtins.open = io.open = opened
        for n in ("replace", "rename", "fsync"):
            setattr(os, n, self.guard(n))
        return self

    def guard(self, n):
        def fn(*a, **k):
            self.op("move" if n != "fsync" else "close")
            return self.other[n](*a, **k)

        return fn

    def __exit__(self, *a):
        import builtins
        import io

        builtins.open = io.open = self.real
        for n in ("replace", "rename", "fsync"):
            setattr(os, n, self.other[n])


class Wrapped:
    """A file whose operations may fail; what was accepted before a failure is stored in part."""

    def __init__(self, faults, f, writing):
        self.__dict__.update(_q=faults, _f=f, _w=writing)

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __setattr__(self, n, v):
        setattr(self._f, n, v)

    def __iter__(self):
        return iter(self.readline, self.read(0))

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def _get(self, n, a):
        self._q.op("read")
        return getattr(self._f, n)(*a)

    def read(self, *a):
        return self._get("read", a)

    def readline(self, *a):
        return self._get("readline", a)

    def readlines(self, *a):
        return self._get("readlines", a)

    def readinto(self, *a):
        return self._get("readinto", a)

    def write(self, b):
        try:
            self._q.op("write")
        except BaseException:
            self._f.write(b[: len(b) // 2])
            raise
        return self._f.write(b)

    def writelines(self, ls):
        for b in ls:
            self.write(b)

    def flush(self):
        if self._w:
            self._q.op("close")
        return self._f.flush()

    def close(self):
        was = self._f.closed
        self._f.close()
        if self._w and not was:
            self._q.op("close")


ERRNOS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EROFS, errno.EACCES, errno.EPERM, errno.ENOENT, errno.EMFILE,
          errno.ENFILE, errno.EBUSY, errno.ETIMEDOUT, errno.ESTALE, errno.EPIPE, errno.ENOMEM, errno.EINTR, errno.EAGAIN, errno.EISDIR,
          errno.EEXIST, errno.ENODEV, errno.ENXIO, errno.EXDEV, errno.ENOLCK, errno.ETXTBSY, errno.EINVAL]


def injected(src, i, case):
    """Any operation on the input or the output may fail in any way a system knows."""
    p = scene(src, big=src.chance(1, 4))
    kind = src.choice(["write", "write", "write", "close", "close", "read", "open to read", "open to write", "move"])
    if src.chance(1, 8):
        error = src.choice([MemoryError, KeyboardInterrupt, ValueError])
    else:
        error = src.choice([errno.ENOSPC, src.choice(ERRNOS)])
    nth = src.choice([0, 0, 1, 2, src.draw(40), src.draw(2000)]) if kind == "write" and p.direction == "json" else src.choice([0, 0, 0, 1])
    once = src.chance(1, 2)
    name = error.__name__ if isinstance(error, type) else errno.errorcode[error]
    what = f"with {name} at {kind} number {nth + 1}{'' if once else ' and after'}"
    with cli.Dir() as w:
        before = lay(w, p)

        def run():
            with Faults(w.d, kind, nth, error, once) as q:
                r = outcome(p.argv, p.stdin)
            return r, q.hits

        got = forked(lambda: at(w, run))
        after = w.tree()
        if got is None:
            C.fail(f"convert {p.argv} died {what}")
        res, hits = got
        C.note(case, repr((p.argv, kind, nth, name, once, sorted(p.files.items()))), ["fault at " + kind + (": finished" if res[0] == 0 else ": failed")],
               {"argv": p.argv, "fault": what, "met": hits, "exit": res[0]}, bool(hits))
        judge(p, res, before, after, what)
        again(w, p, f"after a failure {what}")


def room_resave(src, i, case):
    d, raw = K.small_doc(src, 20)
    sav = C.pack(raw, src.choice([0x31, 0x32]))
    limit = src.draw(len(json.dumps(d)) + len(sav))
    with cli.Dir() as w:
        p = w.write("a.sav", sav)
        def run():
            r = cli.resave([p])
            return r.code, r.out

        res = forked(limited(run, limit))
        tree = w.tree()
    C.note(case, raw + str(limit).encode(), ["resave, limited"], {"limit": limit, "exit": res and res[0]}, res is None or res[0] != 0)
    if res is None:
        C.fail("the resave check died for lack of room")
    if tree.get("a.sav") != sav:
        C.fail("the resave check changed its input")
    if res[0] == 0:
        try:
            ok = C.unpack(tree["a.sav.resave.sav"])[0] == raw
            json.loads(tree["a.sav.resave.json"])
        except Exception as e:
            C.fail(f"with files limited to {limit} bytes the resave check reported success, but its files are incomplete: {e!r}")
        if not ok:
            C.fail(f"with files limited to {limit} bytes the resave check reported success on other content")


# ------------------------------------------------------------------ no permission


def nobody(fn):
    def run():
        try:
            os.setgroups([])
            os.setresgid(65534, 65534, 65534)
            os.setresuid(65534, 65534, 65534)
        except OSError:
            return "not allowed"
        return fn()

    return run


def permission(src, i, case):
    """Run as an unprivileged user who may not read the input, or not write the output or its folder."""
    if os.geteuid() != 0:
        return
    p = scene(src, 6)
    mode = {p.rel: src.choice([0o000, 0o444, 0o644, 0o200])}
    if p.exists:
        mode[p.out] = src.choice([0o000, 0o444, 0o666, 0o666])
    dmode = src.choice([0o555, 0o777, 0o777, 0o000])
    with cli.Dir() as w:
        before = lay(w, p)
        for f in p.files:
            os.chmod(w.path(f), mode.get(f, 0o644))
        if p.dirs:
            os.chmod(w.path("o"), dmode)
            os.chmod(w.d, 0o755)
        else:
            os.chmod(w.d, 0o755 if dmode in (0o000, 0o555) else 0o777)
        up = os.path.dirname(w.d)
        while up.startswith("/tmp/vf") or "/vf-" in up:
            os.chmod(up, 0o711)
            up = os.path.dirname(up)
        res = forked(nobody(lambda: at(w, lambda: outcome(p.argv, p.stdin))))
        os.chmod(w.d, 0o755)
        if p.dirs:
            os.chmod(w.path("o"), 0o755)
        after = w.tree()
        what = f"as another user (input {mode[p.rel]:o}, output {mode.get(p.out, 0):o}, folder {dmode:o})"
        C.note(case, repr((p.argv, mode, dmode, sorted(p.files.items()))), ["permission: " + (res if isinstance(res, str) else "finished" if res and res[0] == 0 else "failed")],
               {"argv": p.argv, "modes": {k: oct(v) for k, v in mode.items()}, "folder": oct(dmode), "exit": res and res[0]}, not (res and res[0] == 0))
        if res == "not allowed":
            case.nontrivial = False
            return
        if res is None:
            C.fail(f"{what}: convert {p.argv} died")
        judge(p, res, before, after, what)
        if not mode[p.rel] & 4 and res[0] == 0:
            C.fail(f"{what}: an unreadable input was converted")
        again(w, p, what)


# ------------------------------------------------------------------ interrupted or killed anywhere


class Bomb:
    """Calls act() at the n-th line executed in the package (and the JSON encoder it drives)."""

    def __init__(self, n, act):
        self.left, self.act = n, act
        self.fired = False
        self.where = None

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(PKG) or f.startswith(REPO) or f.endswith("json/encoder.py"):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.left -= 1
            if self.left < 0:
                self.fired = True
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                self.act()
        return self.line

    def run(self, fn):
        sys.settrace(self.glob)
        try:
            return fn()
        finally:
            sys.settrace(None)


def lines(fn):
    b = Bomb(1 << 60, None)
    b.run(fn)
    return (1 << 60) - b.left


def interrupt():
    raise KeyboardInterrupt


def interrupted(src, i, case):
    """Ctrl-C at a drawn line; then the same and another conversion in the same process."""
    p = scene(src, src.choice([4, 10]))
    with cli.Dir() as w:
        lay(w, p)
        total = at(w, lambda: lines(lambda: outcome(p.argv, p.stdin)))
    r = src.draw(4)
    n = total - 1 - src.draw(min(total, 40)) if r == 0 else src.draw(total)
    with cli.Dir() as w:
        before = lay(w, p)
        b = Bomb(n, interrupt)
        res = at(w, lambda: b.run(lambda: outcome(p.argv, p.stdin)))
        after = w.tree()
        C.note(case, repr((p.argv, n, sorted(p.files.items()))), ["interrupted in " + (b.where or "?").split(":")[0], "to " + p.direction],
               {"argv": p.argv, "line event": n, "of": total, "exit": res[0]}, b.fired)
        what = f"interrupted at {b.where} (line event {n} of {total})"
        judge(p, res, before, after, what)
        if b.fired and p.exists and not p.force and res[2] == 0 and after.get(p.out) != before[p.out]:
            C.fail(f"{what}, before any consent was asked: the output changed")
        again(w, p, what)


def killed(src, i, case):
    """The process dies at a drawn line."""
    p = scene(src, src.choice([4, 10]))
    with cli.Dir() as w:
        lay(w, p)
        total = at(w, lambda: lines(lambda: outcome(p.argv, p.stdin)))
    n = total - 1 - src.draw(min(total, 40)) if src.chance(1, 3) else src.draw(total)
    with cli.Dir() as w:
        before = lay(w, p)
        b = Bomb(n, lambda: os._exit(9))
        res = forked(lambda: at(w, lambda: b.run(lambda: outcome(p.argv, p.stdin))))
        after = w.tree()
        C.note(case, repr((p.argv, n, sorted(p.files.items()))), ["killed", "to " + p.direction], {"argv": p.argv, "line event": n, "of": total}, res is None)
        what = f"killed at line event {n} of {total}"
        judge(p, res, before, after, what)
        again(w, p, what)


def prompt(src, i, case):
    """Ctrl-C or a broken terminal while the command asks for consent."""
    p = scene(src, 4)
    if not p.exists:
        p.files[p.out] = b"precious"
        p.exists = True
    p.argv = [a for a in p.argv if a != "-f"]
    p.force = False
    exc = src.choice([KeyboardInterrupt, EOFError, OSError, UnicodeDecodeError])
    skip = src.draw(3)

    class In:
        encoding = "utf8"
        errors = "strict"

        def __init__(self):
            self.n = 0

        def readline(self, *a):
            self.n += 1
            if self.n > skip:
                raise exc("utf8", b"", 0, 1, "x") if exc is UnicodeDecodeError else exc()
            return "what\n"

        def isatty(self):
            return False

        def fileno(self):
            raise OSError("no descriptor")

    real = T.convert.main

    def main():
        sys.stdin = In()
        return real()

    with cli.Dir() as w:
        before = lay(w, p)
        res = at(w, lambda: outcome(p.argv, "", main))
        after = w.tree()
        C.note(case, repr((p.argv, exc.__name__, skip, sorted(p.files.items()))), ["prompt: " + exc.__name__], {"argv": p.argv, "raises": exc.__name__, "after": skip})
        if after != before:
            C.fail(f"{exc.__name__} at the question for consent: {K.changed(before, after)} changed (exit {res[0]})")
        if res[0] == 0:
            C.fail(f"{exc.__name__} at the question for consent: success was reported")
        again(w, p, f"after {exc.__name__} at the question")


def console(src, i, case):
    """The terminal or pipe the diagnostics go to breaks at the n-th write."""
    p = scene(src, 6)
    n = src.draw(14)
    exc = src.choice([BrokenPipeError, OSError, UnicodeEncodeError])

    class Out:
        encoding = "utf8"
        errors = "strict"

        def __init__(self):
            self.n = 0

        def write(self, s):
            self.n += 1
            if self.n > n:
                raise exc("ascii", s, 0, 1, "x") if exc is UnicodeEncodeError else exc(32, "broken")
            return len(s)

        def flush(self):
            pass

        def isatty(self):
            return False

    real = T.convert.main

    def main():
        sys.stdout = Out()
        return real()

    with cli.Dir() as w:
        before = lay(w, p)
        res = at(w, lambda: outcome(p.argv, p.stdin, main))
        after = w.tree()
        C.note(case, repr((p.argv, n, exc.__name__, sorted(p.files.items()))), ["console: " + ("finished" if res[0] == 0 else "failed")], {"argv": p.argv, "writes": n, "exit": res[0]}, res[0] != 0)
        what = f"with a console that breaks after {n} writes ({exc.__name__})"
        judge(p, res, before, after, what)
        again(w, p, what)


# ------------------------------------------------------------------ as a process of its own

CONVERT = ["-m", "palworld_save_tools.commands.convert"]


def process(src, i, case):
    """The command as its own process: its output pipe closed, or a signal sent to it at a drawn moment."""
    p = scene(src, 8, big=src.chance(1, 4))
    unbuffered = src.draw(2)
    how = src.choice(["pipe", "pipe", "full", "closed", "SIGINT", "SIGTERM", "SIGHUP", "SIGKILL"])
    delay = src.draw(200) / 1000.0
    with cli.Dir() as w:
        before = lay(w, p)
        argv = [sys.executable] + (["-u"] if unbuffered else []) + CONVERT + p.argv
        kw = dict(cwd=w.d, env=cli.env(), stdin=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if how == "pipe":
            r, wr = os.pipe()
            os.close(r)
            q = subprocess.Popen(argv, stdout=wr, **kw)
            os.close(wr)
        elif how == "full":
            with open("/dev/full", "wb") as f:
                q = subprocess.Popen(argv, stdout=f, **kw)
        elif how == "closed":
            q = subprocess.Popen(["/bin/sh", "-c", 'exec "$@" >&-', "sh"] + argv, **kw)
        else:
            q = subprocess.Popen(argv, stdout=subprocess.DEVNULL, **kw)
            time.sleep(delay)
            q.send_signal(getattr(signal, how))
        try:
            q.communicate(p.stdin.encode(), timeout=60)
        except subprocess.TimeoutExpired:
            q.kill()
            q.wait()
            C.fail(f"convert {p.argv} ({how}) hangs")
        after = w.tree()
        C.note(case, repr((p.argv, how, delay, sorted(p.files.items()))), [how + ": " + ("finished" if q.returncode == 0 else "failed")],
               {"argv": p.argv, "fault": how, "after": delay, "exit": q.returncode, "unbuffered": unbuffered}, q.returncode != 0)
        what = {"pipe": "with a closed pipe for its messages", "full": "with its messages to a full device", "closed": "without standard output"}.get(how, how + f" after {delay} s")
        judge(p, (q.returncode, ""), before, after, what)
        again(w, p, what)


# ------------------------------------------------------------------ the library, interrupted


def library(src, i, case):
    """Reading, dumping or writing is interrupted at a drawn line; afterwards everything works as ever."""
    g, d = C.any_doc(src, budget=20)
    raw = M.encode(d)
    g2, d2 = C.any_doc(src, budget=20)
    raw2 = M.encode(d2)
    op = src.draw(3)

    def work():
        if op == 0:
            T.read(raw)
        elif op == 1:
            T.doc_raw(C.clone(d))
        else:
            T.to_text(T.read(raw))

    total = lines(work)
    n = src.draw(total)
    exc = src.choice([KeyboardInterrupt, MemoryError, RecursionError, SystemExit])
    b = Bomb(n, lambda: (_ for _ in ()).throw(exc()))
    try:
        b.run(work)
    except exc:
        pass
    except Exception:
        pass
    what = f"{exc.__name__} at {b.where} while {['reading', 'writing', 'dumping'][op]}"
    C.note(case, raw + repr((op, n, exc.__name__)).encode(), ["library: " + exc.__name__, "in " + (b.where or "?").split(":")[0]], {"fault": what, "line event": n, "of": total}, b.fired)
    for dd, rr in ((d, raw), (d2, raw2)):
        got = T.must(f"after {what}: reading failed", T.sav_doc, rr)
        x = M.same(dd, got)
        if x:
            C.fail(f"after {what}: the document differs: {x}", dd, rr)
        back = T.must(f"after {what}: writing failed", T.doc_raw, got)
        if back != rr:
            C.fail(f"after {what}: the written save differs: " + T.first_diff(rr, back), dd, rr)


CHECK = Check(
    "C26",
    "a case is a conversion that would succeed, with one fault: a limit to file sizes, missing permissions, an interruption or the death of "
    "the process at a drawn line, a broken console, an exception at the question for consent; non-trivial: the fault took effect; "
    "files are compared before and after, and the conversion is repeated afterwards",
    [
        Stage("room", room, 1500, 40000, "file sizes limited by the system (RLIMIT_FSIZE), as on a full disk"),
        Stage("injected", injected, 6000, 150000, "an error at the nth opening, reading, writing, closing or moving of a file, once or for good"),
        Stage("resave room", room_resave, 400, 10000, "the resave check with limited file sizes"),
        Stage("permission", permission, 800, 20000, "as an unprivileged user without the permissions"),
        Stage("interrupted", interrupted, 1500, 50000, "KeyboardInterrupt at a drawn line of the package, repeated in the same process"),
        Stage("killed", killed, 800, 25000, "the process exits at a drawn line"),
        Stage("prompt", prompt, 600, 15000, "exceptions while consent is asked"),
        Stage("console", console, 800, 20000, "diagnostics cannot be written"),
        Stage("process", process, 400, 8000, "the command as a process with a broken output or a signal"),
        Stage("library", library, 4000, 120000, "exceptions at a drawn line of the library"),
    ],
    assumptions=["what an interrupted or failed write leaves in the output file itself is not prescribed, only that it is not reported as success"],
)
