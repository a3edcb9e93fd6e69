"""Driving the command line: in process (fast) and as a subprocess."""
import contextlib
import io
import os
import shutil
import subprocess
import sys
import tempfile

from vf import tool as T
from vf.engine import CpuBudget, REPO


class Dir:
    """A scratch directory, removed afterwards."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vfc-", dir=os.getcwd() if "vf-" in os.getcwd() else None)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.d, *p)

    def write(self, name, data):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def tree(self):
        """{relative path: bytes} of everything below."""
        out = {}
        for r, ds, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(r, f)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, self.d)] = fh.read()
            for k in ds:
                out[os.path.relpath(os.path.join(r, k), self.d) + "/"] = None
        return out


class Result:
    def __init__(self, code, out, asked, exc=None):
        self.code, self.out, self.asked, self.exc = code, out, asked, exc

    def tail(self):
        return (repr(self.exc) + " " if self.exc else "") + self.out[-300:]


class _In(io.StringIO):
    """Standard input that counts how often it is read; at its end it behaves like a closed terminal."""

    def __init__(self, text):
        super().__init__(text)
        self.reads = 0

    def readline(self, *a):
        self.reads += 1
        if self.reads > 1000:
            raise EOFError("asked 1000 times")
        return super().readline(*a)


def run_main(fn, argv, stdin="", prog="palworld-save-tools"):
    """Call a command's main() with argv and stdin; -> Result. An uncaught exception is exit status 1."""
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = io.StringIO()
    inp = _In(stdin)
    sys.argv = [prog] + list(argv)
    sys.stdin, sys.stdout, sys.stderr = inp, out, out
    exc = None
    try:
        fn()
        code = 0
    except SystemExit as e:
        code = e.code
        code = 0 if code is None else code if isinstance(code, int) else 1
    except CpuBudget:
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        code, exc = 1, e
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    return Result(code, out.getvalue(), inp.reads, exc)


def _exit(code=None):
    raise SystemExit(code)


def convert(argv, stdin=""):
    return run_main(T.convert.main, argv, stdin)


def resave(argv, stdin=""):
    from palworld_save_tools.commands import resave_test

    return run_main(resave_test.main, argv, stdin, "palworld-save-tools-resave-test")


def env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ("FORCE_STDLIB_ONLY", "DEBUG")}
    e["PYTHONPATH"] = REPO
    e.update(kw)
    return e


def spawn(argv, stdin=b"", timeout=120, **envs):
    return subprocess.run(
        [sys.executable, *argv], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(**envs), timeout=timeout
    )
