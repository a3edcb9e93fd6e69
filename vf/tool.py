"""The code under test, imported from /repo, and the pipeline a user runs."""
import json
import os
import sys

from vf.engine import REPO, Violation

if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)

import palworld_save_tools  # noqa: E402
from palworld_save_tools import archive, gvas, json_tools, palsav, paltypes  # noqa: E402
from palworld_save_tools.commands import convert  # noqa: E402

if not os.path.realpath(palworld_save_tools.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError("palworld_save_tools is not imported from " + REPO)

HINTS = paltypes.PALWORLD_TYPE_HINTS
CUSTOM = paltypes.PALWORLD_CUSTOM_PROPERTIES
GvasFile = gvas.GvasFile
Encoder = json_tools.CustomEncoder
UUID = archive.UUID


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n - 20] + "...(%d chars)" % len(s)


def read(raw, custom=None, allow_nan=True, hints=None):
    return GvasFile.read(
        raw, HINTS if hints is None else hints, CUSTOM if custom is None else custom, allow_nan=allow_nan
    )


def to_text(g, allow_nan=True, indent=None):
    return json.dumps(g.dump(), indent=indent, cls=Encoder, allow_nan=allow_nan)


def sav_doc(raw, custom=None, allow_nan=True, hints=None):
    """GVAS bytes -> the JSON document a user gets."""
    return json.loads(to_text(read(raw, custom, allow_nan, hints), allow_nan))


def doc_raw(doc):
    """JSON document -> GVAS bytes. Consumes doc."""
    return GvasFile.load(doc).write(CUSTOM)


def must(what, fn, *a, **k):
    """The call must succeed: any exception of the code under test is a violation."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what}: {type(e).__name__}: {short(str(e), 300)}")


def first_diff(a, b):
    n = min(len(a), len(b))
    lo, hi = 0, n
    while lo < hi:  # binary search for the first difference
        mid = (lo + hi + 1) // 2
        if a[:mid] == b[:mid]:
            lo = mid
        else:
            hi = mid - 1
    i = lo
    return (
        f"lengths {len(a)} / {len(b)}, first difference at byte {i}: "
        f"expected ...{a[max(0,i-12):i+20].hex()} got ...{b[max(0,i-12):i+20].hex()}"
    )
