import importlib
import os
import sys

from vf import engine


def main():
    if len(sys.argv) < 2:
        print("usage: ./check <property id> [--replay FILE]", file=sys.stderr)
        return 2
    pid = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        replay = sys.argv[sys.argv.index("--replay") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(1000)
    try:
        mod = importlib.import_module("vf.checks." + pid.lower())
    except ImportError as e:
        import traceback

        from_repo = any("palworld_save_tools" in f.filename for f in traceback.extract_tb(e.__traceback__))
        if not from_repo:
            raise
        return broken(pid, tier, seed, e)
    except (SyntaxError, NameError, AttributeError, TypeError, ValueError, KeyError) as e:
        import traceback

        if not any("palworld_save_tools" in f.filename for f in traceback.extract_tb(e.__traceback__)):
            raise
        return broken(pid, tier, seed, e)
    return engine.main(mod.CHECK, tier, seed, replay)


def broken(pid, tier, seed, e):
    """The code under test does not even import: nothing it promises holds."""
    v = {"stage": "import", "index": 0, "choices": [], "message": f"importing the package failed: {e!r}", "case": None}
    path = engine.write_replay(pid, seed, tier, v)
    print(f"{pid}: {v['message']}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
