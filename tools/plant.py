"""Development tool (no check uses it): plant a bug described by a spec file in a scratch copy of /repo, confirm that it
builds, passes the tests and that its demonstration tells the two apart, store it under seeded/, and run checks against it.

  tools/plant.py SPEC.py...          confirm and store
  tools/plant.py --run ID [CHECK..]  run the property's check (or the given checks) with the bug in place
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()

def copy():
    d = tempfile.mkdtemp(prefix="plant-")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    return d, d + "/repo"

def tests(repo):
    """The worse of the two runs (with and without the optional dependency)."""
    out = []
    for extra in ({}, {"FORCE_STDLIB_ONLY": "1"}):
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **extra)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--no-header", "-p", "no:cacheprovider", "tests"],
                           cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out.append(r.stdout.strip().splitlines()[-1])
    return max(out, key=lambda t: not t.startswith("2 failed, 59 passed"))

def demo(dirname, repo):
    return subprocess.run(["bash", os.path.join(dirname, "demo.sh")], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)

def plant(path):
    ns = {}
    exec(open(path).read(), ns)
    bid = os.path.basename(path)[:-3]
    d, repo = copy()
    try:
        out = os.path.join(V, "seeded", bid)
        stage = os.path.join(d, "stage"); os.mkdir(stage)
        open(stage + "/demo.py", "w").write("from h import *\n" + ns["DEMO"].lstrip("\n"))
        shutil.copy(os.path.join(V, "tools", "seed_helper.py"), stage + "/h.py")
        open(stage + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        a = demo(stage, repo)
        if a.returncode != 0:
            return bid, "DEMO FAILS UNPATCHED: " + a.stdout[-600:]
        for f, old, new in ns["EDITS"]:
            p = os.path.join(repo, "palworld_save_tools", f)
            s = open(p).read()
            if s.count(old) != 1:
                return bid, f"EDIT {f}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", repo, "diff", "--", "palworld_save_tools"], text=True)
        t = tests(repo)
        if not t.startswith("2 failed, 59 passed"):
            return bid, "TESTS: " + t
        b = demo(stage, repo)
        if b.returncode == 0:
            return bid, "DEMO PASSES WITH THE BUG"
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for f in os.listdir(stage):
            if os.path.isfile(stage + "/" + f): shutil.copy(stage + "/" + f, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        return bid, "ok: " + (b.stdout.strip().splitlines() or [f"exit {b.returncode}"])[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(bid, checks=None, env=None):
    meta = json.load(open(f"{V}/seeded/{bid}/meta.json"))
    d, repo = copy()
    try:
        subprocess.check_call(["git", "-C", repo, "apply", f"{V}/seeded/{bid}/patch.diff"])
        res = []
        for c in checks or [meta["property"]]:
            r = subprocess.run(["./check", c], cwd=V, env=dict(os.environ, VF_REPO=repo, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            line = (r.stdout.strip().splitlines() or [""])[0][:230]
            res.append((c, r.returncode, line))
        return bid, res
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1] == "--run":
        ids = [x for x in sys.argv[2:] if not (x[0] == "C" and len(x) == 3)]
        checks = [x for x in sys.argv[2:] if x[0] == "C" and len(x) == 3]
        ids = ids if ids != ["all"] else sorted(os.listdir(V + "/seeded"))
        for b in ids:
            _, res = run(b, checks)
            for c, rc, line in res:
                print(f"{b:22s} {c} {'CAUGHT' if rc == 1 else 'missed' if rc == 0 else 'ERROR %d' % rc}  {line}", flush=True)
    else:
        with cf.ThreadPoolExecutor(4) as ex:
            for bid, msg in ex.map(plant, sys.argv[1:]):
                print(bid, msg, flush=True)
