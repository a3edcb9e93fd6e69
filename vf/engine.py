"""A small choice-sequence property-based testing engine.

Every random decision of a case is an integer drawn through Src.draw(n).  The
recorded list of integers *is* the case: it replays it, and shrinking is done
on that list (delete / zero / lower), so a failure is reduced without any
knowledge of what the integers mean.  Case i of stage s of property p under
VERIF_SEED k is a pure function of (code, k, p, s, i); the number of worker
processes does not matter.
"""
import contextlib
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CASE_CPU_LIMIT = float(os.environ.get("VF_CASE_CPU", "60"))
CASE_WALL_LIMIT = 200.0  # a case that waits for ever burns no CPU
QUICK_WALL = 560.0  # a quick run stops generating then: an answer about what was explored, not none


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, message, case=None):
        super().__init__(message)
        self.message = message
        self.case = case


class CpuBudget(BaseException):
    """One case burned CASE_CPU_LIMIT seconds of CPU (they normally take milliseconds), or waited
    CASE_WALL_LIMIT seconds for something that never came."""


class Overrun(Exception):
    """A replayed sequence became longer than allowed while shrinking."""


class Discard(BaseException):
    """The generator built something absurdly large: the case says nothing."""


MAX_DRAWS = 500000


class Src:
    __slots__ = ("rng", "replay", "pos", "rec", "limit", "bulk")

    def __init__(self, seed=None, replay=None, limit=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.rec = []
        self.limit = limit
        self.bulk = 30000  # how much of a case may come from large lengths steered by fresh constants

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.replay is None:
            v = int(self.rng.random() * n) if n < 1 << 48 else self.rng.randrange(n)
        else:
            p = self.pos
            v = self.replay[p] % n if p < len(self.replay) else 0
            self.pos = p + 1
            if self.limit is not None and p > self.limit:
                raise Overrun()
        self.rec.append(v)
        if len(self.rec) > MAX_DRAWS:
            raise Discard()
        return v

    def between(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def chance(self, num, den):
        """True with probability num/den; shrinks towards False."""
        return self.draw(den) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; shrinks towards the first."""
        total = 0
        for w, _ in pairs:
            total += w
        r = self.draw(total)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        return pairs[-1][1]

    def bytes(self, n):
        if n <= 0:
            return b""
        return self.draw(1 << (8 * n)).to_bytes(n, "little")


class Stage:
    """fn(src, i, case) runs one case; `case` is a CaseLog."""

    def __init__(self, name, fn, quick, thorough=None, about=""):
        self.name, self.fn = name, fn
        self.quick = quick
        self.thorough = quick * 20 if thorough is None else thorough
        self.about = about


class CaseLog:
    __slots__ = ("key", "nontrivial", "labels", "sample", "extra")

    def __init__(self):
        self.key = None
        self.nontrivial = False
        self.labels = []
        self.sample = None
        self.extra = 0


class Check:
    def __init__(self, pid, rule, stages, findings=None, assumptions=(), before=None, serial=None):
        self.pid = pid
        self.rule = rule
        self.stages = stages
        self.findings = findings or []  # [(finding id, fn() -> str or None)]
        self.assumptions = list(assumptions)
        self.before = before
        self.serial = serial


def case_seed(seed, pid, stage, i):
    h = hashlib.blake2b(f"{seed}|{pid}|{stage}|{i}".encode(), digest_size=8).digest()
    return int.from_bytes(h, "little")


def _alarm(signum, frame):
    raise CpuBudget()


def run_case(stage, src, i):
    """-> (log, violation or None). Anything but Violation/CpuBudget is a harness error."""
    log = CaseLog()
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_LIMIT)
    try:
        stage.fn(src, i, log)
        v = None
    except Violation as e:
        v = e
    except Overrun:
        raise
    except Exception as e:
        # an exception that came out of the code under test where a case does not expect one, or what it
        # returned could not even be looked at; trouble of the machine itself stays a harness error
        tb = traceback.extract_tb(e.__traceback__)
        inside = any("palworld_save_tools" in f.filename for f in tb)
        if not inside and isinstance(e, (OSError, MemoryError, ImportError, subprocess.SubprocessError)):
            raise
        v = Violation(f"unexpected {type(e).__name__}: {str(e)[:300]} ({os.path.basename(tb[-1].filename)}:{tb[-1].name})")
    except Discard:
        log, v = CaseLog(), None
    except CpuBudget as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any("/vf/gen.py" in f.filename for f in tb) and not any("palworld_save_tools" in f.filename for f in tb):
            return CaseLog(), None  # still generating the case
        v = Violation(
            f"the conversion did not finish within {CASE_CPU_LIMIT:.0f} s of CPU (or {CASE_WALL_LIMIT:.0f} s of "
            "waiting) on a small input"
        )
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return log, v


def shrink(stage, choices, i, budget_s=25.0):
    """Reduce the choice list while the same stage/index still yields a Violation."""
    stop_cpu = time.process_time() + budget_s
    stop_wall = time.time() + 2 * budget_s
    over = lambda: time.process_time() >= stop_cpu or time.time() >= stop_wall
    best = list(choices)
    best_v = None
    calls = 0

    def fails(cand):
        nonlocal calls, best, best_v
        calls += 1
        src = Src(replay=cand, limit=len(best) + 16)
        try:
            log, v = run_case(stage, src, i)
        except Overrun:
            return False
        except Exception:
            return False  # a sequence the generator cannot use
        if v is None:
            return False
        rec = src.rec
        if (len(rec), rec) < (len(best), best) or best_v is None:
            best, best_v = list(rec), v
            return True
        return False

    fails(best)
    if best_v is None:
        return choices, None, calls
    improved = True
    while improved and not over():
        improved = False
        k = max(1, len(best) // 2)
        while k >= 1 and not over():
            p = 0
            while p < len(best) and not over():
                if fails(best[:p] + best[p + k :]):
                    improved = True
                else:
                    p += k
            k //= 2
        for p in range(len(best) - 1, -1, -1):
            if over():
                break
            if p < len(best) and best[p] > 0:
                if fails(best[:p] + [0] + best[p + 1 :]):
                    improved = True
                    continue
                lo, hi = 0, best[p]
                while lo + 1 < hi and not over() and p < len(best):
                    mid = (lo + hi) // 2
                    if fails(best[:p] + [mid] + best[p + 1 :]):
                        improved = True
                        hi = mid
                    else:
                        lo = mid
    return best, best_v, calls


def _roomy(d):
    """d if it is a place in memory with room to spare (renames and syncs cost nothing there), else None."""
    try:
        st = os.statvfs(d)
        if st.f_bavail * st.f_frsize >= 2 << 30 and os.access(d, os.W_OK | os.X_OK):
            return d
    except OSError:
        pass
    return None


def _worker(check, tier, seed, w, nworkers, conn, scratch):
    try:
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        devnull = open(os.devnull, "w")
        sys.stdout = devnull
        os.chdir(scratch)
        os.environ["HOME"] = os.environ["USERPROFILE"] = scratch  # whatever expands a path stays in here
        res = {"eval": 0, "keys": set(), "labels": {}, "stages": {}, "samples": [], "excluded": 0, "cut": []}
        begun = time.monotonic()
        for nth, stage in enumerate(check.stages):
            now = time.monotonic()
            # no stage may use up the time of those after it
            until = now + max(20.0, (QUICK_WALL - (now - begun)) * min(1.0, 2.0 / (len(check.stages) - nth)))
            n = stage.thorough if tier == "thorough" else stage.quick
            if callable(n):
                n = n()
            done = nontriv = 0
            for i in range(w, n, nworkers):
                if tier != "thorough" and time.monotonic() > until:
                    res["cut"].append(stage.name)
                    break
                src = Src(case_seed(seed, check.pid, stage.name, i))
                log, v = run_case(stage, src, i)
                done += 1
                res["excluded"] += log.extra
                if v is not None:
                    conn.send(
                        (
                            "violation-found",
                            {
                                "stage": stage.name, "index": i, "choices": src.rec, "message": v.message,
                                "case": v.case, "evaluations": res["eval"] + done,
                            },
                        )
                    )
                    choices, v2, calls = shrink(stage, src.rec, i)
                    v2 = v2 or v
                    conn.send(
                        (
                            "violation",
                            {
                                "stage": stage.name,
                                "index": i,
                                "choices": choices,
                                "original_choices": src.rec,
                                "message": v2.message,
                                "case": v2.case,
                                "shrink_runs": calls,
                                "evaluations": res["eval"] + done,
                            },
                        )
                    )
                    conn.close()
                    os._exit(0)
                if log.nontrivial:
                    nontriv += 1
                    k = log.key
                    if k is not None:
                        if isinstance(k, str):
                            k = k.encode("utf8", "surrogatepass")
                        res["keys"].add(
                            int.from_bytes(hashlib.blake2b(k, digest_size=8).digest(), "little")
                        )
                for lab in log.labels:
                    res["labels"][lab] = res["labels"].get(lab, 0) + 1
                if log.sample is not None and len(res["samples"]) < 60 and (
                    done <= 2 or done % 400 == 0
                ):
                    res["samples"].append([stage.name, i, log.sample])
            res["eval"] += done
            res["stages"][stage.name] = [done, nontriv]
        conn.send(("ok", res))
    except BaseException as e:  # noqa - reported as a harness error
        try:
            conn.send(("error", "".join(traceback.format_exception(e))[-4000:]))
        except Exception:
            pass
    finally:
        try:
            conn.close()
        except Exception:
            pass
        os._exit(0)


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)


@contextlib.contextmanager
def big_numbers():
    """Choices can be numbers of thousands of digits."""
    old = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(0)
    try:
        yield
    finally:
        sys.set_int_max_str_digits(old)


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f, big_numbers():
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def write_replay(pid, seed, tier, info):
    body = dict(info)
    body.update(property=pid, seed=seed, tier=tier)
    with big_numbers():
        h = hashlib.blake2b(json.dumps([pid, info["stage"], info["choices"]]).encode(), digest_size=5)
    path = os.path.join(VERIF, "out", "replays", f"{pid}-{h.hexdigest()}.json")
    write_json(path, body)
    return path


def main(check, tier, seed, replay=None, level="exploration"):
    t0 = time.time()
    pid = check.pid
    if replay:
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.signal(signal.SIGALRM, _alarm)
        with open(replay) as f, big_numbers():
            r = json.load(f)
        stage = [s for s in check.stages if s.name == r["stage"]][0]
        old, sys.stdout = sys.stdout, open(os.devnull, "w")
        log, v = run_case(stage, Src(replay=r["choices"]), r["index"])
        sys.stdout = old
        if v is None:
            print("replay: the property holds on this case")
            return 0
        print("replay: " + v.message)
        if v.case:
            print(str(v.case)[:4000])
        print(f"VIOLATION property={pid} replay={replay}")
        return 1

    import shutil
    import tempfile

    scratch = tempfile.mkdtemp(prefix="vf-" + pid + "-", dir=_roomy("/dev/shm"))
    nworkers = int(os.environ.get("VF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    violations = []
    errors = []
    results = []
    try:
        extra = {}
        if check.before:
            extra = check.before() or {}
        ctx = multiprocessing.get_context("fork")
        procs = []
        for w in range(nworkers):
            a, b = ctx.Pipe(duplex=False)
            d = os.path.join(scratch, f"w{w}")
            os.mkdir(d)
            p = ctx.Process(target=_worker, args=(check, tier, seed, w, nworkers, b, d))
            p.start()
            b.close()
            procs.append([p, a, False])
        pending = {id(x[1]): x for x in procs}
        from multiprocessing.connection import wait

        found_at = None
        unshrunk = []
        while pending:
            ready = wait([x[1] for x in pending.values()], timeout=1.0)
            for c in ready:
                x = pending[id(c)]
                try:
                    msg = c.recv()
                except EOFError:
                    if not x[2]:
                        errors.append("a worker died without a result")
                    pending.pop(id(c))
                    continue
                if msg[0] == "ok":
                    results.append(msg[1])
                    x[2] = True
                elif msg[0] == "violation-found":
                    x[2] = True
                    found_at = found_at or time.time()
                    unshrunk.append(msg[1])
                    for y in procs:
                        if not y[2]:
                            y[2] = True
                            y[0].kill()
                elif msg[0] == "violation":
                    violations.append(msg[1])
                    x[2] = True
                elif msg[0] == "error":
                    errors.append(msg[1])
                    x[2] = True
            if found_at and time.time() - found_at > 240:
                for y in procs:
                    if y[0].is_alive():
                        y[0].kill()
        for x in procs:
            x[0].join()

        if unshrunk and not violations:
            violations.append(unshrunk[0])
        known = load_findings()
        lines = []
        listed = {(k["property"], k["id"]) for k in known["findings"] if k["status"] == "known"}
        for fid, fn in check.findings:
            old, sys.stdout = sys.stdout, open(os.devnull, "w")
            try:
                what = fn()
            finally:
                sys.stdout = old
            if what is None:
                continue
            if (pid, fid) in listed:
                lines.append(f"KNOWN-FINDING: property={pid} {fid}: {what}")
            else:
                violations.append(
                    {"stage": "finding:" + fid, "index": 0, "choices": [], "message": what, "case": None}
                )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    keys = set()
    labels = {}
    stages = {}
    samples = []
    evals = excluded = 0
    cut = set()
    for r in results:
        keys |= r["keys"]
        evals += r["eval"]
        excluded += r["excluded"]
        cut.update(r["cut"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["stages"].items():
            a = stages.setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
        samples += r["samples"]
    for v in violations:
        evals += v.get("evaluations", 0)
    samples.sort(key=lambda s: (s[1] // 400, s[0], s[1]))
    seen = {}
    chosen = []
    for s in samples:
        if seen.get(s[0], 0) < 3:
            seen[s[0]] = seen.get(s[0], 0) + 1
            chosen.append({"stage": s[0], "index": s[1], "case": s[2]})
    about = {s.name: s.about for s in check.stages}
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": check.rule,
            "samples": chosen[:24],
            "stages": {
                k: {"cases": v[0], "nontrivial": v[1], "about": about.get(k, "")}
                for k, v in sorted(stages.items())
            },
            "labels": dict(sorted(labels.items())),
            "excluded_known_findings": excluded,
            "stages_cut_short": sorted(cut),
            **extra,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    write_json(os.path.join(VERIF, "evidence", pid + ".json"), ev)
    for l in lines:
        print(l)
    if violations:
        v = min(violations, key=lambda v: (v["stage"].startswith("finding:"), len(v["choices"])))
        path = write_replay(pid, seed, tier, v)
        print(f"{pid}: {v['message']}")
        if v.get("case"):
            print(str(v["case"])[:3000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("\n".join(errors)[:8000], file=sys.stderr)
        print(f"{pid}: harness error", file=sys.stderr)
        return 2
    print(
        f"{pid}: held on {evals} cases ({len(keys)} distinct non-trivial), "
        f"seed {seed}, {tier}, {ev['wall_s']} s" + (f", cut short: {' '.join(sorted(cut))}" if cut else "")
    )
    return 0
