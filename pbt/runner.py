"""Runs the parts of one property: generated cases against explicit oracles.

A property is a module ``pbt.props.<id>`` with ``PARTS``, ``RULE`` and
``ASSUMPTIONS``.  A part is a strategy producing a JSON-able case and a function
``check(case, note)`` that raises if the case violates the property.  Every
random choice is made by Hypothesis from VERIF_SEED; a run is a pure function of
the code under test, the tier and VERIF_SEED.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import signal
import sys
import time
import traceback

import numpy as np

from . import gens

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = 120  # one case normally takes milliseconds
SHRINK_S = 40  # wall budget for minimising a failure already found
BUDGET_S = {"quick": 420, "thorough": 780}  # then stop generating (inconclusive rest)


class Part:
    """name; strategy; check(case, note); cases in the quick/thorough tier."""

    def __init__(self, name, strategy, check, quick=300, thorough=None,
                 shards=None, known=None, targeted=False, large=0):
        self.name, self.strategy, self.check = name, strategy, check
        self.n = {"quick": quick, "thorough": thorough or quick * 12}
        self.shards = shards
        self.known = known
        self.targeted = targeted  # the check calls note.target(x): the search climbs x
        self.big = False
        self.large = large  # cases, in the quick tier, of the same part on graphs of tens of vertices

    def on_large_graphs(self):
        p = Part(self.name + "-large", self.strategy, self.check, self.large, known=self.known)
        p.big = True
        return p


class Stop(BaseException):
    """Ends a hypothesis run from within (budget used up)."""


class Hang(Exception):
    """A case did not return."""


class Note:
    """What a check tells about a case: labels, and whether it is non-trivial."""

    def __init__(self):
        self.labels = []
        self.trivial = None
        self.score = None

    def target(self, x):
        self.score = float(x)

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        self.trivial = not cond


class Violation(AssertionError):
    pass


def plain(x):
    """JSON round-trip: a check sees precisely what a replay file holds."""
    return json.loads(json.dumps(x, default=_default))


def _default(x):
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    raise TypeError(type(x))


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()


def parts_of(module):
    return module.PARTS + [p.on_large_graphs() for p in module.PARTS if p.large]


def _alarm(*_):
    raise Hang(f"the operation did not return within {HANG_S} s")


class Entropy:
    """numpy.random.default_rng, whose unseeded generators (e.g., those which
    choose the starting vectors of ARPACK) depend on the case instead of on
    the operating system: a run is reproducible."""

    def __init__(self):
        self.make, self.key, self.count = np.random.default_rng, 0, 0

    def __call__(self, seed=None):
        if seed is not None:
            return self.make(seed)
        self.count += 1
        return self.make([self.key, self.count])

    def reset(self, case):
        self.key, self.count = int.from_bytes(digest(case), "big"), 0
        random.seed(0)
        np.random.seed(0)


ENTROPY = np.random.default_rng = Entropy()


def run_case(part, case, note):
    ENTROPY.reset(case)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S)
    try:
        part.check(case, note)
    finally:
        signal.alarm(0)


def shard(module, index, n, seed, budget, conn):
    """Runs n cases of one part in this process; sends a result dict."""
    from hypothesis import HealthCheck, Phase, given, settings, target
    from hypothesis import seed as hseed
    from hypothesis.errors import UnsatisfiedAssumption

    import matplotlib
    matplotlib.use("agg")

    part = parts_of(module)[index]
    gens.LARGE = part.big
    res = {
        "part": part.name, "evals": 0, "nontrivial": set(), "labels": {},
        "samples": [], "failure": None, "stopped": False, "error": None,
        "known": {}, "attempts": 0,
    }
    t0 = time.time()
    best = {"case": None, "err": None, "size": None, "t": None}

    def body(case):
        if best["case"] is not None:
            if time.time() - best["t"] > SHRINK_S:
                raise Stop
        elif time.time() - t0 > budget:
            raise Stop
        case = plain(case)
        note = Note()
        res["attempts"] += 1
        try:
            run_case(part, case, note)
        except UnsatisfiedAssumption:
            raise
        except Exception as e:
            kf = part.known(case, e) if part.known else None
            if kf is not None:
                res["known"][kf] = res["known"].get(kf, 0) + 1
                return
            size = len(json.dumps(case))
            if best["case"] is None:
                best["t"] = time.time()
            if best["case"] is None or size <= best["size"]:
                best.update(case=case, size=size, err=short(e))
            if isinstance(e, Hang):
                best["t"] = 0  # Don't wait for others.
            raise
        if best["case"] is not None:
            return
        if part.targeted and note.score is not None:
            target(note.score)
        res["evals"] += 1
        if not note.trivial:
            d = digest(case)
            if d not in res["nontrivial"]:
                res["nontrivial"].add(d)
                if len(res["samples"]) < 2 or (len(res["samples"]) < 4 and res["evals"] > n // 2):
                    res["samples"].append(case)
        for name in note.labels:
            res["labels"][name] = res["labels"].get(name, 0) + 1

    test = given(part.strategy)(body)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        phases=(Phase.generate, Phase.target, Phase.shrink) if part.targeted else (Phase.generate, Phase.shrink), report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), print_blob=False,
    )(test)
    test = hseed(seed)(test)
    try:
        sink = open(os.devnull, "w")
        stdout, sys.stdout = sys.stdout, sink
        stderr, sys.stderr = sys.stderr, sink
        try:
            test()
        finally:
            sys.stdout, sys.stderr = stdout, stderr
    except Stop:
        res["stopped"] = best["case"] is None
    except BaseException as e:
        if best["case"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    if best["case"] is not None:
        res["failure"] = {"case": best["case"], "error": best["err"]}
    conn.send_bytes(pickle.dumps(res))
    conn.close()


def short(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb][-4:]
    return {"type": type(e).__name__, "message": str(e)[:1500], "where": where}


def isolated(fn, *args):
    """fn(*args) in a forked child; returns its (pickled) value."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)

    def run():
        try:
            out = fn(*args)
        except BaseException as e:
            out = ("error", short(e))
        b.send_bytes(pickle.dumps(out))

    p = ctx.Process(target=run)
    p.start()
    b.close()
    try:
        out = pickle.loads(a.recv_bytes())
    except EOFError:
        out = ("error", {"type": "Died", "message": f"exit code {p.exitcode}", "where": []})
    p.join()
    return out


def replay_one(part, case):
    try:
        run_case(part, case, Note())
    except Exception as e:
        if part.known and part.known(case, e) is not None:
            return ("known", part.known(case, e))
        return ("fail", short(e))
    return ("ok", None)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--scale", type=float, default=1.0, help="multiplies the case counts")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    module = importlib.import_module(f"pbt.props.{a.id.lower()}")
    parts = parts_of(module)
    seed = int(os.environ.get("VERIF_SEED") or 1)

    if a.replay:
        rep = json.load(open(a.replay))
        part = next(p for p in parts if p.name == rep["part"])
        status, what = isolated(replay_one, part, rep["case"])
        print(status, json.dumps(what))
        if status in ("fail", "error"):
            print(f"VIOLATION property={a.id} replay={a.replay}")
            return 1
        return 0

    t0 = time.time()
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    total = sum(p.n[a.tier] for p in parts)
    tasks = []
    for i, p in enumerate(parts):
        if a.part and a.part not in p.name:
            continue
        n = max(1, int(p.n[a.tier] * a.scale))
        k = 4 if p.big else p.shards or (jobs if a.part else max(1, min(jobs, round(jobs * n / max(1, total)) or 1)))
        if a.tier == "thorough":
            k = jobs
        k = min(k, n)
        for s in range(k):
            tasks.append((i, n // k + (s < n % k), seed * 1000003 + i * 1009 + s))
    # longest first is unknown: interleave the shards of the parts
    tasks.sort(key=lambda t: t[2] % 1009)
    budget = BUDGET_S[a.tier]

    ctx = mp.get_context("fork")
    running, results, errors = {}, [], []
    queue = list(tasks)
    first_failure = None
    while queue or running:
        while queue and len(running) < jobs and first_failure is None:
            i, n, sd = queue.pop(0)
            left = max(5, budget - (time.time() - t0))
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=shard, args=(module, i, n, sd, left, w))
            p.start()
            w.close()
            running[r] = (p, i)
        if not running:
            break
        for r in mp.connection.wait(list(running), timeout=1):
            p, i = running.pop(r)
            try:
                res = pickle.loads(r.recv_bytes())
            except EOFError:
                p.join()
                res = {"part": parts[i].name, "died": p.exitcode}
            p.join()
            results.append(res)
            if res.get("failure") and first_failure is None:
                first_failure = time.time()
        if first_failure is not None and time.time() - first_failure > 15:
            for r, (p, i) in running.items():
                p.kill()
            for r, (p, i) in running.items():
                p.join()
            running = {}

    # ------------------------------------------------------------------ report
    evals = sum(r.get("evals", 0) for r in results)
    attempts = sum(r.get("attempts", 0) for r in results)
    per = {}
    distinct = 0
    samples = []
    for p in parts:
        rs = [r for r in results if r["part"] == p.name and "evals" in r]
        if not rs:
            continue
        nt = set().union(*[r["nontrivial"] for r in rs])
        distinct += len(nt)
        labels = {}
        for r in rs:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
        per[p.name] = {
            "evaluations": sum(r["evals"] for r in rs),
            "distinct_nontrivial": len(nt),
            "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:30]),
        }
        if any(r["stopped"] for r in rs):
            per[p.name]["budget_stopped"] = True
        kn = {}
        for r in rs:
            for k, v in r["known"].items():
                kn[k] = kn.get(k, 0) + v
        if kn:
            per[p.name]["known_finding_cases"] = kn
        for s in rs[0]["samples"][-2:]:
            text = json.dumps(s)
            samples.append({"part": p.name, "case": s if len(text) < 700 else text[:700] + "..."})
    failures = [r for r in results if r.get("failure")]
    for r in results:
        if "died" in r:
            errors.append(f"{r['part']}: worker died with exit code {r['died']}")
        elif r.get("error"):
            errors.append(f"{r['part']}: {r['error']}")

    violations = []
    outdir = os.path.join(VERIF, "replays", a.id)
    seen = set()
    for r in failures:
        if r["part"] in seen:
            continue
        seen.add(r["part"])
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, f"{r['part']}-{digest(r['failure']['case']).hex()}.json")
        part = next(p for p in parts if p.name == r["part"])
        hung = r["failure"]["error"]["type"] == "Hang"
        again = ("fail",) if hung else isolated(replay_one, part, r["failure"]["case"])
        json.dump({"property": a.id, "part": r["part"], "seed": seed, "tier": a.tier,
                   "case": r["failure"]["case"], "error": r["failure"]["error"],
                   "reproduces_in_isolation": again[0] in ("fail", "error")},
                  open(path, "w"), indent=1)
        violations.append(path)
        print(f"part {r['part']}: {r['failure']['error']['type']}: {r['failure']['error']['message'][:600]}")
        print("   at " + " < ".join(reversed(r["failure"]["error"]["where"])))
        print("   case " + json.dumps(r["failure"]["case"])[:1200])

    findings = known_findings(a.id)
    for kf in findings:
        probe = getattr(module, "KNOWN", {}).get(kf["id"])
        if probe is None:
            errors.append(f"known finding {kf['id']} has no probe")
            continue
        status, what = isolated(replay_one, Part("known", None, probe), kf.get("case"))
        if status in ("fail", "error"):
            print(f"KNOWN-FINDING: property={a.id} {kf['id']}: {kf['what']}")

    wall = round(time.time() - t0, 2)
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": a.id, "tier": a.tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": distinct,
                "rule": module.RULE, "samples": samples[:24], "per_part": per,
                "generated_including_rejected_and_shrinking": attempts,
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": wall, "violations": len(violations),
        }
        with open(os.path.join(VERIF, "evidence", f"{a.id}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for name, d in per.items():
        extra = " BUDGET" if d.get("budget_stopped") else ""
        print(f"{a.id} {name}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial{extra}")
    print(f"{a.id} tier={a.tier} seed={seed}: {evals} evaluations, {distinct} distinct non-trivial, {wall} s")
    for path in violations:
        print(f"VIOLATION property={a.id} replay={path}")
    if violations:
        return 1
    if errors:
        for e in errors:
            print("ERROR", e, file=sys.stderr)
        return 2
    return 0


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    data = json.load(open(path))
    return [k for k in data.get("known", []) if k["property"] == pid]
