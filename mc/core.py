"""Runner shared by all the checks.

A check module defines

  PROP        id of the property
  LEVEL       level reported in the evidence
  JIT         whether numba compiles the code under test, or leaves it interpreted
  RULE        how cases are made and what makes one non-trivial
  ASSUMPTIONS list of str
  explore(run)   drives the exploration with ``run.map(fn, items)``
  replay(case)   runs one recorded case again, returns the list of problems (str)

Work functions are module-level functions ``fn(item) -> Result``.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from collections import Counter

from mc import env


class Result:
    """What a work function reports."""

    def __init__(self):
        self.n = Counter()  # counters: evaluations, states, transitions, traces, ...
        self.outcomes = set()  # hashes of distinct non-trivial cases
        self.samples = []
        self.violations = []  # (description, case)
        self.new = []  # free use by explore()

    def case(self, key=None, nontrivial=True):
        self.n["evaluations"] += 1
        if nontrivial and key is not None:
            self.outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def bad(self, what, case):
        if len(self.violations) < 20:
            self.violations.append((str(what)[:2000], case))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)


class CaseTimeout(BaseException):
    pass


class time_limit:
    """Bound one case in time (a change may loop for ever)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise CaseTimeout()

        self.old = signal.signal(signal.SIGALRM, handler)
        signal.alarm(self.seconds)

    def __exit__(self, *exc):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        return False


_WORK = None


def _call(arg):
    idx, fn, item = arg
    try:
        return idx, fn(item), None
    except BaseException:  # reported as an error of the machinery
        return idx, None, traceback.format_exc()


class Hang(Exception):
    pass


class Run:
    def __init__(self, mod, tier, seed):
        self.mod = mod
        self.tier = tier
        self.seed = seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", 600 if self.quick else 3300))
        self.n = Counter()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.capped = None
        self.notes = {}
        self.workers = int(os.environ.get("VERIF_WORKERS", 0)) or min(8, os.cpu_count() or 1)
        self.pool = None

    def left(self):
        return self.budget - (time.time() - self.t0)

    def absorb(self, res):
        self.n.update(res.n)
        self.outcomes |= res.outcomes
        if len(self.samples) < 6:
            self.samples.extend(res.samples)
        for v in res.violations:
            self.violations.append(v)

    def stop(self):
        return len(self.unknown()) >= 3

    def unknown(self):
        return [v for v in self.violations if not match_known(self.mod.PROP, v)]

    def map(self, fn, items):
        """Run ``fn`` over items on all cores, yield the results as they come."""
        items = list(items)
        if not items:
            return
        if self.pool is None:
            ctx = mp.get_context("fork")
            self.pool = ctx.Pool(self.workers)
        it = self.pool.imap_unordered(_call, ((i, fn, item) for i, item in enumerate(items)))
        done = 0
        while done < len(items):
            try:
                idx, res, err = it.next(timeout=min(300.0, max(1.0, self.left())))
            except mp.TimeoutError:
                if self.left() > 1.0:
                    raise Hang(f"no case finished within 300 s in {fn.__name__}")
                self.capped = f"time budget of {self.budget} s hit in {fn.__name__}: {done}/{len(items)} items done"
                self.close()
                return
            done += 1
            if err is not None:
                # The code under test raises where it never does when it is right.
                self.violations.append((f"unexpected exception in {fn.__name__}:\n{err}", {"error": err.strip().splitlines()[-1], "fn": fn.__name__, "item": repr(items[idx])[:2000]}))
                yield Result()
                if self.stop():
                    self.capped = "stopped after violations"
                    self.close()
                    return
                continue
            self.absorb(res)
            yield res
            if self.stop():
                self.capped = "stopped after violations"
                self.close()
                return
            if self.left() < 0:
                self.capped = f"time budget of {self.budget} s hit in {fn.__name__}: {done}/{len(items)} items done"
                self.close()
                return

    def run_all(self, fn, items):
        for _ in self.map(fn, items):
            pass

    def close(self):
        if self.pool is not None:
            self.pool.terminate()
            self.pool.join()
            self.pool = None


def known_findings():
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def match_known(prop, violation):
    what, case = violation
    sig = case.get("sig") if isinstance(case, dict) else None
    for k in known_findings():
        if k.get("status") == "known" and k["property"] == prop and sig is not None and k.get("sig") == sig:
            return k
    return None


def write_replay(prop, i, what, case):
    d = os.path.join(env.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{i}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "what": what, "case": case,
                   "how": f"cd /verif && ./check {prop} --replay {path}"}, f, indent=1, default=str)
    return path


def main(mod, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rec = json.load(f)
        problems = mod.replay(rec["case"])
        for p in problems:
            print("reproduced:", p)
        print("no problem on replay" if not problems else f"{len(problems)} problem(s)")
        return 1 if problems else 0
    run = Run(mod, tier, seed)
    evpath = os.path.join(env.VERIF, "evidence", f"{mod.PROP}.json")
    os.makedirs(os.path.dirname(evpath), exist_ok=True)
    if os.path.exists(evpath):
        os.remove(evpath)
    try:
        mod.explore(run)
    except Hang as e:
        run.violations.append((f"does not terminate: {e}", {"hang": str(e)}))
        run.capped = "hang"
    finally:
        run.close()
    unknown = run.unknown()
    seen = set()
    for v in run.violations:
        k = match_known(mod.PROP, v)
        if k and k["sig"] not in seen:
            seen.add(k["sig"])
            print(f"KNOWN-FINDING: property={mod.PROP} {k['what']}")
    coverage = {
        "evaluations": int(run.n.get("evaluations", 0)),
        "distinct_nontrivial": len(run.outcomes),
        "rule": mod.RULE,
        "samples": run.samples[:6] or ["none"],
        "exhaustive": run.capped is None,
    }
    if run.capped:
        coverage["cap"] = run.capped
    for k, v in sorted(run.n.items()):
        if k != "evaluations":
            coverage[k] = int(v)
    coverage.update(run.notes)
    ev = {
        "property": mod.PROP,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - run.t0, 2),
        "violations": len(unknown),
    }
    with open(evpath, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{mod.PROP} {tier}: evaluations={coverage['evaluations']} distinct={len(run.outcomes)} "
          + " ".join(f"{k}={v}" for k, v in sorted(run.n.items()) if k != "evaluations")
          + f" exhaustive={coverage['exhaustive']} wall={ev['wall_s']}s")
    if unknown:
        for i, (what, case) in enumerate(unknown[:5]):
            path = write_replay(mod.PROP, i, what, case)
            print("  " + what.replace("\n", "\n  ")[:1500])
            print(f"VIOLATION property={mod.PROP} replay={path}")
        return 1
    return 0
