"""C21: parallel aggregation gives the sequential result for every interleaving.

The real AggStream runs its real threads under a cooperative scheduler (``mc.sched``): one thread runs at a time and
control moves at chosen source lines of oups and of the sorted set it uses. Every schedule with one preemption at any
line, and every schedule with two (three) preemptions at the lines touching what threads share, is run and compared
with the sequential execution: catalogue, data and metadata of every key, and a later run on the same stream.
"""
import itertools
import json
import multiprocessing
import os
import shutil

from mc import env, sched

sched.install()
multiprocessing.cpu_count = lambda: 8  # number of threads used by the code under test does not depend on the machine

import pandas as pd
import sortedcontainers
from joblib import parallel_config, register_parallel_backend

from mc import store_lib as sl
from mc import stream_lib as st
from mc.core import CaseTimeout, Result, time_limit
from oups import ParquetSet

register_parallel_backend("verif-sched", sched.backend_class())
parallel_config(backend="verif-sched")

PROP = "C21"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "stateless exploration of thread interleavings of the real code under a controlled scheduler, preemption-bounded; sequential run as oracle"
RULE = ("one case = one schedule (order of threads, and lines at which control moves to which thread) of one configuration; non-trivial: at least "
        "one preemption happened")
NOTE = ("All schedules with 1 preemption at any line of oups, and with 2 (thorough: 3 at final write) preemptions at lines naming shared objects or mutable globals. "
        "Switches happen between source lines: a bytecode-level race within one line, or inside compiled libraries, is not reached.")
ASSUMPTIONS = ["threads switch between source lines of oups and sortedcontainers only", "aggregation kernels (compiled, holding the interpreter lock) are atomic",
               "interactions are through objects given to several threads or module-level objects (for more than one preemption)"]

FILES = {"dirs": (os.path.join(os.path.realpath(env.REPO), "oups") + "/", os.path.join(env.REPO, "oups") + "/", sortedcontainers.__path__[0] + "/"),
         "not": ("jcumsegagg.py", "defines.py")}

SEQ = (0, 1, 2, 6, 7, 8)
CONFIGS = {
    # Two keys, created.
    "create": {"seq": SEQ, "chunks": [[0, 4]], "parallel": True,
               "keys": [{"key": "c", "bin": st.T(), "write": {"metadata": {"who": "c"}}}, {"key": "b", "bin": st.T(3)}]},
    # Two keys, updated with row groups rewritten; each its metadata.
    "update": {"seq": SEQ, "prior": 4, "chunks": [[3, 5]], "parallel": True,
               "keys": [{"key": "b", "bin": st.T(), "write": {"max_row_group_size": 2, "metadata": {"who": "b"}}, "post": "log"},
                        {"key": "c", "bin": st.T(3), "write": {"max_row_group_size": 1, "max_nirgs": 0, "metadata": {"who": "c"}}, "post": "log"}]},
    # Three keys, among which a pair, all new, with results written by intermediate flushes.
    "pair": {"seq": SEQ, "chunks": [[0, 2], [2, 4], [4, 6]], "parallel": True,
             "keys": [{"key": "d", "bin": st.T(1), "mem": 0}, {"key": ["e", "a"], "bin": st.T(2), "snap": st.snap(1), "mem": 0},
                      {"key": "c", "bin": st.T(3), "mem": 0}]},
    # Keys binned on different columns, with different aggregations, and empty bins at different places.
    "mixed": {"seq": (0, 1, 5, 7), "chunks": [[0, 4]], "parallel": True,
              "keys": [{"key": "c", "bin": st.T(), "agg": {"n": ("i", "sum"), "z": ("f", "first")}},
                       {"key": "b", "bin": st.T(2, origin="2020-01-01 00:30", label="right"), "agg": {"m": ("f", "last"), "n": ("i", "max")}},
                       {"key": "d", "bin": {"kind": "rows", "x": 2}, "bin_on": ["i", "t"]}]},
    # Filters: two keys in a filter, one key without any result; final write in parallel even if 'parallel' is not set.
    "filters": {"seq": SEQ, "chunks": [[0, 6]], "parallel": False, "filters": {"f": [[["i", "<", 10]]], "g": [[["i", ">", 1000]]]},
                "keep": {"f": [0, 1, 2, 3], "g": []},
                "keys": [{"key": "c", "bin": st.T(), "filter": "f"}, {"key": "b", "bin": st.T(2, closed="right"), "filter": "g"},
                         {"key": "d", "bin": st.T(3), "filter": "_"}]},
    # Four keys, all created: additions to the catalogue.
    "four": {"seq": (0, 1, 2), "chunks": [[0, 3]], "parallel": False,
             "keys": [{"key": n, "bin": st.T()} for n in ("d", "b", "c", "a")]},
}
sched.watch(FILES["dirs"], FILES["not"])
_TEMPLATES = {}


def config(name):
    c = dict(CONFIGS[name])
    c["keys"] = [{"mem": None, **kc} for kc in c["keys"]]
    return c


def template(name):
    """Directory before the run which is explored."""
    if name not in _TEMPLATES:
        c = config(name)
        base = sl.tmpdir()
        if c.get("prior"):
            df, on = st.seed_frame(c)
            sched.CURRENT = None
            st.make(ParquetSet(base, st.K), c).agg(df.iloc[: c["prior"]], trim_start=True, discard_last=True)
        _TEMPLATES[name] = base
    return _TEMPLATES[name]


def observe(store, base):
    """Everything a user can see: catalogue (in memory and reopened), data, metadata."""
    out = {"iter": [k.name for k in store], "len": len(store), "in": sorted(n for n in "abcde" if st.K(n) in store)}
    again = ParquetSet(base, st.K)
    out["reopened"] = [k.name for k in again]
    for n in out["reopened"]:
        h = again[st.K(n)]
        df = h.pdf if h.pf.row_groups else pd.DataFrame()
        out[n] = [list(df.columns), sl.rows(df), len(h.pf.row_groups), {k: v for k, v in sorted(h.metadata.items()) if k != "pandas"}]
    return json.loads(json.dumps(out, default=str))


def execute(name, order, switches, only_shared, record=False, later=True):
    """Run one schedule. Returns (problems, observation, scheduler)."""
    c = config(name)
    df, on = st.seed_frame(c)
    base = sl.tmpdir()
    s = None
    try:
        with time_limit(120):
            shutil.copytree(template(name), base, dirs_exist_ok=True)
            store = ParquetSet(base, st.K)
            stream = st.make(store, c)
            if order is not None:
                s = sched.Sched(order=order, switches=[tuple(x) for x in switches], record=record)
                if only_shared:
                    s.only = sched.shared_lines(lambda o: id(o) in s.shared)
            sched.CURRENT = s
            try:
                seed = [df.iloc[a:b].reset_index(drop=True) for a, b in c["chunks"]]
                copies = [x.copy() for x in seed]
                stream.agg(seed, trim_start=bool(c.get("prior")), discard_last=False)
            finally:
                sched.CURRENT = None
            problems = []
            if s is not None and not all(x.equals(y) for x, y in zip(seed, copies)):
                problems.append("seed modified")
            obs = observe(store, base)
            if later:
                # What follows is the same as well: nothing is left pending.
                last = c["chunks"][-1][1]
                more = df.iloc[-1:].assign(t=df["t"].iloc[-1] + pd.Timedelta("10h"), i=[2 ** 20])
                stream.agg(more)
                obs["later"] = observe(store, base)
            return problems, obs, s
    except CaseTimeout:
        return ["does not terminate (120 s)"], None, s
    except Exception as e:
        return [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''}"], None, s
    finally:
        sched.CURRENT = None
        sl.drop(base)


_REF = {}


def reference(name):
    """Observation of the sequential execution, itself checked against the reference aggregation."""
    if name not in _REF:
        problems, obs, _ = execute(name, None, (), False)
        if not problems:
            c = config(name)
            df, on = st.seed_frame(c)
            base = sl.tmpdir()
            try:
                shutil.copytree(template(name), base, dirs_exist_ok=True)
                seed = [df.iloc[a:b].reset_index(drop=True) for a, b in c["chunks"]]
                st.make(ParquetSet(base, st.K), c).agg(seed, trim_start=bool(c.get("prior")), discard_last=False)
                n = c["chunks"][-1][1]
                keep = c.get("keep", {})
                problems = st.compare(base, c, on, lambda kc: [r for r in range(n) if r in keep.get(kc.get("filter"), range(n))], "sequential run: ")
            except Exception as e:
                problems = [f"sequential run raised {type(e).__name__}: {e}"]
            finally:
                sl.drop(base)
        _REF[name] = problems, obs
    return _REF[name]


def differences(ref, obs):
    out = []
    if "later" not in obs:
        ref = {k: v for k, v in ref.items() if k != "later"}
    for k in sorted(set(ref) | set(obs)):
        if ref.get(k) != obs.get(k):
            out.append(f"{k}: {str(obs.get(k))[:300]} instead of {str(ref.get(k))[:300]}")
    return out


def run_schedule(name, order, switches, only_shared, later=True):
    problems, ref = reference(name)
    if problems:
        return problems, None
    problems, obs, s = execute(name, order, switches, only_shared, later=later)
    if not problems:
        problems = [f"not as in a sequential run: {d}" for d in differences(ref, obs)]
    return problems, s


def measure(item):
    """Number of points of a configuration under an order (no preemption)."""
    name, order, only_shared = item
    res = Result()
    problems, s = run_schedule(name, order, [], only_shared)
    res.n["schedules"] += 1
    res.case(("order", name, order, only_shared), nontrivial=False)
    for p in problems:
        res.bad(f"{p} for {name}, order {order}", {"config": name, "order": order, "switches": [], "shared": only_shared})
    if s is not None:
        res.new.append((name, order, only_shared, s.point, list(s.starts), list(s.sections)))
    return res


def work(items):
    res = Result()
    for name, order, switches, only_shared in items:
        # What follows is looked at after schedules with one preemption.
        problems, s = run_schedule(name, order, switches, only_shared, later=len(switches) == 1)
        res.n["schedules"] += 1
        res.n["traces_validated_against_impl"] += 1
        if s is not None:
            res.n["transitions"] += s.point
            res.n["preemptions"] += s.taken
            res.n["uncontrolled"] += s.free
        res.case((name, order, switches, only_shared), nontrivial=s is not None and s.taken > 0)
        for p in problems:
            res.bad(f"{p} for {name}, order {order}, switches {switches} ({'shared' if only_shared else 'all'} lines)",
                    {"config": name, "order": list(order), "switches": [list(x) for x in switches], "shared": only_shared})
        if not problems and len(switches) > 1:
            res.sample({"config": name, "order": list(order), "switches": [list(x) for x in switches]})
    return res


def replay(c):
    return run_schedule(c["config"], c["order"], [tuple(x) for x in c["switches"]], c["shared"])[0]


def orders(n, every):
    perms = list(itertools.permutations(range(n)))
    return perms if every else [perms[0], perms[-1]]


def schedules(found, quick):
    for name, order, only_shared, points, starts, sections in found:
        n = max(sections)
        first = order == tuple(range(n))
        targets = range(n - 1)
        if not only_shared:
            # One preemption, at any line (of the final write only when quick).
            for k in range(starts[-1] if quick else 0, points):
                if quick and (not first or name == "pair" or name != "create" and k % 3):
                    continue
                for t in targets if not quick else [k % (n - 1)]:
                    yield name, order, ((k, t),), False
            continue
        # One preemption at shared lines.
        for k in range(points):
            for t in targets if not quick else [k % (n - 1)]:
                if quick and not first and k < starts[-1]:
                    continue
                yield name, order, ((k, t),), True
        # Two preemptions at shared lines: of the final write when quick.
        if quick:
            if not first or name not in ("create", "update"):
                continue
            for a, b in itertools.combinations(range(starts[-1], points), 2):
                if (a + b) % (2 if name == "create" else 4) == 0:
                    yield name, order, ((a, 0), (b, 0)), True
            continue
        lo = starts[-1] if name == "pair" else 0
        if n > 2 and not first:
            continue
        for a, b in itertools.combinations(range(lo, points), 2):
            for t in [(0, 0)] if n == 2 else [(0, 0), (0, 1), (1, 0), (1, 1)]:
                yield name, order, ((a, t[0]), (b, t[1])), True
        # Three at final write.
        if name == "create" and first:
            for x in itertools.combinations(range(starts[-1], points), 3):
                if sum(x) % 2 == 0:
                    yield name, order, tuple((k, 0) for k in x), True


def explore(run):
    items = []
    for name, c in CONFIGS.items():
        n = len(c["keys"])
        for order in orders(n, not run.quick and n < 4):
            for only_shared in (False, True):
                items.append((name, order, only_shared))
    found = []
    for res in run.map(measure, items):
        found += res.new
    if run.stop() or len(found) < len(items):
        return
    found.sort()
    run.notes["lines per execution"] = {f"{n} {o} {'shared' if s else 'all'}": p for n, o, s, p, _, _ in found}
    every = sorted(schedules(found, run.quick), key=lambda x: len(x[2]))
    run.notes["bounds"] = {"preemptions": "1 at any line; 2 at shared lines" + ("" if run.quick else "; 3 at shared lines of the final write"), "keys": "2..4"}
    m = min(len(every), 600)
    if m:
        run.run_all(work, [every[k::m] for k in range(m)])
