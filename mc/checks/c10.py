"""C10: a rejected or failing write leaves the stored dataset as it was.

Fault enumeration: on each dataset state, each write is first run without fault to count the files
it opens; it is then run again once per (file, kind of fault). After the failure, everything stored
is compared with what it was; then a valid write is made and compared with the same write on a
twin that never saw the failure.
"""
import os

import pandas as pd

from mc import faults
from mc import store_lib as sl
from mc.core import CaseTimeout, Result, time_limit
from mc.store_lib import Key
from oups.store import writer

PROP = "C10"
LEVEL = "fault_enumeration"
JIT = False
TECHNIQUE = "exhaustive fault injection (every file opened, torn at several lengths) and invalid-argument enumeration on enumerated states, twin run as oracle"
RULE = ("one case = one failing write (state, write, k-th file opened, kind of fault, or invalid argument) followed by one valid "
        "write; non-trivial: the fault fired and the write raised")
NOTE = ("Faults are injected below the code: an audit hook refuses the k-th open, or the kernel's file size limit cuts the data written "
        "(EFBIG). Every data file written, and every file read, of every write of the menu is failed in turn.")
ASSUMPTIONS = ["failures while metadata files are written, or recorded files removed or renamed, are not covered: these steps are not atomic in fastparquet",
               "the process survives the failure"]

A, B, F = Key("d"), Key("e"), Key("f")


def frame(vals, first):
    return pd.DataFrame({"a": pd.Series(list(vals), dtype="int64"), "b": pd.Series(range(first, first + len(vals)), dtype="int64"),
                         "s": pd.Series(["s%d" % v for v in vals], dtype=object)})


STATES = {
    "two": [(A, [2, 4, 6, 8], {"max_row_group_size": 2, "metadata": {"m": "1"}})],
    "three": [(A, [2, 4, 6, 8, 10, 12], {"max_row_group_size": 2}), (A, [13], {"metadata": {"n": "2"}})],
    "one": [(A, [4], {})],
    "tail": [(A, [2, 4, 6, 8], {"max_row_group_size": 4}), (A, [9], {}), (A, [10], {})],
    "merged": [(A, [2, 4, 6, 8], {"max_row_group_size": 2}), (A, [5], {"ordered_on": "a", "max_row_group_size": 2})],
    "empty": [],
}
WRITES = {
    "append": ([20], {}),
    "append many": ([20, 21, 22, 23, 24], {"max_row_group_size": 2}),
    "tail": ([8, 20], {"ordered_on": "a", "max_row_group_size": 2}),
    "middle": ([4, 5], {"ordered_on": "a", "max_row_group_size": 2, "metadata": {"m": "new"}}),
    "wide": ([1, 30], {"ordered_on": "a", "max_row_group_size": 3}),
    "before": ([0, 1], {"ordered_on": "a", "max_row_group_size": 1}),
    "between": ([7, 7], {"ordered_on": "a", "max_row_group_size": 1}),
    "coalesce": ([20], {"max_row_group_size": 4, "max_nirgs": 1}),
    "coalesce many": ([20, 21, 22], {"max_row_group_size": 3, "max_nirgs": 0, "ordered_on": "a"}),
    "duplicates": ([4, 6, 8], {"ordered_on": "a", "duplicates_on": "a", "max_row_group_size": 2}),
}
# name: arguments changing a write, and whether an exception is compulsory
# ("stored": when the target dataset has rows).
INVALID = {
    "ordered_on unknown": ({"ordered_on": "zz"}, True),
    "ordered_on tuple": ({"ordered_on": ("a", "b")}, True),
    "duplicates without ordering": ({"duplicates_on": "a", "ordered_on": None}, "stored"),
    "duplicates list without ordering": ({"duplicates_on": [], "ordered_on": None}, "stored"),
    "duplicates unknown": ({"duplicates_on": "zz", "ordered_on": "a"}, None),
    "unknown argument": ({"nope": 1}, True),
    "bad compression": ({"compression": "NOPE"}, None),
    "bad metadata": ({"metadata": {"x": 5}}, None),
}
BAD_DATA = {
    "list": lambda df: df.to_dict("list"),
    "series": lambda df: df["a"],
    "none": lambda df: None,
    "missing column": lambda df: df.drop(columns="s"),
    "extra column": lambda df: df.assign(x=1),
    "other columns": lambda df: df.rename(columns={"s": "t"}),
    "other type": lambda df: df.assign(s=[{"x": object()}] * len(df)),
    "string in int": lambda df: df.assign(b=["x"] * len(df)),
}
BAD_KEY = {"string": lambda k: k.to_path, "other class": lambda k: type("K", (), {"to_path": "d"})(), "none": lambda k: None}


def snap(base, store=None):
    """All that can be read of a store."""
    store = sl.store_at(base) if store is None else store
    out = {}
    for key in store:
        d = sl.dir_of(base, key)
        h = store[key]
        md = {k: v for k, v in h.metadata.items() if k not in ("pandas", "oups")}
        md["oups"] = repr(h._oups_metadata)
        out[key.to_path] = (sl.rg_rows(d, ["a", "b", "s"]), md, sl.rows(h.pdf), [str(t) for t in h.pdf.dtypes], len(h.vdf) if len(h.pf.row_groups) else 0)
    return out


def build(state):
    base = sl.tmpdir()
    store = sl.store_at(base)
    n = 0
    for key, vals, kw in STATES[state]:
        store[key] = (dict(kw), frame(vals, n))
        n += len(vals)
        if n == 4:
            writer.OUPS_METADATA[A] = {"x": 0}
            store[A] = frame([], 0)
    store[B] = ({"metadata": {"own": "b"}, "max_row_group_size": 1}, frame([3, 5], 100))
    return base


def data_of(name, target, inp):
    vals, kw = WRITES[name]
    df = frame(vals, 50)
    return sl.to_input(df, inp), dict(kw)


def all_opens(base):
    def select(path, writing):
        if not os.path.abspath(path).startswith(base):
            return False
        return path.endswith(".parquet") or not writing
    return select


def fail(store, base, target, op):
    """Make the failing write. Returns (fired, exception, problems)."""
    if op[0] == "fault":
        _, name, inp, plan, sel = op
        df, kw = data_of(name, target, inp)
        with faults.Faults(faults.new_data_file(base) if sel == "data" else all_opens(base), tuple(plan)) as f:
            e = sl.attempt(store.set, target, df, **kw)
        if f.fired and e is None and plan[0] == "open" and f.paths[plan[1]].endswith("_common_metadata"):
            return False, None, []
        if f.fired and e is None:
            return True, None, [f"no exception although {plan} happened on {os.path.basename(f.paths[plan[1]])}"]
        return f.fired, e, []
    if op[0] == "arg":
        _, name, bad = op
        df, kw = data_of(name, target, "pandas")
        extra, must = INVALID[bad]
        kw.update({k: v for k, v in extra.items() if v is not None})
        for k, v in extra.items():
            if v is None:
                kw.pop(k, None)
        stored = target in store and len(store[target].pf.row_groups) > 0
        e = sl.attempt(store.set, target, df, **kw)
        if e is None and (must is True or must == "stored" and stored):
            return True, None, [f"no exception for invalid argument: {bad}"]
        return e is not None, e, []
    if op[0] == "app":
        # Application metadata which cannot be serialized.
        _, name, bad = op
        df, kw = data_of(name, target, "pandas")
        writer.OUPS_METADATA[target] = {"x": 1, "y": lambda: 0}
        try:
            e = sl.attempt(store.set, target, df, **kw)
        finally:
            writer.OUPS_METADATA.clear()
        if e is None:
            return True, None, ["no exception for application metadata that cannot be serialized"]
        return True, e, []
    if op[0] == "data":
        _, name, bad = op
        df, kw = data_of(name, target, "pandas")
        e = sl.attempt(store.set, target, BAD_DATA[bad](df), **kw)
        if e is None and bad in ("list", "series", "none"):
            return True, None, [f"no exception for invalid data: {bad}"]
        return e is not None, e, []
    _, name, bad = op
    df, kw = data_of(name, target, "pandas")
    e = sl.attempt(store.set, BAD_KEY[bad](target), df, **kw)
    if e is None:
        return True, None, [f"no exception for invalid key: {bad}"]
    return True, e, []


def one(src, state, target, op, follow, twin_cache):
    """Failing write then valid write. Returns (fired, problems)."""
    base = sl.copy_state(src)
    try:
        store = sl.store_at(base)
        before = snap(base)
        fired, e, problems = fail(store, base, target, op)
        if problems or not fired:
            return fired, problems
        for name, s in (("live", store), ("reopened", sl.store_at(base))):
            try:
                got = snap(base, s)
            except Exception as x:
                return True, [f"{name} store unreadable after failed write: {type(x).__name__}: {x}"]
            if got != before:
                return True, [f"{name} store changed by failed write ({type(e).__name__}: {e}): {got}, was {before}"]
        name, inp = follow
        df, kw = data_of(name, target, inp)
        e = sl.attempt(store.set, target, df, **kw)
        if e is not None:
            problems.append(f"valid write ({name}) after failed one raised {type(e).__name__}: {e}")
            return True, problems
        if follow not in twin_cache:
            twin = sl.copy_state(src)
            df, kw = data_of(name, target, inp)
            sl.store_at(twin)[target] = (kw, df)
            twin_cache[follow] = snap(twin)
            sl.drop(twin)
        try:
            got = snap(base)
        except Exception as x:
            return True, [f"store unreadable after valid write ({name}) following failed one: {type(x).__name__}: {x}"]
        if got != twin_cache[follow]:
            problems.append(f"valid write ({name}) after failed one gives {got}, without failure {twin_cache[follow]}")
        return True, problems
    finally:
        sl.drop(base)


def opens(src, target, name, inp, sel):
    base = sl.copy_state(src)
    try:
        df, kw = data_of(name, target, inp)
        store = sl.store_at(base)
        with faults.Faults(faults.new_data_file(base) if sel == "data" else all_opens(base)) as f:
            e = sl.attempt(store.set, target, df, **kw)
        return f.count, e
    finally:
        sl.drop(base)


FOLLOW = [("same", None), ("append", "pandas"), ("wide", "pandas"), ("coalesce", "vaex")]


def work(item):
    state, tname, name, inp, q = item
    res = Result()
    target = {"d": A, "f": F}[tname]
    src = build(state)
    twin_cache = {}
    try:
        ops = []
        n, e = opens(src, target, name, inp, "data")
        if e is not None:
            res.bad(f"write {name} on {state} raised {type(e).__name__}: {e}", {"item": [state, tname, None, [name, inp]]})
            return res
        for k in range(n):
            for plan in [("open", k), ("torn", k, 0), ("torn", k, 4), ("torn", k, 60)] if q else [("open", k)] + [("torn", k, b) for b in (0, 1, 4, 5, 20, 60, 100, 150, 200, 250)]:
                ops.append(["fault", name, inp, list(plan), "data"])
        n, _ = opens(src, target, name, inp, "all")
        for k in range(n):
            ops.append(["fault", name, inp, ["open", k], "all"])
        if inp == "pandas":
            ops += [["arg", name, bad] for bad in INVALID] + [["data", name, bad] for bad in BAD_DATA] + [["key", name, bad] for bad in BAD_KEY] + [["app", name, "lambda"]]
        for i, op in enumerate(ops):
            follows = FOLLOW if not q or op[0] == "fault" and op[3][0] == "torn" and op[3][2] == 60 else FOLLOW[:1]
            for fo in follows:
                follow = (name, inp) if fo[0] == "same" else fo
                case = {"item": [state, tname, op, list(follow)]}
                try:
                    with time_limit(60):
                        fired, problems = one(src, state, target, op, follow, twin_cache)
                except CaseTimeout:
                    fired, problems = True, ["write does not terminate"]
                res.case((state, tname, op, follow), fired)
                res.n["faults_fired"] += fired
                for p in problems:
                    res.bad(f"{p} ({state}, {tname}, {op})", case)
                if not fired:
                    break
            if len(res.violations) > 3:
                break
        res.sample({"state": state, "target": tname, "write": name, "failures": len(ops)})
    finally:
        sl.drop(src)
    return res


def explore(run):
    items = []
    for state in STATES:
        for tname in ("d", "f"):
            if tname == "f" and state not in ("two",):
                continue
            for name in WRITES:
                for inp in ("pandas", "vaex"):
                    if run.quick and inp == "vaex" and name not in ("append many", "middle", "coalesce"):
                        continue
                    items.append((state, tname, name, inp, run.quick))
    items.sort(key=lambda t: -len(WRITES[t[2]][0]))
    run.run_all(work, items)


def replay(case):
    state, tname, op, follow = case["item"]
    src = build(state)
    try:
        target = {"d": A, "f": F}[tname]
        if op is None:
            return [str(opens(src, target, follow[0], follow[1], "data")[1])]
        return one(src, state, target, op, tuple(follow), {})[1]
    finally:
        sl.drop(src)
