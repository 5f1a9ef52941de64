"""C09: metadata of a dataset follows its update rule and stays its own.

State space search to a fixpoint: a state is the metadata (user's and application's) of the datasets
of a store, a transition is one real write. Oracle: dictionary update rule.
"""
import os

import numpy as np
import pandas as pd

from mc import faults
from mc import store_lib as sl
from mc.store_lib import Key
from oups.store import writer

PROP = "C09"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "explicit-state search to a fixpoint over metadata states, real writes as transitions, dictionary update rule as oracle"
RULE = ("one case = one real write (kind of data update, metadata given, application metadata pending, key) on a distinct "
        "metadata state; non-trivial: every case")
NOTE = ("All metadata states reachable with the menu are visited (fixpoint for one dataset), each meeting every operation; "
        "read back through a store opened anew.")
ASSUMPTIONS = ["user metadata keys and values are strings (None to remove)", "one thread"]

KEYS = [Key("d"), Key("e")]
STAMP = pd.Timestamp("2020-01-01 03:00")
# User metadata given with a write.
MD = [None, {"a": "1"}, {"a": ""}, {"b": "x", "a": None}, {}, {"a": "2", "b": None}, {"nokey": None}]
# Application metadata pending for the key written.
APP = [None, {"r": 0}, {"r": STAMP, "s": ""}, {"r": None}, {"s": None, "q": {"k": [False, None, 1.5]}}, {"q": None, "r": -1}, {"none": None},
       {"q": {"m": 2}}]
KINDS = ["append", "merge", "before", "coalesce", "empty", "vaex", "nocols"]


def data(kind):
    cols = {"n": "int64", "v": "float64"}
    vals = {"append": [7], "merge": [4, 5], "before": [0], "coalesce": [9], "empty": [], "vaex": [6], "create": [2, 4, 6]}.get(kind)
    if kind == "nocols":
        return pd.DataFrame()
    return pd.DataFrame({"n": vals, "v": [v / 2 for v in vals]}).astype(cols)


KW = {"append": {}, "merge": {"ordered_on": "n", "duplicates_on": "n", "max_row_group_size": 2}, "before": {"ordered_on": "n"},
      "coalesce": {"max_row_group_size": 3, "max_nirgs": 1}, "empty": {}, "vaex": {"ordered_on": "n", "duplicates_on": []}, "create": {"max_row_group_size": 2},
      "nocols": {}}


def read(base):
    store = sl.store_at(base)
    out = []
    for key in KEYS:
        if key not in store:
            out.append(None)
            continue
        h = store[key]
        md = {k: v for k, v in h.metadata.items() if k not in ("pandas", writer.OUPS_METADATA_KEY)}
        out.append((md, h._oups_metadata or {}))
    return out


def update(md, new):
    md = dict(md)
    for k, v in (new or {}).items():
        if v is None:
            md.pop(k, None)
        else:
            md[k] = v
    return md


def same(a, b):
    """Equality with types."""
    return repr(a) == repr(b) and a == b


def step(base, op):
    writer.OUPS_METADATA.clear()
    before = read(base)
    k = op["k"]
    key = KEYS[k]
    store = sl.store_at(base)
    kind = op["kind"] if before[k] is not None or op["kind"] in ("empty", "nocols") else "create"
    if before[k] is not None and op["kind"] != "nocols" and "n" not in store[key].pf.columns:
        # Created without columns: nothing but metadata can be written.
        return [], None, None
    kw = dict(KW[kind])
    if before[k] is not None and not len(store[key].pf.row_groups):
        kw = {"max_row_group_size": 2}
    md = None if op["md"] is None else dict(op["md"])
    if md is not None:
        kw["metadata"] = md
    expected = list(before)
    app = APP[op["app"]]
    if app is not None:
        writer.OUPS_METADATA[key] = dict(app)
    other = {"r": "other", "o": 1}
    if op.get("pending_other"):
        writer.OUPS_METADATA[KEYS[1 - k]] = dict(other)
    df = data(kind)
    problems = []
    if op.get("fail"):
        # A failing write, metadata given and pending: no dataset gets anything.
        if op["fail"] == "arg":
            e = sl.attempt(store.set, key, df, **{**kw, "ordered_on": "nope"})
        else:
            with faults.Faults(faults.new_data_file(base), ("torn", 0, 9)) as f:
                e = sl.attempt(store.set, key, sl.to_input(df, "vaex" if kind == "vaex" else "pandas"), **kw)
            if not f.fired:
                return [], None, None
        if e is None:
            problems.append("write did not fail")
        writer.OUPS_METADATA.pop(key, None)
        if op.get("then_other"):
            # Same metadata dict, used for the other dataset.
            store.set(KEYS[1 - k], data("create"), **({"metadata": md} if md is not None else {}))
            b = before[1 - k] or ({}, {})
            expected[1 - k] = (update(b[0], op["md"]), b[1])
    else:
        e = sl.attempt(store.set, key, sl.to_input(df, "vaex" if kind == "vaex" else "pandas"), **kw)
        if e is not None:
            return [f"write raised {type(e).__name__}: {e}, {op}, metadata before {before}"], None, None
        b = before[k] or ({}, {})
        expected[k] = (update(b[0], op["md"]), update(b[1], app))
        if key in writer.OUPS_METADATA:
            problems.append("application metadata still pending after the write")
        if op.get("then_other"):
            e = sl.attempt(store.set, KEYS[1 - k], data("create"), **({"metadata": md} if md is not None else {}))
            if e is not None:
                return [f"write raised {type(e).__name__}: {e}, {op}"], None, None
            b = before[1 - k] or ({}, {})
            add = other if op.get("pending_other") else None
            expected[1 - k] = (update(b[0], op["md"]), update(b[1], add))
    if op.get("pending_other") and not op.get("then_other"):
        if writer.OUPS_METADATA.pop(KEYS[1 - k], None) != other:
            problems.append("metadata pending for the other key changed")
    if writer.OUPS_METADATA:
        problems.append(f"metadata still pending: {writer.OUPS_METADATA}")
    writer.OUPS_METADATA.clear()
    got = read(base)
    for i in range(2):
        if (got[i] is None) != (expected[i] is None):
            problems.append(f"dataset {i}: metadata {got[i]}, expected {expected[i]}")
        elif got[i] is not None and (sorted(got[i][0].items()) != sorted(expected[i][0].items())
                                     or not same(sorted(got[i][1].items()), sorted(expected[i][1].items()))):
            problems.append(f"dataset {i}: metadata {got[i]}, expected {expected[i]}")
    # Live store gives the same.
    if key in store and not op.get("fail"):
        h = store[key]
        if not same(sorted((h._oups_metadata or {}).items()), sorted(got[k][1].items())):
            problems.append("metadata read through the live store differ")
    rg = tuple(None if KEYS[i] not in store else (min(len(store[KEYS[i]].pf.row_groups), 1), len(store[KEYS[i]].pf.columns)) for i in range(2))
    # Content of a dataset is not part of the state, its existence is.
    canon = (repr([g and (sorted(g[0].items()), sorted(g[1].items())) for g in got]), rg)
    return [p + f", after {op}, metadata before {before}" for p in problems], canon, "md"


work_ = sl.make_work(step)


def work(item):
    return work_(item)


replay = sl.make_replay(step)


def explore(run):
    q = run.quick
    # One dataset, to a fixpoint.
    kinds = KINDS
    ops = []
    for ki, kind in enumerate(kinds):
        for mi, md in enumerate(MD):
            for ai in range(len(APP)):
                if q and kind in ("append", "before", "vaex", "nocols") and (ki + mi + ai) % 3:
                    continue
                if q and kind in ("coalesce", "empty") and (ki + mi + ai) % 2:
                    continue
                ops.append({"k": 0, "kind": kind, "md": md, "app": ai})
    ops += [{"k": 0, "kind": kind, "md": {"a": "9", "f": "f"}, "app": 1, "fail": f} for kind in ("merge", "append") for f in ("arg", "io")]
    levels = []

    def menu(level):
        levels.append(level)
        if level == 0:
            return [o for o in ops if o["kind"] in ("merge", "empty", "nocols")]
        return ops

    sl.bfs(run, work, 3 if q else 8, menu)
    if run.pool is None:
        return
    # Two datasets: interleaved keys, dict given twice, metadata pending for one while writing the other.
    md2 = [None, {"a": "1"}, {"a": None, "b": "x"}]

    def menu2(level):
        out = []
        for k in (0, 1):
            for kind in ("merge", "empty") if q else ("merge", "append", "empty", "vaex"):
                for md in md2:
                    for app in (0, 2, 3):
                        for extra in ({}, {"pending_other": 1}, {"then_other": 1}, {"then_other": 1, "pending_other": 1}, {"fail": "arg", "then_other": 1}, {"fail": "io"}):
                            if q and app == 3 and extra:
                                continue
                            out.append({"k": k, "kind": kind, "md": md, "app": app, **extra})
        return out if level else out[: len(out) // 2]

    sl.bfs(run, work, 2 if q else 4, menu2)
