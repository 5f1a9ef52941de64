"""C05: all readers of a dataset agree with each other and with the disk.

Breadth-first search over dataset states reached by real writes, completed or failing on a file
system fault; after each of them every reader is compared with the others.
"""
import os
import re

import numpy as np
import pandas as pd
from fastparquet import ParquetFile

from mc import faults
from mc import store_lib as sl

PROP = "C05"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "explicit-state breadth-first search over write histories with fault injection, cross-reader comparison at each state"
RULE = ("one case = one real write (append, merge, insertion, coalescing, empty, or failing at its k-th data file) on a "
        "distinct dataset state, then all readers compared; non-trivial: the dataset holds rows")
NOTE = ("pandas, vaex and fastparquet views, statistics, and directory listing are compared after every step of every "
        "history within the bounds. Trusts vaex and fastparquet to read the files they are given.")
ASSUMPTIONS = ["min_max compared on numeric and timestamp columns, nulls ignored (fastparquet gives no statistics for strings, nor for timestamps when a row group has none)",
               "files left by a failed write may stay in the directory; equality of files and metadata is required as long as no write failed"]
COLS = ["a", "f", "t", "s"]


def frame(vals, first, nulls=True):
    ids = range(first, first + len(vals))
    return pd.DataFrame({
        "a": pd.Series(list(vals), dtype="int64"),
        "f": pd.Series([np.nan if nulls and i % 3 == 0 else (v * 7 % 11) - i / 2 for i, v in zip(ids, vals)], dtype="float64"),
        "t": pd.Series([pd.NaT if nulls and i % 4 == 1 else pd.Timestamp("2020-01-01") + pd.Timedelta(days=(5 * i) % 13) for i in ids], dtype="datetime64[ns]"),
        "s": pd.Series([None if nulls and i % 5 == 2 else "s%d" % i for i in ids], dtype=object),
    })


def compare(base, failed):
    """All readers, through a store opened anew. Returns (problems, canonical state)."""
    store = sl.store_at(base)
    if sl.KEY not in store:
        return [], ("absent",)
    problems = []
    h = store[sl.KEY]
    d = h.dirpath
    pdf = h.pdf
    ref = sl.rows(pdf, COLS)
    pf = h.pf
    views = {"pf": pf.to_pandas(), "pf by row group": pd.concat([pf[i].to_pandas() for i in range(len(pf.row_groups))]) if len(pf.row_groups) else pf.to_pandas()}
    if len(pf.row_groups):
        vdf = h.vdf
        views["vdf"] = vdf.to_pandas_df()
        if len(vdf) != len(pdf):
            problems.append(f"vdf has {len(vdf)} rows, pdf has {len(pdf)}")
        if list(vdf.get_column_names()) != COLS:
            problems.append(f"columns in vdf: {vdf.get_column_names()}")
        vdf.close()
    for name, df in views.items():
        if list(df.columns) != COLS or sl.rows(df, COLS) != ref:
            problems.append(f"{name} and pdf differ: {sl.rows(df, COLS)} / {ref}")
    if pf.count() != len(pdf) or sum(rg.num_rows for rg in pf.row_groups) != len(pdf):
        problems.append(f"row count {pf.count()} in metadata, {len(pdf)} rows in pdf")
    # Data seen through the common handle of a second store object.
    for c in ("a", "f", "t"):
        vals = pdf[c].dropna()
        if len(vals):
            mm = store[sl.KEY].min_max(c)
            if c == "t" and any(pf[i].to_pandas()[c].isna().all() for i in range(len(pf.row_groups))):
                # fastparquet gives no statistics at all for this column.
                continue
            if len(mm) != 2 or pd.Timestamp(mm[0]) != pd.Timestamp(vals.min()) or pd.Timestamp(mm[1]) != pd.Timestamp(vals.max()) if c == "t" else tuple(float(x) for x in mm) != (float(vals.min()), float(vals.max())):
                problems.append(f"min_max({c}) is {mm}, column has {vals.min()}, {vals.max()}")
    listed = [os.path.basename(pf.row_group_filename(rg)) for rg in pf.row_groups]
    on_disk = sorted(f for f in os.listdir(d) if f not in ("_metadata", "_common_metadata"))
    if len(set(listed)) != len(listed):
        problems.append(f"a file is listed twice in metadata: {listed}")
    if set(listed) - set(on_disk):
        problems.append(f"files {set(listed) - set(on_disk)} listed in metadata are not on disk")
    if not failed and sorted(listed) != on_disk:
        problems.append(f"files on disk {on_disk} are not those in metadata {sorted(listed)}")
    for rg in pf.row_groups:
        name = os.path.basename(pf.row_group_filename(rg))
        own = ParquetFile(os.path.join(d, name))
        if sum(r.num_rows for r in own.row_groups) != rg.num_rows:
            problems.append(f"file {name} holds another number of rows than listed")
    return problems, (tuple(tuple(sl.rows(pf[i].to_pandas(), COLS)) for i in range(len(pf.row_groups))), failed and tuple(on_disk))


def step(base, op):
    flag = os.path.join(base, "failed.flag")
    failed = os.path.exists(flag)
    store = sl.store_at(base)
    n = 0
    before = held = None
    if sl.KEY in store:
        before = sl.rows(store[sl.KEY].pdf, COLS)
        n = len(before)
        # Handle used before the write, and after.
        held = store[sl.KEY]
        held.pf.to_pandas()
        held.min_max("a")
    if "big" in op:
        df = frame([2 * i for i in range(op["big"])], n)
    else:
        df = frame(op["v"], n)
    if "fault" in op:
        with faults.Faults(faults.new_data_file(base), tuple(op["fault"])) as f:
            e = sl.attempt(store.set, sl.KEY, sl.to_input(df, op["in"]), **op["kw"])
        if not f.fired:
            return [], None, None
        if e is None:
            return [f"no exception on I/O error, {op}"], None, None
        open(flag, "w").close()
        failed = True
    else:
        e = sl.attempt(store.set, sl.KEY, sl.to_input(df, op["in"]), **op["kw"])
        if e is not None:
            return [f"write raised {type(e).__name__}: {e}, {op}"], None, None
    try:
        problems, canon = compare(base, failed)
        # The store that made the write is to see the same thing.
        if sl.KEY in sl.store_at(base):
            if sl.KEY not in store:
                problems.append("store reopened has the key, the one which wrote has not")
            elif sl.rows(store[sl.KEY].pdf, COLS) != sl.rows(sl.store_at(base)[sl.KEY].pdf, COLS):
                problems.append("store reopened reads something else")
        if held is not None and len(held.pdf):
            ref = sl.rows(sl.store_at(base)[sl.KEY].pdf, COLS)
            vdf = held.vdf
            if sl.rows(held.pdf, COLS) != ref or sl.rows(vdf.to_pandas_df(), COLS) != ref:
                problems.append("handle obtained before the write: rows differ from those of a new one")
            vdf.close()
            if tuple(held.min_max("a")) != (min(r[0] for r in ref), max(r[0] for r in ref)):
                problems.append(f"handle obtained before the write: min_max(a) is {held.min_max('a')}")
        if "fault" not in op and not failed and canon != ("absent",):
            listed = sl.rg_files(sl.dir_of(base))
            nums = [int(re.search(r"(\d+)", f).group(1)) for f in listed]
            if nums != sorted(nums):
                problems.append(f"data files not numbered in row-group order: {listed}")
    except Exception as e:
        return [f"dataset not readable by all readers after {op}: {type(e).__name__}: {e}"], None, None
    return [p + f", after {op}" for p in problems], canon, ("rows" if canon != ("absent",) else None)


work_ = sl.make_work(step)


def work(item):
    return work_(item)


replay = sl.make_replay(step)


def ops_of(q, level):
    out = []
    if level == 0:
        return [{"v": [4, 5, 8, 9], "in": "pandas", "kw": {"max_row_group_size": 2}},
                {"v": [4, 6, 6, 8, 8, 8], "in": "vaex", "kw": {"max_row_group_size": 3}},
                {"v": [5], "in": "pandas", "kw": {}},
                {"v": [4, 5, 6], "in": "pandas", "kw": {"max_row_group_size": 1}, "fault": ["torn", 1, 10]}]
    kws = [{"max_row_group_size": 2}, {"max_row_group_size": 3, "max_nirgs": 1}, {"max_row_group_size": 2, "ordered_on": "a"},
           {"max_row_group_size": 4, "max_nirgs": 2, "ordered_on": "a"}, {"max_row_group_size": 2, "ordered_on": "a", "duplicates_on": "a"}]
    for kw in kws:
        for v in ([1], [6], [20, 21, 22], [5, 8], [6, 7], []):
            if "ordered_on" not in kw and v and v[0] != 20:
                continue
            if not v and kw is not kws[0]:
                continue
            out.append({"v": v, "in": "pandas", "kw": kw})
            if v and kw is not kws[0]:
                for fault in (["torn", 0, 10], ["open", 0]) if q else (["torn", 0, 10], ["torn", 0, 0], ["open", 0], ["open", 1], ["torn", 1, 200]):
                    out.append({"v": v, "in": "pandas", "kw": kw, "fault": fault})
    out.append({"v": [20, 21, 22], "in": "vaex", "kw": kws[3]})
    return out


def explore(run):
    q = run.quick
    # Datasets of more than ten row groups (file names sort differently from numbers).
    def fam1(level):
        if level == 0:
            return [{"big": 12, "in": i, "kw": {"max_row_group_size": 1}} for i in ("pandas", "vaex")]
        return [{"v": v, "in": "pandas", "kw": kw} for kw in ({"max_row_group_size": 1, "ordered_on": "a"}, {"max_row_group_size": 2, "max_nirgs": 3, "ordered_on": "a"},
                                                             {"max_row_group_size": 1})
                for v in ([30, 31], [1], [3, 7], [4], [-1], [18, 20], [21]) if v[0] > 25 or "ordered_on" in kw] + [
            {"v": [21], "in": "pandas", "kw": {"max_row_group_size": 1, "ordered_on": "a"}, "fault": ["torn", 0, 4]}]

    sl.bfs(run, work, 2 if q else 3, fam1)
    if run.pool is None:
        return
    sl.bfs(run, work, 3 if q else 4, lambda level: ops_of(q or level == 3, level))
