"""C01: ordered updates keep a dataset sorted and merge without loss.

Breadth-first search: a state is a dataset on disk (row-group layout of the ordered column), a
transition is one real ``ParquetSet`` write with ``ordered_on``. Oracle: rows read after the write ==
stable merge of rows read before with the new ones.
"""
import pandas as pd

from mc import store_lib as sl

PROP = "C01"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "breadth-first search over dataset states with real writes; multiset and stable-order oracle"
NOTE = "All histories of bounded length over batches of a small grid, for each write setting of a menu; states merged by canonical row-group layout. Larger values, more row groups and lengths beyond the bounds are not covered."
RULE = ("one case = one real write with ordered_on on a distinct dataset state (canonical row-group layout "
        "of the ordered column and its type) reached by a history of real writes; non-trivial: the dataset held rows already")
ASSUMPTIONS = ["batches are sorted on the ordered column", "ordered values from small integer grids, mapped to int, float, timestamp or string columns"]

TYPES = {
    "int": lambda v: v,
    "neg": lambda v: v - 4,
    "float": lambda v: v / 2,
    "ts": lambda v: pd.Timestamp("2020-01-01") + pd.Timedelta(hours=6 * v),
    "str": lambda v: "k%02d" % v,
    # Values which are close to each other: nanoseconds, consecutive large integers or floats, texts with a long common start.
    "ns": lambda v: pd.Timestamp("2020-01-01") + pd.Timedelta(v, "ns"),
    "big": lambda v: 2**60 + v,
    "close": lambda v: 1e15 + v / 8,
    "long": lambda v: "é" * 40 + chr(0x40 + v),
}


def frame(vals, typ, first_id):
    conv = TYPES[typ]
    a = [conv(v) for v in vals]
    if not vals:
        a = pd.Series(a, dtype={"ts": "datetime64[ns]", "ns": "datetime64[ns]", "float": "float64", "close": "float64", "str": object, "long": object}.get(typ, "int64"))
    # Ordered column not always first in the dataframe.
    return pd.DataFrame({"b": range(first_id, first_id + len(vals)), "a": a}).astype({"b": "int64"})


def step(base, op):
    store = sl.store_at(base)
    pre_rg = sl.rg_rows(sl.dir_of(base), ["a", "b"]) if sl.KEY in store else []
    pre = [r for rg in pre_rg for r in rg]
    df = frame(op["v"], op["t"], len(pre))
    new = sl.rows(df, ["a", "b"])
    kw = dict(op["kw"])
    kw["ordered_on"] = "a"
    e = sl.attempt(store.set, sl.KEY, sl.to_input(df, op["in"]), **kw)
    if e is not None:
        return [f"write raised {type(e).__name__}: {e}"], None, None
    expected = sorted(pre + new, key=lambda r: r[0])
    got_rg = sl.rg_rows(sl.dir_of(base), ["a", "b"])
    problems = []
    pdf = sl.store_at(base)[sl.KEY].pdf
    got = sl.rows(pdf, ["a", "b"])
    if [r[0] for r in got] != sorted(r[0] for r in got):
        problems.append(f"not sorted after write: {got_rg} (before: {pre_rg}, new: {new}, {op})")
    elif sorted(got) != sorted(expected):
        problems.append(f"rows lost, altered or multiplied: got {got_rg}, before {pre_rg}, new {new}, {op}")
    elif got != expected:
        problems.append(f"rows sharing a value not in arrival order: got {got}, expected {expected}, {op}")
    if list(pdf.columns) != ["b", "a"]:
        problems.append(f"columns changed: {list(pdf.columns)}")
    canon = (op["t"], tuple(tuple(r[0] for r in rg) for rg in got_rg))
    return problems, canon, ("pre" if pre else None)


work_ = sl.make_work(step)


def work(item):
    return work_(item)


replay = sl.make_replay(step)

CFGS = [{}, {"max_row_group_size": 2}, {"max_row_group_size": 3}, {"max_row_group_size": 2, "max_nirgs": 0},
        {"max_row_group_size": 4, "max_nirgs": 1}, {"max_row_group_size": 4, "max_nirgs": 2},
        {"max_row_group_size": 10, "max_nirgs": 1}, {"max_nirgs": 1}, {"max_nirgs": 2}, {"max_row_group_size": 1},
        {"max_row_group_size": 3, "max_nirgs": 3}]


def explore(run):
    # Family 1: three row groups with gaps, then any batch of 1..2 rows (3 in thorough) with every setting.
    creates = [{"v": v, "t": "int", "in": "pandas", "kw": kw} for v, kw in [
        ([2, 3, 5, 6, 9, 10], {"max_row_group_size": 2}),
        ([3, 5, 7], {"max_row_group_size": 1}),
        ([2, 3, 4, 5, 7, 9], {"max_row_group_size": 4}),
        ([3, 3, 6, 6], {"max_row_group_size": 2}),
        ([4], {}),
    ]]
    lo, hi = 1, 11
    one = [list(s) for s in sl.subseqs(lo, hi + 1, 1)]
    two = [list(s) for s in sl.subseqs(lo, hi + 1, 2)]
    three = [list(s) for s in sl.subseqs(2, 8, 3)]

    def fam1(level):
        if level == 0:
            return creates
        cfgs = CFGS if not run.quick else CFGS[:9]
        batches = [b for b in one + two]
        out = [{"v": b, "t": "int", "in": "pandas", "kw": kw} for kw in cfgs for b in (one + two[::3] if run.quick else batches)]
        if not run.quick:
            out += [{"v": b, "t": "int", "in": "pandas", "kw": kw} for kw in cfgs for b in three]
        return out

    sl.bfs(run, work, 2, fam1)
    if run.pool is None:
        return

    # Family 2: chains of writes on a smaller grid: every history of batches from a menu.
    menu2 = [[1], [4], [6], [1, 2], [4, 4], [1, 6], [3, 5], [6, 7], [2, 4, 7]]

    def fam2(level):
        cfgs = [{"max_row_group_size": 2}, {"max_row_group_size": 3, "max_nirgs": 1}, {"max_row_group_size": 4, "max_nirgs": 2}]
        b = menu2 if level else [[3, 5], [4]]
        if level == 0:
            cfgs = cfgs[:1]
        return [{"v": v, "t": "int", "in": "pandas", "kw": kw} for kw in cfgs for v in b]

    sl.bfs(run, work, 4 if run.quick else 5, fam2)
    if run.pool is None:
        return

    # Family 3: other column types, vaex input, empty batches.
    for t in ("neg", "float", "ts", "str", "ns", "big", "close", "long"):
        def fam3(level, t=t):
            if level == 0:
                return [{"v": [2, 3, 5, 6, 8], "t": t, "in": i, "kw": {"max_row_group_size": 2}} for i in ("pandas", "vaex")]
            return [{"v": v, "t": t, "in": i, "kw": kw} for i in ("pandas", "vaex")
                    for kw in ({"max_row_group_size": 2}, {"max_row_group_size": 4, "max_nirgs": 1})
                    for v in ([], [1], [4], [4, 4], [5], [7], [9], [3, 6], [1, 9])
                    if v or i == "pandas"]
        sl.bfs(run, work, 2 if run.quick else 3, fam3)
        if run.pool is None:
            return

    # Family 4: dataframes which are a selection of rows (vaex), or with another index (pandas).
    for t in ("int", "ts") if run.quick else ("int", "float", "ts", "str"):
        def fam4(level, t=t):
            if level == 0:
                return [{"v": [2, 3, 5, 6, 8], "t": t, "in": i, "kw": {"max_row_group_size": 2}} for i in ("pandas", "lazy", "slice", "index")]
            return [{"v": v, "t": t, "in": i, "kw": kw} for i in ("lazy", "slice", "index")
                    for kw in ({}, {"max_row_group_size": 2}, {"max_row_group_size": 4, "max_nirgs": 1})
                    for v in ([1], [4, 4], [7], [9], [9, 9, 9], [3, 6], [1, 2, 9])]
        sl.bfs(run, work, 2 if run.quick else 3, fam4)
        if run.pool is None:
            return
