"""C02: updating with duplicates_on keeps exactly the last version of a row.

Breadth-first search over dataset states with real writes; oracle: reference rule on the groups of
duplicates (recorded / new / both), with the freedom the property leaves on untouched duplicates.
"""
from collections import defaultdict

import pandas as pd

from mc import store_lib as sl
from mc.checks.c01 import TYPES

PROP = "C02"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "breadth-first search over dataset states with real writes; reference keep-last rule as oracle"
NOTE = "All histories of bounded length over batches of a small grid and duplicate columns, states merged by canonical content. Recorded duplicates not met by new rows may be reduced or kept (both accepted)."
RULE = ("one case = one real write with ordered_on and duplicates_on on a distinct dataset state; non-trivial: "
        "the dataset held rows already (tag: whether recorded and new rows share a duplicate group)")
ASSUMPTIONS = ["batches are sorted on the ordered column"]

# Values of the 'c' column: string type or int, nulls for string only.
CV = {0: "x", 1: "y", 2: None}
CTYPES = {
    "float": lambda v: pd.Series([[0.5, -1.5, float("nan")][k] for k in v], dtype="float64"),
    "ts": lambda v: pd.Series([[TYPES["ns"](0), TYPES["ns"](1), pd.NaT][k] for k in v], dtype="datetime64[ns]"),
    "big": lambda v: pd.Series([2**60 + k for k in v], dtype="int64"),
    "bool": lambda v: pd.Series([k == 1 for k in v], dtype="bool"),
}


# Column names (ordered column, other one, version) being part of each other, or unusual.
NAMES = [["t", "tag", "v"], ["tag", "t", "ta"], ["a", "b", "c b"], ["b", "1", "01"], ["index", "a.b", "rg"]]


def frame(op, first_id):
    v = op["v"]
    df = pd.DataFrame({
        "a": pd.Series([r[0] for r in v], dtype="int64"),
        "c": pd.Series([r[1] for r in v], dtype="int64") if not op.get("obj") else pd.Series([CV[r[1]] for r in v], dtype=object),
    })
    if op.get("ta"):
        df["a"] = [TYPES[op["ta"]](r[0]) for r in v]
    if op.get("tc"):
        df["c"] = CTYPES[op["tc"]]([r[1] for r in v])
    if op["dup"] == [] or op.get("nob"):
        # All columns identify duplicates: version column only two-valued.
        df["b"] = [r[2] for r in v]
        df = df.astype({"b": "int64"})
    else:
        df["b"] = range(first_id, first_id + len(v))
        df = df.astype({"b": "int64"})
    return df


def dup_positions(dup):
    cols = ["a", "c", "b"]
    if dup == []:
        return [0, 1, 2]
    names = [dup] if isinstance(dup, str) else list(dup)
    return sorted({0} | {cols.index(n) for n in names})


def step(base, op):
    store = sl.store_at(base)
    cols = op.get("cols", ["a", "c", "b"])
    pre_rg = sl.rg_rows(sl.dir_of(base), cols) if sl.KEY in store else []
    pre = [r for rg in pre_rg for r in rg]
    first = max([r[2] for r in pre], default=-1) + 1
    df = frame(op, first).set_axis(cols, axis=1)
    new = sl.rows(df, cols)
    kw = dict(op["kw"], ordered_on=cols[0])
    to_name = dict(zip("acb", cols))
    kw["duplicates_on"] = [to_name[c] for c in op["dup"]] if isinstance(op["dup"], list) else op["dup"] and to_name[op["dup"]]
    if kw["duplicates_on"] is None:
        del kw["duplicates_on"]
    e = sl.attempt(store.set, sl.KEY, sl.to_input(df, op["in"]), **kw)
    if e is not None:
        return [f"write raised {type(e).__name__}: {e} on {pre_rg}, {op}"], None, None
    got_rg = sl.rg_rows(sl.dir_of(base), cols)
    got = [r for rg in got_rg for r in rg]
    pdf_rows = sl.rows(sl.store_at(base)[sl.KEY].pdf, cols)
    problems = []
    ctx = f"got {got_rg}; before {pre_rg}; new {new}; {op}"
    if pdf_rows != got:
        problems.append("reading by row group and at once differ: " + ctx)
    if [r[0] for r in got] != sorted(r[0] for r in got):
        problems.append("not sorted: " + ctx)
    shared = False
    if op["dup"] is None:
        if sorted(got, key=repr) != sorted(pre + new, key=repr):
            problems.append("rows lost or multiplied without duplicates_on: " + ctx)
    else:
        pos = dup_positions(op["dup"])
        overlap = any(rg and new and rg[0][0] <= new[-1][0] and rg[-1][0] >= new[0][0] for rg in pre_rg)
        groups = defaultdict(lambda: [[], [], []])
        for i, src in enumerate((pre, new, got)):
            for r in src:
                groups[tuple(repr(r[p]) for p in pos)][i].append(r)
        for k, (p, n, g) in groups.items():
            if p and n:
                shared = True
                ok = g == [n[-1]]
            elif n:
                ok = g == [n[-1]] or (g == n and not overlap)
            else:
                ok = bool(p) and (g == p or g == [p[-1]])
            if not ok:
                problems.append(f"duplicate group {k}: recorded {p}, new {n}, read {g}: " + ctx)
                break
    canon = (tuple(cols), bool(op.get("obj")), op.get("ta"), op.get("tc"), tuple(tuple(r[:2] for r in rg) for rg in got_rg),
             tuple(tuple(r[2] for r in rg) for rg in got_rg) if op["dup"] == [] or op.get("nob") else None)
    return problems, canon, (("pre", shared) if pre else None)


work_ = sl.make_work(step)


def work(item):
    return work_(item)


replay = sl.make_replay(step)

DUPS = ["a", ["a"], "c", ["c"], ["c", "a"], ["a", "c"], []]


def explore(run):
    creates = [
        # Unique values, three row groups of two.
        {"v": [[1, 0], [2, 0], [4, 0], [5, 1], [7, 0], [8, 1]], "kw": {"max_row_group_size": 2}},
        # Duplicates on 'a' (different 'c'), within and across creation row groups.
        {"v": [[1, 0], [3, 0], [3, 1], [3, 0], [5, 0], [6, 1]], "kw": {"max_row_group_size": 2}},
        {"v": [[3, 0], [3, 1], [4, 0], [6, 1]], "kw": {"max_row_group_size": 4}},
    ]
    for c in creates:
        c.update(dup=None, **{"in": "pandas"})
    cfgs = [{"max_row_group_size": 2}, {"max_row_group_size": 4, "max_nirgs": 1}, {}]
    if not run.quick:
        cfgs += [{"max_row_group_size": 3}, {"max_row_group_size": 2, "max_nirgs": 0}, {"max_nirgs": 1}, {"max_row_group_size": 8, "max_nirgs": 2}]
    one = [[[a, c]] for a in range(0, 10) for c in (0, 1)]
    two = [[[a, c], [a2, c2]] for a in (1, 3, 4, 5) for a2 in (3, 4, 5, 7, 8) if a <= a2 for c in (0, 1) for c2 in (0, 1)]
    three = [[[3, 0], [3, 0], [3, 1]], [[2, 0], [5, 1], [8, 1]], [[5, 1], [5, 1], [5, 0]], [[1, 0], [1, 0], [8, 0]]]
    if not run.quick:
        three += [[[a, 0], [b, c], [d, 1]] for a in (1, 3) for b in (3, 5) for c in (0, 1) for d in (5, 7) ]

    def fam1(level):
        if level == 0:
            return creates
        out = []
        for d in DUPS:
            for kw in cfgs:
                for v in one[:: 2 if run.quick and d in (["a"], ["c", "a"]) else 1] + (two[::3] if run.quick else two) + three:
                    if d == []:
                        continue
                    out.append({"v": v, "dup": d, "kw": kw, "in": "vaex" if d == ["a", "c"] else "lazy" if len(v) == 3 else "pandas"})
        return out

    sl.bfs(run, work, 2, fam1)
    if run.pool is None:
        return

    # Chains of updates: each write may leave duplicates, layouts and gaps for the next one.
    chain = [[[1, 0]], [[3, 1]], [[4, 0]], [[2, 0], [3, 0]], [[3, 0], [3, 1], [3, 0]], [[5, 0], [6, 0]], [[1, 1], [6, 1]]]

    def fam2(level):
        if level == 0:
            return [{"v": [[2, 0], [3, 0], [3, 1], [5, 0]], "dup": None, "kw": {"max_row_group_size": 2}, "in": "pandas"}]
        out = []
        for d in (["a", "c"] if level < 2 or run.quick else ["a", ["c"], None]):
            for kw in ({"max_row_group_size": 2}, {"max_row_group_size": 3, "max_nirgs": 1}):
                out += [{"v": v, "dup": d, "kw": kw, "in": "pandas"} for v in chain]
        return out

    sl.bfs(run, work, 3 if run.quick else 4, fam2)
    if run.pool is None:
        return

    # All columns identify duplicates; nulls in a string column.
    def fam3(level):
        if level == 0:
            return [{"v": [[1, 0, 0], [2, 0, 0], [2, 0, 1], [4, 2, 0], [5, 1, 0]], "dup": None, "nob": True, "obj": True,
                     "kw": {"max_row_group_size": 2}, "in": "pandas"}]
        vs = [[[a, c, b]] for a in (1, 2, 3, 4, 6) for c in (0, 2) for b in (0, 1)]
        vs += [[[2, 0, 0], [2, 0, 0]], [[2, 0, 1], [2, 0, 0]], [[1, 0, 0], [5, 1, 0]], [[4, 2, 0], [4, 2, 0], [4, 0, 0]]]
        return [{"v": v, "dup": d, "nob": True, "obj": True, "kw": kw, "in": "pandas"}
                for d in ([], "c", "a") for kw in ({"max_row_group_size": 2}, {"max_row_group_size": 4, "max_nirgs": 1}) for v in vs]

    sl.bfs(run, work, 2 if run.quick else 3, fam3)
    if run.pool is None:
        return

    # Other types of columns, with values close to each other; nulls.
    for ta, tc in (("ns", "float"), ("float", "ts"), ("big", "bool"), ("long", "big"), ("close", "ts")):
        def fam4(level, ta=ta, tc=tc):
            o = {"ta": ta, "tc": tc}
            n = 1 if tc == "bool" else 2
            if level == 0:
                return [dict(o, v=[[1, 0], [3, 0], [3, 1], [3, n], [5, 0], [6, n]], dup=None, kw={"max_row_group_size": 2}, **{"in": "pandas"})]
            vs = [[[a, c]] for a in (0, 1, 2, 3, 5, 6, 7) for c in (0, n)] + [[[3, n], [3, n]], [[3, 0], [3, n]], [[2, 0], [6, n]], [[1, 0], [4, 0], [5, 0]]]
            return [dict(o, v=v, dup=d, kw=kw, **{"in": i}) for d in ("a", ["c"]) for kw in ({"max_row_group_size": 2}, {"max_row_group_size": 4, "max_nirgs": 1})
                    for v in vs for i in ("pandas", "vaex") if i == "pandas" or len(v) == 2]

        sl.bfs(run, work, 2 if run.quick else 3, fam4)
        if run.pool is None:
            return

    # Names of columns.
    for cols in NAMES:
        def fam5(level, cols=cols):
            if level == 0:
                return [{"cols": cols, "v": [[1, 0], [3, 0], [3, 1], [5, 0], [6, 1]], "dup": None, "kw": {"max_row_group_size": 2}, "in": "pandas"}]
            vs = [[[3, 0]], [[3, 1], [3, 1]], [[2, 0], [6, 1]], [[0, 0]], [[5, 0], [5, 1]]]
            return [{"cols": cols, "v": v, "dup": d, "kw": kw, "in": i} for d in DUPS[:-1] for kw in ({"max_row_group_size": 2}, {"max_row_group_size": 4, "max_nirgs": 1})
                    for v in vs for i in ("pandas", "vaex")]

        sl.bfs(run, work, 2 if run.quick else 3, fam5)
        if run.pool is None:
            return
