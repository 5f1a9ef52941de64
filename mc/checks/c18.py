"""C18: filters give each key exactly the seed rows that satisfy them.

A. ``dataframe_filter``: every condition (column type x operator x value), every AND of two, every OR of two
   ANDs over a pool of conditions, against a row by row Python evaluation.
B. AggStream: every assignment of categories to the rows of small seeds x every cutting in chunks x sets of
   filters (one or two calls, stop and restart included); oracle: the aggregation of the satisfying rows.
"""
import itertools
import math

import numpy as np
import pandas as pd

from mc import agg_lib as al
from mc import store_lib as sl
from mc import stream_lib as st
from mc.core import CaseTimeout, Result, time_limit
from oups import ParquetSet
from oups.aggstream.utils import dataframe_filter

PROP = "C18"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "exhaustive enumeration of filter expressions, and of row category assignments x cuttings on the real AggStream; row by row Python evaluation as oracle"
RULE = ("part A: one case = one filter expression on one frame, non-trivial when it keeps some rows and not all; part B: one case = one "
        "assignment of categories to seed rows, one cutting, one grouping in runs, one set of filters, non-trivial when some rows are rejected")
NOTE = ("All expressions of bounded size over a pool covering all operators and column types (nulls included); all category assignments of "
        "4 rows (5 thorough) and all their cuttings. A null value complies with '!=' and 'not in' only.")
ASSUMPTIONS = ["values compared are not null, and comparable with the column (pandas raises otherwise)", "'~' is used with boolean columns",
               "no aggregated value is 0 (refused by AggStream by design)"]

N = None
D = pd.Timestamp
COLS = {
    "x": [1, 2, 3, 1, 2, 3],
    "y": [1.0, N, 2.0, 0.0, N, -1.5],
    "I": [1, 2, N, 3, N, 2],
    "s": ["a", "b", "c", "a", "", "b"],
    "S": ["a", N, "c", "b", N, "a"],
    "q": ["a", N, "c", "b", "c", "a"],
    "d": [D("2020-01-01"), N, D("2020-01-02"), D("2020-01-03"), N, D("2020-01-01")],
    "z": [D("2020-01-01", tz="UTC"), D("2020-01-02", tz="UTC"), N, D("2020-01-03", tz="UTC"), N, D("2020-01-01", tz="UTC")],
    "b": [True, False, True, False, False, True],
    "B": [True, N, True, False, N, False],
    "c": ["a", "b", "c", "a", N, "b"],
}
DTYPES = {"x": "int64", "y": "float64", "I": "Int64", "s": "object", "S": "object", "q": "string", "d": "datetime64[ns]",
          "z": "datetime64[ns, UTC]", "b": "bool", "B": "boolean", "c": "category"}
VALUES = {"x": [1, 2, 2.5], "y": [0.0, 1, 1.5, -1.5], "I": [1, 2, 9], "s": ["a", "b", ""], "S": ["a", "c"], "q": ["a", "b"],
          "d": [D("2020-01-01"), D("2020-01-02"), D("2021-01-01")], "z": [D("2020-01-01", tz="UTC"), D("2020-01-02", tz="UTC")],
          "b": [True, False], "B": [True, False], "c": ["a", "b"]}
ORDER = ["<", "<=", ">", ">="]
OPS = ["==", "=", "!=", "in", "not in"]
INDEXES = {"range": lambda n: pd.RangeIndex(n), "offset": lambda n: pd.RangeIndex(7, 7 + n), "dup": lambda n: pd.Index([3] * n)}


def frame(rows=None, index="range"):
    rows = range(6) if rows is None else rows
    df = pd.DataFrame({k: pd.Series([v[r] for r in rows], dtype=DTYPES[k]) for k, v in COLS.items()})
    df.index = INDEXES[index](len(df))
    return df


def conditions(quick):
    out = []
    for col, vals in VALUES.items():
        for op in OPS[:3] + ([] if col == "c" else ORDER):
            if col == "S" and op in ORDER:
                continue  # TypeError of pandas between str and None
            out += [(col, op, v) for v in vals]
        for op in OPS[3:]:
            for r in range(len(vals) + 1):
                out += [(col, op, list(v)) for v in itertools.combinations(vals, r)]
            out += [(col, op, tuple(vals[:2])), (col, op, set(vals[:1]))]
        if col in ("b", "B"):
            out.append((col, "~", None))
    return out


def holds(cond, r):
    col, op, val = cond
    v = COLS[col][r]
    if v is None:
        return op in ("!=", "not in")
    if op in ("==", "="):
        return v == val
    if op == "!=":
        return v != val
    if op == "in":
        return v in list(val)
    if op == "not in":
        return v not in list(val)
    if op == "~":
        return not v
    return {"<": v < val, "<=": v <= val, ">": v > val, ">=": v >= val}[op]


def check_expr(expr, rows, index):
    df = frame(rows, index)
    want = [any(all(holds(c, r) for c in part) for part in expr) for r in rows]
    try:
        got = dataframe_filter(df, expr)
    except Exception as e:
        return f"dataframe_filter raised {type(e).__name__}: {e}", want
    if not isinstance(got, np.ndarray) or got.dtype != bool or got.shape != (len(rows),) or got.tolist() != want:
        return f"dataframe_filter gives {got!r}, expected {want}", want
    return None, want


def code(expr):
    return repr(expr)


def work_expr(items):
    res = Result()
    for expr, rows, index in items:
        problem, want = check_expr(expr, rows, index)
        res.n["expressions"] += 1
        res.case(("A", code(expr), tuple(rows), index), nontrivial=any(want) and not all(want))
        if problem:
            res.bad(f"{problem} for filters {expr} on rows {list(rows)}", {"part": "A", "expr": code(expr), "rows": list(rows), "index": index})
    return res


POOL = [("x", "==", 1), ("x", "in", [2, 3]), ("y", ">", 0.0), ("y", "!=", 1), ("I", "<=", 2), ("I", "not in", [2]), ("s", "=", "b"), ("S", "not in", ["a"]),
        ("q", ">=", "b"), ("d", "<", D("2020-01-03")), ("z", "!=", D("2020-01-01", tz="UTC")), ("b", "~", None), ("B", "==", False), ("c", "in", ["b", "c"])]
POOL2 = [("x", "<", 3), ("x", ">=", 2), ("y", "in", [2.0, -1.5]), ("I", "!=", 1), ("s", "in", ["a", ""]), ("B", "~", None)]


def exprs(quick):
    conds = conditions(quick)
    every = list(range(6))
    for c in conds:
        for rows, index in ((every, "range"), (every, "offset"), (every, "dup"), ([], "range"), ([2], "range"), ([1, 4], "range")):
            yield [[c]], rows, index
    pool = POOL if quick else POOL + POOL2
    terms = [[c] for c in pool] + [list(t) for t in itertools.product(pool, repeat=2)]
    for k, t in enumerate(terms):
        yield [t], every, "dup"
    for k, (a, b) in enumerate(itertools.product(terms, repeat=2)):
        yield [a, b], every, "range"
    # Parts of which all the conditions but some are not met by any row at all.
    small = [[c] for c in pool[:: 2 if quick else 1]]
    small += [list(t) for t in itertools.product(pool[:: 3 if quick else 1], repeat=2)]
    for k, (a, b) in enumerate(itertools.product(small, repeat=2)):
        yield [a, b], [k % 6] if k % 2 else [k // 2 % 6, k // 12 % 6], "dup"
    small = pool[:5] if quick else pool[:9]
    for t in itertools.product(small, repeat=3):
        yield [list(t)], every, "offset"
        yield [[t[0]], [t[1]], [t[2]]], every, "offset"


# ------------------------------------------------------------------------------ part B

CAT = {"a": "a", "b": "b", "r": "r", "-": None}
FILTERSETS = {
    # filter id -> (expression, categories kept)
    "two": {"fa": [[["cat", "==", "a"]]], "fb": [[["cat", "in", ["b"]]]]},
    "none": {"fa": [[["cat", "==", "a"]]], "_": None},
    "overlap": {"fa": [[["cat", "!=", "b"]]], "fb": [[["cat", "==", "a"]], [["cat", "in", ["b"]], ["v", ">", 1.5]]], "_": None},
    "null": {"fa": [[["cat", "not in", ["a", "r"]]]], "fb": [[["v", "<", 3.5]]]},
    "ands": {"fa": [[["cat", "==", "a"], ["v", ">", 1.5]], [["v", "<", 3.5], ["cat", "!=", "a"]], [["v", "==", 4.0]]],
             "fb": [[["v", "<", 1.5], ["cat", "in", ["a", "b"]], ["v", ">", 0.5]], [["cat", "==", "b"]]]},
}


def kept(expr, cat, v):
    if expr is None:
        return True

    def one(c):
        x = {"cat": cat, "v": v}[c[0]]
        if x is None:
            return c[1] in ("!=", "not in")
        return {"==": lambda: x == c[2], "!=": lambda: x != c[2], "in": lambda: x in c[2], "not in": lambda: x not in c[2],
                "<": lambda: x < c[2], ">": lambda: x > c[2]}[c[1]]()

    return any(all(one(c) for c in part) for part in expr)


KEYSETS = {
    "two": [{"key": "b", "bin": st.T(), "filter": "fa"}, {"key": ["c", "s"], "bin": st.T(4), "snap": st.snap(1), "filter": "fb"}],
    "none": [{"key": "b", "bin": st.T(), "filter": "fa"}, {"key": "c", "bin": st.T(3, closed="right"), "filter": "fa", "write": {"max_row_group_size": 2}},
             {"key": "d", "bin": st.T(2), "filter": "_"}],
    "overlap": [{"key": "b", "bin": st.T(), "filter": "fa"}, {"key": "s", "bin": st.T(4), "snap": st.snap(2), "filter": "fb"},
                {"key": "d", "bin": st.T(2, origin="start"), "filter": "_"}],
    "null": [{"key": "b", "bin": st.T(), "filter": "fa"}, {"key": "c", "bin": st.T(), "post": "rowwise", "filter": "fb"}],
    "ands": [{"key": "b", "bin": st.T(), "filter": "fa"}, {"key": "c", "bin": st.T(4), "snap": st.snap(2), "filter": "fb"}],
}
SEQS = {4: [(0, 1, 2, 5), (0, 2, 2, 3), (1, 1, 4, 8)], 5: [(0, 1, 2, 3, 6), (0, 0, 2, 2, 9)]}
V = [1.0, None, 3.0, 4.0, 2.0]


def run_stream(c):
    cats = [CAT[x] for x in c["cats"]]
    n = len(c["seq"])
    vals = V[:n]
    full = dict(c, extra={"cat": cats, "v": vals}, filters={k: f for k, f in FILTERSETS[c["fs"]].items() if k != "_"})
    if c.get("explicit_none") and "_" in FILTERSETS[c["fs"]]:
        full["filters"] = dict(FILTERSETS[c["fs"]])
    full["keys"] = [dict(kc, mem=c.get("mem", 0)) for kc in KEYSETS[c["fs"]]]
    df, on = st.seed_frame(full)
    df["cat"] = df["cat"].astype("object")
    df["v"] = df["v"].astype(c.get("vtype", "float64"))
    fs = FILTERSETS[c["fs"]]
    rows_upto = lambda stop: (lambda kc: [r for r in range(stop) if kept(fs[kc["filter"]], cats[r], vals[r])])
    base = sl.tmpdir()
    out = []
    try:
        with time_limit(120):
            store = ParquetSet(base, st.K)
            stop = c.get("stop")
            if stop is None:
                stream = st.make(store, full)
                chunks = st.chunks_of(df, c["cuts"])
                stream.agg(iter(chunks) if c.get("gen") else chunks)
                out += st.compare(base, full, on, rows_upto(n), "at the end: ")
            else:
                # First run on rows before 'stop', discarding its last value; then restart, from a row at or before the restart point.
                stream = st.make(store, full)
                stream.agg(st.chunks_of(df.iloc[:stop], [x for x in c["cuts"] if x < stop]), trim_start=True, discard_last=True)
                # What is done goes up to the last chunk of which a row is kept.
                start = c["start"]
                store = ParquetSet(base, st.K)
                stream = st.make(store, full)
                md = [st.restart_of(base, st.main_name(kc)) for kc in full["keys"]]
                marks = [m and al.plain(m["restart_index"]) for m in md]
                if len(set(marks)) != 1:
                    return [f"keys restart from different positions {marks}"]
                if marks[0] is not None and marks[0] > on[stop - 1]:
                    return [f"restart point {marks[0]} after the last row fed {on[stop - 1]}"]
                if marks[0] is None:
                    start = 0
                else:
                    start = min(start, on.index(marks[0]))
                    # All rows of the main data before the restart point are accounted for, none after.
                    done = on.index(marks[0])
                    out += st.compare(base, full, on, rows_upto(done), "after first run: ")
                stream.agg(st.chunks_of(df.iloc[start:].reset_index(drop=True), [x - start for x in c["cuts"] if x > start]), trim_start=True, discard_last=False)
                out += st.compare(base, full, on, rows_upto(n), "after restart: ")
    except CaseTimeout:
        return ["does not terminate (120 s)"]
    except Exception as e:
        return [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''}"]
    finally:
        sl.drop(base)
    return out


def work_stream(cases):
    res = Result()
    for c in cases:
        problems = run_stream(c)
        res.n["streams"] += 1
        res.n["traces_validated_against_impl"] += 1
        res.case(repr(sorted(c.items())), nontrivial=len(set(c["cats"])) > 1)
        for p in problems:
            res.bad(f"{p} for {c}", dict(c, part="B"))
        if not problems and len(c["cuts"]) > 1:
            res.sample(c)
    return res


def replay(c):
    if c["part"] == "A":
        return [p for p in [check_expr(eval(c["expr"], {"Timestamp": pd.Timestamp}), c["rows"], c["index"])[0]] if p]
    return run_stream(c)


def cuttings(n):
    for r in range(n):
        for cuts in itertools.combinations(range(1, n), r):
            yield list(cuts)


def streams(quick):
    mems = itertools.cycle([0, None])
    flips = itertools.cycle([{}, {"gen": True}, {"explicit_none": True}])
    for si, seq in enumerate(SEQS[4] if quick else SEQS[4] + SEQS[5]):
        alphabet = "ab-" if len(seq) == 5 else "abr-" if not quick else "ab-"
        for ai, cats in enumerate(itertools.product(alphabet, repeat=len(seq))):
            for fi, fs in enumerate(FILTERSETS):
                if quick and fi != (ai + si) % 5 and fi != (ai // 5 + si) % 5:
                    continue
                for ci, cuts in enumerate(cuttings(len(seq))):
                    c = {"seq": seq, "cats": "".join(cats), "cuts": cuts, "fs": fs, "mem": next(mems)}
                    c.update(next(flips))
                    if not quick or (ci + ai) % 2 == 0:
                        yield c
                    for stop in range(1, len(seq)):
                        if quick and (stop + ai + ci + fi) % 6:
                            continue
                        if not quick and (stop + ai + ci) % 3:
                            continue
                        yield dict(c, stop=stop, start=(ai + ci) % 3)


def explore(run):
    ex = list(exprs(run.quick))
    run.notes["filter expressions"] = len(ex)
    n = 64
    run.run_all(work_expr, [ex[k::n] for k in range(n)])
    if run.stop():
        return
    cases = sorted(streams(run.quick), key=lambda c: len(c["cuts"]))
    run.notes["streams"] = len(cases)
    run.notes["bounds"] = {"rows of a seed": 4 if run.quick else "4..5", "AND terms": "1..3", "OR terms": "1..3"}
    n = min(len(cases), 400)
    run.run_all(work_stream, [cases[k::n] for k in range(n)])
