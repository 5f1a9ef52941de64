"""C22: segmented aggregation refuses what it cannot honour, and nothing else.

Exhaustive enumeration of definitions (binning x columns x snapshots), of the results of a user callable over a small
domain, of (un)ordered columns, of aggregation definitions and of observation points given at a restart, run on the
real ``cumsegagg``. Oracle: what the documentation says of each parameter, and ``mc.agg_lib`` when accepted.
"""
import copy
import itertools
from functools import partial

import numpy as np
import pandas as pd
from pandas.core.resample import TimeGrouper

from mc import agg_lib as al
from mc.checks.c13 import chunks, unit_on
from mc.core import CaseTimeout, Result, time_limit
from oups.aggstream.cumsegagg import cumsegagg
from oups.aggstream.segmentby import by_x_rows

PROP = "C22"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "exhaustive enumeration of definitions, callable results, orders and observation points run on the real cumsegagg; documented acceptance rule and plain Python aggregation as oracle"
NOTE = "Refused means that an exception is raised; accepted means that results are those of the plain Python definition. Kernels run as plain Python."
RULE = ("one case = one definition (or callable result, column order, set of observation points) given to cumsegagg; non-trivial: every case, "
        "refused or accepted")
ASSUMPTIONS = ["any exception is a refusal", "without a buffer, bins not covering the data are not checked (nor generated)",
               "sequences of row indices given by a callable are ascending and within the data"]

AGG = {"s": ("i", "sum"), "l": ("f", "last")}
REFUSED = "refused"


def base_frame(on, unordered=False):
    n = len(on)
    cols = al.columns(n, "mix")
    df = al.frame(on, {"i": cols["i"], "f": cols["f"]})
    df["u"] = df["t"] + pd.Timedelta("10min")
    return df, cols


# ---------------------------------------------------------------------------- A: definitions

def bin_option(b):
    if isinstance(b, dict):
        return al.grouper({"freq": 2 * al.H, "closed": b["closed"]}, b["key"])
    if b == "rows":
        return partial(by_x_rows, by=2, closed="left")
    return {"int": 4, "none": None, "str": "2h", "offset": pd.Timedelta("2h")}[b]


def snap_option(s):
    if s is None:
        return None
    if "key" in s:
        return al.grouper({"freq": al.H, "closed": s["closed"], "label": "right"}, s["key"])
    return pd.to_datetime(pd.Series(s["points"], dtype="int64"))


def ref_definition(c):
    """(column bins are made on, ordered column) or REFUSED."""
    b, bin_on, ordered, s = c["bin"], c["bin_on"], c["ordered_on"], c["snap"]
    if isinstance(b, dict):
        if b["key"] and bin_on and b["key"] != bin_on:
            return REFUSED
        col = b["key"] or bin_on
        if col is None or (ordered and ordered != col):
            return REFUSED
        ordered = col
    elif b == "rows":
        if bin_on is None and ordered is None:
            return REFUSED
        col = bin_on or ordered
    else:
        return REFUSED
    if s is not None and "key" in s:
        if s["key"]:
            if ordered is None:
                ordered = s["key"]
            elif ordered != s["key"]:
                return REFUSED
        if isinstance(b, dict) and s["closed"] != b["closed"]:
            return REFUSED
    if s is not None and ordered is None:
        return REFUSED
    if col not in ("t", "u") or ordered not in (None, "t", "u"):
        return REFUSED
    return col, ordered


def run_definition(c):
    df, cols = base_frame(c["on"])
    want = ref_definition(c)
    try:
        with time_limit(60):
            got = cumsegagg(df, AGG, bin_option(c["bin"]), bin_on=c["bin_on"], ordered_on=c["ordered_on"], snap_by=snap_option(c["snap"]),
                            buffer={} if c.get("buffer") else None, error_on_0=False)
    except CaseTimeout:
        return ["does not terminate (60 s)"]
    except Exception as e:
        c["refused"] = True
        return [] if want == REFUSED else [f"refused ({type(e).__name__}: {e}) while it is consistent"]
    if want == REFUSED:
        return [f"accepted while it is not consistent: {got}"]
    col, ordered = want
    val = [int(pd.Timestamp(v).value) for v in df[ordered or col]]
    b = {"kind": "time", "freq": 2 * al.H, "closed": c["bin"]["closed"]} if isinstance(c["bin"], dict) else {"kind": "rows", "x": 2, "closed": "left"}
    closed = b["closed"]
    bins = al.ref_bins(val, b)
    problems = []
    r = got[0] if c["snap"] is not None else got
    if al.table(r, AGG) != al.ref_table([(l, x, y) for l, x, y, _ in bins], cols, AGG):
        problems.append(f"bins {al.table(r, AGG)} are not those of column {col}")
    if r.index.name != (ordered or col):
        problems.append(f"index named {r.index.name}")
    if c["snap"] is not None:
        s = {"kind": "time", "freq": al.H, "label": "right"} if "key" in c["snap"] else dict(c["snap"], kind="points")
        pts = al.ref_points(val, s, closed)
        want_s = al.ref_table([(l, x, y) for l, (x, y) in al.ref_snaps(val, bins, pts, closed)], cols, AGG)
        if al.table(got[1], AGG) != want_s:
            problems.append(f"snapshots {al.table(got[1], AGG)} instead of {want_s}")
        if got[1].index.name != (ordered or col):
            problems.append(f"index of snapshots named {got[1].index.name}")
    return problems


def definitions(quick):
    bins = [{"key": k, "closed": c} for k in ("t", "u", None) for c in ("left", "right")] + ["rows", "int", "none", "str", "offset"]
    snaps = [None] + [{"key": k, "closed": c} for k in ("t", "u", None) for c in ("left", "right")] + [{"points": unit_on((1, 2, 5))}]
    for on in [unit_on((0, 1, 4))] if quick else [unit_on((0, 1, 4)), unit_on((0, 2, 3, 7)), unit_on((1,))]:
        for b, bin_on, ordered, s in itertools.product(bins, (None, "t", "u", "z"), (None, "t", "u", "z"), snaps):
            for buf in (False, True):
                if buf and quick and not isinstance(b, dict):
                    continue
                yield {"part": "definition", "on": on, "bin": b, "bin_on": bin_on, "ordered_on": ordered, "snap": s, "buffer": buf}


# ---------------------------------------------------------------------------- B: results of a callable

def make_callable(o):
    def by(on, buffer=None):
        ncs = np.array(o["ncs"], dtype="int64")
        labels = o["labels"]
        labels = pd.Series(labels) if o["as"] == "series" else pd.Index(labels) if o["as"] == "index" else np.array(labels)
        n_null = sum(1 for a, b in zip([0, *o["ncs"]], o["ncs"]) if a == b)
        return ncs, labels, n_null, o["closed"], pd.Series(o["ends"]), o["unknown"]
    return by


def ref_callable(o, n, buffer, last_label):
    if o["closed"] not in ("left", "right") or o["as"] != "series":
        return REFUSED
    if not len(o["ncs"]) == len(o["labels"]) == len(o["ends"]):
        return REFUSED
    if buffer:
        if o["ncs"][-1] != n or (len(o["ncs"]) > 1 and o["ncs"][-2] == n):
            return REFUSED
        if last_label is not None and last_label != o["labels"][0]:
            return REFUSED
    return [(l, a, b) for l, a, b in zip(o["labels"], [0, *o["ncs"]], o["ncs"])]


def run_callable(c):
    n = 3
    on = list(range(n))
    cols = al.columns(2 * n, "mix")
    whole = pd.DataFrame({"t": list(range(2 * n)), "i": cols["i"], "f": cols["f"]})
    buffer = {} if c["buffer"] else None
    last = None
    snap = pd.Series([1, 2 * n + 1]) if c.get("snap") else None
    acc = []
    for k, o in enumerate(c["calls"]):
        piece = whole.iloc[k * n:(k + 1) * n]
        want = ref_callable(o, n, c["buffer"], last)
        try:
            with time_limit(60):
                r = cumsegagg(piece, AGG, make_callable(o), ordered_on="t", buffer=buffer, snap_by=snap, error_on_0=False)
        except CaseTimeout:
            return ["does not terminate (60 s)"]
        except Exception as e:
            c["refused"] = True
            return [] if want == REFUSED else [f"call {k} refused ({type(e).__name__}: {e}) while it is consistent"]
        if want == REFUSED:
            return [f"call {k} accepted while it is not consistent: {r}"]
        if snap is not None:
            r = r[0]
        rows = [(l, a + k * n, b + k * n) for l, a, b in want]
        if acc:
            # First bin is the last one of previous call.
            rows[0] = (rows[0][0], acc[-1][1], rows[0][2])
        acc = acc[:-1] + rows
        ref = [tuple(x) for x in al.ref_table(rows, cols, AGG)]
        if al.table(r, AGG) != ref:
            return [f"call {k}: bins {al.table(r, AGG)} instead of {ref}"]
        last = o["labels"][-1]
    return []


def outcomes(n, lens, more):
    for size in lens:
        for ncs in itertools.combinations_with_replacement(range(n + 1), size):
            for nl, ne in ((size, size),) + (((size + 1, size), (size, size + 1), (max(size - 1, 1), size), (size, max(size - 1, 1))) if more else ()):
                for closed, kind in ((("left", "series"), ("right", "series"), ("both", "series"), (None, "series"), ("left", "index"), ("right", "array"))
                                     if more and nl == size == ne else (("left", "series"), ("right", "series"))):
                    yield {"ncs": list(ncs), "labels": list(range(10, 10 + nl)), "ends": [x - (closed == "right") for x in list(ncs) + [n] * 4][:ne], "closed": closed, "as": kind,
                           "unknown": closed == "left"}


def callables(quick):
    n = 3
    for o in outcomes(n, (1, 2, 3) if quick else (1, 2, 3, 4), True):
        for buf in (False, True):
            if not buf and o["ncs"][-1] != n:
                continue
            for snap in (False, True):
                yield {"part": "callable", "calls": [o], "buffer": buf, "snap": snap}
    # Restart: labels at the junction.
    first = [o for o in outcomes(n, (1, 2), False) if o["ncs"][-1] == n and (len(o["ncs"]) == 1 or o["ncs"][0] < n) and o["closed"] == "left"]
    for a in first:
        for b in outcomes(n, (1, 2, 3), False):
            if b["closed"] != "left":
                continue
            for shift in (-1, 0, 1):
                b2 = dict(b, labels=[a["labels"][-1] + shift + k for k in range(len(b["labels"]))], ends=[e + n for e in b["ends"]])
                for snap in (False,):
                    yield {"part": "callable", "calls": [a, b2], "buffer": True, "snap": snap}


# ---------------------------------------------------------------------------- C: order, aggregations

def run_order(c):
    vals = c["vals"]
    n = len(vals)
    ok = None not in vals and all(a <= b for a, b in zip(vals[:-1], vals[1:]))
    cols = al.columns(n, "mix")
    if c["kind"] == "time":
        t = pd.Series([pd.NaT if v is None else al.ts(al.T0 + v * al.H) for v in vals], dtype="datetime64[ns]")
    else:
        t = pd.Series([np.nan if v is None else v for v in vals], dtype="float64" if c["kind"] == "float" else "int64")
    df = pd.DataFrame({"t": t, "i": cols["i"], "f": cols["f"]})
    kw = {"bin_by": al.grouper({"freq": 2 * al.H}, "t")} if c["by"] == "grouper" else {"bin_by": partial(by_x_rows, by=2, closed="left"), "ordered_on": "t"}
    if c.get("bin_on"):
        kw["bin_on"] = "i"
    if c.get("snap"):
        kw["snap_by"] = al.grouper({"freq": al.H}, "t")
    try:
        with time_limit(60):
            r = cumsegagg(df, AGG, error_on_0=False, **kw)
    except CaseTimeout:
        return ["does not terminate (60 s)"]
    except Exception as e:
        c["refused"] = True
        return [] if not ok else [f"refused ({type(e).__name__}: {e}) while column is ordered"]
    if not ok:
        return [f"accepted while column is not ordered: {r}"]
    on = [al.T0 + v * al.H for v in vals] if c["kind"] == "time" else list(vals)
    spec = {"kind": "time", "freq": 2 * al.H} if c["by"] == "grouper" else {"kind": "rows", "x": 2}
    want = al.ref_table([(l, a, b) for l, a, b, _ in al.ref_bins(on, spec)], cols, AGG)
    r = r[0] if c.get("snap") else r
    return [] if al.table(r, AGG) == want else [f"bins {al.table(r, AGG)} instead of {want}"]


def orders(quick):
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for vals in itertools.product((0, 1, 3, None), repeat=n):
            for kind in ("time", "int", "float"):
                if kind == "int" and None in vals:
                    continue
                for by in ("grouper", "rows"):
                    if by == "grouper" and kind != "time":
                        continue
                    # A single null row has no order: not generated.
                    if None in vals[:1]:
                        continue
                    yield {"part": "order", "vals": list(vals), "kind": kind, "by": by}
                    if by == "rows":
                        yield {"part": "order", "vals": list(vals), "kind": kind, "by": by, "bin_on": True}
                    if kind == "time":
                        # Observation points in a column with a row per point.
                        yield {"part": "order", "vals": list(vals), "kind": kind, "by": "grouper", "snap": True}


def run_agg(c):
    df, cols = base_frame(unit_on((0, 1, 4)))
    agg = {k: tuple(v) for k, v in c["agg"].items()}
    ok = all(col in ("i", "f") and f in al.FUNCS for col, f in agg.values())
    try:
        with time_limit(60):
            r = cumsegagg(df, agg, al.grouper({"freq": 2 * al.H}, "t"), error_on_0=False)
    except CaseTimeout:
        return ["does not terminate (60 s)"]
    except Exception as e:
        c["refused"] = True
        return [] if not ok else [f"refused ({type(e).__name__}: {e}) while it is consistent"]
    if not ok:
        return [f"accepted while it is not consistent: {r}"]
    want = al.ref_table([(l, a, b) for l, a, b, _ in al.ref_bins(unit_on((0, 1, 4)), {"kind": "time", "freq": 2 * al.H})], cols, agg)
    return [] if al.table(r, agg) == want else [f"bins {al.table(r, agg)} instead of {want}"]


def aggs(quick):
    items = [("i", "sum"), ("f", "first"), ("z", "sum"), ("i", "mean"), ("f", "")]
    for n in (1, 2, 3):
        for combo in itertools.product(items, repeat=n):
            yield {"part": "agg", "agg": {f"o{k}": list(x) for k, x in enumerate(combo)}}


# ---------------------------------------------------------------------------- D: zeros

def run_zero(c):
    """With 'error_on_0', a result holding a 0 is refused."""
    on = unit_on(c["seq"])
    vals = c["vals"]
    df = pd.DataFrame({"t": pd.to_datetime(pd.Series(on, dtype="int64")), "i": pd.Series(vals, dtype=c["dtype"])})
    agg = {"o": ("i", c["func"])}
    spec = {"kind": "time", "freq": 2 * al.H, "closed": "left"}
    bins = al.ref_bins(on, spec)
    want = al.ref_table([(l, a, b) for l, a, b, _ in bins], {"i": vals}, agg)
    kw = {}
    want_s = []
    if c["snap"]:
        kw["snap_by"] = al.grouper({"freq": al.H}, "t")
        want_s = al.ref_table([(l, a, b) for l, (a, b) in al.ref_snaps(on, bins, al.ref_points(on, {"kind": "time", "freq": al.H}, "left"), "left")], {"i": vals}, agg)
    zero = any(r[1] == 0 for r in want + want_s)
    if not c["error"]:
        kw["error_on_0"] = False
    try:
        with time_limit(60):
            r = cumsegagg(df, agg, al.grouper(spec, "t"), **kw)
    except CaseTimeout:
        return ["does not terminate (60 s)"]
    except Exception as e:
        c["refused"] = True
        return [] if zero and c["error"] else [f"refused ({type(e).__name__}: {e}) while there is no 0 in {want} {want_s}"]
    if zero and c["error"]:
        return [f"accepted while there is a 0 in {want} {want_s}"]
    got = (al.table(r[0], agg), al.table(r[1], agg)) if c["snap"] else (al.table(r, agg), [])
    return [] if got == (want, want_s) else [f"got {got} instead of {(want, want_s)}"]


def zeros(quick):
    for seq in ((0, 1, 2), (0, 0, 5), (0, 3, 3)):
        for vals in itertools.product((-1, 0, 1), repeat=3):
            for func in ("sum", "last") if quick else al.FUNCS:
                for dtype in ("int64", "float64"):
                    for snap in (False, True):
                        for err in (True, False):
                            yield {"part": "zero", "seq": seq, "vals": list(vals), "func": func, "dtype": dtype, "snap": snap, "error": err}


# ---------------------------------------------------------------------------- E: points given at a restart

def run_points(c):
    """Points given with 2nd piece: last one given by 1st call is required, and none already passed is accepted."""
    on, cut, closed = c["on"], c["cut"], c["closed"]
    spec = {"kind": "time", "freq": 100 * al.H, "closed": closed}
    df, cols = base_frame(on)
    buffer = {}
    as_points = lambda p: pd.to_datetime(pd.Series(p, dtype="int64"))
    reached = lambda p, v: v > p if closed == "right" else v >= p
    by = al.grouper(spec, "t")
    try:
        with time_limit(60):
            _, s1 = cumsegagg(df.iloc[:cut], AGG, by, snap_by=as_points(c["first"]), buffer=buffer, error_on_0=False)
    except CaseTimeout:
        return ["does not terminate (60 s)"]
    except Exception as e:
        return [f"first call raised {type(e).__name__}: {e}"]
    got1 = al.table(s1, AGG)
    last = got1[-1][0]
    # Points which were passed by 1st piece without being given: results are not known at these points.
    late = [p for p in c["second"] if p > last and reached(p, on[cut - 1])]
    ok = last in c["second"] and not late
    try:
        with time_limit(60):
            _, s2 = cumsegagg(df.iloc[cut:], AGG, by, snap_by=as_points(c["second"]), buffer=buffer, error_on_0=False)
    except CaseTimeout:
        return ["does not terminate (60 s)"]
    except Exception as e:
        c["refused"] = True
        return [] if not ok else [f"refused ({type(e).__name__}: {e}) while points are consistent"]
    if not ok:
        return [f"accepted while it is not consistent (last point {last}, points passed {late}): {s2}"]
    s2 = al.table(s2, AGG)
    again = {r[0] for r in s2}
    got = [r for r in got1 if r[0] not in again] + s2
    pts = [p for p in c["first"] if p <= last] + [p for p in c["second"] if p > last]
    bins = al.ref_bins(on, spec)
    want = al.ref_table([(l, a, b) for l, (a, b) in al.ref_snaps(on, bins, al.ref_points(on, {"kind": "points", "points": pts}, closed), closed)], cols, AGG)
    return [] if got == want else [f"snapshots {got} instead of {want}"]


def points(quick):
    grid = (0, 1, 2, 3, 4, 6)
    for seq in ((0, 2, 4), (1, 1, 3), (0, 3, 3, 5)) if quick else ((0, 2, 4), (1, 1, 3), (0, 3, 3, 5), (0, 0, 1, 6), (2, 4, 5)):
        for cut in range(1, len(seq)):
            for closed in ("left", "right"):
                for r in (1, 2, 3):
                    for first in itertools.combinations(grid, r):
                        # Snapshots exist once a point is reached, or known to come.
                        for r2 in (1, 2, 3):
                            for second in itertools.combinations(grid, r2):
                                yield {"part": "points", "on": unit_on(seq), "cut": cut, "closed": closed, "first": unit_on(first), "second": unit_on(second)}


RUN = {"definition": run_definition, "callable": run_callable, "order": run_order, "agg": run_agg, "zero": run_zero, "points": run_points}


def run_case(c):
    return RUN[c["part"]](c)


def work(cases):
    res = Result()
    for c in cases:
        d = copy.deepcopy(c)
        problems = run_case(d)
        res.n[c["part"] + ("_refused" if "refused" in d else "_accepted")] += 1
        res.n["states"] += 1
        res.n["traces_validated_against_impl"] += 1
        res.case(repr(c))
        for p in problems:
            res.bad(f"{p} for {c}", c)
        if not problems:
            res.sample(c)
    return res


def replay(c):
    return run_case(c)


def explore(run):
    cases = [c for g in (definitions, callables, orders, aggs, zeros, points) for c in g(run.quick)]
    run.run_all(work, chunks(cases))
