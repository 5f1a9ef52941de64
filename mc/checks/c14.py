"""C14: snapshots show the state of the ongoing bin at each observation point.

Exhaustive enumeration of layouts x binning x observation points on the real ``cumsegagg``;
oracle: ``mc.agg_lib`` (plain Python).
"""
import itertools
from functools import partial

import pandas as pd

from mc import agg_lib as al
from mc.checks.c13 import LABELS, VALUE_AGG, chunks, given_labels, seqs, unit_on
from mc.core import CaseTimeout, Result, time_limit
from oups.aggstream.cumsegagg import cumsegagg
from oups.aggstream.segmentby import by_scale, by_x_rows

PROP = "C14"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "exhaustive enumeration of layouts x binnings x observation points run on the real cumsegagg; plain Python oracle"
NOTE = "All ordered layouts up to a length on small grids, all aligned and unaligned pairs of a menu. Kernels run as plain Python."
RULE = ("one case = one run of cumsegagg with snapshots on one layout, binning and set of observation points; non-trivial: "
        "at least two observation points")
ASSUMPTIONS = ["calendar frequencies: as for C13", "row-count bins: rows sharing an ordered value are in one bin (otherwise the ongoing bin at a point is ambiguous)",
               "observation points strictly ascending"]


def snap_arg(spec):
    if spec["kind"] == "time":
        return al.grouper(spec, "t")
    if spec.get("num"):
        return pd.Series(spec["points"], dtype=spec["num"])
    s = pd.to_datetime(pd.Series(spec["points"], dtype="int64"))
    if spec.get("as") == "index":
        return pd.DatetimeIndex(s)
    return s


def bin_kw(spec):
    if spec["kind"] == "time":
        return {"bin_by": al.grouper(spec, "t")}
    if spec["kind"] == "edges":
        ends = pd.Series(spec["edges"], dtype=spec.get("num", "int64"))
        ends = ends if spec.get("num") else pd.to_datetime(ends)
        by = (given_labels(dict(spec, ends=spec["edges"])), ends) if spec.get("labels") else ends
        return {"bin_by": partial(by_scale, by=by, closed=al.closed_of(spec)), "ordered_on": "t"}
    return {"bin_by": partial(by_x_rows, by=spec["x"], closed=al.closed_of(spec)), "ordered_on": "t"}


def run_case(c):
    on, spec, snap = c["on"], c["spec"], c["snap"]
    agg = {k: tuple(v) for k, v in c["agg"].items()}
    cols = al.columns(len(on), c["pattern"])
    df = al.frame(on, cols, time=not snap.get("num"))
    closed = al.closed_of(spec)
    if c.get("index") == "dup":
        df.index = [k // 2 for k in range(len(df), 0, -1)]
    kw = bin_kw(spec)
    if c.get("buffer"):
        kw["buffer"] = {}
    try:
        with time_limit(60):
            bins, snaps = cumsegagg(df, agg, snap_by=snap_arg(snap), error_on_0=False, **kw)
            if c.get("buffer"):
                kw["buffer"] = {}
            only = cumsegagg(df, agg, error_on_0=False, **kw)
    except CaseTimeout:
        return ["does not terminate (60 s)"], 0
    except Exception as e:
        return [f"raised {type(e).__name__}: {e}"], 0
    rb = al.ref_bins(on, spec)
    if spec.get("labels"):
        rb = [(al.plain(l), *b[1:]) for l, b in zip(given_labels(dict(spec, ends=spec["edges"])), rb)]
    want_b = al.ref_table([(l, s, e) for l, s, e, _ in rb], cols, agg)
    points = al.ref_points(on, snap, closed)
    want_s = al.ref_table([(l, s, e) for l, (s, e) in al.ref_snaps(on, rb, points, closed)], cols, agg)
    problems = []
    if al.table(bins, agg) != want_b:
        problems.append(f"bins differ with snapshots: got {al.table(bins, agg)}, expected {want_b}")
    if not bins.equals(only) or list(bins.columns) != list(only.columns):
        problems.append(f"bins change when snapshots are requested: {al.table(bins, agg)} vs {al.table(only, agg)}")
    got_s = al.table(snaps, agg)
    if got_s != want_s:
        problems.append(f"snapshots differ: got {got_s}, expected {want_s}")
    return problems, len(points)


def work(cases):
    res = Result()
    for c in cases:
        problems, k = run_case(c)
        res.n["traces_validated_against_impl"] += 1
        res.n["states"] += 1
        res.case((tuple(c["on"]), repr(c["spec"]), repr(c["snap"]), repr(c["agg"]), tuple(c["pattern"])), nontrivial=k >= 2)
        for p in problems:
            res.bad(p + f" for {c}", c)
        if not problems and k >= 2:
            res.sample({"on": al.shown(c["on"]), "bins": c["spec"], "snap": c["snap"]})
    return res


def replay(c):
    return run_case(c)[0]


def bin_specs(quick):
    for c in ("left", "right"):
        for lab in ("left", "right"):
            for o in ({}, {"origin": "epoch", "offset": al.H // 2}) if quick else ({}, {"origin": "epoch", "offset": al.H // 2}, {"origin": "start"}):
                yield dict(kind="time", freq=2 * al.H, closed=c, label=lab, **o)


NUMS = {"int64": lambda v: v - 4, "float64": lambda v: (v - 4) * 0.75}


def num_cases(quick):
    """Numeric ordered column (negative values included) and numeric observation points."""
    grid = [-1, 1, 2, 4, 5, 9]
    for num, f in NUMS.items():
        for r in (1, 2, 3, 6) if quick else range(1, 7):
            for sub in itertools.combinations(grid, r):
                snap = {"kind": "points", "points": [f(v) for v in sub], "num": num}
                for seq in [(0, 1, 3), (1, 2, 5, 6), (0, 2, 3, 4, 7)]:
                    for c in ("left", "right"):
                        for x in (1, 2, 3):
                            yield {"on": [f(v) for v in seq], "spec": {"kind": "rows", "x": x, "closed": c}, "agg": al.SMALL_AGG, "pattern": "mix", "snap": snap}
                for seq in [(0, 1, 1, 3), (3, 3, 4, 8)]:
                    for edges in ((0, 2, 4, 7, 9), (1, 3, 5, 9)):
                        for c in ("left", "right"):
                            yield {"on": [f(v) for v in seq], "spec": {"kind": "edges", "edges": [f(v) for v in edges], "closed": c, "num": num},
                                   "agg": al.SMALL_AGG, "pattern": "mix", "snap": snap}


def all_cases(quick):
    half = al.H // 2
    pats = itertools.cycle(["mix", "neg", "zero", "desc"])
    tsnaps = [{"freq": al.H}, {"freq": 90 * 60_000_000_000, "label": "right"}, {"freq": 4 * al.H, "label": "right"}, {"freq": half}]
    for seq in seqs(0, 9 if not quick else 7, 1, 4):
        on = unit_on(seq, half)
        for spec in bin_specs(quick):
            for sn in tsnaps if not quick else tsnaps[:3]:
                s = dict(sn, kind="time", closed=spec["closed"])
                yield {"on": on, "spec": spec, "snap": s, "agg": al.SMALL_AGG, "pattern": next(pats)}
    # Calendar frequencies.
    for n in (1, 2, 3):
        for on in itertools.combinations_with_replacement(al.CALENDAR, n):
            for bf, sf in (("QS", "MS"), ("MS", "QS"), ("MS", 10 * al.DAY), ("2MS", "W-SUN"), (40 * al.DAY, "MS")):
                for c in ("left", "right"):
                    if (c == "right" and (on[0] == al.CALENDAR[5] or sf == "W-SUN")) or (sf == 10 * al.DAY and n == 3 and quick):
                        continue
                    yield {"on": list(on), "spec": {"kind": "time", "freq": bf, "closed": c, "label": c}, "agg": al.SMALL_AGG, "pattern": "mix",
                           "snap": {"kind": "time", "freq": sf, "closed": c, "label": "right"}}
    # Observation points as a series: every subset of a grid (before, on, between, after the data).
    grid = [-1, 0, 1, 2, 3, 4, 6, 9]
    lays = [(0, 1, 3), (1, 1, 4), (0, 4, 5, 5), (2,), (0, 0, 3, 4, 7), (3, 4)]
    specs = [dict(kind="time", freq=2 * al.H, closed=c, label="left") for c in ("left", "right")]
    for seq in lays:
        on = unit_on(seq, al.H)
        for r in range(1, len(grid) + 1):
            for j, sub in enumerate(itertools.combinations(grid, r)):
                if quick and r > 3 and (j + r) % 3:
                    continue
                for spec in specs:
                    yield {"on": on, "spec": spec, "agg": al.SMALL_AGG, "pattern": "mix",
                           "snap": {"kind": "points", "points": unit_on(sub, al.H), "as": "index" if j % 2 else "series"}}
    # Nanoseconds apart.
    base = al.T0 + 13 * al.H
    for f in (2, 3):
        for seq in seqs(0, 6, 1, 3 if quick else 4):
            for c in ("left", "right"):
                for snap in ({"kind": "time", "freq": 1, "closed": c}, {"kind": "points", "points": unit_on((0, 2, 3, 5), 1, base)},
                             {"kind": "points", "points": unit_on((-1, 1, 4, 6), 1, base)}):
                    yield {"on": unit_on(seq, 1, base), "spec": dict(kind="time", freq=f, closed=c, label=c), "agg": al.SMALL_AGG, "pattern": next(pats),
                           "snap": snap}
    yield from num_cases(quick)
    # Row-count bins with observation points.
    for seq in itertools.combinations(range(0, 7), 3 if quick else 4):
        for x in (1, 2, 3):
            for c in ("left", "right"):
                on = unit_on(seq, al.H)
                yield {"on": on, "spec": {"kind": "rows", "x": x, "closed": c}, "agg": al.SMALL_AGG, "pattern": next(pats),
                       "snap": {"kind": "time", "freq": al.H}}
                yield {"on": on, "spec": {"kind": "rows", "x": x, "closed": c}, "agg": al.SMALL_AGG, "pattern": next(pats),
                       "snap": {"kind": "time", "freq": 2 * al.H, "label": "right"}}
                yield {"on": on, "spec": {"kind": "rows", "x": x, "closed": c}, "agg": al.SMALL_AGG, "pattern": next(pats),
                       "snap": {"kind": "points", "points": unit_on((0, 2, 3, 5, 8), al.H)}}
    # Ends of bins given, possibly with labels (several bins having the same one).
    for seq in seqs(0, 6, 1, 3):
        for edges in ((1, 2, 3, 7), (0, 4, 7)):
            for c in ("left", "right"):
                for lab in (None, "str", "rep", "same", "ts") if not quick else (None, "rep", "same"):
                    for snap in ({"kind": "time", "freq": al.H, "closed": c}, {"kind": "points", "points": unit_on((0, 2, 3, 5, 8), al.H)},
                                 {"kind": "points", "points": unit_on((1, 4), al.H)}):
                        yield {"on": unit_on(seq), "agg": al.SMALL_AGG, "pattern": "mix", "snap": snap, "index": "dup" if lab == "rep" else 0,
                               "spec": {"kind": "edges", "edges": unit_on(edges), "closed": c, "labels": lab}}
    # Longer data, more observation points than bins and fewer.
    for lay in al.long_layouts((17, 40) if quick else (17, 40, 90)):
        for c in ("left", "right"):
            for sf in (al.H, 5 * al.H):
                yield {"on": unit_on(lay), "spec": {"kind": "time", "freq": 2 * al.H, "closed": c, "label": c}, "agg": al.SMALL_AGG, "pattern": "mix",
                       "snap": {"kind": "time", "freq": sf, "closed": c, "label": c}}
            if len(set(lay)) == len(lay):
                for x in (7, 16):
                    yield {"on": unit_on(lay), "spec": {"kind": "rows", "x": x, "closed": c}, "agg": al.SMALL_AGG, "pattern": "neg",
                           "snap": {"kind": "time", "freq": 5 * al.H}}
    # Every small tuple of values.
    for lay in ((0, 1, 2, 3), (0, 2, 2, 2), (0, 0, 1, 3), (0, 0, 0, 1)) if quick else ((0, 1, 2, 3), (0, 2, 2, 2), (0, 0, 1, 3), (0, 0, 0, 1), (0, 0, 0, 0, 1), (0, 1, 1, 1, 4)):
        for vals in itertools.product((-1, 0, 1, 3), repeat=len(lay)):
            yield {"on": unit_on(lay), "spec": {"kind": "time", "freq": 4 * al.H, "closed": "left"}, "agg": VALUE_AGG, "pattern": vals,
                   "snap": {"kind": "time", "freq": al.H, "closed": "left"}}
    # Every function and type.
    for seq in [(0, 1, 1, 2, 5), (1, 4, 8, 9, 9)]:
        for spec in specs:
            for k in range(len(al.FULL_AGG)):
                items = list(al.FULL_AGG.items())
                for pat in ("mix", "neg"):
                    yield {"on": unit_on(seq, al.H), "spec": spec, "agg": dict(items[k:] + items[:k]), "pattern": pat,
                           "snap": {"kind": "time", "freq": al.H, "closed": spec["closed"]}}


def explore(run):
    run.run_all(work, chunks(all_cases(run.quick)))
