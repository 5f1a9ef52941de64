"""C13: bins equal a naive group-by, for every layout of data over bins.

Exhaustive enumeration of ordered sequences on a small grid x binning definitions x aggregation
settings, the real ``cumsegagg`` being run on each; oracle: ``mc.agg_lib`` (plain Python).
"""
import itertools
from functools import partial

import numpy as np
import pandas as pd

from mc import agg_lib as al
from mc.core import CaseTimeout, Result, time_limit
from oups.aggstream.cumsegagg import cumsegagg
from oups.aggstream.segmentby import by_scale, by_x_rows

PROP = "C13"
LEVEL = "model_checking"
JIT = True
TECHNIQUE = "exhaustive enumeration of layouts x binnings x aggregations run on the real cumsegagg; plain Python oracle"
NOTE = "All ordered layouts up to a length on small grids. Fixed and calendar frequencies. Several aggregation settings; jitted kernels."
RULE = ("one case = one run of cumsegagg on one layout (ordered sequence of grid values), one binning definition and one aggregation "
        "setting; non-trivial: at least two bins")
ASSUMPTIONS = ["calendar frequencies: edges are the very instants given by the frequency (month, quarter starts, week days at midnight), first row not within the day of an edge when closed on the right", "no null in aggregated columns", "sum not requested on datetime columns"]


def seqs(lo, hi, nmin, nmax):
    for n in range(nmin, nmax + 1):
        yield from itertools.combinations_with_replacement(range(lo, hi), n)


def unit_on(seq, step=al.H, base=al.T0):
    return [base + v * step for v in seq]


VALUE_AGG = {"s": ("i", "sum"), "m": ("i", "min"), "M": ("i", "max"), "F": ("i", "first"), "L": ("i", "last")}


LABELS = {
    "str": ["a", "b", "c", "d"], "rep": ["a", "b", "a", "a"], "rep2": ["a", "a", "b", "b"], "same": [7, 7, 7, 7], "int": [2, 0, 1, 0],
    "float": [0.5, -0.5, 0.5, 2.0], "ts": [pd.Timestamp("2020-01-02"), pd.Timestamp("2020-01-01"), pd.Timestamp("2020-01-02"), pd.Timestamp("2020-01-03")],
}


def given_labels(spec):
    n = len(spec["ends"])
    lab = pd.Series(LABELS[spec["labels"]][:n])
    return lab if not spec.get("shift") else lab.set_axis(range(n, 0, -1), axis=0)


def given_bins(on, buffer, spec):
    """Binning callable giving bins as specified."""
    ends = spec["ends"]
    lab = given_labels(spec)
    starts = [0] + ends[:-1]
    return np.array(ends, dtype="int64"), lab, sum(s == e for s, e in zip(starts, ends)), "left", pd.Series(ends), False


def run_case(c):
    """c: dict(on, spec, agg, pattern, time). Returns list of problems, n bins."""
    on = c["on"]
    spec = c["spec"]
    agg = {k: tuple(v) for k, v in c["agg"].items()}
    cols = al.columns(len(on), c["pattern"])
    df = al.frame(on, cols, time=c.get("time", True))
    if c.get("index") == "dup":
        df.index = [k // 2 for k in range(len(df), 0, -1)]
    elif c.get("index"):
        df.index = range(c["index"], c["index"] + len(df))
    kw = {}
    if spec["kind"] == "time":
        by = al.grouper(spec, "t")
    elif spec["kind"] == "rows":
        by = partial(by_x_rows, by=spec["x"], closed=al.closed_of(spec))
        kw["bin_on"] = "t"
        if spec.get("two"):
            kw["bin_on"], kw["ordered_on"] = "i", "t"
    elif spec["kind"] == "edges":
        ends = pd.to_datetime(pd.Series(spec["edges"])) if c.get("time", True) else pd.Series(spec["edges"])
        if spec.get("labels"):
            ends = (given_labels(dict(spec, ends=spec["edges"])), ends)
        by = partial(by_scale, by=ends, closed=al.closed_of(spec))
        kw["ordered_on"] = "t"
    elif spec["kind"] == "given":
        by = partial(given_bins, spec=spec)
        kw["bin_on"] = spec["bin_on"]
    if c.get("buffer"):
        kw["buffer"] = {}
    try:
        with time_limit(60):
            res = cumsegagg(df, agg, by, error_on_0=False, **kw)
    except CaseTimeout:
        return ["does not terminate (60 s)"], 0
    except Exception as e:
        return [f"raised {type(e).__name__}: {e}"], 0
    if spec["kind"] == "given":
        bins = [(al.plain(l), s, e, None) for l, s, e in zip(given_labels(spec), [0] + spec["ends"][:-1], spec["ends"])]
    else:
        bins = al.ref_bins(on, spec)
        if spec.get("labels"):
            bins = [(al.plain(l), *b[1:]) for l, b in zip(given_labels(dict(spec, ends=spec["edges"])), bins)]
    want = al.ref_table([(l, s, e) for l, s, e, _ in bins], cols, agg)
    got = al.table(res, agg)
    problems = []
    if got != want:
        problems.append(f"bins differ: got {got}, expected {want}")
    if spec["kind"] == "time" and list(df.columns) and res.index.name != "t":
        problems.append(f"index of bins named {res.index.name}")
    return problems, len(bins)


def work(cases):
    res = Result()
    for c in cases:
        problems, nb = run_case(c)
        res.n["traces_validated_against_impl"] += 1
        res.n["states"] += 1
        res.case((tuple(c["on"]), repr(c["spec"]), repr(c["agg"]), tuple(c["pattern"])), nontrivial=nb >= 2)
        for p in problems:
            res.bad(p + f" for {c}", c)
        if not problems and nb >= 2:
            res.sample({"on": [al.ts(v).isoformat() if c.get("time", True) else v for v in c["on"]], "spec": c["spec"], "bins": nb})
    return res


def replay(c):
    return run_case(c)[0]


def time_specs(freq, quick):
    origins = [{}, {"origin": "start"}, {"origin": "epoch", "offset": al.H // 2}, {"origin": "2020-01-01 01:00"}]
    if not quick:
        origins += [{"offset": al.H}, {"origin": "start", "offset": al.H}, {"origin": "2020-01-03"}, {"origin": "epoch"}]
    for c in ("left", "right"):
        for lab in ("left", "right"):
            for o in origins:
                yield dict(kind="time", freq=freq, closed=c, label=lab, **o)


def chunks(cases, size=60):
    cases = list(cases)
    return [cases[i:i + size] for i in range(0, len(cases), size)]


def all_cases(quick):
    # Layouts x time binning definitions.
    hi, nmax = (6, 4) if quick else (7, 5)
    patterns = itertools.cycle(["mix", "neg", "zero", "desc"])
    for seq in seqs(0, hi, 1, nmax):
        for freq in (2 * al.H,) if quick else (2 * al.H, 3 * al.H, al.H):
            for spec in time_specs(freq, quick):
                yield {"on": unit_on(seq), "spec": spec, "agg": al.SMALL_AGG, "pattern": next(patterns)}
    # Frequency not dividing a day, over several days, day frequency, sub-hour edges.
    for seq in seqs(0, 5, 1, 3 if quick else 4):
        for spec in ({"freq": 7 * al.H}, {"freq": al.DAY}, {"freq": 5 * al.H, "origin": "start"}, {"freq": 2 * al.DAY, "origin": "epoch"}):
            for c in ("left", "right"):
                for step in (11 * al.H, 12 * al.H):
                    yield {"on": unit_on(seq, step), "spec": dict(spec, kind="time", closed=c), "agg": al.SMALL_AGG, "pattern": "mix"}
    # Calendar frequencies.
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for on in itertools.combinations_with_replacement(al.CALENDAR, n):
            for freq, c in al.CAL_FREQS:
                if c == "right" and on[0] == al.CALENDAR[5]:
                    continue
                for lab in ("left", "right"):
                    yield {"on": list(on), "spec": {"kind": "time", "freq": freq, "closed": c, "label": lab}, "agg": al.SMALL_AGG, "pattern": "mix"}
    # Default closed / label.
    for seq in seqs(0, 5, 1, 3):
        yield {"on": unit_on(seq), "spec": {"kind": "time", "freq": 2 * al.H}, "agg": al.SMALL_AGG, "pattern": "mix", "index": 7}
    for seq in seqs(0, 5, 2, 3):
        for c in ("left", "right"):
            yield {"on": unit_on(seq), "spec": {"kind": "time", "freq": 2 * al.H, "closed": c, "label": c}, "agg": al.SMALL_AGG, "pattern": "mix", "index": "dup"}
    # Ends of bins given, possibly with labels (several bins having the same one).
    for time in (True, False):
        val = (lambda v: al.T0 + v * al.H) if time else (lambda v: (v - 3) * 0.75)
        for seq in seqs(0, 6, 1, 3):
            for edges in ((1, 2, 3, 6), (0, 4, 6)):
                for c in ("left", "right"):
                    if c == "left" and seq[-1] == edges[-1]:
                        continue
                    for lab in (None, "str", "rep", "same", "ts") if quick else (None, *LABELS):
                        yield {"on": [val(v) for v in seq], "time": time, "index": "dup" if lab == "rep" else 0, "agg": al.SMALL_AGG, "pattern": "mix",
                               "spec": {"kind": "edges", "edges": [val(v) for v in edges], "closed": c, "labels": lab}}
    # Every binning a callable can give, empty bins included.
    for n in (1, 2, 3, 4):
        for k in (1, 2, 3, 4):
            for ends in itertools.combinations_with_replacement(range(n + 1), k):
                if ends[-1] != n:
                    continue
                for lab in LABELS:
                    for shift in (0, 1):
                        if shift and lab in ("float", "same", "rep2"):
                            continue
                        yield {"on": unit_on(range(n)), "agg": al.SMALL_AGG, "pattern": "mix", "index": "dup" if shift else 0,
                               "spec": {"kind": "given", "ends": list(ends), "labels": lab, "shift": shift, "bin_on": "i" if n % 2 else "t"}}
    # Row-count binning: number of rows x size of bins x closed side, with repeated values.
    for n in range(1, 10 if quick else 14):
        for x in range(1, 6):
            for c in ("left", "right"):
                for pat in al.INT_PATTERNS:
                    on = [al.T0 + (k + k // 3) * al.H for k in range(n)]
                    yield {"on": on, "spec": {"kind": "rows", "x": x, "closed": c, "two": pat == "desc"}, "agg": al.SMALL_AGG, "pattern": pat}
                on = [k // 2 for k in range(n)]
                yield {"on": on, "time": False, "spec": {"kind": "rows", "x": x, "closed": c}, "agg": al.SMALL_AGG, "pattern": "mix"}
    # Longer data.
    for lay in al.long_layouts((17, 40) if quick else (17, 40, 90, 200)):
        for c in ("left", "right"):
            for freq in (2 * al.H, 5 * al.H):
                yield {"on": unit_on(lay), "spec": {"kind": "time", "freq": freq, "closed": c, "label": c}, "agg": al.SMALL_AGG, "pattern": "mix"}
            for x in (1, 7, 16):
                yield {"on": unit_on(lay), "spec": {"kind": "rows", "x": x, "closed": c}, "agg": al.SMALL_AGG, "pattern": "neg"}
    # Every small tuple of values.
    for lay in ((0, 0, 0, 0), (0, 0, 2, 2), (0, 2, 2, 2), (0, 1, 1, 4)):
        for vals in itertools.product((-1, 0, 1, 3), repeat=4):
            yield {"on": unit_on(lay), "spec": {"kind": "time", "freq": 2 * al.H, "closed": "left"}, "agg": VALUE_AGG, "pattern": vals}
    # A buffer for a later restart does not change the bins of the first piece.
    for seq in seqs(0, 5, 1, 3):
        for c in ("left", "right"):
            yield {"on": unit_on(seq), "spec": {"kind": "time", "freq": 2 * al.H, "closed": c, "label": "right"}, "agg": al.SMALL_AGG, "pattern": "neg", "buffer": True}


def agg_cases(quick):
    """Aggregation settings: layouts are few, settings are many."""
    layouts = [[0, 1, 1, 2, 5], [0, 0, 0], [1, 4, 8, 9, 9, 9]]
    specs = [{"kind": "time", "freq": 2 * al.H, "closed": "left"}, {"kind": "time", "freq": 2 * al.H, "closed": "right", "label": "right"}]
    cols = ["i", "f", "d"]
    ok = lambda c, f: not (c == "d" and f == "sum")
    single = [{"o": (c, f)} for c in cols for f in al.FUNCS if ok(c, f)]
    two = [{"z": (c, f), "a": (c2, f2)} for c in cols for f in al.FUNCS for c2 in cols + ["j", "g"] for f2 in al.FUNCS
           if ok(c, f) and ok(c2, f2)]
    rot = []
    full = list(al.FULL_AGG.items())
    for k in range(0, len(full), 1 if not quick else 4):
        rot.append(dict(full[k:] + full[:k]))
    for agg in single + rot + (two[::9] if quick else two):
        for lay in layouts:
            for spec in specs:
                for pat in ("mix", "neg", "big"):
                    if pat == "big" and len(agg) > 2:
                        continue
                    yield {"on": unit_on(lay), "spec": spec, "agg": agg, "pattern": pat}


def explore(run):
    run.run_all(work, chunks(all_cases(run.quick)))
    if run.pool is None:
        return
    # Group the settings so that each is compiled by one worker only.
    by_agg = {}
    for c in agg_cases(run.quick):
        by_agg.setdefault(repr(c["agg"]), []).append(c)
    run.run_all(work, list(by_agg.values()))
