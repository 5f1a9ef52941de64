"""Reference definition of bins, snapshots and aggregation functions, in plain Python.

Nothing here comes from oups: edges are computed with integer arithmetic on nanoseconds, bins and
snapshots from their definition, aggregates with Python loops.
"""
import datetime
import warnings

warnings.filterwarnings("ignore")

import numpy as np
import pandas as pd
from pandas.core.resample import TimeGrouper

H = 3_600_000_000_000
DAY = 24 * H
T0 = pd.Timestamp("2020-01-01").value
FUNCS = ("first", "last", "min", "max", "sum")


def shown(on):
    """Ordered values in a readable form."""
    return [ts(v).isoformat() if isinstance(v, int) and v > 2**50 else v for v in on]


def ts(v):
    return pd.Timestamp(int(v))


# ---------------------------------------------------------------------------------- binning

def anchor(spec, first):
    o = spec.get("origin", "start_day")
    if o == "start_day":
        a = first - first % DAY
    elif o == "start":
        a = first
    elif o == "epoch":
        a = 0
    else:
        a = pd.Timestamp(o).value
    return a + spec.get("offset", 0)


def period_starts(freq):
    """Candidate edges of a calendar frequency (ns), from 2019 to 2021, and how many there are in a bin."""
    n = int("".join(ch for ch in freq if ch.isdigit()) or 1)
    unit = freq.lstrip("0123456789")
    days = [datetime.date(2018, 6, 1) + datetime.timedelta(days=k) for k in range(1400)]
    if unit.startswith("W-"):
        wd = ["MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN"].index(unit[2:])
        ok = [d for d in days if d.weekday() == wd]
    else:
        months = {"MS": range(1, 13), "QS": (1, 4, 7, 10), "YS": (1,)}[unit]
        ok = [d for d in days if d.day == 1 and d.month in months]
    epoch = datetime.date(1970, 1, 1)
    return [(d - epoch).days * DAY for d in ok], n


def calendar_edges(freq, first, last, closed):
    """Same for a calendar frequency: bins start from the period of the first row."""
    starts, n = period_starts(freq)
    if closed == "left":
        k = max(i for i, v in enumerate(starts) if v <= first)
        out = [starts[k]]
        while out[-1] <= last:
            k += n
            out.append(starts[k])
    else:
        k = min(i for i, v in enumerate(starts) if v >= first) - n
        out = [starts[k]]
        while out[-1] < last:
            k += n
            out.append(starts[k])
    return out


def edges_of(spec, first, last, closed):
    """Edges of the bins from the one containing ``first`` to the one containing ``last`` (ns)."""
    f = spec["freq"]
    if isinstance(f, str):
        return calendar_edges(f, first, last, closed)
    a = anchor(spec, first)
    if closed == "left":
        k0 = (first - a) // f
        k1 = (last - a) // f + 1
    else:
        k0 = -((-(first - a)) // f) - 1
        k1 = -((-(last - a)) // f)
    return [a + k * f for k in range(k0, k1 + 1)]


def grouper(spec, key):
    kw = {}
    if "origin" in spec:
        o = spec["origin"]
        kw["origin"] = o if o in ("start", "start_day", "epoch") else pd.Timestamp(o)
    if spec.get("offset"):
        kw["offset"] = pd.Timedelta(spec["offset"], "ns")
    if spec.get("closed"):
        kw["closed"] = spec["closed"]
    if spec.get("label"):
        kw["label"] = spec["label"]
    freq = spec["freq"]
    g = TimeGrouper(key=key, freq=freq if isinstance(freq, str) else pd.tseries.frequencies.to_offset(pd.Timedelta(freq, "ns")), **kw)
    return g


def closed_of(spec):
    return spec.get("closed") or "left"


def ref_bins(on, spec):
    """List of (label, first row, end row, end value or None) for ordered values ``on`` (ints)."""
    closed = closed_of(spec)
    n = len(on)
    out = []
    if spec["kind"] == "time":
        edges = edges_of(spec, on[0], on[-1], closed)
        row = 0
        for lo, hi in zip(edges[:-1], edges[1:]):
            s = row
            while row < n and (on[row] < hi if closed == "left" else on[row] <= hi):
                row += 1
            out.append((hi if spec.get("label") == "right" else lo, s, row, hi))
        assert row == n
    elif spec["kind"] == "rows":
        x = spec["x"]
        for s in range(0, n, x):
            e = min(s + x, n)
            if closed == "left":
                end = on[e] if e < n else None
            else:
                end = on[e - 1] if e - s == x else None
            out.append((on[s], s, e, end))
    elif spec["kind"] == "edges":
        row = 0
        for hi in spec["edges"]:
            s = row
            while row < n and (on[row] < hi if closed == "left" else on[row] <= hi):
                row += 1
            out.append((hi, s, row, hi))
            if row == n:
                break
        assert row == n
    return out


def ref_points(on, spec, closed):
    """Observation points needed to cover the data: list of (label, value)."""
    if spec["kind"] == "time":
        edges = edges_of(spec, on[0], on[-1], closed)
        return [((hi if spec.get("label") == "right" else lo), hi) for lo, hi in zip(edges[:-1], edges[1:])]
    out = []
    for p in spec["points"]:
        out.append((p, p))
        if (on[-1] < p) if closed == "left" else (on[-1] <= p):
            break
    return out


def ref_snaps(on, bins, points, closed):
    """List of (label, rows of the ongoing bin located before the point)."""
    out = []
    for label, p in points:
        seen = sum(1 for v in on if (v < p if closed == "left" else v <= p))
        rows = (0, 0)
        for _, s, e, end in bins:
            if end is None or end >= p:
                rows = (s, max(s, min(e, seen)))
                break
        out.append((label, rows))
    return out


# ---------------------------------------------------------------------------------- aggregation

def ref_agg(values, func):
    if not values:
        return None
    if func == "first":
        return values[0]
    if func == "last":
        return values[-1]
    if func == "min":
        m = values[0]
        for v in values[1:]:
            if v < m:
                m = v
        return m
    if func == "max":
        m = values[0]
        for v in values[1:]:
            if v > m:
                m = v
        return m
    s = 0
    for v in values:
        s = s + v
    return s


def ref_table(bins_or_snaps, cols, agg):
    """Rows ``(label, *aggregates)`` with labels as ints; aggregates in order of ``agg``."""
    out = []
    for label, s, e in bins_or_snaps:
        out.append((label,) + tuple(ref_agg(cols[src][s:e], f) for src, f in agg.values()))
    return out


def plain(v):
    if v is None or v is pd.NaT or v is pd.NA:
        return None
    if isinstance(v, (datetime.datetime, np.datetime64)):
        return pd.Timestamp(v).value
    if hasattr(v, "item"):
        v = v.item()
    if v != v:
        return None
    return v


def table(df, agg):
    """Result of cumsegagg in the form of ``ref_table``."""
    labels = [plain(x) for x in df.index.tolist()]
    cols = [[plain(x) for x in df[name].astype(object).tolist()] for name in agg]
    return [tuple(t) for t in zip(labels, *cols)]


# ---------------------------------------------------------------------------------- data

# Per-row patterns: every function gives a distinct result on most of the sub-ranges.
INT_PATTERNS = {
    "mix": [5, -3, 8, -7, 2, 11, -1, 4],
    "neg": [-5, -3, -8, -7, -2, -11, -1, -4],
    "zero": [0, 3, 0, -2, 0, 0, 1, 0],
    "desc": [9, 8, 7, 6, 5, 4, 3, 2],
    "big": [2**60, -(2**60), 1, 2**53 + 1, -5, 7, 2**61, 3],
}


def columns(n, pattern="mix"):
    p = INT_PATTERNS[pattern] if isinstance(pattern, str) else list(pattern)
    i = [p[k % len(p)] for k in range(n)]
    f = [v / 4 + 0.5 for v in (p[(k + 3) % len(p)] for k in range(n))]
    d = [T0 + 1000 * (p[(k + 5) % len(p)] % 1000003) for k in range(n)]
    return {"i": i, "f": f, "d": d, "j": [v * 2 + 1 if abs(v) < 2**50 else v for v in i], "g": [-v for v in f]}


# Instants around the edges of calendar periods (2020-02-12 is a Wednesday, 2020-03-01 a Sunday).
CALENDAR = [pd.Timestamp(v).value for v in (
    "2020-01-15 10:00", "2020-01-31 23:59:59.999999999", "2020-02-01", "2020-02-12", "2020-02-29 12:00", "2020-03-01 00:00:00.000000001",
    "2020-04-01", "2020-06-30 01:00", "2020-10-01")]
CAL_FREQS = [("MS", "left"), ("MS", "right"), ("2MS", "left"), ("QS", "left"), ("QS", "right"), ("2W-WED", "left"), ("W-SUN", "left"), ("3MS", "right")]


def frame(on, cols, time=True, key="t"):
    n = len(on)
    data = {key: pd.to_datetime(pd.Series(on, dtype="int64")) if time else pd.Series(on)}
    for name, vals in cols.items():
        if name == "d":
            data[name] = pd.to_datetime(pd.Series(vals, dtype="int64"))
        elif name in ("i", "j"):
            data[name] = pd.Series(vals, dtype="int64")
        else:
            data[name] = pd.Series(vals, dtype="float64")
    return pd.DataFrame(data)


def long_layouts(sizes):
    """Longer ordered sequences: increments repeated from every small cyclic pattern."""
    for n in sizes:
        for inc in ((0, 0, 1), (1,), (0, 1, 3), (2, 0, 0, 0), (0,) * 9 + (1, 30)):
            on, v = [], 0
            for k in range(n):
                on.append(v)
                v += inc[k % len(inc)]
            yield on


FULL_AGG = {
    "f_last": ("f", "last"), "i_sum": ("i", "sum"), "d_first": ("d", "first"), "f_min": ("f", "min"),
    "i_first": ("i", "first"), "g_max": ("g", "max"), "d_max": ("d", "max"), "f_sum": ("f", "sum"),
    "i_min": ("i", "min"), "j_max": ("j", "max"), "i_last": ("i", "last"), "d_last": ("d", "last"),
    "f_first": ("f", "first"), "g_sum": ("g", "sum"), "d_min": ("d", "min"), "i_max": ("i", "max"), "j_first": ("j", "first"),
}
SMALL_AGG = {"i_sum": ("i", "sum"), "f_first": ("f", "first"), "i_last": ("i", "last"), "f_max": ("f", "max"), "i_min": ("i", "min")}
