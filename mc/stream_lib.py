"""Driver and reference for AggStream histories.

A configuration is a JSON dict; ``build`` turns it into the arguments of the real ``AggStream``;
``expected`` gives the rows which have to be recorded, from plain Python definitions (``mc.agg_lib``).
"""
import warnings
from functools import partial

warnings.filterwarnings("ignore")

import numpy as np
import pandas as pd
from joblib import parallel_config

from mc import agg_lib as al
from mc import store_lib as sl
from oups import AggStream, ParquetSet, toplevel

warnings.filterwarnings("ignore")


# Keys are processed one after the other, without threads (interleavings are explored by C21 only).
parallel_config(backend="sequential")


@toplevel
class K:
    name: str


MB = 1048576
AGG = {"n": ("i", "sum"), "fo": ("f", "first"), "fl": ("f", "last"), "fm": ("f", "min"), "gx": ("g", "max")}
# 'i' holds powers of 2: a sum tells exactly which rows have been aggregated, and how many times.
F = [1.5, -2.5, 3.5, -0.5, 7.25, -4.5, 2.5, 0.5, -1.5, 9.5, -6.5, 4.25]
G = [-1, 4, -2, 9, -8, 3, 5, -6, 7, -3, 2, -5]


def t_values(seq, typ="ts", step=al.H // 2, base=0):
    """Ordered values: int offsets in units of ``step`` for timestamps."""
    if typ == "ts":
        return [al.T0 + v * step for v in seq]
    if typ == "int":
        return [v + base for v in seq]
    if typ == "float":
        return [(v + base) / 2 for v in seq]
    raise ValueError(typ)


def seed_frame(c):
    """Full seed of a case: c["seq"] (offsets), c["typ"], optional c["flt"] (filter column)."""
    on = t_values(c["seq"], c.get("typ", "ts"), c.get("step", al.H // 2), c.get("base", 0))
    n = len(on)
    t = pd.to_datetime(pd.Series(on, dtype="int64")) if c.get("typ", "ts") == "ts" else pd.Series(on)
    data = {"t": t, "i": pd.Series([2**k for k in range(n)], dtype="int64"),
            "f": pd.Series([F[k % len(F)] for k in range(n)], dtype="float64"),
            "g": pd.Series([G[k % len(G)] for k in range(n)], dtype="int64")}
    for name, vals in (c.get("extra") or {}).items():
        data[name] = pd.Series(vals)
    return pd.DataFrame(data), on


def chunks_of(df, cuts, reset=True, empties=()):
    """Successive pieces of ``df`` cut at positions ``cuts``; ``empties``: indices before which an empty chunk is added."""
    bounds = [0, *cuts, len(df)]
    out = []
    for k, (a, b) in enumerate(zip(bounds[:-1], bounds[1:])):
        if k in empties:
            out.append(df.iloc[a:a].reset_index(drop=True))
        piece = df.iloc[a:b]
        out.append(piece.reset_index(drop=True) if reset else piece)
    return out


SHIFT = 2**40


def shifted(chunks):
    """Chunks which ``unshift`` has to be applied to, exactly once."""
    return [ch.assign(i=ch["i"] + SHIFT) for ch in chunks]


def unshift(on, buffer):
    """Preprocessing modifying its chunk in place."""
    on["i"] = on["i"] - SHIFT


# ------------------------------------------------------------------------------ binning callables

def by_value(on, buffer, width):
    """Bins of fixed width over an int or float column; labels are bin starts; no empty bin in between.

    When restarting, the first bin is the last one of the previous call, possibly without any new row (contract of callables).
    """
    v = on.iloc[:, -1] if isinstance(on, pd.DataFrame) else on
    lab = (v // width) * width
    starts = np.flatnonzero(np.r_[True, lab.to_numpy()[1:] != lab.to_numpy()[:-1]])
    ncs = np.append(starts[1:], len(v)).astype("int64")
    labels = lab.iloc[starts].reset_index(drop=True)
    n_null = 0
    if buffer is not None:
        if "label" in buffer and buffer["label"] != labels.iloc[0]:
            labels = pd.concat([pd.Series([buffer["label"]]), labels]).reset_index(drop=True)
            ncs = np.insert(ncs, 0, 0)
            n_null = 1
        buffer["label"] = labels.iloc[-1]
    return ncs, labels, n_null, "left", labels + width, False


def by_rows(on, buffer, x):
    """Bins of ``x`` rows, restarting from the buffer; labels are the first ordered values."""
    v = on.iloc[:, -1] if isinstance(on, pd.DataFrame) else on
    ncs, labels = [], []
    pos, last, n_null = 0, None, 0
    if buffer:
        last = buffer["held"]
        pos = min(x - last, len(v))
        last += pos
        n_null = int(pos == 0)
        ncs.append(pos)
        labels.append(buffer["label"])
    while pos < len(v):
        labels.append(v.iloc[pos])
        last = min(x, len(v) - pos)
        pos += last
        ncs.append(pos)
    if buffer is not None:
        buffer["held"], buffer["label"] = last, labels[-1]
    labels = pd.Series(labels)
    return np.array(ncs, dtype="int64"), labels, n_null, "left", labels, True


# ------------------------------------------------------------------------------ keys

def key_of(kc):
    names = kc["key"]
    return tuple(K(n) for n in names) if isinstance(names, list) else K(names)


def bin_arg(kc):
    b = kc["bin"]
    if b["kind"] == "time":
        return al.grouper(b, "t")
    if b["kind"] == "value":
        return partial(by_value, width=b["width"])
    return partial(by_rows, x=b["x"])


def post_rowwise(buffer, bin_res, snap_res=None):
    """Stateless: works row by row."""
    def one(df):
        df = df.copy()
        df["p"] = df["n"].astype("float64") * 2 + 1
        return df
    if snap_res is None:
        return one(bin_res)
    return one(bin_res), one(snap_res)


def post_snaponly(buffer, bin_res, snap_res):
    df = snap_res.copy()
    df["p"] = df["n"].astype("float64") * 2 + 1
    return df


def log_rows(df):
    df = df[["t", *AGG]]
    return [[al.plain(v) for v in r] for r in df.astype(object).itertuples(index=False, name=None)]


def post_log(buffer, bin_res, snap_res=None):
    """Keeps in its buffer all it has been given, and how many times it was called."""
    buffer.setdefault("calls", []).append(log_rows(bin_res))
    buffer["rows"] = buffer.get("rows", 0) + len(bin_res)
    if snap_res is None:
        return bin_res
    buffer.setdefault("snaps", []).append(log_rows(snap_res))
    return bin_res, snap_res


def post_warmup(buffer, bin_res, snap_res=None):
    """No result as long as fewer than 2 calls have been made; then releases all bins seen (last version of each)."""
    buffer["calls"] = buffer.get("calls", 0) + 1
    held = buffer.get("held")
    both = bin_res if held is None else pd.concat([held, bin_res], ignore_index=True)
    both = both.drop_duplicates("t", keep="last").reset_index(drop=True)
    buffer["held"] = both
    if buffer["calls"] < 2:
        return None
    return both


def post_warmlog(buffer, bin_res, snap_res=None):
    """No result as long as fewer than 3 bins are known, then all of them; keeps all it has been given."""
    post_log(buffer, bin_res)
    held = buffer.get("held")
    both = bin_res if held is None else pd.concat([held, bin_res], ignore_index=True)
    buffer["held"] = both = both.drop_duplicates("t", keep="last").reset_index(drop=True)
    return both if len(both) >= WARM else None


WARM = 3
POSTS = {"warmlog": post_warmlog, "rowwise": post_rowwise, "log": post_log, "snaponly": post_snaponly, "warmup": post_warmup}


def key_conf(kc):
    conf = {"bin_by": bin_arg(kc), "agg": dict(kc.get("agg", AGG))}
    conf["agg"] = {k: tuple(v) for k, v in conf["agg"].items()}
    if kc.get("snap"):
        conf["snap_by"] = al.grouper(kc["snap"], "t")
    if kc.get("post"):
        conf["post"] = POSTS[kc["post"]]
    if kc.get("bin_on"):
        conf["bin_on"] = tuple(kc["bin_on"]) if isinstance(kc["bin_on"], list) else kc["bin_on"]
    conf.update({k: tuple(v) if isinstance(v, list) and k == "max_row_group_size" else v for k, v in kc.get("write", {}).items()})
    if kc.get("mem") is not None:
        conf["max_in_memory_size"] = kc["mem"] / MB
    return conf


def make(store, c, pre=None):
    """The real AggStream for case ``c``: c["keys"] list of key configurations, optional "filter" id in each."""
    kw = {}
    if c.get("filters"):
        kw["filters"] = {fid: (None if f is None else [[tuple(x) for x in part] for part in f]) for fid, f in c["filters"].items()}
        keys = {}
        for kc in c["keys"]:
            keys.setdefault(kc.get("filter", "_"), {})[key_of(kc)] = key_conf(kc)
    else:
        keys = {key_of(kc): key_conf(kc) for kc in c["keys"]}
    return AggStream(ordered_on="t", store=store, keys=keys, pre=pre, parallel=bool(c.get("parallel")), **kw)


# ------------------------------------------------------------------------------ reference

def ref_bins(on, b):
    if b["kind"] == "time":
        return al.ref_bins(on, b)
    n = len(on)
    out = []
    if b["kind"] == "value":
        for k, v in enumerate(on):
            lab = (v // b["width"]) * b["width"]
            if out and out[-1][0] == lab:
                out[-1][2] = k + 1
            else:
                out.append([lab, k, k + 1, None])
    else:
        for s in range(0, n, b["x"]):
            out.append([on[s], s, min(s + b["x"], n), None])
    return [tuple(x) for x in out]


def columns_at(rows):
    """Columns of the seed restricted to row positions ``rows`` of the full seed."""
    return {"i": [2**k for k in rows], "f": [F[k % len(F)] for k in rows], "g": [G[k % len(G)] for k in rows]}


def expected(kc, on, rows):
    """Tables (bins, snaps or None) expected for a key when rows ``rows`` of the seed are aggregated."""
    agg = {k: tuple(v) for k, v in kc.get("agg", AGG).items()}
    if not rows:
        return [], ([] if kc.get("snap") else None)
    sub = [on[k] for k in rows]
    cols = columns_at(rows)
    b = ref_bins(sub, kc["bin"])
    bins = al.ref_table([(l, s, e) for l, s, e, _ in b], cols, agg)
    snaps = None
    if kc.get("snap"):
        closed = al.closed_of(kc["bin"])
        pts = al.ref_points(sub, kc["snap"], closed)
        snaps = al.ref_table([(l, s, e) for l, (s, e) in al.ref_snaps(sub, b, pts, closed)], cols, agg)
    if kc.get("post") in ("rowwise", "snaponly"):
        k = 1 + list(agg).index("n")
        f = lambda t: t + (None if t[k] is None else float(t[k]) * 2 + 1,)
        bins = [f(t) for t in bins]
        snaps = None if snaps is None else [f(t) for t in snaps]
    if kc.get("post") == "warmlog" and len(bins) < WARM:
        bins = []
    return bins, snaps


def read(base, name, agg_names):
    """Rows recorded for a key, read from a store opened anew: (rows or None when there is no dataset)."""
    store = ParquetSet(base, K)
    if K(name) not in store:
        return None
    pf = store[K(name)].pf
    if not pf.row_groups:
        return []
    df = store[K(name)].pdf
    cols = list(df.columns)
    want = ["t", *agg_names]
    if sorted(cols) != sorted(want):
        return [("columns", tuple(cols))]
    df = df[want]
    return [tuple(al.plain(v) for v in r) for r in df.astype(object).itertuples(index=False, name=None)]


def names_of(kc):
    extra = ["p"] if kc.get("post") in ("rowwise", "snaponly") else []
    return [*kc.get("agg", AGG), *extra]


def compare(base, c, on, rows_of, when=""):
    """Problems when what is recorded differs from the aggregation of rows ``rows_of(kc)``."""
    out = []
    for kc in c["keys"]:
        bins, snaps = expected(kc, on, rows_of(kc))
        names = kc["key"]
        if isinstance(names, list):
            pairs = [(names[0], bins), (names[1], snaps)]
        else:
            pairs = [(names, bins if snaps is None else snaps)]
        for name, want in pairs:
            got = read(base, name, names_of(kc))
            if (got or []) != want:
                out.append(f"{when}key {name}: recorded {got}, expected {want}")
    return out


def restart_of(base, name):
    """Aggregation metadata recorded for a key (None if none)."""
    store = ParquetSet(base, K)
    if K(name) not in store:
        return None
    md = store[K(name)]._oups_metadata if "oups" in store[K(name)].metadata else None
    return None if not md else md.get("aggstream")


def main_name(kc):
    return kc["key"][0] if isinstance(kc["key"], list) else kc["key"]


# Key configurations used by several checks.
def T(freq=2, closed="left", label="left", **o):
    return dict(kind="time", freq=freq * al.H // 2, closed=closed, label=label, **o)


def snap(freq=1, closed="left", label="left", **o):
    return dict(kind="time", freq=freq * al.H // 2, closed=closed, label=label, **o)
