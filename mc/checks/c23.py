"""C23: each key of a stream gets its own settings, and defaults for the others only.

Exhaustive enumeration of (stream defaults x settings of a key x settings of another key x shape of 'keys'), run on the
real AggStream over a seed cut in chunks and calls. Oracles: plain Python aggregation with the settings in force for
each key, and the dataset (rows, row groups, metadata, compression, calls of post-processing) left by a stream made for
this key alone, settings in force being given one by one to the constructor.
"""
import itertools
import warnings

import pandas as pd

from mc import agg_lib as al
from mc import store_lib as sl
from mc import stream_lib as st
from mc.core import CaseTimeout, Result, time_limit
from oups import AggStream, ParquetSet

warnings.filterwarnings("ignore")

PROP = "C23"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "exhaustive enumeration of stream defaults and key settings, run on the real AggStream; settings in force computed in plain Python, plain Python aggregation and single-key stream as oracles"
NOTE = "Settings in force for a key are its own ones, then those of the stream; rows are checked against plain Python, layout and metadata against a stream for this key alone, and the size of row groups against the setting."
RULE = "one case = one set of stream defaults, one set of settings for each of two keys, one shape of 'keys', run on the real AggStream in two calls; non-trivial: at least one setting of a key differs from the default"
ASSUMPTIONS = ["no aggregated value is 0 (refused by AggStream by design)", "column 'ordered_on' is the same for all keys"]

SEQ = (0, 1, 2, 3, 4, 5, 8, 9)
CALLS = ((2, 3), (5, 6, 8))  # cutting of the seed: ends of the chunks of each call
AGGS = {"d": {"n": ("i", "sum"), "fo": ("f", "first")}, "k": {"n": ("i", "sum"), "gx": ("g", "max"), "fl": ("f", "last")}}
BINS = {"a": st.T(2), "b": st.T(3, origin="start")}
# Without empty bin, for results ordered by another column than labels.
BINS_GRP = {"a": st.T(4), "b": st.T(3, origin="start")}
SNAPS = {"d": st.snap(1), "k": st.snap(2, label="right")}
UNSET, NONE = "unset", None
LOG = {}


def post_d(buffer, bin_res, snap_res=None):
    return tag("d", buffer, bin_res, snap_res)


def post_k(buffer, bin_res, snap_res=None):
    return tag("k", buffer, bin_res, snap_res)


def tag(name, buffer, bin_res, snap_res):
    """Row-wise, which post-processing is applied being visible in results; keeps count in its buffer."""
    buffer["by"] = name
    buffer["calls"] = buffer.get("calls", 0) + 1
    # Snapshots if alone, the type of results being told by the presence of 'pair' column in aggregation.
    df = (bin_res if snap_res is None else snap_res).copy()
    df["p"] = df["n"].astype("float64") * 2 + (1 if name == "d" else 3)
    if snap_res is not None and PAIR[0]:
        b = bin_res.copy()
        b["p"] = b["n"].astype("float64") * 2 + (1 if name == "d" else 3)
        return b, df
    return df


PAIR = [False]
POSTS = {"d": post_d, "k": post_k}
# Settings: names, and values in the stream defaults / in a key.
DEFAULTS = {"snap": (NONE, "d"), "post": (NONE, "d"), "size": (UNSET, 2), "dup": (UNSET, "n"), "nirgs": (UNSET, 1), "mem": (UNSET, 0), "md": (UNSET, "d"), "comp": (UNSET, "GZIP")}
OWN = {"agg": (UNSET, "k"), "snap": (UNSET, NONE, "k"), "post": (UNSET, NONE, "k"), "size": (UNSET, 3), "dup": (UNSET, NONE, "t", []), "nirgs": (UNSET, NONE, 0), "mem": (UNSET, 0, 100),
       "md": (UNSET, "k"), "comp": (UNSET, "SNAPPY"), "grp": (UNSET, "grp")}
PARAM = {"snap": "snap_by", "post": "post", "size": "max_row_group_size", "dup": "duplicates_on", "nirgs": "max_nirgs", "mem": "max_in_memory_size", "md": "metadata", "comp": "compression",
         "agg": "agg"}


def value(name, v):
    if v is None:
        return None
    if name == "snap":
        return al.grouper(SNAPS[v], "t")
    if name == "post":
        return POSTS[v]
    if name == "agg":
        return dict(AGGS[v])
    if name == "md":
        return {"from": v}
    if name == "size" and isinstance(v, list):
        # From a replay file.
        return tuple(v)
    return v


def params(name, settings):
    """Real parameters for key ``name`` (None: defaults of the stream)."""
    out = {PARAM[k]: value(k, v) for k, v in settings.items() if v != UNSET and k != "grp"}
    if settings.get("grp"):
        # Labels are in column 'grp', and ordered column comes from aggregation.
        out["bin_on"] = ("t", "grp")
        out["agg"] = {**AGGS[settings.get("agg", "d")], "t": ("t", "first")}
    if name is not None:
        out["bin_by"] = al.grouper((BINS_GRP if settings.get("grp") else BINS)[name], "t")
    return out


def in_force(default, own):
    """Settings in force for a key, UNSET ones left out."""
    out = {k: v for k, v in default.items() if v != UNSET}
    out.update({k: v for k, v in own.items() if v != UNSET})
    return out


def key_of(name, pair):
    return (st.K(name), st.K(name + "s")) if pair else st.K(name)


def feed(stream, df):
    pos = 0
    for ends in CALLS:
        chunks = []
        for e in ends:
            chunks.append(df.iloc[pos:e].reset_index(drop=True))
            pos = e
        stream.agg(chunks)


def left(base, names):
    """What is recorded for keys ``names``, from a store opened anew."""
    store = ParquetSet(base, st.K)
    out = []
    for n in names:
        k = st.K(n)
        if k not in store:
            out.append(None)
            continue
        h = store[k]
        df = h.pdf
        md = {x: y for x, y in h.metadata.items() if x not in ("pandas", "PANDAS_ATTRS", "oups")}
        oups = h._oups_metadata.get("aggstream") if "oups" in h.metadata else None
        post = None if oups is None else oups["post_buffer"]
        out.append({"columns": list(df.columns), "rows": [tuple(al.plain(v) for v in r) for r in df.astype(object).itertuples(index=False, name=None)],
                    "row_groups": [rg.num_rows for rg in h.pf.row_groups], "metadata": md, "post": post, "restart": None if oups is None else al.plain(oups["restart_index"]),
                    "codec": sorted({c.meta_data.codec for rg in h.pf.row_groups for c in rg.columns})})
    return out


def expected(name, force, pair, on):
    """Rows expected per dataset. Not being a duplicate on other columns, last row of 1st call may remain, before its final version."""
    out = aggregated(name, force, pair, on)
    if force.get("dup") in (None, "t"):
        return out
    for k, (_, first) in enumerate(aggregated(name, force, pair, on[: CALLS[0][-1]])):
        cols, rows = out[k]
        at = [r[0] for r in rows].index(first[-1][0])
        if rows[at] != first[-1]:
            out[k] = (cols, [*rows[:at], first[-1], *rows[at:]])
    return out


def aggregated(name, force, pair, on):
    """Plain Python aggregation, per dataset."""
    agg = AGGS[force["agg"]]
    if force.get("grp"):
        bins = st.ref_bins(on, BINS_GRP[name])
        rows = al.ref_table([x[:3] for x in bins], st.columns_at(range(len(on))), agg)
        rows = [r + (on[x[1]],) for r, x in zip(rows, bins)]
        cols = ["grp", *agg, "t"]
        if force.get("post"):
            rows, cols = [r + (float(r[1]) * 2 + (1 if force["post"] == "d" else 3),) for r in rows], cols + ["p"]
        return [(cols, rows)]
    kc = {"bin": BINS[name], "agg": agg}
    if force.get("snap"):
        kc["snap"] = SNAPS[force["snap"]]
    bins, snaps = st.expected(kc, on, range(len(on)))
    cols = ["t", *agg]
    if force.get("post"):
        extra = 1 if force["post"] == "d" else 3
        f = lambda r: r + (None if r[1] is None else float(r[1]) * 2 + extra,)
        bins, snaps = [f(r) for r in bins], None if snaps is None else [f(r) for r in snaps]
        cols = cols + ["p"]
    tables = [bins, snaps] if pair else [bins if snaps is None else snaps]
    return [(cols, t) for t in tables]


_alone = {}


def alone(name, force, pair, df):
    """Datasets left by a stream for this key only, made with the constructor."""
    k = repr((name, sorted(force.items(), key=str), pair))
    if k not in _alone:
        base = sl.tmpdir()
        try:
            stream = AggStream(ordered_on="t", store=ParquetSet(base, st.K), keys=key_of(name, pair), **params(name, force))
            feed(stream, df)
            _alone[k] = left(base, [name, name + "s"] if pair else [name])
        finally:
            sl.drop(base)
    return _alone[k]


def run_case(c):
    df, on = st.seed_frame({"seq": SEQ})
    pair = c["pair"]
    PAIR[0] = pair
    default = dict(c["default"], agg="d")
    base = sl.tmpdir()
    out = []
    try:
        with time_limit(120):
            store = ParquetSet(base, st.K)
            conf = {}
            for name in ("a", "b"):
                conf[name] = params(name, c[name])
            keys = {key_of(n, pair): conf[n] for n in ("a", "b")}
            kw = params(None, default)
            if c["shape"] == "filters":
                # One key without filter, another with a filter which keeps everything.
                keys = {"_": {key_of("a", pair): conf["a"]}, "f": {key_of("b", pair): conf["b"]}}
                kw["filters"] = {"f": [("i", ">", 0)]}
            elif c["shape"] == "swap":
                keys = {key_of(n, pair): conf[n] for n in ("b", "a")}
            stream = AggStream(ordered_on="t", store=store, keys=keys, **kw)
            feed(stream, df)
            for name in ("a", "b"):
                force = in_force(default, c[name])
                names = [name, name + "s"] if pair else [name]
                got = left(base, names)
                want = alone(name, force, pair, df)
                if got != want:
                    for n, g, w in zip(names, got, want):
                        if g is None or w is None:
                            out.append(f"dataset {n}: {g} instead of {w}")
                            continue
                        for f in g:
                            if g[f] != w[f]:
                                out.append(f"dataset {n}: {f} {g[f]}, while {w[f]} for this key alone with settings {force}")
                for k, (n, g, (cols, rows)) in enumerate(zip(names, got, expected(name, force, pair, on))):
                    if g is None:
                        out.append(f"dataset {n} missing")
                        continue
                    if sorted(g["columns"]) != sorted(cols):
                        out.append(f"dataset {n}: columns {g['columns']}, expected {cols}")
                        continue
                    perm = [g["columns"].index(x) for x in cols]
                    have = [tuple(r[j] for j in perm) for r in g["rows"]]
                    if have != rows:
                        out.append(f"dataset {n}: rows {have}, expected {rows}")
                    size = force.get("size")
                    size = size[k] if isinstance(size, (tuple, list)) else size
                    if size and max(g["row_groups"]) > size and len({r[0] for r in rows}) == len(have):
                        out.append(f"dataset {n}: row groups {g['row_groups']} for a size of {size}")
                    if not size and not force.get("mem", 1) == 0 and len(g["row_groups"]) > 2:
                        out.append(f"dataset {n}: row groups {g['row_groups']} for two writes with no size set")
                    if g["metadata"] != ({"from": force["md"]} if force.get("md") else {}):
                        out.append(f"dataset {n}: metadata {g['metadata']} for settings {force}")
                    if force.get("comp") and len(g["codec"]) != 1 or g["codec"] != [{"GZIP": 2}.get(force.get("comp"), 1)]:
                        out.append(f"dataset {n}: codec {g['codec']} for settings {force}")
                main = got[0]
                if main is not None:
                    if (main["post"] or {}).get("by") != force.get("post"):
                        out.append(f"dataset {name}: post-processing buffer {main['post']} for settings {force}")
    except CaseTimeout:
        return ["does not terminate (120 s)"]
    except Exception as e:
        return [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''}"]
    finally:
        sl.drop(base)
    return out


def own_settings(most):
    """All settings of a key having at most ``most`` specified parameters."""
    names = list(OWN)
    for r in range(most + 1):
        for which in itertools.combinations(names, r):
            for vals in itertools.product(*([v for v in OWN[n] if v != UNSET] for n in which)):
                yield dict(zip(which, vals))


def all_cases(quick):
    """Key with labels in another column: without snapshots, which have no ordered column then."""
    for c in products(quick):
        for name in ("a", "b"):
            own = c[name]
            if own.get("grp"):
                if own.get("snap") or c["pair"]:
                    break
                if c["default"].get("snap"):
                    c[name] = dict(own, snap=None)
        else:
            yield c


def products(quick):
    shapes = itertools.cycle(("flat", "filters", "swap"))
    others = list(own_settings(1))
    rot = itertools.cycle(others)
    names = list(DEFAULTS)
    defaults = [{n: v for n, v in zip(names, vals) if v != UNSET} for vals in itertools.product(*DEFAULTS.values())]
    if quick:
        # At most two defaults, or all of them, or all but one or two.
        defaults = [d for d in defaults if sum(v not in (UNSET, None) for v in d.values()) in (0, 1, len(names))]
    for d in defaults:
        for own in own_settings(2):
            if not quick or len(own) < 2:
                for pair in (False, True):
                    if pair and not (own.get("snap") or d.get("snap") and own.get("snap", 0) is not None):
                        continue
                    for shape in (("flat", "filters") if quick else ("flat", "filters", "swap")):
                        b = next(rot)
                        if pair and not (b.get("snap") or d.get("snap") and b.get("snap", 0) is not None):
                            b = {"snap": "k"}
                        yield {"default": d, "a": own, "b": b, "pair": pair, "shape": shape}
            else:
                pair = bool(own.get("snap") or d.get("snap") and own.get("snap", 0) is not None) and len(str(own)) % 2 == 0
                b = next(rot)
                if pair and not (b.get("snap") or d.get("snap") and b.get("snap", 0) is not None):
                    b = {"snap": "k"}
                yield {"default": d, "a": own, "b": b, "pair": pair, "shape": next(shapes)}


def pair_sizes(quick):
    """Sizes of row groups given for each dataset of a pair."""
    sizes = (UNSET, None, 2, (2, 3), (3, 1), (None, 2))
    for d in sizes:
        for a in sizes:
            for b in sizes[::2] if quick else sizes:
                for more in ({}, {"mem": 0, "nirgs": 1}):
                    default = {k: v for k, v in dict({"snap": "d", "size": d}, **more).items() if v != UNSET}
                    yield {"default": default, "a": {"size": a} if a != UNSET else {}, "b": {"size": b} if b != UNSET else {}, "pair": True, "shape": "flat"}


def work(cases):
    res = Result()
    for c in cases:
        problems = run_case(c)
        res.n["states"] += 1
        res.n["traces_validated_against_impl"] += 1
        res.case(repr(c), nontrivial=bool(c["a"] or c["b"]))
        for p in problems:
            res.bad(f"{p} for {c}", c)
        if not problems and c["a"]:
            res.sample(c)
    return res


def replay(c):
    return run_case(c)


def explore(run):
    cases = list(all_cases(run.quick)) + list(pair_sizes(run.quick))
    run.notes["cases"] = len(cases)
    n = min(len(cases), 400)
    run.run_all(work, [cases[k::n] for k in range(n)])
