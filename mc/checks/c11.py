"""C11: inputs given by the caller are never modified.

Every entry point is called with every combination of a menu of inputs and parameters, in every state of a menu, with
and without failure. A deep image of every object given is compared before and after; then the same objects are used
a second time (another key, another store, another call) and the outcome is compared with that of fresh objects.
"""
import itertools
import os
import shutil

import numpy as np
import pandas as pd
from pandas import Grouper
from vaex import from_pandas

from mc import agg_lib as al
from mc import faults
from mc import store_lib as sl
from mc import stream_lib as st
from mc.core import CaseTimeout, Result, time_limit
from mc.freeze import diff, freeze
from oups import AggStream, ParquetSet
from oups.aggstream.cumsegagg import cumsegagg, setup_cumsegagg
from oups.aggstream.segmentby import segmentby, setup_segmentby
from oups.aggstream.utils import dataframe_filter
from oups.store import writer
from oups.store.writer import to_midx, write

PROP = "C11"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "exhaustive enumeration of entry points x inputs x parameters x states (failures included) on the real code; deep comparison of inputs, and fresh objects as oracle"
RULE = ("one case = one call (entry point, input, parameters, state, failure) followed by a second one with the same objects; non-trivial: the "
        "call went through, or failed as planned")
NOTE = ("All combinations of the menus. The image compared covers values, types, index, column names and levels, attributes of groupers, order and "
        "type of containers. In-place objects by contract (aggregation buffers, callables' own state) are excluded.")
ASSUMPTIONS = ["buffers given to cumsegagg() and user callables are modified by contract", "user callables do not modify what they are given"]

Key = sl.Key

# ------------------------------------------------------------------------------ A: writes


def plain(vals, first=0, index=None):
    df = pd.DataFrame({"a": pd.Series(list(vals), dtype="int64"), "b": pd.Series(range(first, first + len(vals)), dtype="int64"),
                       "s": pd.Series([None if v % 5 == 0 else "s%d" % v for v in vals], dtype=object)})
    if index == "named":
        df.index = pd.Index([7 * k for k in range(len(df))], name="idx")
    elif index == "dup":
        df.index = [3] * len(df)
    return df


def flat_midx(vals):
    df = plain(vals)
    df.columns = ["('a','x')", "('b','y')", "('s','')"]
    return df


def midx(vals, names=("l0", "l1")):
    df = plain(vals)
    df.columns = pd.MultiIndex.from_tuples([("a", "x"), ("b", "y"), ("s", "")], names=names)
    return df


def no_string(vals):
    return plain(vals).assign(s=pd.Series([None] * len(vals), dtype=object))


def vx(df):
    return from_pandas(df)


def vx_filtered(vals):
    v = from_pandas(plain([0, *vals, 99]))
    return v[(v.a > 0) & (v.a < 99)]


def vx_virtual(vals):
    v = from_pandas(plain(vals))
    v["b"] = v.b * 2
    return v


class View:
    """A slice of a bigger dataframe: the bigger one is to be left as it is as well."""

    def __init__(self, vals):
        self.parent = plain([-1, *vals, 99])
        self.df = self.parent.iloc[1:-1]


DATA = {
    "plain": plain,
    "named index": lambda v: plain(v, index="named"),
    "duplicated index": lambda v: plain(v, index="dup"),
    "null strings": no_string,
    "view": View,
    "vaex": lambda v: vx(plain(v)),
    "vaex filtered": vx_filtered,
    "vaex virtual": vx_virtual,
}
MULTI = {"flat": flat_midx, "midx": midx, "vaex flat": lambda v: vx(flat_midx(v))}
PARAMS = {
    "none": {},
    "rgs": {"max_row_group_size": 2, "compression": "GZIP"},
    "nirgs": {"max_row_group_size": 3, "max_nirgs": 1},
    "ordered": {"ordered_on": "a", "max_row_group_size": 2},
    "dup str": {"ordered_on": "a", "duplicates_on": "b"},
    "dup self": {"ordered_on": "a", "duplicates_on": "a", "max_row_group_size": 2},
    "dup list": {"ordered_on": "a", "duplicates_on": ["b"], "max_row_group_size": 2},
    "dup list2": {"ordered_on": "a", "duplicates_on": ["b", "s"], "max_nirgs": 0, "max_row_group_size": 4},
    "dup list with": {"ordered_on": "a", "duplicates_on": ["a", "b"]},
    "dup all": {"ordered_on": "a", "duplicates_on": []},
    "metadata": {"metadata": {"m": "1", "n": "2"}},
    "metadata none": {"metadata": {"m": None, "n": "2"}, "ordered_on": "a", "max_row_group_size": 3},
    "metadata empty": {"metadata": {}, "max_nirgs": 2},
    "app": {"metadata": {"m": "1"}, "app": {"x": 1, "y": None, "z": [1, 2]}},
    "app only": {"app": {"x": {"k": 0}}, "ordered_on": "a"},
}
MPARAMS = {
    "expand": {"cmidx_expand": True},
    "expand levels": {"cmidx_expand": True, "cmidx_levels": ["one"]},
    "expand all levels": {"cmidx_expand": True, "cmidx_levels": ["one", "two"]},
    "expand metadata": {"cmidx_expand": True, "cmidx_levels": [], "metadata": {"m": "1"}, "max_row_group_size": 9},
    "plain": {},
}
STATES = {"new": None, "after": [1, 2], "inside": [1, 3, 4, 8, 9, 12], "before": [20, 21], "same": [4, 6]}
VALS = [4, 6, 6, 10]


def data_of(kind, vals):
    made = {**DATA, **MULTI}[kind](vals)
    return (made.df, made.parent) if isinstance(made, View) else (made, None)


def build(state, base, name, multi):
    vals = STATES[state]
    if vals is not None:
        store = ParquetSet(base, Key)
        store.set(Key(name), midx(vals) if multi else plain(vals, 100), max_row_group_size=2, metadata={"m": "old", "k": "keep"})


def call(store, base, name, params, data, entry):
    kw = dict(params)
    app = kw.pop("app", None)
    k = Key(name)
    if app is not None:
        writer.OUPS_METADATA[k] = app
    try:
        if entry == "set":
            store.set(k, data, **kw)
        elif entry == "item":
            store[k] = (kw, data) if kw else data
        else:
            write(os.path.join(base, k.to_path), data, md_key=k, **kw)
    finally:
        writer.OUPS_METADATA.pop(k, None)


def content(base, name):
    store = ParquetSet(base, Key)
    if Key(name) not in store:
        return None
    h = store[Key(name)]
    df = h.pf.to_pandas()
    return [repr(list(df.columns)), [str(t) for t in df.dtypes], sl.rows(df), [rg.num_rows for rg in h.pf.row_groups],
            sorted((a, b) for a, b in h.metadata.items() if a != "pandas")]


def given(params, data, parent):
    """What is looked at before and after. Data is made of the object itself (not a copy)."""
    return {"data": data, "parent": parent, "params": params}


def run_write(c):
    base = sl.tmpdir()
    out = []
    try:
        with time_limit(120):
            multi = c["data"] in MULTI
            params = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in (MPARAMS if multi else PARAMS)[c["params"]].items()}
            vals = [] if c.get("empty") else VALS
            data, parent = data_of(c["data"], vals)
            for name in ("d", "e", "f"):
                build(c["state"], base, name, multi)
            store = ParquetSet(base, Key)
            objs = given(params, data, parent)
            before = freeze(objs)
            e = None
            if c.get("fail") is not None:
                with faults.Faults(faults.new_data_file(base), ("open", c["fail"])) as f:
                    e = sl.attempt(call, store, base, "d", params, data, c["entry"])
                if not f.fired:
                    return None
            else:
                e = sl.attempt(call, store, base, "d", params, data, c["entry"])
            after = freeze(objs)
            d = diff(before, after)
            if d:
                out.append(f"modified: {d}")
            # Same objects for another dataset: as with fresh ones.
            e2 = sl.attempt(call, store, base, "e", params, data, c["entry"])
            d = diff(before, freeze(objs))
            if d and not out:
                out.append(f"modified by second use: {d}")
            fresh = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in (MPARAMS if multi else PARAMS)[c["params"]].items()}
            fdata, _ = data_of(c["data"], vals)
            e3 = sl.attempt(call, store, base, "f", fresh, fdata, c["entry"])
            if type(e2) is not type(e3):
                out.append(f"second use ends with {e2!r}, fresh objects with {e3!r}")
            if content(base, "e") != content(base, "f"):
                out.append(f"second use gives {content(base, 'e')}, fresh objects {content(base, 'f')}")
            if c.get("fail") is None and (type(e) is not type(e2) or content(base, "d") != content(base, "e")):
                out.append(f"first use gives {e!r} {content(base, 'd')}, second {e2!r} {content(base, 'e')}")
    except CaseTimeout:
        return ["does not terminate (120 s)"]
    except Exception as e:
        return [f"raised {type(e).__name__}: {e}"]
    finally:
        sl.drop(base)
    return out


def write_cases(quick):
    flips = itertools.cycle(["set", "item", "write"])
    for state in STATES:
        for data in DATA:
            for params in PARAMS:
                c = {"part": "write", "state": state, "data": data, "params": params}
                for entry in [next(flips)] if quick else ["set", "item", "write"]:
                    yield dict(c, entry=entry)
                if not data.startswith("vaex") and params in ("none", "ordered", "dup list", "metadata", "app") and data != "view":
                    yield dict(c, entry=next(flips), empty=True)
                for k in (0, 1) if quick else (0, 1, 2, 3):
                    yield dict(c, entry=next(flips), fail=k)
        for data in MULTI:
            for params in MPARAMS:
                if state != "new" and params != "plain":
                    continue
                for entry in ("set", "item", "write"):
                    yield {"part": "write", "state": state, "data": data, "params": params, "entry": entry}


# ------------------------------------------------------------------------------ B: streams

H1 = lambda: Grouper(key="t", freq="1h")
H2 = lambda **k: Grouper(key="t", freq="2h", **k)
AGG = lambda: {k: tuple(v) for k, v in st.AGG.items()}


def rowwise(buffer, bin_res, snap_res=None):
    return bin_res if snap_res is None else (bin_res, snap_res)


def streams():
    """{name: function making fresh arguments of AggStream}. Objects are shared between keys on purpose."""

    def shared_agg():
        a, g = AGG(), H2()
        return dict(keys={st.K("b"): {"bin_by": g, "agg": a}, st.K("c"): {"bin_by": g, "agg": a, "max_row_group_size": 2}})

    def shared_conf():
        conf = {"bin_by": H2(), "agg": AGG(), "bin_on": ("t", "out"), "ordered_on": "out", "max_in_memory_size": 0.0001}
        return dict(keys={st.K("b"): conf, st.K("c"): conf})

    def defaults():
        return dict(keys={st.K("b"): {"bin_by": H2()}, st.K("c"): {"bin_by": H1(), "post": None}}, agg=AGG(), post=rowwise, max_nirgs=1,
                    duplicates_on=["t"], metadata={"m": "1"})

    def single():
        return dict(keys=st.K("b"), bin_by=H2(closed="right", label="right"), agg=AGG(), duplicates_on=["t"], max_row_group_size=2)

    def filters():
        k = {"bin_by": H2(), "agg": AGG()}
        return dict(keys={"fa": {st.K("b"): k}, "fb": {st.K("c"): k}, "_": {st.K("d"): k}},
                    filters={"fa": [("g", ">", 0)], "fb": [[("g", "<", 0)], [("i", "in", [1, 4])]]})

    def filters_none():
        return dict(keys={"fa": {st.K("b"): {"bin_by": H2(), "agg": AGG()}}, "_": {st.K("d"): {"bin_by": H1(), "agg": AGG()}}},
                    filters={"fa": [[("g", "in", {4, 9})]], "_": None})

    def filters_nested():
        k = {"bin_by": H2(), "agg": AGG()}
        return dict(keys={"fa": {st.K("b"): k}, "_": {st.K("d"): k}}, filters={"fa": [[("g", ">", 0)]]})

    def pair():
        return dict(keys={(st.K("b"), st.K("s")): {"bin_by": H2(), "snap_by": H1(), "agg": AGG(), "max_row_group_size": (2, 3), "duplicates_on": ["t"]},
                          (st.K("c"), st.K("d")): {"bin_by": H2(), "snap_by": H1(), "agg": AGG(), "max_row_group_size": 3, "post": rowwise}})

    def callable_bin():
        from functools import partial
        return dict(keys={st.K("b"): {"bin_by": partial(st.by_rows, x=3), "agg": AGG()}})

    return {"shared_agg": shared_agg, "shared_conf": shared_conf, "defaults": defaults, "single": single, "filters": filters,
            "filters_none": filters_none, "filters_nested": filters_nested, "pair": pair, "callable": callable_bin}


SEQS = [(0, 1, 2, 5), (0, 0, 4, 9)]


def seed_of(c):
    df, on = st.seed_frame({"seq": c["seq"]})
    df["v"] = df["t"].astype("int64")
    chunks = st.chunks_of(df, c["cuts"], reset=c.get("reset", True))
    if c.get("fail") == "unordered":
        last = chunks[-1]
        chunks[-1] = pd.concat([last, chunks[0]], ignore_index=True)
    elif c.get("fail") == "dtype":
        chunks[-1] = chunks[-1].assign(f=["x"] * len(chunks[-1]))
    return df, (chunks[0] if c.get("one") else tuple(chunks) if c.get("tuple") else chunks)


def run_once(c, base, args, seed):
    stream = AggStream(ordered_on="t", store=ParquetSet(base, st.K), **args)
    return stream.agg(seed, trim_start=c.get("trim", False), discard_last=c.get("discard", False))


def stream_content(base):
    store = ParquetSet(base, st.K)
    out = {}
    for k in store:
        h = store[k]
        df = h.pf.to_pandas() if h.pf.row_groups else pd.DataFrame()
        out[k.name] = [list(df.columns), sl.rows(df), sorted((a, b) for a, b in h.metadata.items() if a != "pandas")]
    return out


def run_stream(c):
    bases = [sl.tmpdir() for _ in range(3)]
    out = []
    try:
        with time_limit(120):
            make = streams()[c["stream"]]
            args = make()
            df, seed = seed_of(c)
            objs = {"args": args, "seed": seed, "whole": df}
            before = freeze(objs)
            e1 = sl.attempt(run_once, c, bases[0], args, seed)
            d = diff(before, freeze(objs))
            if d:
                out.append(f"modified: {d}")
            if c.get("again"):
                # Same store: the stream is created again on its own results.
                e = sl.attempt(run_once, dict(c, trim=True), bases[0], args, seed)
                d = diff(before, freeze(objs))
                if d and not out:
                    out.append(f"modified by second use: {d}")
            e2 = sl.attempt(run_once, c, bases[1], args, seed)
            _, seed3 = seed_of(c)
            e3 = sl.attempt(run_once, c, bases[2], make(), seed3)
            if not (type(e1) is type(e2) is type(e3)):
                out.append(f"first use ends with {e1!r}, second with {e2!r}, fresh objects with {e3!r}")
            got = [stream_content(b) for b in bases]
            if got[1] != got[2] or not c.get("again") and got[0] != got[1]:
                out.append(f"second use gives {got[1]}, fresh objects {got[2]}, first use {got[0]}")
            if not c.get("fail") and e1 is not None:
                out.append(f"raised {e1!r} {e1.__cause__ or e1.__context__ or ''}")
    except CaseTimeout:
        return ["does not terminate (120 s)"]
    except Exception as e:
        return [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''}"]
    finally:
        for b in bases:
            sl.drop(b)
    return out


def stream_cases(quick):
    flips = itertools.cycle([{}, {"reset": False}, {"tuple": True}, {"one": True}, {"again": True}])
    for name in streams():
        for seq in SEQS:
            for cuts in ([], [1], [2], [3], [1, 2], [1, 2, 3]):
                for extra in ({}, {"discard": True, "trim": True}, {"fail": "unordered"}, {"fail": "dtype"}):
                    if extra.get("fail") and not cuts:
                        continue
                    c = {"part": "stream", "stream": name, "seq": seq, "cuts": cuts, **extra}
                    f = next(flips)
                    yield c if extra.get("fail") and "one" in f else {**c, **f}
                    if not quick:
                        for f in ({}, {"reset": False}, {"tuple": True}, {"again": True}):
                            yield {**c, **f}


# ------------------------------------------------------------------------------ C: aggregation functions

def snaps_of(kind, on):
    last = on[-1] + al.H
    points = pd.to_datetime(list(range(on[0] - al.H // 2, last, al.H)))
    return {"none": None, "grouper": H1(), "grouper bare": Grouper(freq="1h"), "index": pd.DatetimeIndex(points, name="pts"), "series": pd.Series(points, name="pts")}[kind]


BINS = {"left": lambda: H2(), "right": lambda: H2(closed="right"), "bare": lambda: Grouper(freq="2h"), "start": lambda: H2(origin="start"),
        "offset": lambda: H2(origin="epoch", offset=pd.Timedelta("30min"), label="right")}


def agg_args(c):
    df, on = st.seed_frame({"seq": c["seq"]})
    if c.get("index"):
        df.index = pd.Index([5] * len(df), name="x")
    bins = BINS[c["bin"]]()
    return {"df": df, "bin": bins, "snap": snaps_of(c["snap"], on), "agg": AGG()}, on


def agg_call(c, o):
    kw = {}
    if c["buffer"]:
        kw["buffer"] = {}
    ordered = "t"
    if c["fn"] == "cumsegagg":
        agg = o["agg"]
    else:
        agg = o.setdefault("cfg", setup_cumsegagg(o["agg"], o["df"].dtypes.to_dict()))
    if c["fn"] == "seg":
        seg = o.setdefault("seg", setup_segmentby(bin_by=o["bin"], ordered_on=ordered, snap_by=o["snap"]))
        return cumsegagg(o["df"], agg, seg, **kw)
    if c["fn"] == "segmentby":
        return segmentby(o["df"], o["bin"], ordered_on=ordered, snap_by=o["snap"], **kw)
    if c["bin"] == "bare":
        kw["bin_on"] = "t"
    return cumsegagg(o["df"], agg, o["bin"], ordered_on=ordered, snap_by=o["snap"], error_on_0=False, **kw)


def run_agg(c):
    out = []
    try:
        with time_limit(60):
            o, on = agg_args(c)
            before = freeze(o)
            r1 = sl.attempt2(agg_call, c, o)
            d = diff(before, freeze({k: v for k, v in o.items() if k in ("df", "bin", "snap", "agg")}))
            if d:
                out.append(f"modified: {d}")
            mid = freeze(o)
            r2 = sl.attempt2(agg_call, c, o)
            d = diff(mid, freeze(o))
            if d and not out:
                out.append(f"modified by second use: {d}")
            fresh, _ = agg_args(c)
            r3 = sl.attempt2(agg_call, c, fresh)
            if not (freeze(r1) == freeze(r2) == freeze(r3)):
                out.append(f"first use gives {r1}, second {r2}, fresh objects {r3}")
            if isinstance(r1, BaseException) and not (c["bin"] == "right" and c["snap"].startswith("grouper")):
                out.append(f"raised {r1!r} {r1.__cause__ or r1.__context__ or ''}")
    except CaseTimeout:
        return ["does not terminate (60 s)"]
    except Exception as e:
        return [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''}"]
    return out


def agg_cases(quick):
    for fn in ("cumsegagg", "setup", "seg", "segmentby"):
        for b in BINS:
            for s in ("none", "grouper", "grouper bare", "index", "series"):
                if fn == "seg" and s in ("index", "series") or b == "bare" and fn in ("seg", "segmentby"):
                    continue  # No column to bin on, or snapshots to be set at each call.
                for seq in [(0, 1, 2, 5), (0, 0, 4, 9), (3,)]:
                    for buf in (False, True):
                        for index in (False, True):
                            yield {"part": "agg", "fn": fn, "bin": b, "snap": s, "seq": seq, "buffer": buf, "index": index}


# ------------------------------------------------------------------------------ D: helpers

def helper_objs(c):
    if c["fn"] == "filter":
        df, _ = st.seed_frame({"seq": (0, 1, 2, 5)})
        if c.get("index"):
            df.index = [2] * 4
        return {"df": df, "f": {"and": [[("g", ">", 0), ("i", "in", [1, 2])]], "or": [[("g", ">", 0)], [("f", "not in", {1.5})]], "none": [[("g", ">", 100)]]}[c["expr"]]}
    idx = pd.Index(["('a','b')", "('c',)", "d"][: c["n"]], name="cols")
    return {"idx": idx, "levels": None if c["levels"] is None else ["l%d" % k for k in range(c["levels"])]}


def helper_call(c, o):
    if c["fn"] == "filter":
        return dataframe_filter(o["df"], o["f"])
    return to_midx(o["idx"], o["levels"])


def run_helper(c):
    o = helper_objs(c)
    before = freeze(o)
    r1 = sl.attempt2(helper_call, c, o)
    d = diff(before, freeze(o))
    out = [f"modified: {d}"] if d else []
    r2 = sl.attempt2(helper_call, c, o)
    r3 = sl.attempt2(helper_call, c, helper_objs(c))
    if not (freeze(r1) == freeze(r2) == freeze(r3)):
        out.append(f"first use gives {r1}, second {r2}, fresh objects {r3}")
    return out


def helper_cases():
    for expr in ("and", "or", "none"):
        for index in (False, True):
            yield {"part": "helper", "fn": "filter", "expr": expr, "index": index}
    for n in (1, 2, 3):
        for levels in (None, 0, 1, 2):
            yield {"part": "helper", "fn": "midx", "n": n, "levels": levels}


RUN = {"write": run_write, "stream": run_stream, "agg": run_agg, "helper": run_helper}


def work(cases):
    res = Result()
    for c in cases:
        problems = RUN[c["part"]](c)
        if problems is None:
            continue
        res.n["part_" + c["part"]] += 1
        res.n["traces_validated_against_impl"] += 1
        res.case(repr(sorted(c.items())))
        for p in problems:
            res.bad(f"{p} for {c}", c)
        if not problems:
            res.sample(c)
    return res


def replay(c):
    return RUN[c["part"]](c) or []


def explore(run):
    cases = [*helper_cases(), *agg_cases(run.quick), *write_cases(run.quick), *stream_cases(run.quick)]
    run.notes["cases"] = len(cases)
    run.notes["bounds"] = {"states": list(STATES), "inputs": [*DATA, *MULTI], "write parameters": [*PARAMS, *MPARAMS], "streams": list(streams())}
    m = min(len(cases), 300)
    run.run_all(work, [cases[k::m] for k in range(m)])
