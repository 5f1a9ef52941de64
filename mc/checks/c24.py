"""C24: what is done on a store, or by a stream, does not depend on what other ones do in the same process.

Two programs (streams being run, stopped, restarted, failing; datasets written, updated, removed, failing; segmented
aggregations chained with a buffer) are merged in all ways with up to two switches: the steps of one are run between the
steps of the other, and inside them (while its seed is read, in its seed check and in its post-processing). They are given
the same configuration objects and data, or other ones (same names of columns, filters, keys), and work either in two stores with the same keys, or in one store with different
keys. Oracle: what each program does when it is alone in a process of its own.
"""
import itertools
import os
import pickle
import warnings

import pandas as pd

from mc import agg_lib as al
from mc import store_lib as sl
from mc import stream_lib as st
from mc.core import CaseTimeout, Result, time_limit
from oups import AggStream, ParquetSet
from oups.aggstream.cumsegagg import cumsegagg
from oups.aggstream.segmentby import setup_segmentby

warnings.filterwarnings("ignore")

PROP = "C24"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "exhaustive enumeration of the merges of two programs, up to a number of switches, on the real streams and stores; each program run alone in its own process as oracle"
RULE = ("one case = two programs, the place of their datasets, and one merge of their steps; non-trivial: the second program runs in the middle of the first one")
NOTE = ("Switches take place between operations and inside aggregations (each read of the seed, each call of the seed check and of post-processing). "
        "Outcome of each operation, datasets, metadata, buffers and catalogues are compared with those of each program alone.")
ASSUMPTIONS = ["the inner program's operations are atomic", "one store object is used per program and per directory, or a single one shared by both"]

SEQ = (0, 1, 3, 4, 6, 9)
SEQ2 = (1, 2, 3, 5, 6, 8)
CUTS = (2, 4)


class Boom(Exception):
    pass


class Conf:
    """Objects given by the caller: shared by the programs, or other ones under the same names."""

    def __init__(self, other=False):
        self.df, _ = st.seed_frame({"seq": list(SEQ2 if other else SEQ)})
        if other:
            self.df = self.df.astype({"g": "float64"})
        self.chunks = st.chunks_of(self.df, CUTS)
        self.bins = al.grouper(st.T(2, label="right", origin="start") if other else st.T(2), "t")
        self.snaps = al.grouper(st.snap(1, label="right") if other else st.snap(1), "t")
        self.agg = {"n": ("i", "sum"), "fo": ("f", "last"), "fl": ("f", "first"), "fm": ("f", "max"), "gx": ("g", "min")} if other else dict(st.AGG)
        self.small = {"n": ("i", "max"), "gx": ("f", "max")} if other else {"n": ("i", "sum"), "gx": ("g", "max")}
        self.filters = {"odd": [[("g", "<", 0)]], "pos": [[("f", "<", 3.0)]]} if other else {"odd": [[("g", ">", 0)]], "pos": [[("f", ">", -3.0), ("g", "!=", 0)]]}
        self.md = {"who": "other" if other else "user"}
        self.set_kw = {"ordered_on": "t", "max_row_group_size": 1 if other else 2, "metadata": self.md}
        self.setup = setup_segmentby(bin_by=self.bins, snap_by=self.snaps)


class Prog:
    """A program: list of steps, each giving something to be compared."""

    def __init__(self, name, store, keys, conf, hook=lambda: None):
        self.name, self.store, self.conf, self.hook = name, store, conf, hook
        self.k = [st.K(k) for k in keys]
        self.log = []
        self.stream = None
        self.buffer = {}
        self.calls = 0
        self.fail_post = None
        self.fail_pre = None
        self.steps = list(getattr(self, "p_" + name)())

    # -- what is given to streams

    def seed(self, chunks):
        for ch in chunks:
            self.hook()
            yield ch
        self.hook()

    def post(self, buffer, bin_res, snap_res=None):
        self.hook()
        self.calls += 1
        if self.fail_post == "raise":
            raise Boom("post")
        if self.fail_post == "set":
            buffer["x"] = lambda: 0
        else:
            buffer.pop("x", None)
        buffer["calls"] = buffer.get("calls", 0) + 1
        buffer["rows"] = buffer.get("rows", 0) + len(bin_res)
        return bin_res if snap_res is None else (bin_res, snap_res)

    def pre(self, on, buffer):
        self.hook()
        if self.fail_pre is not None and on["t"].iloc[0] == self.fail_pre:
            raise Boom("pre")
        buffer["n"] = buffer.get("n", 0) + len(on)

    def open(self, keys, **kw):
        self.stream = AggStream(ordered_on="t", store=self.store, keys=keys, **kw)

    def agg(self, a, b, **kw):
        self.stream.agg(self.seed(self.conf.chunks[a:b]), **kw)

    # -- programs

    def p_bins(self):
        c = self.conf
        yield lambda: self.open(self.k[0], bin_by=c.bins, agg=c.agg, post=self.post)
        yield lambda: self.agg(0, 2)
        yield lambda: self.agg(2, 3)

    def p_mem(self):
        c = self.conf
        yield lambda: self.open({self.k[0]: {"agg": c.agg, "bin_by": c.bins}, self.k[1]: {"bin_by": c.bins, "agg": c.small, "snap_by": c.snaps}},
                                max_in_memory_size=1 / st.MB, metadata=c.md)
        yield lambda: self.agg(0, 3)

    def p_pair(self):
        c = self.conf
        yield lambda: self.open((self.k[0], self.k[1]), bin_by=c.bins, snap_by=c.snaps, agg=c.agg)
        yield lambda: self.agg(0, 2, final_write=False)
        yield lambda: self.agg(2, 3)

    def p_filter(self):
        c = self.conf
        yield lambda: self.open({"odd": {self.k[0]: {"bin_by": c.bins}}, "pos": {self.k[1]: {"bin_by": c.bins, "agg": c.small}}},
                                agg=c.agg, filters=c.filters, pre=self.pre)
        yield lambda: self.agg(0, 1)
        yield lambda: self.agg(1, 3)

    def p_stop(self):
        c = self.conf
        yield lambda: self.open(self.k[0], bin_by=c.bins, agg=c.agg, pre=self.pre)
        yield lambda: self.agg(0, 2, discard_last=True)
        yield lambda: (self.open(self.k[0], bin_by=c.bins, agg=c.agg, pre=self.pre), self.agg(1, 3, trim_start=True))

    def p_pre(self):
        c = self.conf

        def first():
            self.fail_pre = c.chunks[1]["t"].iloc[0]
            self.open(self.k[0], bin_by=c.bins, agg=c.agg, pre=self.pre)

        def again():
            self.fail_pre = None
            self.agg(1, 3)

        yield first
        yield lambda: self.agg(0, 3)
        yield again

    def p_post(self, kind="raise"):
        c = self.conf

        def first():
            self.fail_post = kind
            self.open(self.k[0], bin_by=c.bins, agg=c.agg, post=self.post)
            self.agg(0, 2)

        def again():
            self.fail_post = None
            self.open(self.k[0], bin_by=c.bins, agg=c.agg, post=self.post)

        yield first
        yield again
        yield lambda: self.agg(0, 3)

    def p_unser(self):
        yield from self.p_post("set")

    def p_sets(self):
        c = self.conf
        yield lambda: self.store.__setitem__(self.k[0], (c.set_kw, c.chunks[0]))
        yield lambda: self.store.set(self.k[0], c.df, ordered_on="t", duplicates_on="t", max_nirgs=1, metadata={"more": "1", "who": None})
        yield lambda: self.store.__delitem__(self.k[0])
        yield lambda: self.store.set(self.k[0], c.chunks[2])

    def p_refused(self):
        c = self.conf
        yield lambda: self.store.set(self.k[0], c.chunks[0], metadata={"n": 1})
        yield lambda: self.store.set(self.k[0], c.chunks[0], ordered_on="absent", metadata={"a": "1"})
        yield lambda: self.store.set(self.k[0], c.chunks[1])

    def p_cum(self):
        c = self.conf
        for ch in c.chunks:
            yield lambda ch=ch: image_of(cumsegagg(data=ch, agg=c.agg, bin_by=c.setup, ordered_on="t", buffer=self.buffer))

    # --

    def step(self, i):
        res = sl.attempt2(self.steps[i])
        self.log.append([i, f"{type(res).__name__}: {res}" if isinstance(res, Exception) else res if self.name == "cum" else None])

    def result(self):
        """What is observed at the end."""
        out = {"log": self.log, "calls": self.calls}
        for k in self.k:
            out[str(k)] = dataset(self.store, k)
        return out


def plain_rows(df):
    return [[al.plain(v) for v in r] for r in df.reset_index(drop=True).astype(object).itertuples(index=False, name=None)]


def image_of(res):
    return [[list(map(str, r.columns)), [al.plain(v) for v in r.index], plain_rows(r)] for r in (res if isinstance(res, tuple) else (res,))]


def dataset(store, key):
    if key not in store:
        return None
    h = ParquetSet(store.basepath, st.K)[key]
    md = h._oups_metadata
    return {"rows": plain_rows(h.pdf), "columns": list(h.pdf.columns), "groups": [rg.num_rows for rg in h.pf.row_groups],
            "user": {k: v for k, v in h.metadata.items() if k not in ("pandas", "oups")},
            "stream": None if md is None else repr(deep(md))}


def deep(x):
    if isinstance(x, dict):
        return [[str(k), deep(v)] for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))]
    if isinstance(x, pd.DataFrame):
        return ["frame", list(map(str, x.columns)), plain_rows(x)]
    if isinstance(x, (pd.Series, pd.Index)):
        return ["series", [al.plain(v) for v in x]]
    if isinstance(x, (list, tuple)):
        return [deep(v) for v in x]
    if hasattr(x, "tolist"):
        return deep(x.tolist())
    return al.plain(x) if not isinstance(x, (str, int, float, type(None))) else x


# ------------------------------------------------------------------------------ alone, in a process of its own

PROGS = ("bins", "mem", "pair", "filter", "stop", "pre", "post", "unser", "sets", "refused", "cum")
KEYS = (("a", "b"), ("c", "d"))


def run_alone(name, keys, other):
    """(result, number of points where another program can run) of a program alone."""
    base = sl.tmpdir()
    count = [0]

    def hook():
        count[0] += 1

    try:
        p = Prog(name, ParquetSet(base, st.K), keys, Conf(other), hook)
        for i in range(len(p.steps)):
            hook()
            p.step(i)
        hook()
        return p.result(), count[0], len(p.steps)
    finally:
        sl.drop(base)


def in_child(fn, *args):
    """Result of ``fn(*args)`` in a process of its own, forked from one where nothing was run."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 0
        try:
            os.close(r)
            with time_limit(500):
                res = pickle.dumps((True, fn(*args)))
        except BaseException as e:
            res = pickle.dumps((False, f"{type(e).__name__}: {e}"))
        with os.fdopen(w, "wb") as f:
            f.write(res)
        os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    finally:
        os.waitpid(pid, 0)
    ok, res = pickle.loads(data) if data else (False, "process killed")
    if not ok:
        raise RuntimeError(res)
    return res


_ALONE = {}


def alone(name, keys, other=False):
    if (name, keys, other) not in _ALONE:
        _ALONE[name, keys, other] = in_child(run_alone, name, keys, other)
    return _ALONE[name, keys, other]


# ------------------------------------------------------------------------------ merges

def merges(n_points, n_steps, switches):
    """Ways of running the ``n_steps`` steps of the inner program at the points of the outer one, in at most ``switches`` groups."""
    for groups in range(1, switches + 1):
        for cuts in itertools.combinations(range(1, n_steps), groups - 1):
            sizes = [b - a for a, b in zip((0, *cuts), (*cuts, n_steps))]
            for points in itertools.combinations(range(n_points), groups):
                yield [[p, s] for p, s in zip(points, sizes)]


def run_case(c):
    """Problems of one merge."""
    outer, inner, place = c["outer"], c["inner"], c["place"]
    keys = (KEYS[0], KEYS[0] if place == "stores" else KEYS[1])
    bases = [sl.tmpdir()]
    if place == "stores":
        bases.append(sl.tmpdir())
    conf = Conf()
    other = bool(c.get("other"))
    stores = [ParquetSet(b, st.K) for b in bases]
    plan = dict((p, s) for p, s in c["plan"])
    state = {"point": 0, "next": 0, "in": False}

    def hook():
        p = state["point"]
        state["point"] += 1
        for _ in range(plan.get(p, 0)):
            b.step(state["next"])
            state["next"] += 1

    out = []
    try:
        with time_limit(120):
            b = Prog(inner, stores[-1], keys[1], Conf(True) if other else conf)
            a = Prog(outer, stores[0], keys[0], conf, hook)
            for i in range(len(a.steps)):
                hook()
                a.step(i)
            hook()
            while state["next"] < len(b.steps):
                # A point was not reached, because of what the inner program did.
                b.step(state["next"])
                state["next"] += 1
            for p, k, o, what in ((a, keys[0], False, "outer"), (b, keys[1], other, "inner")):
                want = alone(p.name, k, o)[0]
                got = p.result()
                for name in want:
                    if repr(got[name]) != repr(want[name]):
                        out.append(f"{what} program '{p.name}', {name}: {got[name]} when merged, {want[name]} when alone")
            wanted = [{str(k) for p in ((a,), (b,))[i] for k in p.k if alone(p.name, keys[i], other and i == 1)[0][str(k)] is not None} for i in (0, 1)]
            if len(stores) == 1:
                wanted = [wanted[0] | wanted[1]]
            for s, w in zip(stores, wanted):
                for x in (s, ParquetSet(s.basepath, st.K)):
                    if [str(k) for k in x] != sorted(w):
                        out.append(f"catalogue {list(map(str, x))}, expected {sorted(w)}")
    except CaseTimeout:
        return ["does not terminate (120 s)"]
    finally:
        for base in bases:
            sl.drop(base)
    return out


# ------------------------------------------------------------------------------ pairs of close configurations

BASE = {"bins": st.T(2), "agg": {"x": ["i", "sum"], "y": ["f", "last"]}}
VARIANTS = {
    "base": {},
    "freq": {"bins": st.T(3)},
    "label": {"bins": st.T(2, label="right")},
    "closed": {"bins": st.T(2, closed="right")},
    "origin": {"bins": st.T(2, origin="start")},
    "offset": {"bins": st.T(2, offset=al.H // 2)},
    "column": {"on": "u", "bins": st.T(2)},
    "rows2": {"bins": {"kind": "rows", "x": 2}},
    "rows3": {"bins": {"kind": "rows", "x": 3}},
    "snap": {"snap": st.snap(1)},
    "snap2": {"snap": st.snap(2)},
    "snap_label": {"snap": st.snap(1, label="right")},
    "snap_offset": {"snap": st.snap(2, offset=al.H // 2)},
    "snap_origin": {"snap": st.snap(2, origin="start")},
    "points1": {"points": [1, 4]},
    "points2": {"points": [2, 4]},
    "func": {"agg": {"x": ["i", "max"], "y": ["f", "first"]}},
    "input": {"agg": {"x": ["g", "sum"], "y": ["f", "last"]}},
    "swap": {"agg": {"y": ["f", "last"], "x": ["i", "sum"]}},
    "swap_in": {"agg": {"x": ["f", "sum"], "y": ["i", "last"]}},
    "output": {"agg": {"z": ["i", "sum"], "y": ["f", "last"]}},
    "one": {"agg": {"x": ["i", "sum"]}},
    "dtype": {"float": ["i"]},
    "data": {"seq": [1, 2, 3, 5, 6, 8]},
    "short": {"seq": [0, 1, 3]},
    "post": {"post": "a"},
    "post2": {"post": "b"},
    "filter": {"filter": [[["g", ">", 0]]]},
    "filter2": {"filter": [[["g", "<", 0]]]},
    "filter3": {"filter": [[["f", ">", 0]]]},
    "size": {"kw": {"max_row_group_size": 1}},
    "metadata": {"kw": {"metadata": {"a": "1"}}},
    "memory": {"kw": {"max_in_memory_size": 0}},
    "discard": {"discard": True},
}


def post_a(buffer, bin_res, snap_res=None):
    buffer["a"] = buffer.get("a", 0) + len(bin_res)
    return (bin_res if snap_res is None else snap_res).assign(p=1)


def post_b(buffer, bin_res, snap_res=None):
    buffer["b"] = buffer.get("b", 0) + 1
    return (bin_res if snap_res is None else snap_res).assign(p=2)


def settings(name):
    c = {**BASE, **VARIANTS[name]}
    df, _ = st.seed_frame({"seq": c.get("seq", SEQ)})
    df["u"] = df["t"] + pd.Timedelta("30min")
    df = df.astype({col: "float64" for col in c.get("float", [])})
    on = c.get("on", "t")
    b = c["bins"]
    half = len(df) // 2
    pieces = [df.iloc[:half].reset_index(drop=True), df.iloc[half:].reset_index(drop=True)]
    return c, on, (al.grouper(b, on) if b["kind"] == "time" else st.partial(st.by_rows, x=b["x"])), (al.grouper(c["snap"], on) if "snap" in c else None), pieces


def steps_cum(name, base, out):
    c, on, bins, snaps, pieces = settings(name)
    agg = {k: tuple(v) for k, v in c["agg"].items()}
    buffer = {}
    kw = {}
    if isinstance(bins, st.partial):
        kw["bin_on"] = on
    if "points" in c:
        snaps = pd.Series(pd.to_datetime([al.T0 + p * al.H // 2 for p in c["points"]]))
    yield lambda: out.append(image_of(cumsegagg(data=pd.concat(pieces, ignore_index=True), agg=agg, bin_by=bins, ordered_on=on, snap_by=snaps, **kw)))
    for piece in pieces:
        yield lambda piece=piece: out.append(image_of(cumsegagg(data=piece, agg=agg, bin_by=bins, ordered_on=on, snap_by=snaps, buffer=buffer, **kw)))


def steps_stream(name, base, out):
    c, on, bins, snaps, pieces = settings(name)
    agg = {k: tuple(v) for k, v in c["agg"].items()}
    kw = dict(c.get("kw", {}))
    if "post" in c:
        kw["post"] = {"a": post_a, "b": post_b}[c["post"]]
    keys = {st.K("a"): {"bin_by": bins}}
    if isinstance(bins, st.partial):
        keys[st.K("a")]["bin_on"] = on
    if "filter" in c:
        kw["filters"] = {"f": [[tuple(x) for x in part] for part in c["filter"]]}
        keys = {"f": keys}
    store = ParquetSet(base, st.K)
    streams = []
    yield lambda: streams.append(AggStream(ordered_on=on, store=store, keys=keys, agg=agg, snap_by=snaps, **kw))
    for piece in pieces:
        yield lambda piece=piece: streams[0].agg(piece, discard_last=c.get("discard", False))
    yield lambda: out.append(dataset(store, st.K("a")))


STEPS = {"cum": steps_cum, "stream": steps_stream}


def run_pair(names, engine, order):
    """What each of the configurations gives, their steps being run in a row or in turn."""
    bases = [sl.tmpdir() for _ in names]
    outs = [[] for _ in names]
    try:
        todo = [list(STEPS[engine](name, base, out)) for name, base, out in zip(names, bases, outs)]
        seq = [x for t in todo for x in zip([t] * 9, range(len(t)))] if order == "row" else [(t, k) for k in range(9) for t in todo if k < len(t)]
        for t, k in seq:
            res = sl.attempt2(t[k])
            if isinstance(res, Exception):
                outs[todo.index(t)].append(f"{type(res).__name__}: {res}")
        return outs
    finally:
        for base in bases:
            sl.drop(base)


def run_close(c):
    got = in_child(run_pair, c["pair"], c["engine"], c["order"])
    out = []
    for k, name in enumerate(c["pair"]):
        want = alone_close(name, c["engine"])
        if repr(got[k]) != repr(want):
            out.append(f"configuration '{name}' ({c['engine']}) gives {got[k]} when run with the other one of {c['pair']}, {want} when alone")
    return out


_CLOSE = {}


def alone_close(name, engine):
    if (name, engine) not in _CLOSE:
        _CLOSE[name, engine] = in_child(run_pair, [name], engine, "row")[0]
    return _CLOSE[name, engine]


def close_cases(quick):
    for engine in ("cum", "stream"):
        for a, b in itertools.permutations(VARIANTS, 2):
            if any("points" in x for x in (a, b)) and engine == "stream":
                continue
            if engine == "cum" and any(set(VARIANTS[x]) & {"post", "filter", "kw", "discard"} for x in (a, b)):
                continue
            if not quick or engine == "cum" or "base" in (a, b) or a[:4] == b[:4] or set(VARIANTS[a]) == set(VARIANTS[b]):
                for order in ("row", "turn"):
                    yield {"pair": [a, b], "engine": engine, "order": order}


def all_cases(quick):
    for place, other in (("stores", False), ("stores", True), ("keys", False)) if quick else itertools.product(("stores", "keys"), (False, True)):
        for outer in PROGS:
            n_points = alone(outer, KEYS[0])[1]
            for inner in PROGS:
                n_steps = alone(inner, KEYS[0] if place == "stores" else KEYS[1], other)[2]
                plans = list(merges(n_points, n_steps, 1 if quick else 2))
                if other and quick:
                    plans = []
                if quick and place == "stores":
                    # Inner program started somewhere in the outer one, and finished after it.
                    plans += [[[p, n_steps - 1], [n_points - 1, 1]] for p in range(n_points - 1)]
                for plan in plans:
                    yield {"outer": outer, "inner": inner, "place": place, "other": other, "plan": plan}


def run_group(cases):
    return [run_case(c) for c in cases]


def work(cases):
    res = Result()
    merged = [c for c in cases if "pair" not in c]
    found = iter(in_child(run_group, merged) if merged else [])
    for c in cases:
        if "pair" in c:
            problems = run_close(c)
            res.case((c["pair"], c["engine"], c["order"]))
            res.n["pairs of configurations"] += 1
            for p in problems:
                res.bad(p + f" (case {c})", c)
            continue
        problems = next(found)
        n_points = alone(c["outer"], KEYS[0])[1]
        middle = any(0 < p < n_points - 1 for p, _ in c["plan"])
        res.case((c["outer"], c["inner"], c["place"], c["other"], c["plan"]), middle)
        res.n["merges"] += 1
        for p in problems:
            res.bad(p + f" (case {c})", c)
        if middle and c["outer"] != c["inner"]:
            res.sample(str(c))
    return res


def explore(run):
    for name in PROGS:
        for keys in KEYS:
            for other in (False, True):
                alone(name, keys, other)
    for engine in STEPS:
        for name in VARIANTS:
            alone_close(name, engine)
    cases = list(close_cases(run.quick)) + list(all_cases(run.quick))
    run.notes["programs"] = len(PROGS)
    run.notes["points"] = {name: alone(name, KEYS[0])[1] for name in PROGS}
    size = 20
    run.run_all(work, [cases[i::-(-len(cases) // size)] for i in range(-(-len(cases) // size))])


def replay(case):
    return run_close(case) if "pair" in case else in_child(run_case, case)
