"""C20: streams refuse inconsistent or foreign state and bad configuration.

A. Every combination of states (absent, foreign, without stream metadata, at restart position p or q, empty result at
   p...) of up to 3 keys: the stream is accepted if and only if no dataset is foreign and positions are all equal; the
   store is untouched either way; an accepted stream then ends with the results of a run never stopped.
B. Every single-fault configuration of a menu, at every place it can be put in, on a new and on an existing store:
   it raises before anything is written.
"""
import hashlib
import itertools
import os
import shutil
import tempfile

import pandas as pd
from pandas import Grouper

from mc import agg_lib as al
from mc import store_lib as sl
from mc import stream_lib as st
from mc.core import CaseTimeout, Result, time_limit
from oups import AggStream, ParquetSet

PROP = "C20"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "exhaustive enumeration of combinations of stored states and of single-fault configurations, on the real AggStream; acceptance rule and directory tree as oracles"
RULE = ("one case = one combination of key states, or one faulty configuration at one place; non-trivial: at least one dataset exists already, "
        "or the configuration is faulty")
NOTE = ("All combinations of states over up to 3 keys (single keys and a pair), for restart points of several types; all single faults of the menu. "
        "The whole directory tree is compared before and after. For a pair of keys, only the state of the first one counts.")
ASSUMPTIONS = ["for a pair of keys, restart information is that of the first one", "no aggregated value is 0 (refused by AggStream by design)"]


def tree(base):
    out = {}
    for d, _, files in os.walk(base):
        out[os.path.relpath(d, base)] = None
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, base)] = hashlib.blake2b(h.read(), digest_size=8).hexdigest()
    return out


SEQ = (0, 1, 2, 3, 4, 5)
STATES = ["absent", "foreign", "foreign_md", "p", "q", "p2", "p_empty", "snap_only"]
KEYS = {
    "b": {"key": "b", "bin": st.T()},
    "c": {"key": "c", "bin": st.T(3), "write": {"max_row_group_size": 2}},
    "d": {"key": ["d", "s"], "bin": st.T(4), "snap": st.snap(2)},
}
TYPES = {"ts": {}, "int": {"typ": "int", "base": -3}, "float": {"typ": "float", "base": -3}, "ns": {"step": 1}, "big": {"typ": "int", "base": 2**60}}
P, Q = 4, 5  # rows fed; discarding the last one, restart points are rows P-1 and Q-1


def keys_for(typ, names):
    if typ == "ns":
        return [dict(KEYS[n], bin=dict(KEYS[n]["bin"], freq=2), **({"snap": dict(KEYS[n]["snap"], freq=1)} if "snap" in KEYS[n] else {})) for n in names]
    if typ == "ts":
        return [KEYS[n] for n in names]
    return [{"key": n, "bin": {"kind": "value", "width": w}} for n, w in zip(names, (2, 3, 4))]


def set_state(base, typ, kc, state):
    """Bring one key in a state, with real streams and writes."""
    c = {"seq": SEQ, "keys": [kc], **TYPES[typ]}
    df, on = st.seed_frame(c)
    main = st.main_name(kc)
    kw = dict(trim_start=True, discard_last=True)
    if state == "absent":
        return
    if state == "foreign":
        ParquetSet(base, st.K)[st.K(main)] = df
    elif state == "foreign_md":
        from oups.store.writer import OUPS_METADATA
        OUPS_METADATA[st.K(main)] = {"other": 1}
        ParquetSet(base, st.K)[st.K(main)] = {"metadata": {"m": "aggstream"}}, df
        OUPS_METADATA.pop(st.K(main), None)
    elif state == "p":
        st.make(ParquetSet(base, st.K), c).agg(df.iloc[:P], **kw)
    elif state == "q":
        st.make(ParquetSet(base, st.K), c).agg(df.iloc[:Q], **kw)
    elif state == "p2":
        # Same position, reached in two runs.
        st.make(ParquetSet(base, st.K), c).agg(df.iloc[:2], **kw)
        st.make(ParquetSet(base, st.K), c).agg(df.iloc[:P], **kw)
    elif state == "p_empty":
        # Result without rows: all seed rows filtered out for this key.
        other = {**kc, "key": "zz", "filter": "_"}
        if isinstance(kc["key"], list):
            other["key"] = ["zz", "zy"]
        f = dict(c, keys=[{**kc, "filter": "no"}, other], filters={"no": [[["g", ">", 1000]]]})
        store = ParquetSet(base, st.K)
        st.make(store, f).agg(df.iloc[:P], **kw)
        for k in [k for k in store if k.name in ("zz", "zy")]:
            del store[k]
    elif state == "snap_only":
        # The second dataset of a pair exists, not the first.
        if isinstance(kc["key"], list):
            store = ParquetSet(base, st.K)
            st.make(store, c).agg(df.iloc[:P], **kw)
            del store[st.K(main)]


MARK = {"absent": None, "p": "p", "q": "q", "p2": "p", "p_empty": "p", "snap_only": None}
_CACHE = {}


def prepared(typ, kc, state):
    """Directory with one key in a state (made once per process)."""
    k = (typ, repr(kc), state)
    if k not in _CACHE:
        base = sl.tmpdir()
        set_state(base, typ, kc, state)
        _CACHE[k] = base
    return _CACHE[k]


def run_states(c):
    typ, states = c["typ"], c["states"]
    names = list("bcd")[: len(states)]
    keys = keys_for(typ, names)
    base = sl.tmpdir()
    out = []
    try:
        with time_limit(180):
            for kc, s in zip(keys, states):
                src = prepared(typ, kc, s)
                shutil.copytree(src, base, dirs_exist_ok=True)
            case = {"seq": SEQ, "keys": [keys[k] for k in c.get("order", range(len(keys)))], **TYPES[typ]}
            if c.get("filtered"):
                case["filters"] = {"all": [[["i", ">", 0]]]}
                case["keys"] = [{**kc, "filter": "all" if k else "_"} for k, kc in enumerate(case["keys"])]
            df, on = st.seed_frame(case)
            before = tree(base)
            listed = sorted(k.name for k in ParquetSet(base, st.K))
            marks = {MARK.get(s) for s in states} - {None}
            valid = len(marks) <= 1 and not any(s.startswith("foreign") for s in states)
            store = ParquetSet(base, st.K)
            stream = e = None
            try:
                stream = st.make(store, case)
            except Exception as x:
                e = x
            if tree(base) != before:
                out.append(f"creating the stream changed the store ({'accepted' if e is None else 'refused'})")
            if sorted(k.name for k in store) != listed:
                out.append(f"creating the stream changed the keys listed: {listed} to {sorted(k.name for k in store)}")
            if valid and e is not None:
                out.append(f"refused with {e!r} although keys are consistent")
            if not valid and e is None:
                out.append("accepted although keys are not consistent")
            if not out and valid:
                # Fed from the start: what has been accounted for already is trimmed. Keys not existing yet start from the same position.
                mark = marks.pop() if marks else None
                done = 0 if mark is None else {"p": P, "q": Q}[mark] - 1
                stream.agg(st.chunks_of(df, [2, 5]), trim_start=True, discard_last=False)
                state_of = dict(zip(names, states))
                for kc in case["keys"]:
                    s = state_of[st.main_name(kc)]
                    if s == "snap_only" and mark is not None:
                        continue
                    start = 0 if s in ("p", "q", "p2") else done
                    got = st.compare(base, dict(case, keys=[kc]), on, lambda _: range(start, len(SEQ)), "after going on: ")
                    out += got
    except CaseTimeout:
        return ["does not terminate (180 s)"]
    except Exception as e:
        return [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''}"]
    finally:
        sl.drop(base)
    return out


# ------------------------------------------------------------------------------ B: faulty configurations

H = "2h"
G = lambda **k: Grouper(key="t", freq="2h", **k)
OK = lambda: {"bin_by": G(), "agg": dict(st.AGG)}
K = st.K


def at(kind, pos, conf, n):
    """``n`` single keys configurations, the one at ``pos`` replaced."""
    out = {K(x): OK() for x in "bcd"[:n]}
    out[K("bcd"[pos])] = conf
    return out


def bad_confs():
    """Faults which lie in the configuration of one key: {name: configuration}."""
    ag = dict(st.AGG)
    return {
        "missing bin_by": {"agg": ag},
        "unknown parameter": {"bin_by": G(), "agg": ag, "unknown": 1},
        "misspelt parameter": {"bin_by": G(), "agg": ag, "snapby": Grouper(key="t", freq="1h")},
        "output column is group column": {"bin_by": G(), "agg": {**ag, "t": ("f", "first")}},
        "output column is renamed group column": {"bin_by": G(), "bin_on": ("t", "n"), "agg": ag},
        "unknown column": {"bin_by": G(), "agg": {**ag, "z": ("nope", "sum")}},
        "unknown function": {"bin_by": G(), "agg": {**ag, "z": ("f", "median")}},
        "function misspelt": {"bin_by": G(), "agg": {**ag, "z": ("f", "SUM")}},
        "bin_by not a grouper": {"bin_by": "2h", "agg": ag},
        "bin_by None": {"bin_by": None, "agg": ag},
        "bin_on other than grouper key": {"bin_by": G(), "bin_on": "g", "agg": ag},
        "snap_by on another column": {"bin_by": G(), "snap_by": Grouper(key="g", freq="1h"), "agg": ag},
        "closed sides differ": {"bin_by": G(closed="right"), "snap_by": Grouper(key="t", freq="1h", closed="left"), "agg": ag},
        "no agg": {"bin_by": G()},
    }


def bad_streams():
    """Faults of the whole configuration: {name: arguments of AggStream}."""
    two = lambda: {K("b"): OK(), K("c"): OK()}
    fa, fb = [[("g", ">", 0)]], [[("g", "<=", 0)]]
    pair = lambda a, b: {(K(a), K(b)): {**OK(), "snap_by": Grouper(key="t", freq="1h")}}
    return {
        "unknown argument": dict(keys=two(), unknown=3),
        "argument misspelt": dict(keys=two(), max_row_group_sizes=3),
        "filter ids: none given": dict(keys={"fa": two()}),
        "filter ids: missing in filters": dict(keys={"fa": {K("b"): OK()}, "fb": {K("c"): OK()}}, filters={"fa": fa}),
        "filter ids: missing in keys": dict(keys={"fa": two()}, filters={"fa": fa, "fb": fb}),
        "filter ids: missing in keys, rows late": dict(keys={"fa": two()}, filters={"fa": fa, "fb": [[("i", ">", 8)]]}, max_in_memory_size=0),
        "filter ids: missing in keys, no row": dict(keys={"fa": two()}, filters={"fa": fa, "fb": [[("i", ">", 1000)]]}),
        "filter ids: missing in filters, with no filter": dict(keys={"fa": {K("b"): OK()}, "_": {K("c"): OK()}}, filters={"_": None}),
        "filter ids: differ": dict(keys={"fa": two()}, filters={"fx": fa}),
        "filter ids: differ, with no filter": dict(keys={"fa": {K("b"): OK()}, "_": {K("c"): OK()}}, filters={"fx": fa, "_": None}),
        "no filter id with a filter": dict(keys={"fa": {K("b"): OK()}, "_": {K("c"): OK()}}, filters={"fa": fa, "_": fb}),
        "key in two filters": dict(keys={"fa": two(), "fb": {K("c"): OK()}}, filters={"fa": fa, "fb": fb}),
        "key in a filter and without": dict(keys={"fa": two(), "_": {K("b"): OK()}}, filters={"fa": fa}),
        "key twice in a pair": dict(keys=pair("b", "b")),
        "key alone and for snapshots": dict(keys={**two(), **pair("d", "c")}),
        "key alone and for bins": dict(keys={**pair("b", "d"), K("b"): OK()}),
        "key in two pairs": dict(keys={**pair("b", "c"), **pair("d", "c")}),
        "key in pairs of two filters": dict(keys={"fa": pair("b", "c"), "fb": pair("c", "d")}, filters={"fa": fa, "fb": fb}),
        "key for bins in a filter, for snapshots in another": dict(keys={"fa": pair("b", "c"), "fb": {K("c"): OK()}}, filters={"fa": fa, "fb": fb}),
    }


def config_cases():
    for name in bad_confs():
        for n in (1, 2, 3):
            for pos in range(n):
                for how in ("flat", "filters", "late", "single") if n == 1 else ("flat", "filters", "late"):
                    for existing in (False, True):
                        for gen in (False, True):
                            yield {"part": "B", "conf": name, "n": n, "pos": pos, "how": how, "existing": existing, "gen": gen}
    for name in bad_streams():
        for existing in (False, True):
            for gen in (False, True):
                yield {"part": "B", "stream": name, "existing": existing, "gen": gen}


def kwargs_of(c):
    if "stream" in c:
        return bad_streams()[c["stream"]]
    conf = bad_confs()[c["conf"]]
    if c["how"] == "single":
        return dict(keys=K("b"), **{k: v for k, v in conf.items()})
    keys = at("flat", c["pos"], conf, c["n"])
    if c["how"] == "flat":
        return dict(keys=keys)
    # Each key with its own filter, the first one without.
    out, filters = {}, {}
    for j, (k, v) in enumerate(keys.items()):
        fid = "_" if j == 0 and c["n"] > 1 else f"f{j}"
        out[fid] = {k: v}
        if fid != "_":
            # 'late': the faulty key gets rows only once other results may have been written.
            filters[fid] = [[("i", ">", 8 if c["how"] == "late" and j == c["pos"] else j)]]
    return dict(keys=out, filters=filters, **({"max_in_memory_size": 0} if c["how"] == "late" else {}))


def run_config(c):
    case = {"seq": SEQ, "keys": []}
    df, on = st.seed_frame(case)
    base = sl.tmpdir()
    out = []
    try:
        with time_limit(60):
            if c["existing"]:
                # Results at the same position for all keys, as a valid stream leaves them.
                for kc in ({"key": "b", "bin": st.T(4)}, {"key": "c", "bin": st.T(4)}, {"key": "d", "bin": st.T(4)}):
                    shutil.copytree(prepared("ts", kc, "p"), base, dirs_exist_ok=True)
            before = tree(base)
            store = ParquetSet(base, K)
            raised = []
            stream = None
            try:
                stream = AggStream(ordered_on="t", store=store, **kwargs_of(c))
            except Exception as e:
                raised.append(e)
            if stream is not None:
                for _ in range(2):
                    # Refused at first data, and again if tried again.
                    chunks = st.chunks_of(df, [2, 4])
                    try:
                        stream.agg(iter(chunks) if c["gen"] else chunks)
                    except Exception as e:
                        raised.append(e)
                    else:
                        out.append("accepted")
            if not raised and not out:
                out.append("accepted")
            after = tree(base)
            if after != before:
                out.append(f"store changed: {sorted(set(after.items()) ^ set(before.items()))[:6]}")
            if sorted(k.name for k in store) != (list("bcd") if c["existing"] else []):
                out.append(f"keys listed changed: {list(store)}")
    except CaseTimeout:
        return ["does not terminate (60 s)"]
    finally:
        sl.drop(base)
    return out


def state_cases(quick):
    for typ in TYPES:
        for n in (1, 2, 3):
            for states in itertools.product(STATES, repeat=n):
                if "snap_only" in states and (typ != "ts" or states.index("snap_only") != 2 or states.count("snap_only") > 1):
                    continue
                if quick and n == 3 and (typ in ("ns", "big") or typ != "ts" and (STATES.index(states[0]) + STATES.index(states[1]) + STATES.index(states[2])) % 4):
                    continue
                yield {"part": "A", "typ": typ, "states": list(states)}
                if n > 1 and (not quick or len(set(states)) == 2):
                    if typ == "ts":
                        yield {"part": "A", "typ": typ, "states": list(states), "order": list(range(n))[::-1]}
                        yield {"part": "A", "typ": typ, "states": list(states), "filtered": True}


def work(cases):
    res = Result()
    try:
        for c in cases:
            problems = run_states(c) if c["part"] == "A" else run_config(c)
            res.n["combinations_of_states" if c["part"] == "A" else "faulty_configurations"] += 1
            res.n["traces_validated_against_impl"] += 1
            res.case(repr(sorted(c.items())), nontrivial=c["part"] == "B" or set(c["states"]) != {"absent"})
            for p in problems:
                res.bad(f"{p} for {c}", c)
            if not problems:
                res.sample(c)
    finally:
        pass
    return res


def replay(c):
    return run_states(c) if c["part"] == "A" else run_config(c)


def explore(run):
    cases = list(config_cases())
    run.notes["faulty configurations"] = len(cases)
    m = 64
    run.run_all(work, [cases[k::m] for k in range(m)])
    if run.stop():
        return
    cases = sorted(state_cases(run.quick), key=lambda c: len(c["states"]))
    run.notes["combinations of states"] = len(cases)
    run.notes["bounds"] = {"keys": "1..3", "states": STATES, "types of restart point": list(TYPES)}
    m = min(len(cases), 64)
    run.run_all(work, [cases[k::m] for k in range(m)])
