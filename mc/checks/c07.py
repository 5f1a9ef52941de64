"""C07: the catalogue of a store always matches the datasets on disk.

Part 1: breadth-first search over directory states (which keys hold which rows), every operation
through a store opened on the state. Part 2: all histories of bounded length on one live store
object, which carries its own list of keys. After each operation the catalogue and the content of
every dataset are compared with a dictionary model, in the live store and in a store opened anew.
"""
import os
from pathlib import Path

import pandas as pd
from sortedcontainers import SortedSet

from mc import faults
from mc import store_lib as sl
from mc.core import CaseTimeout, Result, time_limit
from mc.schemas import KEYS
from oups import ParquetSet

PROP = "C07"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "explicit-state search and exhaustive operation sequences on the real store against a dictionary model"
RULE = ("one case = one operation (set, update, delete, delete of a missing key, failing set, failing delete, reopen) at the end of a distinct "
        "history; non-trivial: every operation; catalogue and all datasets compared with the model after each")
NOTE = ("Every operation sequence within the bounds over 3-4 keys sharing directories, on schemas of depth 1 to 3, with and "
        "without foreign content in the directory.")
ASSUMPTIONS = ["one store object writes at a time", "foreign directories have no name that parses to a valid key path of the schema and holds parquet files",
               "no directory name holds characters forbidden in field values"]


class Other:
    """Not a key."""

    to_path = "other"


def foreign(base, schema):
    """Content which is not a dataset of the schema."""
    _, keys = KEYS[schema]

    def put(*path):
        p = os.path.join(base, *path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("x")

    put("readme.txt")
    put("base.parquet")
    put("_metadata")
    os.makedirs(os.path.join(base, "void", "void", "void", "void"))
    if schema == "One":
        put("d1", "deeper", "part.0.parquet")
        put("d2", "notes.txt")
        put("c")
        put("e-f", "part.0.parquet")  # parses to the key of directory 'f'
    elif schema == "Two":
        put("shallow", "part.0.parquet")
        put("a", "x", "part.0.parquet")
        put("a", "01", "part.0.parquet")
        put("a", "3", "deeper", "part.0.parquet")
        put("b", "9", "notes.txt")
        put("z-a", "1", "part.0.parquet")
        put("b", "7")
    elif schema == "Three":
        put("1_a", "_metadata")
        put("1_a", "x", "part.0.parquet")
        put("1_a", "x", "l", "part.0.parquet")
        put("1_a", "x", "l_z", "part.0.parquet")
        put("1_a", "x", "l_7", "deep", "part.0.parquet")
        put("01_a", "x", "l_1", "part.0.parquet")
        put("a_1", "x", "l_1", "part.0.parquet")
        put("1_a", "x", "m_l_1", "part.0.parquet")
    else:
        put("a", "part.0.parquet")
        put("a-x", "part.0.parquet")
        put("a-01", "part.0.parquet")
        put("z-a-1", "part.0.parquet")
        put("a-5", "deep", "part.0.parquet")
        put("a-6", "notes.txt")
    # A foreign file where a dataset is to be written.
    put(keys[2].to_path, "notes.txt")


def frame(k, first, n):
    return pd.DataFrame({"k": pd.Series([k] * n, dtype="int64"), "n": pd.Series(range(first, first + n), dtype="int64")})


def apply(store, schema, op, model):
    """Run an operation, update the model. Returns (store, problems)."""
    cls, keys = KEYS[schema]
    what = op[0]
    if what == "reopen":
        return ParquetSet(store.basepath, cls), []
    key = keys[op[1]]
    if what in ("set", "setm", "seto"):
        have = model.get(op[1], [])
        first = have[-1] + 1 if have else 0
        df = frame(op[1], first, 2)
        kw = {"set": None, "setm": {"max_row_group_size": 1, "metadata": {"m": "1"}}, "seto": {"ordered_on": "n", "max_row_group_size": 3, "max_nirgs": 1}}[what]
        try:
            store[key] = df if kw is None else (kw, df)
        except CaseTimeout:
            raise
        except Exception as e:
            return store, [f"{op} raised {type(e).__name__}: {e}"]
        model[op[1]] = have + [first, first + 1]
        return store, []
    if what == "del":
        try:
            del store[key]
        except CaseTimeout:
            raise
        except Exception as e:
            return store, [f"{op} raised {type(e).__name__}: {e}"]
        model.pop(op[1], None)
        return store, []
    if what in ("delio", "delre"):
        # Deletion meeting a file system error: at its first removal (nothing is removed), or
        # at a later one and then asked again.
        if op[1] not in model:
            return store, []
        with faults.Faults(lambda path, writing: writing, ("open", op[2]), also=("os.remove", "os.rmdir", "os.rename")):
            e = sl.attempt(store.__delitem__, key)
        if e is None:
            model.pop(op[1])
        elif what == "delre":
            e = sl.attempt(store.__delitem__, key)
            if e is not None:
                return store, [f"{op}: deletion asked again raised {type(e).__name__}: {e}"]
            model.pop(op[1])
        return store, []
    # Operations that are to fail, without any effect.
    df = frame(op[1], 0, 3)
    if what == "io":
        with faults.Faults(faults.new_data_file(store.basepath), ("torn", 1, 8)) as f:
            e = sl.attempt(store.set, key, df, max_row_group_size=1)
        if not f.fired:
            return store, ["no data file opened for writing"]
    elif what == "io0":
        with faults.Faults(faults.new_data_file(store.basepath), ("open", 0)) as f:
            e = sl.attempt(store.set, key, df)
    elif what == "arg":
        e = sl.attempt(store.set, key, df, ordered_on="nope")
    elif what == "type":
        e = sl.attempt(store.set, key, [1, 2])
    elif what == "key":
        e = sl.attempt(store.set, Other(), df) or sl.attempt(store.set, key.to_path, df)
    elif what == "kw":
        e = sl.attempt(store.__setitem__, key, (["notadict"], df))
    if e is None:
        return store, [f"{op} did not raise"]
    return store, []


def check(store, schema, model):
    cls, keys = KEYS[schema]
    problems = []
    expected = sorted(keys[k] for k in model)
    for name, s in (("live", store), ("reopened", ParquetSet(store.basepath, cls))):
        got = list(s)
        if got != expected:
            problems.append(f"{name} store lists {[k.to_path for k in got]}, expected {[k.to_path for k in expected]}")
            continue
        if len(s) != len(expected) or list(s.keys) != expected or not isinstance(s.keys, SortedSet):
            problems.append(f"{name} store: length {len(s)}, keys {list(s.keys)}")
        if [k in s for k in keys] != [i in model for i in range(len(keys))]:
            problems.append(f"{name} store: membership wrong")
        if repr(s) != "\n".join(str(k) for k in expected):
            problems.append(f"{name} store shown as {s!r}")
        for k, ns in model.items():
            pdf = s[keys[k]].pdf
            if sl.rows(pdf, ["k", "n"]) != [(k, n) for n in ns]:
                problems.append(f"{name} store: key {keys[k].to_path} reads {sl.rows(pdf)}")
            if s[keys[k]].dirpath != os.path.join(s.basepath, keys[k].to_path):
                problems.append(f"directory of key is {s[keys[k]].dirpath}")
    # Other spellings of the base path.
    base = str(store.basepath)
    for spelled in (base + "/", os.path.relpath(base), Path(base)):
        s = ParquetSet(spelled, cls)
        if list(s) != expected:
            problems.append(f"store opened at {spelled!r} lists {[k.to_path for k in s]}, expected {[k.to_path for k in expected]}")
        elif model:
            k = max(model)
            if sl.rows(s[keys[k]].pdf, ["k", "n"]) != [(k, n) for n in model[k]]:
                problems.append(f"store opened at {spelled!r}: key {keys[k].to_path} reads {sl.rows(s[keys[k]].pdf)}")
    return problems


def ops_of(schema, q, live):
    n = 3 if q else 4
    out = []
    for k in range(n):
        out += [["set", k], ["del", k]]
    out += [["setm", 0], ["seto", 1], ["io", 1], ["io0", 0], ["io", 2], ["arg", 0], ["type", 1]]
    out += [["delio", 0, 0], ["delre", 1, 2]]
    if not q:
        out += [["delre", 0, k] for k in (1, 3, 4, 5)] + [["delio", 1, 0]]
    if live:
        out += [["reopen"]]
    else:
        out += [["key", 0], ["kw", 1], ["arg", 2]]
    return out


def setup_base(schema, with_foreign):
    base = sl.tmpdir()
    if with_foreign == "absent":
        os.rmdir(base)
    elif with_foreign:
        foreign(base, schema)
    return base


def history(res, schema, with_foreign, ops, only_last):
    """Run a history on one live store, checking after each operation."""
    base = setup_base(schema, with_foreign)
    case = {"schema": schema, "foreign": with_foreign, "ops": ops}
    try:
        with time_limit(120):
            store = ParquetSet(base, KEYS[schema][0])
            model = {}
            if not ops:
                for p in check(store, schema, model):
                    res.bad(p, case)
            for i, op in enumerate(ops):
                store, problems = apply(store, schema, op, model)
                res.n["transitions"] += 1
                if not problems and (i + 1 == len(ops) or not only_last):
                    problems = check(store, schema, model)
                for p in problems:
                    res.bad(f"{p}, after {ops[: i + 1]}", case)
                if problems:
                    return None
            res.n["traces_validated_against_impl"] += 1
            return tuple(sorted((k, tuple(v)) for k, v in model.items()))
    except CaseTimeout:
        res.bad("operation does not terminate", case)
    except Exception as e:
        res.bad(f"{type(e).__name__}: {e}", case)
    finally:
        sl.drop(base)


def work(item):
    res = Result()
    schema, with_foreign, hists = item
    for ops in hists:
        canon = history(res, schema, with_foreign, ops, True)
        res.case((schema, with_foreign, tuple(map(tuple, ops))), True)
        if canon is not None:
            res.new.append((canon, ops))
        if len(res.violations) > 3:
            break
    res.sample({"schema": schema, "foreign": with_foreign, "history": hists[-1]})
    return res


def chunked(seq, n):
    for i in range(0, len(seq), n):
        yield seq[i : i + n]


def explore(run):
    q = run.quick
    configs = [(s, f) for s in KEYS for f in (False, True)] + [("Two", "absent")]
    # Part 1: states are the models reached, each represented by its shortest history; the last
    # operation is made through a store opened anew ("reopen" first).
    for schema, fo in configs:
        seen = {(): []}
        frontier = [[]]
        for level in range(3 if q else 5):
            ops = ops_of(schema, q, False)
            hists = [h + [["reopen"], op] for h in frontier for op in ops]
            nxt = []
            for res in run.map(work, [(schema, fo, h) for h in chunked(hists, 12)]):
                for canon, h in res.new:
                    # Rows are capped: a dataset of more than 4 rows is not extended further.
                    if canon not in seen and all(len(v) <= 4 for _, v in canon):
                        seen[canon] = h
                        nxt.append(h)
            if run.pool is None:
                return
            frontier = sorted(nxt, key=repr)
        run.n["states"] += len(seen)
    # Part 2: every history of a live store.
    for schema, fo in [("Two", False), ("Three", True), ("One", True)] if q else configs:
        hists = [[]]
        depth = 3 if q else 4
        ops = [op for op in ops_of(schema, True, True) if not q or op[0] not in ("setm", "type") and op != ["io", 2]]
        for level in range(depth):
            hists = [h + [op] for h in hists for op in ops]
        run.run_all(work, [(schema, fo, h) for h in chunked([[]] + hists, 24)])
        if run.pool is None:
            return


def replay(case):
    res = Result()
    history(res, case["schema"], case["foreign"], case["ops"], False)
    return [w for w, _ in res.violations]
