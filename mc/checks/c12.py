"""C12: column multi-indexes survive conforming, recording, updating and expansion.

Exhaustive enumeration of small column multi-indexes through the real ``conform_cmidx``, the real writer
(creation then updates, pandas and vaex input), the real readers, and ``to_midx``. Oracle: the labels
given, in plain Python.
"""
import itertools

import pandas as pd

from mc import store_lib as sl
from mc.core import CaseTimeout, Result, time_limit
from oups import conform_cmidx
from oups.store.writer import to_midx

PROP = "C12"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = ("exhaustive enumeration of column multi-indexes and of short write histories, run on the real code, "
             "compared with the labels given")
RULE = ("one case = one column multi-index conformed, or one history of real writes of a multi-index dataframe read back, or one "
        "expansion of flat names; non-trivial: some label or name to convert, or at least one update, or unequal depths")
NOTE = ("Every multi-index over the label alphabet up to the stated number of levels and columns is conformed, and every history of "
        "the menu is recorded and read back through pandas, vaex and fastparquet handles; trusts the alphabet (strings with quotes, "
        "separators, digits, ints, floats, bools, timestamps, nulls) to stand for other labels.")
ASSUMPTIONS = ["recorded multi-indexes have at least 2 levels (fastparquet flattens a single level) and distinct columns once conformed",
               "flat names to expand that are not string forms of tuples are not string forms of other Python tuples ('1,2')",
               "not more level names than levels are given for an expansion"]

TS = pd.Timestamp("2020-01-01 01:00")
LABELS = ["a", "b", 1, "1", 1.5, "1.5", True, "True", None, float("nan"), TS, ("x", "y"), "", "(1,)", 2, "é"]
NAMES = [None, "n", "", 7]


def isnull(v):
    return v is None or (isinstance(v, float) and v != v)


def strings_of(given, held):
    """Accepted string forms of a label."""
    if isinstance(given, str):
        return {given}
    if isnull(given):
        return {"nan", "None", "NaT", "<NA>"}
    return {str(given), str(held)}


def build(c):
    cols = [tuple(LABELS[i] for i in col) for col in c["cols"]]
    names = [NAMES[i] for i in c["names"]]
    if c.get("how") == "levels":
        # Levels in reverse order, with labels not used by any column.
        levels, codes = [], []
        for k in range(len(names)):
            lev = []
            for col in reversed(cols):
                if not any(col[k] == v for v in lev) and not isnull(col[k]):
                    lev.append(col[k])
            lev = ["unused", *lev, 99]
            levels.append(pd.Index(lev, dtype=object))
            codes.append([-1 if isnull(col[k]) else next(j for j, v in enumerate(lev) if v == col[k]) for col in cols])
        midx = pd.MultiIndex(levels=levels, codes=codes, names=names)
    else:
        midx = pd.MultiIndex.from_tuples(cols, names=names)
        if c.get("how") == "subset":
            extra = pd.MultiIndex.from_tuples(cols + [(99,) * len(names), ("zz",) * len(names)], names=names)
            midx = extra[: len(cols)]
    n = len(cols)
    df = pd.DataFrame({k: [k + 10 * r for r in range(2)] if k % 2 == 0 else [f"s{k}{r}" for r in range(2)] for k in range(n)})
    df.columns = midx
    return df, cols, names


def run_conform(c):
    df, cols, names = build(c)
    # Labels as held by pandas (1 and True are a single label).
    held = [tuple(lev[cod[k]] if cod[k] >= 0 else None for lev, cod in zip(df.columns.levels, df.columns.codes)) for k in range(len(cols))]
    want_names = ["" if n is None else n for n in names]
    want_values = [df.iloc[:, k].tolist() for k in range(len(cols))]
    want_types = [df.iloc[:, k].dtype for k in range(len(cols))]
    index = df.index.tolist()
    other = pd.DataFrame([[0] * len(cols)], columns=df.columns)
    other_names = list(other.columns.names)
    other_cols = [repr(x) for x in other.columns]
    e = sl.attempt(conform_cmidx, df)
    if e is not None:
        return [f"conform_cmidx raised {type(e).__name__}: {e}"]
    out = []

    def verify(when):
        got = list(df.columns)
        if list(df.columns.names) != want_names:
            out.append(f"{when}: level names {list(df.columns.names)}, expected {want_names}")
        if df.columns.nlevels != len(names) or len(got) != len(cols):
            out.append(f"{when}: shape of column index changed: {got}")
            return
        for k, (g, col, h) in enumerate(zip(got, cols, held)):
            for lev in range(len(names)):
                if not isinstance(g[lev], str) or g[lev] not in strings_of(col[lev], h[lev]):
                    out.append(f"{when}: column {k} is {g!r}, given as {col!r}")
        for level in df.columns.levels:
            if not all(isinstance(x, str) for x in level):
                out.append(f"{when}: level {list(level)} holds a label which is not a string")
        if [df.iloc[:, k].tolist() for k in range(len(cols))] != want_values or [df.iloc[:, k].dtype for k in range(len(cols))] != want_types:
            out.append(f"{when}: data changed")
        if df.index.tolist() != index:
            out.append(f"{when}: row index changed")

    verify("conformed")
    if list(other.columns.names) != other_names or [repr(x) for x in other.columns] != other_cols:
        out.append("another dataframe sharing the column index was modified")
    first = list(df.columns)
    e = sl.attempt(conform_cmidx, df)
    if e is not None:
        out.append(f"conforming twice raised {type(e).__name__}: {e}")
    elif list(df.columns) != first:
        out.append(f"conforming twice changes columns {first} into {list(df.columns)}")
    return out


# ------------------------------------------------------------------------------ recording

def data(cols, ids, ordered=None):
    """One column of ints (or ordered values), others mixed, derived from row ids."""
    out = {}
    for k in range(len(cols)):
        if k == 0:
            out[k] = [int(v) for v in (ordered if ordered is not None else ids)]
        elif k % 2:
            out[k] = [f"s{k}-{i}" for i in ids]
        else:
            out[k] = [i / 4 + k for i in ids]
    df = pd.DataFrame(out)
    df.columns = pd.MultiIndex.from_tuples(cols)
    return df


def table(df):
    return [tuple(sl.cell(v) for v in t) for t in df.itertuples(index=False, name=None)]


def read_problems(base, cols, names, want):
    out = []
    handle = sl.store_at(base)[sl.KEY]
    for label, df in (("pandas view", handle.pdf), ("fastparquet view", handle.pf.to_pandas())):
        if list(df.columns) != cols or not isinstance(df.columns, pd.MultiIndex):
            out.append(f"{label}: columns {list(df.columns)}, expected {cols}")
        elif list(df.columns.names) != names:
            out.append(f"{label}: level names {list(df.columns.names)}, expected {names}")
        if table(df) != want:
            out.append(f"{label}: rows {table(df)}, expected {want}")
    vdf = handle.vdf
    flat = [str(c) for c in cols]
    if vdf.get_column_names() != flat:
        out.append(f"vaex view: columns {vdf.get_column_names()}, expected {flat}")
    elif table(vdf.to_pandas_df()) != want:
        out.append(f"vaex view: rows {table(vdf.to_pandas_df())}, expected {want}")
    return out


def run_record(c):
    """History of writes: first creates the dataset, others update it."""
    cols = [tuple(t) for t in c["cols"]]
    names = list(c["names"])
    base = sl.tmpdir()
    want = []
    out = []
    nid = 0
    try:
        for step, op in enumerate(c["ops"]):
            n = len(op["on"]) if "on" in op else op["n"]
            df = data(cols, range(nid, nid + n), op.get("on"))
            nid += n
            df.columns.names = names
            new = table(df)
            kw = dict(op.get("kw", {}))
            if op["in"] == "vaex":
                df = sl.from_pandas(df)
                if step == 0:
                    kw["cmidx_expand"] = True
                    kw["cmidx_levels"] = list(names)
                if op.get("expand"):
                    kw["cmidx_expand"] = True
            if "on" in op:
                kw["ordered_on"] = str(cols[0])
            e = sl.attempt(sl.store_at(base).set, sl.KEY, df, **kw)
            if e is not None:
                return [f"write {step} raised {type(e).__name__}: {e}"]
            if "on" in op and step:
                if "duplicates_on" in kw:
                    vals = {r[0] for r in new}
                    last = {r[0]: r for r in new}
                    want = [r for r in want if r[0] not in vals] + list(last.values())
                else:
                    want = want + new
                want = sorted(want, key=lambda r: r[0])
            else:
                want = want + new
            out += [f"after write {step}: {p}" for p in read_problems(base, cols, names, want)]
            if out:
                return out
    finally:
        sl.drop(base)
    return out


# ------------------------------------------------------------------------------ expansion

def run_expand(c):
    given = [tuple(x) if isinstance(x, (list, tuple)) else x for x in c["flat"]]
    flat = [str(x) if isinstance(x, tuple) else x for x in given]
    depth = max([len(x) if isinstance(x, tuple) else 1 for x in given])
    want = [(x if isinstance(x, tuple) else (x,)) for x in given]
    want = [x + ("",) * (depth - len(x)) for x in want]
    levels = None if c["levels"] is None else list(c["levels"])
    want_names = (levels or []) + [f"l{i}" for i in range(len(levels or []), depth)]
    try:
        got = to_midx(pd.Index(flat), levels)
    except CaseTimeout:
        raise
    except Exception as e:
        return [f"to_midx raised {type(e).__name__}: {e}"]
    out = []
    gcols = [x if isinstance(x, tuple) else (x,) for x in got]
    if gcols != want or got.nlevels != depth:
        out.append(f"expanded into {gcols}, expected {want}")
    if list(got.names) != want_names:
        out.append(f"level names {list(got.names)}, expected {want_names}")
    if levels != (None if c["levels"] is None else list(c["levels"])):
        out.append(f"list of level names given is modified into {levels}")
    return out


def run_create(c):
    """Dataset created from flat names, in one or several row groups."""
    given = [tuple(x) if isinstance(x, (list, tuple)) else x for x in c["flat"]]
    depth = max([len(x) if isinstance(x, tuple) else 1 for x in given])
    cols = [x if isinstance(x, tuple) else (x,) for x in given]
    cols = [x + ("",) * (depth - len(x)) for x in cols]
    names = ["l%d" % k for k in range(depth)]
    levels = None
    if c["levels"] is not None:
        levels = list(c["levels"])
        names = levels + names[len(levels):]
    flat = [(str(x).replace(", ", ",") if c["tight"] else str(x)) if isinstance(x, tuple) else x for x in given]
    df = data([(x,) for x in flat], range(c["n"]))
    df.columns = flat
    want = table(df)
    base = sl.tmpdir()
    try:
        d = sl.from_pandas(df) if c["in"] == "vaex" else df
        kw = {} if c["size"] is None else {"max_row_group_size": c["size"]}
        e = sl.attempt(sl.store_at(base).set, sl.KEY, d, cmidx_expand=True, cmidx_levels=levels, **kw)
        if e is not None:
            return [f"creation raised {type(e).__name__}: {e}"]
        out = read_problems(base, cols, names, want)
        if c["in"] == "pandas" and list(df.columns) != flat:
            out.append(f"columns of the dataframe given changed into {list(df.columns)}")
        return out
    finally:
        sl.drop(base)


KINDS = {"create": run_create, "conform": run_conform, "record": run_record, "expand": run_expand}


def run_case(c):
    try:
        with time_limit(120):
            return KINDS[c["kind"]](c)
    except CaseTimeout:
        return ["does not terminate (120 s)"]


def nontrivial(c):
    if c["kind"] == "conform":
        return any(not isinstance(LABELS[i], str) for col in c["cols"] for i in col) or 0 in c["names"]
    if c["kind"] == "record":
        return len(c["ops"]) > 1
    if c["kind"] == "create":
        return c["n"] > 1 and c["size"] is not None
    return len({len(x) if isinstance(x, (tuple, list)) else 1 for x in c["flat"]}) > 1 or bool(c["levels"])


def work(cases):
    res = Result()
    for c in cases:
        problems = run_case(c)
        res.n["traces_validated_against_impl"] += 1
        res.n["states"] += 1
        res.n["transitions"] += len(c.get("ops", [1]))
        res.n["n_" + c["kind"]] += 1
        res.case(repr(sorted(c.items())), nontrivial=nontrivial(c))
        for p in problems:
            res.bad(f"{p} for {c}", c)
        if not problems and nontrivial(c):
            res.sample(c)
    return res


def replay(c):
    return run_case(c)


def conform_cases(quick):
    n = len(LABELS)
    # Two columns, two levels: both labels of a level take all values.
    names2 = [(0, 0), (1, 0), (0, 1), (1, 2), (3, 0), (1, 1)]
    for i, j in itertools.product(range(n), repeat=2):
        for nm in names2 if i < 4 or not quick else names2[:2]:
            for how in ("tuples", "subset", "levels"):
                yield {"kind": "conform", "cols": [(i, 0), (j, 1)], "names": nm, "how": how}
                yield {"kind": "conform", "cols": [(0, i), (1, j)], "names": nm, "how": how}
        for nm in ((0, 1, 0), (1, 0, 3)):
            yield {"kind": "conform", "cols": [(0, i, 4), (1, j, 4), (0, 2, j)], "names": nm, "how": "tuples"}
    # Three columns sharing labels in a level.
    for t in itertools.product(range(10 if quick else n), repeat=3):
        for how in ("tuples", "levels"):
            yield {"kind": "conform", "cols": [(t[0], 0), (t[1], 1), (t[2], 14)], "names": (0, 0), "how": how}
    # Both levels free for two columns.
    for t in itertools.product(range(6 if quick else 11), repeat=4):
        yield {"kind": "conform", "cols": [t[:2], t[2:]], "names": (0, 1), "how": "tuples"}


PARTS = ["a", "1", "", "it's", 'q"', "a, b", "(", "None", "\\", "é", "('a', 'b')", " "]


def record_cases(quick):
    shapes = []
    for p, q in itertools.product(PARTS, repeat=2):
        shapes.append([(p, "x"), ("k", q)])
    for p in PARTS:
        shapes.append([(p, "x", "u"), ("k", p, "v"), ("k", "w", p)])
        shapes.append([(p, "x", "u", p), ("k", p, "v", "")])
    for s in shapes:
        depth = len(s[0])
        for names in (["l%d" % i for i in range(depth)], [""] * depth, ["n"] * depth) if not quick else (["l%d" % i for i in range(depth)], [""] * depth):
            for k1, k2 in itertools.product(("pandas", "vaex"), repeat=2):
                for kw in ({}, {"max_nirgs": 0, "max_row_group_size": 10}):
                    if quick and names[0] == "" and kw:
                        continue
                    yield {"kind": "record", "cols": s, "names": names, "ops": [
                        {"in": k1, "n": 3}, {"in": k2, "n": 2, "kw": kw, "expand": k2 == "vaex" and bool(kw)}]}
    # Three writes.
    for s in ([("a", "x"), ("a", "y"), ("b", "x")], [("a", ""), ("it's", "y")]):
        for kinds in itertools.product(("pandas", "vaex"), repeat=3):
            for sizes in itertools.product((1, 2, 3), repeat=3) if not quick else [(1, 2, 1), (3, 1, 2), (2, 2, 3)]:
                for kw in ({}, {"max_row_group_size": 2}, {"max_row_group_size": 3, "max_nirgs": 1}, {"max_row_group_size": 4, "max_nirgs": 2}):
                    yield {"kind": "record", "cols": s, "names": ["u", "v"], "ops": [
                        {"in": k, "n": n, "kw": kw} for k, n in zip(kinds, sizes)]}
    # Ordered updates (flat name of the column, vaex input).
    s = [("a", "x"), ("a", "y"), ("b", "z")]
    for first in sl.subseqs(0, 4, 3) if not quick else [(0, 1, 3), (0, 2, 2), (1, 1, 3)]:
        for second in itertools.chain.from_iterable(sl.subseqs(-1, 5, k) for k in ((1, 2) if quick else (1, 2, 3))):
            for kw in ({}, {"max_row_group_size": 2}, {"max_row_group_size": 2, "max_nirgs": 1}):
                for dup in (None, str(s[0])):
                    if dup and len(set(first)) < 3:
                        continue
                    k2 = dict(kw, duplicates_on=dup) if dup else kw
                    if dup and len(set(second)) < len(second):
                        continue
                    yield {"kind": "record", "cols": s, "names": ["u", "v"], "ops": [
                        {"in": "vaex", "on": first, "kw": kw}, {"in": "vaex", "on": second, "kw": k2}]}


def create_cases(quick):
    pool = [("a", "x"), ("a", "y"), ("b", "x", "u"), ("it's", "z"), ("c", ""), "ts", "v w"]
    for r in (2, 3):
        for flat in itertools.permutations(pool, r):
            if not any(isinstance(x, tuple) for x in flat):
                continue
            for tight in (False, True):
                for n, size in ((1, None), (3, 1), (5, 2)) if quick else ((1, None), (3, None), (3, 1), (5, 2), (7, 3)):
                    for kind in ("vaex", "pandas"):
                        if quick and r == 3 and (kind == "pandas" or n != 3):
                            continue
                        yield {"kind": "create", "flat": list(flat), "tight": tight, "n": n, "size": size, "in": kind, "levels": None if n != 3 else ["m"]}


def expand_cases(quick):
    parts = PARTS if not quick else PARTS[:8]
    flats = ["ts", "a b", "1", "None", "a", "x.y", "'q", "t(1)", "", "é", "1.5", "[1]", "{}"]
    pool = []
    for p in parts:
        pool += [(p,), (p, "z"), ("z", p), (p, "y", "z"), ("z", p, p)]
    pool += flats
    for a, b in itertools.product(pool, repeat=2):
        if a == b:
            continue
        depth = max(len(x) if isinstance(x, tuple) else 1 for x in (a, b))
        for k in range(depth + 1):
            yield {"kind": "expand", "flat": [a, b], "levels": ["n%d" % i for i in range(k)] if k else None}
        yield {"kind": "expand", "flat": [a, b], "levels": []}
    for a in pool:
        yield {"kind": "expand", "flat": [a], "levels": None}
    for t in itertools.permutations([("a",), ("a", "b"), ("a", "b", "c"), "ts", ("d", "", "")], 3):
        for k in range(2):
            yield {"kind": "expand", "flat": list(t), "levels": ["m"] * k}


def explore(run):
    cases = list(record_cases(run.quick)) + list(create_cases(run.quick)) + list(conform_cases(run.quick)) + list(expand_cases(run.quick))
    run.notes["bounds"] = {"levels": "2..4", "columns": "1..3", "label alphabet": [repr(x) for x in LABELS], "writes per history": "2..3"}
    n = min(len(cases), 400)
    run.run_all(work, [cases[k::n] for k in range(n)])
