"""C03: appending without ordering keeps every row, in arrival order.

Breadth-first search over dataset states (row-group lengths, column types): every transition is one
real write without ``ordered_on``. Oracle: rows read before + rows of the batch, in this order.
"""
import numpy as np
import pandas as pd

from mc import store_lib as sl

PROP = "C03"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "explicit-state breadth-first search, real writes as transitions, reference concatenation as oracle"
RULE = ("one case = one real write without ordered_on on a distinct state (row-group lengths, column type, position "
        "of nulls) reached by a history of real writes; non-trivial: at least one row in the batch")
NOTE = ("Every history of appended batches within the bounds is run on the real writer and read back through a store "
        "opened anew; trusts fastparquet's reader, and the sizes (0..9 rows, row groups of 1..10 rows) being "
        "representative of larger ones.")
ASSUMPTIONS = ["column types: int8..int64, float32, float64, bool, Int64, naive timestamps, strings; nulls mixed with values (nullable integers for pandas input only)",
               "all batches of a history have the same column types"]


def col(typ, ids, null):
    """Column of given type; value derived from the row id, null every third row when requested."""
    ids = list(ids)
    isnull = [null and i % 3 == 1 for i in ids]
    if typ in ("str", "long"):
        # Texts of any length, any character.
        return pd.Series([None if n else "s%d" % i if typ == "str" else "é\n\u4e2d" * (i * 7) for i, n in zip(ids, isnull)], dtype=object)
    if typ == "bool":
        return pd.Series([i % 2 == 0 for i in ids], dtype=bool)
    if typ == "ns":
        # Any instant, to the nanosecond.
        return pd.Series([pd.NaT if n else pd.Timestamp((-1) ** i * (10**18 + 7 * i)) for i, n in zip(ids, isnull)], dtype="datetime64[ns]")
    if typ == "ts":
        return pd.Series([pd.NaT if n else pd.Timestamp("2020-01-01") + pd.Timedelta(hours=i) for i, n in zip(ids, isnull)], dtype="datetime64[ns]")
    if typ == "Int64":
        return pd.Series([pd.NA if n else i for i, n in zip(ids, isnull)], dtype="Int64")
    if typ.startswith("float"):
        return pd.Series([np.nan if n else i / 2 for i, n in zip(ids, isnull)], dtype=typ)
    return pd.Series([i - (0 if typ[0] == "u" else 3) for i in ids], dtype=typ)


def frame(op, first):
    ids = range(first, first + op["n"])
    df = pd.DataFrame({"z": col(op["t"], ids, op.get("null", False)), "id": pd.Series(list(ids), dtype="int64")})
    if op.get("idx"):
        # An index which is not a range: never recorded, never used.
        df.index = [7] * len(df)
    return df


COLS = ["z", "id"]


def step(base, op):
    store = sl.store_at(base)
    pre_rg = sl.rg_rows(sl.dir_of(base), COLS) if sl.KEY in store else []
    pre = [r for rg in pre_rg for r in rg]
    df = frame(op, len(pre))
    new = sl.rows(df, COLS)
    e = sl.attempt(store.set, sl.KEY, sl.to_input(df, op["in"]), **op["kw"])
    if e is not None:
        return [f"write raised {type(e).__name__}: {e}"], None, None
    got_rg = sl.rg_rows(sl.dir_of(base), COLS)
    pdf = sl.store_at(base)[sl.KEY].pdf
    problems = []
    got = sl.rows(pdf, COLS)
    if got != pre + new:
        problems.append(f"read {got_rg}, expected {pre} + {new}, {op}")
    if list(pdf.columns) != COLS:
        problems.append(f"columns changed: {list(pdf.columns)}")
    elif len(pdf) and [str(t) for t in pdf.dtypes] != [str(t) for t in df.dtypes]:
        problems.append(f"dtypes changed: {list(pdf.dtypes)} for {list(df.dtypes)}, {op}")
    if not pdf.index.equals(pd.RangeIndex(len(pdf))):
        problems.append(f"index of data read is {pdf.index}")
    mrgs = op["kw"].get("max_row_group_size")
    if mrgs:
        ids = {r[1] for r in new}
        for rg in got_rg:
            if len(rg) > mrgs and ids & {r[1] for r in rg}:
                problems.append(f"row group of new data has {len(rg)} rows, {op}")
    canon = (op["t"], op.get("null", False), tuple(len(rg) for rg in got_rg))
    return problems, canon, ("new" if new else None)


work_ = sl.make_work(step)


def work(item):
    return work_(item)


replay = sl.make_replay(step)


def explore(run):
    q = run.quick
    # Family 1: sizes of batches and of row groups, incomplete row groups, coalescing or not.
    mr = [None, 1, 2, 3, 4, 5, 10] if q else [None, 1, 2, 3, 4, 5, 6, 7, 10, 11]
    nirgs = [None, 0, 1, 2, 3]

    def fam1(level):
        out = []
        for m in mr:
            for k in nirgs:
                if level == 0 and k not in (None, 1):
                    continue
                kw = {} if m is None else {"max_row_group_size": m}
                if k is not None:
                    kw["max_nirgs"] = k
                for n in ([1, 2, 3, 5, 6, 7] if level == 0 else [0, 1, 2, 3, 4] if q else range(0, 8)):
                    if level and q and (n == 0 and k or n == 4 and k in (0, 3)):
                        continue
                    for i in ("pandas", "vaex"):
                        if i == "vaex" and (n == 0 or (q and (n not in (3, 7) or m not in (2, 4)))):
                            continue
                        out.append({"n": n, "t": "int64", "in": i, "kw": kw})
        return out

    sl.bfs(run, work, 2, fam1)
    if run.pool is None:
        return

    # Family 2: longer histories.
    def fam2(level):
        cfg = [{"max_row_group_size": 3}, {"max_row_group_size": 3, "max_nirgs": 1}, {"max_row_group_size": 4, "max_nirgs": 2},
               {"max_row_group_size": 10, "max_nirgs": 3}, {}]
        if q:
            return [{"n": n, "t": "int64", "in": "pandas", "kw": kw} for kw in cfg[:4] for n in ((4,) if level == 0 else (1, 3))]
        return [{"n": n, "t": "int64", "in": "pandas", "kw": kw} for kw in cfg for n in ((4, 1) if level == 0 else (1, 2, 3))]

    sl.bfs(run, work, 4 if q else 5, fam2)
    if run.pool is None:
        return

    # Family 3: column types, nulls, indexes.
    types = ["int8", "int32", "int64", "uint8", "float32", "float64", "bool", "Int64", "ts", "ns", "str", "long"]
    for t in types:
        for null in (False, True):
            if null and t in ("int8", "int32", "int64", "uint8", "bool"):
                continue

            def fam3(level, t=t, null=null):
                kws = [{"max_row_group_size": 2}, {"max_row_group_size": 4, "max_nirgs": 1}, {"max_nirgs": 0}]
                return [{"n": n, "t": t, "null": null, "in": i, "kw": kw, "idx": idx}
                        for i, idx in (("pandas", True), ("vaex", False), ("lazy", False), ("slice", False)) for kw in (kws[:1] if level == 0 else kws)
                        for n in ((3, 5) if level == 0 else (2, 3))
                        if i in ("pandas", "vaex") or n == 3
                        # Conversion to vaex turns nullable integers into numpy ones.
                        if i == "pandas" or t != "Int64"]
            sl.bfs(run, work, 2 if q else 3, fam3)
            if run.pool is None:
                return

    # Family 4: larger batches, of very different sizes.
    def fam4(level):
        out = []
        for m in (None, 7, 20, 64) if q else (None, 7, 15, 16, 17, 20, 33, 64, 100):
            for k in (None, 1) if level == 0 else (None, 0, 1):
                kw = {} if m is None else {"max_row_group_size": m}
                if k is not None:
                    kw["max_nirgs"] = k
                for n in ((1, 2, 11, 50) if level == 0 else (1, 8, 16, 17, 40, 129) if q else (1, 2, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 129, 257)):
                    for i in ("pandas", "vaex"):
                        if level == 0 and (i == "vaex" or k is not None):
                            continue
                        out.append({"n": n, "t": "int64", "in": i, "kw": kw})
        return out

    sl.bfs(run, work, 2, fam4)
