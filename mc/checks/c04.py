"""C04: row groups respect size, sharp boundaries and the coalescing rule.

States are row-group layouts on disk, transitions are real writes. After each write, the layout is
compared with the rule computed from the layout before the write and the batch.
"""
import math
import os

import pandas as pd
from fastparquet import ParquetFile

from mc import store_lib as sl

PROP = "C04"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "explicit-state enumeration of row-group layouts, real writes as transitions, layout rule as transition invariant"
RULE = ("one case = one real write (position and size of batch, max_row_group_size, max_nirgs, ordered_on or not) on a "
        "distinct row-group layout; non-trivial: the write met recorded row groups")
NOTE = ("Every layout of the menu (and those reached from it) meets every batch position and threshold setting; which "
        "row groups were rewritten is observed from the data files themselves. Trusts fastparquet's reader.")
ASSUMPTIONS = ["new data located between trailing incomplete row groups without overlapping any may be coalesced or not",
               "the size rule of rewritten row groups is checked without duplicates_on (dropping rows comes after chunking)"]
DEFAULT_M = 6_345_000


def layout(base):
    """List of (values, ids, identity of the data file) per row group."""
    d = sl.dir_of(base)
    pf = ParquetFile(d)
    out = []
    for i, rg in enumerate(pf.row_groups):
        df = pf[i].to_pandas()
        out.append((tuple(df["a"].tolist()), tuple(df["b"].tolist()), os.stat(os.path.join(d, os.path.basename(pf.row_group_filename(rg)))).st_ino))
    return out


def frame(vals, first):
    return pd.DataFrame({"a": pd.Series(list(vals), dtype="int64"), "b": pd.Series(range(first, first + len(vals)), dtype="int64")})


def build(base, op):
    """Dataset with given row groups, made by successive appends."""
    store = sl.store_at(base)
    n = 0
    for vals in op["rgs"]:
        store[sl.KEY] = frame(vals, n)
        n += len(vals)
    got = [rg[0] for rg in layout(base)]
    if got != [tuple(v) for v in op["rgs"]]:
        return [f"appended row groups are {got} for {op}"], None, None
    return [], canon_of(base), None


def canon_of(base):
    return tuple(rg[0] for rg in layout(base))


def rule(pre, vals, ids, op):
    """Judge the layout after the write."""
    kw = op["kw"]
    post = op["post"]
    n = len(pre)
    M = kw.get("max_row_group_size")
    nirgs = kw.get("max_nirgs")
    if M is None:
        M = DEFAULT_M
    problems = []
    same = [rg[1:] for rg in pre]
    now = [rg[1:] for rg in post]
    t = n
    while t > 0 and len(pre[t - 1][0]) <= int(M * 0.9):
        t -= 1
    n_irgs = n - t
    total = sum(len(rg[0]) for rg in pre[t:]) + len(vals)
    cond = nirgs is not None and n_irgs > 0 and (n_irgs >= nirgs or total >= M)
    ordered = "ordered_on" in kw
    over = [i for i, rg in enumerate(pre) if rg[0][-1] >= vals[0] and rg[0][0] <= vals[-1]] if ordered else []
    insert = sum(rg[0][0] < vals[0] for rg in pre) if ordered and not over else n

    def untouched(k, why):
        if now[:k] != same[:k]:
            problems.append(f"{why}: first {k} row groups of {[r[0] for r in pre]} should be untouched, got {[r[0] for r in post]}")

    if over:
        o = over[0]
        untouched(min(o, t), "row groups before overlap and trailing incomplete ones")
        if over[-1] == n - 1:
            if cond:
                k = min(o, t)
                rest = sum(len(rg[0]) for rg in pre[k:]) + len(vals)
                if len(post) - k > math.ceil(rest / M):
                    problems.append(f"trailing incomplete row groups not merged: {[r[0] for r in pre]} -> {[r[0] for r in post]}")
            else:
                untouched(o, "no coalescing due, row groups before overlap")
    elif insert < n:
        untouched(min(insert, t), "row groups before new data and trailing incomplete ones")
        if insert <= t and not (insert == t and cond):
            if now[:insert] != same[:insert] or now[len(now) - (n - insert):] != same[insert:]:
                problems.append(f"data inserted between row groups, recorded ones should be untouched: {[r[0] for r in pre]} -> {[r[0] for r in post]}")
    elif cond:
        untouched(t, "row groups before trailing incomplete ones")
        new_inodes = {rg[2] for rg in post[t:]} & {rg[2] for rg in pre}
        if len(post) - t > math.ceil(total / M) or new_inodes:
            problems.append(f"coalescing due and not done: {[len(r[0]) for r in pre]} + {len(vals)} -> {[len(r[0]) for r in post]}")
    else:
        untouched(n, "no coalescing due, new data should only be appended")
    # Newly written row groups.
    before = {rg[2] for rg in pre}
    written = [rg for rg in post if rg[2] not in before]
    rewritten = not before <= {rg[2] for rg in post}
    if rewritten and ordered:
        seen = set()
        for rg in written:
            if seen & set(rg[0]):
                problems.append(f"value straddling two newly written row groups: {[r[0] for r in post]}")
                break
            seen |= set(rg[0])
            if len(rg[0]) - (rg[0].count(rg[0][0]) - 1) > M:
                problems.append(f"newly written row group {rg[0]} exceeds {M} rows")
    elif not rewritten or not ordered:
        for rg in written:
            if len(rg[0]) > M:
                problems.append(f"newly written row group of {len(rg[0])} rows exceeds {M}")
    tag = ("over" if over else "insert" if insert < n else "tail", cond, rewritten)
    return [p + f" with {kw}, new {vals}" for p in problems], tag


def step(base, op):
    if "rgs" in op:
        return build(base, op)
    store = sl.store_at(base)
    pre = layout(base)
    nrows = sum(len(rg[0]) for rg in pre)
    df = frame(op["v"], nrows)
    e = sl.attempt(store.set, sl.KEY, sl.to_input(df, op["in"]), **op["kw"])
    if e is not None:
        return [f"write raised {type(e).__name__}: {e}"], None, None
    post = layout(base)
    problems, tag = rule(pre, list(op["v"]), None, {**op, "post": post})
    if sorted(i for rg in post for i in rg[1]) != list(range(nrows + len(df))):
        problems.append("rows lost or multiplied")
    return problems, tuple(rg[0] for rg in post), tag


work_ = sl.make_work(step)


def work(item):
    return work_(item)


replay = sl.make_replay(step)


def asc(lens, rep=1):
    """Row groups of given lengths, values ascending by 2, each repeated ``rep`` times."""
    out, k = [], 0
    for n in lens:
        out.append([10 + 2 * ((k + i) // rep) for i in range(n)])
        k += n
        if rep > 1:
            k = -(-k // rep) * rep
    return out


def batches(rgs, sizes, ordered):
    hi = rgs[-1][-1]
    if not ordered:
        return [[hi + 1 + i for i in range(n)] for n in sizes]
    out = []
    starts = {hi + 1, hi, 1, rgs[0][0]}
    for rg in rgs:
        starts |= {rg[0], rg[0] - 1, rg[-1], rg[len(rg) // 2]}
    for s in sorted(starts):
        for n in sizes:
            out.append([s + i for i in range(n)])
            if n > 2:
                out.append([s] * (n - 1) + [s + 1])
            if n > 1:
                out.append([s] * n)
    uniq = []
    for b in out:
        if b not in uniq:
            uniq.append(b)
    return uniq


def explore(run):
    q = run.quick
    # Family 1: layouts x tail batches (ordered or not) at thresholds.
    lays = [(10, 9), (10, 8), (9, 10), (9, 9), (10, 10), (10, 1), (1, 10), (10, 1, 1), (10, 2, 1, 1), (8, 8), (10, 9, 1), (9, 1), (1,), (2, 1, 10, 1), (10, 5, 4), (2, 2, 2), (4, 4, 3), (4, 3, 4)]
    items = []
    for lay in lays:
        rgs = asc(lay)
        ops = []
        for M in (None, 1, 2, 3, 4, 10, 11):
            for k in (None, 0, 1, 2, 3, 4):
                if q and M in (1, 3) and k in (0, 4):
                    continue
                kw = {} if M is None else {"max_row_group_size": M}
                if k is not None:
                    kw["max_nirgs"] = k
                for o in (False, True):
                    kw2 = {**kw, "ordered_on": "a"} if o else kw
                    for n in ((1, 2, 5, 9) if q else range(1, 13)):
                        for i in (("pandas",) if q else ("pandas", "vaex")):
                            ops.append({"v": [rgs[-1][-1] + 1 + j for j in range(n)], "in": i, "kw": kw2})
        items.append(({"rgs": rgs}, ops))
    for create, ops in items:
        if run.pool is None and run.n["transitions"]:
            return
        sl.bfs(run, work, 2, lambda level, c=create, o=ops: [c] if level == 0 else o)
    # Family 2: positions within small layouts.
    lays2 = [asc((2, 2, 2)), asc((2, 2, 1, 1)), asc((4, 1, 1)), asc((4, 4)), asc((4, 4), 2), asc((6, 3), 3), asc((2, 4, 2), 2), asc((4, 2, 1, 2))]
    for rgs in lays2:
        ops = []
        for M, k in [(2, None), (2, 1), (2, 2), (4, None), (4, 1), (4, 2), (4, 3), (None, 1), (3, 2), (10, 2)] if q else [(m, k) for m in (None, 1, 2, 3, 4, 5, 10) for k in (None, 0, 1, 2, 3)]:
            kw = {"ordered_on": "a"}
            if M is not None:
                kw["max_row_group_size"] = M
            if k is not None:
                kw["max_nirgs"] = k
            for b in batches(rgs, (1, 3) if q else (1, 2, 3, 5), True):
                ops.append({"v": b, "in": "pandas", "kw": kw})
        sl.bfs(run, work, 2, lambda level, c={"rgs": rgs}, o=ops: [c] if level == 0 else o)
        if run.pool is None:
            return
    # Family 3: histories of writes, the layout rule being checked at each.
    def fam3(level):
        if level == 0:
            return [{"rgs": asc((2, 2, 1))}, {"rgs": asc((4, 3), 2)}]
        out = []
        for kw in [{"max_row_group_size": 2, "max_nirgs": 2}, {"max_row_group_size": 4, "max_nirgs": 3}, {"max_row_group_size": 3}]:
            for v in ([10], [13, 14], [11, 30], [30], [31, 31, 31], [1, 2]):
                out.append({"v": v, "in": "pandas", "kw": {**kw, "ordered_on": "a"}})
            # Without ordering: still kept in order, for the rule to make sense at next level.
            out.append({"v": [90 + level], "in": "vaex", "kw": kw})
        return out

    sl.bfs(run, work, 3 if q else 5, fam3)
