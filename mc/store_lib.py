"""Driver for single-dataset histories: real directories as states, real writes as transitions."""
import os
import shutil
import tempfile
import warnings

warnings.filterwarnings("ignore")

import pandas as pd
from fastparquet import ParquetFile
from vaex import from_pandas

from mc.core import CaseTimeout, Result, time_limit
from oups import ParquetSet, sublevel, toplevel

warnings.filterwarnings("ignore")

SCRATCH = os.environ["VERIF_SCRATCH"]


@toplevel
class Key:
    name: str


KEY = Key("d")


def tmpdir():
    return tempfile.mkdtemp(dir=SCRATCH)


def drop(path):
    shutil.rmtree(path, ignore_errors=True)


def cell(v):
    """Comparable, hashable, printable form of a value."""
    if v is None:
        return None
    try:
        if v != v:
            return None
    except Exception:
        pass
    if v is pd.NaT or v is pd.NA:
        return None
    if isinstance(v, pd.Timestamp):
        return "T" + v.isoformat()
    if isinstance(v, pd.Timedelta):
        return "D" + str(v.value)
    if hasattr(v, "item"):
        v = v.item()
    return v


def rows(df, cols=None):
    if cols is None:
        cols = list(df.columns)
    return [tuple(cell(v) for v in t) for t in zip(*(df[c].astype(object).tolist() for c in cols))] if len(df) else []


def rg_rows(dirpath, cols):
    """Content per row group, read through fastparquet from a fresh handle."""
    pf = ParquetFile(dirpath)
    return [rows(pf[i].to_pandas(), cols) for i in range(len(pf.row_groups))]


def rg_files(dirpath):
    pf = ParquetFile(dirpath)
    return [os.path.basename(pf.row_group_filename(rg)) for rg in pf.row_groups]


def store_at(base):
    return ParquetSet(base, Key)


def dir_of(base, key=KEY):
    return os.path.join(base, key.to_path)


def to_input(df, kind):
    """Same rows as a pandas dataframe ("pandas", "index": with another index) or vaex one ("vaex", "lazy": filtered, "slice")."""
    if kind == "vaex":
        return from_pandas(df)
    if kind == "index":
        return df.set_axis([(7 * k) % 11 - 3 for k in range(len(df))], axis=0)
    if kind in ("lazy", "slice"):
        # Each row is preceded and followed by a row, copy of another one, which is not selected.
        n = len(df)
        pos = [p for k in range(n) for p in (n - 1 - k, k)] + [0] if kind == "lazy" else [n - 1, *range(n), 0]
        more = df.iloc[pos].reset_index(drop=True)
        if kind == "slice":
            return from_pandas(more)[1 : n + 1]
        more["zz"] = [k % 2 for k in range(len(pos))]
        out = from_pandas(more)
        return out[out.zz == 1][list(df.columns)]
    return df


def subseqs(lo, hi, n):
    """All ascending sequences (with repeats) of length n over lo..hi-1."""
    if n == 0:
        yield ()
        return
    for rest in subseqs(lo, hi, n - 1):
        for v in range(rest[-1] if rest else lo, hi):
            yield rest + (v,)


def copy_state(src):
    dst = tmpdir()
    os.rmdir(dst)
    shutil.copytree(src, dst)
    return dst


def bfs(run, work, depth, menu, width=None):
    """Level-synchronous breadth-first search over dataset states.

    ``menu(level)`` gives the ops applied at this level to every state.
    ``work(item)`` with item ``(state_dir or None, history, ops, keep)`` reports in
    ``Result.new`` tuples ``(canon, directory, history)``.
    """
    frontier = [(None, [])]
    seen = set()
    for level in range(depth):
        ops = list(menu(level))
        keep = level + 1 < depth
        items = []
        per = max(1, min(len(ops), (len(ops) * len(frontier)) // 64 or 1, 40))
        for d, hist in frontier:
            for i in range(0, len(ops), per):
                items.append((d, hist, ops[i : i + per], keep))
        nxt = []
        for res in run.map(work, items):
            for canon, d, hist in res.new:
                if canon in seen:
                    drop(d)
                else:
                    seen.add(canon)
                    nxt.append((d, hist))
        for d, _ in frontier:
            if d:
                drop(d)
        if run.pool is None:
            break
        nxt.sort(key=lambda t: (len(t[1]), repr(t[1])))
        if width is not None and keep and len(nxt) > width:
            run.notes.setdefault("frontier_cut", {})[str(level + 1)] = [width, len(nxt)]
            # Deterministic thinning: keep states evenly spread over the sorted frontier.
            idx = {round(i * (len(nxt) - 1) / (width - 1)) for i in range(width)}
            for i, (d, _) in enumerate(nxt):
                if i not in idx:
                    drop(d)
            nxt = [s for i, s in enumerate(nxt) if i in idx]
        run.notes["frontier_level_%d" % (level + 1)] = len(nxt) if keep else "not expanded"
        frontier = nxt
    for d, _ in frontier:
        if d:
            drop(d)
    run.n["states"] = len(seen) + run.n.get("states", 0)


def make_work(step):
    """Turn ``step(base, op) -> (problems, canon, tag)`` into a work function body."""

    def work(item):
        src, hist, ops, keep = item
        res = Result()
        local = set()
        for op in ops:
            if src is None:
                base = tmpdir()
            else:
                base = copy_state(src)
            kept = False
            try:
                with time_limit(120):
                    problems, canon, tag = step(base, op)
            except CaseTimeout:
                problems, canon, tag = ["operation does not terminate (120 s)"], None, None
            res.n["transitions"] += 1
            res.n["traces_validated_against_impl"] += 1
            res.case((hist, op) if tag is None else (tag, hist, op), nontrivial=tag is not None)
            for p in problems:
                res.bad(p, {"history": hist + [op]})
            if not problems:
                res.sample({"history": hist + [op], "state": repr(canon)[:200]})
                if canon is not None and keep and canon not in local:
                    local.add(canon)
                    res.new.append((canon, base, hist + [op]))
                    kept = True
            if not kept:
                drop(base)
        return res

    return work


def make_replay(step):
    def replay(case):
        base = tmpdir()
        out = []
        try:
            for op in case["history"]:
                with time_limit(120):
                    problems, canon, tag = step(base, op)
                out.extend(problems)
        except CaseTimeout:
            out.append("operation does not terminate (120 s)")
        finally:
            drop(base)
        return out

    return replay


def attempt(fn, *args, **kw):
    """Run, returning the exception raised (None if none). Never swallows time-outs."""
    try:
        fn(*args, **kw)
    except CaseTimeout:
        raise
    except Exception as e:
        return e
    return None


def attempt2(fn, *args, **kw):
    """Result of the call, or the exception it raised."""
    try:
        return fn(*args, **kw)
    except CaseTimeout:
        raise
    except Exception as e:
        return e
