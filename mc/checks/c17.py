"""C17: stopping and restarting a stream counts every seed row exactly once.

Every prefix at which a stream is stopped (once, or several times) x every row at or before the restart
point from which it is fed again x cuttings x index types, on the real AggStream, a new stream object (and
most often a store opened anew) being used after each stop. Oracle: ``mc.agg_lib`` on the whole seed.
"""
import itertools

from mc import agg_lib as al
from mc import store_lib as sl
from mc import stream_lib as st
from mc.core import CaseTimeout, Result, time_limit
from oups import ParquetSet

PROP = "C17"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "exhaustive enumeration of stop points, overlaps and cuttings, run on the real AggStream; plain Python aggregation as oracle"
RULE = ("one case = one seed, one sequence of stop points, one row from which each run is fed, one cutting of each run in chunks, one set of "
        "keys; non-trivial: at least one restart finding recorded restart information")
NOTE = ("Every stop point and every overlap with the rows already aggregated is run, after each stop the datasets, the restart index and "
        "the buffers recorded are compared with the reference; trusts seeds of up to 7 rows, and the reference aggregation.")
ASSUMPTIONS = ["no aggregated value is 0 (refused by AggStream by design)", "either runs before the last one discard the last seed value, and all runs trim the start, each run being fed all the rows "
               "from a row at or before the recorded restart point; or no run does, each one being fed the rows that follow"]


class Pre:
    """Keeps in its buffer what it has been given: restored at restart."""

    def __init__(self):
        self.first = None
        self.given = []

    def __call__(self, on, buffer):
        if self.first is None:
            self.first = dict(buffer)
        st.unshift(on, buffer)
        self.given.append(on["i"].tolist())
        buffer["calls"] = buffer.get("calls", 0) + 1
        buffer["rows"] = buffer.get("rows", 0) + len(on)
        if len(on):
            buffer["last"] = al.plain(on["t"].iloc[-1])


def run_case(c):
    df, on = st.seed_frame(c)
    n = len(on)
    base = sl.tmpdir()
    out = []
    info = 0
    restart = None  # recorded restart value
    pre_state = {}
    since = {}  # first row of keys added at a restart
    whole = c
    store = ParquetSet(base, st.K)
    stream = None
    append = c.get("append", False)
    try:
        with time_limit(180):
            for k, run in enumerate(c["runs"]):
                # run: [start, stop, cuts relative to start]
                a, b, cuts = run
                c = dict(whole, keys=[kc for kc in whole["keys"] if whole.get("join", {}).get(st.main_name(kc), 0) <= k])
                for kc in c["keys"]:
                    since.setdefault(st.main_name(kc), 0 if restart is None else on.index(restart))
                last = k + 1 == len(c["runs"])
                discard = not append and (not last or c.get("discard_end", False))
                if c.get("reopen", True):
                    store = ParquetSet(base, st.K)
                if stream is None or not c.get("same"):
                    pre = Pre() if c.get("pre") else None
                    stream = st.make(store, c, pre=pre)
                elif pre is not None:
                    pre.first = None
                    pre.given = []
                chunks = st.chunks_of(df.iloc[a:b].reset_index(drop=True), cuts, reset=True)
                given = [ch["i"].tolist() for ch in chunks]
                if pre is not None:
                    chunks = st.shifted(chunks)
                stream.agg(iter(chunks) if c.get("gen") else chunks, trim_start=not append, discard_last=discard)
                if pre is not None:
                    if pre.given != given:
                        out.append(f"run {k}: preprocessing was given {pre.given}, chunks of the seed are {given}")
                    if restart is not None and pre.first != pre_state:
                        out.append(f"run {k}: preprocessing found buffer {pre.first}, left as {pre_state}")
                # Rows aggregated up to now, and value from which to restart.
                fed_last = on[b - 1]
                done = [i for i in range(b) if on[i] < fed_last] if discard else list(range(b))
                # Without any row aggregated by this run, the restart point does not move.
                used = [i for i in range(a, b) if i in done and (append or restart is None or on[i] >= restart)]
                new_restart = fed_last if used else restart
                out += st.compare(base, c, on, lambda kc: [r for r in done if r >= since[st.main_name(kc)]], f"after run {k}: ")
                restart = new_restart
                for kc in c["keys"]:
                    md = st.restart_of(base, st.main_name(kc))
                    if restart is None:
                        if md is not None:
                            out.append(f"after run {k}: restart information {md['restart_index']} without anything aggregated")
                        continue
                    info += not last
                    if md is None or al.plain(md["restart_index"]) != restart:
                        out.append(f"after run {k}: restart information {md and md['restart_index']}, expected {restart}")
                        continue
                    if c.get("pre") and done:
                        pre_state = dict(md["pre_buffer"])
                        calls = {"calls", "rows", "last"}
                        if set(pre_state) != calls or pre_state["last"] != fed_last:
                            out.append(f"after run {k}: preprocessing buffer recorded {pre_state}, last value given {fed_last}")
                    if kc.get("post") == "log":
                        out += log_problems(md["post_buffer"], kc, on, [r for r in done if r >= since[st.main_name(kc)]], k)
                if out:
                    return out, info
    except CaseTimeout:
        return ["does not terminate (180 s)"], info
    except Exception as e:
        return [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''}"], info
    finally:
        sl.drop(base)
    return out, info


def log_problems(buf, kc, on, done, k):
    """What post-processing was given over all runs is the aggregation of the rows processed (its buffer is kept)."""
    bins, snaps = st.expected(kc, on, done)
    out = []
    for name, want in (("calls", bins), ("snaps", snaps)):
        if want is None:
            continue
        seen = []
        for call in buf.get(name, []):
            rows = [tuple(r) for r in call]
            if rows and seen and rows[0][0] == seen[-1][0]:
                seen.pop()
            seen += rows
        if seen != want:
            out.append(f"after run {k}: post-processing has been given {seen} ({name}), expected {want}")
    return out


def work(cases):
    res = Result()
    for c in cases:
        problems, info = run_case(c)
        res.n["traces_validated_against_impl"] += 1
        res.n["states"] += len(c["runs"])
        res.n["transitions"] += sum(len(r[2]) + 1 for r in c["runs"])
        res.case(repr(sorted(c.items())), nontrivial=info > 0)
        for p in problems:
            res.bad(f"{p} for {c}", c)
        if not problems and info:
            res.sample({k: c[k] for k in ("seq", "runs", "keys")})
    return res


def replay(c):
    return run_case(c)[0]


def cuttings(n, most=9):
    for r in range(min(n, most + 1)):
        for cuts in itertools.combinations(range(1, n), r):
            yield list(cuts)


def run_plans(seq, stops, quick, overlap_all=True):
    """Sequences of (start, stop) for runs stopped at each of ``stops``: every start at or before the restart point."""
    n = len(seq)
    ends = [*stops, n]

    def rec(k, restart):
        if k == len(ends):
            yield []
            return
        stop = ends[k]
        limit = 0 if restart is None else seq.index(restart)
        starts = range(limit, -1, -1) if overlap_all else sorted({0, limit})
        for a in starts:
            if a >= stop:
                continue
            r = seq[stop - 1]
            done = [v for v in seq[:stop] if v < r]
            new = restart if not done and restart is None else r
            for rest in rec(k + 1, new):
                yield [(a, stop), *rest]

    yield from rec(0, None)


SEQS = [(0, 1, 2, 3, 4, 5), (0, 0, 1, 1, 4, 4), (1, 2, 2, 2, 3, 9), (0, 3, 3, 4, 12, 12)]
KEYSETS = {
    "bins": [{"key": "b", "bin": st.T()}],
    "right": [{"key": "b", "bin": st.T(closed="right", label="right"), "write": {"max_row_group_size": 2}}],
    "snaps": [{"key": "s", "bin": st.T(4), "snap": st.snap(1)}],
    "pair": [{"key": ["b", "s"], "bin": st.T(4, closed="right"), "snap": st.snap(2, closed="right", label="right"), "write": {"max_row_group_size": [2, 3]}}],
    "post_log": [{"key": "b", "bin": st.T(), "post": "log"}],
    "post_pair": [{"key": ["b", "s"], "bin": st.T(3, origin="start"), "snap": st.snap(2, origin="start"), "post": "log"}],
    "several": [{"key": "b", "bin": st.T()}, {"key": "c", "bin": st.T(3, origin="start"), "write": {"max_row_group_size": 2, "max_nirgs": 0}},
                {"key": ["d", "e"], "bin": st.T(2), "snap": st.snap(1)}],
}

NEW = [{"key": "b", "bin": st.T()}, {"key": ["c", "e"], "bin": st.T(3), "snap": st.snap(1)}, {"key": "d", "bin": st.T(2, closed="right"), "post": "log"}]


def with_cuts(plan, mode):
    """Cut each run: 'one' chunk, one row 'each', or at one position given by an int."""
    out = []
    for a, b in plan:
        n = b - a
        cuts = [] if mode == "one" else list(range(1, n)) if mode == "each" else [mode] if mode < n else []
        out.append([a, b, cuts])
    return out


def all_cases(quick):
    flags = itertools.cycle([{}, {"pre": True}, {"gen": True, "pre": True}, {"reopen": False}])
    mems = itertools.cycle([0, None, 300])
    for si, seq in enumerate(SEQS):
        for name, keys in KEYSETS.items():
            if quick and (si + list(KEYSETS).index(name)) % 2:
                continue
            # One stop, every overlap, every cutting of both runs in at most 2 pieces, or row by row.
            for stop in range(1, len(seq)):
                for plan in run_plans(seq, [stop], quick):
                    for m in ["one", "each", *range(1, 3 if quick else len(seq))]:
                        c = {"seq": seq, "runs": with_cuts(plan, m), "keys": [dict(kc, mem=next(mems)) for kc in keys]}
                        c.update(next(flags))
                        yield c
            # Several stops.
            for k in (2,) if quick else (2, 3):
                for stops in itertools.combinations(range(1, len(seq)), k):
                    for plan in run_plans(seq, list(stops), quick, overlap_all=False):
                        for m in ("one", "each") if not quick else (("one",) if sum(stops) % 2 else ("each",)):
                            c = {"seq": seq, "runs": with_cuts(plan, m), "keys": [dict(kc, mem=next(mems)) for kc in keys]}
                            c.update(next(flags))
                            if next(mems) == 0:
                                c["discard_end"] = True
                            yield c
    # Keys added when restarting, before or after those having results already.
    for seq in SEQS[:2]:
        for joins in ([1, 0], [0, 1], [0, 1, 0], [1, 0, 1], [0, 0, 1], [0, 1, 2], [2, 0, 1]):
            keys = [NEW[j] for j in range(len(joins))]
            for k in (1, 2):
                for stops in itertools.combinations(range(1, len(seq)), k):
                    if max(joins) > k or quick and k == 2 and sum(stops) % 3:
                        continue
                    for plan in run_plans(seq, list(stops), quick, overlap_all=k == 1):
                        for m in ("one", "each") if not quick else ("one",) if sum(stops) % 2 else ("each",):
                            c = {"seq": seq, "runs": with_cuts(plan, m), "join": {st.main_name(kc): j for kc, j in zip(keys, joins)},
                                 "keys": [dict(kc, mem=next(mems)) for kc in keys], "pre": True}
                            c.update(reopen=next(flags).get("reopen", True))
                            yield c
    # Index types and values: ints and floats going through 0, negative.
    for seq in SEQS[1:3] + [(0, 1, 2, 3)]:
        for typ, base, width in (("int", 0, 3), ("int", -1, 2), ("int", -9, 2), ("float", 0, 1.0), ("float", -2, 1.5), ("float", -3, 0.5)):
            for nstops in (1, 2):
                for stops in itertools.combinations(range(1, len(seq)), nstops):
                    for plan in run_plans(seq, list(stops), quick, overlap_all=nstops == 1):
                        for m in ("one", "each") if not quick else ("one",) if sum(stops) % 2 else ("each",):
                            c = {"seq": seq, "typ": typ, "base": base, "runs": with_cuts(plan, m),
                                 "keys": [{"key": "v", "bin": {"kind": "value", "width": width}, "mem": next(mems), "post": "log" if m == "one" else None}]}
                            c.update(next(flags))
                            yield c
    # Values next to each other: nanoseconds, large integers.
    ns = [{"key": "b", "bin": dict(kind="time", freq=2, closed="left", label="left")},
          {"key": ["d", "e"], "bin": dict(kind="time", freq=4, closed="right"), "snap": dict(kind="time", freq=3, closed="right")}]
    for seq in SEQS[:3] if quick else SEQS:
        for nstops in (1, 2):
            for stops in itertools.combinations(range(1, len(seq)), nstops):
                for plan in run_plans(seq, list(stops), quick, overlap_all=nstops == 1 or not quick):
                    if quick and nstops == 2 and (sum(stops) + plan[-1][0]) % 2:
                        continue
                    m = "one" if sum(stops) % 2 else "each"
                    c = {"seq": seq, "step": 1, "runs": with_cuts(plan, m), "keys": [dict(kc, mem=next(mems)) for kc in ns], **next(flags)}
                    yield c
                    yield {"seq": seq, "typ": "int", "base": 2**60, "runs": with_cuts(plan, m), **next(flags),
                           "keys": [{"key": "v", "bin": {"kind": "value", "width": 2}, "mem": next(mems)}]}
    # Same stream object going on; or each run given the rows that follow those of the previous one, without trimming.
    for seq in SEQS:
        for name, keys in KEYSETS.items():
            for nstops in (1, 2, 3):
                for stops in itertools.combinations(range(1, len(seq)), nstops):
                    if quick and nstops > 1 and (sum(stops) + len(name)) % 3:
                        continue
                    ends = [0, *stops, len(seq)]
                    m = "one" if sum(stops) % 2 else "each"
                    for same in (True, False):
                        c = {"seq": seq, "runs": with_cuts(list(zip(ends, ends[1:])), m), "keys": [dict(kc, mem=next(mems)) for kc in keys], "append": True, "same": same, "pre": True}
                        if not same:
                            c.update(next(flags))
                        yield c
                    if nstops < 3:
                        for plan in run_plans(seq, list(stops), quick, overlap_all=not quick):
                            c = {"seq": seq, "runs": with_cuts(plan, m), "keys": [dict(kc, mem=next(mems)) for kc in keys], "same": True, "pre": bool(len(plan) % 2)}
                            yield c
    # Bins by number of rows (labels are distinct: no repeated value at bin starts).
    for seq in [(0, 1, 2, 3, 4, 5)]:
        for x in (1, 2, 3, 4):
            for base in (0, -2):
                for nstops in (1, 2):
                    for stops in itertools.combinations(range(1, len(seq)), nstops):
                        for plan in run_plans(seq, list(stops), quick, overlap_all=nstops == 1):
                            c = {"seq": seq, "typ": "int", "base": base, "runs": with_cuts(plan, "one" if (x + stops[0]) % 2 else "each"),
                                 "keys": [{"key": "r", "bin": {"kind": "rows", "x": x}, "mem": next(mems)}]}
                            c.update(next(flags))
                            yield c


def explore(run):
    cases = sorted(all_cases(run.quick), key=lambda c: len(c["runs"]))
    run.notes["cases"] = len(cases)
    run.notes["bounds"] = {"rows of a seed": "4..6", "stops": "1..2" if run.quick else "1..3"}
    n = min(len(cases), 400)
    run.run_all(work, [cases[k::n] for k in range(n)])
