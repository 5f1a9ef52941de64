"""C16: a stored aggregation does not depend on how the seed is cut or flushed.

All the ways of cutting small seeds in chunks x grouping of chunks in calls x in-memory limits x key
configurations, through the real AggStream writing to a real store. Oracle: ``mc.agg_lib`` on the whole seed.
"""
import itertools

from mc import agg_lib as al
from mc import store_lib as sl
from mc import stream_lib as st
from mc.core import CaseTimeout, Result, time_limit
from oups import ParquetSet

PROP = "C16"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "exhaustive enumeration of seed cuttings, call groupings and flush thresholds, run on the real AggStream; plain Python aggregation as oracle"
RULE = ("one case = one seed, one way of cutting it in chunks, one grouping of the chunks in calls, one in-memory limit and one set of "
        "keys, run to the end on the real AggStream and store; non-trivial: at least two chunks")
NOTE = ("Every cutting of the seeds is run (2^(n-1) for n rows), with flushes at every iteration, never, or in between; trusts seeds "
        "of up to 6 rows (7 thorough) to show every interplay of bins, chunks and flushes, and the reference aggregation.")
ASSUMPTIONS = ["no aggregated value is 0 (refused by AggStream by design)", "fixed-frequency time groupers, or callables following their documented contract",
               "successive chunks are in ascending order"]


def run_case(c):
    df, on = st.seed_frame(c)
    n = len(on)
    chunks = st.chunks_of(df, c["cuts"], reset=c.get("reset", True), empties=c.get("empties", ()))
    base = sl.tmpdir()
    out = []
    try:
        with time_limit(120):
            stream = st.make(ParquetSet(base, st.K), c, pre=st.unshift if c.get("shift") else None)
            if c.get("shift"):
                chunks = st.shifted(chunks)
            calls = c.get("calls")  # number of chunks per call
            pos = 0
            for k, size in enumerate(calls):
                part = chunks[pos : pos + size]
                pos += size
                last = k + 1 == len(calls)
                final = last or c.get("write_each", True)
                if c.get("gen"):
                    part = iter(part)
                elif len(part) == 1 and c.get("single"):
                    part = part[0]
                stream.agg(part, final_write=final)
                if final:
                    done = sum(len(x) for x in chunks[:pos])
                    out += st.compare(base, c, on, lambda kc: range(done), f"after call {k}: ")
            for kc in c["keys"]:
                if kc.get("post") == "warmlog" and not st.expected(kc, on, range(n))[0]:
                    continue
                if kc.get("post") in ("log", "warmlog"):
                    out += log_problems(base, kc, on, n)
                md = st.restart_of(base, st.main_name(kc))
                if md is None or al.plain(md["restart_index"]) != on[-1]:
                    out.append(f"restart information {md and md['restart_index']}, expected {on[-1]}")
    except CaseTimeout:
        return ["does not terminate (120 s)"]
    except Exception as e:
        return [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''}"]
    finally:
        sl.drop(base)
    return out


def log_problems(base, kc, on, n):
    """Post-processing has been given every bin in its final state, in order, and its buffer kept all calls."""
    buf = st.restart_of(base, st.main_name(kc))["post_buffer"]
    bins, snaps = st.expected(kc, on, range(n))
    out = []
    for name, want in (("calls", bins), ("snaps", snaps)):
        if want is None:
            continue
        seen = []
        for call in buf[name]:
            rows = [tuple(r) for r in call]
            if rows and seen and rows[0][0] == seen[-1][0]:
                # Last bin of previous final write, given again.
                seen.pop()
            seen += rows
        if seen != want:
            out.append(f"post-processing has been given {seen} ({name}), expected {want}")
    if buf["rows"] != sum(len(x) for x in buf["calls"]):
        out.append(f"post-processing buffer not kept from call to call: {buf}")
    return out


def work(cases):
    res = Result()
    for c in cases:
        problems = run_case(c)
        res.n["traces_validated_against_impl"] += 1
        res.n["states"] += 1
        res.n["transitions"] += len(c["cuts"]) + 1
        res.case(repr(sorted(c.items())), nontrivial=bool(c["cuts"]))
        for p in problems:
            res.bad(f"{p} for {c}", c)
        if not problems and c["cuts"]:
            res.sample({k: c[k] for k in ("seq", "cuts", "calls", "keys")})
    return res


def replay(c):
    return run_case(c)


def cuttings(n):
    for r in range(n):
        for cuts in itertools.combinations(range(1, n), r):
            yield list(cuts)


def groupings(k, quick):
    """Number of chunks per call: one call; one per chunk; and every grouping when thorough."""
    yield [k]
    if k > 1:
        yield [1] * k
    if not quick and 2 < k <= 5:
        for cuts in cuttings(k):
            b = [0, *cuts, k]
            g = [y - x for x, y in zip(b, b[1:])]
            if g not in ([k], [1] * k):
                yield g
    elif k > 2:
        yield [1, k - 1]
        yield [k - 1, 1]


SEQS = [(0, 1, 2, 3, 4, 5), (0, 0, 1, 4, 4, 5), (1, 1, 1, 2, 2, 9), (0, 3, 3, 4, 8, 8), (1, 2, 4, 4, 4, 6)]
SEQS2 = [(0, 2, 4, 6, 8), (3, 3, 3, 3, 3), (0, 1, 1, 12, 13), (0, 1, 2, 2, 3)]
MEMS = [0, 300, None]
# Key sets used with each seed by the quick tier (all of them with the first seed).
QUICK = [None, ("right", "pair", "post_log", "post_warm", "several"), ("bins", "snaps", "pair_right", "post_pair"), ("bins", "pair", "post_pair_rw", "post_snap")]


def keysets(quick):
    out = {
        "bins": [{"key": "b", "bin": st.T()}],
        "right": [{"key": "b", "bin": st.T(closed="right", label="right"), "write": {"max_row_group_size": 2}}],
        "snaps": [{"key": "s", "bin": st.T(4), "snap": st.snap(1)}],
        "pair": [{"key": ["b", "s"], "bin": st.T(4), "snap": st.snap(2, label="right"), "write": {"max_row_group_size": [2, 3], "max_nirgs": 1}}],
        "pair_right": [{"key": ["b", "s"], "bin": st.T(2, closed="right"), "snap": st.snap(1, closed="right", label="right")}],
        "post": [{"key": "b", "bin": st.T(), "post": "rowwise"}],
        "post_log": [{"key": "b", "bin": st.T(), "post": "log"}],
        "post_warm": [{"key": "b", "bin": st.T(), "post": "warmlog"}],
        "post_pair": [{"key": ["b", "s"], "bin": st.T(4), "snap": st.snap(1), "post": "log"}],
        "post_pair_rw": [{"key": ["b", "s"], "bin": st.T(2), "snap": st.snap(3), "post": "rowwise", "write": {"max_row_group_size": 2}}],
        "post_snap": [{"key": "s", "bin": st.T(2), "snap": st.snap(2, label="right"), "post": "snaponly"}],
        "several": [{"key": "b", "bin": st.T()}, {"key": "c", "bin": st.T(3, origin="start"), "write": {"max_row_group_size": 2, "max_nirgs": 0}},
                    {"key": ["d", "e"], "bin": st.T(2), "snap": st.snap(2)}],
    }
    return out


def all_cases(quick):
    flips = itertools.cycle([{}, {"reset": False}, {"gen": True, "shift": True}, {"single": True}, {"shift": True}])
    rot = itertools.cycle([True, False])
    ks = keysets(quick)
    seqs = SEQS[:4] if quick else SEQS + [(0, 0, 1, 2, 4, 5, 5), (0, 1, 3, 3, 4, 9, 9)]
    for si, seq in enumerate(seqs):
        for name, keys in ks.items():
            for cuts in cuttings(len(seq)):
                k = len(cuts) + 1
                for calls in groupings(k, quick):
                    for mem in MEMS:
                        if len(calls) == k > 1 and mem is None:
                            continue
                        if quick and si == 0 and mem == 300 and len(calls) not in (1, k):
                            continue
                        if quick and si > 0 and (mem == 300 or len(calls) not in (1, k) or name not in QUICK[si]):
                            continue
                        c = {"seq": seq, "cuts": cuts, "calls": calls, "keys": [dict(kc, mem=mem) for kc in keys], "write_each": next(rot)}
                        c.update(next(flips))
                        yield c
    # Empty chunks anywhere.
    for seq in SEQS2:
        for cuts in cuttings(len(seq)):
            if len(cuts) in (1, 2):
                for e in range(len(cuts) + 1):
                    for name in ("bins", "pair"):
                        yield {"seq": seq, "cuts": cuts, "calls": [len(cuts) + 1 + 1], "empties": [e], "keys": [dict(kc, mem=0) for kc in ks[name]]}
    # Other binnings: callables over int and float values (0 and negative included), or numbers of rows.
    for typ, base, width in (("int", 0, 3), ("int", -4, 2), ("float", -2, 1.5), ("float", 0, 1.0)):
        for seq in SEQS2 + SEQS[1:3]:
            for cuts in cuttings(len(seq)):
                for mem in MEMS[:1] if quick else MEMS:
                    for calls in ([len(cuts) + 1], [1] * (len(cuts) + 1)):
                        yield {"seq": seq, "typ": typ, "base": base, "cuts": cuts, "calls": calls,
                               "keys": [{"key": "v", "bin": {"kind": "value", "width": width}, "mem": mem}]}
    for seq in [(0, 1, 2, 3, 4, 5, 6), (0, 2, 5, 6, 9)]:
        for x in (1, 2, 3, 4):
            for cuts in cuttings(len(seq)):
                if quick and len(seq) == 7 and (len(cuts) + x) % 2:
                    continue
                for mem in (0, 300):
                    yield {"seq": seq, "typ": "int", "base": -1, "cuts": cuts, "calls": [len(cuts) + 1],
                           "keys": [{"key": "r", "bin": {"kind": "rows", "x": x}, "mem": mem}]}
    # Nanoseconds apart, or large integers one apart.
    for seq in SEQS2[:3] + SEQS[1:2] if quick else SEQS2 + SEQS:
        for cuts in cuttings(len(seq)):
            for closed in ("left", "right"):
                b = dict(kind="time", freq=2, closed=closed, label=closed)
                yield {"seq": seq, "step": 1, "cuts": cuts, "calls": [1] * (len(cuts) + 1),
                       "keys": [{"key": "b", "bin": b, "mem": 0},
                                {"key": ["d", "e"], "bin": dict(b, freq=4), "snap": dict(b, freq=3), "mem": 0, "write": {"max_row_group_size": 2}}]}
            for w in (2, 3):
                yield {"seq": seq, "typ": "int", "base": 2**60 + 1, "cuts": cuts, "calls": [1] * (len(cuts) + 1),
                       "keys": [{"key": "v", "bin": {"kind": "value", "width": w}, "mem": 0, "write": {"max_row_group_size": 2}}]}
    # Longer gaps, other origins and offsets.
    for seq in SEQS2:
        for o in ({"origin": "start"}, {"origin": "epoch", "offset": al.H // 2}, {"origin": "start", "closed": "right", "label": "right"}):
            for cuts in cuttings(len(seq)):
                kc = {"key": ["b", "s"], "bin": st.T(5, **o), "snap": st.snap(2, **{k: v for k, v in o.items() if k != "label"}), "mem": 0}
                yield {"seq": seq, "cuts": cuts, "calls": [len(cuts) + 1], "keys": [kc]}


def explore(run):
    cases = sorted(all_cases(run.quick), key=lambda c: len(c["cuts"]))
    run.notes["cases"] = len(cases)
    run.notes["bounds"] = {"rows of a seed": "5..7", "chunks": "1..7, empty ones included", "calls": "1..7", "keys": "1..3"}
    n = min(len(cases), 400)
    run.run_all(work, [cases[k::n] for k in range(n)])
