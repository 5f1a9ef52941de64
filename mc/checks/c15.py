"""C15: restarting an aggregation on new data equals aggregating in one go.

Every layout x every way of splitting it into successive pieces x binning x snapshots, run on the real
``cumsegagg`` with one buffer; oracle: ``mc.agg_lib`` on the whole data (plain Python).
"""
import itertools
import pickle

import pandas as pd

from mc import agg_lib as al
from mc.checks.c13 import VALUE_AGG, chunks, seqs, unit_on
from mc.checks.c14 import NUMS, bin_kw, snap_arg
from mc.core import CaseTimeout, Result, time_limit
from oups.aggstream.cumsegagg import cumsegagg, setup_cumsegagg

PROP = "C15"
LEVEL = "model_checking"
JIT = True
TECHNIQUE = "exhaustive enumeration of layouts x splits x binnings x observation points run on the real cumsegagg; plain Python oracle on the whole data"
NOTE = "All splits in successive pieces of all layouts up to a length; time groupers of fixed or calendar frequency, and row-count bins."
RULE = ("one case = one layout, one way of splitting it in pieces, one binning (and observation points), all the pieces run through "
        "cumsegagg with one buffer; non-trivial: at least two pieces")
ASSUMPTIONS = ["time groupers of fixed frequency or calendar frequency (as for C13), with an origin that does not depend on the end of the data",
               "row-count bins with snapshots: rows sharing an ordered value are in one bin and in one piece (or bins are delimited by distinct values)",
               "a series of observation points is given in full at each call, or piece by piece: those reached by the data of the piece, after the last one "
               "already given (repeated, to restart from); as long as there is none, one given too late is ignored"]


def points_for_piece(snap, last, on_last):
    """Observation points given with a piece: last one already given, then those reached by its data."""
    pts = [p for p in snap["points"] if last is None or p >= last]
    if snap["given"] == "full":
        return pts
    out = [p for p in pts if p <= on_last or p == last]
    if snap["given"] == "ahead" and len(out) < len(pts):
        out = pts[:len(out) + 1]
    return out


def run_case(c):
    on, spec, snap = c["on"], c["spec"], c.get("snap")
    agg = {k: tuple(v) for k, v in c["agg"].items()}
    n = len(on)
    cols = al.columns(n, c["pattern"])
    df = al.frame(on, cols, time=not (snap or {}).get("num"))
    closed = al.closed_of(spec)
    kw = bin_kw(spec)
    cuts = [0, *c["cuts"], n]
    buffer = {}
    bins, snaps, given, missed = [], [], [], []
    agg_arg = setup_cumsegagg(agg, df.dtypes.to_dict()) if c.get("setup") else agg
    try:
        with time_limit(60):
            for a, b in zip(cuts[:-1], cuts[1:]):
                piece = df.iloc[a:b]
                if c.get("reset"):
                    piece = piece.reset_index(drop=True)
                if snap:
                    sn = snap
                    if snap.get("given"):
                        sn = dict(snap, points=points_for_piece(snap, snaps[-1][0] if snaps else None, on[b - 1]))
                        if snap["given"] == "late" and not snaps:
                            # Until a snapshot is produced, points reached are not given in time; the last of them is, with next piece.
                            missed += [p for p in snap["points"] if a and (p <= on[a - 1] if closed == "left" else p < on[a - 1])]
                            now = [p for p in sn["points"] if p not in missed]
                            sn["points"] = [] if not a else missed[-1:] + now
                        given += [p for p in sn["points"] if p not in given and p not in missed]
                    r, s = cumsegagg(piece, agg_arg, snap_by=snap_arg(sn), buffer=buffer, error_on_0=False, **kw)
                    s = al.table(s, agg)
                    if snap["kind"] == "time":
                        if snaps and (not s or s[0][0] != snaps[-1][0]):
                            return [f"first snapshot {s[:1]} of piece [{a},{b}) is not the last one of previous piece {snaps[-1]}"]
                        snaps = snaps[:-1] + s
                    else:
                        first = {t[0] for t in s}
                        snaps = [t for t in snaps if t[0] not in first] + s
                else:
                    r = cumsegagg(piece, agg_arg, buffer=buffer, error_on_0=False, **kw)
                r = al.table(r, agg)
                if bins and r[0][0] != bins[-1][0]:
                    return [f"first bin {r[0]} of piece [{a},{b}) is not the last one of previous piece {bins[-1]}"]
                bins = bins[:-1] + r
                if c.get("pickle"):
                    buffer = pickle.loads(pickle.dumps(buffer))
    except CaseTimeout:
        return ["does not terminate (60 s)"]
    except Exception as e:
        return [f"raised {type(e).__name__}: {e}"]
    rb = al.ref_bins(on, spec)
    want_b = al.ref_table([(l, s, e) for l, s, e, _ in rb], cols, agg)
    problems = []
    if bins != want_b:
        problems.append(f"bins differ: got {bins}, expected {want_b}")
    if snap:
        points = al.ref_points(on, dict(snap, points=given) if snap.get("given") else snap, closed)
        want_s = al.ref_table([(l, s, e) for l, (s, e) in al.ref_snaps(on, rb, points, closed)], cols, agg)
        if snaps != want_s:
            problems.append(f"snapshots differ: got {snaps}, expected {want_s}")
    return problems


def work(cases):
    res = Result()
    for c in cases:
        problems = run_case(c)
        res.n["traces_validated_against_impl"] += 1
        res.n["transitions"] += len(c["cuts"]) + 1
        res.n["states"] += 1
        res.case((tuple(c["on"]), tuple(c["cuts"]), repr(c["spec"]), repr(c.get("snap")), repr(c["agg"]), tuple(c["pattern"])), nontrivial=bool(c["cuts"]))
        for p in problems:
            res.bad(p + f" for {c}", c)
        if not problems and c["cuts"]:
            res.sample({"on": al.shown(c["on"]), "cuts": c["cuts"], "bins": c["spec"], "snap": c.get("snap")})
    return res


def replay(c):
    return run_case(c)


def splits(n, maxpieces=9):
    for r in range(0, min(n, maxpieces)):
        for cuts in itertools.combinations(range(1, n), r):
            yield list(cuts)


def all_cases(quick):
    pats = itertools.cycle(["mix", "neg", "zero", "desc"])
    flip = itertools.cycle([True, False, False])
    half = al.H // 2
    # Time bins, no snapshot.
    nmax = 4 if quick else 5
    for seq in seqs(0, 6, 1, nmax):
        for c in ("left", "right"):
            for lab in ("left", "right"):
                for o in ({}, {"origin": "epoch", "offset": half}) if lab == "left" else ({"origin": "start"}, {"origin": "2020-01-01 01:00"}):
                    spec = dict(kind="time", freq=2 * al.H, closed=c, label=lab, **o)
                    if quick and len(seq) == 4 and (lab != c or o.get("offset") or "01:00" in o.get("origin", "")):
                        continue
                    for cuts in splits(len(seq)):
                        if cuts:
                            yield {"on": unit_on(seq), "spec": spec, "agg": al.SMALL_AGG, "pattern": next(pats), "cuts": cuts,
                                   "pickle": next(flip), "reset": next(flip), "setup": next(flip)}
    # Time bins with snapshots by time.
    for seq in seqs(0, 7 if not quick else 6, 2, 4 if not quick else 3):
        for c in ("left", "right"):
            for sn in ({"freq": al.H}, {"freq": 90 * 60_000_000_000, "label": "right"}, {"freq": 3 * al.H, "label": "right"}):
                for lab, o in (("left", {}), ("right", {"origin": "start"})):
                    spec = dict(kind="time", freq=2 * al.H, closed=c, label=lab, **o)
                    snap = dict(sn, kind="time", closed=c, **o)
                    for cuts in splits(len(seq)):
                        if cuts:
                            yield {"on": unit_on(seq, half if sn["freq"] != 3 * al.H else al.H), "spec": spec, "snap": snap, "agg": al.SMALL_AGG,
                                   "pattern": next(pats), "cuts": cuts, "pickle": next(flip), "reset": next(flip)}
    # Longer histories.
    for seq in [(0, 0, 1, 3, 4, 4, 9), (1, 2, 2, 2, 8, 8, 9), (0, 5, 5, 6, 11, 12, 13)]:
        for c in ("left", "right"):
            for snap in (None, {"kind": "time", "freq": al.H, "closed": c}):
                spec = dict(kind="time", freq=2 * al.H, closed=c, label=c)
                for cuts in splits(len(seq)):
                    if cuts and (not quick or len(cuts) % 2 == 0 or len(cuts) == 1):
                        yield {"on": unit_on(seq), "spec": spec, "snap": snap, "agg": al.SMALL_AGG, "pattern": "mix", "cuts": cuts, "pickle": True}
    # Days crossed, frequency not dividing a day.
    for seq in seqs(0, 5, 3, 3 if quick else 4):
        for freq, o in ((7 * al.H, {}), (5 * al.H, {"origin": "start"}), (al.DAY, {}), (36 * al.H, {"offset": al.H})):
            for c in ("left", "right"):
                for cuts in splits(len(seq)):
                    if cuts:
                        yield {"on": unit_on(seq, 11 * al.H), "spec": dict(kind="time", freq=freq, closed=c, **o), "agg": al.SMALL_AGG,
                               "pattern": "mix", "cuts": cuts, "pickle": next(flip)}
                        if len(cuts) == 2 and freq != al.DAY:
                            yield {"on": unit_on(seq, 11 * al.H), "spec": dict(kind="time", freq=freq, closed=c, **o), "agg": al.SMALL_AGG,
                                   "pattern": "mix", "cuts": cuts, "snap": dict(kind="time", freq=5 * al.H, closed=c, **o)}
    # Calendar frequencies.
    for n in (2, 3, 4):
        for on in itertools.combinations(al.CALENDAR, n):
            for freq, c in al.CAL_FREQS:
                if (c == "right" and on[0] == al.CALENDAR[5]) or (quick and n == 4 and freq[0] not in "23"):
                    continue
                spec = {"kind": "time", "freq": freq, "closed": c, "label": c}
                for cuts in splits(n):
                    if cuts:
                        yield {"on": list(on), "spec": spec, "agg": al.SMALL_AGG, "pattern": "mix", "cuts": cuts, "pickle": next(flip), "reset": next(flip)}
                if n == 3 and "W" not in freq:
                    for cuts in splits(n):
                        if cuts:
                            yield {"on": list(on), "spec": spec, "agg": al.SMALL_AGG, "pattern": "mix", "cuts": cuts,
                                   "snap": {"kind": "time", "freq": "QS" if freq == "MS" else "MS", "closed": c, "label": "right"}}
                            if freq == "2MS":
                                yield {"on": list(on), "spec": dict(spec, freq=20 * al.DAY), "agg": al.SMALL_AGG, "pattern": "mix", "cuts": cuts,
                                       "snap": {"kind": "time", "freq": freq, "closed": c, "label": "right"}}
    # Row-count bins.
    for n in range(2, 8 if quick else 10):
        for x in (1, 2, 3, 4):
            for c in ("left", "right"):
                for cuts in splits(n):
                    if cuts:
                        yield {"on": unit_on(range(n)), "spec": {"kind": "rows", "x": x, "closed": c}, "agg": al.SMALL_AGG, "pattern": next(pats),
                               "cuts": cuts, "pickle": next(flip)}
    # Row-count bins with snapshots.
    for seq in itertools.combinations(range(0, 6), 4 if quick else 5):
        for x in (1, 2, 3):
            for c in ("left", "right"):
                for cuts in splits(len(seq)):
                    if cuts:
                        yield {"on": unit_on(seq), "spec": {"kind": "rows", "x": x, "closed": c}, "agg": al.SMALL_AGG, "pattern": "mix",
                               "snap": {"kind": "time", "freq": 2 * al.H if x != 2 else al.H, "label": "right", "closed": c}, "cuts": cuts, "pickle": next(flip)}
    # Observation points as a series.
    grid = [-1, 1, 2, 3, 5, 8]
    for seq in [(0, 1, 3), (1, 1, 4, 6)] + ([] if quick else [(0, 4, 5, 5), (2, 3, 3, 9)]):
        for r in range(1, len(grid) + 1):
            for sub in itertools.combinations(grid, r):
                for c in ("left", "right"):
                    for cuts in splits(len(seq)):
                        if cuts:
                            yield {"on": unit_on(seq), "spec": dict(kind="time", freq=2 * al.H, closed=c), "agg": al.SMALL_AGG, "pattern": "mix",
                                   "snap": {"kind": "points", "points": unit_on(sub), "as": "series" if r % 2 else "index"}, "cuts": cuts}
    # Nanoseconds apart.
    base = al.T0 + 13 * al.H
    for f in (2, 3):
        for seq in seqs(0, 6, 2, 3 if quick else 4):
            for c in ("left", "right"):
                for snap in (None, {"kind": "time", "freq": 1, "closed": c}, {"kind": "points", "points": unit_on((0, 2, 3, 5), 1, base)}):
                    for cuts in splits(len(seq)):
                        if cuts and not (quick and snap and len(seq) == 3 and (sum(seq) + len(cuts)) % 2):
                            yield {"on": unit_on(seq, 1, base), "spec": dict(kind="time", freq=f, closed=c, label=c), "agg": al.SMALL_AGG,
                                   "pattern": next(pats), "snap": snap, "cuts": cuts, "pickle": next(flip)}
    # Numeric ordered column (negative values included) and numeric observation points.
    for num, f in NUMS.items():
        for seq in [(0, 1, 3), (1, 3, 5, 6)] + ([] if quick else [(0, 2, 3, 4, 7)]):
            for r in (2, 3) if quick else range(1, 6):
                for j, sub in enumerate(itertools.combinations([-1, 1, 2, 4, 8], r)):
                    for x in (1, 2) if quick else (1, 2, 3):
                        for c in ("left", "right"):
                            for cuts in splits(len(seq)):
                                if cuts:
                                    for given in (None, ("now", "ahead", "late")[j % 3]):
                                        yield {"on": [f(v) for v in seq], "spec": {"kind": "rows", "x": x, "closed": c}, "agg": al.SMALL_AGG, "pattern": "mix",
                                               "snap": {"kind": "points", "points": [f(v) for v in sub], "num": num, "given": given}, "cuts": cuts,
                                               "pickle": next(flip)}
    # Observation points given piece by piece.
    grid = [-1, 1, 2, 3, 5, 7]
    for seq in [(0, 1, 3), (2, 3, 3, 7)] + ([] if quick else [(1, 1, 4, 6), (0, 4, 5, 5), (0, 1, 2, 3, 6)]):
        for r in range(1, len(grid) + 1):
            if quick and r in (4, 5):
                continue
            for sub in itertools.combinations(grid, r):
                for c in ("left", "right"):
                    for cuts in splits(len(seq)):
                        if cuts:
                            for k, given in enumerate(("now", "ahead", "late")):
                                yield {"on": unit_on(seq), "spec": dict(kind="time", freq=4 * al.H, closed=c), "agg": al.SMALL_AGG, "pattern": "mix",
                                       "snap": {"kind": "points", "points": unit_on(sub), "as": "series" if (r + k) % 2 else "index", "given": given},
                                       "cuts": cuts, "pickle": next(flip)}
    # Longer data, split in two or three pieces.
    for lay in al.long_layouts((17, 40) if quick else (17, 40, 90)):
        n = len(lay)
        for c in ("left", "right"):
            for snap in (None, {"kind": "time", "freq": al.H, "closed": c}):
                for cuts in ([1], [n // 2], [n - 1], [n // 3, n // 3 + 1], [16], [2, n - 2]):
                    yield {"on": unit_on(lay), "spec": dict(kind="time", freq=5 * al.H, closed=c), "agg": al.SMALL_AGG, "pattern": "mix",
                           "snap": snap, "cuts": cuts, "pickle": next(flip)}
            if len(set(lay)) == n:
                for x in (7, 16):
                    for cuts in ([x - 1], [x], [min(x + 1, n - 1)], [5, 6, 7], [1, n - 1]):
                        yield {"on": unit_on(lay), "spec": {"kind": "rows", "x": x, "closed": c}, "agg": al.SMALL_AGG, "pattern": "neg", "cuts": cuts}
    # Every small tuple of values, in one bin over two or three pieces.
    for n, cutss in ((3, ([1], [2], [1, 2])), (4, ([1], [2], [3], [1, 3]))):
        for vals in itertools.product((-1, 0, 1, 3) if n == 3 or not quick else (-1, 1, 2), repeat=n):
            for cuts in cutss:
                for lay, snap in (((0,) * n, None), (tuple(range(n)), {"kind": "time", "freq": 2 * al.H, "closed": "left"})):
                    yield {"on": unit_on(lay), "spec": dict(kind="time", freq=8 * al.H, closed="left"), "agg": VALUE_AGG, "pattern": vals,
                           "snap": snap, "cuts": cuts}
    # Every function and type.
    for seq in [(0, 1, 1, 2, 5), (1, 4, 8, 9, 9)]:
        for c in ("left", "right"):
            for pat in ("mix", "neg", "desc"):
                for snap in (None, {"kind": "time", "freq": al.H, "closed": c}):
                    for cuts in splits(5):
                        if cuts:
                            yield {"on": unit_on(seq), "spec": dict(kind="time", freq=2 * al.H, closed=c), "agg": al.FULL_AGG, "pattern": pat,
                                   "snap": snap, "cuts": cuts, "pickle": next(flip)}


def explore(run):
    cases = sorted(all_cases(run.quick), key=lambda c: len(c["cuts"]))
    run.notes["cases"] = len(cases)
    run.run_all(work, [cases[k::max(1, len(cases) // 50)] for k in range(max(1, len(cases) // 50))])
