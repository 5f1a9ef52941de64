"""C19: a failing seed check keeps the results up to the last valid chunk.

A. Every chunk of every cutting fails in turn (user check raising, unordered or null ordering values), with or
   without earlier results, then the stream is resumed with correct data.
B. Everything else which may fail (seed iterator, aggregation, post-processing, buffers which cannot be recorded,
   every data file opened or torn while writing): what is recorded must be consistent, key by key, and resuming
   each key from what it is labelled with must give the result of a run that never failed.
"""
import itertools

import pandas as pd

from mc import agg_lib as al
from mc import faults
from mc import store_lib as sl
from mc import stream_lib as st
from mc.core import CaseTimeout, Result, time_limit
from oups import ParquetSet
from oups.aggstream.aggstream import SeedPreException

PROP = "C19"
LEVEL = "fault_enumeration"
JIT = False
TECHNIQUE = "exhaustive enumeration of failure points (chunks, calls, files) over all cuttings of small seeds on the real AggStream; reference aggregation as oracle"
RULE = ("one case = one seed, one cutting, one failing point and kind of failure, one set of keys, with or without earlier results, followed by a "
        "resumption; non-trivial: the failure happened with at least one row aggregated before it")
NOTE = ("Each chunk of each cutting, each call of post-processing, each data file opened is failed in turn. What is recorded after the failure and "
        "after resuming is compared with the reference aggregation. Order is checked by the code within a chunk, not between chunks.")
ASSUMPTIONS = ["the seed check raises before modifying its buffer", "no aggregated value is 0 (refused by AggStream by design)",
               "write failures happen while data files are created or written, not while metadata files are", "the process survives the failure"]


class Boom(Exception):
    pass


class Pre:
    def __init__(self, fail_at=None):
        self.fail_at = fail_at
        self.calls = 0
        self.given = []

    def __call__(self, on, buffer):
        k = self.calls
        self.calls += 1
        self.given.append(on["i"].tolist())
        if k == self.fail_at:
            raise Boom(f"chunk {k} refused by user")
        buffer["chunks"] = buffer.get("chunks", 0) + 1
        buffer["last"] = al.plain(on["t"].iloc[-1])


POST = {"fail_at": None, "calls": 0, "bad": False}


def post_fail(buffer, bin_res, snap_res=None):
    k = POST["calls"]
    POST["calls"] += 1
    if k == POST["fail_at"]:
        if POST["bad"]:
            buffer["x"] = lambda: 0  # cannot be serialised, hence not recorded in metadata
        else:
            raise Boom("post-processing failed")
    return bin_res if snap_res is None else (bin_res, snap_res)


st.POSTS["fail"] = post_fail


def spoil(chunk, kind):
    """A chunk which is not in ascending order."""
    if kind == "unordered":
        order = list(range(len(chunk)))
        order[0], order[-1] = order[-1], order[0]
        return chunk.iloc[order].reset_index(drop=True)
    if kind == "null":
        chunk = chunk.copy()
        chunk["t"] = chunk["t"].where([True] * (len(chunk) - 1) + [False])
        return chunk
    if kind == "column":
        return chunk.assign(f=["not a number"] * len(chunk))
    return chunk


def feed(chunks, k, kind):
    """Seed in which chunk ``k`` is spoilt, or not delivered."""
    for j, ch in enumerate(chunks):
        if j == k and kind == "gen":
            raise Boom("no more data")
        yield spoil(ch, kind) if j == k else ch


CHECKED = ("pre", "unordered", "null")


def sub_case(c, kc):
    return dict(c, keys=[kc])


def kept_rows(c, kc, rows):
    f = c.get("keep", {}).get(kc.get("filter"))
    return [r for r in rows if f is None or r % 2 == f]


def start_case(c):
    """Seed, and recorded state before the failing run: (df, on, base, number of rows already aggregated, restart value)."""
    df, on = st.seed_frame(dict(c, extra={"par": [r % 2 for r in range(len(c["seq"]))]}))
    base = sl.tmpdir()
    p = c.get("prior", 0)
    restart = None
    done = 0
    if p:
        POST.update(fail_at=None, calls=0, bad=False)
        stream = st.make(ParquetSet(base, st.K), c, pre=Pre() if c["kind"] in CHECKED else None)
        stream.agg(df.iloc[:p], trim_start=True, discard_last=c["mode"] == "discard")
        if c["mode"] == "discard":
            done = sum(v < on[p - 1] for v in on[:p])
            restart = on[p - 1] if done else None
        else:
            done, restart = p, on[p - 1]
    return df, on, base, done, restart


# ------------------------------------------------------------------------------ A: failing seed check

def run_check(c):
    df, on, base, done0, restart0 = start_case(c)
    out = []
    info = False
    n = len(on)
    discard = c["mode"] == "discard"
    try:
        with time_limit(180):
            store = ParquetSet(base, st.K)
            a = c.get("prior", 0) if not discard else (on.index(restart0) if restart0 is not None else 0)
            rest = df.iloc[a:].reset_index(drop=True)
            chunks = st.chunks_of(rest, c["cuts"])
            bounds = [a + x for x in (0, *c["cuts"], n - a)]
            k = c["fail"]
            pre = Pre(k if c["kind"] == "pre" else None)
            stream = st.make(store, c, pre=pre)
            e = sl.attempt(stream.agg, feed(chunks, k, c["kind"]) if c.get("gen", True) else list(feed(chunks, k, c["kind"])),
                           trim_start=discard, discard_last=discard, final_write=not c.get("nofinal"))
            if not isinstance(e, SeedPreException):
                return [f"raised {e!r} instead of SeedPreException"], info
            if c["kind"] == "pre" and f"chunk {k} refused by user" not in str(e):
                return [f"exception does not carry the cause: {e!r}"], info
            given = [ch["i"].tolist() for ch in chunks[: k + (c["kind"] == "pre")]]
            if pre.given[: len(given)] != given:
                out.append(f"seed check was given {pre.given}, chunks of the seed are {given}")
            b = bounds[k]  # rows before are valid
            if k == 0:
                done, restart = done0, restart0
            elif discard:
                done = sum(v < on[b - 1] for v in on[:b])
                # The restart point moves when a row is kept, for whatever key.
                restart = on[b - 1] if done > 0 and any(on[r] >= (restart0 if restart0 is not None else on[0]) and on[r] < on[b - 1] for r in range(a, b)) else restart0
                done = max(done, done0)
            else:
                done, restart = b, on[b - 1]
            info = done > done0
            if not c.get("nofinal"):
                out += st.compare(base, c, on, lambda kc: kept_rows(c, kc, range(done)), "after failure: ")
            marks = []
            labelled = restart0 if c.get("nofinal") else restart
            for kc in c["keys"]:
                md = st.restart_of(base, st.main_name(kc))
                marks.append(md and al.plain(md["restart_index"]))
                if (md and al.plain(md["restart_index"])) != labelled:
                    out.append(f"after failure: key {kc['key']} is to restart from {md and md['restart_index']}, expected {labelled}")
                want = {"last": on[b - 1], "chunks": k + (restart0 is not None)}
                if md is not None and k and not c.get("nofinal") and md["pre_buffer"] != want:
                    out.append(f"after failure: buffer of seed check {md['pre_buffer']}, expected {want}")
            if out:
                return out, info
            # Resume with correct data: same stream, or new one.
            if c.get("same"):
                pre.fail_at = None
            else:
                stream = st.make(ParquetSet(base, st.K), c, pre=Pre())
            if discard:
                s = on.index(restart) if restart is not None else 0
                stream.agg(st.chunks_of(df.iloc[s:].reset_index(drop=True), [x for x in range(1, n - s) if x % 2]),
                           trim_start=True, discard_last=False)
            else:
                stream.agg(st.chunks_of(df.iloc[done:].reset_index(drop=True), [x for x in range(1, n - done) if x % 2]))
            out += st.compare(base, c, on, lambda kc: kept_rows(c, kc, range(n)), "after resuming: ")
    except CaseTimeout:
        return ["does not terminate (180 s)"], info
    except Exception as e:
        return [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''}"], info
    finally:
        sl.drop(base)
    return out, info


# ------------------------------------------------------------------------------ B: other failures

def tables(c, kc, on, rows):
    """Expected content of each dataset of a key."""
    bins, snaps = st.expected(kc, on, kept_rows(c, kc, rows))
    names = kc["key"]
    if isinstance(names, list):
        return {names[0]: bins, names[1]: snaps}
    return {names: bins if snaps is None else snaps}


def merged(old, new):
    d = {r[0]: r for r in old}
    d.update({r[0]: r for r in new})
    return [d[k] for k in sorted(d)]


def run_other(c):
    df, on, base, done0, restart0 = start_case(c)
    out = []
    info = False
    n = len(on)
    try:
        with time_limit(240):
            a = on.index(restart0) if restart0 is not None else 0
            rest = df.iloc[a:].reset_index(drop=True)
            chunks = st.chunks_of(rest, c["cuts"])
            store = ParquetSet(base, st.K)
            stream = st.make(store, c)
            kind, k = c["kind"], c["fail"]
            seed = feed(chunks, k if kind in ("gen", "column") else None, kind)
            POST.update(fail_at=k if kind in ("post", "buffer") else None, calls=0, bad=kind == "buffer")
            if kind == "write":
                with faults.Faults(faults.new_data_file(base), tuple(c["plan"])) as f:
                    e = sl.attempt(stream.agg, seed, trim_start=True, discard_last=True)
                fired = f.fired
            else:
                e = sl.attempt(stream.agg, seed, trim_start=True, discard_last=True)
                fired = POST["calls"] > k if kind in ("post", "buffer") else True
            POST.update(fail_at=None, calls=0, bad=False)
            if c.get("then") and e is not None and kind != "gen":
                # Whether it is refused or not.
                again = [] if c["then"] == "write" else st.chunks_of(rest, [])
                sl.attempt(stream.agg, again, trim_start=True, discard_last=True)
            elif c.get("then") and e is not None:
                # Same stream asked to write what it has.
                stream.agg([])
                b = [a + x for x in (0, *c["cuts"])][k]
                kept = sum(v < on[b - 1] for v in on[:b]) if b > a else done0
                want = on[b - 1] if kept > done0 else restart0
                for kc in c["keys"]:
                    md = st.restart_of(base, st.main_name(kc))
                    if (md and al.plain(md["restart_index"])) != want:
                        out.append(f"what is written after failure is labelled with {md and md['restart_index']}, expected {want}")
                out += st.compare(base, c, on, lambda kc: kept_rows(c, kc, range(max(kept, done0))), "written after failure: ")
                return out, kept > done0
            if not fired:
                return None, False
            if e is None and kind == "column":
                # Rows of the chunk have not been aggregated.
                return None, False
            if e is None:
                return [f"no exception although {kind} failed at {k}"], True
            info = True
            done1 = sum(v < on[-1] for v in on)  # rows aggregated if there were no failure
            new_restart = on[-1]
            for kc in c["keys"]:
                md = st.restart_of(base, st.main_name(kc))
                mark = md and al.plain(md["restart_index"])
                old = tables(c, kc, on, range(done0))
                got = {name: st.read(base, name, st.names_of(kc)) for name in old}
                main = st.main_name(kc)
                complete = tables(c, kc, on, range(done1))
                for name in old:
                    ok = [old[name], complete[name]] + [merged(old[name], tables(c, kc, on, range(done0, 0)).get(name, []))]
                    for j in range(done0, done1 + 1):
                        ok.append(merged(old[name], tables(c, kc, on, range(j))[name][:-1]))
                    if name == main and mark == new_restart and mark != restart0:
                        ok = [complete[name]]
                    if (got[name] or []) not in ok:
                        out.append(f"after failure: key {name} holds {got[name]}, labelled with {mark}; it had {old[name]}, and was to hold {complete[name]}")
                if mark not in (restart0, new_restart) and mark is not None:
                    out.append(f"after failure: key {main} labelled with {mark}, neither {restart0} nor {new_restart}")
                if restart0 is not None and mark is None:
                    out.append(f"after failure: key {main} lost its restart information")
            if out:
                return out, info
            # Resume each key on its own.
            for kc in c["keys"]:
                alone = sub_case(c, kc)
                if c.get("filters"):
                    alone["filters"] = {kc["filter"]: c["filters"][kc["filter"]]} if kc["filter"] != "_" else {"_": None}
                main = st.main_name(kc)
                md = st.restart_of(base, main)
                store = ParquetSet(base, st.K)
                e = None
                try:
                    stream = st.make(store, alone)
                except ValueError as x:
                    e = x
                if md is None and st.K(main) in store:
                    # Intermediate results of a first run: not known as being results of a stream.
                    if e is None:
                        out.append(f"key {main} holds intermediate results without restart information, and is accepted")
                    continue
                if e is not None:
                    out.append(f"key {main} is refused after failure: {e}")
                    continue
                s = on.index(al.plain(md["restart_index"])) if md else 0
                stream.agg(st.chunks_of(df.iloc[s:].reset_index(drop=True), [x for x in range(1, n - s) if x % 2]), trim_start=True, discard_last=False)
                out += st.compare(base, alone, on, lambda kc: kept_rows(c, kc, range(n)), "after resuming: ")
    except CaseTimeout:
        return ["does not terminate (240 s)"], info
    except Exception as e:
        return [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''}"], info
    finally:
        faults._limit(faults._HARD)
        sl.drop(base)
    return out, info


def run_case(c):
    try:
        return run_check(c) if c["kind"] in CHECKED else run_other(c)
    except Exception as e:
        return [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''} while results before the failure were made"], False


def work(cases):
    res = Result()
    for c in cases:
        if c["kind"] in ("write", "post", "buffer") and c.get("fail") is None:
            todo = expand(c)
        else:
            todo = [c]
        for c in todo:
            problems, info = run_case(c)
            if problems is None:
                break
            res.n["failures_injected"] += 1
            res.n["traces_validated_against_impl"] += 1
            res.n["kind_" + c["kind"]] += 1
            res.case(repr(sorted(c.items())), nontrivial=info)
            for p in problems:
                res.bad(f"{p} for {c}", c)
            if not problems and info:
                res.sample({k: c[k] for k in ("seq", "cuts", "kind", "fail", "keys")})
    return res


def expand(c):
    """Every call or file, until the failure does not happen any more."""
    for k in range(40):
        if c["kind"] == "write":
            yield dict(c, fail=k, plan=["open", k] if c["torn"] is None else ["torn", k, c["torn"]])
        else:
            yield dict(c, fail=k)


def replay(c):
    problems, _ = run_case(c)
    return problems or []


def cuttings(n):
    for r in range(n):
        for cuts in itertools.combinations(range(1, n), r):
            yield list(cuts)


KEYSETS = {
    "bins": ({}, [{"key": "b", "bin": st.T()}]),
    "snaps": ({}, [{"key": "s", "bin": st.T(4), "snap": st.snap(1)}]),
    "pair": ({}, [{"key": ["b", "s"], "bin": st.T(4), "snap": st.snap(2, label="right"), "write": {"max_row_group_size": [2, 3]}}]),
    "several": ({}, [{"key": "b", "bin": st.T()}, {"key": ["c", "d"], "bin": st.T(3, origin="start"), "snap": st.snap(2, origin="start")},
                     {"key": "e", "bin": st.T(closed="right"), "write": {"max_row_group_size": 2}}]),
    "filters": ({"filters": {"f0": [[["par", "==", 0]]], "f1": [[["par", "in", [1]]]]}, "keep": {"f0": 0, "f1": 1}},
                [{"key": "b", "bin": st.T(), "filter": "f0"}, {"key": "c", "bin": st.T(3), "filter": "f1"}, {"key": "d", "bin": st.T(2), "filter": "_"}]),
}
SEQS = [(0, 1, 2, 3, 4, 5), (0, 0, 2, 4, 4, 7), (1, 2, 3, 3, 9, 9)]


def check_cases(quick):
    flips = itertools.cycle([{}, {"same": True}, {"gen": False}, {"same": True, "gen": False}, {}])
    mems = itertools.cycle([0, None, 300])
    writes = itertools.cycle([0, 1, 0, 0, 0, 1, 0])
    kinds = itertools.cycle(["pre", "unordered", "null"])
    sets = itertools.cycle(KEYSETS)
    for si, seq in enumerate(SEQS[:2] if quick else SEQS):
        for mode in ("discard", "next"):
            for prior in (0, 2, 3):
                for name in [next(sets), next(sets)] if quick else KEYSETS:
                    extra, keys = KEYSETS[name]
                    if name == "filters" and mode == "discard":
                        # A chunk rejected by all filters does not move the restart point: '_' takes all rows.
                        pass
                    n = len(seq) - prior
                    if mode == "discard" and prior:
                        on = list(seq)
                        d = sum(v < on[prior - 1] for v in on[:prior])
                        n = len(seq) - (on.index(on[prior - 1]) if d else 0)
                    for cuts in cuttings(n):
                        for k in range(len(cuts) + 1):
                            for kind in [next(kinds)] if quick else ["pre", "unordered", "null"]:
                                size = [*cuts, n][k] - [0, *cuts][k]
                                off = len(seq) - n + [0, *cuts][k]
                                if kind == "null" and size < 2 or kind == "unordered" and seq[off] == seq[off + size - 1]:
                                    if not quick:
                                        continue
                                    kind = "pre"
                                c = {"seq": seq, "mode": mode, "prior": prior, "cuts": cuts, "fail": k, "kind": kind, **extra,
                                     "keys": [dict(kc, mem=next(mems)) for kc in keys]}
                                c.update(next(flips))
                                if next(writes):
                                    c.update(nofinal=True, same=True)
                                yield c


def other_cases(quick):
    mems = itertools.cycle([0, 300, None, 0])
    thens = itertools.cycle(["write", "feed"])
    for si, seq in enumerate(SEQS):
        for prior in (0, 3):
            for ni, (name, (extra, keys)) in enumerate(KEYSETS.items()):
                on = list(seq)
                d = sum(v < on[prior - 1] for v in on[:prior]) if prior else 0
                n = len(seq) - (on.index(on[prior - 1]) if d else 0)
                for ci, cuts in enumerate(cuttings(n)):
                    if quick and (ci + ni + si) % 4:
                        continue
                    base = {"seq": seq, "mode": "discard", "prior": prior, "cuts": cuts, **extra}
                    for kind in ("gen", "column"):
                        for k in range(len(cuts) + 1):
                            if kind == "column" and k == 0:
                                continue  # columns of the first chunk are those expected
                            if quick and (k + ci) % 2:
                                continue
                            yield dict(base, kind=kind, fail=k, keys=[dict(kc, mem=next(mems)) for kc in keys])
                            yield dict(base, kind=kind, fail=k, then="write" if k % 2 else "feed", keys=[dict(kc, mem=next(mems)) for kc in keys])
                    for torn in (None, 4) if quick else (None, 0, 4, 60, 200):
                        if quick and torn and (ci // 4) % 2:
                            continue
                        yield dict(base, kind="write", torn=torn, fail=None, keys=[dict(kc, mem=next(mems)) for kc in keys])
                        if not torn:
                            yield dict(base, kind="write", torn=torn, fail=None, then=next(thens), keys=[dict(kc, mem=next(mems)) for kc in keys])
                    if any(isinstance(kc["key"], list) or not kc.get("snap") for kc in keys):
                        for kind in ("post", "buffer"):
                            # Post-processing on one key of the set.
                            target = [j for j, kc in enumerate(keys) if isinstance(kc["key"], list) or not kc.get("snap")]
                            for j in target[:1] if quick else target:
                                ks = [dict(kc, mem=next(mems), **({"post": "fail"} if i == j else {})) for i, kc in enumerate(keys)]
                                yield dict(base, kind=kind, fail=None, keys=ks)
                                if not quick or ci % 2:
                                    yield dict(base, kind=kind, fail=None, then=next(thens), keys=ks)


def explore(run):
    a = sorted(check_cases(run.quick), key=lambda c: len(c["cuts"]))
    b = sorted(other_cases(run.quick), key=lambda c: len(c["cuts"]))
    run.notes["seed check cases"] = len(a)
    run.notes["other failure families"] = len(b)
    run.notes["bounds"] = {"rows of a seed": 6, "chunks": "1..6", "keys": "1..3"}
    m = min(len(a), 200)
    run.run_all(work, [a[k::m] for k in range(m)])
    if run.stop():
        return
    m = min(len(b), 300)
    run.run_all(work, [b[k::m] for k in range(m)])
