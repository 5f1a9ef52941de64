"""C25: a process killed during a write, a deletion or an aggregation takes nothing recorded with it.

The real operation runs with the disk frozen at each of its points in turn: before each file opened for writing, removed
or renamed, each directory made or removed, and after some bytes of each data file. What is left is read, and used
again, with new objects. The points at which the files of a dataset are being replaced one after the other (from the first
one replaced or removed once all new data files are written, until its metadata file is complete) are known not to be atomic:
nothing is asked there for this very dataset, but that it is still listed, can be deleted, and then written again.
"""
import itertools
import os

from mc import agg_lib as al
from mc import faults
from mc import store_lib as sl
from mc import stream_lib as st
from mc.checks import c10, c19
from mc.core import CaseTimeout, Result, time_limit
from oups import ParquetSet
from oups.store import writer

PROP = "C25"
LEVEL = "fault_enumeration"
JIT = False
TECHNIQUE = "exhaustive enumeration of the crash points (file system events and torn data files) of operations on the real store and AggStream; operations never interrupted as oracle"
RULE = ("one case = one recorded state, one operation and the point at which the process is killed, followed by reading, and by the operation made again or the "
        "stream restarted; non-trivial: the operation had begun to change the disk and was not completed")
NOTE = ("The kill is simulated below the code by an audit hook: from the crash point on, no change reaches the disk, and objects and process-wide metadata "
        "are dropped. Reordering of writes by the operating system is not explored.")
ASSUMPTIONS = ["what has been written before the kill is on disk (no reordering by the operating system)",
               "files of the dataset being written are not being replaced, one after the other, when the kill occurs"]
A, B, F = c10.A, c10.B, c10.F
META = "_metadata"
COMMON = "_common_metadata"
TORN = (0, 4, 60, 200)


def is_new_data(ev, old):
    return ev[0] == "open" and ev[1].endswith(".parquet") and ev[1] not in old


def replaces(ev, old):
    """Changes something which was there, or the metadata."""
    name, path = ev
    if name == "open":
        return path in old or os.path.basename(path) in (META, COMMON)
    return name != "os.mkdir"


def files_of(base):
    return {os.path.relpath(os.path.join(d, f), base) for d, _, fs in os.walk(base) for f in fs}


def last_data(events, old):
    return max((j for j, ev in enumerate(events) if is_new_data(ev, old)), default=-1)


def promised(events, old, k, torn):
    """What is promised of the dataset written when the process is killed at ``k``: "before", "after", or None."""
    if k <= last_data(events, old) or not any(replaces(ev, old) for ev in events[: k + torn]):
        return "before"
    left = events[k:]
    if all(ev[0] == "open" and os.path.basename(ev[1]) == COMMON for ev in left):
        return "after"
    return None


# ------------------------------------------------------------------------------ store

def touched(events, old):
    """Whether a recorded data file is removed, renamed or overwritten."""
    return any(ev[0] != "os.mkdir" and ev[1] in old and ev[1].endswith(".parquet") for ev in events)


def do(store, target, op):
    """Operation on the store."""
    if op[0] == "write":
        df, kw = c10.data_of(op[1], target, op[2])
        if op[3]:
            writer.OUPS_METADATA[target] = {"x": 1, "y": [2]}
        store[target] = (kw, df)
    elif op[0] == "meta":
        store[target] = ({"metadata": {"m": "3", "k": "v"}}, c10.frame([], 0))
    else:
        del store[target]


def forget():
    writer.OUPS_METADATA.clear()


def seen(base, names):
    """What can be read of datasets ``names``, and the catalogue."""
    store = sl.store_at(base)
    listed = sorted(key.to_path for key in store)
    out = {}
    for key in store:
        if key.to_path in names:
            d = sl.dir_of(base, key)
            h = store[key]
            md = {k: v for k, v in h.metadata.items() if k not in ("pandas", "oups")}
            out[key.to_path] = (sl.rg_rows(d, ["a", "b", "s"]), md, h._oups_metadata if "oups" in h.metadata else None, sl.rows(h.pdf), len(h.vdf) if h.pf.row_groups else 0)
    return listed, out


def plan(src, target, op):
    """Events of the operation, and what is read once it is done."""
    base = sl.copy_state(src)
    try:
        old = files_of(base)
        before = seen(base, {A.to_path, B.to_path, F.to_path})
        forget()
        store = sl.store_at(base)
        with faults.Kill(base) as f:
            do(store, target, op)
        forget()
        return f.events, old, before, seen(base, {A.to_path, B.to_path, F.to_path})
    finally:
        forget()
        sl.drop(base)


def one(src, target, op, k, n, info):
    """The operation, killed at event ``k``."""
    events, old, before, after = info
    base = sl.copy_state(src)
    name = target.to_path
    others = {x: v for x, v in before[1].items() if x != name}
    out = []
    try:
        store = sl.store_at(base)
        with faults.Kill(base, k, n) as f:
            try:
                do(store, target, op)
            except Exception:
                pass
        forget()
        del store
        if not f.fired:
            return False, [f"event {k} of the operation does not happen when it is made again"]
        what = promised(events, old, k, n is not None)
        try:
            listed, got = seen(base, set(others))
        except Exception as e:
            return True, [f"other datasets cannot be read after kill: {type(e).__name__}: {e}"]
        if got != others:
            out.append(f"other datasets hold {got}, were {others}")
        if set(listed) - {name} != set(others):
            out.append(f"other keys listed are {listed}, were {sorted(others)}")
        new = op[0] != "del" and name not in before[0]
        if op[0] != "del" and not new and name not in listed:
            out.append("key of the dataset updated is not listed any more")
        if out:
            return True, out
        if op[0] != "del" and not new and what is None and n is None and not touched(events[:k], old):
            # Recorded data files are as they were: one version or the other.
            try:
                got = seen(base, {name})[1].get(name)
            except Exception as e:
                return True, [f"dataset whose data files are all there cannot be read after kill: {type(e).__name__}: {e}"]
            if got not in (before[1][name], after[1][name]):
                return True, [f"dataset whose data files are all there holds {got}, it was {before[1][name]}, and was to be {after[1][name]}"]
        if op[0] != "del" and not new and what:
            want = (before if what == "before" else after)[1][name]
            try:
                got = seen(base, {name})[1].get(name)
            except Exception as e:
                return True, [f"dataset cannot be read after kill ({what} state expected): {type(e).__name__}: {e}"]
            if got != want:
                return True, [f"dataset holds {got}, expected as {what} the write: {want}"]
        # The store is used again.
        store = sl.store_at(base)
        if what == "before" and not new and op[0] != "del":
            do(store, target, op)
            forget()
            want = after
        elif what == "after":
            want = after
        else:
            # Deletion of what is left, and if it was not to be deleted, written anew.
            if target in store:
                del store[target]
                if os.path.isdir(sl.dir_of(base, target)):
                    return True, ["directory of the dataset is there after its deletion"]
            want = (sorted(others), others)
            if new:
                do(store, target, op)
                forget()
                want = after
        got = seen(base, {A.to_path, B.to_path, F.to_path})
        if got != want:
            out.append(f"store used again holds {got}, expected {want}")
        return True, out
    except CaseTimeout:
        return True, ["does not terminate"]
    except Exception as e:
        return True, [f"store used again raised {type(e).__name__}: {e}"]
    finally:
        forget()
        faults._limit(faults._HARD)
        sl.drop(base)


def work_store(item):
    state, tname, op, torn = item
    res = Result()
    target = {"d": A, "b": B, "f": F}[tname]
    src = c10.build(state)
    forget()
    case = {"part": "store", "item": [state, tname, op, None, None]}
    try:
        try:
            with time_limit(60):
                info = plan(src, target, op)
        except BaseException as e:
            if not isinstance(e, (Exception, CaseTimeout)):
                raise
            res.bad(f"{op} on {state} raised {type(e).__name__}: {e}", case)
            return res
        events, old = info[:2]
        for k, ev in enumerate(events):
            for n in [None, *(torn if ev[0] == "open" and ev[1].endswith(".parquet") else ())]:
                with_limit = {"part": "store", "item": [state, tname, op, k, n]}
                try:
                    with time_limit(60):
                        fired, problems = one(src, target, op, k, n, info)
                except CaseTimeout:
                    fired, problems = True, ["does not terminate"]
                begun = k > 0 or n is not None
                res.case(("store", state, tname, op, k, n), fired and begun)
                res.n["crash_points"] += 1
                res.n["promised_" + str(promised(events, old, k, n is not None))] += 1
                for p in problems:
                    res.bad(f"killed at event {k} {ev}, {n} bytes: {p} ({state}, {tname}, {op})", with_limit)
            if len(res.violations) > 3:
                break
        res.sample({"state": state, "target": tname, "operation": op, "crash points": [list(e) for e in events][:6]})
    finally:
        sl.drop(src)
    return res


# ------------------------------------------------------------------------------ stream

def start(c):
    return c19.start_case(dict(c, kind="kill", mode="discard"))


def datasets(kc):
    return kc["key"] if isinstance(kc["key"], list) else [kc["key"]]


def clean(events, old, name, k, torn):
    """Whether the files of dataset ``name`` are not being replaced when the process is killed at ``k``."""
    left = [ev for ev in events[k:] if ev[1].split(os.sep)[0] == name]
    mine = [(j, ev) for j, ev in enumerate(events) if ev[1].split(os.sep)[0] == name]
    if not left:
        return True
    done = [ev for j, ev in mine if j < k + torn and ev[0] == "open"]
    if not any(p.split(os.sep)[0] == name for p in old):
        # First write: nothing promised from the first data file to the metadata file.
        if not any(os.path.basename(ev[1]) == META for ev in done[:-1]):
            return not done
    if left[0][0] == "os.mkdir":
        return True
    if is_new_data(left[0], old):
        return True
    if left[0][0] == "open" and os.path.basename(left[0][1]) == COMMON:
        return True
    torn_here = torn and events[k][1].split(os.sep)[0] == name
    if torn_here:
        return False
    # First file to be replaced after data files were made.
    prev = [ev for j, ev in mine if j < k]
    return not prev or prev[-1][0] == "open" and prev[-1][1].endswith(".parquet")


def events_of(c):
    df, on, base, done0, restart0 = start(c)
    try:
        a = on.index(restart0) if restart0 is not None else 0
        chunks = st.chunks_of(df.iloc[a:].reset_index(drop=True), c["cuts"])
        old = files_of(base)
        stream = st.make(ParquetSet(base, st.K), c)
        with faults.Kill(base) as f:
            stream.agg(chunks, trim_start=True, discard_last=True)
        return f.events, old
    finally:
        sl.drop(base)


def resume(base, c, keys, on, df):
    """Restart of a stream on ``keys`` from what is recorded: (exception at creation or None, problems)."""
    alone = dict(c, keys=keys)
    if c.get("filters"):
        alone["filters"] = {kc["filter"]: c["filters"][kc["filter"]] for kc in keys if kc["filter"] != "_"} | (
            {"_": None} if any(kc["filter"] == "_" for kc in keys) else {})
    store = ParquetSet(base, st.K)
    try:
        stream = st.make(store, alone)
    except Exception as e:
        return e, []
    marks = [st.restart_of(base, st.main_name(kc)) for kc in keys]
    marks = [m and al.plain(m["restart_index"]) for m in marks]
    known = {m for m in marks if m is not None}
    if len(known) > 1:
        return None, [f"keys to be restarted from {marks} are accepted together"]
    n = len(on)
    s = on.index(next(iter(known))) if known else 0
    if None in marks and known:
        # A key which does not exist yet is aggregated, by design, from where the other ones are restarted.
        return None, []
    stream.agg(st.chunks_of(df.iloc[s:].reset_index(drop=True), [x for x in range(1, n - s) if x % 2]), trim_start=True, discard_last=False)
    return None, st.compare(base, alone, on, lambda kc: c19.kept_rows(c, kc, range(n)), "after restart: ")


def killed(c, k, n, events, old):
    df, on, base, done0, restart0 = start(c)
    out = []
    try:
        with time_limit(240):
            a = on.index(restart0) if restart0 is not None else 0
            chunks = st.chunks_of(df.iloc[a:].reset_index(drop=True), c["cuts"])
            stream = st.make(ParquetSet(base, st.K), c)
            with faults.Kill(base, k, n) as f:
                try:
                    stream.agg(chunks, trim_start=True, discard_last=True)
                except Exception:
                    pass
            forget()
            del stream
            if not f.fired:
                return False, [f"event {k} of the aggregation does not happen when it is made again"]
            existed = {p.split(os.sep)[0] for p in old}
            everything = True
            fine = []
            for kc in c["keys"]:
                ok = all(clean(events, old, name, k, n is not None) for name in datasets(kc))
                everything = everything and ok
                if not ok:
                    continue
                main = st.main_name(kc)
                fresh = main not in existed
                try:
                    md = st.restart_of(base, main)
                except Exception as e:
                    if not fresh:
                        out.append(f"key {main} cannot be read: {type(e).__name__}: {e}")
                    continue
                mark = md and al.plain(md["restart_index"])
                if mark not in (restart0, on[-1]) and mark is not None:
                    out.append(f"key {main} labelled with {mark}, neither {restart0} nor {on[-1]}")
                if restart0 is not None and mark is None:
                    out.append(f"key {main} lost its restart information")
                if any(ev[1].split(os.sep)[0] == main for ev in events[k:]) and mark != restart0 and not (
                    os.path.basename(next(ev[1] for ev in events[k:] if ev[1].split(os.sep)[0] == main)) == COMMON
                ):
                    out.append(f"key {main} labelled with {mark} although it is not completely written")
                fine.append(kc)
            if out:
                return True, out
            # All keys together: refused, or right.
            if everything:
                again = sl.copy_state(base)
                try:
                    e, problems = resume(again, c, c["keys"], on, df)
                    out += problems
                finally:
                    sl.drop(again)
            # Each key on its own.
            for kc in fine:
                main = st.main_name(kc)
                md = st.restart_of(base, main)
                e, problems = resume(base, c, [kc], on, df)
                out += problems
                if e is not None and (md is not None or not any(st.K(x) in ParquetSet(base, st.K) for x in datasets(kc))):
                    out.append(f"key {main} is refused after kill: {type(e).__name__}: {e}")
                if e is None and md is None and st.K(main) in ParquetSet(base, st.K) and main in existed and restart0 is None:
                    out.append(f"key {main} accepted")
            return True, out
    except CaseTimeout:
        return True, ["does not terminate (240 s)"]
    except Exception as e:
        return True, [f"raised {type(e).__name__}: {e} {e.__cause__ or e.__context__ or ''}"]
    finally:
        forget()
        faults._limit(faults._HARD)
        sl.drop(base)


def work_stream(item):
    c, torn, part, parts = item
    res = Result()
    forget()
    try:
        with time_limit(240):
            events, old = events_of(c)
    except BaseException as e:
        if not isinstance(e, (Exception, CaseTimeout)):
            raise
        res.bad(f"aggregation raised {type(e).__name__}: {e} for {c}", {"part": "stream", "item": [c, None, None]})
        return res
    for k, ev in enumerate(events):
        if k % parts != part:
            continue
        for n in [None, *(torn if ev[0] == "open" and ev[1].endswith(".parquet") else ())]:
            fired, problems = killed(c, k, n, events, old)
            res.case(("stream", repr(sorted(c.items())), k, n), fired and (k > 0 or n is not None))
            res.n["crash_points"] += 1
            res.n["runs_killed"] += 1
            for p in problems:
                res.bad(f"killed at event {k} {ev}, {n} bytes: {p} for {c}", {"part": "stream", "item": [c, k, n]})
        if len(res.violations) > 3:
            break
    if part == 0:
        res.sample({"seed": c["seq"], "cuts": c["cuts"], "keys": [kc["key"] for kc in c["keys"]], "crash points": len(events)})
    return res


def work(item):
    return work_store(item[1:]) if item[0] == "store" else work_stream(item[1:])


# ------------------------------------------------------------------------------ exploration

def store_items(quick):
    torn = (4, 60) if quick else TORN
    for state in c10.STATES:
        for name in c10.WRITES:
            for inp in ("pandas", "vaex"):
                if quick and inp == "vaex" and name not in ("middle", "coalesce"):
                    continue
                for md in (False, True):
                    if quick and md != (len(name) % 2 == 0):
                        continue
                    yield ("store", state, "d", ["write", name, inp, md], torn)
                    if state == "two":
                        yield ("store", state, "f", ["write", name, inp, md], torn)
        yield ("store", state, "d", ["meta"], torn)
        yield ("store", state, "b", ["del"], torn)
        if state != "empty":
            yield ("store", state, "d", ["del"], torn)


def stream_items(quick):
    mems = itertools.cycle([0, 300, None, 0, 0])
    torn = (4,) if quick else TORN
    parts = 4
    j = 0
    for si, seq in enumerate(c19.SEQS):
        for prior in (3, 0, 4):
            for ni, (name, (extra, keys)) in enumerate(c19.KEYSETS.items()):
                on = list(seq)
                d = sum(v < on[prior - 1] for v in on[:prior]) if prior else 0
                n = len(seq) - (on.index(on[prior - 1]) if d else 0)
                for ci, cuts in enumerate(c19.cuttings(n)):
                    j += 1
                    if quick and (not prior and (ci + ni) % 8 != 7 or prior and (ci + ni + si + prior) % 5):
                        continue
                    if not quick and not prior and ci % 4:
                        continue
                    ks = [dict(kc, mem=next(mems), **({"write": {"max_row_group_size": 2, "max_nirgs": j % 3}} if j % 2 and not kc.get("write") else {})) for kc in keys]
                    c = {"seq": seq, "prior": prior, "cuts": cuts, "mode": "discard", "kind": "kill", **extra, "keys": ks}
                    for part in range(parts):
                        yield ("stream", c, torn, part, parts)


def explore(run):
    items = list(store_items(run.quick))
    run.notes["operations on a store"] = len(items)
    run.run_all(work, items)
    if run.stop():
        return
    items = sorted(stream_items(run.quick), key=lambda t: len(t[1]["cuts"]))
    run.notes["aggregations"] = len(items) // 4
    run.notes["bounds"] = {"rows of a seed": 6, "chunks": "1..6", "keys": "1..3", "kills": "one per run"}
    run.run_all(work, items)


def replay(case):
    if case["part"] == "store":
        state, tname, op, k, n = case["item"]
        src = c10.build(state)
        forget()
        target = {"d": A, "b": B, "f": F}[tname]
        try:
            info = plan(src, target, op)
            return [] if k is None else one(src, target, op, k, n, info)[1]
        except Exception as e:
            return [f"raised {type(e).__name__}: {e}"]
        finally:
            sl.drop(src)
    c, k, n = case["item"]
    try:
        events, old = events_of(c)
    except Exception as e:
        return [f"raised {type(e).__name__}: {e}"]
    return [] if k is None else killed(c, k, n, events, old)[1]
