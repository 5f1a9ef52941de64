"""C08: deleting a key removes that dataset only, never beyond the store.

For every subset of keys present, every placement of foreign files, every spelling of the base path
and every key (present or not), the deletion is run in a nested scratch tree, and the whole tree is
compared before and after. An audit hook refuses any removal outside the scratch tree.
"""
import itertools
import os
import pathlib
import shutil

import pandas as pd

from mc import env
from mc import store_lib as sl
from mc.core import CaseTimeout, Result, time_limit
from mc.schemas import KEYS, Three, Two, three, two
from oups import ParquetSet

PROP = "C08"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "exhaustive enumeration of stored subsets, foreign content, base spellings and deletion orders on the real store, full tree comparison"
RULE = ("one case = one deletion (subset of keys stored, placement of foreign files, spelling of base path, key deleted, history of "
        "earlier deletions); non-trivial: the key was stored")
NOTE = ("Whole directory tree around the store compared before and after each deletion. Complete over the bounds.")
ASSUMPTIONS = ["directories are not modified by others during the deletion"]

SETS = {
    "One": KEYS["One"],
    "Two": (Two, [two("a", 1), two("a", 2), two("b", 1)]),
    "Three": (Three, [three(1, "a", "x", "l", 1), three(1, "a", "x", "l", 2), three(1, "a", "y", "l", 1), three(2, "a", "x", "l", 1)]),
}
SPELL = ["abs", "abs/", "rel", "./rel/", "x/../rel", "//", "path", "dot", "link", "relpath"]


def spelled(root, how):
    """Base path, in the spelling asked for; current directory is changed for relative ones."""
    base = os.path.join(root, "p1", "base")
    os.chdir(os.path.join(root, "p1"))
    if how == "abs":
        return base
    if how == "abs/":
        return base + "/"
    if how == "rel":
        return "base"
    if how == "./rel/":
        return "./base/"
    if how == "x/../rel":
        return "../p1/base"
    if how == "//":
        return os.path.join(root, "p1") + "//base//"
    if how == "path":
        return pathlib.Path(base)
    if how == "relpath":
        return pathlib.Path("base")
    if how == "dot":
        os.chdir(base)
        return "."
    return os.path.join(root, "link")


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        out[os.path.relpath(d, root)] = "dir"
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = hash(fh.read())
        for x in dirs:
            if os.path.islink(os.path.join(d, x)):
                out[os.path.relpath(os.path.join(d, x), root)] = "link"
    return out


TEMPLATES = {}


def template(schema):
    """A store with all the keys, made once per process."""
    if schema not in TEMPLATES:
        cls, keys = SETS[schema]
        base = sl.tmpdir()
        store = ParquetSet(base, cls)
        for i, k in enumerate(keys):
            store[k] = pd.DataFrame({"a": [i, i + 1]})
        TEMPLATES[schema] = base
    return TEMPLATES[schema]


def prepare(schema, subset, foreign):
    """Nested tree: root/p1/base holds the store."""
    cls, keys = SETS[schema]
    src = template(schema)
    root = sl.tmpdir()
    base = os.path.join(root, "p1", "base")
    os.makedirs(base)
    for k in subset:
        shutil.copytree(os.path.join(src, keys[k].to_path), os.path.join(base, keys[k].to_path))
    parts = keys[0].to_path.split("/")
    for level in foreign:
        if level == "out":
            with open(os.path.join(root, "p1", "sibling.txt"), "w") as f:
                f.write("x")
        elif level in ("keydir", "keydirs"):
            # Directories, not being datasets, at the place of keys not stored.
            for k in set(range(len(keys))) - set(subset):
                d = os.path.join(base, keys[k].to_path)
                os.makedirs(os.path.join(d, "sub") if level == "keydirs" else d)
                with open(os.path.join(d, "sub" if level == "keydirs" else "", "notes.txt"), "w") as f:
                    f.write("x")
        elif level == "emptysib":
            os.makedirs(os.path.join(base, *parts[:-1], "empty_sibling"))
        else:
            d = os.path.join(base, *parts[:level])
            if os.path.isdir(d):
                with open(os.path.join(d, "foreign.txt"), "w") as f:
                    f.write("x")
    os.symlink(base, os.path.join(root, "link"))
    return root


def expected_after(before, key, present):
    """The tree once a stored key is deleted."""
    if not present:
        return dict(before)
    after = dict(before)
    path = os.path.join("p1", "base", key.to_path)
    for p in list(after):
        if p == path or p.startswith(path + os.sep):
            del after[p]
    up = os.path.dirname(path)
    while up != os.path.join("p1", "base") and not any(os.path.dirname(p) == up for p in after):
        del after[up]
        up = os.path.dirname(up)
    return after


def run_case(schema, subset, foreign, spell, deletions):
    cls, keys = SETS[schema]
    root = prepare(schema, subset, foreign)
    problems = []
    cwd = os.getcwd()
    try:
        base = spelled(root, spell)
        store = ParquetSet(base, cls)
        stored = set(subset)
        if list(store) != sorted(keys[k] for k in stored):
            problems.append(f"store lists {list(store)}")
        for k in deletions:
            before = tree(root)
            exp = expected_after(before, keys[k], k in stored)
            n_esc = len(env.ESCAPES)
            try:
                del store[keys[k]]
            except CaseTimeout:
                raise
            except Exception as e:
                # A missing key may be refused, without effect.
                if k in stored or len(env.ESCAPES) > n_esc:
                    problems.append(f"deletion raised {type(e).__name__}: {e}")
            stored.discard(k)
            got = tree(root)
            if got != exp:
                problems.append(f"after deletion of {keys[k].to_path}: wrongly removed {sorted(set(exp) - set(got))}, "
                                f"wrongly kept or added {sorted(set(got) - set(exp))}, changed {sorted(p for p in exp if p in got and got[p] != exp[p])}")
            if list(store) != sorted(keys[i] for i in stored):
                problems.append(f"store lists {list(store)} after deletion of {keys[k].to_path}")
            if os.path.isdir(os.path.join(root, "p1", "base")) and list(ParquetSet(base, cls)) != sorted(keys[i] for i in stored):
                problems.append(f"store reopened lists {list(ParquetSet(base, cls))} after deletion of {keys[k].to_path}")
            if problems:
                break
    finally:
        os.chdir(cwd)
        sl.drop(root)
    return problems


def work(item):
    res = Result()
    for schema, subset, foreign, spell, deletions in item:
        case = {"args": [schema, subset, foreign, spell, deletions]}
        try:
            with time_limit(60):
                problems = run_case(schema, subset, foreign, spell, deletions)
        except CaseTimeout:
            problems = ["deletion does not terminate"]
        res.case((schema, subset, foreign, spell, deletions), deletions[-1] in subset)
        res.n["transitions"] += len(deletions)
        for p in problems:
            res.bad(f"{p} (schema {schema}, stored {subset}, foreign {foreign}, base {spell})", case)
    res.sample({"case": case["args"]})
    return res


def explore(run):
    q = run.quick
    cases = []
    for schema, (cls, keys) in SETS.items():
        n = len(keys)
        places = [(), (0,), ("out",), ("emptysib",), ("keydir",), ("keydirs",)] + [(lv,) for lv in range(1, cls.depth + 1)] + [tuple(range(cls.depth + 1))]
        if not q:
            lv = [*range(cls.depth + 1), "out", "emptysib", "keydir", "keydirs"]
            places = [c for r in range(len(lv) + 1) for c in itertools.combinations(lv, r)]
        for r in range(n + 1):
            for subset in itertools.combinations(range(n), r):
                for foreign in places:
                    for spell in SPELL:
                        if q and spell in ("//", "x/../rel", "relpath") and foreign:
                            continue
                        for k in range(n):
                            cases.append((schema, subset, foreign, spell, (k,)))
        # All orders of deletion of all the keys.
        for perm in itertools.permutations(range(n)):
            for foreign in places:
                for spell in SPELL if not q else ("abs", "abs/", "dot", "rel"):
                    cases.append((schema, tuple(range(n)), foreign, spell, perm + perm[:1]))
    step = 40
    run.run_all(work, [cases[i : i + step] for i in range(0, len(cases), step)])
    run.n["states"] += len(cases)


def replay(case):
    a = case["args"]
    return run_case(a[0], tuple(a[1]), tuple(a[2]), a[3], tuple(a[4]))
