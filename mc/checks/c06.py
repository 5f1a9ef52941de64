"""C06: keys map one-to-one to paths and strings and survive round trips.

Exhaustive enumeration of key schemas and of all keys over small adversarial alphabets.
"""
import copy
import itertools
import os
import pickle
import sys

from mc.core import Result
from oups import sublevel, toplevel

PROP = "C06"
LEVEL = "model_checking"
JIT = False
TECHNIQUE = "exhaustive enumeration of schemas, keys and pairs of keys over bounded alphabets"
RULE = ("one case = one key (schema, separator, field values) taken through path, string, pickle and copy round trips, or one "
        "invalid key, or one string parsed; distinct: distinct (schema, separator, path); pairs are decided by the path map being injective")
NOTE = ("All schemas of 1 to 3 levels within the bounds, all keys over the alphabets; equality of keys and of paths compared "
        "over all pairs through dictionaries. Values of the declared field type, single-character separators.")
ASSUMPTIONS = ["field values have the declared type (int or str)", "separators of one character, as documented", "keys compared within one schema"]

SEPS = ["-", "_", "|", "+", "*", "(", "#", "^", "$", "\\", "?", "["]
STRS = ["", "a", "b", "ab", "0", "1", "01", " ", "-", "_", "\u00e9", "A", "None", "a b", "*", "\\"]
INTS = [0, 1, 10, 7, -1]


def make(schema, sep):
    """Classes for a schema ('is', 's') = level 1: int, str then a sub-level of one str."""
    types = {"i": int, "s": str}
    sub = None
    this = sys.modules[__name__]
    for n, level in reversed(list(enumerate(schema))):
        ann = {"f%d" % i: types[t] for i, t in enumerate(level)}
        if sub is not None:
            ann["sub"] = sub
        name = "K%d" % n
        cls = type(name, (), {"__annotations__": ann, "__module__": __name__, "__qualname__": name})
        if n == 0:
            cls = toplevel(cls, fields_sep=sep) if sep != "-" else toplevel(cls)
            setattr(this, name, cls)
            return cls
        sub = sublevel(cls)
        setattr(this, name, sub)


def levels_of(cls):
    """Class of each level."""
    out = [cls]
    while "sub" in out[-1].__annotations__:
        out.append(out[-1].__annotations__["sub"])
    return out


def build(classes, schema, values):
    """Key from a flat list of values."""
    values = list(values)
    key = None
    for n in range(len(schema) - 1, 0, -1):
        k = len(schema[n])
        args = values[-k:]
        values = values[:-k]
        key = classes[n](*args, *([key] if key is not None else []))
    return classes[0](*values, *([key] if key is not None else []))


def ref_path(schema, values, sep):
    out, i = [], 0
    for level in schema:
        out.append(sep.join(str(v) for v in values[i : i + len(level)]))
        i += len(level)
    return out


def flat(key, schema):
    out = []
    for n, level in enumerate(schema):
        out.extend(getattr(key, "f%d" % i) for i in range(len(level)))
        if n + 1 < len(schema):
            key = key.sub
    return out


def valid(schema, values, sep):
    """Whether the key is to be accepted, from the documentation."""
    for v in values:
        if any(c in str(v) for c in (sep, ".", os.sep)):
            return False
    return all(p != "" for p in ref_path(schema, values, sep))


def check_key(res, cls, classes, schema, sep, values, seen):
    case = {"schema": schema, "sep": sep, "values": list(values)}
    ok = valid(schema, values, sep)
    try:
        key = build(classes, schema, values)
    except (TypeError, ValueError) as e:
        res.case((schema, sep, values), True)
        if ok:
            res.bad(f"valid key {values} rejected: {e!r}", case)
        return
    if not ok:
        res.case((schema, sep, values), True)
        res.bad(f"key {values} accepted with separator {sep!r}", case)
        return
    ref = ref_path(schema, values, sep)
    path = key.to_path
    res.case((schema, sep, path), True)
    if path != os.sep.join(ref) or str(key) != sep.join(ref):
        res.bad(f"key {values}: path {path!r}, string {str(key)!r}, expected levels {ref}", case)
    if path in seen and seen[path] != values:
        res.bad(f"keys {values} and {seen[path]} share path {path!r}", case)
    seen[path] = values
    if cls.depth != len(schema) or key.depth != len(schema) or path.count(os.sep) + 1 != len(schema):
        res.bad(f"depth {cls.depth} for path {path!r}", case)
    for how, back in (("path", cls.from_path(path)), ("string", cls.from_str(str(key))),
                      ("pickle", pickle.loads(pickle.dumps(key))), ("copy", copy.deepcopy(key))):
        if back is None:
            res.bad(f"key {values} not rebuilt from {how}", case)
            continue
        got = flat(back, schema)
        if back != key or hash(back) != hash(key) or got != list(values) or [type(v) for v in got] != [type(v) for v in values] or type(back) is not cls or back.to_path != path:
            res.bad(f"key {values} rebuilt from {how} is {got}", case)


def alphabets(schema, sep, q):
    n = sum(map(len, schema))
    ns = {1: 16, 2: 16, 3: 9, 4: 6, 5: 4}.get(n, 3) if q else {1: 16, 2: 16, 3: 14, 4: 9, 5: 6, 6: 4}.get(n, 3)
    ni = {1: 5, 2: 5, 3: 4}.get(n, 2)
    strs = ["", "a", "0", "-" if sep != "-" else "_", "01", "1"] + [s for s in STRS if s not in ("", "a", "0", "-", "01", "1")]
    return [[*(INTS[:ni] if t == "i" else strs[:ns])] for level in schema for t in level]


BAD = [1.5, None, True, b"a", ("a",), ["a"], {"a"}]
BAD_STR = ["{sep}", "a{sep}", "{sep}a", "a{sep}b", ".", "a.b", "/", "a/b", "..", "/a", "a/"]


def invalid_keys(res, cls, classes, schema, sep):
    good = [1 if t == "i" else "a" for level in schema for t in level]
    for i in range(len(good)):
        for bad in BAD + [b.format(sep=sep) for b in BAD_STR]:
            values = [*good]
            values[i] = bad
            case = {"schema": schema, "sep": sep, "bad": [i, repr(bad)]}
            res.case((schema, sep, "bad", i, repr(bad)), True)
            try:
                build(classes, schema, values)
            except (TypeError, ValueError):
                continue
            res.bad(f"field value {bad!r} accepted at position {i} with separator {sep!r}", case)
    if len(schema) > 1:
        sub = build([None] * 0 + classes[1:], schema[1:], good[len(schema[0]):]) if len(schema) > 1 else None
        # Sub-level not in last position, or twice, or alone.
        n0 = len(schema[0])
        for args in ([sub, *good[:n0]], [sub] * (n0 + 1)):
            res.case((schema, sep, "sub", len(args)), True)
            try:
                classes[0](*args)
            except TypeError:
                continue
            res.bad(f"sub-level accepted at wrong position for {schema}", {"schema": schema, "sep": sep, "bad": [0, "sub"]})


def parsing(res, cls, schema, sep, q):
    tokens = ["a", "1", sep, "/", ".", "01"]
    for n in range(0, 6 if q else 7):
        for combo in itertools.product(tokens[: 4 if n > 4 else 6], repeat=n):
            s = "".join(combo)
            res.case((schema, sep, "parse", s), True)
            case = {"schema": schema, "sep": sep, "string": s}
            try:
                key = cls.from_path(s)
            except Exception as e:
                res.bad(f"parsing {s!r} raises {e!r}", case)
                continue
            if key is None:
                continue
            got = flat(key, schema)
            if [type(v) for v in got] != [{"i": int, "s": str}[t] for level in schema for t in level]:
                res.bad(f"parsing {s!r} gives fields {got}", case)


def work(item):
    schema, seps, q, parse = item
    res = Result()
    # All classes are made first: nothing of a schema may leak in another.
    made = {sep: (c := make(schema, sep), levels_of(c)) for sep in seps}
    for sep in seps:
        cls, classes = made[sep]
        # Pickle looks up classes by name.
        for k in classes:
            setattr(sys.modules[__name__], k.__name__, k)
        if cls.fields_sep != sep:
            res.bad(f"separator is {cls.fields_sep!r} instead of {sep!r}", {"schema": schema, "sep": sep})
        seen = {}
        for values in itertools.product(*alphabets(schema, sep, q)):
            check_key(res, cls, classes, schema, sep, values, seen)
        invalid_keys(res, cls, classes, schema, sep)
        if parse:
            parsing(res, cls, schema, sep, q)
        if len(res.violations) > 3:
            break
    res.sample({"schema": schema, "seps": seps, "keys": len(seen)})
    return res


def schemas(q):
    def shapes(n):
        return ["".join(t) for k in range(1, n + 1) for t in itertools.product("is", repeat=k)]

    out = [(a,) for a in shapes(3)]
    out += [(a, b) for a in shapes(2 if q else 3) for b in shapes(2 if q else 3)]
    out += [(a, b, c) for a in shapes(1 if q else 2) for b in shapes(2) for c in shapes(1 if q else 2)]
    return out


def explore(run):
    items = []
    for s in schemas(run.quick):
        n = sum(map(len, s))
        seps = SEPS if n <= 2 else SEPS[:5] if run.quick else SEPS[:8]
        items.append((s, seps, run.quick, n <= (3 if run.quick else 4)))
    items.sort(key=lambda t: -sum(map(len, t[0])))
    run.run_all(work, items)


def replay(case):
    res = Result()
    schema, sep = tuple(case["schema"]), case["sep"]
    cls = make(schema, sep)
    classes = levels_of(cls)
    for k in classes:
        setattr(sys.modules[__name__], k.__name__, k)
    seen = {}
    for values in itertools.product(*alphabets(schema, sep, True)):
        check_key(res, cls, classes, schema, sep, values, seen)
    invalid_keys(res, cls, classes, schema, sep)
    parsing(res, cls, schema, sep, True)
    return [w for w, _ in res.violations]
