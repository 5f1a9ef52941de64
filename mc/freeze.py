"""Deep, comparable image of the objects a caller may give."""
import functools

import numpy as np
import pandas as pd
from pandas.core.resample import TimeGrouper
from vaex.dataframe import DataFrame as VaexDF


def values(arr):
    out = []
    for v in list(arr):
        if v is None:
            out.append("None")
        elif v is pd.NaT:
            out.append("NaT")
        elif v is pd.NA:
            out.append("NA")
        elif isinstance(v, (list, dict, tuple)):
            out.append(repr(v))
        else:
            out.append((type(v).__name__, repr(v)))
    return out


def freeze(o):
    if isinstance(o, pd.DataFrame):
        return ("DataFrame", type(o.index).__name__, freeze(o.index), freeze(o.columns), [str(t) for t in o.dtypes],
                [values(o.iloc[:, k]) for k in range(o.shape[1])], repr(o.attrs), repr(o.flags))
    if isinstance(o, pd.Series):
        return ("Series", freeze(o.index), str(o.dtype), values(o), repr(o.name))
    if isinstance(o, pd.MultiIndex):
        return ("MultiIndex", values(o), [repr(n) for n in o.names], [values(x) for x in o.levels])
    if isinstance(o, pd.Index):
        return (type(o).__name__, str(o.dtype), values(o), repr(o.names), repr(getattr(o, "freq", None)))
    if isinstance(o, np.ndarray):
        return ("ndarray", str(o.dtype), o.shape, values(o.ravel()))
    if isinstance(o, VaexDF):
        names = o.get_column_names()
        every = o.get_column_names(hidden=True)
        return ("vaex", names, every, len(o), o.length_original(), repr(o.filtered), [values(o[n].tolist()) for n in names],
                sorted((k, str(v)) for k, v in o.virtual_columns.items()), sorted(o.selection_histories), repr(sorted(o.variables.items(), key=str)))
    if isinstance(o, TimeGrouper):
        return ("TimeGrouper", sorted((k, repr(v)) for k, v in vars(o).items()))
    if isinstance(o, functools.partial):
        return ("partial", id(o.func), freeze(o.args), freeze(o.keywords))
    if isinstance(o, dict):
        return (type(o).__name__, [(freeze(k), freeze(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [freeze(x) for x in o])
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__, sorted(map(repr, o)))
    if callable(o):
        return ("callable", id(o))
    return (type(o).__name__, repr(o))


def diff(a, b, path=""):
    """First difference between two images."""
    if type(a) is not type(b):
        return f"{path}: {a!r} became {b!r}"
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return f"{path}: {str(a)[:300]} became {str(b)[:300]}"
        for k, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{k}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} became {b!r}"
