"""Helpers shared by the checks.  Only the public API of nappy is used."""
import copy
import hashlib
import itertools
import os
import traceback

import nappy

import gen
import spec


def read_na(path, ignore=0, **kw):
    """Open, read the data, return the dictionary (deep copy)."""
    f = nappy.openNAFile(path, ignore_header_lines=ignore, **kw) if ignore or kw else nappy.openNAFile(path)
    try:
        f.readData()
        return copy.deepcopy(f.getNADict())
    finally:
        f.close()


def write_na(path, d, **kw):
    f = nappy.openNAFile(path, "w", na_dict=d)
    try:
        f.write(**kw)
    finally:
        f.close()


def text(path):
    with open(path) as fh:
        return fh.read()


def put(path, s):
    with open(path, "w") as fh:
        fh.write(s)
    return path


def h(s):
    return hashlib.md5(s.encode() if isinstance(s, str) else s).hexdigest()[:12]


def err(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])


def tb(e):
    return "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])


def combos(**axes):
    """All dictionaries over the given axes, the last axis varying fastest."""
    keys = list(axes)
    for vals in itertools.product(*[axes[k] for k in keys]):
        yield dict(zip(keys, vals))


def deviations(base, axes, k):
    """All dictionaries that differ from `base` in at most k of the axes {name: alternatives}, fewest deviations first."""
    names = list(axes)
    for r in range(k + 1):
        for sel in itertools.combinations(names, r):
            for vals in itertools.product(*[axes[s] for s in sel]):
                d = dict(base)
                d.update(zip(sel, vals))
                yield d


# --------------------------------------------------------------------------- datasets in nappy's in-memory convention

def na_dict(desc, nlhead=0):
    """Dictionary that a user hands to nappy for the dataset of a descriptor (FFI 2310 holds only the first bounded value)."""
    d = gen.build(desc)
    return to_dict(d, nlhead)


def to_dict(d, nlhead=0):
    d = copy.deepcopy(d)
    if d["FFI"] == 2310:
        d["X"] = [[x, [s]] for (x, _), s in zip(d["X"], d["A"][1])]
        d["DX"] = d["DX"][:1] + list(d["A"][2])
    d["NLHEAD"] = nlhead
    return d


def fmt_items(d, fmt):
    """The dataset as it reads back after its data and axis numbers went through a float format."""
    e = copy.deepcopy(d)

    def r(v, miss=None):
        if isinstance(v, list):
            return [r(x, miss) for x in v]
        if isinstance(v, str):
            return v
        if miss is not None and v == miss:
            return v
        return float(fmt % v)
    f = e["FFI"]
    if f in spec.RAGGED:
        e["X"] = [[r(p[0]), r(p[1])] for p in e["X"]]
    else:
        e["X"] = r(e["X"])
    e["V"] = [r(v, e["VMISS"][n]) for n, v in enumerate(e["V"])]
    if "A" in e:
        e["A"] = [r(v, None if isinstance(e["AMISS"][a], str) else e["AMISS"][a]) for a, v in enumerate(e["A"])]
    if f == 2310:
        e["X"] = [[p[0], [s]] for p, s in zip(e["X"], e["A"][1])]
        e["DX"] = e["DX"][:1] + e["A"][2]
    return e


def lines_of(t):
    l = t.split("\n")
    if l and l[-1] == "":
        l.pop()
    return l


# --------------------------------------------------------------------------- the same dataset held in other containers

def contained(d, kind):
    """The dictionary with its data in tuples ("tuples") or numpy arrays ("arrays"), or with all its numbers and texts as numpy scalars ("scalars")."""
    import numpy as np

    def tup(v):
        return tuple(tup(i) for i in v) if isinstance(v, list) else v

    def arr(v):
        if not isinstance(v, list):
            return v
        n = [arr(i) for i in v]
        if n and not any(isinstance(i, (str, list)) for i in n) and len({getattr(i, "shape", ()) for i in n}) == 1:
            return np.array(n)
        return n

    def sca(v):
        if isinstance(v, list):
            return [sca(i) for i in v]
        return np.int64(v) if type(v) is int else np.float64(v) if type(v) is float else np.str_(v) if type(v) is str else v

    if kind == "scalars":
        return {k: sca(v) for k, v in d.items()}
    f = {"tuples": tup, "arrays": arr}[kind]
    return {k: f(v) if k in ("X", "A", "V") else v for k, v in d.items()}


def frozen(v):
    """A value that is equal exactly if the containers, types and contents are."""
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [frozen(x) for x in v])
    if hasattr(v, "tolist"):
        return (type(v).__name__, str(v.dtype), repr(v.tolist()))
    return (type(v).__name__, repr(v))
