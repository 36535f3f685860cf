import numpy as np

from common import *

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of dataset structures and first lines on the real format-choice functions, against a decision table written from the property"
RULE = ("every dataset structure within the bounds without its index (also with the key order reversed and with its data in tuples, arrays and numpy scalars, and with missing optional parts), with its own index, with every other index, and with 0 and 5-8 independent variables: the chosen index, "
        "the index on the first line of the written file and the class that opens it; and files of every format with every number of ignored leading lines, including leading lines that look like a first line.")
BOUNDS = {"quick": "every structure of the thorough read bounds; ignored lines 0-6 with 5 contents", "thorough": "same with every comment layout"}
TIMEOUT = 60


def cases(tier):
    st = gen.structures("thorough")
    for f in spec.FFIS:
        sub = [s for s in st if s["ffi"] == f]
        for k in range(0, len(sub), 200):
            yield dict(kind="choose", ds=sub[k:k + 200])
    for s in gen.small_structures():
        yield dict(kind="write", d=s)
        yield dict(kind="keep", d=s)
        for ign in range(0, 7):
            yield dict(kind="open", d=s, ign=ign)
    for s in gen.structures("quick"):
        yield dict(kind="types", d=s)
    for niv in (0, 5, 6, 7, 8):
        yield dict(kind="niv", niv=niv)
    if tier == "thorough":
        for s in gen.structures("quick"):
            yield dict(kind="write", d=s)
            yield dict(kind="open", d=s, ign=2)


def ambiguous(s):
    """All marks have exactly one point (or the dataset has a mark without any): listing all points and listing the first one look the same."""
    return s["ffi"] in (2110, 2310) and (all(n == 1 for n in s["NX"]) or 0 in s["NX"])


def without(d):
    e = {k: v for k, v in d.items() if k not in ("FFI",)}
    return e


def variants(d):
    e = without(d)
    yield "plain", e
    yield "keys reversed", dict(reversed(list(e.items())))
    yield "FFI None", dict(e, FFI=None)
    m = {k: v for k, v in e.items() if k not in ("NLHEAD", "ONAME", "ORG", "SNAME", "MNAME", "SCOM", "NCOM", "NSCOML", "NNCOML", "RDATE", "DATE")}
    yield "only the structure", m
    for how in ("tuples", "arrays", "scalars"):
        yield "held in " + how, contained(e, how)


def first_item(path, ign=0):
    with open(path) as fh:
        return int(fh.read().split("\n")[ign].split()[1])


IGN = [["ignored"], ["12 1010"], ["30  2010"], ["a b", "20 4010 1"], ["0 0", "17    3010"], ["15 1001", "x", "", "15  1001"]]


def run(case):
    kind = case["kind"]
    if kind == "choose":
        n = 0
        for s in case["ds"]:
            if ambiguous(s):
                continue
            d = na_dict(s)
            for nm, e in variants(d):
                n += 1
                r0 = repr(e)
                try:
                    got = nappy.chooseFFI(e)
                except Exception as ex:
                    return dict(fail="chooseFFI of a %s dataset without index (%s) fails: %s" % (s["ffi"], s, tb(ex)), n=n)
                if got != s["ffi"]:
                    return dict(fail="chooseFFI gives %r for a %s dataset (%s, %s)" % (got, s["ffi"], s, nm), n=n)
                if repr(e) != r0:
                    return dict(fail="chooseFFI changes its argument (%s)" % s, n=n)
        return dict(n=n, sig=h(repr(case["ds"][0]["ffi"])))
    if kind == "write":
        d = na_dict(case["d"])
        f = case["d"]["ffi"]
        if ambiguous(case["d"]):
            return dict(n=1)
        write_na("ref.na", dict(d))
        n = 0
        for nm, e in variants(d):
            if nm == "only the structure":
                continue
            n += 1
            write_na("o.na", e)
            if text("o.na") != text("ref.na"):
                return dict(fail="a %s dataset without index (%s) is written differently from the one with it:\n%s\n%s" % (f, nm, text("o.na")[:600], text("ref.na")[:600]), n=n)
            if first_item("o.na") != f or nappy.readFFI("o.na", 0) != f:
                return dict(fail="first line of %s file: %s" % (f, text("o.na").split("\n")[0]), n=n)
        return dict(n=n, sig=h(text("o.na")))
    if kind == "keep":
        d = na_dict(case["d"])
        n = 0
        for f in spec.FFIS:
            n += 1
            fo = nappy.openNAFile("o.na", "w", na_dict=dict(d, FFI=f))
            cls = type(fo).__name__
            fo.close()
            if not issubclass(type(fo), nappy.getNAFileClass(f)) or str(f) not in cls:
                return dict(fail="a dataset with index %s is handled by class %s" % (f, cls), n=n)
        return dict(n=n, sig=h("keep%s" % case["d"]))
    if kind == "types":
        d = na_dict(case["d"])
        write_na("ref.na", dict(d))
        n = 0
        for tp in (np.int8, np.int16, np.int32, np.int64, np.uint16, np.uint32, np.uint64):
            if d["FFI"] > np.iinfo(tp).max:
                continue
            n += 1
            e = dict(d, FFI=tp(d["FFI"]))
            write_na("o.na", e)
            if text("o.na") != text("ref.na") or e["FFI"] != d["FFI"]:
                return dict(fail="a %s dataset with its index given as %s is written as %s:\n%s" % (d["FFI"], tp.__name__, e["FFI"], text("o.na")[:600]), n=n)
        return dict(n=n, sig=h("types%s" % case["d"]))
    if kind == "niv":
        n = 0
        for s in gen.small_structures():
            d = without(na_dict(s))
            d["NIV"] = case["niv"]
            n += 1
            try:
                got = nappy.chooseFFI(d)
                return dict(fail="a dataset with %d independent variables gets index %r" % (case["niv"], got), n=n)
            except Exception:
                pass
            try:
                fo = nappy.openNAFile("o.na", "w", na_dict=d)
                fo.write()
                fo.close()
                return dict(fail="a dataset with %d independent variables is written:\n%s" % (case["niv"], text("o.na")[:300]), n=n)
            except Exception:
                pass
        return dict(n=n, sig=h("niv%d" % case["niv"]))
    # opening with ignored lines
    ign = case["ign"]
    d = gen.build(case["d"])
    f = d["FFI"]
    body = spec.encode(d)
    n = 0
    for pool in IGN:
        n += 1
        lead = [pool[k % len(pool)] for k in range(ign)]
        put("f.na", "".join(x + "\n" for x in lead) + (body if n % 2 else spec.encode(d, dict(annot=1, indent="  ", sep="    "))))
        if ign == 0 and nappy.readFFI("f.na") != f:
            return dict(fail="readFFI gives %r for a %s file" % (nappy.readFFI("f.na"), f), n=n)
        if nappy.readFFI("f.na", ign) != f:
            return dict(fail="readFFI with %d ignored lines %r gives %r for a %s file" % (ign, lead, nappy.readFFI("f.na", ign), f), n=n)
        fo = nappy.openNAFile("f.na", ignore_header_lines=ign)
        fo.readData()
        e = fo.getNADict()
        fo.close()
        if fo.FFI != f or e["FFI"] != f or not isinstance(fo, nappy.getNAFileClass(f)):
            return dict(fail="file of index %s with %d ignored lines opened as %s (%s)" % (f, ign, fo.FFI, type(fo).__name__), n=n)
        msg = spec.diff(fmt_items(d, "%r") if f == 2310 else d, e)
        if msg:
            return dict(fail="%d ignored lines %r: %s" % (ign, lead, msg), n=n)
        for other in range(0, ign):                # not skipping enough lines must not find the file
            if lead[other:other + 1] and len(lead[other].split()) != 2:
                try:
                    got = nappy.readFFI("f.na", other)
                    return dict(fail="readFFI with %d ignored lines read %r from %r" % (other, got, lead[other]), n=n)
                except Exception:
                    pass
    return dict(n=n, sig=h(body + str(ign)))
