from common import *
from nch import *
import numpy as np
import xarray as xr

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of the variables of a dataset (all ordered selections from an alphabet of shapes) on the real conversion; the files are read by an independent decoder"
RULE = ("every ordered selection (with repetition) of up to 3 variables (thorough: 4) from an alphabet of shapes (scalar number and text, 1-D on axes that are equal, different, of equal length, subsets, of one element or without coordinates, 2-D to 4-D with axes in different orders), "
        "with bounds variables, auxiliary coordinates and numbering attributes as configurations, and every selection of up to 3 in-memory variables whose axes of the same name agree wholly, partly or not at all. "
        "All values differ, so each variable must be found exactly once in exactly one file, variables of one structure in the same file, scalars in a header, and the returned list must be the directory listing. Distinct = distinct output sets.")
BOUNDS = {"quick": "3 variables of 15 shapes and of 10 shapes with axes of one element; 3 in-memory variables of 9 forms; up to 129 variables and 101 groups", "thorough": "4 variables of 15 shapes unordered plus all orders of 3; configurations on all pairs; 3 in-memory variables of 12 forms"}
TIMEOUT = 60

DIMS = dict(t=dict(n=3, coord=[0, 1, 4]), x=dict(n=2, coord=[10, 20]), y=dict(n=2, coord=[10, 20]), u=dict(n=3, coord=[0, 1, 4]),
            l=dict(n=6, coord=[0, 1, 2, 3, 4, 5]), s=dict(n=3, coord=[0, 2, 4]), w=dict(n=3, coord=None), o=dict(n=1, coord=[4]), p=dict(n=1, coord=[20]), q=dict(n=1, coord=None))
SHAPES = ["t", "x", "tx", "xt", "", "y", "ty", "l", "s", "w", "txy", "T", "u", "xyt", "txyu"]
SHAPES1 = ["o", "p", "t", "to", "ot", "op", "pto", "", "topx", "q"]
FORMS = ["t0", "t1", "t2", "t0x0", "t1x0", "t0x1", "x0", "t3", "t0x0y0", "x1", "t2x1", "x0t0"]
MEMAX = dict(t=[[0., 1., 4.], [0., 1., 5.], [7., 8., 9.], [4., 1., 0.]], x=[[10., 20.], [10., 25.]], y=[[1., 2.]])
EXTRA = ["bounds", "aux2d", "scalarcoord", "num", "numdup", "numbig", "numrev", "auxnum", "samecoord", "ownatts"]


def cases(tier):
    big = tier == "thorough"
    k = len(SHAPES)
    for r in (1, 2, 3):
        for sel in itertools.product(range(k), repeat=r):
            yield dict(v=sel)
        for sel in itertools.product(range(len(SHAPES1)), repeat=r):
            yield dict(v=sel, one=1)
    if big:
        for sel in itertools.combinations_with_replacement(range(k), 4):
            yield dict(v=sel)
        for sel in itertools.combinations_with_replacement(range(len(SHAPES1)), 4):
            yield dict(v=sel, one=1)
    for r in (1, 2, 3):
        for sel in itertools.product(range(12 if big else 9), repeat=r):
            yield dict(m=sel)
    for x in EXTRA:
        for r in (1, 2):
            for sel in itertools.product(range(k), repeat=r):
                yield dict(v=sel, x=x)
        for sel in ([(0, 0, 0), (2, 2, 2), (0, 1, 0), (0, 2, 0, 2), (7, 8, 8), (7, 8, 7)] + ([] if not big else list(itertools.product(range(4), repeat=4)))):
            yield dict(v=sel, x=x)
    # two variables whose axes differ in exactly one respect
    for r in (1, 2, 3, 4):
        for i in range(r):
            for how in DIFF:
                for src in ("nc", "xr"):
                    yield dict(rank=r, axis=i, how=how, src=src)
                    if big:
                        for j in range(r):
                            for how2 in DIFF:
                                if j != i:
                                    yield dict(rank=r, axis=i, how=how, src=src, axis2=j, how2=how2)
    for i in range(len(ODD_NAMES)):
        for j in range(len(ODD_NAMES)):
            if i != j and (big or (i + j) % 2 or i + 1 == j):
                yield dict(odd=[i, j])
    for i in range(len(SCALARS)):
        for j in range(len(SCALARS)):
            yield dict(scalars=[i, j])
    for n in (40, 101, 129, 1002) if big else (40, 101, 129):
        yield dict(many=n)
    for n in (9, 10, 11, 12, 99, 100, 101, 129, 257) if big else (9, 10, 11, 12, 99, 100, 101):
        for kind in ("t", "tx", "mix"):
            yield dict(groups=n, kind=kind)


SCALARS = [("f8", 1234567890.125), ("f8", 1e300), ("f8", -1.25e-300), ("f8", 0.1), ("f8", 1 / 3), ("f4", 0.1), ("f8", 12345678901234567.0), ("i4", 2147483647), ("i4", -2147483648), ("i8", 2 ** 53), ("i8", 2 ** 53 + 1),
           ("i8", -2 ** 63), ("i8", 2 ** 63 - 1), ("i8", 1234567890123456789), ("u8", 2 ** 64 - 1), ("u1", 255), ("i1", -128), ("i2", -32768), ("u4", 4294967295), ("f8", -0.0), ("i4", 0), ("f8", 1e16), ("f8", 123456.789012345)]
DIFF = ["case", "name", "first", "middle", "last", "longer", "shorter", "tiny", "units"]


def ranked(case):
    r = case["rank"]
    dims, vs = {}, []
    for k, suffix in enumerate(("", "2", "")):
        names = []
        for i in range(r):
            name, vals = "abcde"[i], [10.0 * i + c for c in (0.0, 1.0, 2.5)]
            for w, ax in (("how", "axis"), ("how2", "axis2")):
                if k == 1 and case.get(ax) == i:
                    name = name.upper() if case[w] == "case" else name + "2"
                    how = case[w]
                    vals = dict(name=vals, case=vals, first=[vals[0] - 0.5] + vals[1:], middle=[vals[0], vals[1] + 0.25, vals[2]], last=vals[:2] + [vals[2] + 1], longer=vals + [vals[2] + 1.5], shorter=vals[:2],
                                units=vals, tiny=vals[:2] + [vals[2] * (1 + 1e-9)])[how]
            dims[name] = dict(n=len(vals), coord=vals)
            names.append(name)
        n = size([dims[d]["n"] for d in names])
        vs.append(dict(name="v%d" % k, dims=names, data=counted(n, 1000.0 * (k + 1) + 0.5), attrs={}))
    return dict(dims=dims, vars=vs, gattrs={})


def build(case):
    dims, vs = {}, []
    x = case.get("x")
    for i, k in enumerate(case["v"]):
        s = (SHAPES1 if case.get("one") else SHAPES)[k]
        name = "v%d" % i
        if s == "T":
            vs.append(dict(name=name, dims=[], dtype="S", data="text of %d" % i, attrs={}))
            continue
        for d in s:
            dims.setdefault(d, dict(DIMS[d]))
        n = size([DIMS[d]["n"] for d in s])
        vs.append(dict(name=name, dims=list(s), data=counted(n, 1000.0 * (i + 1) + 0.5), attrs={}))
    if x == "bounds" and dims:
        d = sorted(dims)[0]
        if dims[d]["coord"] is not None:
            dims[d]["attrs"] = dict(bounds=d + "_bnds")
            dims["nv"] = dict(n=2, coord=None)
            vs.append(dict(name=d + "_bnds", dims=[d, "nv"], data=counted(2 * dims[d]["n"], 77000.0), attrs={}, skip=1))
    elif x == "aux2d":
        dims.setdefault("t", dict(DIMS["t"]))
        dims.setdefault("x", dict(DIMS["x"]))
        vs.append(dict(name="lat2", dims=["t", "x"], data=counted(6, 88000.0), attrs={}))
        for v in vs[:-1]:
            if v["dims"] and set("tx") <= set(v["dims"]):
                v["attrs"]["coordinates"] = "lat2"
    elif x == "scalarcoord":
        vs.append(dict(name="height", dims=[], data=[2.25], attrs=dict(units="m")))
        for v in vs[:-1]:
            if v["dims"]:
                v["attrs"]["coordinates"] = "height"
    elif x in ("num", "numdup", "numbig", "numrev"):
        for i, v in enumerate(vs):
            if v["dims"]:
                v["attrs"]["nasa_ames_var_number"] = {"i4": dict(num=i, numdup=0, numbig=999 + i, numrev=len(vs) - i)[x]}
    elif x == "auxnum":
        for i, v in enumerate(vs):
            if len(v["dims"]) == 1 and i:
                v["attrs"]["nasa_ames_aux_var_number"] = {"i4": i}
    elif x == "ownatts":
        # scalars with attributes of their own, also called like what is reported of them
        for i in range(3):
            vs.append(dict(name="s%d" % i, dims=[], data=[10.5 + i], attrs=[dict(value="nominal"), dict(value={"f8": 5.0}, name="n", units="m"), dict(long_name="Level (m)", values="1, 2", Value="x")][i]))
        vs.append(dict(name="st", dims=[], dtype="S", data="text of st", attrs=dict(value="v")))
    elif x == "samecoord":
        for d in dims:
            dims[d]["coord"] = None
    return dict(dims=dims, vars=vs, gattrs={})


def run(case):
    if "many" in case:
        n = case["many"]
        ds = dict(dims=dict(t=dict(DIMS["t"])), vars=[dict(name="v%d" % i, dims=["t"], data=counted(3, 10.0 * i), attrs=dict(nasa_ames_var_number={"i4": i}) if i % 3 else {}) for i in range(n)])
    elif "odd" in case:
        # two variables, a scalar and a dimension with these names
        a, b = (ODD_NAMES[i] for i in case["odd"])
        ds = dict(dims={"t": dict(DIMS["t"]), b: dict(n=2, coord=[5, 7], attrs={})}, gattrs={}, vars=[
            dict(name="w", dims=["t"], data=counted(3, 10.5), attrs={}), dict(name=a, dims=["t"], data=counted(3, 20.5), attrs={}),
            dict(name="w2", dims=["t", b], data=counted(6, 30.5), attrs={}), dict(name=a + "2", dims=[], data=[40.5], attrs={})])
    elif "scalars" in case:
        # scalars of every type with as many digits as they hold
        ds = dict(dims={"t": dict(DIMS["t"])}, gattrs={}, vars=[dict(name="w", dims=["t"], data=counted(3, 10.5), attrs={})] + [
            dict(name="s%d" % k, dims=[], dtype=SCALARS[i][0], fill=None, raw=[SCALARS[i][1]], data=[SCALARS[i][1]], attrs={}) for k, i in enumerate(case["scalars"])])
    elif "groups" in case:
        # many structures
        n = case["groups"]
        dims, vs = {"x": dict(DIMS["x"])}, []
        for i in range(n):
            d = "t%d" % i
            dims[d] = dict(n=2 + i % 3, coord=[1.0 * i, 2.0 * i + 1, 5.0 * i + 7][:2] + [9.0 * i + 11 + j for j in range(i % 3)], attrs={})
            for k in range(2 if i % 4 == 1 else 1):
                s = [d] + (["x"] if case["kind"] == "tx" or case["kind"] == "mix" and i % 2 else [])
                vs.append(dict(name="v%d_%d" % (i, k), dims=s, data=counted(size([dims[e]["n"] for e in s]), 100.0 * (len(vs) + 1) + 0.5), attrs={}))
        ds = dict(dims=dims, vars=vs, gattrs={})
    elif "m" in case:
        objs, vs = [], []
        for i, k in enumerate(case["m"]):
            f = FORMS[k]
            ax = [(f[j], MEMAX[f[j]][int(f[j + 1])]) for j in range(0, len(f), 2)]
            data = counted(size([len(a[1]) for a in ax]), 1000.0 * (i + 1) + 0.5)
            objs.append(xr.DataArray(np.array(data).reshape([len(a[1]) for a in ax]), dims=[a[0] for a in ax], coords={a[0]: a[1] for a in ax}, name="v%d" % i))
            vs.append((("v%d" % i), ax, data))
    elif "rank" in case:
        ds = ranked(case)
        if case["src"] == "xr":
            # the differing axis has the same name
            objs, vs = [], []
            for v in ds["vars"]:
                ax = [(d[0], ds["dims"][d]["coord"]) for d in v["dims"]]
                if case["how"] == "name":
                    ax = [(d, ds["dims"][d]["coord"]) for d in v["dims"]]
                objs.append(xr.DataArray(np.array(v["data"]).reshape([len(a[1]) for a in ax]), dims=[a[0] for a in ax], coords={a[0]: (a[0], a[1], {"units": "km" if v["name"] == "v1" and case["how"] == "units" and i == case["axis"] else "m"}) for i, a in enumerate(ax)}, name=v["name"]))
                vs.append((v["name"], ax, v["data"], [(a[0] + (" (km)" if v["name"] == "v1" and case["how"] == "units" and i == case["axis"] else " (m)")) for i, a in enumerate(ax)]))
            case = dict(case, m=1)
    else:
        ds = build(case)
    os.mkdir("out")
    try:
        if "m" in case:
            names = nappy.convertXarrayObjectsToNA(objs, [], "out/o.na")
        else:
            make_nc("i.nc", ds)
            names = nappy.convertNCToNA("i.nc", "out/o.na")
    except Exception as e:
        return dict(fail="conversion fails: " + tb(e), key="fails %s" % case_label(case))
    listing = sorted("out/" + f for f in os.listdir("out"))
    if sorted(names) != listing:
        return dict(fail="returned %s, written %s" % (names, listing))
    if "m" in case:
        return mem(vs, names)
    arrays = [v for v in ds["vars"] if v["dims"] and not v.get("skip")]
    if not arrays:
        if names:
            return dict(fail="files %s for scalars only" % names)
        return dict(sig="none")
    try:
        files = read_all(names)
    except Exception as e:
        return dict(fail="invalid output: " + tb(e))
    msg, found = match_vars(ds, files)
    if msg:
        return dict(fail=msg)
    by = {}
    for v in arrays:
        by.setdefault(tuple(v["dims"]), set()).add(found[v["name"]][0])
    for k, s in by.items():
        if len(s) > 1:
            return dict(fail="variables on %s are spread over files %s" % (k, sorted(s)))
    lines = [l.strip() for f in files for l in f.d["SCOM"]]
    for v in ds["vars"]:
        if not v["dims"]:
            val = "value = " + (v["data"] if isinstance(v["data"], str) else repr(float(v["data"][0])))
            if "scalars" in case:
                # the variable's own line, with a number that is exactly that value
                at = [i for i, l in enumerate(lines) if l.startswith("Variable %s:" % v["name"])]
                part = lines[at[0] + 1:] if at else []
                part = part[:next((i for i, l in enumerate(part) if l.startswith(("Variable ", "==="))), len(part))]
                x = np.array(v["data"], v["dtype"]).item()
                got = [l[8:] for l in part if l.startswith("value = ")]
                if len(got) != 1 or not exactly(got[0], x):
                    return dict(fail="scalar variable %s = %r (%s): %s in %s" % (v["name"], x, v["dtype"], got, lines))
            elif val not in lines:
                return dict(fail="scalar variable %s: no line %r in %s" % (v["name"], val, lines))
    x = case.get("x")
    if x in ("num", "numrev") and "many" not in case:
        for f in files:
            order = [v.full for v in f.vars]
            if [o[:2] for o in order] != sorted([o[:2] for o in order], reverse=(x == "numrev")):
                return dict(fail="numbered variables in order %s" % order)
    return dict(sig=h(repr([(f.ffi, [(v.kind, v.data.tolist()) for v in f.all()]) for f in files])))


def mem(vs, names):
    try:
        files = read_all(names)
    except Exception as e:
        return dict(fail="invalid output: " + tb(e))
    left = [(i, v) for i, f in enumerate(files) for v in f.all()]
    by = {}
    for name, ax, data, *full in vs:
        hit = [(i, o) for i, o in left if o.data.size == len(data) and same(o.data.ravel(), data)]
        if len(hit) != 1:
            return dict(fail="%d variables with the values of %s; files hold %s" % (len(hit), name, [(f.ffi, [(v.full, v.data.tolist()) for v in f.all()]) for f in files]))
        i, o = hit[0]
        if [len(a[1]) for a in ax] != list(o.data.shape) or any(not same(a[1], b[1]) for a, b in zip(ax, o.axes)):
            return dict(fail="%s on axes %s instead of %s" % (name, [list(b[1]) for b in o.axes], ax))
        if full and [b[0] for b in o.axes] != full[0]:
            return dict(fail="%s on axes called %s instead of %s" % (name, [b[0] for b in o.axes], full[0]))
        left = [l for l in left if l[1] is not o]
        by.setdefault(repr([ax, full]), set()).add(i)
    if left:
        return dict(fail="surplus variables %s" % [o.full for i, o in left])
    for k, s in by.items():
        if len(s) > 1:
            return dict(fail="variables on %s are spread over files %s" % (k, sorted(s)))
    return dict(sig=h(repr([(f.ffi, [(v.kind, v.data.tolist()) for v in f.all()]) for f in files])))


def exactly(t, x):
    from decimal import Decimal
    try:
        return float(t) == x or Decimal(t) == x
    except Exception:
        return False


def case_label(c):
    return json_key(c)


def json_key(c):
    import json
    return json.dumps(c, sort_keys=True)
