from common import *
from nch import *
from ncu import NC
import c16
import c20
import c25
import cftime
import numpy as np
import xarray as xr

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of variable lists, axes, value types, attributes and options: every case is run through the in-memory route and through the file route of the real code, and the two results are compared"
RULE = ("Writing: every axis (plain, integer, none, dates of several kinds, numeric times, time differences) x every value type (float, single, integers, missing, logical, dates, time differences, infinite); every list of <=3 variables (in every order) out of a pool of 1-D, 2-D, transposed, scalar, text, auxiliary, packed and coordinate variables; every attribute shape on variables and globally; datasets opened from files in several ways; x NASA Ames / CSV x options. "
        "Oracle: the same list of files with the same bytes as saving the variables with xarray and converting that file; or both refuse; the variables given are unchanged; a whole dataset given to the dataset converter gives what its variables and coordinates that are no dimensions give as a list. "
        "Reading: every convertible format x structures x missing values, scaling, names and axis names x: readXarrayObjectsFromNA gives in order what the NetCDF conversion contains (values, missing elements, dimensions, coordinates, attributes, global attributes), writing these gives what converting the NetCDF file gives; getXarrayVariableFromNA by number and by each name gives that variable; writeNADictToNC of the dictionary (as built, as read, without format; new file, existing file, appending) gives what converting the written file gives and leaves the dictionary unchanged. Distinct = distinct outputs.")
BOUNDS = {"quick": "lists of <=3 of 12 variables, single options; small structures", "thorough": "lists of <=4, pairs of options; all structures of the quick tier"}
TIMEOUT = 120
CONV = (1001, 1010, 1020, 2010, 3010, 4010)
DATES = ["2001-02-03", "2001-02-04", "2001-02-06"]
AXES = ["num", "int", "none", "date", "dateh", "cf", "f4", "rawtime", "diff", "dateunits", "desc", "lat"]
VALS = ["f8", "f4", "i4", "i8", "nan", "bool", "date", "u1", "diff", "inf", "allnan", "big", "str", "cf"]
POOL = ["a", "b", "x", "c", "cT", "s", "txt", "si", "aux", "fill", "pack", "tc", "d3", "sel", "date", "xaux"]
OPT = [{}, {"requested_ffi": 1001}, {"requested_ffi": 2010}, {"requested_ffi": 1010}, {"size_limit": 2}, {"annotation": True}, {"no_header": True}, {"float_format": "%.3f"}, {"na_items_to_override": {"MNAME": "m n", "DATE": [1, 2, 3]}}, {"delimiter": ","}, {"delimiter": ";"}, {"delimiter": "\t", "size_limit": 1}]
ATTS = [("long_name", "L l"), ("long_name", ""), ("units", ""), ("units", 5), ("k", [1, 2]), ("k", {"f4": 0.1}), ("k", "a\nb"), ("k", ""), ("standard_name", "std"), ("title", "t t"), ("valid_range", {"f8": [1.0, 2.0]}), ("k", ["a", "b"]), ("k", 1.0), ("k", 10 ** 6), ("k", 1e-10),
        ("k", {"i8": 5}), ("history", "h1\nh2"), ("comment", "c1\nc2"), ("source", "src"), ("institution", "inst"), ("k", "x: y = z"), ("nasa_ames_var_number", 0), ("calendar", "none"), ("name", "nn"), ("id", "ii"), ("short_name", "sn"), ("first_valid_date_of_data", {"i4": [2001, 2, 3]}), ("positive", "up"), ("axis", "T"), ("axis", "Z")]
XN = [None, ["Time (seconds)"], ["Time (hours since 2001-02-03 00:00:00)"], ["Latitude (degrees)", "Longitude (degrees)", "level (hPa)", "time (days since 2000-01-01)"], ["a b (c)", "a b (d)", "a-b", "a/b"]]
VN = [["1 (m)", "0 (m)"], ["1", "0"], ["A (m)", "a (m)"], ["None", "99"], ["u,v (m)", "u"], ["a (m) b", "a b (m)"]]
VAR = [{}, dict(miss=[["V", 0, 1]]), dict(scal=1, vals="frac"), dict(names="brace", head="brace", comm="rich"), dict(scal=1, miss=[["V", 0, 0]], names="short")]


def cases(tier):
    big = tier == "thorough"
    for a in AXES:
        for v in VALS:
            for csv in (0, 1):
                for o in range(len(OPT)) if big or not csv else (0, 4, 10):
                    yield dict(t="one", a=a, v=v, csv=csv, o=o)
    for r in range(1, 5 if big else 4):
        for sel in (itertools.permutations if r < 4 else itertools.combinations)(range(len(POOL)), r):
            if r == 3 and not big and (sum(sel) + sel[0] * 3 + sel[1]) % 3:
                continue
            yield dict(t="list", sel=list(sel), o=0, csv=(sum(sel) + r) % 2)
    for sel in itertools.permutations(range(len(POOL)), 2):
        for o in range(1, len(OPT)):
            if big or (sum(sel) * 7 + sel[0] + o) % 3 == 0:
                yield dict(t="list", sel=list(sel), o=o, csv=(sum(sel) + o) % 2)
    for i in range(len(ATTS)):
        for j in range(i, len(ATTS)):
            if i != j and ATTS[i][0] == ATTS[j][0]:
                continue
            for where in ("var", "glob", "both", "coord"):
                yield dict(t="att", i=i, j=j, where=where)
    for kind in list(c16.KIND) + ["c25." + k for k in c25.KINDS]:
        for n in (1, 2, 3, 5):
            for how in ("cftime", "default", "raw", "load"):
                for names in ("variables", "data_vars", "reversed"):
                    for o in (0, 4, 5) if not big else range(len(OPT)):
                        yield dict(t="file", kind=kind, n=n, how=how, names=names, o=o)
    for kind in list(c16.KIND) + ["c25." + k for k in c25.KINDS]:
        for n in (1, 2, 3, 5):
            for how in ("cftime", "default", "raw"):
                for o in range(5):
                    yield dict(t="dset", kind=kind, n=n, how=how, o=o)
    for coords in (c for r in range(4) for c in itertools.combinations(range(len(COORDS)), r)):
        for data in (1, 2, 3):
            for o in range(5):
                yield dict(t="dset", coords=list(coords), data=data, o=o)
    small = gen.small_structures(CONV)
    for s in small:
        for v in range(len(VAR)):
            for x in range(len(XN)):
                for w in ("read", "get", "dict", "back"):
                    yield dict(t=w, d=s, v=v, x=x)
        for vn in range(len(VN)):
            for w in ("read", "get", "dict", "back"):
                for nv in (2, 3):
                    yield dict(t=w, d=dict(s, NV=nv), v=0, x=0, vn=vn)
    for s in gen.samples(CONV):
        for w in ("read", "get", "dict", "back"):
            yield dict(t=w, d=s, v=0, x=0)
    for s in gen.structures("quick", CONV):
        for v in range(len(VAR)) if big else (sum(len(str(q)) for q in s.values()) % 3,):
            for w in ("read", "get", "dict", "back"):
                yield dict(t=w, d=s, v=v, x=0, few=0 if big else 1)


# ------------------------------------------------------------------ variables in memory

def dates(l=DATES):
    return np.array(l, "M8[ns]")


def diffs():
    return np.array([1, 2, 4], "m8[D]").astype("m8[ns]")


def axis(kind):
    A = lambda d, **at: xr.DataArray(d, dims="t", attrs=at)
    if kind == "none":
        return {}
    if kind == "dateunits":
        c = xr.DataArray([1.0, 2.0, 3.0], dims="t", coords={"t": dates()})
        c["t"].encoding["units"] = "hours since 2000-01-01"
        return {"t": c["t"]}
    return {"t": {"num": lambda: A([0.0, 10.0, 25.0], units="m"), "int": lambda: A([1, 2, 4]), "date": lambda: A(dates(), long_name="the time"), "dateh": lambda: A(dates(["2001-02-03T12:00:00", "2001-02-04T00:00:30", "2001-02-06"])),
                  "cf": lambda: A([cftime.DatetimeNoLeap(2001, 2, 3 + i) for i in range(3)]), "f4": lambda: A(np.array([0.5, 0.25, 3.1], "f4")), "rawtime": lambda: A([0.0, 1.0, 2.0], units="days since 2001-02-03"),
                  "diff": lambda: A(diffs(), long_name="since start"), "desc": lambda: A([3.0, 2.0, 1.0], standard_name="height"), "lat": lambda: A([10.0, 20.0, 30.0], standard_name="latitude", units="degrees_north")}[kind]()}


def values(kind):
    return {"f8": lambda: np.array([1.5, 2.5, 3.5]), "f4": lambda: np.array([0.1, 0.2, 0.3], "f4"), "i4": lambda: np.array([1, 2, 3], "i4"), "i8": lambda: np.array([1, 2, 3]), "nan": lambda: np.array([1.0, np.nan, 3.0]),
            "bool": lambda: np.array([True, False, True]), "date": dates, "u1": lambda: np.array([1, 2, 255], "u1"), "diff": diffs, "inf": lambda: np.array([1.0, np.inf, 3.0]), "allnan": lambda: np.array([np.nan] * 3),
            "big": lambda: np.array([-1e20, 1e300, -1e-300]), "str": lambda: np.array(["x", "yy", "z"]), "cf": lambda: np.array([cftime.DatetimeNoLeap(2001, 2, 3 + i) for i in range(3)])}[kind]()


def pool(name):
    t = xr.DataArray(dates(), dims="time", attrs={"long_name": "the time", "standard_name": "time"})
    x = xr.DataArray([1.0, 2.0], dims="x", attrs={"units": "m"})
    size = {"time": 3, "x": 2, "z": 2}

    def A(nm, dims, base, dtype="f8", **at):
        sh = [size[d] for d in dims]
        return xr.DataArray((np.arange(int(np.prod(sh))).reshape(sh) + base).astype(dtype), dims=dims, name=nm, coords={d: {"time": t, "x": x}[d] for d in dims if d != "z"}, attrs=at)
    if name == "a":
        return A("a", ["time"], 100.5)
    if name == "b":
        return A("b", ["time"], 200, "i4", units="K", long_name="the b")
    if name == "x":
        return A("on_x", ["x"], 300.25)
    if name == "c":
        return A("c", ["time", "x"], 400.0, units="kg")
    if name == "cT":
        return A("cT", ["time", "x"], 500.0).T
    if name == "s":
        return xr.DataArray(5.5, name="s", attrs={"units": "kg"})
    if name == "si":
        return xr.DataArray(np.int32(7), name="si", attrs={"note": "n"})
    if name == "txt":
        return xr.DataArray("hello", name="txt")
    if name == "aux":
        return A("aux", ["time"], 600.0, nasa_ames_aux_var_number=0)
    if name == "xaux":
        return A("xaux", ["time", "x"], 650.0, nasa_ames_var_number=1, units="u")
    if name in ("fill", "pack"):
        v = A(name, ["time"], 710.5)
        v.encoding.update(dict(_FillValue=-99.0, dtype="f4") if name == "fill" else dict(_FillValue=-99, dtype="i2", scale_factor=0.5, add_offset=10.0))
        v[1] = np.nan
        return v
    if name == "tc":
        return t.assign_coords(time=t).rename("time")
    if name == "d3":
        return A("d3", ["time", "z", "x"], 800.0)
    if name == "sel":
        return A("sel", ["time", "x"], 900.0).isel(x=1)
    if name == "date":
        return xr.DataArray(dates(["2001-03-01", "2001-03-02", "2001-03-05"]), dims="time", name="date", coords={"time": t})
    raise ValueError(name)


def value(v):
    return attr(v) if isinstance(v, dict) else v


def routes(vs, gattrs, kw, csv, names=None, path=None):
    """(outcome of the in-memory route, outcome of the file route or None); an outcome is an exception or [(name, text)] in the order returned."""
    def collect(f):
        before = c16.tree()
        try:
            ret = f()
            new = c16.tree() - before
            ret = [os.path.normpath(p) for p in ret]
            if sorted(ret) != sorted(new):
                return "returned %s, wrote %s" % (ret, sorted(new))
            return [(p, c16.norm(text(p))) for p in ret]
        except Exception as e:
            return e
        finally:
            for p in c16.tree() - before:
                os.remove(p)
    out = "o.csv" if csv else "o.na"
    names = names or [v.name for v in vs]
    if path is None:
        path = "saved.nc"
        if os.path.exists(path):
            os.remove(path)
        try:
            ds = xr.Dataset({v.name: v for v in vs}, attrs=dict(gattrs))
            ds.to_netcdf(path)
            with xr.open_dataset(path, use_cftime=True, decode_timedelta=False) as ds:
                ds.load()
        except Exception:
            return None, None                   # xarray cannot save (or read back) these
    mem = collect(lambda: (nappy.convertXarrayObjectsToCSV if csv else nappy.convertXarrayObjectsToNA)(vs, gattrs, out, **copy.deepcopy(kw)))
    fil = collect(lambda: (nappy.convertNCToCSV if csv else nappy.convertNCToNA)(path, out, var_ids=names, **copy.deepcopy(kw)))
    return mem, fil


def numbers_equal(a, b):
    """Same text up to the way numbers are written (10 or 10.0)."""
    la, lb = a.split("\n"), b.split("\n")
    if len(la) != len(lb):
        return False
    for x, y in zip(la, lb):
        if x != y:
            p, q = x.replace(",", " ").split(), y.replace(",", " ").split()
            if len(p) != len(q):
                return False
            for i, j in zip(p, q):
                if i != j:
                    try:
                        if float(i) != float(j):
                            return False
                    except ValueError:
                        return False
    return True


def check_write(vs, gattrs, kw, csv, names=None, path=None, lenient=False):
    copies = [v.copy(deep=True) for v in vs]
    enc = [copy.deepcopy((v.encoding, {k: c.encoding for k, c in v.coords.items()})) for v in vs]
    g = copy.deepcopy(gattrs)
    mem, fil = routes(vs, gattrs, kw, csv, names, path)
    if mem is None:
        return dict(n=0, sig="not saved")
    for v, c, e in zip(vs, copies, enc):
        if not v.identical(c) or repr(e) != repr((v.encoding, {k: x.encoding for k, x in v.coords.items()})):
            return dict(fail="the variable given was changed: %s" % v.name, n=2)
    if repr(g) != repr(gattrs):
        return dict(fail="the global attributes given were changed", n=2)
    if isinstance(fil, Exception) and isinstance(mem, Exception):
        return dict(n=2, transitions=2, sig="refused %s" % type(fil).__name__)
    if isinstance(mem, Exception):
        return dict(fail="in memory: %s; the file is converted to %s" % (tb(mem), [p for p, t in fil]), n=2)
    if isinstance(fil, Exception):
        return dict(fail="in memory: %s; from the file: %s" % (mem if isinstance(mem, str) else [p for p, t in mem], tb(fil)), n=2)
    if isinstance(mem, str) or isinstance(fil, str):
        return dict(fail="in memory: %s; file: %s" % (mem, fil), n=2) if isinstance(mem, str) else dict(fail=fil, n=2)
    if [p for p, t in mem] != [p for p, t in fil]:
        return dict(fail="in memory gives %s, the file %s" % ([p for p, t in mem], [p for p, t in fil]), n=2)
    for (p, a), (q, b) in zip(mem, fil):
        if a != b and not (lenient and numbers_equal(a, b)):
            return dict(fail="%s from memory:\n%s\n--- from the saved file ---\n%s" % (p, a[:2000], b[:2000]), n=2)
    return dict(n=2, transitions=2, states=len(mem), sig=[h(t) for p, t in mem])


def run_att(case):
    at = [(k, value(v)) for k, v in (ATTS[case["i"]], ATTS[case["j"]])]
    vs = [pool("b"), pool("c")]
    if case["where"] == "coord":
        vs = [xr.DataArray([1.5, 2.5, 3.5], dims="q", coords={"q": xr.DataArray([1.0, 2.0, 4.0], dims="q", attrs=dict(at))}, name="v")]
    if case["where"] in ("var", "both"):
        vs[0].attrs.update(dict(at))
        vs[1].attrs.update(dict(at[:1]))
    return check_write(vs, [(k, v) for k, v in dict(at).items()] if case["where"] in ("glob", "both") else [], {}, case["i"] % 2)


def run_file(case):
    kind = case["kind"]
    d = c25.dataset(kind[4:]) if kind.startswith("c25.") else c16.build(dict(kind=kind, n=case["n"]))
    make_nc("i.nc", d)
    kw = {"cftime": dict(use_cftime=True, decode_timedelta=False), "default": {}, "load": {}, "raw": dict(decode_times=False)}[case["how"]]
    with xr.open_dataset("i.nc", **kw) as ds:
        names = list(ds.variables if case["names"] == "variables" else ds.data_vars)
        vs = [ds[n] for n in names]
        if case["how"] == "load":
            vs = [v.load() for v in vs]
        if case["names"] == "reversed":
            # a file has the order it has: write the variables to another one
            vs = vs[::-1]
            return check_write([v.load() for v in vs], list(ds.attrs.items()), OPT[case["o"]], 0, lenient=case["how"] == "raw")
        return check_write(vs, list(ds.attrs.items()), OPT[case["o"]], 0, names=names, path="i.nc", lenient=case["how"] == "raw")


# coordinates of a dataset that are no dimensions
COORDS = [("b2", ("x", "y")), ("b1", ("x",)), ("s", ()), ("c1", ("y",)), ("c2", ("y", "x")), ("d3", ("x", "y", "z")), ("e2", ("x", "z"))]
DOPT = [({}, {}), (dict(requested_ffi=1001), {}), (dict(na_items_to_override={"MNAME": "m n"}), {}), ({}, dict(size_limit=2)), ({}, dict(delimiter=",", float_format="%.6g"))]


def contents_of(paths):
    """What files hold, whatever the order."""
    out = []
    for f in read_all(paths):
        for o in f.all():
            out.append((" ".join(o.full.split()), tuple((" ".join(n.split()), tuple(np.ravel(v).tolist())) for n, v in o.axes), repr(np.asarray(o.data, float).tolist())))
    return sorted(out)


def run_dset(case):
    """A whole dataset gives what the list of its variables (coordinates that are no dimensions included) gives."""
    from nappy.nc_interface.xarray_to_na import XarrayDatasetToNA
    size = dict(x=3, y=2, z=2)
    if "coords" in case:
        def of(dims, base):
            sh = [size[d] for d in dims]
            return (list(dims), np.arange(int(np.prod(sh))).reshape(sh) * 1.5 + base, {"units": "K"})
        used = [COORDS[i] for i in case["coords"]]
        data = [("a", ("x", "y")), ("d", ("x", "y", "z")), ("e", ("z",))][:case["data"]]
        have = set(k for _, dims in data for k in dims)
        used = [(n, dims) for n, dims in used if set(dims) <= have]
        co = {k: ([k], np.arange(size[k]) * 2.0 + ord(k), {"units": "m"}) for k in sorted(have)}
        co.update({n: of(dims, 100.0 * i + 50) for i, (n, dims) in enumerate(used)})
        ds = xr.Dataset({n: of(dims, 1000.0 * (i + 1)) for i, (n, dims) in enumerate(data)}, coords=co, attrs={"title": "T", "note": "n"})
    else:
        kind = case["kind"]
        make_nc("i.nc", c25.dataset(kind[4:]) if kind.startswith("c25.") else c16.build(dict(kind=kind, n=case["n"])))
        kw = {"cftime": dict(use_cftime=True, decode_timedelta=False), "default": {}, "raw": dict(decode_times=False)}[case["how"]]
        with xr.open_dataset("i.nc", **kw) as ds:
            ds.load()
    vs = [ds[k] for k in ds.data_vars]
    vs += [ds[k] for k in ds.coords if k not in ds.dims and any(k in v.coords for v in vs)]
    kw, wkw = DOPT[case["o"]]
    before = ds.copy(deep=True)
    got = want = None
    try:
        os.mkdir("w")
        want = contents_of(nappy.convertXarrayObjectsToNA(vs, list(ds.attrs.items()), "w/o.na", **copy.deepcopy(dict(kw, **wkw))))
    except Exception as e:
        want = "refused " + type(e).__name__
    try:
        os.mkdir("g")
        c = XarrayDatasetToNA(ds, **copy.deepcopy(kw))
        c.convert()
        c.writeNAFiles("g/o.na", **wkw)
        got = contents_of(c.output_files_written)
    except Exception as e:
        got = "refused " + type(e).__name__
    if not ds.identical(before):
        return dict(fail="the dataset given was changed", n=2)
    if got != want:
        return dict(fail="the dataset gives\n%s\n--- the list of its variables ---\n%s" % (got, want), n=2)
    if "coords" in case and not isinstance(got, str) and not kw.get("requested_ffi") and not wkw.get("size_limit"):
        vals = sorted(repr(np.asarray(v.values, float).tolist()) for v in vs if v.ndim)
        if sorted(g[2] for g in got) != vals:
            return dict(fail="not every variable of the dataset is there once:\n%s" % (got,), n=2)
    return dict(n=2, transitions=2, sig=h(repr(got)))


# ------------------------------------------------------------------ NASA Ames to memory

def source(case):
    d = dict(case["d"], **VAR[case["v"]])
    d = gen.build(d)
    if XN[case["x"]]:
        d["XNAME"] = (XN[case["x"]] + ["other", "more", "yet"])[:d["NIV"]]
    if "vn" in case:
        for key in ("VNAME", "ANAME"):
            if d.get(key):
                d[key] = (VN[case["vn"]] + ["other %d" % i for i in range(9)])[:len(d[key])][::1 if key == "VNAME" else -1]
    return d


def atts(obj):
    """Attributes as text that does not depend on how a number is stored."""
    def one(v):
        if isinstance(v, (list, tuple, np.ndarray)):
            l = [one(i) for i in np.ravel(np.array(v, object if isinstance(v, (list, tuple)) else None))]
            return l[0] if len(l) == 1 else l
        if isinstance(v, (int, float, np.number)):
            return float(v)
        return c16.norm(str(v))
    return {k: one(v) for k, v in obj.items() if k not in ("_FillValue", "coordinates")}


def against(x, nc, what):
    """A variable in memory against the NetCDF file."""
    if x.name not in nc.vars:
        return "%s: %s is not in the NetCDF file (%s)" % (what, x.name, list(nc.vars))
    v = nc.vars[x.name]
    if tuple(x.dims) != tuple(v.dims):
        return "%s: %s has dimensions %s instead of %s" % (what, x.name, x.dims, v.dims)
    m = np.isnan(np.asarray(x.values, float))
    if not np.array_equal(m, v.missing()):
        return "%s: %s: missing elements %s instead of %s" % (what, x.name, m.tolist(), v.missing().tolist())
    if not np.array_equal(np.asarray(x.values, float)[~m], np.asarray(v.data, float)[~m]):
        return "%s: %s holds %s instead of %s" % (what, x.name, x.values.tolist(), v.data.tolist())
    if atts(x.attrs) != atts(v.attrs):
        return "%s: %s has attributes %s instead of %s" % (what, x.name, atts(x.attrs), atts(v.attrs))
    for d in x.dims:
        c, f = x[d], nc.vars[d]
        if not np.array_equal(np.asarray(c.values, float), np.asarray(f.data, float)) or atts(c.attrs) != atts(f.attrs):
            return "%s: axis %s of %s is %s %s instead of %s %s" % (what, d, x.name, c.values.tolist(), atts(c.attrs), f.data.tolist(), atts(f.attrs))


def run_read(case):
    d = source(case)
    put("i.na", spec.encode(d))
    nappy.convertNAToNC("i.na", "i.nc", time_warning=False)
    nc = NC("i.nc")
    ret = nappy.readXarrayObjectsFromNA("i.na")
    if len(ret) != 3:
        return dict(fail="returns %d items" % len(ret))
    prim, aux, glob = ret
    if len(prim) != d["NV"] or len(aux) != d.get("NAUXV", 0):
        return dict(fail="%d and %d variables instead of %d and %d" % (len(prim), len(aux), d["NV"], d.get("NAUXV", 0)))
    for x in list(prim) + list(aux):
        m = against(x, nc, "in memory")
        if m:
            return dict(fail=m)
    if sorted([x.name for x in list(prim) + list(aux)]) != sorted(nc.data_vars()):
        return dict(fail="variables %s instead of %s" % ([x.name for x in list(prim) + list(aux)], list(nc.data_vars())))
    for l, names, at, key in ((prim, d["VNAME"], "nasa_ames_var_number", "V"), (aux, d.get("ANAME", []), "nasa_ames_aux_var_number", "A")):
        for i, x in enumerate(l):
            flat = [float(q) for q in np.ravel(np.array(d[key][i], float))]
            got = np.ravel(np.asarray(x.values, float))
            if d["FFI"] != 1020 or key == "A" or True:
                for p, g in zip(flat, got):
                    miss, sc = d[key + "MISS"][i], d[key + "SCAL"][i]
                    if (p == miss) != bool(np.isnan(g)) or (p != miss and abs(p * sc - g) > 1e-9 * abs(p * sc)):
                        return dict(fail="variable %d (%s) in memory is %s, in the file %s (missing %s, scale %s)" % (i, names[i], got.tolist(), flat, miss, sc))
    if len(dict(glob)) != len(glob) or atts(dict(glob)) != atts(nc.attrs):
        return dict(fail="global attributes %s instead of %s" % (atts(dict(glob)), atts(nc.attrs)))
    return dict(n=2, transitions=2, sig=h(c20.dump("i.nc")))


def run_back(case):
    """What was read into memory, written to NASA Ames, against the same through a NetCDF file."""
    put("i.na", spec.encode(source(case)))
    nappy.convertNAToNC("i.na", "i.nc", time_warning=False)
    prim, aux, glob = nappy.readXarrayObjectsFromNA("i.na")
    names = [v.name for v in list(prim) + list(aux)]
    return check_write(list(prim) + list(aux), list(glob), OPT[0] if case["v"] % 2 else {"requested_ffi": case["d"]["ffi"]}, 0, names=names, path="i.nc", lenient=True)


def run_get(case):
    d = source(case)
    put("i.na", spec.encode(d))
    prim = nappy.readXarrayObjectsFromNA("i.na")[0]
    n = 1
    names = [split(v)[0] for v in d["VNAME"]]
    for i, v in enumerate(d["VNAME"]):
        for key in [i, v] + ([names[i]] if names.count(names[i]) == 1 else []):
            if key is not i and str(key).strip().isdigit():
                continue                         # could be a name or a position
            n += 1
            x = nappy.getXarrayVariableFromNA("i.na", key)
            if not x.identical(prim[i]) or x.name != prim[i].name:
                return dict(fail="variable %r is\n%s\ninstead of\n%s" % (key, x, prim[i]), n=n)
            if repr(x.encoding) != repr(prim[i].encoding):
                return dict(fail="variable %r has encoding %r instead of %r" % (key, x.encoding, prim[i].encoding), n=n)
    for key in ("no such variable", len(names), ""):
        n += 1
        try:
            x = nappy.getXarrayVariableFromNA("i.na", key)
        except Exception:
            continue
        return dict(fail="variable %r, which does not exist, is\n%s" % (key, x), n=n)
    return dict(n=n, transitions=n, sig=[x.name for x in prim])


def run_dict(case):
    d = source(case)
    put("i.na", spec.encode(d))
    n = 0
    sigs = []
    for how in ("read", "built", "noffi"):
        dd = read_na("i.na") if how == "read" else to_dict(d)
        if how == "noffi":
            del dd["FFI"]
        try:
            write_na("w.na", copy.deepcopy(dd), float_format="%s")
        except Exception:
            if how != "noffi":
                raise
            continue                               # the format cannot be told from the content
        for mode in ("w", "a"):
            for old in ((None,) if mode == "w" or how != "read" else ("other",)) if case.get("few") else (None, "other", "same"):
                n += 1
                for p in ("f.nc", "m.nc"):
                    if os.path.exists(p):
                        os.remove(p)
                    if old:
                        put("old.na", spec.encode(gen.build(dict(ffi=1001, M=4, NV=1, names="short"))) if old == "other" else spec.encode(d))
                        if old == "other":
                            t = text("old.na").replace("X0", "Height (km)").replace("V1", "Old one")
                            put("old.na", t)
                        nappy.convertNAToNC("old.na", p, time_warning=False)
                before = copy.deepcopy(dd)
                res = []
                for f in (lambda: nappy.convertNAToNC("w.na", "f.nc", mode=mode, time_warning=False), lambda: nappy.writeNADictToNC(dd, "m.nc", mode)):
                    try:
                        f()
                        res.append(None)
                    except Exception as e:
                        res.append(e)
                if repr(before) != repr(dd):
                    return dict(fail="%s dictionary, mode %s: it was changed" % (how, mode), n=n)
                if (res[0] is None) != (res[1] is None):
                    return dict(fail="%s dictionary, mode %s, file %s: converting the file: %s, writing the dictionary: %s" % (how, mode, old, res[0] or "done", tb(res[1]) if res[1] else "done"), n=n)
                a, b = [c20.dump(p) if os.path.exists(p) else "no file" for p in ("f.nc", "m.nc")]
                if a != b:
                    i = [k for k in range(min(len(a), len(b))) if a[k] != b[k]][:1] or [0]
                    return dict(fail="%s dictionary, mode %s, file %s: content is ...%s instead of ...%s" % (how, mode, old, b[max(0, i[0] - 60):i[0] + 300], a[max(0, i[0] - 60):i[0] + 300]), n=n)
                sigs.append(h(b))
        if sorted(p for p in os.listdir(".") if p not in ("i.na", "w.na", "old.na", "f.nc", "m.nc")):
            return dict(fail="files left behind: %s" % os.listdir("."), n=n)
    return dict(n=n, transitions=n, sig=sigs)


def run(case):
    t = case["t"]
    if t == "one":
        v = xr.DataArray(values(case["v"]), dims="t", name="v", coords=axis(case["a"]), attrs={"note": "n"} if case["v"] in ("date", "diff", "cf") else {"units": "K", "note": "n"})
        return check_write([v], [("title", "T")], OPT[case["o"]], case["csv"], lenient=case["a"] == "rawtime")
    if t == "list":
        vs = [pool(POOL[i]) for i in case["sel"]]
        return check_write(vs, [("title", "q"), ("n", np.int32(3)), ("history", "h")], OPT[case["o"]], case["csv"])
    return {"dset": run_dset, "att": run_att, "file": run_file, "read": run_read, "get": run_get, "dict": run_dict, "back": run_back}[t](case)
