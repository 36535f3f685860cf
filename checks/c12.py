from common import *
from nch import *
from ncu import NC
import warnings

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of missing-element placements on the real conversions; outputs are read by the independent decoder (NASA Ames) or the netCDF4 library"
RULE = ("NASA Ames to NetCDF: every subset of missing elements of every small array of each convertible format (data and auxiliary variables) x flag values x scale factors x valid values chosen to collide with the flag before or after scaling; "
        "NetCDF to NASA Ames: every subset of missing elements of small arrays (1-D to 4-D, and as auxiliary variable) x storage type x way of flagging (_FillValue, missing_value, both, NaN, none) x flag values x valid values colliding with the flag or with the default flag x float formats. "
        "axes that FFI 2110 and 2310 write as auxiliary variables: first values x increments x lengths, colliding with the flags in use. "
        "The elements equal to the declared flag must be exactly the missing ones and all others keep their values. Distinct = distinct outputs.")
BOUNDS = {"quick": "4 elements (16 placements)", "thorough": "6 elements (64 placements), all flag/scale/format combinations"}
TIMEOUT = 60

FLAGS = [-999.9, 99999.0, -1e20, 0.0, 1e-5, 10.5, -9999.0]
SCALES = [1.0, 0.5, 10.0, -1.0, 2.5]
# dtype, way of flagging, flag, packing
STORE = [("f8", "fill", -999.9), ("f8", "fill", 1e20), ("f8", "fill", 9.969209968386869e36), ("f8", "mv", -9999.0), ("f8", "both", -9999.0), ("f8", "nan", None),
         ("f8", "none", None), ("f8", "fill", 0.0), ("f8", "fill", -1e20), ("f8", "fill", 1e-30), ("f8", "fill", 123456789.125),
         ("f4", "fill", -999.9), ("f4", "fill", 1e20), ("f4", "none", None), ("f4", "nan", None), ("f4", "fill", 9.969209968386869e36), ("f4", "mv", 0.1),
         ("i4", "fill", -999), ("i4", "mv", -2147483648), ("i2", "fill", -32768), ("u1", "fill", 255), ("i1", "fill", -128), ("i8", "fill", -9999),
         ("i2", "pack", -32768), ("u1", "pack", 255), ("i2", "pack", 5), ("i2", "packmv", -999), ("i4", "pack", 10)]
VALID = ["seq", "flag", "default"]                        # and "near": written like the flag
FMTS = [None, "%g", "%.3e", "%s", "%12.4f", "%d"]
LAYOUT = {4: [("t",), ("t", "x"), ("t", "x", "y", "z"), "aux", "aux1010"], 6: [("t",), ("t", "x"), ("t", "x", "y"), "aux", "aux1010"]}


def cases(tier):
    big = tier == "thorough"
    n = 6 if big else 4
    for m in range(2 ** n):
        for ffi in (1001, 1010, 1020, 2010, 3010, 4010):
            for what in ("V", "A"):
                if what == "A" and ffi == 1001:
                    continue
                for f, s, c in itertools.product(range(len(FLAGS)), range(len(SCALES)), (0, 1, 2)):
                    if not big and (f + s + c + m) % 5:
                        continue
                    yield dict(to="nc", m=m, n=n, ffi=ffi, what=what, f=f, s=s, c=c)
        for st, lay, val, fm in itertools.product(range(len(STORE)), range(5), range(3), range(len(FMTS))):
            if not big and fm and (st + lay + val + fm + m) % 5:
                continue
            yield dict(to="na", m=m, n=n, st=st, lay=lay, val=val, fm=fm)


        for st, lay, near in itertools.product((0, 1, 3, 4, 6, 8, 9, 10), range(5), (1e-12, -1e-12, 3e-11, 2e-16)):
            yield dict(to="na", m=m, n=n, st=st, lay=lay, val=3, fm=0, near=near)
    # axes that are written as auxiliary variables
    for ffi, first, step, m in itertools.product((2110, 2310), FIRST, (0.5, 1.0, -9999.999, 9999.999, -1.0, -9999.0, 3.0, 0.001), (1, 2, 3, 5) if big else (1, 3)):
        for fm in range(len(FMTS)) if big else (0, 2, 5):
            yield dict(to="axes", ffi=ffi, first=first, step=step, k=m, fm=fm)


FIRST = [0.0, 1.0, 3.0, -9999.999, -9999.0, -99999.999, 10.5, -1e20, 1e-5, -1.0, -999.9]


def to_axes(c):
    n = c["k"]
    ax = [c["first"] + i * c["step"] for i in range(n)]
    if len(set(ax)) < n:
        return dict(sig="-", n=0)
    kw = dict(requested_ffi=c["ffi"])
    if FMTS[c["fm"]]:
        kw["float_format"] = FMTS[c["fm"]]
    make_nc("i.nc", dict(dims=dict(t=dict(n=2, coord=[1.0, 2.0]), x=dict(n=n, coord=ax)), gattrs={}, vars=[
        dict(name="v", dims=["t", "x"], data=counted(2 * n, 5000.0), attrs={}), dict(name="a", dims=["t"], data=[7.5, 8.5], attrs={})]))
    names = nappy.convertNCToNA("i.nc", "o.na", **kw)
    n = 0
    for p in names:
        d = NAFile(p).d
        if d["FFI"] != c["ffi"]:
            return dict(fail="FFI %s instead of %s" % (d["FFI"], c["ffi"]))
        for k in ("A", "V"):
            for nm, miss, vals in zip(d[k + "NAME"], d[k + "MISS"], d[k]):
                flat = np.array([x for row in vals for x in (row if isinstance(row, list) else [row])], float)
                n += 1
                if (flat == miss).any() or not np.isfinite(miss):
                    return dict(fail="%r: values %s with missing value %r\n%s" % (nm, flat.tolist(), miss, text(p)))
    return dict(sig=h(repr(c)), n=n)


def to_nc(c):
    n, ffi = c["n"], c["ffi"]
    flag, scal = FLAGS[c["f"]], SCALES[c["s"]]
    vals = [10.5 + 3.0 * k + (1000 if k % 2 else 0) for k in range(n)]
    if flag == 10.5:
        vals[0] = 11.5
    if c["c"] == 1:
        vals[n - 1] = flag / scal if flag / scal != flag else vals[n - 1]      # a scaled value equal to the flag
    elif c["c"] == 2:
        vals[n - 1] = flag * scal if flag * scal != flag else vals[n - 1]      # a value equal to the scaled flag
        vals[n - 2] = -1e20 / scal if flag != -1e20 / scal else vals[n - 2]
    miss = [(c["m"] >> k) & 1 for k in range(n)]
    raw = [flag if miss[k] else vals[k] for k in range(n)]
    aux = c["what"] == "A"
    M = n if aux or ffi in (1001, 1010) else 2
    rest = {1001: [], 1010: [], 1020: [], 2010: [n // 2], 3010: [1, n // 2], 4010: [1, n // 2, 1]}[ffi]
    if aux and ffi in spec.GRID:
        rest = {2010: [2], 3010: [2, 1], 4010: [1, 2, 1]}[ffi]
    desc = dict(ffi=ffi, M=M, NV=2, NAUXV=2 if ffi != 1001 else 0, NX=rest, NXDEF=rest, NVPM=2 if aux else n // 2, xkind="u", names="bare", head="std")
    d = gen.build(desc)
    other = copy.deepcopy(d)
    if aux:
        d["A"][1], d["AMISS"][1], d["ASCAL"][1] = raw, flag, scal
    else:
        shp = np.array(d["V"][0]).shape
        d["V"][0], d["VMISS"][0], d["VSCAL"][0] = np.array(raw).reshape(shp).tolist(), flag, scal
    put("f.na", spec.encode(d))
    try:
        nappy.convertNAToNC("f.na", "o.nc", time_warning=False)
    except Exception as e:
        return dict(fail="conversion fails: " + tb(e))
    nc = NC("o.nc")
    vs = nc.data_vars()
    name = "a_2_no_units" if aux else "v1"
    if name not in vs:
        return dict(fail="no variable %s in %s" % (name, list(vs)))
    exp_m = np.array(miss, bool)
    exp = np.array(raw) * scal
    for nm, v in vs.items():
        got_m, got = v.missing().ravel(), v.data.ravel()
        if nm != name:
            if got_m.any():
                return dict(fail="%s has missing elements %s" % (nm, got.tolist()))
            continue
        if got_m.shape != exp_m.shape or (got_m != exp_m).any():
            return dict(fail="%s: missing %s instead of %s; values %s, file values %s flag %s scale %s" % (nm, got_m.tolist(), miss, got.tolist(), raw, flag, scal))
        if not same(np.where(exp_m, 0, exp), np.where(exp_m, 0, got), 1e-12):
            return dict(fail="%s: values %s, expected %s missing %s" % (nm, got.tolist(), exp.tolist(), miss))
    p, a, _ = nappy.readXarrayObjectsFromNA("f.na")
    for v in list(p) + list(a):
        got = np.array(v.values, float).ravel()
        if v.name == name and ((np.isnan(got) != exp_m).any() or not same(np.where(exp_m, 0, exp), np.where(exp_m, 0, got), 1e-12)):
            return dict(fail="in memory %s: %s instead of %s missing %s" % (v.name, got.tolist(), exp.tolist(), miss))
    return dict(n=2, sig=h(repr([(k, v.data.tolist(), v.missing().tolist()) for k, v in vs.items()])))


def to_na(c):
    n = c["n"]
    dt, way, flag = STORE[c["st"]]
    lay = LAYOUT[n][c["lay"]]
    fmt = FMTS[c["fm"]]
    base = [10, 3, 40, 77, 5, 60]
    vals = [float(x) for x in base[:n]]
    if dt[0] == "f" and fmt != "%d":
        vals = [v + 0.5 for v in vals]
    v = dict(name="v", dtype=dt, attrs={})
    sc, off = 1.0, 0.0
    if way.startswith("pack"):
        sc, off = 0.5, 3.0
        if flag == 10:
            sc, off = 1e-30, 10.0                    # every value decodes (nearly) to the flag
            sc, off = 0.5, 6.0
        v["scale"], v["offset"] = sc, off
        vals = [x if dt != "i2" else x for x in vals]
    rawv = [round((x - off) / sc) if dt[0] in "iu" else x for x in vals]
    if dt[0] in "iu":
        vals = [r * sc + off for r in rawv]
    if c["val"] == 1 and way.startswith("pack"):
        want = (flag - off) / sc                     # a decoded value equal to the stored flag
        if want == int(want) and np.iinfo(dt).min <= want <= np.iinfo(dt).max and want != flag:
            rawv[1], vals[1] = int(want), float(flag)
    elif c["val"] == 1 and way == "both":
        vals[1] = rawv[1] = -9998.0
    elif c["val"] == 2 and dt == "f8" and flag != -1e20:
        vals[1] = rawv[1] = -1e20                    # the default flag
        vals[2] = rawv[2] = -1e21
    elif c["val"] == 3:
        vals[1] = rawv[1] = (-1e20 if flag is None else flag) * (1 + c["near"])
        vals[2] = rawv[2] = (-1e20 if c["m"] % 2 else -1e21) * (1 + c["near"])
    miss = [(c["m"] >> k) & 1 for k in range(n)]
    if any(not miss[k] and flag is not None and rawv[k] == flag for k in range(n)):
        rawv = [r + 1 if r == flag else r for r in rawv]
        vals = [r * sc + off for r in rawv]
    flags = [flag] * n
    if way in ("fill", "pack"):
        v["fill"] = flag
    elif way in ("mv", "packmv"):
        v["fill"], v["mv"] = None, flag
    elif way == "both":
        v["fill"], v["mv"] = flag, -8888.0
        flags = [flag, -8888.0] * n
    elif way == "nan":
        v["fill"] = float("nan")
        flags = [float("nan")] * n
    else:
        v["fill"] = None
        flags = [float("nan")] * n
    v["raw"] = [flags[k] if miss[k] else rawv[k] for k in range(n)]
    v["data"] = [None if miss[k] else vals[k] for k in range(n)]
    dims, vs = {}, [v]
    if lay == "aux":
        v["dims"] = ["t"]
        dims = dict(t=dict(n=n, coord=counted(n, 0.0)), x=dict(n=2, coord=[1.0, 2.0]))
        vs.append(dict(name="w", dims=["t", "x"], data=counted(2 * n, 5000.0), attrs={}))
    elif lay == "aux1010":
        v["dims"] = ["t"]
        v["attrs"]["nasa_ames_aux_var_number"] = {"i4": 0}
        dims = dict(t=dict(n=n, coord=counted(n, 0.0)))
        vs.append(dict(name="w", dims=["t"], data=counted(n, 5000.0), attrs={}))
    else:
        v["dims"] = list(lay)
        sh = {1: [n], 2: [2, n // 2], 3: [1, 3, 2], 4: [1, 2, 1, 2]}[len(lay)]
        dims = {k: dict(n=s, coord=counted(s, 0.0)) for k, s in zip(lay, sh)}
        vs.append(dict(name="w", dims=list(lay), data=counted(n, 5000.0), attrs={}))
    ds = dict(dims=dims, vars=vs, gattrs={})
    make_nc("i.nc", ds)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            names = nappy.convertNCToNA("i.nc", "o.na", **({} if fmt is None else dict(float_format=fmt)))
    except Exception as e:
        return dict(fail="conversion fails: " + tb(e))
    try:
        f = NAFile(names[0])
    except Exception as e:
        return dict(fail="invalid output: %s\n%s" % (err(e), text(names[0])[:1500]))
    got = [o for o in f.all() if o.name == "v"]
    if len(names) != 1 or len(got) != 1 or (got[0].kind == "A") != (lay in ("aux", "aux1010")):
        return dict(fail="files %s hold %s" % (names, [(o.kind, o.full) for o in f.all()]))
    o = got[0]
    exp_m = np.array(miss, bool)
    if not np.isfinite(o.miss):
        return dict(fail="declared flag is %r" % o.miss)
    if (o.mask.ravel() != exp_m).any():
        return dict(fail="missing %s instead of %s: values %s flag %r\n%s" % (o.mask.ravel().tolist(), miss, o.data.tolist(), o.miss, f.text))
    exp = np.array([0.0 if x is None else float(np.float32(x)) if dt == "f4" else x for x in v["data"]])
    if not same(exp, np.where(exp_m, 0, o.data.ravel()), 1e-4 if fmt in ("%g", "%.3e") else 1e-6 if dt == "f4" or fmt else 1e-9):
        return dict(fail="values %s instead of %s\n%s" % (o.data.tolist(), v["data"], f.text))
    w = [x for x in f.all() if x.name == "w"]
    if not w or w[0].mask.any():
        return dict(fail="the variable without missing elements has some\n" + f.text)
    return dict(sig=h(f.text))


def run(case):
    return {"nc": to_nc, "na": to_na, "axes": to_axes}[case["to"]](case)
