from common import *
from ncu import NC, full_axes, aux_axis, close, letters
import numpy as np

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of files on the real conversion; the NetCDF file is read with the netCDF4 library and compared with what the independent reference model says the file encodes"
RULE = ("every convertible structure within the bounds (all axis lengths, implied and listed axes, directions, numbers of variables and auxiliary variables, scale factors) and every assignment of colliding names from the alphabet to axes, variables and auxiliary variables; "
        "the output must hold exactly one variable per data and auxiliary variable with the scaled values, on the file's axes in order with the full coordinate values, each with the units in brackets of its name (28 units texts in every place); FFIs 2110, 2160 and 2310 must be refused by name. In-memory conversion is checked against the same oracle. Distinct = distinct outputs.")
BOUNDS = {"quick": "every 4th structure of the thorough list (all of the small ones); all triples/quadruples over 9 names for one 1-D and one 2-D shape; one dimension up to 1025 (variables 129)", "thorough": "every structure of the thorough read bounds with and without scale factors; all name assignments over 13 names"}
TIMEOUT = 60
CONV = (1001, 1010, 1020, 2010, 3010, 4010)
NAMES = ["Time (s)", "time", "Time", "latitude (deg)", "x/y z (m)", "x y-z", "x_y_z", "(K)", "9 lives"]
UNITS = ["deg.", "W m-2", "1", "%", "10^3 m", "m/s", "degrees_north", "-", "mol. m^-3", "#/cc", "\u00b0C", "K", "kg m-3 s-1", "m,s", "ug/m3.", "1e-9", "1.0", "None", "[m]", "{m}", "s^-1/2", "'", "a = b", "KM", "x;y", "*", "unknown", "Not known", "m " * 40 + "m"]
MORE = ["A" * 70, "a" * 70 + " (m)", "x_y_z_2", "level of x"]


def cases(tier):
    big = tier == "thorough"
    st = gen.structures("thorough", CONV)
    for i, s in enumerate(st):
        if big or i % 4 == 0 or s["M"] * s["NV"] <= 2:
            yield dict(d=dict(s, scal=(i // 4) % 2))
            if big:
                yield dict(d=dict(s, scal=1 - (i // 4) % 2, akind="u", vals="frac"))
    for s in gen.samples():
        yield dict(d=s)
    for s in gen.small_structures(CONV):
        for xk, vals, names, scal in itertools.product("undfthgs", ("seq", "frac", "exp", "dig", "zero"), ("std", "bare"), (0, 1)):
            if xk in "thgs" and (vals != "seq" or names != "std"):
                continue
            if s["ffi"] == 1020 and xk in "nthg":
                continue
            for ak in ("n", "u", "d") + (("t", "h", "g", "s") if vals == "seq" else ()) if s["ffi"] in spec.GRID else ("n",):
                yield dict(d=dict(s, xkind=xk, akind=ak, vals=vals, names=names, scal=scal, dx=int(xk not in "nthg")))
    for s in gen.large(CONV, (17, 33, 65, 101, 129, 257, 1001, 1025) if not big else gen.SIZES, comments=False, nv=129 if not big else 513):
        yield dict(d=s)
    for ffi in (2110, 2160, 2310):
        for s in gen.small_structures((ffi,)):
            yield dict(d=s)
    al = NAMES + (MORE if big else [])
    for nm in itertools.product(range(len(al)), repeat=3):
        yield dict(d=dict(ffi=1001, M=2, NV=2), nm=nm)
    for nm in itertools.product(range(len(al)), repeat=3):
        yield dict(d=dict(ffi=1020, M=2, NVPM=2, NV=1, NAUXV=1), nm=nm)
        yield dict(d=dict(ffi=2010, M=2, NX=[3], NXDEF=[3], NV=1, NAUXV=0), nm=nm)
    for nm in itertools.product(range(0, len(al), 1 if big else 2), repeat=4):
        yield dict(d=dict(ffi=1010, M=2, NV=1, NAUXV=2), nm=nm)
        yield dict(d=dict(ffi=3010, M=2, NX=[2, 3], NXDEF=[2, 1], NV=1, NAUXV=0), nm=nm)
    for s in gen.small_structures(CONV):
        for k in range(len(UNITS)):
            yield dict(d=dict(s, NV=2, NAUXV=2 if s["ffi"] != 1001 else 0), un=k)
    for s in gen.small_structures(CONV):
        for k in range(len(al)):
            yield dict(d=dict(s, NV=3, NAUXV=3 if s["ffi"] != 1001 else 0), nm=[k] * 12)


def compare(d, found, what):
    """found: list of (name, dims [(dimname, values)], array, attrs)"""
    axes = full_axes(d)
    na = d.get("NAUXV") or 0
    if len(found) != d["NV"] + na:
        return "%s: %d variables %s instead of %d + %d" % (what, len(found), [f[0] for f in found], d["NV"], na)
    exp = [("variable %d" % n, d["VNAME"][n], axes, np.array(d["V"][n], float).reshape([len(a) for a in axes]) * d["VSCAL"][n]) for n in range(d["NV"])]
    exp += [("auxiliary variable %d" % a, d["ANAME"][a], [aux_axis(d)], np.array(d["A"][a], float) * d["ASCAL"][a]) for a in range(na)]
    # which elements are missing (what becomes of them is the subject of C12)
    gap = {"variable %d" % n: np.array(d["V"][n], float).reshape([len(a) for a in axes]) == d["VMISS"][n] for n in range(d["NV"])}
    gap.update({"auxiliary variable %d" % a: np.array(d["A"][a], float) == d["AMISS"][a] for a in range(na)})

    def agree(got, vals, gap):
        got = np.asarray(got, float)
        return got.shape == vals.shape and close(np.where(gap, 0, got), np.where(gap, 0, vals))
    left = list(found)
    for lab, name, ax, vals in exp:
        hit = [f for f in left if agree(f[2], vals, gap[lab])]
        if not hit:
            return "%s: no variable with the values of %s %r %s; found %s" % (what, lab, name, vals.tolist(), [(f[0], np.asarray(f[2]).tolist()) for f in left])[:2500]
        f = hit[0]
        left = [g for g in left if g is not f]
        if len(f[1]) != len(ax):
            return "%s: %s %r has axes %s" % (what, lab, f[0], [x[0] for x in f[1]])
        for i, ((dn, dv, _), av) in enumerate(zip(f[1], ax)):
            if dv is None or not close(dv, av, 1e-12):
                return "%s: axis %d of %s is %s %s, the file has %s" % (what, i, lab, dn, None if dv is None else list(dv), av)
        plain = spec_name(name)
        if [spec_name(e[1]) for e in exp].count(plain) == 1 and 0 < len(plain) and len(name) < 60 and not letters(f[0]).startswith(plain):
            return "%s: %s, named %r in the file, is called %r" % (what, lab, name, f[0])
        u = bracket(name)
        if u and f[3].get("units") != u:
            return "%s: %s, named %r in the file, has units %r" % (what, lab, name, f[3].get("units"))
        for i in range(len(ax)):
            u = bracket(d["XNAME"][i])
            if u and f[1][i][2].get("units") != u:
                return "%s: axis %d of %s, named %r in the file, has units %r" % (what, i, lab, d["XNAME"][i], f[1][i][2].get("units"))
    return None


def bracket(name):
    """The units of a name of the form 'name (units)', else None."""
    if name.count("(") == 1 and name.count(")") == 1 and name.endswith(")") and name.index("(") > 0:
        u = name[name.index("(") + 1:-1]
        return u if u == u.strip() and u else None


def spec_name(t):
    i = t.rfind("(")
    return letters(t[:i] if i >= 0 and ")" in t[i:] else t)


def from_nc(nc):
    out = []
    for v in nc.data_vars().values():
        out.append((v.name, [(dn, nc.vars[dn].data if dn in nc.vars else None, nc.vars[dn].attrs if dn in nc.vars else {}) for dn in v.dims], v.data, v.attrs))
    return out


def from_xr(objs):
    out = []
    for v in objs:
        out.append((v.name, [(dn, np.array(v.coords[dn].values) if dn in v.coords else None, v.coords[dn].attrs if dn in v.coords else {}) for dn in v.dims], np.array(v.values, float), v.attrs))
    return out


def run(case):
    d = gen.build(case["d"])
    if "un" in case:
        # the units of every axis and variable, each with another one of the list
        k = case["un"]
        for key in ("XNAME", "VNAME", "ANAME"):
            if key in d:
                d[key] = ["%s %s (%s)" % ({"X": "Axis", "V": "Variable", "A": "Auxiliary"}[key[0]], "abcdef"[j], UNITS[(k + j + {"X": 0, "V": 5, "A": 9}[key[0]]) % len(UNITS)]) for j in range(len(d[key]))]
    if case.get("nm"):
        al = NAMES + MORE
        nm = [al[i] for i in case["nm"]]
        k = 0
        for key in ("XNAME", "VNAME", "ANAME"):
            if key in d:
                d[key] = nm[k:k + len(d[key])]
                k += len(d[key])
                if len(d[key]) < {"XNAME": d["NIV"], "VNAME": d["NV"], "ANAME": d.get("NAUXV", 0)}[key]:
                    d[key] = d[key] + ["more %s %d" % (key, j) for j in range({"XNAME": d["NIV"], "VNAME": d["NV"], "ANAME": d.get("NAUXV", 0)}[key] - len(d[key]))]
    put("f.na", spec.encode(d))
    f = d["FFI"]
    if f not in CONV:
        for what, call in (("convertNAToNC", lambda: nappy.convertNAToNC("f.na", "o.nc", time_warning=False)), ("readXarrayObjectsFromNA", lambda: nappy.readXarrayObjectsFromNA("f.na"))):
            try:
                call()
                return dict(fail="%s accepts FFI %s" % (what, f))
            except Exception as e:
                if str(f) not in str(e):
                    return dict(fail="%s refuses FFI %s without naming it: %s" % (what, f, err(e)))
            if os.path.exists("o.nc"):
                return dict(fail="%s refuses FFI %s but leaves a file" % (what, f))
        return dict(n=2, sig="refused%s" % f)
    try:
        nappy.convertNAToNC("f.na", "o.nc", time_warning=False)
    except Exception as e:
        return dict(fail="conversion fails: %s\n%s" % (tb(e), text("f.na")[:1500]), key="fails %s %s" % (f, case.get("nm")))
    nc = NC("o.nc")
    msg = compare(d, from_nc(nc), "NetCDF file")
    if not msg:
        for v in nc.coords().values():
            if len(set(v.dims)) != 1 or v.dims[0] != v.name:
                msg = "coordinate %s has dimensions %s" % (v.name, v.dims)
    if not msg:
        try:
            p, a, _ = nappy.readXarrayObjectsFromNA("f.na")
        except Exception as e:
            msg = "in-memory conversion fails: " + tb(e)
        else:
            msg = compare(d, from_xr(list(p) + list(a)), "in-memory variables")
            if not msg and (len(p), len(a)) != (d["NV"], d.get("NAUXV") or 0):
                msg = "in memory: %d variables and %d auxiliary variables" % (len(p), len(a))
    os.remove("o.nc")
    if msg:
        return dict(fail=msg + "\n" + text("f.na")[:2000], n=2)
    return dict(n=2, sig=h(repr([(v.name, v.dims, v.data.tolist()) for v in nc.vars.values()])))
