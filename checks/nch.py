"""Building NetCDF files from small JSON descriptions (netCDF4 library) and reading the NASA Ames files made from them
with the independent decoder.  Nothing here uses nappy or xarray.

description:
  dims:  {name: {n, coord: list or None, dtype, attrs}}
  vars:  [{name, dims, dtype, attrs, fill, mv, scale, offset, data (nested/flat physical values, None = missing), text}]
  gattrs: {name: value}
"""
import re

import netCDF4
import numpy as np

import spec


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def shape(ds, v):
    return [ds["dims"][d]["n"] for d in v["dims"]]


def attr(v):
    """JSON descriptions of attribute values: {"i4": [1, 2]} is a NumPy array, {"f4": 1.5} a NumPy scalar."""
    if isinstance(v, dict):
        (dt, val), = v.items()
        return np.array(val, dt) if isinstance(val, list) else np.dtype(dt).type(val)
    return v


def make_nc(path, ds):
    with netCDF4.Dataset(path, "w", format=ds.get("format", "NETCDF4")) as nc:
        nc.set_fill_off()
        for name, d in ds["dims"].items():
            nc.createDimension(name, d["n"])
        for name, d in ds["dims"].items():
            if d.get("coord") is not None:
                v = nc.createVariable(name, d.get("dtype", "f8"), (name,))
                for k, a in (d.get("attrs") or {}).items():
                    v.setncattr(k, attr(a))
                v[:] = np.array(d["coord"], d.get("dtype", "f8"))
        for v in ds["vars"]:
            dt = v.get("dtype", "f8")
            if dt == "S":
                txt = v["data"]
                dn = "len_" + v["name"]
                nc.createDimension(dn, len(txt))
                o = nc.createVariable(v["name"], "S1", tuple(v["dims"]) + (dn,))
                o[:] = netCDF4.stringtochar(np.array(txt, "S%d" % len(txt)))
            elif dt == "str":
                o = nc.createVariable(v["name"], str, tuple(v["dims"]))
                o[...] = np.array(v["data"], object) if v["dims"] else v["data"]
            else:
                kw = {}
                if v.get("fill") is not None:
                    kw["fill_value"] = float(v["fill"]) if dt[0] == "f" else int(v["fill"])
                elif "fill" in v:
                    kw["fill_value"] = False
                o = nc.createVariable(v["name"], dt, tuple(v["dims"]), **kw)
                o.set_auto_maskandscale(False)
                if v.get("mv") is not None:
                    o.setncattr("missing_value", np.dtype(dt).type(v["mv"]))
                raw = v.get("raw")
                if raw is None:
                    flag = v.get("fill") if v.get("fill") is not None else v.get("mv")
                    if flag is None:
                        flag = np.nan
                    sc, off = v.get("scale", 1), v.get("offset", 0)
                    raw = [flag if x is None else (x - off) / sc for x in v["data"]]
                if np.dtype(dt).kind in "iu" and all(type(x) is int for x in raw):
                    raw = np.array(raw, dt)
                else:
                    raw = np.array(raw, "f8")
                    if np.dtype(dt).kind in "iu":
                        raw = np.rint(raw)
                o[...] = raw.astype(dt).reshape(shape(ds, v))
                if "scale" in v:
                    o.setncattr("scale_factor", float(v["scale"]))
                if "offset" in v:
                    o.setncattr("add_offset", float(v["offset"]))
            for k, a in (v.get("attrs") or {}).items():
                o.setncattr(k, attr(a))
        for k, a in (ds.get("gattrs") or {}).items():
            nc.setncattr(k, attr(a))


def expected(ds, v):
    """(array, mask) of the physical values of a numeric variable."""
    vals = np.array([np.nan if x is None else float(x) for x in v["data"]], float)
    if v.get("dtype", "f8") == "f4" and "scale" not in v:
        vals = vals.astype("f4").astype(float)
    return vals.reshape(shape(ds, v)), np.isnan(vals).reshape(shape(ds, v))


def axis_values(ds, dim):
    d = ds["dims"][dim]
    if d.get("coord") is None:
        return np.arange(d["n"], dtype=float)
    return np.array(np.array(d["coord"], d.get("dtype", "f8")), float)


def counted(n, base):
    """n distinct values."""
    return [base + k for k in range(n)]


# ---------------------------------------------------------------- NASA Ames side

def split(name):
    """('name', 'units') by the documented rule."""
    m = re.match(r"^\s*(.*?)\s*\(([^()]*)\)\s*$", name)
    return (m.group(1), m.group(2).strip()) if m else (name.strip(), "")


class NAVar:
    def __init__(self, name, axes, data, miss, kind):
        self.full = name
        self.name, self.units = split(name)
        self.axes = axes                                 # [(axis name, values)]
        self.data = np.array(data, float).reshape([len(a[1]) for a in axes])
        self.mask = self.data == miss
        self.miss = miss
        self.kind = kind


class NAFile:
    """A NASA Ames file read with the independent decoder."""

    def __init__(self, path):
        with open(path) as fh:
            self.text = fh.read()
        self.path = path
        d = self.d = spec.decode(self.text)
        f = self.ffi = d["FFI"]
        X = d["X"]
        real0 = {2110: 1, 2310: 3, 2160: 1}.get(f, 0)
        if f in (1001, 1010):
            axes = [X]
            marks = X
        elif f == 1020:
            axes = [[x + i * d["DX"][0] for x in X for i in range(d["NVPM"])]]
            marks = X
        elif f in spec.GRID:
            axes = X
            marks = X[0]
        else:
            marks = [p[0] for p in X]
            second = [p[1] for p in X]
            if any(s != second[0] for s in second):
                raise ValueError("second axes of the marks differ: %s" % second)
            axes = [marks, second[0] if second else []]
        self.axes = list(zip(d["XNAME"], axes))
        self.vars = [NAVar(d["VNAME"][n], self.axes, d["V"][n], d["VMISS"][n] if d["VSCAL"][n] == 1 else None, "V") for n in range(d["NV"])]
        if any(s != 1 for s in d["VSCAL"]):
            raise ValueError("unexpected scale factors %s" % d["VSCAL"])
        self.aux = [NAVar(d["ANAME"][a], [(d["XNAME"][0], marks)], d["A"][a], d["AMISS"][a], "A") for a in range(real0, d.get("NAUXV") or 0)]
        # declared spacing of the unbounded axis
        dx = d["DX"][0]
        m = np.array(marks, float)
        if f != 1020 and dx != 0 and len(m) > 1 and not np.allclose(np.diff(m), dx, rtol=1e-6, atol=0):
            raise ValueError("declared spacing %s, marks %s" % (dx, marks))

    def all(self):
        return self.vars + self.aux


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(1e-300, np.maximum(np.abs(a), np.abs(b)))))


def same_masked(arr, mask, va):
    """Whether NASA Ames variable `va` holds exactly these elements, missing in exactly these places."""
    if va.data.shape != arr.shape or (va.mask != mask).any():
        return False
    return same(np.where(mask, 0, arr), np.where(mask, 0, va.data))


def read_all(names):
    return [NAFile(n) for n in names]


def match_vars(ds, files, names=None):
    """Compares the output files with the description: every array variable (names: those selected) is in exactly one file,
    with its values, missing elements and axes.  Returns (message or None, {variable: (file index, NAVar)})."""
    found = {}
    left = [(i, v) for i, f in enumerate(files) for v in f.all()]
    for v in ds["vars"]:
        if not v["dims"] or (names is not None and v["name"] not in names) or v.get("skip"):
            continue
        arr, mask = expected(ds, v)
        ax = [axis_values(ds, d) for d in v["dims"]]
        hits = [(i, o) for i, o in left if same_masked(arr, mask, o) and all(same(a, o.axes[k][1]) for k, a in enumerate(ax))]
        if not hits:
            part = [o for i, o in left if o.name and letters(o.name) == letters(best_name(v))]
            return "no file holds variable %s %s with values %s on axes %s%s; files hold %s" % (
                v["name"], v["dims"], np.where(mask, np.nan, arr).tolist(), [a.tolist() for a in ax],
                "".join("; one of this name holds %s missing %s on %s" % (o.data.tolist(), o.miss, [list(a[1]) for a in o.axes]) for o in part[:1]),
                [(f.ffi, [x.full for x in f.all()]) for f in files]), found
        found[v["name"]] = hits[0]
        left = [l for l in left if l[1] is not hits[0][1]]
    if left:
        return "files hold %s, which is not in the source or repeated" % [(o.kind, o.full, o.data.tolist()) for i, o in left], found
    return None, found


# names of variables and dimensions that mean something elsewhere, or have characters that do
ODD_NAMES = ["v_bnds", "bounds", "u,v", "u", "0", "1", "a b", "a.b", "a-b", "a+b", "None", "nan", "v(1)", "v[0]", "t;2", "é", "v=1", "title", "long_name", "standard_name", "units", "axis", "name", "id", "dims", "data",
             "missing_value", "calendar", "NV", "V", "T", "a:b", "x__space__y", "a&b", "_a", "a_", "true", "values", "lat", "time", "Time", "coordinates", "shape", "A" * 101, "b" * 251]


def letters(s):
    return "".join(c for c in str(s).lower() if c.isalnum())


def best_name(v):
    a = v.get("attrs") or {}
    for k in ("long_name", "standard_name", "title"):
        if a.get(k):
            return str(a[k])
    return v["name"]
