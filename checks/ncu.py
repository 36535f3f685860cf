"""Reading NetCDF files independently of nappy and xarray (netCDF4 library), and helpers for the conversion checks."""
import netCDF4
import numpy as np


class Var:
    def __init__(self, v):
        self.name = v.name
        self.dims = v.dimensions
        self.attrs = {k: v.getncattr(k) for k in v.ncattrs()}
        v.set_auto_maskandscale(False)
        self.data = np.array(v[...])
        self.dtype = v.dtype
        self.fill = self.attrs.get("_FillValue")

    def missing(self):
        """Boolean array of the elements that are flagged missing."""
        m = np.zeros(self.data.shape, bool)
        if self.data.dtype.kind in "fiu":
            for k in ("_FillValue", "missing_value"):
                if k in self.attrs:
                    m |= self.data == self.attrs[k]
            if self.data.dtype.kind == "f":
                m |= np.isnan(self.data)
        return m


class NC:
    def __init__(self, path):
        with netCDF4.Dataset(path) as ds:
            self.dims = {k: len(d) for k, d in ds.dimensions.items()}
            self.attrs = {k: ds.getncattr(k) for k in ds.ncattrs()}
            self.vars = {k: Var(v) for k, v in ds.variables.items()}

    def coords(self):
        return {k: v for k, v in self.vars.items() if k in self.dims}

    def data_vars(self):
        return {k: v for k, v in self.vars.items() if k not in self.dims}


def letters(s):
    return "".join(c for c in str(s).lower() if c.isalnum())


def full_axes(d):
    """All coordinate values of each axis of a convertible dataset in spec convention."""
    f = d["FFI"]
    if f == 1020:
        return [[x + i * d["DX"][0] for x in d["X"] for i in range(d["NVPM"])]]
    if f in (1001, 1010):
        return [list(d["X"])]
    out = [list(d["X"][0])]
    for k, nx in enumerate(d["NX"]):
        xs = d["X"][k + 1]
        if d["NXDEF"][k] == nx:
            out.append(list(xs))
        else:
            out.append([xs[0] + i * d["DX"][k + 1] for i in range(nx)])
    return out


def aux_axis(d):
    return list(d["X"]) if d["NIV"] == 1 else list(d["X"][0])


def close(a, b, tol=1e-9):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(np.abs(a), np.abs(b)) + 1e-300))
