from common import *
from nch import *
from ncu import NC, full_axes
import cftime

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of time units, calendars, epochs, storage types, shapes and names on the real conversions in both directions; numbers and dates are compared with the source and with an independent calendar computation"
RULE = ("NetCDF to NASA Ames: every time unit x epoch x calendar x time values (also fractions, negative, large, across leap days and month ends) x storage type x position of the time axis x name of the axis and its attributes x file kind (1-D, 2-D, several outputs, split, time as data variable, scalar time). "
        "Oracle: the axis holds the source's numbers, its name ends with the source's units in brackets, and DATE is the calendar date of the first time computed from day counts. "
        "NASA Ames to NetCDF: every format x time axis name x given units (or none) x values; the stored numbers are unchanged and the units are those given, or those in the file; and back again. Distinct = distinct outputs.")
BOUNDS = {"quick": "5 units x 12 epochs x 8 calendars x 9 value sets singly, other features deviating in one place", "thorough": "features deviating in up to two places"}
TIMEOUT = 60
UNITS = ["days", "hours", "minutes", "seconds", "day", "hour", "s", "h", "milliseconds"]
PER = dict(days=1, day=1, hours=24, hour=24, h=24, minutes=1440, seconds=86400, s=86400, milliseconds=86400000)
EPOCH = ["2001-02-03", "2001-02-03 00:00:00", "2000-02-28 12:00:00", "1900-01-01", "1999-12-31 23:59:59", "1970-01-01T00:00:00", "0001-01-01 00:00:00", "1582-10-04 00:00:00", "2001-2-3 6:0:0", "1970-01-01 00:00:00.0",
         "1850-01-01 00:00", "1600-02-29 18:00:00"]
CAL = [None, "standard", "gregorian", "proleptic_gregorian", "julian", "noleap", "365_day", "360_day", "all_leap", "366_day"]
VALS = [[0.0, 1.0, 2.0], [0.5, 0.75, 1.5], [59.0, 60.0, 61.0], [-1.0, 0.0, 1.0], [730000.0, 730001.0, 730002.5], [365.0, 366.0, 367.0], [28.0, 29.0, 31.0], [1.25, 3.5, 4.0], [3652.0, 3651.0, 3650.0], [1461.25, 1461.5, 1461.75]]
NAME = ["time", "t", "TIME", "date", "forecast_time", "T2"]
ATT = [{}, {"long_name": "time"}, {"standard_name": "time"}, {"long_name": "Time of (UT) measurement", "axis": "T"}, {"long_name": "elapsed", "bounds": "tb"}]
DT = ["f8", "i4", "f4", "i8", "i2"]
KIND = ["1d", "2d", "3d", "second", "groups", "split", "data", "scalar", "two", "aux", "ffi2110", "ffi2310"]


def cases(tier):
    big = tier == "thorough"
    for u, e, c in itertools.product(range(len(UNITS)), range(len(EPOCH)), range(len(CAL))):
        if not big and (u + e + c) % 2 and u and e and c:
            continue
        for v in range(len(VALS)):
            if not big and (u + e + c + v) % 3 and (u or e or c):
                continue
            yield dict(u=u, e=e, c=c, v=v)
    other = dict(n=range(1, len(NAME)), a=range(1, len(ATT)), dt=range(1, len(DT)), kind=KIND[1:])
    for u, e, c, v in itertools.product((0, 1, 3), (0, 2, 7), (0, 5, 7), (0, 1, 4)):
        for d in deviations(dict(u=u, e=e, c=c, v=v), other, 2 if big or (u + e + c + v) % 5 == 0 else 1):
            yield d
    for ffi in (1001, 1010, 1020, 2010, 3010, 4010):
        for x, t, v, w in itertools.product(range(len(XN)), range(len(TU)), range(5), range(3)):
            if not big and (x + t + v + w) % 3 and v and w:
                continue
            yield dict(na=ffi, x=x, t=t, v=v, w=w)


# ------------------------------------------------------------------ calendars by counting days

def month_lengths(cal, y):
    if cal == "360_day":
        return [30] * 12
    leap = {"noleap": False, "all_leap": True, "julian": y % 4 == 0, "greg": y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)}[cal]
    return [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def step_days(cal, date, n):
    """The date n days after `date` (n may be negative), by counting years, months and days."""
    y, m, d = date
    doy = sum(month_lengths(cal, y)[:m - 1]) + d - 1 + n
    while doy < 0:
        y -= 1
        doy += sum(month_lengths(cal, y))
    while doy >= sum(month_lengths(cal, y)):
        doy -= sum(month_lengths(cal, y))
        y += 1
    ml = month_lengths(cal, y)
    m = 0
    while doy >= ml[m]:
        doy -= ml[m]
        m += 1
    return [y, m + 1, doy + 1]


def jdn(date, cal):
    """Day number from a fixed origin for the proleptic Gregorian or Julian calendar."""
    y, m, d = date
    base = [2000, 1, 1]
    n = 0
    while base[0] < y:
        n += sum(month_lengths(cal, base[0]))
        base[0] += 1
    while base[0] > y:
        base[0] -= 1
        n -= sum(month_lengths(cal, base[0]))
    return n + sum(month_lengths(cal, y)[:m - 1]) + d - 1


def from_jdn(n, cal):
    return step_days(cal, [2000, 1, 1], n)


def mixed(date, days):
    """Standard calendar: Julian until 1582-10-04, Gregorian from 1582-10-15."""
    off = jdn([1582, 10, 15], "greg") - (jdn([1582, 10, 4], "julian") + 1)
    n = jdn(date, "greg") if tuple(date) >= (1582, 10, 15) else jdn(date, "julian") + off
    n += days
    return from_jdn(n, "greg") if n >= jdn([1582, 10, 15], "greg") else from_jdn(n - off, "julian")


def first_date(units, epoch, cal, value):
    ymd, _, hms = epoch.replace("T", " ").partition(" ")
    y, m, d = [int(x) for x in ymd.split("-")]
    t = ([float(x) for x in hms.split(":")] if hms else []) + [0, 0, 0]
    sec = round((t[0] * 3600 + t[1] * 60 + t[2]) * 1000) + round(value * 86400000 / PER[units])
    days = sec // 86400000
    cal = {None: "standard", "gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}.get(cal, cal)
    if cal == "standard":
        return mixed([y, m, d], days)
    return step_days({"proleptic_gregorian": "greg"}.get(cal, cal), [y, m, d], days)


def valid(c):
    ep = EPOCH[c["e"]]
    cal = CAL[c["c"]]
    if cal == "360_day" and ep.startswith(("1999-12-31",)):
        return False
    if cal in ("noleap", "365_day") and "-02-29" in ep:
        return False
    if PER[UNITS[c["u"]]] == 1 and VALS[c["v"]][0] < 0 and ep.startswith("0001"):
        return False
    return not (VALS[c["v"]][0] < 0 and ep.startswith("0001"))                # no year 0


def run(case):
    if "na" in case:
        return from_na(case)
    if not valid(case):
        return dict(n=0)
    return from_nc(case)


def from_nc(c):
    u, ep, cal = UNITS[c["u"]], EPOCH[c["e"]], CAL[c["c"]]
    vals = list(VALS[c["v"]])
    name = NAME[c.get("n", 0)]
    att = dict(ATT[c.get("a", 0)])
    dt = DT[c.get("dt", 0)]
    kind = c.get("kind", "1d")
    if dt[0] == "i":
        vals = [float(int(v)) if len({int(x) for x in vals}) == 3 else float(int(vals[0]) + i) for i, v in enumerate(vals)]
        if dt == "i2" and max(vals) > 30000:
            vals = [100.0, 101.0, 102.0]
    if dt == "f4":
        vals = [float(np.float32(v)) for v in vals]
    units = "%s since %s" % (u, ep)
    att["units"] = units
    if cal:
        att["calendar"] = cal
    dims = {name: dict(n=3, coord=vals, dtype=dt, attrs=att), "x": dict(n=2, coord=[1.0, 5.0], attrs={}), "y": dict(n=2, coord=[10.0, 30.0], attrs={}), "w": dict(n=4, coord=[1.0, 2.0, 4.0, 8.0], attrs={})}
    dn = {"1d": [name], "2d": [name, "x"], "3d": [name, "x", "y"], "second": ["x", name], "ffi2110": [name, "x"], "ffi2310": [name, "x"], "aux": [name, "x"]}.get(kind, [name])
    vs = [dict(name="v", dims=dn, data=counted(3 * 2 ** (len(dn) - 1), 10.25), attrs={"units": "K"})]
    kw = {}
    if kind == "groups":
        vs.append(dict(name="g", dims=["w"], data=counted(4, 900.0), attrs={}))
        vs.append(dict(name="b", dims=[name, "x"], data=counted(6, 2000.0), attrs={}))
    elif kind == "split":
        kw["size_limit"] = 2
    elif kind == "aux":
        vs.append(dict(name="a", dims=[name], data=counted(3, 2000.0), attrs={}))
    elif kind.startswith("ffi"):
        kw["requested_ffi"] = int(kind[3:])
    elif kind == "data":
        vs = [dict(name="when", dims=["w"], data=[5.0, 6.0, 7.5, 9.0], attrs={"units": units, **({"calendar": cal} if cal else {})})]
    elif kind == "scalar":
        vs.append(dict(name="s0", dims=[], data=[vals[0]], attrs={"units": units, **({"calendar": cal} if cal else {})}))
    elif kind == "two":
        dims["ref"] = dict(n=2, coord=[3.0, 4.0], attrs={"units": "hours since 1990-05-06 00:00:00"})
        vs = [dict(name="v", dims=[name, "ref"], data=counted(6, 10.25), attrs={})]
    if "bounds" in att:
        dims["nb"] = dict(n=2, coord=None)
        vs.append(dict(name="tb", dims=[name, "nb"], data=[vals[0], vals[1], vals[1], vals[2], vals[2], vals[2] + 1], attrs={}, skip=True))
    used = {d for v in vs for d in v["dims"]}
    ds = dict(dims={k: d for k, d in dims.items() if k in used}, vars=vs, gattrs={})
    make_nc("i.nc", ds)
    try:
        names = nappy.convertNCToNA("i.nc", "o.na", float_format="%.15g", **kw)
    except Exception as e:
        return dict(fail="conversion fails: " + tb(e))
    try:
        files = read_all(names)
    except Exception as e:
        return dict(fail="invalid output: %s\n%s" % (err(e), text(names[0])[:1200]))
    if kind == "split":
        if len(files) != 2:
            return dict(fail="files %s" % names)
        joined = sum([list(f.axes[0][1]) for f in files], [])
        if not same(joined, vals, 1e-12):
            return dict(fail="times %s instead of %s" % (joined, vals))
    else:
        m, found = match_vars(ds, files)
        if m:
            return dict(fail=m + "\n" + text(names[0])[:1200])
    for f in files:
        for k, (axn, av) in enumerate(f.axes):
            src = None
            for d in ds["dims"].values():
                if d.get("coord") and len(d["coord"]) and "since" in str(d.get("attrs", {}).get("units")) and same(d["coord"], av, 1e-12) or kind == "split":
                    src = dims[name] if kind == "split" else d
            if src is None:
                continue
            un = src["attrs"]["units"]
            if not " ".join(axn.split()).endswith("(%s)" % un):
                return dict(fail="axis name %r does not end with the units %r" % (axn, un))
            if not same(src["coord"], av, 1e-12) and kind != "split":
                return dict(fail="axis %s holds %s instead of %s" % (axn, av, src["coord"]))
            if k == 0:
                exp = first_date(u, ep, cal, vals[0])
                if f.d["DATE"] != exp:
                    return dict(fail="DATE is %s, the first time %s %s (%s) is %s" % (f.d["DATE"], vals[0], units, cal, exp))
    if kind == "data":
        o = found["when"][1]
        if not " ".join(o.full.split()).endswith("(%s)" % units):
            return dict(fail="variable name %r does not end with the units %r" % (o.full, units))
    if kind == "scalar":
        head = "\n".join(files[0].d["SCOM"] + files[0].d["NCOM"])
        if "units = " + units not in head or "value = %s" % vals[0] not in head:
            return dict(fail="scalar time %s %s is not in the header:\n%s" % (vals[0], units, head))
    return dict(sig=h(repr([f.text.split("History")[0] for f in files])))


# ------------------------------------------------------------------ NASA Ames to NetCDF

XN = ["Time", "Time (s)", "Elapsed time from start (hours)", "time (days since 2001-02-03 00:00:00)", "Time (seconds since 1999-12-31 23:59:59)", "Height (m)", "Time (days since 2000-1-1)", "time (hours since 1-1-1 0:0:0)", "Time (days since 1999-12-1 6:00:00)", "time (seconds since 2000-01-01T06:00:00)", "Time (days since 1850-01-01 00:00)", "Time since launch (hours since 2001-3-4 05:06:07.5)"]
TU = [None, "hours since 2003-04-30 10:00:00", "days since 1900-01-01 00:00:00", "seconds since 2000-02-29 00:00:00", "minutes since 1970-01-01 00:00:00"]
XV = [("u", 0.0), ("n", 0.0), ("d", 50000.0), ("f", -3.0), ("n", 0.125)]


def from_na(c):
    ffi = c["na"]
    kind, base = XV[c["v"]]
    if ffi == 1020 and kind == "n":
        kind = "u"
    pos = c["w"]                              # which axis is the time
    desc = dict(ffi=ffi, M=3, NV=1, NAUXV=1 if ffi != 1001 else 0, NX=[2, 3, 2][:max(0, ffi // 1000 - 1)], NXDEF=[2, 1, 2][:max(0, ffi // 1000 - 1)], NVPM=2, xkind=kind)
    d = gen.build(desc)
    if pos >= d["NIV"]:
        return dict(n=0)
    if d["NIV"] == 1:
        d["X"] = [x - 100.0 + base for x in d["X"]]
    else:
        d["X"][pos] = [x - 100.0 + base for x in d["X"][pos]]
    d["XNAME"][pos] = XN[c["x"]]
    put("f.na", spec.encode(d))
    tu = TU[c["t"]]
    kw = dict(time_units=tu) if tu else {}
    try:
        nappy.convertNAToNC("f.na", "o.nc", time_warning=False, **kw)
    except Exception as e:
        return dict(fail="conversion fails: " + tb(e))
    nc = NC("o.nc")
    v = [x for x in nc.data_vars().values() if len(x.dims) == d["NIV"] and x.attrs.get("nasa_ames_var_number") is not None]
    if len(v) != 1:
        return dict(fail="variables %s" % list(nc.vars))
    for k in range(d["NIV"]):
        ax = nc.vars[v[0].dims[k]]
        exp = full_axes(d)[k]
        if not close15(ax.data, exp):
            return dict(fail="axis %d holds %s instead of %s" % (k, ax.data.tolist(), exp))
        un = split(d["XNAME"][k])[1]
        if k == pos and "ime" in XN[c["x"]]:
            want = un if "since" in un else tu or un
        else:
            want = un
        got = ax.attrs.get("units")
        if (want and got != want) or (not want and got not in (None, "", "Not known")):
            return dict(fail="axis %d (%s) has units %r instead of %r" % (k, d["XNAME"][k], got, want))
        if ax.attrs.get("calendar", "standard") not in ("standard", "gregorian", "proleptic_gregorian"):
            return dict(fail="calendar %s" % ax.attrs["calendar"])
    # and back
    try:
        names = nappy.convertNCToNA("o.nc", "b.na", float_format="%.15g")
        f = NAFile(names[0])
    except Exception as e:
        return dict(fail="conversion back fails: " + tb(e))
    for k in range(d["NIV"]):
        if not close15(f.axes[k][1], full_axes(d)[k]):
            return dict(fail="back: axis %d holds %s instead of %s" % (k, f.axes[k][1], full_axes(d)[k]))
        u = nc.vars[v[0].dims[k]].attrs.get("units")
        if u and "since" in u and not f.axes[k][0].endswith("(%s)" % u):
            return dict(fail="back: axis %d is called %r, units %r" % (k, f.axes[k][0], u))
    u = nc.vars[v[0].dims[0]].attrs.get("units") or ""
    if "since" in u:
        a, _, b = u.partition(" since ")
        exp = first_date(a, b, None, full_axes(d)[0][0])
        # (whether there is a year 0 depends on the calendar's conventions)
        if exp[0] > 0 and f.d["DATE"] != exp:
            return dict(fail="back: DATE %s instead of %s" % (f.d["DATE"], exp))
    return dict(n=2, transitions=2, sig=h(f.text.split("History")[0] + repr(sorted(nc.vars))))


def close15(a, b):
    return same(np.asarray(a, float), np.asarray(b, float), 1e-12)
