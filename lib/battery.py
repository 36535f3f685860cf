"""Run as a program: performs a fixed series of calls on the files of a directory and writes {call: digest or result} as JSON.
python battery.py REPO INPUTS OUT STYLE DEBUG"""
import sys
sys.dont_write_bytecode = True
repo, inputs, outfile, style, debug = sys.argv[1:6]
sys.path.insert(0, repo)
import hashlib
import json
import os
import re
import warnings
warnings.simplefilter("ignore")
if debug == "1":
    import logging
    import io
    logging.basicConfig(level=logging.DEBUG, stream=io.StringIO())
    logging.raiseExceptions = True
    logging.Handler.handleError = lambda self, record: errors.append("%s: %s" % (record.name, record.msg))
errors = []
if debug == "2":
    import nappy.utils.compare_na
    import nappy.nc_interface.nc_to_na
    import nappy.na_file.na_file_2010
import nappy
import netCDF4

HIST = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d - Converted")
inputs = os.path.abspath(inputs)
work = os.path.abspath(os.path.dirname(outfile))
out = {}


def name(p):
    """the path p (inside the working directory) in the style asked for"""
    if style == "abs":
        return os.path.abspath(p)
    if style == "dot":
        return "./" + p
    if style == "up":
        return os.path.join("..", os.path.basename(os.getcwd()), p)
    if style == "double":
        return os.path.abspath(p).replace("/", "//")
    return p


def dates(t):
    # the date of writing and the time of the conversion
    t = HIST.sub("TIME - Converted", t)
    lines = t.split("\n")
    m = re.match(r"^(.*\D)(\d{4} \d+ \d+)\s*$", lines[6]) if len(lines) > 6 else None
    if m:
        import datetime
        now = datetime.datetime.now()
        if m.group(2) in ["%d %d %d" % (d.year, d.month, d.day) for d in (now, now - datetime.timedelta(1))]:
            lines[6] = m.group(1) + "TODAY"
    return "\n".join(lines)


def text(p):
    with open(p, "rb") as fh:
        return dates(fh.read().decode("utf-8", "replace"))


def dump(p):
    with netCDF4.Dataset(p) as ds:
        ds.set_auto_maskandscale(False)
        att = lambda o: [(k, HIST.sub("TIME - Converted", repr(o.getncattr(k)))) for k in o.ncattrs()]
        t = repr((ds.data_model, [(k, len(v)) for k, v in ds.dimensions.items()], att(ds), [(k, str(v.dtype), v.dimensions, att(v), v[...].tolist()) for k, v in ds.variables.items()]))
    import datetime
    for k in (-1, 0):
        d = (datetime.datetime.now() + datetime.timedelta(k)).date()
        t = t.replace("%04d-%02d-%02d" % (d.year, d.month, d.day), "TODAY").replace("%d-%d-%d" % (d.year, d.month, d.day), "TODAY")
    return t


def do(key, fn):
    try:
        r = fn()
    except Exception as e:
        r = "%s: %s" % (type(e).__name__, e)
        r = r.replace(os.getcwd(), "CWD")
    out[key] = r if isinstance(r, (list, bool)) or r is None else str(r)


def names(fs):
    return [os.path.basename(f) for f in fs]


def put(p, t):
    with open(p, "w", encoding="utf-8") as fh:
        fh.write(t)


def na(f):
    n = name(f)

    def read():
        with nappy.openNAFile(n) as x:
            x.readData()
            return repr(sorted(x.getNADict().items()))

    def write():
        with nappy.openNAFile(n) as x:
            x.readData()
            d = x.getNADict()
        r = []
        for kw in ({}, dict(annotation=True, delimiter=","), dict(no_header=True, float_format="%.3e")):
            o = nappy.openNAFile(name("w.out"), "w", na_dict=dict(d))
            o.write(**kw)
            o.close()
            r.append(text("w.out"))
        return "\n".join(r)

    def tocsv():
        nappy.convertNAToCSV(n, name("c.csv"))
        return text("c.csv")

    def tonc():
        nappy.convertNAToNC(n, name("c.nc"), time_warning=False)
        return dump("c.nc")

    def objects():
        p, a, g = nappy.readXarrayObjectsFromNA(n)
        return repr([(v.name, v.dims, v.values.tolist(), sorted(v.attrs.items())) for v in list(p) + list(a)]) + HIST.sub("", repr(g))
    for k, fn in (("read", read), ("write", write), ("csv", tocsv), ("nc", tonc), ("objects", objects)):
        do(f + " " + k, fn)


# names of variables of the files used
SELECT = ["v", "w", "a", "u", "q"] + ["v%d" % i for i in range(12)] + ["s", "s0", "s1", "t", "x"]


def nc(f):
    n = name(f)
    for k, kw in (("", {}), ("names", dict(only_return_file_names=True)), ("split", dict(size_limit=2)), ("one", dict(var_ids=["v"])), ("some", dict(var_ids=SELECT)), ("not", dict(exclude_vars=SELECT[::2])), ("excl", dict(exclude_vars=["w", "a"])),
                  ("opts", dict(delimiter=",", annotation=True, float_format="%.4f")), ("over", dict(na_items_to_override={"ORG": "O", "SCOM": ["x", "y"]}))):
        def one():
            fs = nappy.convertNCToNA(n, name("n.na"), **kw)
            return "\n".join(names(fs) + ([] if k == "names" else [text(x) for x in fs]))
        do(f + " na " + k, one)

    def csv():
        fs = nappy.convertNCToCSV(n, name("n.csv"))
        return "\n".join(names(fs) + [text(x) for x in fs])

    def memory():
        import xarray as xr
        with xr.open_dataset(n, use_cftime=True, decode_timedelta=False) as ds:
            vs, at = [ds[v].load() for v in ds.variables], list(ds.attrs.items())
        fs = nappy.convertXarrayObjectsToNA(vs, at, name("m.na"))
        return "\n".join(names(fs) + [text(x) for x in fs])

    def there_and_back():
        fs = nappy.convertNCToNA(n, name("b.na"))
        r = []
        for x in fs:
            nappy.convertNAToNC(name(os.path.relpath(x)), name("b.nc"), time_warning=False)
            r.append(dump("b.nc"))
        return "\n".join(r)
    do(f + " csv", csv)
    do(f + " memory", memory)
    do(f + " back", there_and_back)


os.chdir(inputs)
fs = sorted(os.listdir("."))
for f in fs:
    if f.endswith(".na"):
        na(f)
    elif f.endswith(".nc"):
        nc(f)
import io
import contextlib
nas = [f for f in fs if f.endswith(".na")]
for i, a in enumerate(nas):
    b = nas[(i + 1) % len(nas)]
    for x, y in ((a, a), (a, b)):
        def cmp():
            t = io.StringIO()
            with contextlib.redirect_stdout(t):
                r = nappy.compareNA(name(x), name(y))
            return "%s %s" % (r, t.getvalue().replace(name(x), x).replace(name(y), y))
        do("compare %s %s" % (x, y), cmp)
if errors:
    out["log"] = errors[:5]
with open(outfile, "w", encoding="ascii") as fh:
    json.dump({k: (hashlib.md5(v.encode("utf-8", "surrogateescape")).hexdigest() + " " + v[:4000] if isinstance(v, str) else v) for k, v in out.items()}, fh)
