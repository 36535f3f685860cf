from common import *
from nch import *
import re

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of row counts, limits, datasets and options on the real conversion; split files are compared line by line with the unsplit output of the same call"
RULE = ("every number of rows and every limit within the bound (and no limit) x datasets (one or several 1-D structures, missing elements, time axis, text scalar, 1-D besides 2-D, auxiliary variables of FFIs 1010 and 1020, 2-D only) x delimiter x float format x annotations x header x entry point (NetCDF to NASA Ames, to CSV, names only, in-memory). "
        "Oracle: a group of FFI 1001 longer than the limit becomes ceil(n/limit) files of at most limit rows, whose data lines end to end are those of the unsplit file and whose headers are the unsplit header except for the volume line k of n; everything else is byte for byte the unsplit output; the list returned is exactly the set of files that appear, in order. Distinct = distinct outputs.")
BOUNDS = {"quick": "rows <=6, limits <=7; large limits 999/1000/1001 rows once", "thorough": "rows <=12, limits <=13, all options; 1000 files (names beyond three digits)"}
TIMEOUT = 300
OPTS = [{}, {"delimiter": ","}, {"annotation": True}, {"no_header": True}, {"float_format": "%.3f"}, {"delimiter": "\t", "annotation": True, "float_format": "%g"},
        {"delimiter": ";", "no_header": True, "float_format": "%s"}, {"no_header": True, "annotation": True}]
OUT = ["o.na", "out/res.txt", "noext", None]
KIND = ["one", "two", "time", "miss", "groups", "aux1010", "aux1020", "d2", "d2aux", "both", "scalar", "uneven"]


def cases(tier):
    big = tier == "thorough"
    N = 12 if big else 6
    for n in range(1, N + 1):
        for k, kind in enumerate(KIND):
            for o in range(len(OPTS)):
                for api in ("na", "csv", "xr"):
                    if not big and (n + k + o) % 3 and not (kind in ("one", "groups") and api == "na"):
                        continue
                    if (api == "csv" and "delimiter" in OPTS[o]) or (api == "xr" and kind in ("aux1010",) and False):
                        continue
                    for out in range(len(OUT)):
                        if (n + k + o + out) % (2 if big else 4) and api != "na" or (api == "xr" and OUT[out] is None):
                            continue
                        if not big and (o + out + n) % 4 and kind != "one":
                            continue
                        yield dict(n=n, kind=kind, o=o, api=api, out=out, lim=N + 1)
    for n, l in ((1000, 1), (1000, 100), (1001, 1000), (2001, 1000), (100, 1)) if big else ((150, 1), (1001, 1000), (1000, 1000)):
        yield dict(n=n, kind="one", o=0, api="na", out=0, only=l)
        yield dict(n=n, kind="two", o=3, api="na", out=0, only=l)


def build(case):
    n, kind = case["n"], case["kind"]
    coord = [10.0 * i for i in range(n)]
    if kind == "uneven":
        coord = [10.0 * i + (i * i) * 0.5 for i in range(n)]
    dims = {"t": dict(n=n, coord=coord, attrs={"units": "m"})}
    vs = []
    if kind in ("time", "both"):
        dims["t"]["attrs"] = {"units": "days since 2001-02-03"}
    if kind not in ("d2",):
        vs.append(dict(name="v", dims=["t"], data=counted(n, 100.25), attrs={"units": "K"}))
    if kind in ("two", "groups", "both"):
        vs.append(dict(name="w", dims=["t"], data=counted(n, 5000.5), attrs={"long_name": "W w"}))
    if kind == "miss":
        vs[0]["fill"] = -99.0
        vs[0]["data"] = [None if i % 2 else x for i, x in enumerate(vs[0]["data"])]
    if kind in ("groups", "both"):
        dims["s"] = dict(n=4, coord=[1.0, 2.0, 4.0, 8.0], attrs={})
        vs.append(dict(name="g", dims=["s"], data=counted(4, 9000.0), attrs={}))
    if kind in ("d2", "d2aux", "both"):
        dims["x"] = dict(n=3, coord=[1.0, 2.0, 3.0], attrs={})
        d = "s" if kind == "both" else "t"
        vs.append(dict(name="b", dims=[d, "x"], data=counted(3 * dims[d]["n"], 20000.0), attrs={}))
    if kind == "aux1010":
        vs.append(dict(name="a", dims=["t"], data=counted(n, 700.0), attrs={"nasa_ames_aux_var_number": {"i4": [0]}}))
        vs[0]["attrs"]["nasa_ames_var_number"] = {"i4": [0]}
    if kind == "aux1020":
        dims["t"]["coord"] = coord = [10.0 * i for i in range(2 * n)]
        dims["t"]["n"] = 2 * n
        vs[0]["data"] = counted(2 * n, 100.25)
        dims["m"] = dict(n=n, coord=coord[::2], attrs={"units": "m"})
        vs.append(dict(name="a", dims=["m"], data=counted(n, 700.0), attrs={"nasa_ames_aux_var_number": {"i4": [0]}}))
    if kind == "scalar":
        vs.append(dict(name="s0", dims=[], data=[42.5], attrs={"units": "kg"}))
    return dict(dims=dims, vars=vs, gattrs={"title": "T", "history": "made", "comment": "one\ntwo", "note": "n n"})


HIST = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d - Converted")


def norm(t):
    return HIST.sub("TIME - Converted", t)


def tree(root="."):
    out = set()
    for p, ds, fs in os.walk(root):
        out |= {os.path.normpath(os.path.join(p, f)) for f in fs}
    return out


def call(case, limit, only_names=False):
    kw = dict(OPTS[case["o"]])
    out = OUT[case["out"]]
    if case["api"] == "xr":
        import xarray as xr
        with xr.open_dataset("i.nc", use_cftime=True, decode_timedelta=False) as ds:
            vs = [ds[v].load() for v in ds.variables]
            return nappy.convertXarrayObjectsToNA(vs, list(ds.attrs.items()), out, size_limit=limit, **kw)
    if only_names:
        kw["only_return_file_names"] = True
    if limit is not None:
        kw["size_limit"] = limit
    if case["api"] == "csv":
        return nappy.convertNCToCSV("i.nc", out, **kw)
    return nappy.convertNCToNA("i.nc", out, **kw)


def collect(before, names):
    """Texts of the files written, in the order returned; then removes them."""
    new = tree() - before
    names = [os.path.normpath(n) for n in names]
    if len(set(names)) != len(names):
        return "names repeat: %s" % names, None
    if set(names) != new:
        return "returned %s, but these files appeared: %s" % (names, sorted(new)), None
    texts = [norm(text(n)) for n in names]
    for n in names:
        os.remove(n)
    return None, texts



def head_len(lines):
    m = re.search(r"(\d+)\s*[,;]?\s*(\d+)\s*$", lines[0])
    return int(m.group(1)), int(m.group(2))


def run(case):
    ds = build(case)
    make_nc("i.nc", ds)
    os.makedirs("out", exist_ok=True)
    before = tree()
    kw = OPTS[case["o"]]
    nohead = kw.get("no_header")
    names = call(case, None)
    m, base = collect(before, names)
    if m:
        return dict(fail="no limit: " + m)
    # formats of the groups, from the same conversion with header
    c0 = dict(case, o=0, api="na" if case["api"] != "xr" else "xr")
    m, plain = collect(before, call(c0, None))
    if m:
        return dict(fail="no limit: " + m)
    ffis = [head_len(t.split("\n"))[1] for t in plain]
    if len(plain) != len(base):
        return dict(fail="number of files depends on the options: %d, %d" % (len(plain), len(base)))
    outs = []
    limits = [case["only"]] if case.get("only") else range(1, case["lim"] + 1)
    count = 2
    for limit in limits:
        names = call(case, limit)
        count += 1
        m, got = collect(before, names)
        if m:
            return dict(fail="limit %d: %s" % (limit, m), n=count)
        if case["api"] != "xr":
            ann = [os.path.normpath(x) for x in call(case, limit, True)]
            count += 1
            if tree() != before:
                return dict(fail="asking for names writes files")
            if ann != [os.path.normpath(x) for x in names]:
                return dict(fail="limit %d: announced %s, written %s" % (limit, ann, names), n=count)
        outs.append((names, got))
        k = 0
        for g, (t, ffi) in enumerate(zip(base, ffis)):
            lines = t.split("\n")
            if lines[-1] == "":
                lines.pop()
            nh = 0 if nohead else head_len(lines)[0]
            head, data = lines[:nh], lines[nh:]
            rows = len(data)
            if ffi != 1001 or rows <= limit:
                if k >= len(got) or got[k] != t:
                    return dict(fail="limit %d: output %d, which need not be split, differs from that without limit:\n%s\n-- instead of --\n%s" % (limit, g + 1, (got + ["nothing"])[min(k, len(got))][:1500], t[:1500]), n=count)
                k += 1
                continue
            parts = -(-rows // limit)
            if k + parts > len(got):
                return dict(fail="limit %d: %d files for %d rows (%s)" % (limit, len(got) - k, rows, names), n=count)
            joined = []
            for p in range(parts):
                ls = got[k + p].split("\n")
                if ls[-1] == "":
                    ls.pop()
                hd, body = ls[:nh], ls[nh:]
                if len(body) > limit or not body:
                    return dict(fail="limit %d: part %d of %d has %d rows" % (limit, p + 1, parts, len(body)), n=count)
                if nh:
                    vol = re.findall(r"\d+", hd[5])
                    if [int(x) for x in vol[-2:]] != [p + 1, parts]:
                        return dict(fail="limit %d: part %d of %d has volume line %r" % (limit, p + 1, parts, hd[5]), n=count)
                    for i, (a, b) in enumerate(zip(hd, head)):
                        if i != 5 and a != b:
                            return dict(fail="limit %d: part %d of %d: header line %d is %r instead of %r" % (limit, p + 1, parts, i + 1, a, b), n=count)
                    if re.sub(r"\d+", "N", hd[5]) != re.sub(r"\d+", "N", head[5]):
                        return dict(fail="limit %d: volume line %r" % (limit, hd[5]), n=count)
                if case["o"] == 0 and case["api"] != "csv":
                    try:
                        spec.decode(got[k + p])
                    except Exception as e:
                        return dict(fail="limit %d: part %d is invalid: %s" % (limit, p + 1, err(e)), n=count)
                joined += body
            if joined != data:
                return dict(fail="limit %d: rows end to end differ from the unsplit ones:\n%s\n-- instead of --\n%s" % (limit, "\n".join(joined[:20]), "\n".join(data[:20])), n=count)
            k += parts
        if k != len(got):
            return dict(fail="limit %d: %d files instead of %d" % (limit, len(got), k), n=count)
    return dict(n=count, transitions=count, sig=h(repr(outs)))
