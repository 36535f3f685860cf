from common import *
from nch import *
import c16
import c25
import re

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of datasets, layouts, output names and options on the real CSV conversions, against the NASA Ames output of the same dataset with the separator exchanged"
RULE = ("NASA Ames to CSV: every dataset structure of every format within the bounds (lists, ragged records, auxiliary and text variables, missing values, fractional and exponential numbers, items with commas and braces) x output named / derived / in a directory x annotation x no header; also compact, tabbed and wrapped input layouts. "
        "NetCDF to CSV and in-memory to CSV: every dataset kind x rows x every pair of the other options (variables, exclusion, overrides, format index, float format, limit, names only, header, annotation). "
        "Oracle: the NASA Ames output of the same dataset and options with a separator that occurs nowhere, exchanged for a comma, equals the CSV byte for byte; with the default separator it has the same lines and items; both decode to the same dataset; annotation adds one column and no-header removes the header lines, both exactly as in NASA Ames; the input is unchanged and no other file appears. Distinct = distinct outputs.")
BOUNDS = {"quick": "structures of the quick tier; 12 dataset kinds, rows <=3", "thorough": "structures of the thorough tier x all value styles; rows <=8, all triples of options"}
TIMEOUT = 120
SEP = "@#@"
NAMES = [("i.na", None, "i.csv"), ("i.na", "o.csv", "o.csv"), ("d.x/in.put.na", None, "d.x/in.put.csv"), ("noext", None, "noext.csv"), ("i.na", "sub/o.txt", "sub/o.txt"), ("d.x/noext", None, "d.x/noext.csv"), ("i.na", "o", "o")]
STYLES = [{}, dict(vals="frac"), dict(vals="exp"), dict(vals="zero", scal=1), dict(head="vol", names="brace", comm="rich"), dict(miss=1), dict(NS=2, NN=3, comm="rich"), dict(head="brace", vals="dig")]
XOPT = [("float_format", "%.3f"), ("float_format", "%s"), ("size_limit", 1), ("size_limit", 2), ("annotation", True), ("no_header", True), ("var_ids", 0), ("exclude_vars", 0), ("na_items_to_override", {"MNAME": "m, n", "ORG": "o"}), ("requested_ffi", 0), ("only_return_file_names", True), ("delimiter", "\t"), ("delimiter", "; ")]


def cases(tier):
    big = tier == "thorough"
    for s in gen.small_structures() + gen.structures(tier):
        for st in range(len(STYLES)):
            yield dict(t="na", d=s, st=st, name=0)
    for s in gen.samples():
        for nm in (0, 1):
            for lay in (0, 3):
                yield dict(t="na", d=s, st=[i for i, x in enumerate(STYLES) if not x.get("miss")][0], name=nm, lay=lay)
    for s in gen.small_structures():
        for nm in range(len(NAMES)):
            for lay in range(4):
                yield dict(t="na", d=s, st=4, name=nm, lay=lay)
    for kind in c16.KIND:
        for n in range(1, 9 if big else 4):
            for r in range(0, 4 if big else 3):
                for sel in itertools.combinations(range(len(XOPT)), r):
                    if len({XOPT[i][0] for i in sel}) < r:
                        continue
                    for api in ("nc", "xr"):
                        if api == "xr" and any(XOPT[i][0] in ("var_ids", "exclude_vars", "only_return_file_names") for i in sel):
                            continue
                        yield dict(t="nc", kind=kind, n=n, sel=list(sel), api=api, name=(n + r + len(sel)) % 3)
    for kind in c16.KIND:
        for nm in range(len(NAMES)):
            yield dict(t="nc", kind=kind, n=2, sel=[], api="nc", name=nm)
    for kind in c25.KINDS:
        for sel in ([], [4], [5], [0], [4, 5]):
            yield dict(t="nc", kind="c25." + kind, n=3, sel=sel, api="nc", name=0)


def snapshot():
    return {p: open(p, "rb").read() for p in c16.tree()}


def layout(d, k):
    """Other ways to lay the same dataset out."""
    t = spec.encode(d)
    if not k:
        return t
    if k == 3:
        return spec.encode(d, dict(wraph=2, wrapd=3, trail="  "))
    return spec.encode(d, dict(sep=" ") if k == 1 else dict(sep="\t"))


def same_items(na, csv):
    a, b = lines_of(na), lines_of(csv)
    if len(a) != len(b):
        return "%d lines instead of %d" % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y and x.split("    ") != y.split(",") and x.replace("    ", ",", 1) != y:
            return "line %d is %r, in NASA Ames %r" % (i + 1, y, x)


def annotated(plain, t, sep=","):
    """Annotation: one column more on the left of every line."""
    a, b = lines_of(plain), lines_of(t)
    if len(a) != len(b):
        return "%d lines with annotation instead of %d" % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        note, s, rest = y.partition(sep)
        if not s or rest != x:
            return "line %d with annotation is %r, without %r" % (i + 1, y, x)
        if re.search(r"\d,\d", note) or not note.strip():
            return "line %d has annotation %r" % (i + 1, note)


def run_na(case):
    st = dict(STYLES[case["st"]])
    if st.pop("miss", None):
        st["miss"] = [["V", 0, 0]] + ([["A", case["d"]["NAUXV"] - 1, 0]] if case["d"].get("NAUXV", 0) > 3 or (case["d"].get("NAUXV") and case["d"]["ffi"] in (1010, 1020, 2010, 3010, 4010)) else [])
    d = gen.build(dict(case["d"], **{k: v for k, v in st.items()}))
    src, arg, want = NAMES[case["name"]]
    for p in ("d.x", "sub"):
        os.makedirs(p, exist_ok=True)
    put(src, layout(d, case.get("lay")))
    before = snapshot()
    back = read_na(src)
    outs, n = {}, 0
    for ann in (None, False, True):
        for nohead in (None, False, True):
            kw = {k: v for k, v in (("annotation", ann), ("no_header", nohead)) if v is not None}
            n += 1
            what = "%r to %r with %r: " % (src, arg, kw)
            args = (src,) if arg is None and ann is None else (src, arg)
            if nappy.convertNAToCSV(*args, **kw) is not True:
                return dict(fail=what + "does not return True", n=n)
            after = snapshot()
            if {p for p in after if p not in before} != {want}:
                return dict(fail=what + "files written: %s" % sorted(set(after) - set(before)), n=n)
            if any(after[p] != before[p] for p in before):
                return dict(fail=what + "the input was changed", n=n)
            csv = text(want)
            os.remove(want)
            write_na("ref", copy.deepcopy(back), delimiter=SEP, **kw)
            ref = text("ref")
            write_na("ref", copy.deepcopy(back), **kw)
            na = text("ref")
            os.remove("ref")
            if ref.replace(SEP, ",") != csv:
                return dict(fail=what + "CSV differs from NASA Ames with commas:\n%s\n--- instead of ---\n%s" % (csv[:1500], ref.replace(SEP, ",")[:1500]), n=n)
            m = same_items(na, csv)
            if m:
                return dict(fail=what + m, n=n)
            key = (bool(ann), bool(nohead))
            if outs.setdefault(key, csv) != csv:
                return dict(fail=what + "leaving out an option differs from its default", n=n)
            if key == (False, False):
                a, b = spec.decode(na), spec.decode(csv)
                m = spec.diff(a, b)
                if m:
                    return dict(fail=what + "CSV holds another dataset than NASA Ames: %s" % m, n=n)
                m = spec.diff(a, fmt_items(d, "%.10g"), skip=("X", "DX") if d["FFI"] == 2310 else ())
                if m:
                    return dict(fail=what + "CSV holds another dataset than its input: %s" % m, n=n)
    m = annotated(outs[False, False], outs[True, False])
    if m:
        return dict(fail=m, n=n)
    nh = int(re.match(r"\s*(\d+)", outs[False, False]).group(1))
    for ann in (False, True):
        if lines_of(outs[ann, True]) != lines_of(outs[ann, False])[nh:]:
            return dict(fail="without header (annotation=%r):\n%s\n--- with %d header lines ---\n%s" % (ann, outs[ann, True][:700], nh, outs[ann, False][:1500]), n=n)
    return dict(n=n, transitions=n, sig=[h(v) for v in outs.values()])


def call(api, src, out, kw, csv):
    if api == "xr":
        import xarray as xr
        with xr.open_dataset(src, use_cftime=True, decode_timedelta=False) as ds:
            vs = [ds[v].load() for v in ds.variables]
            at = list(ds.attrs.items())
        return (nappy.convertXarrayObjectsToCSV if csv else nappy.convertXarrayObjectsToNA)(vs, at, out, **kw)
    if csv:
        return nappy.convertNCToCSV(src, out, **kw) if out else nappy.convertNCToCSV(src, **kw)
    return nappy.convertNCToNA(src, out, **kw)


def run_nc(case):
    src, arg, want = NAMES[case["name"]]
    src = src.replace(".na", ".nc")
    for p in ("d.x", "sub"):
        os.makedirs(p, exist_ok=True)
    ds = c25.dataset(case["kind"][4:]) if case["kind"].startswith("c25.") else c16.build(dict(kind=case["kind"], n=case["n"]))
    make_nc(src, ds)
    names = [v["name"] for v in ds["vars"]]
    kw = {}
    for i in case["sel"]:
        k, v = XOPT[i]
        if k == "var_ids":
            v = names[:2]
        if k == "exclude_vars":
            v = names[1:2]
        if k == "requested_ffi":
            v = {"aux1010": 1010, "aux1020": 1020, "d2": 2010, "d2aux": 2010, "one": 1001}.get(case["kind"], 1001)
        kw[k] = v
    out = arg or (want if case["api"] == "xr" else None)
    before = snapshot()

    def go(csv, o, **more):
        try:
            given = {k: v for k, v in kw.items() if csv or k != "delimiter"}
            names = call(case["api"], src, o, copy.deepcopy(dict(given, **more)), csv)
        except Exception as e:
            for p in c16.tree() - set(before):
                os.remove(p)
            return type(e).__name__, None
        names = [os.path.normpath(x) for x in names]
        after = snapshot()
        if any(after.get(p) != before[p] for p in before):
            return "the input was changed", None
        new = sorted(set(after) - set(before))
        for p in new:
            os.remove(p)
        return names, [(p, c16.norm(after[p].decode())) for p in new]
    names1, csv = go(True, out)
    names2, ref = go(False, want, delimiter=SEP)
    names3, na = go(False, want)
    what = "%s %s to %r with %r: " % (case["api"], src, arg, kw)
    if names1 != names2 or names1 != names3:
        return dict(fail=what + "CSV gives %r, NASA Ames %r (with the default separator: %r)" % (names1, names2, names3), n=3)
    if csv is None:
        if isinstance(names1, str) and " " in names1:
            return dict(fail=what + names1, n=3)
        return dict(n=3, transitions=3, sig="refused " + names1)
    if kw.get("only_return_file_names"):
        if csv:
            return dict(fail=what + "writes %r" % [p for p, t in csv], n=3)
    elif sorted(names1) != [p for p, t in csv]:
        return dict(fail=what + "returns %r, writes %r" % (names1, [p for p, t in csv]), n=3)
    base, ext = os.path.splitext(want)
    if any(not p.startswith(base) or not p.endswith(ext) for p in names1):
        return dict(fail=what + "files %r" % names1, n=3)
    for (p, c), (p2, r), (p3, a) in zip(csv, ref, na):
        if r.replace(SEP, ",") != c:
            return dict(fail=what + "%s differs from NASA Ames with commas:\n%s\n--- instead of ---\n%s" % (p, c[:1500], r.replace(SEP, ",")[:1500]), n=3)
        m = same_items(a, c)
        if m:
            return dict(fail=what + p + ": " + m, n=3)
        if not kw.get("annotation") and not kw.get("no_header"):
            m = spec.diff(spec.decode(a), spec.decode(c))
            if m:
                return dict(fail=what + p + " holds another dataset than NASA Ames: %s" % m, n=3)
    return dict(n=3, transitions=3, sig=[h(t) for p, t in csv])


def run(case):
    return run_na(case) if case["t"] == "na" else run_nc(case)
