from common import *
from nch import *
import c16
from c16 import tree, KIND
import shutil

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of input names, output names, datasets and limits on the real conversions, with the directory tree compared before and after every call"
RULE = ("every input name form x output name form (also none) x dataset (one file to several, split or not) x limit x entry point, including every output name that resolves to the input itself (same path, other spelling, link, generated group or volume name). "
        "Oracle: names only writes nothing and returns the list that the real call returns; exactly these files appear, all distinct, in the directory and with the stem and extension of the output name (a single file has exactly that name); without an output name the extension of the input is replaced or added; the input is never changed. Distinct = distinct lists of names.")
BOUNDS = {"quick": "17 input names x 13 output names x 12 datasets x 4 limits, thinned to every 5th combination of NetCDF conversions", "thorough": "all combinations"}
TIMEOUT = 60
INP = ["i.nc", "noext", "a.b.nc", "dir.v1/i.nc", "dir.v1/noext", "dir/a b.nc", "i.na", "i.csv", "i.cdf", "dir.nc/i.nc", "./i.nc", "x.nc.nc", "nc", "i.NC", "ocean.nc", "dir.v1/a.cnc.nc", "noext.n"]
OUT = [None, "o.na", "o.txt", "noext", "out.d/o.na", "out.d/noext", "out.d/o.v1.na", "out/o-001.na", "out/o_1.na", "./o.na", "o.na.na", "out/a b.na", "ABS/o.na"]
LIM = [None, 1, 2, 100]
SELF = ["same", "dot", "abs", "link", "updir", "group1", "group2", "vol", "groupvol", "derived"]


def cases(tier):
    big = tier == "thorough"
    for api in ("na", "csv", "cls"):
        for i, o, k, l in itertools.product(range(len(INP)), range(len(OUT)), range(len(KIND)), range(len(LIM))):
            if not big and (i + o + k + l) % 5 and (i and o):
                continue
            yield dict(i=i, o=o, kind=KIND[k], l=l, api=api)
    for api in ("na2nc", "na2csv"):
        for i, o in itertools.product(range(len(INP)), range(len(OUT))):
            yield dict(i=i, o=o, api=api)
    for s in SELF:
        for api in ("na", "csv", "cls", "na2nc", "na2csv"):
            for only in (False, True):
                for kind in ("one", "groups", "both"):
                    yield dict(self=s, api=api, only=only, kind=kind)


def derived(inp, ext):
    d, b = os.path.split(inp)
    stem, e = os.path.splitext(b)
    if not e:
        stem = b
    return os.path.join(d, stem + "." + ext)


def call(api, inp, out, limit=None, only=False):
    kw = {}
    if api == "cls":
        from nappy.nc_interface.nc_to_na import NCToNA
        c = NCToNA(inp)
        if only:
            return c.constructNAFileNames(out, size_limit=limit)
        c.convert()
        c.writeNAFiles(out, size_limit=limit)
        return c.output_files_written
    if api in ("na", "csv"):
        if limit is not None:
            kw["size_limit"] = limit
        if only:
            kw["only_return_file_names"] = True
        return (nappy.convertNCToNA if api == "na" else nappy.convertNCToCSV)(inp, out, **kw)
    if api == "na2nc":
        return [nappy.convertNAToNC(inp, out, time_warning=False)]
    nappy.convertNAToCSV(inp, out)
    return [out] if out else None


def snapshot():
    out = {}
    for n in tree():
        with open(n, "rb") as fh:
            out[n] = fh.read()
    return out


def make_input(path, api, kind):
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    if api in ("na", "csv", "cls"):
        make_nc(path, c16.build(dict(n=5, kind=kind)))
    else:
        put(path, spec.encode(gen.build(dict(ffi=1010, M=3, NV=2, NAUXV=1, NS=1, NN=1))))


EXT = dict(na="na", cls="na", csv="csv", na2nc="nc", na2csv="csv")


def run(case):
    for d in ("out", "out.d"):
        os.makedirs(d, exist_ok=True)
    if "self" in case:
        return overwrite(case)
    api = case["api"]
    inp, out = INP[case["i"]], OUT[case["o"]]
    if api in ("na2nc", "na2csv") and out:
        out = out.replace(".na", "." + EXT[api])
    if out and out.startswith("ABS"):
        out = os.path.join(os.getcwd(), "out", os.path.basename(out))
    kind = case.get("kind", "one")
    make_input(inp, api, kind)
    expected_out = out or derived(inp, EXT[api])
    before = snapshot()
    lim = LIM[case["l"]] if "l" in case else None
    clash = os.path.normpath(expected_out) == os.path.normpath(inp)
    ann = None
    if api in ("na", "csv", "cls"):
        try:
            ann = call(api, inp, out, lim, True)
        except Exception as e:
            if not clash:
                return dict(fail="asking for names fails: " + tb(e))
        if snapshot() != before:
            return dict(fail="asking for names changes files: %s" % sorted(set(tree()) ^ set(before)))
    try:
        names = call(api, inp, out, lim)
    except Exception as e:
        if snapshot() != before:
            return dict(fail="the call fails (%s) but changes files" % err(e))
        if clash:
            return dict(sig="refused", n=2)
        return dict(fail="fails: " + tb(e))
    after = snapshot()
    key = [k for k in before if os.path.samefile(k, inp)][0] if os.path.exists(inp) else None
    if key is None or after.get(key) != before[key]:
        return dict(fail="the input %s is overwritten or removed (output %s)" % (inp, names))
    new = set(after) - set(before)
    if names is None:
        names = sorted(new)
    rel = [os.path.relpath(n) for n in names]
    if len(set(rel)) != len(rel) or set(rel) != new:
        return dict(fail="returned %s, files that appeared: %s" % (names, sorted(new)))
    if ann is not None and list(ann) != list(names):
        return dict(fail="announced %s, written %s" % (ann, names))
    d, b = os.path.split(os.path.relpath(expected_out))
    stem, ext = os.path.splitext(b)
    for n in rel:
        dn, bn = os.path.split(n)
        if dn != d or not bn.startswith(stem) or os.path.splitext(bn)[1] != ext:
            return dict(fail="%s is not derived from %s (input %s, output given: %s)" % (n, expected_out, inp, out))
    files = {"one": 1, "two": 1, "groups": 2, "both": 2}.get(kind)
    plain = api != "cls" or out or inp.endswith(".nc")
    if len(rel) == 1 and plain and rel[0] != os.path.relpath(expected_out):
        return dict(fail="the only file is called %s instead of %s" % (rel[0], expected_out))
    if files and lim is None and len(rel) != files:
        return dict(fail="%d files: %s" % (len(rel), rel))
    return dict(n=2, transitions=2, sig=h(repr(names)))


def overwrite(case):
    s, api, kind = case["self"], case["api"], case["kind"]
    inp, out, lim = "i.dat", "i.dat", None
    if s == "dot":
        out = "./i.dat"
    elif s == "abs":
        out = os.path.abspath("i.dat")
    elif s == "updir":
        out = "out/../i.dat"
    elif s == "link":
        out = "l.dat"
    elif s in ("group1", "group2"):
        inp, out = "o_%s.dat" % s[-1], "o.dat"
    elif s == "vol":
        inp, out, lim = "o-002.dat", "o.dat", 2
    elif s == "groupvol":
        inp, out, lim = "o_1-003.dat", "o.dat", 2
    elif s == "derived":
        inp, out = "i." + EXT[api], None
    make_input(inp, api, kind)
    if s == "link":
        os.symlink(inp, out)
    before = snapshot()
    raised = None
    try:
        names = call(api, inp, out, lim, case["only"])
    except Exception as e:
        raised = err(e)
    after = snapshot()
    if after.get(inp) != before[inp]:
        return dict(fail="the input %s is overwritten (output %s, %s)" % (inp, out, raised))
    if case["only"] and api in ("na", "csv", "cls") and after != before:
        return dict(fail="asking for names changes files")
    if raised is None and not (case["only"] and api in ("na", "csv", "cls")):
        real = [os.path.realpath(n) for n in names or []]
        if os.path.realpath(inp) in real:
            return dict(fail="the input %s is said to be an output: %s" % (inp, names))
    return dict(sig=h(repr((raised and "refused", sorted(after)))))
