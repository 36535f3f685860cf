from common import *
from nch import *
from c16 import tree
import itertools

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of datasets and requested formats on the real conversion; outputs are read by the independent decoder and compared with the source"
RULE = ("every requested format index (the nine formats, unknown numbers) x every dataset of the product: 1 to 4 dimensions, axis lengths including 1, axis styles per axis, additional variables of the same structure, auxiliary variables on the first axis (with and without NASA Ames numbers), variables at regular and irregular marks, a second structure, missing elements, times. "
        "Oracle: either the call raises and no file appears, or every file is of the requested format, is valid, and together they hold every variable with its values, missing elements and axes exactly once. The format of the default output must be honoured. Distinct = distinct outputs.")
BOUNDS = {"quick": "axis lengths <=4 (1-D <=6), one or two additions at a time (every 4th combination on the larger shapes)", "thorough": "axis lengths <=5 (1-D <=12), up to three additions, all axis style combinations"}
TIMEOUT = 120
REQ = [1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010, 5010, 9999, 1]
ADD = ["same", "aux", "auxnum", "marks", "marksnum", "oddmarks", "other1", "other2", "scalar", "missing", "time", "time2", "auxmiss"]
STY = {"u": lambda n: [5.0 + 10 * i for i in range(n)], "d": lambda n: [100 - 2.5 * i for i in range(n)], "n": lambda n: [0.0, 1.0, 4.0, 5.5, 12.0, 14.25, 30.0, 31.0, 35.5, 36.0, 40.25, 50.0][:n],
       "f": lambda n: [round(0.1 * i, 6) for i in range(n)], "z": lambda n: [0.5 * i for i in range(n)], "e": lambda n: [1e-7 * (i + 3) for i in range(n)],
       "l": lambda n: [10.0 * i if i < n - 1 or n < 3 else 10.0 * i + 1e-3 for i in range(n)], "b": lambda n: [1e6 + 0.001 * i for i in range(n)],
       "r": lambda n: [float(i // 1) if i % 2 == 0 else i + 0.25 for i in range(n)], "c": None}


def cases(tier):
    big = tier == "thorough"
    shapes = [(n,) for n in range(1, 13 if big else 7)] + list(itertools.product(range(1, 6 if big else 5), repeat=2)) \
        + list(itertools.product(range(1, 4 if big else 3), repeat=3)) + [(3, 2, 4)] + [(1, 2, 1, 3), (2, 2, 2, 2), (2, 3, 1, 2), (1, 1, 1, 1)] + [(1, 2, 1, 2, 2)]
    for sh in shapes:
        nd = len(sh)
        if nd <= 2 and (big or nd == 1 or sum(sh) <= 6):
            sts = ["".join(s) for s in itertools.product(STY, repeat=nd)]
        elif nd == 2:
            sts = ["".join(s) for s in itertools.product("un", STY)]
        else:
            sts = ["u" * nd, "n" * nd, ("udnf" * 2)[:nd], ("nlez" * 2)[:nd]]
        for st in sts:
            for k in range(0, 4 if big else 3):
                if k > 1 and st not in ("u" * nd, "n" * nd) or k == 3 and sum(sh) > 6:
                    continue
                if k == 1 and not big and nd == 2 and st[0] not in "un":
                    continue
                for j, add in enumerate(itertools.combinations(ADD, k)):
                    if not big and k and sum(sh) > 4 and (j + sum(sh) + len(st) + sum(map(ord, st))) % 4:
                        continue
                    yield dict(sh=sh, st=st, add=add)


def build(case):
    sh, st, add = case["sh"], case["st"], case["add"]
    names = ["t", "x", "y", "z", "w"]
    dims = {}
    for i, (n, s) in enumerate(zip(sh, st)):
        dims[names[i]] = dict(n=n, coord=None if STY[s] is None else STY[s](n), attrs={"units": "m"})
        if i == 0 and ("time" in add or "time2" in add) and dims["t"]["coord"]:
            dims["t"]["attrs"] = {"units": "days since 2001-02-03"}
            if "time2" in add:
                dims["t"]["attrs"] = {"units": "hours since 1999-12-31 12:00:00", "calendar": "noleap"}
    dn = names[:len(sh)]
    count = size(sh)
    vs = [dict(name="v", dims=dn, data=counted(count, 1000.5), attrs={})]
    if "missing" in add:
        vs[0]["fill"] = -999.0
        vs[0]["data"][count // 2] = None
    if "same" in add:
        vs.append(dict(name="v2", dims=dn, data=counted(count, 5000.0), attrs={"long_name": "Second", "units": "K"}))
    n0 = sh[0]
    c0 = axis0(dims, n0)
    for k, nm in enumerate(("aux", "auxnum", "auxmiss")):
        if nm in add:
            v = dict(name="a_" + nm, dims=["t"], data=counted(n0, 20000.0 + 500 * k), attrs={"nasa_ames_aux_var_number": {"i4": [k]}} if nm == "auxnum" else {})
            if nm == "auxmiss":
                v["fill"] = 1e20
                v["data"][n0 - 1] = None
            vs.append(v)
    for nm, step in (("marks", 2), ("marksnum", 2), ("oddmarks", 3)):
        if nm in add:
            m = c0[::step] if nm != "oddmarks" else c0[:-1] or c0[:1]
            d = "m_" + nm
            dims[d] = dict(n=len(m), coord=m, attrs=dims["t"]["attrs"])
            vs.append(dict(name="k_" + nm, dims=[d], data=counted(len(m), 30000.0 + 1000 * step + (nm == "marksnum") * 100), attrs={"nasa_ames_aux_var_number": {"i4": [5]}} if nm == "marksnum" else {}))
    if "other1" in add:
        dims["o"] = dict(n=3, coord=[7.0, 8.0, 10.0], attrs={})
        vs.append(dict(name="o1", dims=["o"], data=counted(3, 40000.0), attrs={}))
    if "other2" in add:
        dims["p"] = dict(n=2, coord=[70.0, 80.0], attrs={})
        dims["q"] = dict(n=3, coord=[7.0, 8.0, 9.0], attrs={})
        vs.append(dict(name="o2", dims=["p", "q"], data=counted(6, 50000.0), attrs={}))
    if "scalar" in add:
        vs.append(dict(name="s", dims=[], data=[3.25], attrs={"units": "kg"}))
    return dict(dims=dims, vars=vs, gattrs={"title": "T"})


def axis0(dims, n):
    c = dims["t"]["coord"]
    return list(c) if c else [float(i) for i in range(n)]


def attempt(ds, req, before):
    try:
        names = nappy.convertNCToNA("i.nc", "o.na", float_format="%.12g", **({} if req is None else {"requested_ffi": req}))
    except Exception as e:
        return None, err(e), None
    new = {n for n in tree() if n not in before}
    if new != set(names) or len(set(names)) != len(names):
        return "returned %s, files written %s" % (names, sorted(new)), None, None
    try:
        files = read_all(names)
    except Exception as e:
        return "invalid output: %s\n%s" % (err(e), text(names[0])[:1500]), None, None
    m, _ = match_vars(ds, files)
    return (m + "\n" + text(names[0])[:1500] if m else None), None, files


def run(case):
    ds = build(case)
    make_nc("i.nc", ds)
    before = tree()
    sig = []
    m, e, files = attempt(ds, None, before)
    if m:
        return dict(fail="default output: " + m)
    default = {f.ffi for f in files} if files else set()
    if e and len(case["sh"]) <= 4:
        return dict(fail="default conversion fails: " + e)
    for n in tree() - before:
        os.remove(n)
    honoured = 0
    for req in REQ:
        m, e, files = attempt(ds, req, before)
        if m:
            return dict(fail="requested %s: %s" % (req, m))
        left = tree() - before
        if e:
            if left:
                return dict(fail="requested %s is refused (%s) but files are written: %s" % (req, e, sorted(left)))
            if default == {req}:
                return dict(fail="requested %s, the format of the default output, is refused: %s" % (req, e))
            sig.append("-")
            continue
        for n in left:
            os.remove(n)
        bad = {f.ffi for f in files} - {req}
        if bad:
            return dict(fail="requested %s, written %s" % (req, sorted(bad)))
        honoured += 1
        sig.append(h("".join(f.text for f in files)))
    return dict(n=len(REQ) + 1, transitions=len(REQ) + 1, count={"honoured": honoured}, sig=h(repr(sig)))
