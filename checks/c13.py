import os
os.environ["NAPPY_LOCAL_ATTRIBUTES"] = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "no_local_attributes.ini")
from common import *
from nch import *
from ncu import full_axes, aux_axis
from c08 import split_default

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of files and of histories of repeated conversions on the real code; every NASA Ames result is read by the independent decoder and compared with the original dataset"
RULE = ("every convertible structure within the bounds x header styles, names, comment counts and shapes, missing elements, scale factors, time axes; converted to NetCDF and back once, twice or three times. "
        "After every round: each data variable exactly once with scaled values, missing elements, axes and units, data variables in the original order, auxiliary variables still auxiliary, header texts and dates kept, and every comment line present in order. "
        "Distinct = distinct outputs.")
BOUNDS = {"quick": "every 7th structure of the thorough read bounds (all small ones); feature combinations deviating from the base in up to 3 places on 7 structures; up to 3 rounds; one dimension up to 257 (variables 129)", "thorough": "every structure x scale; up to 4 deviations; up to 4 rounds"}
ASSUMES = "run with empty local attributes (NAPPY_LOCAL_ATTRIBUTES), because the packaged ones replace the organisation by design"
TIMEOUT = 120
CONV = (1001, 1010, 1020, 2010, 3010, 4010)
FEAT = dict(NS=[0, 1, 3, 6], NN=[0, 1, 3, 6], comm=["rich", "text"], head=["vol", "odd", "noorg", "noname", "nothing"], names=["bare", "odd", "same"], scal=[1], vals=["frac", "exp", "dig", "zero"],
            miss=["V", "A", "all"], time=[0, 1, 2], xkind=["u", "d", "n"], rounds=[2, 3])

EMPTY = dict(noorg=["ORG"], noname=["ONAME"], nothing=["ONAME", "ORG", "SNAME", "MNAME"])     # header texts that are empty


def cases(tier):
    big = tier == "thorough"
    for i, s in enumerate(gen.structures("thorough", CONV)):
        if s["ffi"] in (3010, 4010) and not big and i % 21 and s["M"] * s["NV"] > 1:
            continue
        if big or i % 7 == 0 or s["M"] * s["NV"] <= 2:
            yield dict(s, scal=i % 2)
            if big:
                yield dict(s, scal=1 - i % 2, xkind="u", rounds=2)
    for s in gen.large(CONV, (17, 33, 65, 101, 129, 257) if not big else gen.SIZES, nv=129 if not big else 513):
        yield dict(s, rounds=1)
    for s in gen.samples(CONV):
        for r in (1, 2, 3):
            yield dict(s, rounds=r)
    for s in gen.small_structures(CONV):
        s = dict(s, NV=3, NS=2, NN=2)
        if s["ffi"] != 1001:
            s["NAUXV"] = 2
        for c in deviations(s, FEAT, 4 if big and s["ffi"] in (1001, 1010, 2010) else 3 if big or s["ffi"] in (1001, 1020) else 2):
            if s["ffi"] == 1020 and c.get("xkind") == "n" or (c.get("miss") == "A" and s["ffi"] == 1001):
                continue
            if big and c.get("rounds") == 3:
                c = dict(c, rounds=4)
            yield c


def build(case):
    case = dict(case)
    odd = {k: case.pop(k) for k in ("head", "names", "comm") if case.get(k) in ("odd", "same", "text") or k == "head" and case.get(k) in EMPTY}
    time = case.pop("time", None)
    case.pop("rounds", None)
    m = case.pop("miss", None)
    if m:
        case["miss"] = [["V", 0, 1]] if m == "V" else [["A", 0, 1], ["A", 1, 0]] if m == "A" else [["V", n, p] for n in range(case["NV"]) for p in range(0, 60, 1 if n == 1 else 2)]
    d = gen.build(case)
    if odd.get("head") in EMPTY:
        d.update({k: "" for k in EMPTY[odd["head"]]})
    elif odd.get("head"):
        d.update(ONAME="O'Neil; J. (PI)", ORG="NERC; Earth, Sea: (UK).", SNAME="WRF = v3.1 - test", MNAME="m", DATE=[2012, 12, 31], RDATE=[2013, 1, 1])
    if odd.get("names") == "odd":
        d["VNAME"] = ["Ozone (number) density (m-3)", "zenith angle", "a/b ratio (%)"][:d["NV"]]
        if d.get("ANAME"):
            d["ANAME"] = ["Latitude (deg)", "NO2 (ppb v)"][:d["NAUXV"]]
    elif odd.get("names"):
        d["VNAME"] = ["same name (K)"] * d["NV"]
        if d.get("ANAME"):
            d["ANAME"] = ["same name (m)"] * d["NAUXV"]
    if odd.get("comm"):
        d["SCOM"] = ["colon: in text", "== heading ==", "key = value", "  indented (text)", "'quoted' text", "last"][:d["NSCOML"]]
        d["NCOM"] = ["History: text", "title:   mine", "# hash", "100% \\n", "Variable x: y", "-"][:d["NNCOML"]]
        d["NSCOML"], d["NNCOML"] = len(d["SCOM"]), len(d["NCOM"])
    if time is not None:
        units, date = [("days since 1999-02-03 00:00:00", None), ("seconds since 1900-01-01 00:00:00", None), ("hours since 2000-03-01 06:00:00", None)][time]
        d["XNAME"][0] = ["Time (%s)", "Elapsed time in UT (%s)", "time (%s)"][time] % units
        x0 = full_axes(d)[0][0]
        import datetime
        start = [datetime.datetime(1999, 2, 3), datetime.datetime(1900, 1, 1), datetime.datetime(2000, 3, 1, 6)][time]
        t = start + datetime.timedelta(**{units.split()[0]: x0})
        d["DATE"] = [t.year, t.month, t.day]
    return d


def subsequence(lines, of):
    it = iter(of)
    return all(any(l == o for o in it) for l in lines)


def verify(d, names, label):
    try:
        files = read_all(names)
    except Exception as e:
        return "%s: invalid output: %s\n%s" % (label, err(e), text(names[0])[:2500])
    bad = lambda m: "%s: %s\n%s" % (label, m, "\n".join(text(n)[:2500] for n in names[:2]))
    na = d.get("NAUXV") or 0
    fa = full_axes(d)
    exp = [("data variable %d" % n, "V", d["VNAME"][n], d["V"][n], d["VMISS"][n], d["VSCAL"][n], fa) for n in range(d["NV"])]
    exp += [("auxiliary variable %d" % a, "A", d["ANAME"][a], d["A"][a], d["AMISS"][a], d["ASCAL"][a], [aux_axis(d)]) for a in range(na)]
    left = [(i, k, v) for i, f in enumerate(files) for k, v in enumerate(f.all())]
    where = []
    for lab, kind, name, vals, miss, scal, axes in exp:
        raw = np.array(vals, float).reshape([len(a) for a in axes])
        mask = raw == miss
        hits = [l for l in left if same_masked(raw * scal, mask, l[2]) and all(same(a, l[2].axes[k][1]) for k, a in enumerate(axes)) and same_units(name, l[2].full)]
        if not hits:
            return bad("no variable holds %s %r %s missing %s; files hold %s" % (lab, name, (raw * scal).tolist(), mask.tolist(), [(v.kind, v.full, v.data.tolist(), v.miss) for i, k, v in left]))
        i, k, v = hits[0]
        left = [l for l in left if l[2] is not v]
        if v.kind != kind:
            return bad("%s %r has become %s" % (lab, name, v.kind))
        if kind == "V":
            where.append((i, k))
        for j, (axn, av) in enumerate(v.axes):
            if not same_units(d["XNAME"][j], axn):
                return bad("axis %d of %s is %r, originally %r" % (j, lab, axn, d["XNAME"][j]))
    if left:
        return bad("additional variables %s" % [(v.kind, v.full) for i, k, v in left])
    if where != sorted(where):
        return bad("data variables are in another order: %s" % where)
    for f in files:
        g = f.d
        for k in ("ONAME", "ORG", "SNAME", "MNAME", "DATE"):
            if g[k] != d[k]:
                return bad("%s is %r instead of %r" % (k, g[k], d[k]))
        sc, nc = [l.strip() for l in g["SCOM"]], [l.strip() for l in g["NCOM"]]
        for key, got in (("SCOM", sc), ("NCOM", nc)):
            lines = [l.strip() for l in d[key] if l.strip()]
            if not subsequence(lines, got):
                return bad("%s lines %s are not all there in order" % (key, lines))
            for l in set(lines):
                if got.count(l) > lines.count(l) and l not in sum((list(d[x]) for x in ("SCOM", "NCOM") if x != key), []) and len(l) > 3:
                    return bad("%s line %r is there %d times" % (key, l, got.count(l)))
        if not any("%04d-%02d-%02d - NASA Ames File created/revised" % tuple(d["RDATE"]) in l for l in g["NCOM"] + g["SCOM"]):
            return bad("revision date is lost")
    return None


def same_units(a, b):
    ua, ub = split(a)[1], split(b)[1]
    if ua != ub and split_default(a)[1] and split_default(b)[1]:        # brackets within the name, by the documented rule
        ua, ub = split_default(a)[1], split_default(b)[1]
    return ua == ub or (not ua and ub == "Not known")


def run(case):
    d = build(case)
    put("r0.na", spec.encode(d))
    rounds = case.get("rounds", 1)
    src, outs = "r0.na", []
    for r in range(1, rounds + 1):
        if r > 1:
            if len(names) != 1:
                break
            src = names[0]
        try:
            nappy.convertNAToNC(src, "r%d.nc" % r, time_warning=False)
            names = nappy.convertNCToNA("r%d.nc" % r, "r%d.na" % r)
        except Exception as e:
            return dict(fail="round %d fails: %s\n%s" % (r, tb(e), text(src)[:2000]), n=r)
        if len(set(names)) != len(names):
            return dict(fail="names repeat: %s" % names)
        m = verify(d, names, "round %d" % r)
        if m:
            return dict(fail=m + "\nfrom\n" + text("r0.na")[:1500], n=r)
        outs.append("".join(text(n) for n in names))
    return dict(n=rounds, transitions=2 * rounds, sig=h(repr(outs)))
