from common import *
from nch import *
import c14

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of shapes, axis styles, storage types and names of a dataset on the real conversion; the files are read by an independent decoder and compared element by element"
RULE = ("every shape up to 4 dimensions within the size bound with every combination of axis styles (even, uneven, increasing, decreasing, fractional, without coordinates, zero-based, single point, changes of the spacing at the end or in the middle only), "
        "every storage type of coordinates and data on small shapes, 45 unusual names of variables and dimensions, every name/units form for variables and axes, and in-memory variables whose axes differ in exactly one respect (values, length, name, units). Compared: values by position, coordinates along each axis in order, declared counts and spacings (the decoder rebuilds each axis from them), names and units. Distinct = distinct outputs.")
BOUNDS = {"quick": "1-D n<=7, 2-D <=4x5, 3-D <=3x3x4, 4-D <=2x2x3x4, styles of all axes deviating from the base in up to 2 places; types and names singly on 4 shapes; one length up to 2049", "thorough": "1-D n<=12, 2-D <=6x6, 3-D <=4x4x5, 4-D <=3x3x3x4, all style combinations for up to 3 dimensions, 3 deviations for 4; types and names in pairs"}
TIMEOUT = 60

AXES = dict(u=lambda n, b: [b + 10.0 * i for i in range(n)],
            d=lambda n, b: [b - 2.5 * i for i in range(n)],
            n=lambda n, b: [b + v for v in (0.0, 1.0, 4.0, 5.5, 12.0, 14.25, 30.0, 31.0, 35.5, 36.0, 40.25, 50.0)[:n]] + [b + 50.0 + 3.0 * (i - 11) + 0.5 * (i % 3) for i in range(12, n)],
            f=lambda n, b: [round(b + 0.1 * i, 6) for i in range(n)],
            l=lambda n, b: [b + 1.0 * i if i < n - 1 or n < 3 else b + 1.0 * i + 0.5 for i in range(n)],     # uneven at the end only
            z=lambda n, b: [0.25 * i for i in range(n)],
            e=lambda n, b: [-1e-5 * (n - i) for i in range(n)],
            p=lambda n, b: [1e5 + 0.01 * i for i in range(n)],
            m=lambda n, b: [b + 10.0 * i + (3.0 if i == n // 2 else 0.0) for i in range(n)],      # uneven in the middle only
            c=None)
STYLES = "udnflmzepc"
DN = ["t", "x", "y", "z"]
CT = [("f4", "f"), ("f4", "u"), ("i4", "u"), ("i2", "d"), ("u1", "D"), ("i8", "n"), ("i1", "D"), ("u2", "U")]
DT = ["f4", "i4", "i2", "u1", "i1", "i8", "u4"]
LN = [None, "Air temperature", "Air temperature (K)", "Ratio (dry) of x", "two\nlines", "  blanks  ", "name, with comma", "x_y (a) (b)", "very " * 60 + "long", "w" * 1001, "value of f() at top", "f()g (dry) h", "( ) of {x}", "Potential temperature K", "K"]
UN = [None, "K", "W m-2", "%", "1", "", "kg (air)", "degrees_north", {"i4": 1}, "a b"]


def cases(tier):
    big = tier == "thorough"
    lim = {1: [12], 2: [6, 6], 3: [4, 4, 5], 4: [3, 3, 3, 4]} if big else {1: [7], 2: [4, 5], 3: [3, 3, 4], 4: [2, 2, 3, 4]}
    for nd in (1, 2, 3, 4):
        for sh in itertools.product(*[range(1, k + 1) for k in lim[nd]]):
            small = sum(sh) <= nd + 3 or len(set(sh)) == nd
            for st in styles(nd, (nd if nd < 4 else 3) if big else (1 if nd == 4 and not small else 2 if nd < 4 else 1)):
                if not big and nd == 3 and not small and len(set(st)) > 2:
                    continue
                yield dict(sh=sh, st=st)
    for sh in ((3,), (2, 3), (2, 2, 3), (2, 1, 3, 2)):
        nd = len(sh)
        for k in range(nd):
            for c in range(len(CT)):
                yield dict(sh=sh, st="n" * nd, ct={str(k): c})
                if big:
                    for k2 in range(k):
                        for c2 in range(len(CT)):
                            yield dict(sh=sh, st="u" * nd, ct={str(k): c, str(k2): c2})
        for dt in DT:
            for nv in (1, 2, 3):
                yield dict(sh=sh, st="u" * nd, dt=dt, nv=nv)
        for vals in ("frac", "exp", "dig", "zero", "int"):
            for nv in (1, 2):
                yield dict(sh=sh, st="n" * nd, vals=vals, nv=nv)
        for l in range(len(LN)):
            for u in range(len(UN)):
                yield dict(sh=sh, st="u" * nd, vn=[l, u])
                for k in range(nd):
                    yield dict(sh=sh, st="u" * nd, xn=[k, l, u])
        for i in range(len(ODD_NAMES)):
            for k in range(-1, nd):
                for u in (0, 1):
                    yield dict(sh=sh, st="n" * nd, odd=[k, i], vn=[0, u])
        for key in ("standard_name", "title", "both", "two", "all"):
            yield dict(sh=sh, st="u" * nd, how=key)
    for n in (17, 33, 65, 101, 129, 257, 513, 1001, 1025, 2049):        # one large length
        for nd in (1, 2, 3, 4):
            for k in range(nd):
                for a in STYLES:
                    if a != "t":
                        yield dict(sh=[n if i == k else 2 + (i + k) % 2 for i in range(nd)], st="".join(a if i == k else "u" for i in range(nd)))
        if n <= 513:
            for nd in (1, 2, 3):
                yield dict(sh=[2, 3, 2][:nd], st="u" * nd, nv=n)
    for c in c14.cases("quick"):                # in-memory variables whose axes differ in one respect
        if c.get("src") == "xr":
            yield dict(c14=c)
    if big:
        for l, u, l2, u2 in itertools.product(range(len(LN)), range(len(UN)), range(len(LN)), range(len(UN))):
            yield dict(sh=(2, 2), st="uu", vn=[l, u], xn=[(l + u2) % 2, l2, u2])


def styles(nd, k):
    for base in ("u", "n"):
        for r in range(min(k, nd) + 1):
            for where in itertools.combinations(range(nd), r):
                for alt in itertools.product([s for s in STYLES if s != base], repeat=r):
                    if base == "n" and r == nd:
                        continue
                    if base == "n" and "u" in alt:
                        continue
                    st = [base] * nd
                    for w, a in zip(where, alt):
                        st[w] = a
                    yield "".join(st)


def build(case):
    dims, vs = {}, []
    sh = case["sh"]
    for i, (n, s) in enumerate(zip(sh, case["st"])):
        coord = None if s == "c" else AXES[s](n, 100.0 * (i + 1))
        dims[DN[i]] = dict(n=n, coord=coord, attrs={})
    for k, c in (case.get("ct") or {}).items():
        dt, st = CT[c]
        d = dims[DN[int(k)]]
        n = d["n"]
        d["dtype"] = dt
        d["coord"] = {"f": [round(5 + 0.1 * i, 6) for i in range(n)], "u": [10 + 3 * i for i in range(n)], "d": [-5 - 7 * i for i in range(n)], "D": [100 - 9 * i for i in range(n)],
                      "n": [1, 5, 7, 20][:n], "U": [60000 + i for i in range(n)]}[st]
    if case.get("xn"):
        k, l, u = case["xn"]
        set_names(dims[DN[k]]["attrs"], l, u)
    count = size(sh)
    for v in range(case.get("nv", 1)):
        base = 1.0 + v * count if case.get("dt", "f8") in ("u1", "i1") else 1000.0 * (v + 1) + 0.0
        if case.get("vals"):
            data = [gen.val(case["vals"], v * count + i) for i in range(count)]
        else:
            data = counted(count, base)
        vs.append(dict(name="v%d" % v, dims=DN[:len(sh)], dtype=case.get("dt", "f8"), data=data, attrs={}))
    if case.get("vn"):
        set_names(vs[0]["attrs"], *case["vn"])
    if case.get("odd"):
        k, i = case["odd"]
        new = ODD_NAMES[i]
        if k < 0:
            vs[0]["name"] = new
        else:
            dims = {new if d == DN[k] else d: x for d, x in dims.items()}
            for v in vs:
                v["dims"] = [new if d == DN[k] else d for d in v["dims"]]
    if case.get("how"):
        a = vs[0]["attrs"]
        if case["how"] == "both":
            a.update(long_name="The long name", standard_name="std", units="m")
        elif case["how"] == "two":
            a.update(title="The title", standard_name="std", name="other", units="m")
        elif case["how"] == "all":
            a.update(id="i7", short_name="sn", name="other", title="The title", standard_name="std", long_name="The long name", units="m")
        else:
            a.update({case["how"]: "some_name", "units": "m"})
    return dict(dims=dims, vars=vs, gattrs={})


def set_names(a, l, u):
    if LN[l] is not None:
        a["long_name"] = LN[l]
    if UN[u] is not None:
        a["units"] = UN[u]


def name_ok(attrs, fallback, full):
    """Whether the header name consists of the source's name followed by its units in brackets."""
    name = fallback
    for k in ("long_name", "standard_name", "title"):
        if attrs.get(k):
            name = attrs[k]
            break
    units = attrs.get("units", "")
    units = str(list(units.values())[0]) if isinstance(units, dict) else units
    name, full = " ".join(name.split()), " ".join(full.split())
    exp = [name + " (%s)" % units if units else name]
    if units and name.endswith("(%s)" % units):
        exp.append(name)
    return None if full in exp else "%r (%r) is called %r" % (name, units, full)


def run(case):
    if "c14" in case:
        return c14.run(case["c14"])
    ds = build(case)
    make_nc("i.nc", ds)
    try:
        names = nappy.convertNCToNA("i.nc", "o.na")
    except Exception as e:
        return dict(fail="conversion fails: " + tb(e))
    try:
        files = read_all(names)
    except Exception as e:
        return dict(fail="invalid output: %s\n%s" % (err(e), text(names[0])[:1500]))
    msg, found = match_vars(ds, files)
    if msg:
        return dict(fail=msg + "\n" + text(names[0])[:1500])
    for v in ds["vars"]:
        i, o = found[v["name"]]
        m = name_ok(v["attrs"], v["name"], o.full)
        if m:
            return dict(fail="variable " + m)
        for k, d in enumerate(v["dims"]):
            m = name_ok(ds["dims"][d].get("attrs") or {}, d, o.axes[k][0])
            if m:
                return dict(fail="axis " + m)
    return dict(sig=h("".join(f.text for f in files)))
