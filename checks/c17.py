from common import *
from nch import *
from c16 import norm, tree
import re

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of override sets and of two- and three-call histories on the real conversion; headers are read by the independent decoder and compared with those of the conversion without overrides"
RULE = ("every subset of the ten overridable items x value forms (lists, strings, awkward texts) x datasets (one file, several files, auxiliary variables, split files, without any comments) x entry points. "
        "Oracle: the decoder accepts each file, overridden items are as requested, comments are the requested block at the beginning of the existing ones, everything else equals the output without overrides (the column-title comment follows the names), and the caller's dictionary is unchanged. "
        "Histories: every ordered pair of small override sets, and one conversion object written repeatedly; each result equals that of the call alone. Distinct = distinct outputs.")
BOUNDS = {"quick": "all 1024 subsets for the main forms, subsets of size <=2 and >=9 for the others; all pairs of 0/1-item sets", "thorough": "all subsets x all forms x all datasets; all pairs of sets of up to 2 items"}
TIMEOUT = 120
KEYS = ["DATE", "RDATE", "ANAME", "MNAME", "ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM"]
KIND = ["plain", "aux", "groups", "split", "bare"]
FORMS = ["list", "str", "odd", "old", "dup", "empty"]
NVARS = dict(plain=2, aux=2, groups=1, split=2, bare=1)


def cases(tier):
    big = tier == "thorough"
    for m in range(1024):
        r = bin(m).count("1")
        for k, kind in enumerate(KIND):
            for f, form in enumerate(FORMS):
                full = (k + f) % 5 == 0 or r <= 2 or r >= 9
                if big or full:
                    yield dict(m=m, kind=kind, form=form, api=["na", "csv", "xr"][(m + k + f) % 3 if r > 1 else 0])
                    if r <= 1:
                        yield dict(m=m, kind=kind, form=form, api="csv")
                        yield dict(m=m, kind=kind, form=form, api="xr")
    sets = [m for m in range(1024) if bin(m).count("1") <= (2 if big else 1)] + [1023]
    for a in sets:
        for b in sets:
            for k, kind in enumerate(KIND):
                if big and (a + b + k) % 5 and bin(a).count("1") + bin(b).count("1") > 2:
                    continue
                yield dict(hist=[a, b], kind=kind)


def build(kind):
    n = 5
    dims = {"t": dict(n=n, coord=[0.0, 1.0, 2.0, 3.0, 4.0], attrs={"units": "days since 2001-02-03"})}
    vs = [dict(name="v", dims=["t"], data=counted(n, 10.25), attrs={"units": "K"} if kind != "bare" else {})]
    if kind in ("plain", "split"):
        vs.append(dict(name="w", dims=["t"], data=counted(n, 30.0), attrs={}))
    if kind == "aux":
        dims["x"] = dict(n=2, coord=[5.0, 6.0], attrs={})
        vs = [dict(name="v", dims=["t", "x"], data=counted(10, 10.25), attrs={"units": "K"}), dict(name="w", dims=["t", "x"], data=counted(10, 30.25), attrs={}),
              dict(name="a", dims=["t"], data=counted(5, 900.0), attrs={}), dict(name="b", dims=["t"], data=counted(5, 950.0), attrs={})]
    if kind == "groups":
        dims["s"] = dict(n=3, coord=[1.0, 2.0, 4.0], attrs={})
        vs.append(dict(name="g", dims=["s"], data=counted(3, 9000.0), attrs={"note": "x"}))
    g = {} if kind == "bare" else {"title": "T", "source": "S", "institution": "I", "history": "made", "comment": "one\n----\ntwo\n----", "note": "n n"}
    return dict(dims=dims, vars=vs, gattrs=g)


def value(key, form, kind):
    """(value given by the caller, value expected in the header)"""
    n = NVARS[kind]
    if key == "DATE":
        v = [2010, 3, 4]
        return ("2010 3 4", v) if form == "str" else (tuple(v), v) if form == "odd" else ([1901, 12, 31], [1901, 12, 31]) if form == "old" else (v, v)
    if key == "RDATE":
        v = [2011, 11, 12]
        return ("2011 11 12", v) if form == "str" else (["2011", "11", "12"], v) if form == "odd" else (v, v)
    if key in ("VNAME", "ANAME"):
        m = 2 if key == "ANAME" and kind == "aux" else n
        if key == "ANAME" and kind != "aux":
            return None, None
        v = [["%s%d" % (key.lower(), i) for i in range(m)], ["First %s (units %d)" % (key, i) for i in range(m)]][form in ("list", "odd")]
        return (" ".join(v), v) if form == "str" else (tuple(v), v) if form == "odd" else (v, v)
    if key in ("SCOM", "NCOM"):
        v = {"list": ["new %s 1" % key, "new %s 2" % key], "str": ["only %s" % key], "odd": ["%s: a" % key, "", "  b = c, d", "{e}"], "old": ["new 1"], "dup": ["new 1", "----", "new 1", "one", "----", "T", "two"], "empty": []}[form]
        return ("\n".join(v), v) if form == "str" else (tuple(v), v) if form == "odd" else (v, v)
    v = {"list": "New %s" % key, "str": "n", "odd": "A (b); c, d: 5 'x'  y", "old": "1 2 3", "dup": "T", "empty": ""}[form]
    return v, v


def overrides(m, form, kind):
    given, exp = {}, {}
    for i, k in enumerate(KEYS):
        if (m >> i) & 1:
            g, e = value(k, form, kind)
            if g is not None:
                given[k], exp[k] = g, e
    return given, exp


def convert(api, kind, given, out):
    kw = dict(size_limit=2) if kind == "split" else {}
    if given is not None:
        kw["na_items_to_override"] = given
    if api == "csv":
        return nappy.convertNCToCSV("i.nc", out, **kw)
    if api == "xr":
        import xarray as xr
        with xr.open_dataset("i.nc", use_cftime=True, decode_timedelta=False) as ds:
            return nappy.convertXarrayObjectsToNA([ds[v].load() for v in ds.variables], list(ds.attrs.items()), out, **kw)
    return nappy.convertNCToNA("i.nc", out, **kw)


def fetch(names):
    out = [norm(text(n)) for n in names]
    for n in names:
        os.remove(n)
    return out


def decode(t, api):
    if api == "csv":
        # header items are one per line, so only numbers are separated by commas
        return nappy_dict(t)
    return spec.decode(t)


def nappy_dict(t):
    put("tmp.csv", t)
    lines = t.split("\n")
    nl = int(lines[0].split(",")[0])
    i = [1]

    def take(n=1):
        r = lines[i[0]:i[0] + n]
        i[0] += n
        return r
    ffi = int(lines[0].split(",")[1])
    d = dict(FFI=ffi, ONAME=take()[0], ORG=take()[0], SNAME=take()[0], MNAME=take()[0])
    d["vol"] = take()[0]
    dates = [int(x) for x in re.findall(r"-?\d+", take()[0])]
    d["DATE"], d["RDATE"] = dates[:3], dates[3:]
    d["dx"] = take()[0]
    if ffi == 2010:
        take(3)
        d["XNAME"] = take(2)
    else:
        d["XNAME"] = take(1)
    d["NV"] = int(take()[0])
    d["x"] = take(2)
    d["VNAME"] = take(d["NV"])
    if ffi in (1010, 2010):
        na = int(take()[0])
        if na:
            take(2)
        d["ANAME"] = take(na)
    d["SCOM"] = take(int(take()[0]))
    d["NCOM"] = take(int(take()[0]))
    if i[0] != nl:
        raise ValueError("header has %d lines, %d declared" % (i[0], nl))
    d["rest"] = lines[nl:]
    return d


def comments_ok(new, base, got, key):
    """the requested block at the beginning of the existing lines (after their title)"""
    new, base, got = [[l.strip() for l in x] for x in (new, base, got)]
    if base and "Comments follow" in base[0]:
        return got == base[:1] + new + base[1:]
    return got == new + base


def title_line(names, x, delim=","):
    return ",".join([x] + names)


def run(case):
    kind = case["kind"]
    ds = build(kind)
    make_nc("i.nc", ds)
    if "hist" in case:
        return history(case)
    api, form = case["api"], case["form"]
    given, exp = overrides(case["m"], form, kind)
    keep = copy.deepcopy(given)
    base = fetch(convert(api, kind, None, "o.na"))
    try:
        names = convert(api, kind, given, "o.na")
    except Exception as e:
        return dict(fail="fails: " + tb(e))
    if given != keep:
        return dict(fail="the caller's overrides are changed to %s" % given)
    got = fetch(names)
    if len(got) != len(base):
        return dict(fail="%d files instead of %d" % (len(got), len(base)))
    for i, (b, g) in enumerate(zip(base, got)):
        try:
            db = decode(b, api)
            dg = decode(g, api)
        except Exception as e:
            return dict(fail="file %d is invalid: %s\n%s" % (i, err(e), g[:1500]))
        for k in sorted(set(db) | set(dg)):
            if k in ("NSCOML", "NNCOML", "NLHEAD"):
                continue
            e, v = db.get(k), dg.get(k)
            if k == "NCOM":
                # the last line repeats the names of the columns
                if db["FFI"] in (1001, 1010):
                    v, e = v[:-1], e[:-1]
                    if dg["FFI"] == 1001 and dg["NCOM"][-1].strip() != title_line([x.strip() for x in dg["VNAME"]], dg["XNAME"][0].strip()):
                        return dict(fail="file %d: column titles %r for %s" % (i, dg["NCOM"][-1], dg["VNAME"]))
            if k in exp and k in ("SCOM", "NCOM"):
                if not comments_ok(exp[k], e, v, k):
                    return dict(fail="file %d: %s is\n%s\nrequested %s in addition to %s" % (i, k, "\n".join(v), exp[k], e))
                continue
            if k in exp:
                e = exp[k]
            if v != e:
                return dict(fail="file %d: %s is %r instead of %r (overriding %s)" % (i, k, v, e, sorted(given)))
    # nothing is left behind
    after = fetch(convert(api, kind, None, "o.na"))
    if after != base:
        return dict(fail="a later conversion without overrides differs:\n%s\n-- instead of --\n%s" % (first_diff(after, base)))
    return dict(n=3, transitions=3, sig=h(repr(got)))


def first_diff(a, b):
    for x, y in zip(a, b):
        for p, q in zip(x.split("\n"), y.split("\n")):
            if p != q:
                return p, q
    return "".join(a)[:800], "".join(b)[:800]


def history(case):
    kind = case["kind"]
    a, b = case["hist"]
    ga, _ = overrides(a, "list", kind)
    gb, _ = overrides(b, "odd", kind)
    alone = fetch(convert("na", kind, copy.deepcopy(gb), "o.na"))
    alone_a = fetch(convert("na", kind, copy.deepcopy(ga), "o.na"))
    shared = copy.deepcopy(gb)
    for i in range(2):
        one = fetch(convert("na", kind, shared, "o.na"))
        if one != alone:
            return dict(fail="call %d with the same overrides after others: %r instead of %r" % ((i + 1,) + first_diff(one, alone)))
        x = fetch(convert("na", kind, copy.deepcopy(ga), "o.na"))
        if x != alone_a:
            return dict(fail="first call repeated: %r instead of %r" % first_diff(x, alone_a))
    # one conversion object, written several times
    import nappy.nc_interface.nc_to_na as m
    c = m.NCToNA("i.nc", na_items_to_override=copy.deepcopy(gb))
    c.convert()
    for i in range(3):
        c.writeNAFiles("p.na", size_limit=2 if kind == "split" else None)
        one = fetch(c.output_files_written)
        if one != alone:
            return dict(fail="writing the same conversion object, time %d: %r instead of %r" % ((i + 1,) + first_diff(one, alone)))
    return dict(n=8, transitions=8, sig=h(repr(alone)))
