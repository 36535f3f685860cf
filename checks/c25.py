from common import *
from nch import *
from ncu import NC
import c16
import c20
import netCDF4
import numpy as np

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of selections (all subsets, every way to name each member), rename maps, added attributes and append histories on the real conversions, against the full conversion and independently read data"
RULE = ("NetCDF to NASA Ames: datasets with 1-D, 2-D, scalar, text, auxiliary, bounds and look-alike variables x every subset of the variables x chosen / excluded / both / a name alone x order of the names. "
        "NASA Ames to NetCDF: every convertible format with 1-3 variables and 0-2 auxiliary variables x every subset of both x each member named by number, digits, bare or full name, in either order; every rename map over (new, swapped, capital, existing, unknown) names; every set of added global attributes from the alphabet; all combinations of the three. "
        "Appending: every ordered pair of formats x different / equal names x different / equal axes, attributes present or not. "
        "Oracle: exactly the chosen variables, their content as in the full conversion (and as in the source), header and global attributes unchanged except for those given; appending keeps every variable and attribute of the file and adds those of the separate conversion, or is refused and leaves the file as it was. Distinct = distinct outputs.")
BOUNDS = {"quick": "<=6 variables, all subsets; rename maps of <=2 entries", "thorough": "<=7 variables, all pairs of (chosen, excluded) subsets; rename maps of <=3 entries; 2 appends"}
TIMEOUT = 120
CONV = (1001, 1010, 1020, 2010, 3010, 4010)


# ------------------------------------------------------------------ NetCDF to NASA Ames

def dataset(kind):
    T = dict(n=3, coord=[0.0, 10.0, 25.0], attrs={"units": "m"})
    X = dict(n=2, coord=[1.0, 2.0], attrs={})
    S = dict(n=4, coord=[1.0, 2.0, 4.0, 8.0], attrs={})
    one = lambda name, base, **kw: dict(dict(name=name, dims=["t"], data=counted(3, base), attrs={"units": "K", "note": "note of [" + name + "]"}), **kw)
    if kind == "mix":
        return dict(dims=dict(t=T, x=X, s=S), gattrs={"title": "T", "history": "made", "comment": "one\ntwo"}, vars=[
            one("a", 100.0), one("b", 200.0, fill=-99.0), dict(name="g", dims=["s"], data=counted(4, 300.0), attrs={}),
            dict(name="two", dims=["t", "x"], data=counted(6, 400.0), attrs={}), dict(name="z", dims=[], data=[42.5], attrs={"units": "kg"}), dict(name="txt", dims=[], dtype="S", data="hello", attrs={})])
    if kind == "alike":
        return dict(dims=dict(t=T), gattrs={"title": "T"}, vars=[one(n, 100.0 * (i + 1)) for i, n in enumerate(["temp", "Temp", "temp_air", "temp air", "TEMP", "te"])])
    if kind == "odd":
        return dict(dims=dict(t=T), gattrs={"title": "T"}, vars=[one(n, 100.0 * (i + 1)) for i, n in enumerate(["u", "v", "u,v", "0", "1", "None"])])
    if kind == "words":
        return dict(dims=dict(t=T, units=X), gattrs={"title": "T"}, vars=[one(n, 100.0 * (i + 1)) for i, n in enumerate(["a.b", "a*", "title", "v_bnds"])] + [dict(name="data", dims=["t", "units"], data=counted(6, 700.0), attrs={})])
    if kind == "names":
        return dict(dims=dict(t=T, x=X), gattrs={}, vars=[one(n, 100.0 * (i + 1), attrs={"long_name": l}) for i, (n, l) in enumerate([("v", "Same"), ("w", "Same"), ("x1", "v"), ("v_bnds", "w"), ("t2", "t")])])
    if kind == "bounds":
        return dict(dims=dict(t=dict(T, attrs={"units": "m", "bounds": "t_bnds"}), x=X), gattrs={}, vars=[
            one("a", 100.0), dict(name="t_bnds", dims=["t", "x"], data=counted(6, 500.0), attrs={}), dict(name="two", dims=["t", "x"], data=counted(6, 400.0), attrs={}), one("b", 200.0)])
    if kind == "aux":
        return dict(dims=dict(t=T, x=X), gattrs={"title": "T"}, vars=[
            dict(name="p", dims=["t", "x"], data=counted(6, 400.0), attrs={"nasa_ames_var_number": {"i4": [0]}}), dict(name="q", dims=["t", "x"], data=counted(6, 500.0), attrs={"nasa_ames_var_number": {"i4": [1]}}),
            one("h", 100.0, attrs={"nasa_ames_aux_var_number": {"i4": [0]}}), one("k", 200.0, attrs={"nasa_ames_aux_var_number": {"i4": [1]}}), dict(name="m", dims=["x"], data=counted(2, 600.0), attrs={})])
    if kind == "time":
        d = dataset("mix")
        d["dims"]["t"]["attrs"] = {"units": "days since 2001-02-03", "calendar": "noleap"}
        return d
    raise ValueError(kind)


KINDS = ["mix", "alike", "odd", "words", "names", "bounds", "aux", "time"]


def subsets(n):
    return [[i for i in range(n) if m >> i & 1] for m in range(1 << n)]


def nc_cases(big):
    for kind in KINDS:
        n = len(dataset(kind)["vars"])
        for s in subsets(n):
            for how in ("ids", "excl", "tuple", "rev"):
                yield dict(part="nc", kind=kind, s=s, how=how)
            if len(s) == 1:
                yield dict(part="nc", kind=kind, s=s, how="str")
                yield dict(part="nc", kind=kind, s=s, how="xstr")
                yield dict(part="nc", kind=kind, s=s, how="fuzzy")
        for s in subsets(n):
            for x in subsets(n):
                if (big or (len(s) + len(x)) % 3 == 0) and s and x and (n < 6 or (sum(s) + sum(x)) % (3 if big else 7) == 0):
                    yield dict(part="nc", kind=kind, s=s, x=x, how="both")


def header_items(f):
    d = f.d
    return {k: d.get(k) for k in ("ONAME", "ORG", "SNAME", "MNAME", "RDATE")}


def item(v):
    return (v.full, [(a, list(x)) for a, x in v.axes], np.where(v.mask, 0, v.data).tolist(), v.mask.tolist())


def run_nc(case):
    ds = dataset(case["kind"])
    make_nc("i.nc", ds)
    ids = [v["name"] for v in ds["vars"]]
    names = nappy.convertNCToNA("i.nc", "full.na")
    full = read_all(names)
    bounds = {d["attrs"]["bounds"] for d in ds["dims"].values() if "bounds" in (d.get("attrs") or {})}
    m, whole = match_vars(ds, full, [i for i in ids if i not in bounds])
    if m:
        return dict(fail="whole conversion: " + m)
    for n in names:
        os.remove(n)
    sel = [ids[i] for i in case["s"]]
    how = case["how"]
    if how in ("ids", "tuple", "rev"):
        kw = dict(var_ids={"ids": list, "tuple": tuple, "rev": lambda x: list(x)[::-1]}[how](sel))
        want = sel
    elif how == "str":
        kw, want = dict(var_ids=sel[0]), sel
    elif how == "xstr":
        kw, want = dict(exclude_vars=sel[0]), [i for i in ids if i not in sel]
    elif how == "excl":
        kw, want = dict(exclude_vars=sel), [i for i in ids if i not in sel]
    elif how == "fuzzy":
        v = sel[0].replace("_", " ").upper()
        if v in ids or sum(i.lower().replace(" ", "_") == v.lower().replace(" ", "_") for i in ids) != 1:
            return dict(n=0)
        kw, want = dict(exclude_vars=[v]), [i for i in ids if i not in sel]
    else:
        ex = [ids[i] for i in case["x"]]
        kw, want = dict(var_ids=sel, exclude_vars=ex), [i for i in sel if i not in ex]
    if how in ("excl", "xstr", "fuzzy"):
        want = [i for i in want if i not in bounds]
    before = set(os.listdir("."))
    if how == "ids" and not sel:
        return dict(n=0)                     # an empty selection: see DESIGN
    keep = repr(kw)
    arr = [v for v in ds["vars"] if v["name"] in want and v["dims"]]
    try:
        names = nappy.convertNCToNA("i.nc", "o.na", **kw)
    except Exception as e:
        if arr:
            return dict(fail="%s: %s" % (kw, tb(e)))
        names = []
    if repr(kw) != keep:
        return dict(fail="arguments changed: %s to %r" % (keep, kw))
    if set(os.listdir(".")) - before != set(names):
        return dict(fail="%s: returned %s, wrote %s" % (kw, names, sorted(set(os.listdir(".")) - before)))
    if not arr:
        return dict(sig=repr(kw)) if not names else dict(fail="%s wrote %s" % (kw, names))
    files = read_all(names)
    m, found = match_vars(ds, files, want)
    if m:
        return dict(fail="%s: %s" % (kw, m))
    for v in want:
        if v in found and v in whole:
            a, b = item(found[v][1]), item(whole[v][1])
            if a != b and not (a[0] == b[0] and a[2:] == b[2:] and [x[1] for x in a[1]] == [x[1] for x in b[1]]):
                return dict(fail="%s: variable %s is %s, in the whole conversion %s" % (kw, v, a, b))
    for v in ds["vars"]:
        if not v["dims"]:
            val = str(v["data"] if isinstance(v["data"], str) else v["data"][0])
            inside = sum(val in f.text for f in files)
            if (v["name"] in want) != bool(inside):
                return dict(fail="%s: scalar %s %s in the headers" % (kw, v["name"], "is" if inside else "is not"))
    for f in files:
        if header_items(f) != header_items(full[0]):
            return dict(fail="%s: header items %s, in the whole conversion %s" % (kw, header_items(f), header_items(full[0])))
    for v in ds["vars"]:
        note = (v.get("attrs") or {}).get("note")
        if note and v["name"] not in want and any(note in f.text for f in files):
            return dict(fail="%s: attribute %r of %s is in the output" % (kw, note, v["name"]))
        if note and v["name"] in want and not any(note in f.text for f in files):
            return dict(fail="%s: attribute %r of %s is not in the output" % (kw, note, v["name"]))
    return dict(sig=h(repr([c16.norm(f.text) for f in files])))


# ------------------------------------------------------------------ NASA Ames to NetCDF

NEW = ["new", "NEW", "x_1", "v9", "Old Name"]
GATT = [("institution", "Mine"), ("extra", "e e"), ("comment", "own comment"), ("number", 3), ("history", "own history"), ("source", "s"), ("empty", ""),
        ("big", 12345678901), ("ints", [1, 2]), ("bigs", [1, 2**40, -2**31]), ("real", 1.5), ("reals", (1.5, 2.5))]


def na_structures(big):
    out = []
    for s in gen.small_structures(CONV):
        for nv, na in ((1, 0), (2, 1), (3, 2), (2, 2), (1, 2)):
            if s["ffi"] == 1001 and na:
                continue
            if not big and (nv, na) in ((2, 2), (1, 2)) and s["ffi"] not in (1010, 2010):
                continue
            out.append(dict(s, NV=nv, NAUXV=na))
    return out


STYLE = ["int", "str", "bare", "full", "mixed"]


def na_cases(big):
    ss = na_structures(big)
    for i, s in enumerate(ss):
        for sv in [None] + subsets(s["NV"]):
            for sa in [None] + (subsets(s["NAUXV"]) if s["NAUXV"] else []):
                for st in range(len(STYLE)):
                    for rev in (0, 1):
                        if sv is not None and not sv:
                            continue
                        if rev and (len(sv or []) < 2 and len(sa or []) < 2):
                            continue
                        if not big and (i + st + rev + len(sa or []) + len(sv or [])) % 3 and i > 1:
                            continue
                        yield dict(part="na", d=s, sv=sv, sa=sa, st=st, rev=rev)
        nvar = s["NV"] + s["NAUXV"]
        targets = NEW + ["@other", "@axis"]
        for k in range(1, (3 if big else 2) + 1):
            for vs in itertools.combinations(range(nvar), k):
                for ts in itertools.product(range(len(targets)), repeat=k):
                    if k > 1 and not big and (sum(ts) + sum(vs) + i) % 3 or k > 2 and (sum(ts) + sum(vs) + i) % 7:
                        continue
                    yield dict(part="na", d=s, ren=[[v, targets[t]] for v, t in zip(vs, ts)])
                    if k == 1:
                        yield dict(part="na", d=s, ren=[[v, targets[t]] for v, t in zip(vs, ts)], spell="upper")
                        yield dict(part="na", d=s, ren=[[v, targets[t]] for v, t in zip(vs, ts)], spell="title")
        yield dict(part="na", d=s, ren=[[0, "@other"], [1 % nvar, "@first"]])
        yield dict(part="na", d=s, unknown="V77")
        for k in (1, 2, 3):
            for g in itertools.combinations(range(len(GATT)), k):
                if not big and k > 1 and (sum(g) + i) % 4:
                    continue
                yield dict(part="na", d=s, g=g)
                if k == 2:
                    yield dict(part="na", d=s, g=g, sv=[0], sa=None, st=0, rev=0, ren=[[0, "new"]])


def choose(names, sub, st, rev):
    out = []
    for k, i in enumerate(sub):
        w = STYLE[st] if STYLE[st] != "mixed" else STYLE[(k + i) % 4]
        full = names[i]
        out.append({"int": i, "str": str(i), "bare": split(full)[0], "full": full}[w])
    return out[::-1] if rev else out


def facts(path):
    nc = NC(path)
    return nc, {k: (v.dims, [(a, repr(b)) for a, b in sorted(v.attrs.items())], repr(v.data.tolist()), str(v.dtype)) for k, v in nc.vars.items()}, {k: c16.norm(repr(v)) for k, v in nc.attrs.items()}


def owners(nc):
    """NetCDF names of the variables by number, and of the auxiliary variables."""
    v = {int(np.ravel(x.attrs["nasa_ames_var_number"])[0]): k for k, x in nc.vars.items() if "nasa_ames_var_number" in x.attrs}
    a = {int(np.ravel(x.attrs["nasa_ames_aux_var_number"])[0]): k for k, x in nc.vars.items() if "nasa_ames_aux_var_number" in x.attrs}
    return v, a


def run_na(case):
    d = gen.build(case["d"])
    write_na("i.na", to_dict(d))
    nappy.convertNAToNC("i.na", "full.nc", time_warning=False)
    fnc, full, fatt = facts("full.nc")
    # the numbers are looked up through the values, the attribute is only the fallback
    vn, an = by_values(d, fnc)
    if vn is None:
        return dict(fail="full conversion: %s" % an)
    kw = {}
    wv, wa = list(range(d["NV"])), list(range(d.get("NAUXV") or 0))
    if case.get("sv") is not None:
        kw["variables"] = choose(d["VNAME"], case["sv"], case["st"], case["rev"])
        wv = case["sv"]
    if case.get("sa") is not None:
        kw["aux_variables"] = choose(d["ANAME"], case["sa"], case["st"], case["rev"])
        wa = case["sa"]
    ren = {}
    if "ren" in case:
        allv = [vn[i] for i in range(d["NV"])] + [an[i] for i in range(d.get("NAUXV") or 0)]
        for i, t in case["ren"]:
            if t == "@other":
                t = allv[(i + 1) % len(allv)]
            elif t == "@first":
                t = allv[0]
            elif t == "@axis":
                t = [c for c in fnc.coords()][0]
            ren[allv[i]] = t
        kw["rename_variables"] = {getattr(k, case.get("spell", "lower"))(): t for k, t in ren.items()}
    if "unknown" in case:
        for kk in (dict(variables=[case["unknown"]]), dict(variables=[99]), dict(variables=["99"]), dict(aux_variables=[case["unknown"]]) if d.get("NAUXV") else dict(variables=[case["unknown"], 0])):
            try:
                nappy.convertNAToNC("i.na", "u.nc", time_warning=False, **kk)
            except Exception:
                if os.path.exists("u.nc"):
                    return dict(fail="%s failed but wrote a file" % kk)
                continue
            return dict(fail="%s was accepted" % kk)
        kw["rename_variables"] = {case["unknown"]: "else"}
    g = [GATT[i] for i in case.get("g", [])]
    if g:
        kw["global_attributes"] = list(g)
    keep = repr(kw)
    final = {k: ren.get(k, k) for k in [vn[i] for i in range(d["NV"])] + [an[i] for i in range(d.get("NAUXV") or 0)]}
    clash = len(set(final.values())) < len(final) or set(final.values()) & set(fnc.coords())
    try:
        nappy.convertNAToNC("i.na", "o.nc", time_warning=False, **kw)
    except Exception as e:
        if os.path.exists("o.nc"):
            return dict(fail="%s failed but left a file: %s" % (kw, tb(e)))
        if clash:
            return dict(sig="refused " + keep)
        return dict(fail="%s: %s" % (kw, tb(e)))
    if repr(kw) != keep:
        return dict(fail="arguments changed: %s to %r" % (keep, kw))
    onc, out, oatt = facts("o.nc")
    if clash and len(out) < len(full):
        return dict(fail="%s: variables are lost: %s" % (kw, sorted(out)))
    want = {}
    for k in [vn[i] for i in wv] + [an[i] for i in wa]:
        dims, att, data, dt = full[k]
        want[final[k]] = full[k]
        for x in dims:
            if x in full:
                want[x] = full[x]
    if not clash:
        if set(out) != set(want):
            return dict(fail="%s: variables %s instead of %s" % (kw, sorted(out), sorted(want)))
        for k, w in want.items():
            o = out[k]
            old = {b: a for a, b in final.items()}.get(k)
            strip = lambda at, nm: [x for x in at if not (x[0] in ("long_name", "title", "id") and x[1] == repr(nm))]
            wa_, oa = w[1], o[1]
            if old is not None and old != k:
                wa_, oa = strip(w[1], old), strip(strip(o[1], k), old)
            if (o[0], oa, o[2], o[3]) != (w[0], wa_, w[2], w[3]):
                return dict(fail="%s: variable %s is %s instead of %s" % (kw, k, o, w))
    exp = dict(fatt)
    for k, v in g:
        exp[k] = repr(v)
    got = dict(oatt)
    for k, v in g:
        if k in got and str(np.asarray(onc.attrs[k]).tolist()) == str(np.asarray(v).tolist()):
            got[k] = exp[k]
    if got != exp:
        return dict(fail="%s: global attributes differ: %s" % (kw, [(k, got.get(k), exp.get(k)) for k in sorted(set(got) | set(exp)) if got.get(k) != exp.get(k)]))
    return dict(sig=h(repr(sorted(out.items())) + repr(sorted(got.items()))))


def by_values(d, nc):
    """NetCDF names of variables and auxiliary variables by their values (all distinct)."""
    vn, an = {}, {}
    for n in range(d["NV"]):
        w = [x * d["VSCAL"][n] for x in np.ravel(np.array(d["V"][n], float))]
        hit = [k for k, v in nc.data_vars().items() if v.data.size == len(w) and v.data.dtype.kind == "f" and np.allclose(np.ravel(v.data), w)]
        if len(hit) != 1:
            return None, "variable %d is found as %s" % (n, hit)
        vn[n] = hit[0]
    for n in range(d.get("NAUXV") or 0):
        w = [x * d["ASCAL"][n] for x in np.ravel(np.array(d["A"][n], float))]
        hit = [k for k, v in nc.data_vars().items() if v.data.size == len(w) and v.data.dtype.kind == "f" and np.allclose(np.ravel(v.data), w)]
        if len(hit) != 1:
            return None, "auxiliary variable %d is found as %s" % (n, hit)
        an[n] = hit[0]
    return vn, an


# ------------------------------------------------------------------ appending

def append_cases(big):
    ss = [s for s in gen.small_structures(CONV)]
    for i, a in enumerate(ss):
        for j, b in enumerate(ss):
            for same in ("none", "vars", "axes", "both"):
                for via in ("na", "dict"):
                    for att in (0, 1):
                        yield dict(part="app", a=a, b=b, same=same, via=via, att=att, kinds=[["n", "u"][j % 2], ["n", "u"][i % 2]] if same == "axes" else None)
    for i, a in enumerate(ss):
        yield dict(part="app", a=a, b=a, same="none", via="na", att=1, mode="w")
        yield dict(part="app", a=a, b=ss[(i + 1) % len(ss)], same="none", via="dict", att=0, fresh=1)
    if big:
        for a, b, c in itertools.product(ss, repeat=3):
            yield dict(part="app", a=a, b=b, c=c, same="none", via="na", att=1)


def renamed(d, tag, what):
    """The dataset under other names: what is none / vars / axes / both the same as before."""
    if what in ("none", "axes"):
        d["VNAME"] = ["%s%s" % (tag, n) for n in d["VNAME"]]
        if d.get("ANAME"):
            d["ANAME"] = ["%s%s" % (tag, n) for n in d["ANAME"]]
    if what in ("none", "vars"):
        d["XNAME"] = ["%s%s" % (tag, n) for n in d["XNAME"]]
    return d


def run_app(case):
    a = gen.build(case["a"])
    b = renamed(gen.build(case["b"]), "B ", case["same"])
    write_na("a.na", to_dict(a))
    write_na("b.na", to_dict(b))
    kw = dict(time_warning=False)
    ka = dict(kw, global_attributes=[("extra", "first"), ("institution", "A inst")]) if case["att"] else kw
    target = "t.nc"
    if not case.get("fresh"):
        nappy.convertNAToNC("a.na", target, **ka)
    nappy.convertNAToNC("b.na", "b.nc", **kw)
    bnc, bf, batt = facts("b.nc")
    mode = case.get("mode", "a")
    if case.get("fresh"):
        nc0, f0, att0 = None, {}, {}
    else:
        nc0, f0, att0 = facts(target)
    todo = [("b", b, bf, batt)]
    if "c" in case:
        c = renamed(gen.build(case["c"]), "C ", "none")
        write_na("c.na", to_dict(c))
        nappy.convertNAToNC("c.na", "c.nc", **kw)
        cnc, cf, catt = facts("c.nc")
        todo.append(("c", c, cf, catt))
    for name, d, bf, batt in todo:
        raw0 = c20.dump(target) if os.path.exists(target) else None
        try:
            if case["via"] == "na":
                nappy.convertNAToNC(name + ".na", target, mode=mode, **kw)
            else:
                nappy.writeNADictToNC(to_dict(d), target, mode=mode)
        except Exception as e:
            if raw0 is not None and c20.dump(target) != raw0:
                return dict(fail="a refused append changed the file: %s" % tb(e))
            common = set(f0) & set(bf)
            if not common and not (nc0 is not None and set(nc0.dims) & set(NC(name + ".nc").dims)):
                return dict(fail="append of other variables and axes was refused: %s" % tb(e))
            if all(f0[k] == bf[k] for k in common) and set(common) <= set(nc0.dims) and all(nc0.dims[x] == NC(name + ".nc").dims[x] for x in set(nc0.dims) & set(NC(name + ".nc").dims)):
                return dict(fail="append of other variables on the same axes was refused: %s" % tb(e))
            return dict(sig="refused", count={"refused": 1})
        nc1, f1, att1 = facts(target)
        old = {} if mode == "w" else f0
        for k, v in old.items():
            if f1.get(k) != v:
                return dict(fail="variable %s of the file was %s and is now %s" % (k, v, f1.get(k)))
        for k, v in bf.items():
            if f1.get(k) != v:
                return dict(fail="variable %s is %s instead of %s" % (k, f1.get(k), v))
        if set(f1) != set(old) | set(bf):
            return dict(fail="variables %s instead of %s and %s" % (sorted(f1), sorted(old), sorted(bf)))
        if mode == "a":
            for k, v in att0.items():
                if att1.get(k) != v:
                    return dict(fail="global attribute %s of the file was %s and is now %s" % (k, v, att1.get(k)))
        for k in set(att1) - (set(att0) if mode == "a" else set()):
            if att1[k] != batt.get(k):
                return dict(fail="global attribute %s is %s instead of %s" % (k, att1[k], batt.get(k)))
        nc0, f0, att0 = nc1, f1, att1
    return dict(sig=h(repr(sorted(f1))))


def cases(tier):
    big = tier == "thorough"
    for f in (nc_cases, na_cases, append_cases):
        yield from f(big)


def run(case):
    return {"nc": run_nc, "na": run_na, "app": run_app}[case["part"]](case)
