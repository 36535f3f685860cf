from common import *

ID = "C02"
LEVEL = "exploration"
RULE = ("every dataset structure within the bounds in the default options, every value style x float format that can carry it, every single placement and every pair of placements of missing values "
        "(data and auxiliary) x flag alphabet x float format on small datasets, and every structure held in lists, tuples, numpy arrays and numpy scalars; write with nappy, read with nappy, compare every item with the original. Distinct = distinct file texts.")
BOUNDS = {"quick": "as C01 thorough structures; all single and pair placements of missing values in datasets of <=24 elements; one dimension up to 2049", "thorough": "all subsets of placements in small datasets, more flags and formats"}
TIMEOUT = 15

FLAGS = [-999.9, -9999.999, 99999.99, 1e20, 9.96921e36, -1.0, 0.0, 123456789.123, 1234567.891234567]
AFLAGS = [8888.5, -7777.777, 1e10, 99999.123456789, 3.0]
FMT = ["%.10g", "%s", "%.3f", "%8.2e", "%12.4f", "%.3g", "%g", "%15.8E"]


def struct_miss():
    yield dict(ffi=1001, M=3, NV=2)
    yield dict(ffi=1010, M=2, NV=2, NAUXV=2)
    yield dict(ffi=1020, M=2, NVPM=2, NV=2, NAUXV=1)
    yield dict(ffi=2010, M=2, NX=[3], NXDEF=[3], NV=2, NAUXV=2)
    yield dict(ffi=2110, M=2, NX=[2, 1], NV=2, NAUXV=2)
    yield dict(ffi=2160, M=2, NX=[1, 2], NV=2, NAUXV=3, NAUXC=1)
    yield dict(ffi=2310, M=2, NX=[2, 1], NV=2, NAUXV=4)
    yield dict(ffi=3010, M=1, NX=[2, 2], NXDEF=[2, 2], NV=2, NAUXV=1)
    yield dict(ffi=4010, M=1, NX=[2, 1, 2], NXDEF=[1, 1, 2], NV=2, NAUXV=1)


def places(s):
    d = gen.build(s)
    out = [["V", n, p] for n in range(d["NV"]) for p in range(len(gen.shape_of(d, n)))]
    lo = {2110: 1, 2310: 3, 2160: 1}.get(s["ffi"], 0)
    hi = d.get("NAUXV", 0) - d.get("NAUXC", 0)
    M = len(d["X"][0]) if s["ffi"] in spec.GRID else len(d["X"])
    out += [["A", a, m] for a in range(lo, hi) for m in range(M)]
    return out


def cases(tier):
    big = tier == "thorough"
    for s in gen.structures("thorough"):
        yield dict(d=s, fmt="%.10g")
    for s in gen.samples():
        for fmt in ("%s", "%.17g", "%r", "%.10g", "%.12e"):
            for delim in ("    ", "\t", " "):
                yield dict(d=s, fmt=fmt, delim=delim)
    for cont in ("tuples", "arrays", "scalars"):
        for s in gen.structures(tier) + gen.samples():
            yield dict(d=s, fmt="%.10g", cont=cont)
        for s in gen.small_structures():
            for st, fmt in itertools.product(("frac", "exp", "int", "dig", "zero", "deep"), ("%s", "%.17g", "%.12e", "%.3f", "%g")):
                yield dict(d=dict(s, vals=st), fmt=fmt, cont=cont)
        for s in struct_miss():
            for fl in FLAGS:
                for fmt in FMT[:6]:
                    yield dict(d=dict(s, miss=places(s)), fmt=fmt, flag=fl, cont=cont)
    for s in gen.large():
        yield dict(d=s, fmt="%.10g")
    for s in gen.small_structures():
        for ns, nn in itertools.product(range(0, 7), repeat=2):
            for comm in ("std", "rich"):
                yield dict(d=dict(s, NS=ns, NN=nn, comm=comm), fmt="%.10g")
        for st, fmt, xk, scal in itertools.product(("seq", "frac", "exp", "int", "dig", "zero"), FMT, (None, "u", "d", "n", "f", "t", "h", "g", "s"), (0, 1)):
            if s["ffi"] == 1020 and xk in ("n", "t", "h", "g"):
                continue
            c = dict(s, vals=st, scal=scal)
            if xk:
                c["xkind"] = xk
            yield dict(d=c, fmt=fmt)
        for names, head in itertools.product(("std", "bare", "brace"), ("std", "vol", "brace")):
            yield dict(d=dict(s, names=names, head=head), fmt="%.10g")
    for marks in (["Site A", "Site B"], ["A b  c", "12 34"], ["x,y", "z"], ["Long name of a station with many words", "b"]):
        for texts in (["12 h 15"], ["a", "two words"]):
            for cm in ("zzzz", "z z z", "no value"):
                yield dict(d=dict(ffi=2160, NX=[2] * len(marks), NV=2, NAUXV=3, NAUXC=2, marks=marks, texts=texts, cmiss=cm), fmt="%.10g")
    for f, na in ((2110, 2), (2310, 4)):
        for NX in gen.tuples((0, 1, 2), 3):
            yield dict(d=dict(ffi=f, NX=NX, NV=2, NAUXV=na, nxflag=1, dx=1), fmt="%.10g")
    for s in gen.small_structures():
        for fmt in ("%.17g", "%s", "%r"):
            yield dict(d=dict(s, vals="deep"), fmt=fmt)
        for c in gen.item_variants(s):
            yield dict(d=c, fmt="%s")
            if big or "set" in c and c["set"][0][1] in gen.TEXTS:
                yield dict(d=c, fmt="%.10g", delim="\t")
    for s in struct_miss():
        pl = places(s)
        fmts = FMT if big else FMT[:6]
        for fl in FLAGS:
            for fmt in fmts:
                for p in pl:
                    yield dict(d=dict(s, miss=[p]), fmt=fmt, flag=fl)
                yield dict(d=dict(s, miss=pl), fmt=fmt, flag=fl)
        for p in itertools.combinations(pl, 2):
            for fl in (-999.9, 1e20):
                yield dict(d=dict(s, miss=list(p)), fmt="%.10g", flag=fl)
        if big:
            for r in range(3, 6):
                for p in itertools.combinations(pl, r):
                    yield dict(d=dict(s, miss=list(p)), fmt="%.3f", flag=99999.99)


def run(case):
    desc, fmt = case["d"], case["fmt"]
    miss = desc.get("miss")
    base = gen.build(dict(desc, miss=None))
    if "flag" in case:
        base["VMISS"] = [case["flag"]] + [case["flag"] * 2 + 0.125 for _ in base["VMISS"][1:]]
        k = FLAGS.index(case["flag"])
        lo = {2110: 1, 2310: 3, 2160: 1}.get(desc["ffi"], 0)
        for a in range(lo, base.get("NAUXV", 0) - base.get("NAUXC", 0)):
            base["AMISS"][a] = AFLAGS[(k + a) % len(AFLAGS)]
    for kind, n, p in miss or []:
        if kind == "V":
            gen.put(base["V"][n], gen.shape_of(base, n)[p], base["VMISS"][n])
        else:
            base["A"][n][p] = base["AMISS"][n]
    d = to_dict(base, 5)
    want = fmt_items(d, fmt)
    try:
        write_na("o.na", contained(copy.deepcopy(d), case["cont"]) if "cont" in case else copy.deepcopy(d), float_format=fmt, **({"delimiter": case["delim"]} if "delim" in case else {}))
    except Exception as e:
        return dict(fail="writing failed: " + tb(e))
    t = text("o.na")
    try:
        got = read_na("o.na")
    except Exception as e:
        return dict(fail="the file written cannot be read: " + tb(e) + "\n" + t[:1500], sig=h(t))
    msg = spec.diff(want, got)
    if msg:
        return dict(fail="differs after write and read: " + msg + "\n" + t[:1500], sig=h(t))
    return dict(sig=h(t))
