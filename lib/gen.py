"""Bounded-exhaustive generation of datasets.  A case descriptor is a small JSON object; build() turns it into a dataset
in the convention of spec.py.  All values are distinct by construction so that any permutation of data is visible."""
import itertools
import os

import spec
from spec import GRID

MISS = [-999.9, 99999.0, -1e20, 9999.0]
AMISS = [8888.5, -7777.0, 1e10]
SCAL = [1.0, 1.0, 1.0, 1.0]

DEFAULT = dict(M=2, NV=1, NAUXV=0, NS=0, NN=0, vals="seq", miss=None, dx=0, scal=0, names="std", head="std")


def val(style, k):
    """k-th distinct value."""
    if style == "seq":
        return 10.0 + k
    if style == "frac":
        return (k + 1) * 1.25 * (-1 if k % 2 else 1)
    if style == "exp":
        return (k + 1) * 1.5e-7 if k % 2 else -(k + 1) * 2.5e+12
    if style == "int":
        return (k + 1) * (1 if k % 3 else -1)
    if style == "dig":
        return round(0.1234567 + k, 7)                     # up to 10 significant digits
    if style == "zero":
        return 0.0 if k % 4 == 1 else float(k)
    if style == "deep":
        return (k + 1) / 7.0 * (-1 if k % 3 == 1 else 1)   # 16 significant digits
    raise ValueError(style)


def axis(kind, n, base=0.0):
    """kind: u (uniform up), d (uniform down), n (non-uniform)."""
    if kind == "u":
        return [base + 10.0 * i for i in range(n)]
    if kind == "d":
        return [base - 2.5 * i for i in range(n)]
    if kind == "n":
        return [base + v for v in (0.0, 1.0, 4.0, 5.5, 12.0, 14.25, 30.0, 31.0, 35.5, 36.0, 40.25, 50.0, 51.5, 60.0)[:n]] + [base + 60.0 + 3.0 * (i - 13) + 0.5 * (i % 3) for i in range(14, n)]
    if kind == "f":
        return [base + 0.5 * i for i in range(n)]
    if kind == "t":                                        # tiny, unevenly spaced
        return [1.25e-13 * (i + 1) * (i + 2) for i in range(n)]
    if kind == "h":                                        # huge, unevenly spaced, decreasing
        return [-2.5e+14 * (i + 1) * (i + 3) for i in range(n)]
    if kind == "g":                                        # 16 significant digits, unevenly spaced
        return [base + (i * i + 1) / 7.0 for i in range(n)]
    if kind == "s":                                        # small increments of a large value
        return [base + 1.0e+6 + 0.0009765625 * i for i in range(n)]
    raise ValueError(kind)


def step(kind):
    return {"u": 10.0, "d": -2.5, "f": 0.5, "s": 0.0009765625}.get(kind, 0.0)


def comments(n, what, shape="std"):
    if shape == "rich":
        pool = ["%s line with numbers 1 2 3" % what, "", "%s ends with {braces}" % what, "12 34 56", "a,b,c", "a  double  space"]
    elif shape == "marks":      # the lines by which nappy structures the comments that it writes
        pool = ["==== %s Comments follow ====" % what, "text", "=== Additional Variable Attributes defined in the source file ===", "=== Additional Global Attributes defined in the source file ===",
                "==== %s Comments end ====" % what, "=== Data Section begins on the next line ===", "more text"]
    else:
        pool = ["%s comment line %d" % (what, k) for k in range(1, 9)]
    return [pool[k % len(pool)] for k in range(n)]


def fill(shape, counter, style):
    if not shape:
        return val(style, next(counter))
    return [fill(shape[1:], counter, style) for _ in range(shape[0])]


def put(nested, idx, value):
    for i in idx[:-1]:
        nested = nested[i]
    nested[idx[-1]] = value


def get(nested, idx):
    for i in idx:
        nested = nested[i]
    return nested


def shape_of(d, n):
    """Index tuples of all elements of V[n]."""
    out = []

    def rec(v, pre):
        for i, x in enumerate(v):
            if isinstance(x, list):
                rec(x, pre + (i,))
            else:
                out.append(pre + (i,))
    rec(d["V"][n], ())
    return out


SAMPLE_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "samples")


def samples(ffis=spec.FFIS):
    """Descriptors of the real files in data/samples (copies of the project's own example files which follow the specification)."""
    out = []
    for name in sorted(os.listdir(SAMPLE_DIR)):
        f = int(name[:4])
        if f in ffis:
            out.append(dict(ffi=f, sample=name))
    return out


def build(desc):
    if "sample" in desc:
        with open(os.path.join(SAMPLE_DIR, desc["sample"])) as fh:
            d = spec.decode(fh.read())
        for path, value in desc.get("set") or []:
            assign(d, path, value)
        return d
    c = dict(DEFAULT)
    c.update(desc)
    f = c["ffi"]
    NV, NAUXV, M = c["NV"], c["NAUXV"], c["M"]
    d = dict(FFI=f, NIV=spec.NIV[f], ONAME="Smith, John", ORG="Institute of Tests, Testing", SNAME="Instrument 7", MNAME="Mission X",
             IVOL=1, NVOL=1, DATE=[1999, 2, 3], RDATE=[2004, 5, 16], NV=NV)
    if c["head"] == "vol":
        d.update(IVOL=2, NVOL=13, ONAME="O", ORG="Org (UK), Tel.: +44 0", SNAME="a  b", MNAME="12 34")
    elif c["head"] == "brace":
        d.update(ONAME="O {PI} and team", ORG="Org {UK", SNAME="{first} a } b", MNAME="m {} {x} n")
    if c["names"] == "brace":
        vname = ["Variable {of %d} (unit%d) p" % (n + 1, n + 1) for n in range(NV)]
        aname = ["Auxiliary {%d} x" % (a + 1) for a in range(NAUXV)]
        xnames = ["Axis {%s (x%d)" % (w, i) for i, w in enumerate(("zero", "one", "two", "three"))]
    elif c["names"] == "std":
        vname = ["Variable number %d (unit%d)" % (n + 1, n + 1) for n in range(NV)]
        aname = ["Auxiliary %d (aunit%d)" % (a + 1, a + 1) for a in range(NAUXV)]
        xnames = ["Axis %s (x%d)" % (w, i) for i, w in enumerate(("zero", "one", "two", "three"))]
    else:
        vname = ["V%d" % (n + 1) for n in range(NV)]
        aname = ["A %d no units" % (a + 1) for a in range(NAUXV)]
        xnames = ["X%d" % i for i in range(4)]
    d["VNAME"] = vname
    d["VSCAL"] = ([1.0, 0.5, 10.0, 2.0] * (NV // 4 + 1))[:NV] if c["scal"] else [1.0] * NV
    d["VMISS"] = [MISS[n % 4] for n in range(NV)]
    d["XNAME"] = xnames[:d["NIV"]]
    d["NSCOML"], d["NNCOML"] = c["NS"], c["NN"]
    shape = c.get("comm", "std")
    d["SCOM"] = comments(c["NS"], "Special", shape)
    d["NCOM"] = comments(c["NN"], "Normal", shape)
    k = itertools.count()
    ak = c.get("xkind") or ("u" if c["dx"] else "n")
    if f in (1001, 1010, 1020):
        n = M
        if f == 1020:
            d["NVPM"] = c["NVPM"]
            n = M * c["NVPM"]
            ak = c.get("xkind") or "u"
            full = axis(ak, n, 100.0)
            d["X"] = full[::c["NVPM"]]
            d["DX"] = [step(ak)]
        else:
            d["X"] = axis(ak, M, 100.0)
            d["DX"] = [step(ak)]
        d["V"] = [fill((n,), k, c["vals"]) for _ in range(NV)]
    elif f in spec.GRID:
        NX, NXDEF = list(c["NX"]), list(c["NXDEF"])
        d["NX"], d["NXDEF"] = NX, NXDEF
        d["X"] = [axis(ak, M, 100.0)]
        d["DX"] = [step(ak)]
        for i, (nx, nd) in enumerate(zip(NX, NXDEF)):
            kind = ("u", "d", "f")[i % 3] if nd < nx else c.get("akind", "n")
            full = axis(kind, nx, 1000.0 * (i + 1))
            d["X"].append(full[:nd])
            d["DX"].append(step(kind))
        d["V"] = [fill([M] + NX, k, c["vals"]) for _ in range(NV)]
    else:
        NX = list(c["NX"])                       # per mark
        M = len(NX)
        d["NX"] = NX
        if f == 2160:
            marks = c.get("marks") or ["Station_%c" % (65 + m) if M <= 26 else "Station_%d" % m for m in range(M)]
            d["LENX"] = max([len(s) for s in marks] or [8])
        else:
            marks = axis(ak, M, 100.0)
        if f == 2310:
            d["DX"] = [step(ak)]
            starts = [200.0 + 7.5 * m for m in range(M)]
            incs = [(0.5, 2.0, -1.25)[m % 3] for m in range(M)]
            d["X"] = [[marks[m], [starts[m] + i * incs[m] for i in range(NX[m])]] for m in range(M)]
        else:
            d["X"] = [[marks[m], axis("n", NX[m], 200.0 + 50 * m)] for m in range(M)]
            d["DX"] = [step(ak), 0.0] if f == 2110 else [0.0]
        d["V"] = [[fill((NX[m],), k, c["vals"]) for m in range(M)] for _ in range(NV)]
    if f != 1001:
        auxk = itertools.count(5000)
        d["NAUXV"] = NAUXV
        real0 = {2110: 1, 2310: 3, 2160: 1}.get(f, 0)
        nauxc = c.get("NAUXC", 0) if f == 2160 else 0
        nreal = NAUXV - nauxc
        d["ANAME"] = aname
        d["ASCAL"] = ([1.0, 2.0, 0.25, 1.0, 1.0] * (nreal // 5 + 1))[:nreal] if c["scal"] else [1.0] * nreal
        d["AMISS"] = [AMISS[a % 3] for a in range(nreal)]
        d["A"] = []
        if real0:
            d["AMISS"][0] = 999.0 if 999 not in NX else 77777.0
            d["ASCAL"][0] = 1.0
            flag = c.get("nxflag")            # marks with no records announced by the missing flag
            d["A"].append([d["AMISS"][0] if (flag and NX[m] == 0) else float(NX[m]) for m in range(M)])
            if f == 2310:
                d["A"] += [starts, [float(x) for x in incs]]
        for a in range(real0, nreal):
            d["A"].append([val(c["vals"], next(auxk)) for _ in range(M)])
        if f == 2160:
            d["NAUXC"] = nauxc
            texts = c.get("texts") or ["txt"]
            d["LENA"] = [None] * nreal
            for a in range(nauxc):
                d["A"].append(["%s_%d_%d" % (texts[a % len(texts)], a, m) for m in range(M)])
                d["LENA"].append(max([len(s) for s in d["A"][-1]] or [8]))
                d["AMISS"].append((c.get("cmiss") or "zzzz") + "z" * a)
    for path, value in c.get("set") or []:
        assign(d, path, value)
    if c["miss"] is not None:
        # miss: list of [kind, var, flat position]
        for kind, n, p in c["miss"]:
            if kind == "V":
                idx = shape_of(d, n)
                if idx:
                    put(d["V"][n], idx[p % len(idx)], d["VMISS"][n])
            else:
                d["A"][n][p % M] = d["AMISS"][n]
    return d


# ---------------------------------------------------------------------------------------- single items of a dataset

NUMBERS = [0.1234567890123456, 12345678.9012345, -3.0000000000000004e-07, 1e+300, 5e-300, 0.0, -1.0, 1e20, 123456789012345.0, 100000.0, 2.5]
INTS = [[3, 12], [12, 12], [100, 1000]]
DATES = [[1950, 12, 31], [2024, 2, 29], [999, 999, 999], [800, 1, 1]]
TEXTS = ["St. A,", "a, b", "100%", "%s and %d", "a {b} c", "a{b", "x } y", "O'Brien", "- dash", "# hash", "1 2 3", "12.5", "tab\tinside", "temp (\u00b0C)", "v (m) (old)", "()", "a=b;c:d/e\\f", "x" * 140, "ends with 0 ,,", "two  blanks   inside", "a\x0cb\x0bc\x1cd\x85e\u2028f", "| bar |", "no (unit", "(unit)"]
QUOTED = ["'quoted'", "\"two words\"", "'a' and 'b'", "\"half", "half'"]


def assign(d, path, value):
    """Sets one item, for example "VSCAL.0", and what follows from it (declared lengths of texts)."""
    keys = [int(k) if k.isdigit() else k for k in path.split(".")]
    put(d, keys, value)
    if d["FFI"] == 2160:
        d["LENX"] = max([len(x[0]) for x in d["X"]] or [8])
        for a in range(d["NAUXV"] - d["NAUXC"], d["NAUXV"]):
            d["LENA"][a] = max([len(s) for s in d["A"][a]] or [8])


def item_variants(s, heads=False):
    """Descriptors of the structure with one header item, axis value or text replaced by each value of the alphabet.
    heads: with quotes around the items of the first lines, too (outer quotes are taken off when these are written)."""
    d = build(s)
    f = d["FFI"]
    real0 = {2110: 1, 2310: 3, 2160: 1}.get(f, 0)
    nums = ["VSCAL.%d" % n for n in range(d["NV"])] + ["VMISS.%d" % n for n in range(d["NV"])]
    nreal = d.get("NAUXV", 0) - d.get("NAUXC", 0)
    nums += ["ASCAL.%d" % a for a in range(real0, nreal)] + ["AMISS.%d" % a for a in range(real0, nreal)]
    nums += ["V.0" + ".0" * len(shape_of(d, 0)[0])]
    nums += ["A.%d.0" % a for a in range(real0, nreal)]
    if f in (1001, 1010, 1020):
        nums.append("X.0")
    elif f in GRID:
        nums.append("X.0.0")
    elif f == 2110:
        nums.append("X.0.1.0")
    for p in nums:
        for v in NUMBERS:
            if "MISS" not in p or v != 0.0:
                yield dict(s, set=[[p, v]])
    if True:
        for i in range(len(d["DX"])):
            for v in (0.1234567890123456, 1e-07, 86400.0, 0.30000000000000004, 1234.5678):
                if f in GRID and i and d["NXDEF"][i - 1] == 1 and d["NX"][i - 1] > 1:
                    continue
                if f == 2310 and i:
                    continue
                yield dict(s, set=[["DX.%d" % i, v]])
    for v in INTS:
        yield dict(s, set=[["IVOL", v[0]], ["NVOL", v[1]]])
    for v in DATES:
        yield dict(s, set=[["DATE", v]])
        yield dict(s, set=[["RDATE", v]])
    texts = ["ONAME", "ORG", "SNAME", "MNAME"] + ["%s.%d" % (k, i) for k in ("VNAME", "XNAME", "ANAME", "SCOM", "NCOM") for i in range(len(d.get(k) or []))]
    if f == 2160:
        texts += ["X.%d.0" % m for m in range(len(d["X"]))] + ["A.%d.%d" % (a, m) for a in range(nreal, d["NAUXV"]) for m in range(len(d["X"]))] + ["AMISS.%d" % a for a in range(nreal, d["NAUXV"])]
    for p in texts:
        for v in TEXTS + (QUOTED if heads or "." in p else []):
            yield dict(s, set=[[p, v]])


# --------------------------------------------------------------------------------- enumerations of structures

def tuples(values, n):
    return [list(t) for t in itertools.product(values, repeat=n)]


SIZES = [16, 17, 32, 33, 50, 51, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 513, 999, 1000, 1001, 1024, 1025, 2049]


def large(ffis=spec.FFIS, sizes=SIZES, comments=True, nv=9999):
    """Structures in which one dimension (marks, variables, auxiliary variables, points of an axis, implied points, comment lines) is large."""
    out = []
    for f in ffis:
        g = spec.NIV[f] - 1
        na = {1001: 0, 2110: 1, 2160: 2, 2310: 3}.get(f, 1)
        base = dict(ffi=f, M=2, NX=[2, 3, 2][:g] if f in GRID else [2, 1], NXDEF=[2, 3, 2][:g], NV=2, NAUXV=na, NAUXC=1 if f == 2160 else 0, NVPM=2, NS=1, NN=1)
        for n in sizes:
            if f in GRID or f < 2000:
                out.append(dict(base, M=n))
            else:
                out.append(dict(base, NX=[(m * 5 + n) % 3 for m in range(n)]))
            if n <= nv:
                out.append(dict(base, NV=n, M=1, NX=base["NX"][:g] if f in GRID else [1]))
            if f != 1001 and n <= nv:
                out.append(dict(base, NAUXV=na + n))
            if f == 2160:
                out.append(dict(base, NAUXV=n + 2, NAUXC=n))
            if f == 1020:
                out.append(dict(base, NVPM=n))
            for i in range(g if f in GRID else 0):
                for nd in (n, 1):
                    out.append(dict(base, NX=[n if j == i else v for j, v in enumerate(base["NX"])], NXDEF=[nd if j == i else v for j, v in enumerate(base["NX"])]))
            if f in (2110, 2160, 2310):
                out.append(dict(base, NX=[1, n, 0, 2]))
            if comments:
                out.append(dict(base, NS=n))
                out.append(dict(base, NN=n))
    return out


def structures(tier, ffis=spec.FFIS):
    """All dataset structures (without value styles) within the bounds of a tier, simplest first."""
    big = tier == "thorough"
    out = []
    for f in ffis:
        if f == 1001:
            for M in range(1, 6 if big else 4):
                for NV in range(1, 5 if big else 4):
                    for dx in (0, 1):
                        out.append(dict(ffi=f, M=M, NV=NV, dx=dx))
        elif f == 1010:
            for M in range(1, 5 if big else 4):
                for NV in range(1, 4):
                    for NA in range(0, 4 if big else 3):
                        out.append(dict(ffi=f, M=M, NV=NV, NAUXV=NA, dx=M % 2))
        elif f == 1020:
            for M in range(1, 4):
                for p in range(1, 5 if big else 4):
                    for NV in range(1, 4):
                        for NA in range(0, 4 if big else 3):
                            out.append(dict(ffi=f, M=M, NV=NV, NAUXV=NA, NVPM=p))
        elif f in spec.GRID:
            r = spec.NIV[f] - 1
            top = {1: 4, 2: 3, 3: 2}[r] + (1 if big else 0)
            for NX in tuples(range(1, top + 1), r):
                if f == 4010 and not big:
                    pass
                for NXDEF in itertools.product(*[sorted({1, nx}) for nx in NX]):
                    for M in (1, 2, 3) if (r == 1 or big) else (1, 2):
                        for NV in (1, 2, 3) if (r == 1 or big) else (1, 2):
                            for NA in (0, 1, 2) if (r == 1 or big) else (0, 2):
                                out.append(dict(ffi=f, M=M, NV=NV, NAUXV=NA, NX=NX, NXDEF=list(NXDEF), dx=M % 2))
        else:
            top = 4 if big else 3
            for M in (1, 2, 3):
                for NX in tuples(range(0, top), M):
                    for NV in (1, 2, 3):
                        if f == 2110:
                            for NA in (1, 2, 3) if big else (1, 2):
                                out.append(dict(ffi=f, NX=NX, NV=NV, NAUXV=NA, dx=M % 2, M=M))
                        elif f == 2310:
                            for NA in (3, 4, 5) if big else (3, 4):
                                out.append(dict(ffi=f, NX=NX, NV=NV, NAUXV=NA, dx=M % 2, M=M))
                        else:
                            for NR in (1, 2, 3) if big else (1, 2):
                                for NC in (0, 1, 2):
                                    out.append(dict(ffi=f, NX=NX, NV=NV, NAUXV=NR + NC, NAUXC=NC, M=M))
    return out


def small_structures(ffis=spec.FFIS):
    """One or two structures per format with every section present and all lengths different."""
    s = {
        1001: [dict(ffi=1001, M=3, NV=2, NS=1, NN=2)],
        1010: [dict(ffi=1010, M=3, NV=2, NAUXV=2, NS=2, NN=1)],
        1020: [dict(ffi=1020, M=2, NVPM=3, NV=2, NAUXV=1, NS=1, NN=1)],
        2010: [dict(ffi=2010, M=2, NX=[3], NXDEF=[3], NV=2, NAUXV=1, NS=1, NN=1), dict(ffi=2010, M=3, NX=[2], NXDEF=[1], NV=1, NAUXV=0, NS=0, NN=0)],
        2110: [dict(ffi=2110, M=3, NX=[2, 1, 3], NV=2, NAUXV=2, NS=1, NN=2)],
        2160: [dict(ffi=2160, M=2, NX=[3, 2], NV=2, NAUXV=4, NAUXC=2, NS=1, NN=2)],
        2310: [dict(ffi=2310, M=3, NX=[2, 1, 3], NV=2, NAUXV=4, NS=1, NN=1)],
        3010: [dict(ffi=3010, M=2, NX=[3, 2], NXDEF=[1, 2], NV=2, NAUXV=1, NS=1, NN=0)],
        4010: [dict(ffi=4010, M=2, NX=[2, 3, 4], NXDEF=[2, 1, 4], NV=2, NAUXV=1, NS=0, NN=2)],
    }
    out = []
    for f in ffis:
        out += s[f]
    return out
