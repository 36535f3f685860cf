from common import *

ID = "C03"
LEVEL = "exploration"
RULE = ("every dataset structure within the bounds and every comment-section size with right, zero, too small and too large header counts in the dictionary; the file written by nappy is parsed record by "
        "record by an independent strict reader written from the specification, which must find the dataset. Distinct = distinct file texts.")
BOUNDS = {"quick": "<=5 marks, axes <=5/4/3, <=4 variables, <=3 auxiliary variables, comment sections of <=6 lines; one dimension (also comment lines) up to 2049", "thorough": "additionally every comment size x every structure of the quick read bounds"}
TIMEOUT = 15


def cases(tier):
    for s in gen.structures("thorough"):
        yield dict(d=s, nl=0)
    for s in gen.samples():
        for nl in (0, -1, 1, 3, 500):
            for fmt in ("%s", "%.17g"):
                yield dict(d=s, nl=nl, fmt=fmt)
    for s in gen.large():
        yield dict(d=s, nl=0)
    for s in gen.small_structures():
        for ns, nn in itertools.product(range(0, 8), repeat=2):
            for comm in ("std", "rich"):
                for nl in (0, -1, 1, 3, 500):
                    yield dict(d=dict(s, NS=ns, NN=nn, comm=comm), nl=nl)
        for st in ("seq", "frac", "exp", "int", "dig", "zero"):
            for names, head, scal in itertools.product(("std", "bare"), ("std", "vol"), (0, 1)):
                yield dict(d=dict(s, vals=st, names=names, head=head, scal=scal), nl=1)
        for c in gen.item_variants(s):
            yield dict(d=c, nl=0, fmt="%s")
    for f in spec.FFIS:                     # larger than the rest
        g = spec.NIV[f] - 1
        na = {1001: 0, 2110: 1, 2160: 2, 2310: 3}.get(f, 1)
        sz = {1: 9, 2: 5, 3: 4}.get(g, 0)
        for NV in (1, 12):
            yield dict(d=dict(ffi=f, M=13, NX=[sz + i for i in range(g)] if f in spec.GRID else [(m * 5) % 13 for m in range(11)], NXDEF=[sz + i if i != NV else 1 for i in range(g)],
                              NV=NV, NAUXV=na + 9 if f != 1001 else 0, NAUXC=5 if f == 2160 else 0, NVPM=11, NS=12, NN=11, dx=1), nl=0)
    if tier == "thorough":
        for s in gen.structures("quick"):
            for ns, nn in itertools.product(range(0, 4), repeat=2):
                yield dict(d=dict(s, NS=ns, NN=nn), nl=7)


def run(case):
    d = na_dict(case["d"])
    nl = case["nl"]
    hl, _ = spec.encode_lines(gen.build(case["d"]))
    d["NLHEAD"] = {0: 0, -1: len(hl), 1: len(hl) - 1, 3: len(hl) + 3}.get(nl, nl)
    fmt = case.get("fmt", "%.10g")
    want = fmt_items(d, fmt)
    try:
        write_na("o.na", d, float_format=fmt)
    except Exception as e:
        return dict(fail="writing failed: " + tb(e))
    t = text("o.na")
    if not t.endswith("\n"):
        return dict(fail="last line is not terminated\n" + t[-300:])
    try:
        got = spec.decode(t)
    except spec.SpecError as e:
        return dict(fail="file does not follow the specification: %s\n%s" % (e, t[:1500]), sig=h(t))
    if got["NLHEAD"] != len(hl):
        return dict(fail="NLHEAD %r, the header has %d lines\n%s" % (got["NLHEAD"], len(hl), t[:800]), sig=h(t))
    msg = spec.diff(want, got)
    if msg:
        return dict(fail="the file does not contain the dataset: " + msg + "\n" + t[:1500], sig=h(t))
    return dict(sig=h(t))
