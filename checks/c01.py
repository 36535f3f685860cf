from common import *

ID = "C01"
LEVEL = "exploration"
RULE = ("every dataset structure (format, number of marks, axis lengths, full/implied axes, numbers of variables and auxiliary variables, comment counts) within the bounds "
        "in the plain layout, every value style, and every combination of layout deviations on representative structures of each format; the text is produced by an encoder written from "
        "the specification and nappy's dictionary must equal the encoded dataset. Distinct = distinct file texts.")
BOUNDS = {"quick": "<=3 marks, axes <=4/3/2 (2/3/4 independent variables), <=3 variables, <=2 auxiliary variables, <=2 layout deviations; one dimension (marks, variables, auxiliary variables, axis points, comment lines) up to 2049", "thorough": "<=5 marks, axes one longer, <=4 variables, all layout deviation combinations"}
TIMEOUT = 15

STY = ["seq", "frac", "exp", "int", "dig", "zero"]
LAYS = dict(sep=[" ", "\t", "      "], wraph=[1, 2], wrapd=[1, 2, 3], annot=[1, 2], trail=[" ", "\t "], indent=["  ", "\t"],
            endblank=[1, 3, ["  ", "\t"], ["", " ", ""]], noeol=[1], ignore=[1, 3], style=["exp", "int"], eol=["\r\n"])
ANN = ["m s^-1", "", " ", "1 2 3", "a: b, c; (d) [e] 'f' \"g\"", "100%", "%s", "\u00b0C \u65e5", "x" * 200, "a\\b|c~d#e&f*g+h?i$j@k!", "-999.9"]


def cases(tier):
    big = tier == "thorough"
    for s in gen.structures(tier):
        yield dict(d=s, lay={})
    # real files: as they are, and their datasets in every layout
    for s in gen.samples():
        yield dict(d=s, raw=1, lay={})
        for lay in deviations({}, LAYS, 3 if big else 2):
            yield dict(d=s, lay=lay)
    # comment sections and headers
    for s in gen.large():
        yield dict(d=s, lay={})
        yield dict(d=s, lay=dict(wrapd=5, wraph=7, annot=1))
    for s in gen.small_structures():
        for ns, nn in itertools.product(range(0, 5), repeat=2):
            for comm in ("std", "rich"):
                yield dict(d=dict(s, NS=ns, NN=nn, comm=comm), lay={})
        for st in STY:
            for names, head, scal in itertools.product(("std", "bare", "brace"), ("std", "vol", "brace"), (0, 1)):
                for ann in (0, 1, 2):
                    yield dict(d=dict(s, vals=st, names=names, head=head, scal=scal, comm="rich", NN=3), lay=dict(annot=ann) if ann else {})
        for ann, txt, tr in itertools.product((1, 2), ANN, ("", "  ")):
            yield dict(d=dict(s, NS=1, NN=2), lay=dict(annot=ann, anntext=txt, trail=tr))
        for xk in "udnfthgs":
            if s["ffi"] != 1020 or xk not in "nthg":
                yield dict(d=dict(s, xkind=xk), lay={})
    # no data records at all; larger sizes than the rest of the space
    for f in spec.FFIS:
        for NV in (1, 2):
            na = {1001: 0, 2110: 1, 2160: 2, 2310: 3}.get(f, 1)
            g = spec.NIV[f] - 1
            yield dict(d=dict(ffi=f, M=0, NX=[2] * g if f in spec.GRID else [], NXDEF=[2] * g, NV=NV, NAUXV=na, NAUXC=na // 2, NVPM=2, NS=1), lay={})
            sz = {1: 9, 2: 5, 3: 4}.get(g, 0)
            big_ = dict(ffi=f, M=13, NX=[sz + i for i in range(g)] if f in spec.GRID else [(m * 5) % 13 for m in range(11)], NXDEF=[sz + i if i != NV else 1 for i in range(g)],
                        NV=11 + NV, NAUXV=na + 9 if f != 1001 else 0, NAUXC=5, NVPM=11, NS=12, NN=11, dx=1)
            yield dict(d=big_, lay={})
            yield dict(d=big_, lay=dict(wrapd=7, wraph=4, annot=1))
    # every way of breaking records and header lists over lines (all patterns of up to 5 positions)
    for s in gen.small_structures():
        for n in range(1, 6 if big else 5):
            for bits in itertools.product("01", repeat=n):
                yield dict(d=dict(s, NV=3), lay=dict(wrapd="".join(bits), wraph="".join(bits)))
    # formats with marks that announce no records, text marks
    for f, na in ((2110, 2), (2310, 4)):
        for NX in gen.tuples((0, 1, 2), 3):
            for flag in (0, 1):
                yield dict(d=dict(ffi=f, NX=NX, NV=2, NAUXV=na, nxflag=flag, dx=1), lay={})
    for marks in (["Site A", "Site B"], ["A b  c", "12 34"], ["Only-one"], ["x,y", "z"], ["Long name of a station with many words", "b"]):
        for texts in (["12 h 15"], ["a", "two words"]):
            for cm in ("zzzz", "z z z", "no value"):
                yield dict(d=dict(ffi=2160, NX=[2] * len(marks), NV=2, NAUXV=3, NAUXC=2, marks=marks, texts=texts, cmiss=cm), lay={})
    # every header item, axis value and text in turn with every value of an alphabet
    for s in gen.small_structures():
        for c in gen.item_variants(s, heads=True):
            yield dict(d=c, lay={})
            if big:
                yield dict(d=c, lay=dict(annot=1, sep="\t"))
    # layouts
    smalls = gen.small_structures()
    for s in smalls:
        for lay in deviations({}, LAYS, 4 if big else 2):
            if lay.get("ignore") and s["ffi"] == 0:
                continue
            yield dict(d=dict(s), lay=lay)
    # wraps interact with lengths: every wrap width on every structure of the quick bounds
    for s in gen.structures("quick"):
        for w in (1, 2) if not big else (1, 2, 3, 4):
            yield dict(d=s, lay=dict(wrapd=w, wraph=w, annot=w % 3))


def run(case):
    d = gen.build(case["d"])
    lay = case["lay"]
    only = {k: v for k, v in lay.items() if k != "eol"}
    if case.get("raw"):
        with open(os.path.join(gen.SAMPLE_DIR, case["d"]["sample"])) as fh:
            t = fh.read()
    else:
        t = spec.encode(d, only)
    if not lay:                                           # the model agrees with itself
        msg = spec.diff(d, spec.decode(t))
        assert not msg, "encoder and decoder of the reference model differ: " + msg
    with open("in.na", "w", newline=lay.get("eol", "\n")) as fh:
        fh.write(t)
    ign = lay.get("ignore", 0)
    try:
        got = read_na("in.na", ign)
    except Exception as e:
        return dict(fail="well-formed file rejected: " + tb(e) + "\n" + t[:1500], sig=h(t))
    msg = spec.diff(d, got)
    if not msg:
        nl = int(t.split("\n")[ign].split()[0])
        if got.get("NLHEAD") not in (nl, nl + ign):
            msg = "NLHEAD: expected %d, got %r" % (nl, got.get("NLHEAD"))
    if msg:
        return dict(fail="read differs from the file: " + msg + "\n" + t[:1500], sig=h(t))
    return dict(sig=h(t))
