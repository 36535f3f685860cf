import configparser
import runner
from common import *

ID = "C05"
LEVEL = "exploration"
RULE = ("every combination of delimiter x float format x annotation x header on/off over datasets of every format; the lines of each output are compared item by item with a line model computed from the dataset "
        "by an independent encoder, with the labels of the annotations file, and header-less outputs with the tail of the full output. Distinct = distinct output texts.")
BOUNDS = {"quick": "9 delimiters x 6 float formats x 2 x 2 on small datasets, 4 option sets on all structures of the read bounds and 3 on structures with one dimension of up to 1001", "thorough": "all combinations on all structures of the quick read bounds"}
TIMEOUT = 15
DEF = "    "
DELIMS = [DEF, ",", "\t", " ", ", ", ";", "|", " : ", " % "]
FMTS = ["%.10g", "%s", "%8.3f", "%e", "%g", "%.2f"]
LABEL = None


def cases(tier):
    every = list(combos(fmt=FMTS, delim=DELIMS))
    for s in gen.small_structures():
        for st in ("seq", "frac", "exp"):
            for o in every:
                yield dict(d=dict(s, vals=st, scal=1), **o)
        for ns, nn in itertools.product(range(3), repeat=2):
            for o in every[:7]:
                yield dict(d=dict(s, NS=ns, NN=nn, comm="rich", head="vol"), **o)
        for c in gen.item_variants(s):
            text_ = c["set"][0][1] in gen.TEXTS
            for delim in (DELIMS if text_ or tier == "thorough" else (DEF, ",")):
                yield dict(d=c, fmt="%s", delim=delim)
    for s in gen.samples():
        for o in every:
            yield dict(d=s, **o)
    for s in gen.large(sizes=[99, 100, 101, 999, 1000, 1001]):
        for o in every[:3]:
            yield dict(d=s, **o)
    for s in gen.structures("quick"):
        for o in (every if tier == "thorough" else [every[0], every[1], every[14]]):
            yield dict(d=s, **o)


def labels():
    global LABEL
    if LABEL is None:
        c = configparser.ConfigParser()
        c.optionxform = str
        c.read(os.path.join(runner.REPO, "nappy", "config", "annotations.ini"))
        LABEL = {k: v for sec in c.sections() for k, v in c.items(sec)}
    return LABEL


def model(d):
    """[(label key, kind, items)] of the header then of the data."""
    hd = [("NLHEAD_FFI", "int", None)]
    for kind, name, items in spec.header_items(d):
        hd.append((name.replace(" ", "_"), kind, items))
    da = [("Data", kind, items) for kind, items in spec.data_records(d)]
    return hd, da


def split(line, delim):
    if not delim.strip():
        return line.split()
    return [x.strip() for x in line.split(delim.strip())]


def check(lines, rows, delim, fmt, d, isdata, nl):
    if len(lines) != len(rows):
        return "%d lines, expected %d" % (len(lines), len(rows))
    for line, (key, kind, items) in zip(lines, rows):
        if kind in ("text", "comment"):
            if line.strip() != items.strip():
                return "%s: text line %r, expected %r" % (key, line, items)
            continue
        if key == "NLHEAD_FFI":
            items = [nl, d["FFI"]]
        got = split(line, delim)
        if key == "DATE_RDATE":
            got = [x for g in got for x in g.split()]
        if len(got) != len(items):
            return "%s: items %r, expected %r" % (key, got, items)
        for g, it in zip(got, items):
            v, miss = it if isinstance(it, tuple) else (it, None)
            try:
                x = float(g)
            except ValueError:
                return "%s: item %r is no number (line %r)" % (key, g, line)
            if isdata or key == "X":
                want = (fmt % v).strip()
                if g != want and not (miss is not None and v == miss and x == miss):
                    return "%s: item %r, expected %r" % (key, g, want)
            elif x != v:
                return "%s: item %r, expected %r" % (key, g, v)
    return None


def check_annotated(ann, plain, rows, delim, label):
    """each annotated line is the label of the item (numbered from 1 or not at all), the delimiter and the plain line"""
    k, last, numbered = 0, None, None
    for a, p, (key, kind, items) in zip(ann, plain, rows):
        if not a.endswith(delim + p):
            return "annotated line %r is not a label, the delimiter and the plain line %r" % (a, p)
        lab = a[:len(a) - len(p) - len(delim)]
        want = label[key]
        k, first = (k + 1, False) if key == last else (1, True)
        last = key
        if lab == want:
            num = False
        elif lab == "%s %d" % (want, k):
            num = True
        else:
            return "annotated line %r: label %r, expected %r, possibly with the number %d" % (a, lab, want, k)
        if not first and num != numbered:
            return "annotated line %r: only some of the lines of the item are numbered" % a
        numbered = num
    return None


def run(case):
    d = gen.build(case["d"])
    nd = to_dict(d)
    fmt, delim = case["fmt"], case["delim"]
    out = {}
    try:
        for ann, noh in itertools.product((False, True), repeat=2):
            write_na("o.na", copy.deepcopy(nd), delimiter=delim, float_format=fmt, annotation=ann, no_header=noh)
            out[ann, noh] = text("o.na")
    except Exception as e:
        return dict(fail="writing failed: " + tb(e))
    sig = [h(t) for t in out.values()]
    hd, da = model(d)
    plain = lines_of(out[False, False])
    nl = len(hd)
    msg = check(plain[:nl], hd, delim, fmt, d, False, nl) or check(plain[nl:], da, delim, fmt, d, True, nl)
    if msg:
        return dict(fail="delimiter %r, format %r: %s\n%s" % (delim, fmt, msg, out[False, False][:1200]), sig=sig, n=4)
    if lines_of(out[False, True]) != plain[nl:]:
        return dict(fail="without header: not the lines that follow the header\n--- full\n%s\n--- no header\n%s" % (out[False, False][:900], out[False, True][:900]), sig=sig, n=4)
    ann = lines_of(out[True, False])
    if len(ann) != len(plain):
        return dict(fail="annotated file has %d lines, plain file %d\n%s" % (len(ann), len(plain), out[True, False][:1200]), sig=sig, n=4)
    msg = check_annotated(ann, plain, hd + da, delim, labels())
    if msg:
        return dict(fail=msg, sig=sig, n=4)
    if lines_of(out[True, True]) != ann[nl:]:
        return dict(fail="annotated without header: not the annotated data lines\n%s\n---\n%s" % (out[True, False][:900], out[True, True][:900]), sig=sig, n=4)
    return dict(sig=sig, n=4)
