from common import *

ID = "C09"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault enumeration on the real reader: every truncation point, every single-item fault at every position, every blank line and every wrong header length of every file in the bounds, within time and memory limits"
RULE = ("for files of every structure and layout: every cut after a line of the header or inside a data record, each numeric header and data item removed, duplicated, followed or preceded by a surplus item and replaced by each non-numeric text, each whole number of the header given a fraction, a blank line before "
        "any data record, and every declared header length other than the right one within the range; opening and reading must raise within the time and memory limit (the uncorrupted file must be accepted). "
        "A state is a corrupted file; a transition is one fault applied to a good file.")
BOUNDS = {"quick": "10 small structures in 5 layouts with every fault; 90 structures in 2 layouts with every fault", "thorough": "additionally every structure of the quick read bounds in 2 layouts"}
TIMEOUT = 120
MEM = 2 << 30
LAYOUTS = [{}, {"wraph": 1, "wrapd": 1}, {"wraph": 2, "wrapd": 2}, {"annot": 2, "endblank": 2}, {"noeol": 1, "ignore": 2, "sep": " ", "indent": " "}]
BAD = ["abc", "1.2.3", "--5", "1e", "12,5x", "1_2", "\u0663"]


def cases(tier):
    for s in gen.small_structures():
        for l in LAYOUTS:
            yield dict(d=s, l=l)
        yield dict(d=dict(s, NS=0, NN=0), l={})
        yield dict(d=dict(s, NS=3, NN=3, comm="rich"), l={})
    st = gen.structures("quick")
    step = 1 if tier == "thorough" else max(1, len(st) // 90)
    for i, s in enumerate(st[::step]):
        yield dict(d=s, l={})
        yield dict(d=s, l=LAYOUTS[1 + i % 4])


def faults(d, L):
    """(name, text) of every corrupted file."""
    Lf = dict(spec.LAYOUT)
    Lf.update(L)
    ign = Lf["ignore"]
    hl, dl, ks = spec.encode_lines(d, L, kinds=True)
    top = hl[ign]

    def join(lines, eol=True):
        return "\n".join(lines) + ("\n" if eol and lines else "")
    # truncation: every number of header lines but the whole header
    for k in range(len(hl)):
        yield "cut after %d of %d header lines" % (k, len(hl)), join(hl[:k])
        if k and not Lf["noeol"]:
            yield "cut after %d of %d header lines, no newline" % (k, len(hl)), join(hl[:k], False)
    # inside a record of data: a record (group) is everything that belongs to one mark
    ends = mark_ends(d, ks)
    for k in range(1, len(dl)):
        if k not in ends:
            yield "cut after data line %d of %d" % (k, len(dl)), join(hl + dl[:k])
            yield "cut after data line %d of %d, no newline" % (k, len(dl)), join(hl + dl[:k], False)
    # blank lines before data lines
    for k in range(len(dl)):
        for b in ("", "   "):
            yield "blank line before data line %d" % (k + 1), join(hl + dl[:k] + [b] + dl[k:])
    # declared header length
    n = len(hl) - ign
    for m in sorted(set(range(-1, n + len(dl) + 2)) | {n + 1000, 10 * n}):
        if m != n:
            yield "declared length %d instead of %d" % (m, n), join(hl[:ign] + [top.replace(str(n), str(m), 1)] + hl[ign + 1:] + dl)
    # single items on the first line
    for i in range(2):
        for nm, toks in items([str(n), str(d["FFI"])], i, True):
            yield "first line item %d %s" % (i, nm), join(hl[:ign] + [Lf["sep"].join(toks)] + hl[ign + 1:] + dl)
    # single items elsewhere
    H = spec.header_items(d)
    R = spec.data_records(d)
    for j, (kind, name, payload) in enumerate(H):
        if kind in ("num", "int", "wrap", "wrapint"):
            for i in range(len(payload)):
                for nm, toks in items([spec.num(v) for v in payload], i, kind in ("int", "wrapint")):
                    H2 = H[:j] + [(kind, name, toks)] + H[j + 1:]
                    yield "%s item %d %s" % (name, i + 1, nm), enc(d, L, H2, R, n)
    for j, (kind, payload) in enumerate(R):
        if kind == "rec":
            for i in range(len(payload)):
                for nm, toks in items([spec.num(v) for v, _ in payload], i):
                    if nm == "removed" and Lf["wrapd"] == 1:
                        # the line of the item stays, blank
                        hl2, dl2, ks2 = hl, list(dl), ks
                        pos = [p for p, k in enumerate(ks) if k[1] == j][i]
                        dl2[pos] = ""
                        yield "data record %d item %d removed" % (j + 1, i + 1), join(hl2 + dl2)
                    else:
                        R2 = R[:j] + [("rec", [(t, None) for t in toks])] + R[j + 1:]
                        yield "data record %d item %d %s" % (j + 1, i + 1, nm), enc(d, L, H, R2, n)


def mark_ends(d, ks):
    """Line counts of the data section that end a complete mark."""
    f = d["FFI"]
    recs = spec.data_records(d)
    per = []
    M = len(d["X"][0]) if f in spec.GRID else len(d["X"])
    if f == 1001:
        per = [1] * M
    elif f == 1010:
        per = [2] * M
    elif f == 1020 or f in spec.GRID:
        per = [len(recs) // M] * M
    elif f == 2110:
        per = [1 + d["NX"][m] for m in range(M)]
    elif f == 2310:
        per = [1 + (d["NV"] if d["NX"][m] else 0) for m in range(M)]
    else:
        per = [2 + d["NAUXC"] + d["NX"][m] for m in range(M)]
    assert sum(per) == len(recs), (per, len(recs))
    ends = set()
    tot = 0
    for p in per:
        tot += p
        ends.add(len([k for k in ks if k[1] < tot]))
    return ends


def still_wellformed(d, data):
    """Whether faulty wrapped data of a format with varying record counts happen to form other complete records."""
    f = d["FFI"]
    lines = [l.split("{")[0].split() for l in data]

    def take(p, n):
        got = []
        while len(got) < n:
            if p >= len(lines) or not lines[p]:
                raise ValueError
            got += lines[p]
            p += 1
        if len(got) > n:
            raise ValueError
        return p, [float(x) for x in got]
    p = 0
    try:
        while p < len(lines):
            if f == 2160:
                p += 1
                p, a = take(p, d["NAUXV"] - d["NAUXC"])
                p += d["NAUXC"]
                if p > len(lines):
                    raise ValueError
                nx = a[0]
            else:
                p, a = take(p, 1 + d["NAUXV"])
                nx = a[1]
            nx = 0 if nx == d["AMISS"][0] else int(nx)
            if f == 2310:
                p, _ = take(p, d["NV"] * nx)
            else:
                for _ in range(nx):
                    p, _v = take(p, 1 + d["NV"])
        return True
    except (ValueError, OverflowError):
        return False


def items(toks, i, whole=False):
    yield "removed", toks[:i] + toks[i + 1:]
    yield "duplicated", toks[:i + 1] + toks[i:]
    yield "followed by another", toks[:i + 1] + ["3"] + toks[i + 1:]
    if i == 0:
        yield "preceded by another", ["7.5"] + toks
        yield "preceded by 0", ["0"] + toks
    for b in BAD:
        yield "replaced by %s" % b, toks[:i] + [b] + toks[i + 1:]
    if whole:
        for b in (".5", ".999", "e-1"):
            yield "with %s at the end" % b, toks[:i] + [toks[i] + b] + toks[i + 1:]


def enc(d, L, H, R, n):
    h0, r0 = spec.header_items, spec.data_records
    spec.header_items, spec.data_records = (lambda _d: H), (lambda _d: R)
    try:
        hl, dl = spec.encode_lines(d, L)
    finally:
        spec.header_items, spec.data_records = h0, r0
    return "\n".join(hl + dl) + "\n"


def attempt(t, ign):
    put("f.na", t)
    f = None
    try:
        f = nappy.openNAFile("f.na", ignore_header_lines=ign) if ign else nappy.openNAFile("f.na")
        f.readData()
        return None, repr(f.getNADict())
    except MemoryError:
        return "memory", ""
    except RecursionError:
        return "recursion", ""
    except Exception as e:
        return type(e).__name__, ""
    finally:
        if f is not None:
            f.close()


def run(case):
    d = gen.build(case["d"])
    L = case["l"]
    ign = L.get("ignore", 0)
    out, good = attempt(spec.encode(d, L), ign)
    if out:
        return dict(fail="the uncorrupted file is refused (%s)\n%s" % (out, spec.encode(d, L)), key="good file refused %s" % case["d"]["ffi"])
    n = 0
    kinds = {}
    nh = len(spec.encode_lines(d, L)[0])
    for name, t in faults(d, L):
        if L.get("wrapd") and d["FFI"] in spec.RAGGED and name.startswith("data record") and still_wellformed(d, t.rstrip("\n").split("\n")[nh:]):
            continue
        n += 1
        out, got = attempt(t, ign)
        if out is None:
            return dict(fail="%s: accepted and read as\n%s\nfile:\n%s" % (name, got[:1500], t[:2500]), n=n, key="%s %s" % (case["d"]["ffi"], name))
        if out in ("memory", "recursion"):
            return dict(fail="%s: runs out of %s\n%s" % (name, out, t[:2000]), n=n)
        kinds[out] = kinds.get(out, 0) + 1
    return dict(n=n, states=n + 1, transitions=n, traces=n + 1, sig=h(repr(sorted(kinds.items()))))
