import gc
import resource
import signal
import sys
import warnings
from common import *
from nch import *
from c16 import norm
from c17 import build as dataset
from c20 import dump

ID = "C30"
LEVEL = "fault_enumeration"
TECHNIQUE = "enumeration of every call x every way and place of failing (cut and damaged inputs, refused arguments, output refused from every byte on) and of all sequences of calls with the input rewritten in between, watching the open files of the process on the real code"
RULE = ("(a) every call of the public interface on every format and dataset kind, succeeding or refused (missing, cut at every line, damaged, wrong kind of input; unknown variables, bad limits, formats, overrides, missing directories, output equal to input, conflicting append); "
        "(b) output refused by the operating system from every byte position on; (c) every sequence of life-cycle steps of a file object; (d) every ordered pair (triple) of calls on the same name with the input rewritten in place, replaced or deleted and created between them. "
        "Oracle: the set of open files of the process is that before the call, without waiting for a garbage collection; rewriting succeeds; every result equals that of the call on an untouched file with the same contents. Distinct = distinct (call, outcome, result).")
BOUNDS = {"quick": "9 formats, 5 kinds of NetCDF dataset, every line of each input, every 7th byte position of outputs; all pairs", "thorough": "every byte of inputs and outputs; all triples"}
NOTE = "Exhaustive within these bounds: %s. Open files are those of /proc/self/fd. Outputs of the NetCDF library refused by the operating system are left out, as the library itself then keeps its file." % BOUNDS["quick"]
TIMEOUT = 120
KINDS = ["plain", "aux", "groups", "split", "bare"]


def fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append((int(f), os.readlink("/proc/self/fd/" + f)))
        except OSError:
            pass
    return sorted(out)


def watched(fn):
    """(outcome, files left open)"""
    before = fds()
    gc.disable()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = "ok", fn()
            except (Exception, SystemExit) as e:
                r = "refused", type(e).__name__
                e = None
        after = fds()
    finally:
        gc.enable()
    left = [x for x in after if x not in before]
    if left:
        gc.collect()
    return r, left


def quiet(fn):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


# ------------------------------------------------------------------ calls on NASA Ames files; each returns a comparable result

def plain_read(p, o):
    f = nappy.openNAFile(p)
    f.readData()
    d = repr(f.getNADict())
    f.close()
    return d


def with_read(p, o):
    with nappy.openNAFile(p) as f:
        f.readData()
        return repr(f.getNADict())


def dropped(p, o):
    f = nappy.openNAFile(p)
    f.readData()
    return repr(f.V)


def header_only(p, o):
    return repr(nappy.openNAFile(p).VNAME)


def objects(p, o):
    a, b, g = nappy.readXarrayObjectsFromNA(p)
    return repr([(v.name, v.values.tolist(), sorted(v.attrs)) for v in list(a) + list(b)])


def single(p, o):
    v = nappy.getXarrayVariableFromNA(p, 0)
    return repr((v.name, v.values.tolist()))


def to_nc(p, o):
    nappy.convertNAToNC(p, o + ".nc", time_warning=False)
    return dump(o + ".nc")


def to_csv(p, o):
    nappy.convertNAToCSV(p, o + ".csv")
    return text(o + ".csv")


def compare(p, o):
    put("other.na", text(p))
    return repr(quiet(lambda: nappy.compareNA(p, "other.na")))


NAOPS = dict(read=plain_read, withread=with_read, dropped=dropped, header=header_only, objects=objects, single=single, nc=to_nc, csv=to_csv, compare=compare)


# ------------------------------------------------------------------ calls on NetCDF files

def nc_na(p, o):
    return repr([norm(text(n)) for n in nappy.convertNCToNA(p, o + ".na")])


def nc_csv(p, o):
    return repr([norm(text(n)) for n in nappy.convertNCToCSV(p, o + ".csv")])


def nc_names(p, o):
    return repr(nappy.convertNCToNA(p, o + ".na", only_return_file_names=True))


def nc_one(p, o):
    return repr([norm(text(n)) for n in nappy.convertNCToNA(p, o + "v.na", var_ids=["v"])])


def nc_split(p, o):
    return repr([norm(text(n)) for n in nappy.convertNCToNA(p, o + "s.na", size_limit=2)])


def nc_object(p, o):
    import nappy.nc_interface.nc_to_na as m
    c = m.NCToNA(p)
    c.convert()
    c.writeNAFiles(o + "b.na")
    return repr([norm(text(n)) for n in c.output_files_written])


NCOPS = dict(na=nc_na, csv=nc_csv, names=nc_names, one=nc_one, split=nc_split, object=nc_object)


def refused():
    """calls that must not leave anything open although they are given wrong arguments; {name: f(na file, nc file)}"""
    c = nappy
    r = {}
    for n, kw in dict(format=dict(float_format="%q"), limit=dict(size_limit=0), override=dict(na_items_to_override={"DATE": ["x"]}), ffi=dict(requested_ffi=9999), ffi2=dict(requested_ffi=4010),
                      unknown=dict(var_ids=["nope"]), excluded=dict(exclude_vars=["v", "w", "g", "a", "b"]), onlyover=dict(na_items_to_override={"VNAME": ["x"]})).items():
        r["nc2na " + n] = lambda na, nc, kw=kw: c.convertNCToNA(nc, "x.na", **kw)
        r["nc2csv " + n] = lambda na, nc, kw=kw: c.convertNCToCSV(nc, "x.csv", **kw)
    r["nc2na self"] = lambda na, nc: c.convertNCToNA(nc, nc)
    r["nc2na dir"] = lambda na, nc: c.convertNCToNA(nc, "no/such/dir/x.na")
    r["nc2na is dir"] = lambda na, nc: c.convertNCToNA(nc, "adir")
    r["nc2na missing"] = lambda na, nc: c.convertNCToNA("zz.nc", "x.na")
    r["nc2na not nc"] = lambda na, nc: c.convertNCToNA(na, "x.na")
    r["na2nc self"] = lambda na, nc: c.convertNAToNC(na, na)
    r["na2nc dir"] = lambda na, nc: c.convertNAToNC(na, "no/such/dir/x.nc")
    r["na2nc missing"] = lambda na, nc: c.convertNAToNC("zz.na", "x.nc")
    r["na2nc not na"] = lambda na, nc: c.convertNAToNC(nc, "x.nc")
    r["na2nc variable"] = lambda na, nc: c.convertNAToNC(na, "x.nc", variables=["nope"])
    r["na2nc number"] = lambda na, nc: c.convertNAToNC(na, "x.nc", variables=[77])
    r["na2nc mode"] = lambda na, nc: c.convertNAToNC(na, "x.nc", mode="q")
    r["na2nc append"] = lambda na, nc: (c.convertNAToNC(na, "y.nc"), c.convertNAToNC(na, "y.nc", mode="a"))
    r["na2nc append text"] = lambda na, nc: c.convertNAToNC(na, "text", mode="a")
    r["na2csv self"] = lambda na, nc: c.convertNAToCSV(na, na)
    r["na2csv dir"] = lambda na, nc: c.convertNAToCSV(na, "no/such/dir/x.csv")
    r["na2csv missing"] = lambda na, nc: c.convertNAToCSV("zz.na", "x.csv")
    r["na2csv not na"] = lambda na, nc: c.convertNAToCSV(nc, "x.csv")
    r["open missing"] = lambda na, nc: c.openNAFile("zz.na")
    r["open directory"] = lambda na, nc: c.openNAFile("adir")
    r["open text"] = lambda na, nc: c.openNAFile("text")
    r["open ffi"] = lambda na, nc: c.openNAFile("ffi")
    r["open empty"] = lambda na, nc: c.openNAFile("empty")
    r["open mode"] = lambda na, nc: c.openNAFile(na, "q")
    r["write nothing"] = lambda na, nc: c.openNAFile("x.na", "w").write()
    r["write dir"] = lambda na, nc: c.openNAFile("no/such/dir/x.na", "w", na_dict=d_of(na)).write()
    r["write partial"] = lambda na, nc: c.openNAFile("x.na", "w", na_dict={k: v for k, v in d_of(na).items() if k != "VNAME"}).write()
    r["write bad"] = lambda na, nc: c.openNAFile("x.na", "w", na_dict=dict(d_of(na), V=[["x"]])).write()
    r["objects missing"] = lambda na, nc: c.readXarrayObjectsFromNA("zz.na")
    r["objects text"] = lambda na, nc: c.readXarrayObjectsFromNA("text")
    r["single unknown"] = lambda na, nc: c.getXarrayVariableFromNA(na, "nope")
    r["single number"] = lambda na, nc: c.getXarrayVariableFromNA(na, 77)
    r["compare missing"] = lambda na, nc: quiet(lambda: c.compareNA(na, "zz.na"))
    r["compare text"] = lambda na, nc: quiet(lambda: c.compareNA(na, "text"))
    r["dict to nc"] = lambda na, nc: c.writeNADictToNC(d_of(na), "x.nc")
    r["dict to nc dir"] = lambda na, nc: c.writeNADictToNC(d_of(na), "no/such/dir/x.nc")
    r["bad dict to nc"] = lambda na, nc: c.writeNADictToNC({"FFI": 1001}, "x.nc")
    return r


def d_of(na):
    return read_na(na)


def cases(tier):
    big = tier == "thorough"
    small = gen.small_structures()
    seen = set()
    smalls = [s for s in small if not (s["ffi"] in seen or seen.add(s["ffi"]))]
    for s in small:
        for op in NAOPS:
            yield dict(part="ok", d=s, op=op)
    for k in KINDS:
        for op in NCOPS:
            yield dict(part="ok", kind=k, op=op)
    for s in smalls:
        for k in KINDS:
            for r in refused():
                if big or s["ffi"] == 1001 or k == "plain":
                    yield dict(part="refused", d=s, kind=k, what=r)
    for s in small if big else smalls:
        for op in NAOPS:
            yield dict(part="cut", d=s, op=op, by="byte" if big else "line")
    for k in KINDS:
        yield dict(part="cutnc", kind=k)
    for s in small if big else smalls:
        for op in ("write", "with", "csv"):
            yield dict(part="full", d=s, op=op, step=1 if big else 7)
    for k in KINDS:
        for op in ("na", "csv", "split", "object"):
            yield dict(part="full", kind=k, op=op, step=3 if big else 17)
    for n in (1, 2, 3, 4, 5) if big else (1, 2, 3, 4):
        for ops in itertools.product(["read", "close", "with", "dict", "again", "write"] + (["xerr"] if n < 4 or big else []), repeat=n):
            yield dict(part="life", d=smalls[len("".join(ops)) % len(smalls)], ops=ops)
    for seq in itertools.product(sorted(NAOPS), repeat=3 if big else 2):
        for way in WAYS:
            for s in smalls if len(seq) == 2 and way == "replace" else smalls[:1]:
                yield dict(part="seq", d=s, seq=seq, way=way)
                yield dict(part="seq", d=s, seq=seq, way=way, other=1)
    for seq in itertools.product(sorted(NCOPS), repeat=3 if big else 2):
        for way in WAYS:
            for k in KINDS:
                yield dict(part="seq", kind=k, seq=seq, way=way)
                yield dict(part="seq", kind=k, seq=seq, way=way, other=1)


WAYS = ["inplace", "replace", "delete"]


def run(case):
    return globals()["run_" + case["part"]](case)


def leak(where, left):
    return dict(fail="%s leaves open: %s" % (where, ", ".join(p for _, p in left)))


def run_ok(case):
    if "d" in case:
        ops, p = NAOPS, "f.na"
        put(p, spec.encode(gen.build(case["d"])))
    else:
        ops, p = NCOPS, "f.nc"
        make_nc(p, dataset(case["kind"]))
    sig = []
    for i in range(3):
        r, left = watched(lambda: ops[case["op"]](p, "o"))
        if left:
            return leak("call %d of %s" % (i + 1, case["op"]), left)
        if r[0] != "ok" and not ("d" in case and case["d"]["ffi"] in (2110, 2160, 2310) and case["op"] in ("nc", "objects", "single")):
            return dict(fail="%s is refused: %s" % (case["op"], r[1]))
        sig.append(r)
        if r != sig[0]:
            return dict(fail="call %d of %s gives another result" % (i + 1, case["op"]))
        for n in os.listdir("."):
            if n != p:
                os.remove(n)
    return dict(n=3, transitions=3, sig=h(repr(sig)))


def run_refused(case):
    put("f.na", spec.encode(gen.build(case["d"])))
    make_nc("f.nc", dataset(case["kind"]))
    put("text", "some text\nmore text\n")
    put("ffi", "5 7777\n")
    put("empty", "")
    os.mkdir("adir")
    f = refused()[case["what"]]
    sig = []
    for i in range(2):
        r, left = watched(lambda: (f("f.na", "f.nc"), 0)[1])
        if left:
            return leak("%s (%s)" % (case["what"], r[1]), left)
        sig.append(r[1])
    # the inputs are free
    put("f.na", "new")
    os.remove("f.nc")
    make_nc("f.nc", dataset("bare"))
    return dict(n=2, sig=h(repr((case["what"], sig))))


def run_cut(case):
    t = spec.encode(gen.build(case["d"]))
    if case["by"] == "byte":
        at = range(len(t))
    else:
        at = [i for i in range(len(t)) if t[i - 1:i] == "\n" or i == 0] + [i for i in range(1, len(t), 29)]
    sig = []
    for i in at:
        put("f.na", t[:i])
        r, left = watched(lambda: NAOPS[case["op"]]("f.na", "o"))
        if left:
            return leak("%s of a file cut after %d bytes (%s)" % (case["op"], i, r[1]), left)
        sig.append(r[0])
    lines = t.split("\n")
    for i in range(len(lines)):
        for new in ([], ["x"], ["1 2 3 4 5 6 7 8 9"], ["-1"], [""]):
            put("f.na", "\n".join(lines[:i] + new + lines[i + 1:]))
            r, left = watched(lambda: NAOPS[case["op"]]("f.na", "o"))
            if left:
                return leak("%s of a file with line %d replaced by %s (%s)" % (case["op"], i, new, r[1]), left)
            sig.append(r[0])
    return dict(n=len(sig), sig=h(repr((case["op"], sig))))


def run_cutnc(case):
    make_nc("g.nc", dataset(case["kind"]))
    with open("g.nc", "rb") as fh:
        b = fh.read()
    sig = []
    for i in sorted(set(list(range(0, 64, 4)) + list(range(0, len(b), max(1, len(b) // 40))))):
        for op in NCOPS:
            with open("f.nc", "wb") as fh:
                fh.write(b[:i])
            r, left = watched(lambda: NCOPS[op]("f.nc", "o"))
            if left:
                return leak("%s of a NetCDF file cut after %d bytes (%s)" % (op, i, r[1]), left)
            sig.append(r[0])
    return dict(n=len(sig), sig=h(repr(sig)))


class limited:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.h = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.h)


def run_full(case):
    if "d" in case:
        p = put("f.na", spec.encode(gen.build(case["d"])))
        nd = to_dict(gen.build(case["d"]))

        def write():
            nappy.openNAFile("o.na", "w", na_dict=copy.deepcopy(nd)).write()

        def within():
            with nappy.openNAFile("o.na", "w", na_dict=copy.deepcopy(nd)) as f:
                f.write()
        op = dict(write=write, csv=lambda: nappy.convertNAToCSV(p, "o.csv"))
        op["with"] = within
        op = op[case["op"]]
    else:
        make_nc("f.nc", dataset(case["kind"]))
        op = lambda: NCOPS[case["op"]]("f.nc", "o")
    keep = set(os.listdir("."))
    op()
    size = max(os.path.getsize(n) for n in os.listdir(".") if n not in keep)
    sig = []
    for i in sorted(set(range(0, size + 2, case["step"])) | {size - 1, size, size + 1}):
        for n in os.listdir("."):
            if n not in keep:
                os.remove(n)

        def go():
            with limited(i):
                op()
        r, left = watched(go)
        if left:
            return leak("%s with output refused after %d of %d bytes (%s)" % (case["op"], i, size, r[1]), left)
        if (r[0] == "ok") != (i >= size):
            return dict(fail="%s with output refused after %d of %d bytes: %s" % (case["op"], i, size, r[0]))
        sig.append(r[1] if r[0] != "ok" else "ok")
    return dict(n=len(sig), sig=h(repr(case)))


def run_life(case):
    """steps on a file object; the file is open at most until close, the end of the with block or the end of the object"""
    p = os.path.abspath("f.na")
    put(p, spec.encode(gen.build(case["d"])))
    before = fds()
    seen = []

    def body():
        f = nappy.openNAFile(p)
        for o in case["ops"]:
            try:
                if o == "read":
                    f.readData()
                elif o == "close":
                    f.close()
                elif o == "with":
                    with f:
                        f.readData()
                elif o == "xerr":
                    with f:
                        f.readData()
                        raise KeyError(o)
                elif o == "dict":
                    f.getNADict()
                elif o == "write":
                    f.write()
                else:
                    f = nappy.openNAFile(p)
                r = "ok"
            except Exception as e:
                r = type(e).__name__
                e = None
            seen.append((o, r))
            now = [x for x in fds() if x not in before]
            if len(now) > 1 or any(q != p for _, q in now):
                return leak("after %s" % seen, now)
            if o in ("close", "with", "xerr") and now:
                return leak("after %s" % seen, now)
    gc.disable()
    try:
        fail = body()
        left = [x for x in fds() if x not in before]
    finally:
        gc.enable()
    if fail:
        return fail
    if left:
        return leak("after discarding the object, steps %s" % seen, left)
    return dict(n=1, transitions=len(seen), sig=h(repr(seen)))


def contents(case, i):
    """writes the i-th contents; every other one is of another format or kind if the case says so"""
    if "d" in case:
        d = gen.build(case["d"])
        if case.get("other") and i % 2:
            d = gen.build(next(s for s in gen.small_structures() if s["ffi"] == (1010 if d["FFI"] != 1010 else 2010)))
        d["ORG"] = "Organisation %d" % i
        v = d["V"][0]
        while isinstance(v[0], list):
            v = v[0]
        v[0] = 5000.0 + i
        return lambda p: put(p, spec.encode(d))
    kind = case["kind"]
    if case.get("other") and i % 2:
        kind = KINDS[(KINDS.index(kind) + 1) % len(KINDS)]
    ds = dataset(kind)
    ds["gattrs"]["project"] = "Project %d" % i
    ds["vars"][0]["data"][0] = 7000.0 + i
    return lambda p: make_nc(p, ds)


def run_seq(case):
    ops, ext = (NAOPS, ".na") if "d" in case else (NCOPS, ".nc")
    p = "in" + ext
    sig = []
    for i, o in enumerate(case["seq"]):
        make = contents(case, i)
        make("fresh%d%s" % (i, ext))
        os.rename("fresh%d%s" % (i, ext), "tmp")
        # the same name in a directory of its own
        os.mkdir("d%d" % i)
        os.rename("tmp", "d%d/%s" % (i, p))
        here = os.getcwd()
        os.chdir("d%d" % i)
        want, left = watched(lambda: ops[o](p, "o"))
        os.chdir(here)
        if left:
            return leak(o, left)
        if case["way"] == "inplace":
            make(p)
        elif case["way"] == "replace":
            make("new")
            os.replace("new", p)
        else:
            if os.path.exists(p):
                os.remove(p)
            make(p)
        got, left = watched(lambda: ops[o](p, "o"))
        if left:
            return leak("step %d of %s" % (i, case["seq"]), left)
        if got != want:
            return dict(fail="step %d of %s after the input was rewritten (%s):\n%s\n-- instead of --\n%s" % (i, case["seq"], case["way"], str(got)[:800], str(want)[:800]))
        sig.append(got)
    return dict(n=len(sig), transitions=len(sig), sig=h(repr(sig)))
