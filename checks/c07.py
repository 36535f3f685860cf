from common import *
import nappy.nc_interface.na_to_nc
import nappy.nc_interface.na_to_xarray

ID = "C07"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over all sequences of read, query and conversion calls on a real open file object, compared in every state with a freshly opened file read once"
RULE = ("every sequence of operations (read the data, ask for the dictionary, ask all metadata queries, convert the open file to in-memory variables, to NetCDF, write what getNADict gives, index items, "
        "change the dictionary that was handed out is not among them) up to the depth bound on an open file of every structure; after every sequence the dictionary, every query and every conversion must equal "
        "those of a freshly opened file on which the data was read once. A state is the observable content after a sequence; transitions are operations.")
BOUNDS = {"quick": "all sequences of <=4 of 7 operations on 2 small datasets of each of the 9 formats, <=3 on 40 structures and on axes of time converted with and without units, selection and renaming", "thorough": "depth 5; depth 4 on 120 structures"}
TIMEOUT = 60
OPS = ["read", "dict", "query", "xr", "nc", "write", "item"]
CANNOT = (2110, 2160, 2310)


def cases(tier):
    big = tier == "thorough"
    smalls = gen.small_structures()
    for s in smalls:
        for n in range(1, (5 if big else 4) + 1):
            ops = [o for o in OPS if n <= 3 or o not in ("item",)]
            if s["ffi"] in CANNOT:
                ops = [o for o in ops if o not in ("xr",)]
            first = itertools.product(ops, repeat=min(n, 2))
            for pre in first:
                yield dict(d=s, pre=pre, n=n, ops=ops)
    for s in smalls:                        # axes of time whose units are given in the call, selections and new names
        if s["ffi"] not in CANNOT:
            for name in ("Time of day", "time", "Elapsed time (minutes)"):
                for n in range(1, 5 if big else 4):
                    yield dict(d=dict(s, set=[["XNAME.0", name]]), pre=[], n=n, ops=["read", "dict", "query", "nc", "units", "some"])
    for s in smalls:                        # comments with the lines by which nappy structures those that it writes
        for n in range(1, 5 if big else 4):
            yield dict(d=dict(s, comm="marks", NS=6, NN=7), pre=[], n=n, ops=["read", "dict", "query", "nc"] if s["ffi"] in CANNOT else ["read", "dict", "query", "nc", "xr", "write"])
    for s in gen.samples():
        for n in range(1, 4 if big else 3):
            yield dict(d=s, pre=[], n=n, ops=[o for o in OPS if s["ffi"] not in CANNOT or o != "xr"])
    st = gen.structures("quick")
    step = max(1, len(st) // (120 if big else 40))
    for s in st[::step]:
        for n in range(1, 4 + (1 if big else 0)):
            yield dict(d=s, pre=[], n=n, ops=[o for o in OPS if o not in ("item", "write")])


def queries(f):
    out = []
    for name in ("getVariables", "getIndependentVariables", "getAuxVariables", "getNumHeaderLines", "getFFI", "getOriginator", "getOrganisation", "getOrg", "getSource", "getMission",
                 "getVolumes", "getFileDates", "getNormalComments", "getSpecialComments"):
        out.append((name, getattr(f, name)()))
    for i in range(f["NV"]):
        out.append(("var%d" % i, f.getVariable(i), f.getMissingValue(i), f.getScaleFactor(i)))
    for i in range(f["NIV"]):
        out.append(("ivar%d" % i, f.getIndependentVariable(i)))
    return repr(out)


def xr_text(res):
    prim, aux, ga = res
    out = []
    for v in list(prim) + list(aux):
        out.append((v.name, v.dims, v.values.tolist(), sorted((k, repr(x)) for k, x in v.attrs.items()),
                    [(c, v.coords[c].values.tolist()) for c in v.coords]))
    return repr(out) + repr([(k, v) for k, v in ga if k != "history"])


def conv(f):
    try:
        return xr_text(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(f, time_warning=False).convert())
    except Exception as e:
        return "E " + type(e).__name__


def conv_nc(f, o="nc"):
    try:
        return xr_text(nappy.nc_interface.na_to_nc.NAToNC(f, time_warning=False, **copy.deepcopy(CALLS[o])).convert())
    except Exception as e:
        return "E " + type(e).__name__


CALLS = {"nc": dict(), "units": dict(time_units="hours since 2003-04-30 10:00:00"), "some": dict(variables=[0], rename_variables={"variable_number_1": "renamed", "v1": "renamed"}, global_attributes=[("note", "n")])}


def op(f, o, ref):
    """Performs an operation; returns a complaint if its own answer is wrong although the data has been read."""
    if o == "read":
        f.readData()
    elif o == "dict":
        d = f.getNADict()
        if f["V"] is not None and repr(d) != ref["dict"]:
            return "getNADict gives\n%s\nexpected\n%s" % (repr(d)[:1500], ref["dict"][:1500])
    elif o == "query":
        q = queries(f)
        if q != ref["query"]:
            return "queries give\n%s\nexpected\n%s" % (q[:1500], ref["query"][:1500])
    elif o == "xr":
        c = conv(f)
        if c != ref["xr"]:
            return "conversion gives\n%s\nexpected\n%s" % (c[:1500], ref["xr"][:1500])
    elif o in CALLS:
        c = conv_nc(f, o)
        if c != ref[o]:
            return "conversion gives\n%s\nexpected\n%s" % (c[:1500], ref[o][:1500])
    elif o == "write":
        if f["V"] is None:
            return None
        write_na("o.na", f.getNADict())
        t = text("o.na")
        if t != ref["write"]:
            return "the written dictionary is\n%s\nexpected\n%s" % (t[:1500], ref["write"][:1500])
    elif o == "item":
        for k in ("X", "V", "A", "NX", "DX", "NIV", "ANAME"):
            f[k]
    return None


def run(case):
    put("in.na", spec.encode(gen.build(case["d"])))

    def fresh():
        f = nappy.openNAFile("in.na")
        f.readData()
        return f
    ref = {}
    f = fresh()
    ref["dict"] = repr(f.getNADict())
    write_na("o.na", fresh().getNADict())
    ref["write"] = text("o.na")
    ref["query"] = queries(fresh())
    ref["xr"] = conv(fresh())
    for o in CALLS:
        ref[o] = conv_nc(fresh(), o)
    if case["d"]["ffi"] not in CANNOT and (ref["xr"][:2] == "E " or ref["nc"][:2] == "E "):
        return dict(fail="cannot convert an open file: %s %s" % (ref["xr"][:60], ref["nc"][:60]))
    rest = case["n"] - len(case["pre"])
    n = tr = 0
    states = set()
    for more in itertools.product(case["ops"], repeat=rest):
        seq = list(case["pre"]) + list(more)
        f = nappy.openNAFile("in.na")
        n += 1
        for i, o in enumerate(seq):
            tr += 1
            try:
                msg = op(f, o, ref)
            except Exception as e:
                msg = tb(e)
            if msg:
                return dict(fail="%s: after %s %s" % (o, " ".join(seq[:i]) or "opening", msg), states=len(states), transitions=tr, traces=n, n=n)
        if f["V"] is None:
            f.readData()
        d = repr(f.getNADict())
        states.add(h(repr((f["X"], f["V"], f["A"]))) + str(len(seq)) + seq[-1])
        if d != ref["dict"]:
            return dict(fail="after %s the dictionary is\n%s\nexpected\n%s" % (" ".join(seq), d[:1500], ref["dict"][:1500]), states=len(states), transitions=tr, traces=n, n=n)
        if queries(f) != ref["query"]:
            return dict(fail="after %s the queries are\n%s\nexpected\n%s" % (" ".join(seq), queries(f)[:1500], ref["query"][:1500]), n=n)
        f.close()
    return dict(n=n, states=len(states), transitions=tr, traces=n, sig=[h(repr(case["d"])) + s for s in states])
